#!/usr/bin/env python3
"""Deterministic simulation of code generated by pin-project: build, search, minimise, report.

    check.py <PROPERTY>            run the check of one property (VERIF_SEED, VERIF_TIER)
    check.py replay <FILE>         reproduce a recorded violation against /repo's current tree
    check.py determinism [SEEDS]   run many seeds twice in different processes and compare histories
    check.py selftest              build and run a tiny zoo
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "gen"))
import flow  # noqa: E402
import zoo  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
REPLAYS = os.path.join(HERE, "replays")
EDITIONS = ["2018", "2021", "2024"]
CORES = 8
START = time.time()

# ------------------------------------------------------------------------------ what each check runs

# profile: operation weights in the simulator; zoo/flow: (types per shard) / (adapter sets, trees per set)
PLAN = {
    "C01": dict(zoo="C01", n=170, runs=70000),
    "C02": dict(zoo="C02", n=160, runs=50000, flows=(2, 24), fruns=40000),
    "C03": dict(zoo="C03", n=200, runs=70000),
    "C04": dict(zoo="C04", n=170, runs=70000),
    "C05": dict(zoo="C05", n=150, runs=70000),
    "C06": dict(zoo="C06", n=200, runs=70000),
    "C07": dict(zoo=None, n=0, runs=0, flows=(12, 40), fruns=200000),
    "C08": dict(zoo="C08", n=80, runs=25000, race=60),
    "C09": dict(zoo="C09", n=36, runs=0, flows=(1, 16), fruns=0, miri=True, race=60),
}
SHARDS = 8
HANG_S = 40   # one run takes milliseconds; no progress for this long is a hang
MIRI_MODES = [("tree", "-Zmiri-tree-borrows"), ("stacked", "")]

RULE = {
    "C01": "seeded histories over a seeded zoo of definitions that enable project_replace; non-trivial: at least one project_replace ran; distinct: different hash of the full event history",
    "C02": "seeded histories over a seeded zoo and over adapter trees; non-trivial: at least one leaf of a pinned field was sighted through a pin (zoo) or polled (flows); distinct: different hash of the full event history",
    "C03": "seeded histories over a seeded zoo; non-trivial: at least one mutable or shared projection was compared with direct access; distinct: different hash of the full event history",
    "C04": "seeded histories over types with custom pinned destructors; non-trivial: at least one destructor body ran; distinct: different hash of the full event history",
    "C05": "seeded histories; non-trivial: at least one destruction of two or more tracked leaves was compared with its expected order; distinct: different hash of the full event history",
    "C06": "seeded histories with move attempts by safe code; non-trivial: at least one move was attempted; distinct: different hash of the full event history",
    "C07": "seeded schedules of task trees run twice (projections, boxed reference) under the same decisions; non-trivial: at least one leaf was polled; distinct: different hash of the full event history",
    "C08": "seeded schedules of 2-3 threads over shared and exclusive values; non-trivial: at least one thread switch or nested operation happened; distinct: different hash of the full event history",
    "C09": "seeded histories executed by Miri (Tree Borrows and Stacked Borrows); non-trivial: at least one operation of generated code ran; distinct: different hash of the full event history",
}
REAL = ["pin-project and pin-project-internal from /repo's working tree: attribute, derive, #[pinned_drop] expansion, __private guards, Unpin helper types",
        "rustc's drop glue, unwinding and trait selection", "std Pin/Box/Arc/Mutex", "C08: real OS threads (one running at a time), and free-running threads interpreted by Miri", "C09: Miri's memory model (Tree Borrows and Stacked Borrows)"]
STUB = ["field values (tracked leaves with scripted destructors)", "thread scheduler (seeded baton)", "task executor, wakers, timers, clock, events, semaphore (flows)",
        "destructor bodies and callers (generated)"]


class HarnessError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def write(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


# ------------------------------------------------------------------------------ generated workspaces


class Work:
    """One generated workspace: some shards, each with a zoo and/or adapter sets."""

    def __init__(self, name, prop, seed, shards, plan, only=None):
        self.name, self.prop, self.seed, self.plan = name, prop, str(seed), plan
        self.root = os.path.join(BUILD, name)
        self.target = os.path.join(self.root, "target")
        self.shards = list(only) if only is not None else list(range(shards))
        self.units = {}     # (shard, file stem) -> text
        self.defs = {}      # (shard, stem) -> type definition
        self.dropped = []   # (shard, stem, regions, first message)
        self.collateral = 0
        self.bins = {}
        self.n_types = self.n_insts = self.n_trees = self.n_sets = 0
        for s in self.shards:
            if plan.get("zoo"):
                for d in zoo.build_zoo(self.seed, plan["zoo"], s, plan["n"], s * 1000 + 1):
                    self.units[(s, f"t{d.id}")] = zoo.render_type(d)
                    self.defs[(s, f"t{d.id}")] = d
            if plan.get("flows"):
                sets, trees = plan["flows"]
                for k in range(sets):
                    text, names = flow.build_flows(self.seed, f"{prop}.{k}", s, trees)
                    self.units[(s, f"f{k}")] = text
                    self.defs[(s, f"f{k}")] = names

    def digest(self):
        h = hashlib.sha256()
        for k in sorted(self.units):
            h.update(f"{k}".encode() + self.units[k].encode())
        return h.hexdigest()[:16]

    def drop(self, keys):
        for k in keys:
            self.units.pop(k, None)

    def render(self):
        mem = []
        for s in self.shards:
            stems = [k[1] for k in sorted(self.units, key=lambda k: (k[0], k[1][0], int(k[1][1:]))) if k[0] == s]
            d = os.path.join(self.root, f"s{s}")
            mem.append(f'"s{s}"')
            src = os.path.join(d, "src")
            os.makedirs(src, exist_ok=True)
            for f in os.listdir(src):
                if f != "main.rs" and f[:-3] not in stems:
                    os.remove(os.path.join(src, f))
            write(os.path.join(d, "Cargo.toml"), f'[package]\nname = "s{s}"\nversion = "0.0.0"\nedition = "{EDITIONS[s % 3]}"\npublish = false\n\n[dependencies]\n'
                  f'simcore = {{ path = "{HERE}/sim/core" }}\npin-project = {{ path = "{REPO}" }}\n')
            for st in stems:
                write(os.path.join(src, st + ".rs"), self.units[(s, st)])
            ts = [st for st in stems if st[0] == "t"]
            fs = [st for st in stems if st[0] == "f"]
            write(os.path.join(src, "main.rs"),
                  "#![allow(warnings)]\npub trait HasK { type Ty; const K: u32; fn k2(&self) -> u32 { 2 } }\npub trait HasF { type F; }\n" + "".join(f"mod {m};\n" for m in stems) +
                  "fn main() {\n    let mut t: Vec<simcore::TypeEntry> = Vec::new();\n    let mut f: Vec<simcore::flow::FlowEntry> = Vec::new();\n" +
                  "".join(f"    t.extend({m}::entries());\n" for m in ts) + "".join(f"    f.extend({m}::entries());\n" for m in fs) +
                  "    simcore::runner::main(Box::leak(t.into_boxed_slice()), Box::leak(f.into_boxed_slice()));\n}\n")
        write(os.path.join(self.root, "Cargo.toml"), "[workspace]\nresolver = \"2\"\nmembers = [" + ", ".join(mem) + "]\n"
              "[profile.dev]\ndebug = 0\nincremental = false\nopt-level = 0\n[profile.dev.package.simcore]\nopt-level = 1\n"
              "[profile.release]\ndebug = 0\nopt-level = 2\npanic = \"unwind\"\n")

    def region(self, key, line):
        t = self.units[key].split("\n")
        for i in range(min(line, len(t)) - 1, -1, -1):
            m = re.match(r"\s*// @(\w+)", t[i])
            if m:
                return m.group(1)
        return "def"

    def build(self, release=False, miri=None):
        """Compiles every shard; what does not compile is set aside and remembered."""
        for attempt in range(8):
            self.render()
            if miri:
                # checking is enough to find definitions that do not compile
                cmd = ["cargo", "+nightly", "check"]
                tgt = self.target + "-chk"
            else:
                cmd = ["cargo", "build"] + (["--release"] if release else [])
                tgt = self.target
            cmd += ["--offline", "--keep-going", "--message-format=json", "--target-dir", tgt]
            r = subprocess.run(cmd, cwd=self.root, capture_output=True, text=True, errors="replace", env=cargo_env())
            if r.returncode == 0:
                for s in self.shards:
                    self.bins[s] = os.path.join(self.target, "release" if release else "debug", f"s{s}")
                break
            bad = {}
            for ln in r.stdout.splitlines():
                try:
                    m = json.loads(ln)
                except ValueError:
                    continue
                if m.get("reason") != "compiler-message" or m["message"].get("level") not in ("error", "error: internal compiler error"):
                    continue
                msg = m["message"]
                pkg = m["target"]["name"]
                found = False
                for sp in msg.get("spans", []):
                    if not sp.get("is_primary"):
                        continue
                    f, l = self.origin(sp)
                    if f:
                        found = True
                        e = bad.setdefault(f, [set(), msg["message"], msg.get("rendered", "")[:2000]])
                        e[0].add(self.region(f, l))
                if not found and msg.get("spans"):
                    if not re.match(r"s\d+$", pkg):
                        raise HarnessError(f"{pkg} does not build:\n{msg.get('rendered')}")
                    raise HarnessError(f"cannot attribute a compile error in {pkg}:\n{msg.get('rendered')}")
            if not bad:
                raise HarnessError("build failed:\n" + r.stderr[-4000:] + r.stdout[-2000:])
            for k, (regs, msg, full) in sorted(bad.items()):
                if self.kin(k, bad):
                    self.collateral += 1
                else:
                    self.dropped.append((k[0], k[1], sorted(regs), msg, full, self.units[k]))
            gone = set(bad)
            more = True
            while more:
                more = False
                for k, t in self.units.items():
                    if k not in gone and any(x[0] == k[0] and x[1][0] == "t" and f"crate::{x[1]}::" in t for x in gone):
                        gone.add(k)
                        self.collateral += 1
                        more = True
            self.drop(gone)
        else:
            raise HarnessError("the generated code keeps failing to build")
        self.n_types = sum(1 for k in self.units if k[1][0] == "t")
        self.n_insts = sum(len(self.defs[k].insts) for k in self.units if k[1][0] == "t")
        self.n_sets = sum(1 for k in self.units if k[1][0] == "f")
        self.n_trees = sum(len(self.defs[k]) for k in self.units if k[1][0] == "f")

    def kin(self, k, bad):
        """Does this unit fail only because a type it uses failed?"""
        t = self.units[k]
        return any(x != k and x[0] == k[0] and x[1][0] == "t" and f"crate::{x[1]}::" in t for x in bad)

    def origin(self, sp):
        while sp:
            m = re.match(r"(?:.*/)?s(\d+)/src/([tf]\d+)\.rs$", sp["file_name"])
            if m and (int(m.group(1)), m.group(2)) in self.units:
                return (int(m.group(1)), m.group(2)), sp["line_start"]
            sp = (sp.get("expansion") or {}).get("span")
        return None, 0


def cargo_env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "MIRIFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    return e


def run_env():
    e = dict(os.environ)
    e["MALLOC_PERTURB_"] = "165"
    e["MALLOC_ARENA_MAX"] = "1"
    e["RUST_BACKTRACE"] = "0"
    return e


# ------------------------------------------------------------------------------ running

_live = set()
_lock = threading.Lock()
_stop = threading.Event()


def popen(cmd, timeout, env, cwd=None, cur=None):
    """Runs a worker; returns (rc, out, err, hung)."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd, start_new_session=True)
    with _lock:
        _live.add(p)
    out = err = b""
    hung = False
    bufs = {}

    def rd(name, f):
        bufs[name] = f.read()
    ts = [threading.Thread(target=rd, args=(n, f)) for n, f in (("o", p.stdout), ("e", p.stderr))]
    for t in ts:
        t.start()
    t0, last, lastv = time.time(), time.time(), None
    while True:
        try:
            p.wait(0.05 if time.time() - t0 < 2 else 0.25)
            break
        except subprocess.TimeoutExpired:
            pass
        now = time.time()
        if cur:
            try:
                v = open(cur, "rb").read(8)
            except OSError:
                v = None
            if v != lastv:
                lastv, last = v, now
        else:
            last = t0
        if now - last > timeout:
            hung = True
            kill(p)
        if _stop.is_set():
            kill(p)
    for t in ts:
        t.join()
    with _lock:
        _live.discard(p)
    out, err = bufs.get("o", b""), bufs.get("e", b"")
    return p.returncode, out.decode(errors="replace"), err.decode(errors="replace"), hung


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


def crash_class(rc, err):
    if rc < 0:
        try:
            n = signal.Signals(-rc).name
        except ValueError:
            n = str(rc)
        return f"process-died-{n}"
    return f"process-exit-{rc}"


class Hit:
    """A violation found by a worker."""

    def __init__(self, work, shard, suite, profile, base, start, index, cls, msg, choices=None, mode=None):
        self.work, self.shard, self.suite, self.profile, self.base = work, shard, suite, profile, base
        self.start, self.index, self.cls, self.msg, self.choices, self.mode = start, index, cls, msg, choices, mode


def worker(work, shard, suite, profile, prop, base, start, count, total):
    """One native worker process over a range of seeds."""
    cur = os.path.join(work.root, f"cur-{shard}-{suite}-{start}")
    cmd = [work.bins[shard], "run", "--suite", suite, "--profile", profile, "--props", prop, "--base", str(base), "--start", str(start), "--count", str(count), "--cur", cur]
    rc, out, err, hung = popen(cmd, HANG_S, run_env(), cur=cur)
    if _stop.is_set():
        return None
    if rc == 0:
        add(total, json.loads(out.strip().splitlines()[-1]))
        return None
    if rc == 3:
        raise HarnessError(f"shard {shard}: {err[-1500:]}")
    if rc == 77:
        r = json.loads(out.strip().splitlines()[-1])
        v = [v for v in r["violations"] if prop in v["props"]][0]
        return Hit(work, shard, suite, profile, base, start, r["index"], v["class"], v["msg"], r["choices"])
    try:
        idx = int.from_bytes(open(cur, "rb").read(8), "little")
    except OSError:
        raise HarnessError(f"worker died before its first run: rc {rc}\n{err[-1500:]}")
    cls = "no-progress-hang" if hung else crash_class(rc, err)
    return Hit(work, shard, suite, profile, base, start, idx, cls, (err.strip().splitlines() or [""])[-1][:300])


def add(total, r):
    with _lock:
        for k in ("runs", "steps", "vtime", "nontrivial", "distinct"):
            total[k] = total.get(k, 0) + r[k]
        for k, v in r["stats"].items():
            total["stats"][k] = total["stats"].get(k, 0) + v
        for o in r["other"]:
            total["other"].add(o)


def new_total():
    return {"stats": {}, "other": set(), "runs": 0, "steps": 0, "vtime": 0, "nontrivial": 0, "distinct": 0}


def search(work, prop, jobs, total):
    """Runs jobs on all cores; returns the first hit."""
    _stop.clear()
    hit = None
    with cf.ThreadPoolExecutor(CORES) as ex:
        fs = [ex.submit(j) for j in jobs]
        try:
            for f in cf.as_completed(fs):
                h = f.result()
                if h:
                    hit = h
                    break
        finally:
            _stop.set()
            for f in fs:
                f.cancel()
    _stop.clear()
    return hit


# ------------------------------------------------------------------------------ replay and minimisation


def replay_once(work, hit, choices, extra=()):
    """Re-executes a decision list. Returns (violations, result or None, class if it died)."""
    fd, path = tempfile.mkstemp(prefix="script", dir=work.root)
    os.write(fd, "\n".join(map(str, choices)).encode())
    os.close(fd)
    args = ["replay", "--suite", hit.suite, "--profile", hit.profile, "--script", path] + list(extra)
    try:
        if hit.mode:
            rc, out, err, hung = miri_run(work, hit.shard, hit.mode, args, 300)
            cls, msg = miri_verdict(rc, err)
            return ([(None, cls, msg)] if cls else [], None, cls)
        rc, out, err, hung = popen([work.bins[hit.shard]] + args, 6 if hit.cls == "no-progress-hang" else 30, run_env())
    finally:
        os.unlink(path)
    if rc in (0, 77):
        r = json.loads(out.strip().splitlines()[-1])
        return [(v["props"], v["class"], v["msg"]) for v in r["violations"]], r, None
    c = "no-progress-hang" if hung else crash_class(rc, err)
    return [(None, c, "")], None, c


def same(vs, prop, cls):
    return any(c == cls and (p is None or prop in p) for p, c, m in vs)


def record(work, hit):
    """Decisions of one seed up to where it died."""
    path = os.path.join(work.root, f"trace-{hit.shard}")
    args = ["record", "--suite", hit.suite, "--profile", hit.profile, "--base", str(hit.base), "--index", str(hit.index), "--trace-out", path]
    if hit.mode:
        args += ["--max-ops", MIRI_OPS]
        miri_run(work, hit.shard, hit.mode, args, 300)
    else:
        popen([work.bins[hit.shard]] + args, 6 if hit.cls == "no-progress-hang" else 30, run_env())
    return [int(x) for x in open(path).read().split()]


def minimise(work, prop, hit, budget=40, limit=1500):
    ch = list(hit.choices)
    t0 = time.time()
    n = 0

    def ok(c):
        nonlocal n
        n += 1
        return same(replay_once(work, hit, c)[0], prop, hit.cls)

    def spent():
        return time.time() - t0 > budget or n > limit

    def par(cands):
        # first candidate (in order) that still fails
        with cf.ThreadPoolExecutor(CORES) as ex:
            for c, r in zip(cands, ex.map(ok, cands)):
                if r:
                    return c
        return None
    while ch and not spent():
        before = list(ch)
        k = max(1, len(ch) // 2)
        while k >= 1 and not spent():
            i = 0
            while i < len(ch) and not spent():
                cands = []
                for j in range(CORES):
                    a = i + j * k
                    if a < len(ch):
                        cands.append(ch[:a] + ch[a + k:])
                g = par(cands)
                if g is not None:
                    ch = g
                else:
                    i += CORES * k
            if k == 1:
                break
            k //= 2
        i = 0
        while i < len(ch) and not spent():
            idx = [j for j in range(i, min(len(ch), i + CORES)) if ch[j] > 0]
            cands = [ch[:j] + [0] + ch[j + 1:] for j in idx]
            g = par(cands) if cands else None
            if g is not None:
                ch = g
            else:
                i += CORES
        if ch == before:
            break
    while ch and ch[-1] == 0 and ok(ch[:-1]):
        ch.pop()
    return ch, n


def sources_of(work, shard, text):
    """Definitions of the types that a log mentions."""
    out = {}
    for i in sorted(set(re.findall(r"\(type (\d+)\)", text)), key=int):
        k = (shard, f"t{i}")
        if k in work.units:
            t = work.units[k]
            a, b = t.find("// @def"), t.find("// @glue")
            out[k[1]] = t[a:b].split("\n")
    return out


def report(prop, hit, tier, seed):
    """Minimises, writes the replay file and announces the violation."""
    work = hit.work
    rep = {"property": prop, "kind": "decisions", "class": hit.cls, "message": hit.msg, "seed": seed, "tier": tier,
           "zoo_seed": work.seed, "zoo_prop": work.prop, "shards": SHARDS, "plan": work.plan, "shard": hit.shard,
           "suite": hit.suite, "profile": hit.profile, "base": hit.base, "index": hit.index, "mode": hit.mode,
           "dropped": sorted([list(k) for k in work.defs if k not in work.units]), "sources_digest": work.digest()}
    if hit.choices is None:
        try:
            hit.choices = record(work, hit)
        except OSError:
            hit.choices = []
    vs, r, _ = replay_once(work, hit, hit.choices)
    if same(vs, prop, hit.cls):
        ch, n = minimise(work, prop, hit, 60 if hit.mode else 40)
        vs, r, _ = replay_once(work, hit, ch, ["--log"])
        vs2, r2, _ = replay_once(work, hit, ch, ["--log"])
        rep.update(choices=ch, original_length=len(hit.choices), minimising_replays=n, reproduced_exactly=bool(same(vs2, prop, hit.cls) and (r is None or r["hash"] == r2["hash"])))
        for p, c, m in vs:
            if c == hit.cls:
                rep["message"] = m or rep["message"]
                break
        if r:
            rep["history_hash"] = r["hash"]
            rep["trace"] = r["log"]
            rep["definitions"] = sources_of(work, hit.shard, "\n".join(r["log"]))
    else:
        # state survives from one run to the next inside the process: replay the range of seeds
        start = hit.start
        cnt = hit.index - start + 1
        step = 1
        while True:
            s = max(hit.start, hit.index - step)
            if range_fails(work, prop, hit, s):
                start = s
                break
            if s == hit.start:
                break
            step *= 4
        rep.update(kind="range", start=start, count=hit.index - start + 1)
        rep["reproduced_exactly"] = range_fails(work, prop, hit, start)
    os.makedirs(REPLAYS, exist_ok=True)
    h = hashlib.sha256(json.dumps(rep, sort_keys=True).encode()).hexdigest()[:8]
    path = os.path.join(REPLAYS, f"{prop}-{re.sub(r'[^a-z0-9]+', '-', hit.cls.lower())[:40]}-{h}.json")
    with open(path, "w") as f:
        json.dump(rep, f, indent=1)
    return path, rep


def range_fails(work, prop, hit, start):
    args = ["run", "--suite", hit.suite, "--profile", hit.profile, "--props", prop, "--base", str(hit.base), "--start", str(start), "--count", str(hit.index - start + 1)]
    if hit.mode:
        rc, out, err, hung = miri_run(work, hit.shard, hit.mode, args + ["--max-ops", MIRI_OPS], 600)
        return miri_verdict(rc, err)[0] == hit.cls
    rc, out, err, hung = popen([work.bins[hit.shard]] + args, HANG_S if hit.cls == "no-progress-hang" else 120, run_env())
    if rc == 77:
        r = json.loads(out.strip().splitlines()[-1])
        return any(prop in v["props"] and v["class"] == hit.cls for v in r["violations"])
    if rc == 0:
        return False
    return (hung and hit.cls == "no-progress-hang") or crash_class(rc, err) == hit.cls


# ------------------------------------------------------------------------------ Miri

MIRI_OPS = "6"


def miri_run(work, shard, mode, args, timeout, cur=None):
    flags = dict(MIRI_MODES)[mode]
    e = cargo_env()
    e["MIRIFLAGS"] = f"{flags} -Zmiri-ignore-leaks -Zmiri-disable-isolation -Zmiri-seed=7 -Zmiri-preemption-rate=0".strip()
    cmd = ["cargo", "+nightly", "miri", "run", "--offline", "-q", "-p", f"s{shard}", "--target-dir", work.target + "-miri", "--"] + args
    return popen(cmd, timeout, e, cwd=work.root)


def miri_verdict(rc, err):
    m = re.search(r"error: (Undefined Behavior: .*)", err)
    if m:
        # numbers of allocations and tags depend on the build directory
        msg = re.sub(r"<[0-9]+>", "<tag>", re.sub(r"alloc[0-9]+", "alloc", m.group(1)))
        at = re.search(r"--> (\S+)", err[m.start():])
        return "undefined-behaviour", f"{msg[:300]} at {at.group(1) if at else '?'}"
    return None, ""


def miri_worker(work, shard, mode, suite, profile, prop, base, start, count, total, ms):
    args = ["run", "--suite", suite, "--profile", profile, "--props", prop, "--base", str(base), "--start", str(start), "--count", str(count),
            "--max-ops", MIRI_OPS, "--echo", "--ms", str(ms)]
    rc, out, err, hung = miri_run(work, shard, mode, args, 700)
    if _stop.is_set():
        return None
    if rc == 0:
        add(total, json.loads(out.strip().splitlines()[-1]))
        return None
    idx = [int(x) for x in re.findall(r"^@(\d+)$", err, re.M)]
    cls, msg = miri_verdict(rc, err)
    if cls and idx:
        with _lock:
            total["runs"] += len(idx)
        return Hit(work, shard, suite, profile, base, start, idx[-1], cls, msg, None, mode)
    if re.search(r"unsupported operation|error\[E|could not compile|deadlock", err) or not idx or rc == 3:
        raise HarnessError(f"Miri ({mode}) stopped, rc {rc}:\n{err[-3000:]}")
    with _lock:
        total["runs"] += len(idx)
        total["other"].add(f"abort under Miri: {err.strip().splitlines()[-1][:200] if err.strip() else rc}")
    return None


# ------------------------------------------------------------------------------ free-running threads under Miri's scheduler

RACE_MODES = [("tree", "-Zmiri-tree-borrows"), ("stacked", "")]
RACE_RATES = ["0.05", "0.3", "0.01"]
RACE_CHUNK = 48


class Race:
    """The fixed multi-threaded program of sim/race, built against the current tree, interpreted by Miri."""

    def __init__(self, name):
        self.root = os.path.join(BUILD, name)
        write(os.path.join(self.root, "Cargo.toml"), '[package]\nname = "race"\nversion = "0.0.0"\nedition = "2021"\npublish = false\n'
              f'[[bin]]\nname = "race"\npath = "{HERE}/sim/race/src/main.rs"\n[dependencies]\npin-project = {{ path = "{REPO}" }}\n[workspace]\n')

    def run(self, mode, rate, seeds, args, timeout):
        e = cargo_env()
        sd = f"-Zmiri-seed={seeds}" if isinstance(seeds, int) else f"-Zmiri-many-seeds={seeds[0]}..{seeds[1]} -Zmiri-many-seeds-keep-going"
        e["MIRIFLAGS"] = f"{dict(RACE_MODES)[mode]} -Zmiri-preemption-rate={rate} -Zmiri-ignore-leaks {sd}".strip()
        cmd = ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--target-dir", os.path.join(self.root, "target"), "--"] + args
        return popen(cmd, timeout, e, cwd=self.root)

    def verdict(self, mode, rate, seed, args, timeout=120):
        """(class, message, is it undefined behaviour, output) of one seed."""
        rc, out, err, hung = self.run(mode, rate, seed, args, timeout)
        if hung:
            return "no-progress-hang", "", False, ""
        m = re.search(r"RACE-VIOLATION (\S+): (.*)", err)
        if m:
            return m.group(1), m.group(2), False, err
        c, msg = miri_verdict(rc, err)
        if c:
            return ("data-race" if "Data race" in msg else c), msg, True, err
        if "deadlocked" in err:
            return "deadlock", "", False, err
        return None, (err.strip().splitlines() or [""])[-1], False, err


def race_counts(prop, cls, ub):
    """Does this kind of failure break this property?"""
    if prop == "C09":
        return ub
    return not ub or cls == "data-race"


def race_phase(prop, seed, rnd, total, budget, notes):
    """Seeds of Miri's scheduler until the budget is spent. Returns a replay record or None."""
    race = Race(f"{prop}-race")
    t0 = time.time()
    rc, out, err, hung = race.run("tree", "0.05", 1, ["--ops", "1"], 300)
    if re.search(r"could not compile|error\[E", err):
        notes.append("the multi-threaded program does not compile against this tree: " + err.strip().splitlines()[0][:200])
        return None
    t0 = time.time()
    k = 0
    base = int.from_bytes(hashlib.sha256(f"race/{seed}/{rnd}".encode()).digest()[:3], "little") * 64
    seen = set()
    while time.time() - t0 < budget:
        mode, rate = RACE_MODES[k % 2][0], RACE_RATES[(k // 2) % 3]
        lo = base + k * RACE_CHUNK
        rc, out, err, hung = race.run(mode, rate, (lo, lo + RACE_CHUNK), [], 240)
        oks = re.findall(r"ok ([0-9a-f]{16}) threads=(\d) shared=(\d) handover=(\d) panics=(\d) yields=(\d) nested=(\d)", out)
        with _lock:
            total["runs"] += len(oks)
            total["nontrivial"] += len(oks)
            n0 = len(seen)
            seen.update((o[0], mode, rate) for o in oks)
            total["distinct"] += len(seen) - n0
            st = total["stats"]
            for n, c in (("interpreted-thread-schedules", len(oks)), ("interpreted-threads", sum(int(o[1]) for o in oks)), ("panic-in-interpreted-schedules", sum(int(o[4]) for o in oks)),
                         ("nested-op-in-interpreted-schedules", sum(int(o[6]) for o in oks)), ("thread-switch-forced-in-destructor-schedules", sum(int(o[5]) for o in oks))):
                st[n] = st.get(n, 0) + c
        bad = [int(x) for x in re.findall(r"FAILING SEED: (\d+)", err)]
        if hung:
            bad = list(range(lo, lo + RACE_CHUNK))
        for s in bad[:RACE_CHUNK if hung else 6]:
            cls, msg, ub, txt = race.verdict(mode, rate, s, [], 30)
            if cls and race_counts(prop, cls, ub):
                return race_report(race, prop, seed, mode, rate, s, cls, msg, ub)
            if cls:
                total["other"].add(f"multi-threaded program: {cls}")
                if cls == "no-progress-hang":
                    return None
            elif txt and "unsupported operation" in txt:
                raise HarnessError(f"Miri: {txt[-1500:]}")
        if rc != 0 and not bad and not hung:
            raise HarnessError(f"Miri stopped, rc {rc}:\n{err[-3000:]}")
        k += 1
    return None


def race_report(race, prop, seed, mode, rate, s, cls, msg, ub):
    best = ([], s, msg)
    n = 0
    t0 = time.time()
    # look for a smaller scenario with the same failure
    for args in (["--threads", "2", "--ops", "1"], ["--threads", "2", "--ops", "2"], ["--threads", "2", "--ops", "3"], ["--ops", "2"]):
        if cls == "no-progress-hang" or time.time() - t0 > 60:
            break
        rc, out, err, hung = race.run(mode, rate, (s, s + 64), args, 90)
        n += 64
        found = False
        for x in [int(y) for y in re.findall(r"FAILING SEED: (\d+)", err)][:4]:
            c, m, u, _ = race.verdict(mode, rate, x, args, 30)
            n += 1
            if c == cls:
                best = (args, x, m)
                found = True
                break
        if found:
            break
    args, x, m = best
    c1, m1, u1, txt = race.verdict(mode, rate, x, args, 60)
    c2, m2, u2, _ = race.verdict(mode, rate, x, args, 60)
    rep = {"property": prop, "kind": "race", "class": cls, "message": m1 or m, "seed": seed, "mode": mode, "rate": rate, "miri_seed": x, "args": args, "found_at_seed": s,
           "minimising_replays": n, "reproduced_exactly": c1 == c2 == cls and m1 == m2, "trace": txt.strip().splitlines()[:60]}
    os.makedirs(REPLAYS, exist_ok=True)
    h = hashlib.sha256(json.dumps(rep, sort_keys=True).encode()).hexdigest()[:8]
    path = os.path.join(REPLAYS, f"{prop}-{cls}-{h}.json")
    with open(path, "w") as f:
        json.dump(rep, f, indent=1)
    return path, rep


# ------------------------------------------------------------------------------ compile-time verdicts


def rejected(prop, work):
    """A supported definition (or use) that does not compile, if that breaks this property."""
    for s, stem, regs, msg, full, text in work.dropped:
        regs = set(regs)
        own = {"C01": {"replace"}, "C04": {"pinned_drop"}, "C06": {"unpin", "open"}}.get(prop)
        if prop == "C03" and stem[0] == "t":
            return s, stem, sorted(regs), msg, full
        if prop == "C07" and stem[0] == "f" and "reference" not in regs:
            return s, stem, sorted(regs), msg, full
        if own and stem[0] == "t" and regs & own and "def" not in regs:
            return s, stem, sorted(regs), msg, full
    return None


def report_rejected(prop, work, r, tier, seed):
    s, stem, regs, msg, full = r
    text = [x[5] for x in work.dropped if x[0] == s and x[1] == stem][0]
    rep = {"property": prop, "kind": "compile", "class": "definition-rejected", "message": f"s{s}/{stem} ({', '.join(regs)}): {msg}", "seed": seed, "tier": tier,
           "zoo_seed": work.seed, "zoo_prop": work.prop, "plan": work.plan, "shards": SHARDS, "shard": s, "stem": stem, "compiler": full.split("\n"), "source": text.split("\n")}
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f"{prop}-definition-rejected-s{s}-{stem}.json")
    with open(path, "w") as f:
        json.dump(rep, f, indent=1)
    return path, rep


# ------------------------------------------------------------------------------ known findings


def known(prop, rep):
    """An entry of the committed list that describes exactly this violation."""
    try:
        lines = open(os.path.join(HERE, "known-findings.txt")).read().splitlines()
    except OSError:
        return None
    for ln in lines:
        m = re.match(r"known: property=(\S+) class=(\S+) where=\"([^\"]+)\" (.*)", ln)
        if m and m.group(1) == prop and m.group(2) == rep["class"] and m.group(3) in rep["message"]:
            return m.group(4)
    return None


# ------------------------------------------------------------------------------ the check of a property


def sample(work, shard, suite, profile, base, index):
    rc, out, err, _ = popen([work.bins[shard], "record", "--suite", suite, "--profile", profile, "--base", str(base), "--index", str(index), "--log"], 60, run_env())
    try:
        r = json.loads(out.strip().splitlines()[-1])
    except (ValueError, IndexError):
        return None
    lg = r.get("log", [])
    return {"shard": shard, "suite": suite, "base": base, "seed_index": index, "decisions": len(r["choices"]), "history_hash": r["hash"],
            "events": lg[:60] + (["..."] if len(lg) > 60 else [])}


def base_of(seed, rnd, shard):
    return int.from_bytes(hashlib.sha256(f"{seed}/{rnd}/{shard}".encode()).digest()[:6], "little")


def run_check(prop, tier, seed):
    plan = PLAN[prop]
    total = new_total()
    cov = {"definitions": 0, "instantiations": 0, "adapter_sets": 0, "adapter_trees": 0, "rejected_definitions": 0, "rounds": 0}
    samples = []
    budget = {"quick": 0, "thorough": 2400}[tier]
    if os.environ.get("VERIF_BUDGET_S"):
        budget = int(os.environ["VERIF_BUDGET_S"])
    rnd = 0
    violation = None
    by_suite = {}
    notes = []
    while violation is None:
        zs = f"{seed}" if rnd == 0 else f"{seed}.{rnd}"
        release = tier == "thorough" and rnd % 3 == 2 and not plan.get("miri")
        work = Work(f"{prop}", prop, zs, SHARDS, plan)
        t0 = time.time()
        work.build(release=release, miri=plan.get("miri"))
        tb = time.time() - t0
        cov["definitions"] += work.n_types
        cov["instantiations"] += work.n_insts
        cov["adapter_sets"] += work.n_sets
        cov["adapter_trees"] += work.n_trees
        cov["rejected_definitions"] += len(work.dropped)
        cov["rounds"] += 1
        for x in work.dropped[:5]:
            notes.append(f"does not compile: s{x[0]}/{x[1]} {x[2]}: {x[3][:160]}")
        rj = rejected(prop, work)
        if rj:
            path, rep = report_rejected(prop, work, rj, tier, seed)
            k = known(prop, rep)
            if k is None:
                violation = (path, rep)
                break
            print(f"KNOWN-FINDING: property={prop} {k}")
        if not work.units:
            raise HarnessError("nothing that the generator writes compiles any more")
        jobs = []
        mult = 1 if tier == "quick" else 4
        if plan.get("miri"):
            jobs += miri_jobs(work, prop, seed, rnd, total, tier)
        else:
            for s in work.shards:
                b = base_of(seed, rnd, s)
                if plan.get("zoo") and plan["runs"]:
                    jobs.append(lambda s=s, b=b: worker(work, s, "zoo", prop, prop, b, 0, plan["runs"] * mult, total))
                if plan.get("flows") and plan["fruns"]:
                    jobs.append(lambda s=s, b=b: worker(work, s, "flow", prop, prop, b, 0, plan["fruns"] * mult, total))
        t1 = time.time()
        hit = search(work, prop, jobs, total)
        log(f"[{prop}] round {rnd}: {work.n_types} definitions, {work.n_trees} trees, build {tb:.1f}s, run {time.time() - t1:.1f}s, {total['runs']} runs so far"
            + (f", {len(work.dropped)} definitions rejected" if work.dropped else "") + (", VIOLATION" if hit else ""))
        if hit:
            path, rep = report(prop, hit, tier, seed)
            k = known(prop, rep)
            if k is None:
                violation = (path, rep)
                break
            print(f"KNOWN-FINDING: property={prop} {k}")
        if plan.get("race"):
            t1 = time.time()
            n0 = total["runs"]
            got = race_phase(prop, seed, rnd, total, plan["race"] * mult, notes)
            log(f"[{prop}] interpreted threads: {total['runs'] - n0} schedules, {time.time() - t1:.1f}s" + (", VIOLATION" if got else ""))
            if got:
                k = known(prop, got[1])
                if k is None:
                    violation = got
                    break
                print(f"KNOWN-FINDING: property={prop} {k}")
        if rnd == 0 and not plan.get("miri"):
            for s, su in ((0, "zoo"), (1, "zoo"), (2, "flow")):
                if (su == "zoo" and plan.get("zoo")) or (su == "flow" and plan.get("flows")):
                    x = sample(work, s, su, prop, base_of(seed, rnd, s), 3)
                    if x:
                        samples.append(x)
        elif rnd == 0:
            samples.append({"shard": 0, "suite": "zoo", "base": base_of(seed, rnd, 0), "seed_index": 0, "definition": next(iter(work.units.values()))[:1200].split("\n"),
                            "replay": f"cargo +nightly miri run -p s0 -- record --profile C09 --base {base_of(seed, rnd, 0)} --index 0 --max-ops {MIRI_OPS} --log"})
        rnd += 1
        if time.time() - START > budget:
            break
    wall = time.time() - START
    st = total["stats"]
    fk = ("panic-in", "caller-panic", "nested-op", "thread-switch", "spurious-poll", "task-cancelled", "clock-jump", "permit-added")
    faults = {k: v for k, v in sorted(st.items()) if k.startswith(fk)}
    ops = {k: v for k, v in sorted(st.items()) if k not in faults}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total["runs"], "distinct_nontrivial": total["distinct"], "rule": RULE[prop], "samples": samples,
            "nontrivial_runs": total["nontrivial"], "runs_per_hour_one_seed_each": int(total["runs"] / max(wall, 0.1) * 3600),
            "simulated_steps": total["steps"], "simulated_time_ticks": total["vtime"],
            "faults_injected": faults, "operations": ops,
            "distinct_measure": "distinct 64-bit hashes of whole event histories among non-trivial runs, counted per worker process",
            "generated": cov, "components_real": REAL, "components_stub": STUB,
            "runs_ended_by_other_properties": sorted(total["other"]), "notes": notes,
        },
        "assumptions": ["field destructors, destructor bodies, polls and the points between operations are where control leaves generated code; the simulator switches, nests and injects panics there",
                        "the generated zoo samples the space of definitions; a defect confined to a definition outside it is missed"],
        "wall_s": round(wall, 1), "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    if violation:
        path, rep = violation
        log(f"[{prop}] {rep['class']}: {rep['message']}")
        for ln in rep.get("trace", [])[-25:]:
            log("   ", ln)
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    log(f"[{prop}] held: {total['runs']} runs, {total['distinct']} distinct histories, {wall:.0f}s")
    return 0


def miri_jobs(work, prop, seed, rnd, total, tier):
    ms = {"quick": 70_000, "thorough": 240_000}[tier]
    jobs, more = [], []
    # compile once before the workers start
    for mode, _ in MIRI_MODES[:1]:
        with cf.ThreadPoolExecutor(CORES) as ex:
            list(ex.map(lambda s: miri_run(work, s, mode, ["list"], 600), work.shards[:1]))
            list(ex.map(lambda s: miri_run(work, s, mode, ["list"], 600), work.shards[1:]))
    for s in work.shards:
        mode = MIRI_MODES[s % 2][0]
        b = base_of(seed, rnd, s)
        su, pr = [("lite", "C09"), ("lite", "C09"), ("zoo", "C09T"), ("flow", "C09"), ("lite", "C09"), ("zoo", "C09"), ("flow", "C09"), ("lite", "C09")][s]
        if su == "lite":
            jobs.append(lambda s=s, b=b, mode=mode: miri_worker(work, s, mode, "lite", "C09", prop, b, 0, 10**6, total, ms * 5 // 4))
        else:
            jobs.append(lambda s=s, b=b, mode=mode, su=su, pr=pr: miri_worker(work, s, mode, su, pr, prop, b, 0, 10**6, total, ms))
            more.append(lambda s=s, b=b, mode=mode: miri_worker(work, s, mode, "lite", "C09", prop, b, 0, 10**6, total, ms // 3))
    return jobs + more


# ------------------------------------------------------------------------------ other commands


def do_replay(path):
    rep = json.load(open(path))
    prop = rep["property"]
    if rep["kind"] == "race":
        c, m, ub, txt = Race("replay-race").verdict(rep["mode"], rep["rate"], rep["miri_seed"], rep["args"])
        print("REPRODUCED" if c == rep["class"] else "NOT REPRODUCED", "(same history)" if m == rep["message"] else "", c or "", m if c else "")
        return 1 if c == rep["class"] else 0
    plan = rep["plan"]
    work = Work("replay", rep["zoo_prop"], rep["zoo_seed"], rep["shards"], plan, only=[rep["shard"]])
    if rep["kind"] == "compile":
        key = (rep["shard"], rep["stem"])
        if "\n".join(rep["source"]) != work.units.get(key):
            log("note: the generator has changed since; using the recorded source")
        deps = set(re.findall(r"crate::(t\d+)::", "\n".join(rep["source"])))
        more = True
        while more:
            more = False
            for dname in list(deps):
                for x in re.findall(r"crate::(t\d+)::", work.units.get((rep["shard"], dname), "")):
                    if x not in deps:
                        deps.add(x)
                        more = True
        work.units = {k: v for k, v in work.units.items() if k[1] in deps}
        work.units[key] = "\n".join(rep["source"])
        work.build()
        bad = [x for x in work.dropped if x[1] == rep["stem"]]
        print("REPRODUCED" if bad else "NOT REPRODUCED", rep["class"], bad[0][3] if bad else "")
        return 1 if bad else 0
    full = Work("replay", rep["zoo_prop"], rep["zoo_seed"], rep["shards"], plan)
    for k in rep["dropped"]:
        full.units.pop(tuple(k), None)
    if full.digest() != rep["sources_digest"]:
        log("note: the generated sources differ from the recorded ones")
    work.drop([tuple(k) for k in rep["dropped"]])
    if rep["mode"]:
        work.render()
    else:
        work.build()
    hit = Hit(work, rep["shard"], rep["suite"], rep["profile"], rep["base"], rep.get("start", 0), rep["index"], rep["class"], "", rep.get("choices"), rep["mode"])
    if rep["kind"] == "range":
        ok = range_fails(work, prop, hit, rep["start"])
        print("REPRODUCED" if ok else "NOT REPRODUCED", rep["class"])
        return 1 if ok else 0
    vs, r, _ = replay_once(work, hit, rep["choices"], ["--log"])
    ok = same(vs, prop, rep["class"])
    exact = r is None or r["hash"] == rep.get("history_hash")
    if r:
        for ln in r["log"]:
            print("   ", ln)
    print("REPRODUCED" if ok else "NOT REPRODUCED", "(same history)" if ok and exact else "", rep["class"], [m for p, c, m in vs if c == rep["class"]][:1])
    return 1 if ok else 0


def do_determinism(n):
    """Same seeds, different processes, different batch boundaries: histories must be identical."""
    bad = 0
    for prop in ("C03", "C08", "C07"):
        plan = dict(PLAN[prop])
        if plan.get("n"):
            plan["n"] = 16
        if plan.get("flows"):
            plan["flows"] = (1, 24)
        work = Work("determinism", prop, "d1", SHARDS, plan)
        work.build()
        su = "flow" if plan.get("flows") else "zoo"

        def go(s, env):
            cmd = [work.bins[s], "run", "--suite", su, "--profile", prop, "--props", prop, "--base", "77", "--start", "0", "--count", str(n)]
            rc, out, err, _ = popen(cmd, 600, env)
            r = json.loads(out.strip().splitlines()[-1])
            return r["hash"], r["runs"], r["steps"], r["stats"]

        e2 = run_env()
        e2.update(MALLOC_PERTURB_="90", PADDING="x" * 4096)
        with cf.ThreadPoolExecutor(CORES) as ex:
            for a, b in zip(ex.map(lambda s: go(s, run_env()), work.shards), ex.map(lambda s: go(s, e2), work.shards)):
                if a != b:
                    bad += 1
                    print("DIFFERENT", prop, a[:3], b[:3])
        # single seeds in fresh processes
        for i in (0, 5, 17, n - 1):
            cmd = [work.bins[0], "record", "--suite", su, "--profile", prop, "--base", "77", "--index", str(i)]
            o = {popen(cmd, 60, e)[1] for e in (run_env(), e2, run_env())}
            if len(o) != 1:
                bad += 1
                print("DIFFERENT single", prop, i)
        print(f"{prop}: {n} seeds x {len(work.shards)} shards x 2 processes compared")
    print("deterministic" if not bad else f"{bad} differences")
    return 1 if bad else 0


def do_selftest():
    plan = dict(zoo="C03", n=6, runs=200, flows=(1, 12), fruns=200)
    work = Work("selftest", "C03", "selftest", 2, plan)
    work.build()
    total = new_total()
    hit = search(work, "C03", [lambda s=s, su=su: worker(work, s, su, "C03", "C03", 1, 0, 200, total) for s in work.shards for su in ("zoo", "flow")], total)
    print(f"selftest: {work.n_types} definitions, {work.n_trees} trees, {total['runs']} runs, {'violation' if hit else 'ok'}")
    return 0


def main():
    try:    # some simulated values are large
        resource.setrlimit(resource.RLIMIT_STACK, (64 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))
    except (ValueError, OSError):
        pass
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        if not a:
            print(__doc__)
            return 2
        if a[0] == "replay":
            return do_replay(a[1])
        if a[0] == "determinism":
            return do_determinism(int(a[1]) if len(a) > 1 else 2000)
        if a[0] == "selftest":
            return do_selftest()
        return run_check(a[0], tier, seed)
    except HarnessError as e:
        log(f"check error: {e}")
        return 2


if __name__ == "__main__":
    sys.exit(main())
