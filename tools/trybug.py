"""Author's tool (not read by any check): validate seeded bugs and see which checks catch them.

usage: trybug.py [--checks own|all|none] ID...
"""
import json, os, subprocess, sys, time
REPO = "/repo"
args = sys.argv[1:]
checks = "own"
if args and args[0] == "--checks":
    checks = args[1]; args = args[2:]
ids = args or sorted(os.listdir("/verif/seeded"))
base = json.load(open("/opt/vp/BASELINE.json"))
def sh(c, cwd=REPO, t=1200):
    r = subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
    return r.returncode, r.stdout + r.stderr
def passed():
    if os.path.exists("/tmp/trybug.json"): os.unlink("/tmp/trybug.json")
    sh("bash /opt/vp/test.sh /tmp/trybug.json")
    return json.load(open("/tmp/trybug.json"))
stable = base.get("stable") or base.get("passed") or base.get("tests") or base
RES = "/tmp/plant/results.json"
res = json.load(open(RES)) if os.path.exists(RES) else {}
for i in ids:
    d = f"/verif/seeded/{i}"
    meta = json.load(open(f"{d}/meta.json"))
    out = {"property": meta["property"]}
    assert sh("git status --porcelain")[1] == ""
    rc, o = sh(f"git apply {d}/patch.diff"); assert rc == 0, o
    try:
        rc, o = sh("bash /opt/vp/build.sh")
        out["build"] = rc
        if rc: print(i, "BUILD FAILS", o[-1500:]); continue
        j = passed()
        bad = [t for t in stable if t not in j.get("passed", [])] if isinstance(stable, list) else j.get("failed")
        out["tests_failed"] = bad
        rc, o = sh(f"bash {d}/demo.sh")
        out["demo_with"] = rc
        dtext = o
        cs = [] if checks == "none" else [meta["property"]] if checks == "own" else [f"C0{k}" for k in range(1, 10)] if checks == "all" else checks.split(",")
        if not bad and rc:
            for c in cs:
                t0 = time.time()
                crc, co = sh(f"VERIF_SEED=1 VERIF_TIER=quick python3 check.py {c}", cwd="/verif", t=1500)
                v = [l for l in co.splitlines() if l.startswith("VIOLATION")]
                out.setdefault("checks", {})[c] = [crc, v[:2], round(time.time() - t0)]
                if crc not in (0, 1) or (crc == 1 and not v): print(co[-3000:])
                if crc == 1: print("\n".join(co.splitlines()[-12:])[-2500:])
    finally:
        sh("git checkout -q -- .")
    rc, o = sh(f"bash {d}/demo.sh")
    out["demo_without"] = rc
    ok = not out["tests_failed"] and out["demo_with"] != 0 and rc == 0
    out["valid"] = ok
    res[i] = {**res.get(i, {}), **out, "checks": {**res.get(i, {}).get("checks", {}), **out.get("checks", {})}}
    json.dump(res, open(RES, "w"), indent=1)
    print(("VALID  " if ok else "INVALID"), i, json.dumps(out))
    if not ok: print("demo with patch:", dtext[-1500:], "\ndemo without:", o[-1500:])
    sys.stdout.flush()
