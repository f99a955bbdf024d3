"""Author's tool (not read by any check): write seeded/<id>/ from a textual edit of /repo.

usage: mkbug.py SPEC.py   where SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)...], MAIN (rust
source of the demonstration), optionally MIRI=True or LIB_FLAGS.
"""
import json, os, subprocess, sys, runpy
REPO = "/repo"
s = runpy.run_path(sys.argv[1])
d = f"/verif/seeded/{s['ID']}"
os.makedirs(d, exist_ok=True)
assert subprocess.run(["git", "-C", REPO, "status", "--porcelain"], capture_output=True, text=True).stdout == ""
try:
    for f, old, new in s["EDITS"]:
        p = f"{REPO}/{f}"
        t = open(p).read()
        assert t.count(old) == 1, (f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", REPO, "diff"], capture_output=True, text=True).stdout
finally:
    subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."])
open(f"{d}/patch.diff", "w").write(diff)
open(f"{d}/main.rs", "w").write(s["MAIN"].lstrip("\n"))
json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
run = "cargo +nightly miri run --offline -q" if s.get("MIRI") else "cargo run --offline -q"
open(f"{d}/demo.sh", "w").write(f"""#!/usr/bin/env bash
# Exit 0 when the behaviour holds, nonzero when it does not. Run with the repository as working directory.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
pin-project = {{ path = "$repo" }}
[workspace]
TOML
cd "$d" && CARGO_TARGET_DIR="$d/target" {run}
""")
os.chmod(f"{d}/demo.sh", 0o755)
print("wrote", d, len(diff.splitlines()), "diff lines")
