#!/usr/bin/env python3
"""Makes and examines planted bugs; used while developing, by no check.

seed.py make ID...   writes seeded/ID/ from tools/seed_defs.py
seed.py verify ID... in a scratch copy of /repo: builds, tests pass, demo 0 unchanged and nonzero changed
seed.py catch ID...  applies to /repo, runs the property's check (and --all: every check), undoes it"""
import importlib.util, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("seed_defs", os.path.join(V, "tools", "seed_defs.py"))
defs = importlib.util.module_from_spec(spec); spec.loader.exec_module(defs)
SEEDS = defs.SEEDS
SCR = "/tmp/seedscratch"

DEMO = r'''#!/bin/bash
# Run with cwd = the repository. Builds the program beside this file against it and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
radius = { path = "$repo/radius", default-features = false, features = ["%s"] }
tokio = { version = "1", features = ["full"] }
async-trait = "0.1"
chrono = "0.4"
log = "0.4"
TOML
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
cd "$d" && cargo build --offline --quiet || exit 2
timeout 120 "$d/target/debug/demo"
'''

GENDEMO = r'''#!/bin/bash
# Run with cwd = the repository. Builds its code generator and tries it on a dictionary.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
cargo build --offline --quiet -p code-generator || exit 2
gen="$d/target/debug/code-generator"
mkdir "$d/in" "$d/out"
%s
'''

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)

def edit(root, edits):
    for f, old, new, *n in edits:
        p = os.path.join(root, f)
        s = open(p).read()
        cnt = n[0] if n else 1
        if s.count(old) != cnt:
            sys.exit(f"{f}: {s.count(old)} occurrences (wanted {cnt}) of {old!r}")
        open(p, "w").write(s.replace(old, new))

def make(i):
    s = SEEDS[i]
    d = os.path.join(V, "seeded", i)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    shutil.rmtree(SCR, ignore_errors=True)
    sh(f"git -C /repo worktree prune; git clone -q /repo {SCR}")
    edit(SCR, s["edits"])
    open(os.path.join(d, "patch.diff"), "w").write(sh(f"git -C {SCR} diff").stdout)
    shutil.rmtree(SCR)
    if "gendemo" in s:
        open(os.path.join(d, "demo.sh"), "w").write(GENDEMO % s["gendemo"])
    else:
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % s.get("feature", "md5"))
        open(os.path.join(d, "demo.rs"), "w").write(s["demo"])
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)

def verify(i):
    """Through /repo itself, since build.sh and test.sh name it."""
    d = os.path.join(V, "seeded", i)
    if sh("git -C /repo status --short").stdout: sys.exit("dirty /repo")
    r = sh(f"bash {d}/demo.sh", cwd="/repo")
    if r.returncode != 0: print(i, "DEMO FAILS UNCHANGED", r.stdout[-1500:]); return False
    try:
        r = sh(f"git -C /repo apply {d}/patch.diff")
        if r.returncode: print(i, "patch", r.stdout); return False
        r = sh("bash /opt/vp/build.sh")
        if r.returncode: print(i, "BUILD FAILS", r.stdout[-2500:]); return False
        sh("bash /opt/vp/test.sh /tmp/seed_test.json")
        t = json.load(open("/tmp/seed_test.json")); b = json.load(open("/opt/vp/BASELINE.json"))
        stable = b["stable"]
        bad = [x for x in stable if x not in t["passed"]]
        if bad: print(i, "TESTS FAIL", bad[:5]); return False
        r = sh(f"bash {d}/demo.sh", cwd="/repo")
        if r.returncode in (0, 2): print(i, "DEMO", r.returncode, "ON CHANGED", r.stdout[-800:]); return False
        print(i, "ok: demo", r.returncode, r.stdout.strip()[-150:].replace("\n", " | "))
        return True
    finally:
        sh("git -C /repo checkout -- .")

def catch(i, all_=False):
    d = os.path.join(V, "seeded", i)
    prop = SEEDS[i]["property"]
    if sh("git -C /repo status --short").stdout: sys.exit("dirty /repo")
    try:
        r = sh(f"git -C /repo apply {d}/patch.diff")
        if r.returncode: print(i, "patch", r.stdout); return
        ids = [f"C{n:02}" for n in range(1, 34)] if all_ else [prop]
        hit = []
        for c in ids:
            r = sh(f"VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run.py {c}", cwd=V)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            if v and r.returncode == 1: hit.append(c)
            elif r.returncode: hit.append(f"{c}!rc={r.returncode}"); print(r.stdout[-800:])
        print(i, "caught by" if prop in hit else "MISSED; others:", " ".join(hit), flush=True)
    finally:
        sh("git -C /repo checkout -- .")

if __name__ == "__main__":
    a = [x for x in sys.argv[2:] if not x.startswith("-")] or sorted(SEEDS)
    for i in a:
        if sys.argv[1] in ("make", "full"): make(i)
        ok = True
        if sys.argv[1] in ("verify", "full"): ok = verify(i)
        if sys.argv[1] in ("catch", "full") and ok: catch(i, "--all" in sys.argv)
