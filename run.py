#!/usr/bin/env python3
"""Runs the check of one property: run.py <ID> [--replay FILE] [--scale X] | run.py --build

Builds the harness (and with it /repo) for both crypto back ends, runs the property's generated-input search
with each, writes /verif/evidence/<ID>.json and, on a violation, a replay file under /verif/replays/."""
import fcntl, json, os, re, resource, shutil, signal, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(V, "target")
BIN = os.path.join(TARGET, "vbin")
BACKENDS = ["md5", "openssl"]
# properties whose subject does not depend on the crypto back end
ONE_BACKEND = {"C17": ["md5"], "C18": ["md5"], "C19": ["md5"], "C30": ["md5"]}
MEMORY = 20 << 30  # address space of one check: an allocation beyond it ends the process with SIGABRT
LIMIT = {"quick": 400, "thorough": 6 * 3600}

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    try:
        hard = resource.getrlimit(resource.RLIMIT_NOFILE)[1]
        resource.setrlimit(resource.RLIMIT_NOFILE, (hard, hard))
    except (OSError, ValueError):
        pass


def die(msg, code=3):
    print("ERROR: " + msg, file=sys.stderr)
    sys.exit(code)

def cargo(b, env):
    """One cargo build; returns (ok, names of table entries that do not compile, other errors, rlib paths)."""
    r = subprocess.run(["cargo", "build", "--release", "--offline", "--quiet", "--features", b,
                        "--message-format=json"],
                       cwd=os.path.join(V, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       text=True, errors="replace")
    missing, other, rlibs = set(), [], {}
    for line in r.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact":
            for f in m["filenames"]:
                if f.endswith((".rlib", ".so")):
                    if m["target"]["name"] == "vh":
                        # the copy under its hashed name, which the other back end's build leaves alone
                        ino = os.stat(f).st_ino
                        d = os.path.join(TARGET, "release", "deps")
                        f = next((os.path.join(d, x) for x in os.listdir(d) if x.startswith("libvh-")
                                  and x.endswith(".rlib") and os.stat(os.path.join(d, x)).st_ino == ino), f)
                    rlibs[m["target"]["name"].replace("-", "_")] = f
        elif m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            found = False
            for sp in m["message"]["spans"]:
                if sp["is_primary"] and sp["file_name"].endswith("/table.rs") and "/out/" in sp["file_name"]:
                    lines = open(sp["file_name"]).read().splitlines()
                    e = re.search(r"// ENTRY (\S+)$", lines[sp["line_start"] - 1])
                    if e:
                        missing.add(e.group(1))
                        found = True
            if not found and m["message"]["spans"]:
                other.append(m["message"]["rendered"])
    return r.returncode == 0, missing, "".join(other) + r.stderr, rlibs

def build(backends=BACKENDS):
    os.makedirs(BIN, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
    for k in ["RUSTFLAGS", "VH_SKIP", "CARGO_ENCODED_RUSTFLAGS"]:
        env.pop(k, None)
    with open(os.path.join(TARGET, ".vlock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        for b in backends:
            skip = set()
            for _ in range(4):
                ok, missing, other, rlibs = cargo(b, dict(env, VH_SKIP=",".join(sorted(skip))) if skip else env)
                if ok or not missing or missing <= skip:
                    break
                # accessors the dictionaries call for that the code lacks: the checks report them
                skip |= missing
            if not ok:
                sys.stderr.write(other[-6000:])
                die(f"the harness does not build with the {b} back end")
            for name in ["vh", "codegen-under-test"]:
                dst = os.path.join(BIN, f"{name}-{b}")
                tmp = dst + ".new"
                shutil.copy2(os.path.join(TARGET, "release", name), tmp)
                os.replace(tmp, dst)
            with open(os.path.join(BIN, f"externs-{b}.json"), "w") as f:
                json.dump(rlibs, f)

def known(prop):
    listed = {}
    path = os.path.join(V, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) sig=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                listed[m.group(2)] = m.group(3).strip()
    return listed

def one(prop, backend, seed, tier, listed, scale, replay):
    out = os.path.join(TARGET, f"out-{prop}-{backend}-{os.getpid()}.json")
    if os.path.exists(out):
        os.unlink(out)
    cmd = [os.path.join(BIN, f"vh-{backend}"), "--prop", prop, "--seed", str(seed), "--tier", tier,
           "--scale", str(scale), "--out", out, "--known", ",".join(listed)]
    if replay:
        cmd += ["--replay", replay]
    env = dict(os.environ, VH_BIN=BIN, VH_TARGET=TARGET, VH_DIR=V, RUST_BACKTRACE="0")
    p = subprocess.Popen(cmd, cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", start_new_session=True,
                         preexec_fn=limits)
    try:
        txt, _ = p.communicate(timeout=LIMIT[tier])
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        die(f"{prop}/{backend}: no result within {LIMIT[tier]} s")
    if p.returncode in (0, 1) and os.path.exists(out):
        r = json.load(open(out))
        os.unlink(out)
        return r
    if p.returncode in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE):
        return {"crash": -p.returncode, "text": txt[-2000:]}
    sys.stderr.write(txt[-4000:])
    die(f"{prop}/{backend}: the check ended with status {p.returncode}")

def main():
    args = sys.argv[1:]
    if args[:1] == ["--build"]:
        build()
        return 0
    prop = args[0]
    opt = lambda n: args[args.index(n) + 1] if n in args else None
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in LIMIT:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scale = float(opt("--scale") or 1)
    replay = opt("--replay")
    t0 = time.time()
    build()
    listed = known(prop)
    backends = ONE_BACKEND.get(prop, BACKENDS)
    if opt("--backend"):
        backends = [opt("--backend")]
    if replay:
        spec = json.load(open(replay))
        prop = spec.get("property", prop)
        backends = [spec.get("backend", backends[0])]
        if spec.get("sub") == "process-death":
            replay, seed, tier = None, spec["seed"], spec["tier"]
        else:
            replay = os.path.abspath(replay)
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "labels": {}, "backends": {}}
    violations, seen, rules = [], {}, []
    for b in backends:
        tb = time.time()
        r = one(prop, b, seed, tier, listed, scale, replay)
        if "crash" in r:
            again = one(prop, b, seed, tier, listed, scale, replay)
            if "crash" not in again:
                r = again
            else:
                violations.append((b, {"sub": "process-death", "case": None, "seed": seed, "tier": tier,
                                       "reason": f"the process died with signal {r['crash']}: {r['text']}"}))
                continue
        cov["evaluations"] += r["evaluations"]
        cov["distinct_nontrivial"] += r["distinct_nontrivial"]
        cov["backends"][b] = {"evaluations": r["evaluations"], "distinct_nontrivial": r["distinct_nontrivial"],
                              "seconds": round(time.time() - tb, 2)}
        for k, n in r["labels"].items():
            cov["labels"][k] = cov["labels"].get(k, 0) + n
        cov["samples"] += r["samples"][: 6 // len(backends)]
        rules = rules or r["rules"]
        for k, n in r["known"].items():
            seen[k] = seen.get(k, 0) + n
        violations += [(b, v) for v in r["violations"]]
        if r.get("out_of_time"):
            cov["out_of_time"] = cov.get("out_of_time", []) + [b]
        if violations and tier == "quick":
            break  # (the other back end would have no more to say)
    cov["rule"] = "; ".join(rules)
    if seen:
        cov["known_findings_seen"] = seen
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ASSUMPTIONS.get(prop, []) + COMMON, "wall_s": round(time.time() - t0, 2),
          "violations": len(violations)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in listed:
        # a listed finding that no longer shows is not an error: it is simply not reported
        if k in seen:
            print(f"KNOWN-FINDING: property={prop} {listed[k]}")
    if not violations:
        print(f"{prop}: held on {cov['evaluations']} cases ({cov['distinct_nontrivial']} distinct non-trivial), "
              f"{ev['wall_s']} s")
        return 0
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    # the smallest failing case of each sub-check
    best = {}
    for b, v in violations:
        k = v["sub"]
        if k not in best or len(json.dumps(v["case"])) < len(json.dumps(best[k][1]["case"])):
            best[k] = (b, v)
    for n, (b, v) in enumerate(best.values()):
        path = os.path.join(V, "replays", f"{prop}-{re.sub('[^A-Za-z0-9-]', '_', v['sub'])}.json")
        with open(path, "w") as f:
            json.dump(dict(v, property=prop, backend=b, seed=seed, tier=tier), f, indent=1)
            f.write("\n")
        print(f"{prop}/{v['sub']} ({b}): {v['reason'][:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
    return 1

COMMON = ["the oracle's own MD5, packet grammar and dictionary reader are right (checked against RFC vectors)"]
ASSUMPTIONS = {}
if __name__ == "__main__":
    sys.exit(main())
