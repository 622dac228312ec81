#!/usr/bin/env python3
"""Mutation sweep used while developing, by no check: mutate.py WORKERS OUT.log [FILE-REGEX] [SAMPLE]
Works on copies of /repo and /verif under /tmp/mut; lists the mutants that no check of the file's set reports."""
import os, random, re, shutil, subprocess, sys, threading, queue, json
NW, OUT = int(sys.argv[1]), sys.argv[2]
PAT = re.compile(sys.argv[3] if len(sys.argv) > 3 else ".")
SAMPLE = int(sys.argv[4]) if len(sys.argv) > 4 else 10**9
CHECKS = {
 "radius/src/core/packet.rs": "C01 C02 C03 C04 C05 C12 C19 C20 C21 C16 C32 C33",
 "radius/src/core/attributes.rs": "C01 C02 C12 C13 C15 C16 C33",
 "radius/src/core/avp.rs": "C06 C07 C08 C09 C10 C16 C19 C20 C33",
 "radius/src/core/tag.rs": "C09 C07", "radius/src/core/vsa.rs": "C11", "radius/src/core/code.rs": "C29 C03 C04",
 "radius/src/core/request.rs": "C22", "radius/src/server.rs": "C22 C23 C24 C25 C21 C28 C31 C32",
 "radius/src/client.rs": "C26 C27 C28 C31 C33", "code-generator/src/main.rs": "C17 C30 C18",
}
OPS = [(r" < ", " <= "), (r" < ", " >= "), (r" > ", " >= "), (r" > ", " < "), (r" <= ", " < "), (r" >= ", " > "),
       (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r" \+ ", " - "), (r" - ", " + "), (r" \^ ", " | "), (r" & ", " | "), (r" \| 0x80", ""), (r"!(?=[a-z(])(?<![a-z]!)", ""),
       (r"\b(\d+)\b", lambda m: str(int(m.group(1)) + 1)), (r"\b([1-9]\d*)\b", lambda m: str(int(m.group(1)) - 1)),
       (r"\b0x([0-9a-f]{2})\b", lambda m: "0x%02x" % ((int(m.group(1), 16) + 1) & 255)),
       (r"return Err\([^;]*\);$", ";"), (r"return;$", ";"), (r"continue;$", ";"), (r"^(\s+)[a-z_.]+\.(push|extend|insert|remove|add|del|delete|pop|splice)\(.*\);$", r"\1;"),
       (r"Some\(([a-z_]+)\)", None)]
def mutants():
    res = []
    for f in CHECKS:
        if not PAT.search(f): continue
        src = open("/repo/" + f).read()
        cut = src.find("#[cfg(test)]\nmod")
        lines = src.split("\n")
        end = src[:cut].count("\n") if cut >= 0 else len(lines)
        for n, l in enumerate(lines[:end]):
            t = l.strip()
            if t.startswith(("//", "*", "/*", "#[", "use ", "pub type", "error!", "info!", "debug!")) or not t: continue
            seen = set()
            for pat, rep in OPS:
                if rep is None: continue
                for m in re.finditer(pat, l):
                    if "//" in l and l.index("//") < m.start(): continue
                    if "fn " in l and pat in (" < ", " > ", " - "): continue
                    new = l[:m.start()] + (rep(m) if callable(rep) else m.expand(rep)) + l[m.end():]
                    if new != l and new not in seen:
                        seen.add(new); res.append((f, n, l, new))
    return res
def sh(cmd, cwd, env=None, t=1200):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=env, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=t); return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait(); return 124, "timeout"
log = open(OUT, "a"); lk = threading.Lock()
def say(s):
    with lk: log.write(s + "\n"); log.flush()
def prep(w):
    d = f"/tmp/mut/w{w}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    sh(f"git clone -q /repo {d}/repo && git clone -q /verif {d}/verif && rm -rf {d}/verif/seeded", "/tmp")
    sh(f"cp -r /repo/Cargo.lock {d}/repo/; cp /verif/harness/Cargo.lock {d}/verif/harness/ 2>/dev/null; grep -rlE '/repo' {d}/verif/harness {d}/verif/run.py | xargs sed -i 's#/repo#{d}/repo#g'", "/tmp")
    return d
def work(w, q):
    d = prep(w)
    env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
    rc, out = sh("python3 run.py --build", d + "/verif", env)
    if rc: say(f"worker {w} does not build: {out[-2000:]}"); return
    while True:
        try: f, n, l, new = q.get_nowait()
        except queue.Empty: break
        p = f"{d}/repo/{f}"
        src = open(p).read(); ls = src.split("\n"); ls[n] = new
        open(p, "w").write("\n".join(ls))
        res = None
        try:
            rc, out = sh("python3 run.py --build", d + "/verif", env)
            if rc: res = "nobuild"
            else:
                for c in CHECKS[f].split():
                    rc, out = sh(f"python3 run.py {c}", d + "/verif", env, 400)
                    if rc == 1: res = "killed " + c; break
                    if rc: res = f"rc{rc} {c}"; break
        finally:
            open(p, "w").write(src)
        say(f"{'SURVIVED' if res is None else res}\t{f}:{n+1}\t{l.strip()}\t=>\t{new.strip()}")
    shutil.rmtree(d, ignore_errors=True)
ms = mutants()
random.seed(7); random.shuffle(ms); ms = ms[:SAMPLE]
say(f"# {len(ms)} mutants")
q = queue.Queue()
for m in ms: q.put(m)
ts = [threading.Thread(target=work, args=(w, q)) for w in range(NW)]
[t.start() for t in ts]; [t.join() for t in ts]
say("# done")
