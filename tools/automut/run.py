#!/usr/bin/env python3
"""Runs the checks on automatically generated syntactic mutants of one package, in scratch copies of /repo.
usage: run.py MUTANTS.jsonl LOG [-j workers] [-n sample] [-s seed] [-f substring] [-p C01,C02]"""
import argparse, json, os, random, shutil, subprocess, threading, queue, time
HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
codec = ["C07", "C08", "C09", "C10", "C11", "C12", "C13", "C15", "C16", "C17", "C14"]
CHECKS = {"riblt": ["C01", "C03", "C05", "C02", "C06", "C04"], "lt": codec + ["C31"], "iblt": codec, "ldpc": codec + ["C30", "C28"],
          "des": ["C18", "C19"], "newsim": ["C33", "C20", "C21", "C26", "C24", "C25"], "simulator": ["C33", "C22", "C23", "C26", "C24", "C25"],
          "node": ["C28", "C29", "C27", "C30"], "testbed": ["C32", "C36"], "microbenchmarks": ["C31"]}
ap = argparse.ArgumentParser()
ap.add_argument("mutants"); ap.add_argument("log")
ap.add_argument("-j", type=int, default=5); ap.add_argument("-n", type=int, default=0); ap.add_argument("-s", type=int, default=1)
ap.add_argument("-f", default=""); ap.add_argument("-p", default="")
a = ap.parse_args()
muts = [json.loads(l) for l in open(a.mutants)]
muts = [m for m in muts if a.f in m["Desc"]]
if a.n and a.n < len(muts):
    muts = random.Random(a.s).sample(muts, a.n)
done = set()
if os.path.exists(a.log):
    done = {l.split("\t", 1)[1].rstrip("\n") for l in open(a.log) if "\t" in l}
q = queue.Queue()
for m in muts:
    if m["Desc"] not in done:
        q.put(m)
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off", HOME="/root", VERIF_SEED="1", VERIF_TIER="quick")
lock = threading.Lock()
def sh(cmd, cwd, t, e=env):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=t)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, ""
def one(m, wt):
    rel = os.path.relpath(m["File"], "/repo"); pkg = rel.split("/")[0]
    f = os.path.join(wt, rel); src = open(f, "rb").read()
    try:
        open(f, "wb").write(src[:m["Start"]] + m["New"].encode() + src[m["End"]:])
        if sh(["go", "build", "-o", "/dev/null", "./" + os.path.dirname(rel)], wt, 120)[0]: return "nobuild"
        for p in ("riblt", "lt", "iblt"):
            if pkg == p and sh(["go", "test", "./" + p], wt, 60)[0]: return "tests"
        br = ""
        for c in (a.p.split(",") if a.p else CHECKS[pkg]):
            t = time.time()
            rc, out = sh([os.path.join(HERE, "check"), c], HERE, 900, dict(env, VERIF_REPO=wt))
            if rc == 1 and "VIOLATION property=" + c in out: return "caught " + c + br
            if rc: br += " broken:%s(%ds)" % (c, time.time() - t)
        return ("BROKEN" + br) if br else "SURVIVED"
    finally:
        open(f, "wb").write(src)
def worker(i):
    wt = "/tmp/am-%d-%d" % (os.getpid(), i)
    shutil.copytree("/repo", wt, symlinks=True)
    try:
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            r = one(m, wt)
            with lock:
                open(a.log, "a").write(r + "\t" + m["Desc"] + "\n")
    finally:
        shutil.rmtree(wt, ignore_errors=True)
ts = [threading.Thread(target=worker, args=(i,)) for i in range(a.j)]
[t.start() for t in ts]; [t.join() for t in ts]
