#!/usr/bin/env python3
"""Sensitivity test of the checks: applies small changes to scratch copies of the repository and runs the
checks of the properties they break. Usage: mutants.py [-j N] [-k substring] [-s seed]   (not used by any check)"""
import os, sys, shutil, subprocess, tempfile, argparse
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = []
def m(name, props, file, *repl):
    M.append((name, props.split(), file, repl))

exec(open(os.path.join(HERE, "tools", "mutants_list.py")).read())

ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off")

def run(mu, args):
    name, props, file, repl = mu
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        r = os.path.join(d, "repo")
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git"))
        files = file.split(",")
        for f in files:
            p = os.path.join(r, f)
            s = open(p).read()
            for old, new in repl:
                if old not in s:
                    if len(files) > 1: continue
                    return name, "NOAPPLY", old
                s = s.replace(old, new, 1)
            open(p, "w").write(s)
        pk = "./" + os.path.dirname(files[0])
        b = subprocess.run(["go", "build", "-o", os.path.join(d, "out"), pk] if pk.split("/")[1] in ("node","newsim","simulator","testbed") else ["go", "build", pk], cwd=r, env=ENV, capture_output=True, text=True)
        if b.returncode: return name, "NOBUILD", b.stderr[:300]
        t = subprocess.run(["go", "test", "-vet=off", "./iblt", "./lt", "./riblt"], cwd=r, env=ENV, capture_output=True, text=True)
        tests = "" if t.returncode == 0 else " (FAILS-TESTS)"
        # a private copy of the machinery, so that runs do not share evidence or replays
        v = os.path.join(d, "verif")
        shutil.copytree(HERE, v, ignore=shutil.ignore_patterns(".git", "seeded", "replays"))
        res = []
        for p in props:
            c = subprocess.run(["./check", p], cwd=v, env=dict(ENV, VERIF_REPO=r, VERIF_SEED=str(args.s), VERIF_TIER="quick"), capture_output=True, text=True)
            out = c.stdout
            res.append("%s=%s" % (p, {0: "MISSED", 1: "caught"}.get(c.returncode, "ERR%d" % c.returncode)))
            if args.v or c.returncode not in (0, 1):
                res.append("\n" + out[-600:] + c.stderr[-1500:])
        return name, "  ".join(res) + tests, ""
    finally:
        shutil.rmtree(d)

ap = argparse.ArgumentParser()
ap.add_argument("-j", type=int, default=3); ap.add_argument("-k", default=""); ap.add_argument("-s", type=int, default=1); ap.add_argument("-v", action="store_true")
a = ap.parse_args()
todo = [x for x in M if any(k in x[0] for k in a.k.split(","))]
with ThreadPoolExecutor(a.j) as ex:
    for res in ex.map(lambda x: run(x, a), todo):
        print("%-28s %s %s" % res, flush=True)
