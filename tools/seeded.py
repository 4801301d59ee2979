#!/usr/bin/env python3
"""Runs the checks against the planted bugs of /verif/seeded, in scratch copies (not used by any check).
Usage: seeded.py [-j N] [-k substring] [-s seed] [-a]   (-a: all checks, not only that of the property)"""
import os, sys, json, shutil, subprocess, tempfile, argparse
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off")
ap = argparse.ArgumentParser()
ap.add_argument("-j", type=int, default=3); ap.add_argument("-k", default=""); ap.add_argument("-s", type=int, default=1)
ap.add_argument("-a", action="store_true"); ap.add_argument("-v", action="store_true")
a = ap.parse_args()
def run(id):
    sd = os.path.join(HERE, "seeded", id)
    d = tempfile.mkdtemp(prefix="seed-")
    try:
        r = os.path.join(d, "repo")
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git"))
        p = subprocess.run(["patch", "-p1", "-s", "-i", sd + "/patch.diff"], cwd=r, capture_output=True, text=True)
        if p.returncode: return id, "NOAPPLY " + p.stdout
        v = os.path.join(d, "verif")
        shutil.copytree(HERE, v, ignore=shutil.ignore_patterns(".git", "seeded", "replays"))
        prop = json.load(open(sd + "/meta.json"))["property"]
        props = ["C%02d" % i for i in range(1, 42)] if a.a else [prop]
        res = []
        for q in props:
            c = subprocess.run(["./check", q], cwd=v, env=dict(ENV, VERIF_REPO=r, VERIF_SEED=str(a.s), VERIF_TIER="quick"), capture_output=True, text=True)
            if q == prop: res.append("%s=%s" % (q, {0: "MISSED", 1: "caught"}.get(c.returncode, "ERR%d" % c.returncode)))
            elif c.returncode: res.append("+" + q + ("" if c.returncode == 1 else "(ERR%d)" % c.returncode))
            if a.v or c.returncode not in (0, 1): res.append("\n" + c.stdout[-900:] + c.stderr[-900:])
        return id, " ".join(res)
    finally:
        shutil.rmtree(d)
ids = [i for i in sorted(os.listdir(os.path.join(HERE, "seeded"))) if any(k in i for k in a.k.split(","))]
with ThreadPoolExecutor(a.j) as ex:
    for res in ex.map(run, ids):
        print("%-28s %s" % res, flush=True)
