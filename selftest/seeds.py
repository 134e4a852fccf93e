#!/usr/bin/env python3
"""Applies each planted bug of ../seeded (or those named) to a scratch copy of
/repo and reports which checks fire."""
import sys, os, shutil, subprocess, re, tempfile, json, concurrent.futures as cf
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checker = os.environ.get("CHECKER", "/tmp/chk")
def run(i):
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    try:
        r = d + "/repo"; v = d + "/v"; os.makedirs(v)
        shutil.copytree("/repo", r)
        p = subprocess.run(["git", "apply", here + "/seeded/" + i + "/patch.diff"], cwd=r, capture_output=True, text=True)
        if p.returncode: return i, "?", "does not apply " + p.stderr
        o = subprocess.run([checker, "check"] + os.environ.get("CHECKS", "all").split(), capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=r, VERIF_DIR=v))
        lines = [l for l in o.stdout.splitlines() if ": [" in l]
        return i, sorted(set(re.findall(r"VIOLATION property=(\S+)", o.stdout))), "\n".join(x[:250] for x in lines[:3])
    finally: shutil.rmtree(d)
with cf.ThreadPoolExecutor(4) as ex:
    for i, hit, msg in ex.map(run, [x for x in sorted(os.listdir(here + "/seeded")) if not sys.argv[1:] or any(a in x for a in sys.argv[1:])]):
        want = json.load(open(here + "/seeded/" + i + "/meta.json"))["property"]
        print("caught" if want in hit else "MISSED", i, want, hit)
        if want not in hit or os.environ.get("SHOW"): print("   ", msg)
