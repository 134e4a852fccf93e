#!/usr/bin/env python3
"""Self-test of the checker: applies one edit after the other to a scratch
copy of /repo and reports which checks fire. Edits in mutants.py name the
properties that must fire (or none, for behaviour-preserving edits)."""
import sys, os, shutil, subprocess, re, concurrent.futures as cf, tempfile
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import mutants
checker = os.environ.get("CHECKER", "/tmp/chk")
only = sys.argv[1:]

def run(i):
    m = mutants.M[i]
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    try:
        r = os.path.join(d, "repo")
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git"))
        for (f, old, new, *occ) in m["edits"]:
            p = os.path.join(r, f)
            s = open(p).read()
            n = occ[0] if occ else 0
            if n == "all":
                if old not in s:
                    return i, "EDIT-FAILED %r" % old, set()
                s = s.replace(old, new)
            else:
                at = -1
                for _ in range(n + 1):
                    at = s.find(old, at + 1)
                    if at < 0:
                        return i, "EDIT-FAILED %r" % old, set()
                s = s[:at] + new + s[at + len(old):]
            open(p, "w").write(s)
        b = subprocess.run(["go", "vet", "./..."], cwd=r, capture_output=True, text=True)
        note = ""
        b2 = subprocess.run(["go", "build", "./..."], cwd=r, capture_output=True, text=True)
        if b2.returncode:
            return i, "DOES-NOT-BUILD " + b2.stderr[:300], set()
        v = os.path.join(d, "v"); os.makedirs(v)
        o = subprocess.run([checker, "check"] + os.environ.get("CHECKS", "all").split(), capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=r, VERIF_DIR=v), timeout=900)
        hit = set(re.findall(r"VIOLATION property=(\S+)", o.stdout))
        return i, o.stdout + o.stderr, hit
    finally:
        shutil.rmtree(d)

bad = 0
todo = [i for i, m in enumerate(mutants.M) if not only or any(o in m["name"] for o in only)]
with cf.ThreadPoolExecutor(6) as ex:
    for i, out, hit in ex.map(run, todo):
        m = mutants.M[i]
        want = set(m["want"].split())
        if out.startswith("EDIT-FAILED") or out.startswith("DOES-NOT"):
            print("??", m["name"], out); bad += 1; continue
        ok = (not want and not hit) or (want and want <= hit)
        print("ok" if ok else "BAD", m["name"], "want", sorted(want), "hit", sorted(hit))
        if not ok:
            bad += 1
        if not ok or os.environ.get("SHOW"):
            lines = [l for l in out.splitlines() if "] " in l and ": [" in l or "panic" in l]
            for l in lines[:8]:
                print("      ", l[:400])
print(len(todo), "edits,", bad, "unexpected")
