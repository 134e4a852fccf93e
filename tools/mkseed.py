#!/usr/bin/env python3
"""mkseed.py SPEC.py -- builds /verif/seeded/<id>/ from a spec (a Python file
defining SEEDS: dicts with id, property, needs, breaks, edits, demo) and
confirms it: patch applies, builds, existing tests pass, demo 0 / nonzero."""
import sys, os, json, shutil, subprocess, tempfile, importlib.util
spec = importlib.util.spec_from_file_location("spec", sys.argv[1]); mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
only = sys.argv[2:]
DEMO = '''#!/bin/bash
# exit 0: the property holds for this demonstration; nonzero: it is broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'find "$d" -depth -delete' EXIT
cp "$here/demo.go.txt" "$d/main.go" || exit 3
printf 'module demo\\n\\ngo 1.22\\n\\nrequire github.com/intel/forGoParallel v0.0.0\\n\\nreplace github.com/intel/forGoParallel => %s\\n' "$repo" >"$d/go.mod"
cd "$d" && ${GO}go build ${RACE}-o demo . || exit 3
for i in $(seq ${RUNS}); do timeout 60 ./demo || exit 1; done
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)
for s in mod.SEEDS:
    if only and s["id"] not in only: continue
    d = tempfile.mkdtemp(prefix="seed", dir="/tmp"); r = d + "/repo"
    try:
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        for f, old, new, *occ in s["edits"]:
            t = open(r + "/" + f).read(); n = occ[0] if occ else 0
            at = -1
            for _ in range(n + 1):
                at = t.find(old, at + 1)
                if at < 0: sys.exit("%s: %r not found" % (s["id"], old))
            open(r + "/" + f, "w").write(t[:at] + new + t[at + len(old):])
        diff = sh("git diff", r).stdout
        out = "/verif/seeded/" + s["id"]
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        open(out + "/demo.go.txt", "w").write(s["demo"].lstrip())
        open(out + "/demo.sh", "w").write(DEMO.replace("${RUNS}", str(s.get("runs", 1))).replace("${RACE}", "-race " if s.get("race") else "").replace("${GO}", "CGO_ENABLED=1 " if s.get("race") else "")); os.chmod(out + "/demo.sh", 0o755)
        b = sh("go vet ./... ; go build ./...", r)
        b = sh("go build ./... && go test ./... 2>&1", r)
        if b.returncode: print(s["id"], "BUILD/TEST FAILS", b.stdout[-800:], b.stderr[-500:]); continue
        p = sh("bash " + out + "/demo.sh", r); 
        sh("git checkout -- .", r)
        u = sh("bash " + out + "/demo.sh", r)
        ok = p.returncode not in (0, 3) and u.returncode == 0
        print(s["id"], "ok" if ok else "BAD", "patched", p.returncode, "clean", u.returncode, "" if ok else (p.stdout + p.stderr + u.stdout + u.stderr)[-800:], flush=True)
    finally:
        shutil.rmtree(d)
