#!/usr/bin/env python3
"""auto.py MODE PACKAGE [N [SEED]] -- generated edits (automut): in mode "bug"
reports the ones that build, that no check reports and that pass the tests; in
mode "ok" those that some check reports."""
import sys, os, json, random, shutil, subprocess, re, tempfile, threading, queue
here = os.path.dirname(os.path.abspath(__file__))
checker = os.environ.get("CHECKER", "/tmp/chk")
mode, pkg = sys.argv[1], sys.argv[2]
N = int(sys.argv[3]) if len(sys.argv) > 3 else 200
random.seed(int(sys.argv[4]) if len(sys.argv) > 4 else 1)
SKIP = os.environ.get("SKIP", "").split(",")
r = lambda a, b: ["C%02d" % i for i in range(a, b + 1)]
X = ["C36", "C38", "C39"]
CH = {"internal": r(1, 9) + X, "parallel": r(1, 6) + ["C10"] + X, "speculative": r(4, 9) + X, "psort": r(11, 16) + ["C34", "C36", "C38"], "gsync": r(17, 18), "pipeline": r(19, 33) + ["C36", "C37", "C38", "C40", "C41"]}[pkg]
env = dict(os.environ, GOFLAGS="", GOPROXY="off")
out = subprocess.run(["/tmp/automut", mode, pkg], cwd="/repo", capture_output=True, text=True).stdout
muts = [json.loads(l) for l in out.splitlines()]
if os.environ.get("ONLY"): muts = [m for m in muts if re.search(os.environ["ONLY"], m["what"])]
random.shuffle(muts); muts = muts[:N]
q = queue.Queue()
for m in muts: q.put(m)
stats = {}
lock = threading.Lock()
def st(k):
    with lock: stats[k] = stats.get(k, 0) + 1
def show(tag, m, extra=""):
    with lock: print(tag, "%s:%d %s: %r -> %r %s" % (m["file"], m["line"], m["what"], m["old"][:150], m["text"][:150], extra), flush=True)
def work():
    d = tempfile.mkdtemp(prefix="auto", dir="/tmp"); rp = d + "/repo"; v = d + "/v"; os.makedirs(v)
    shutil.copytree("/repo", rp)
    try:
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            f = rp + "/" + m["file"]
            src = open("/repo/" + m["file"], "rb").read()
            open(f, "wb").write(src[:m["from"]] + m["text"].encode() + src[m["to"]:])
            if subprocess.run(["go", "build", "./..."], cwd=rp, env=env, capture_output=True).returncode:
                st("nobuild"); open(f, "wb").write(src); continue
            try:
                o = subprocess.run([checker, "check"] + CH, capture_output=True, text=True, env=dict(env, VERIF_REPO=rp, VERIF_DIR=v), timeout=600)
                so = o.stdout
            except subprocess.TimeoutExpired: so = "VIOLATION property=TIMEOUT x"
            hit = sorted(set(re.findall(r"VIOLATION property=(\S+)", so)))
            if mode == "ok":
                st("quiet" if not hit else "alarm")
                if hit:
                    lines = [l for l in so.splitlines() if ": [" in l]
                    show("ALARM", m, str(hit) + " | " + " | ".join(x[:220] for x in lines[:2]))
            elif hit: st("caught")
            else:
                try: t = subprocess.run(["go", "test", "./..."], cwd=rp, env=env, capture_output=True, text=True, timeout=120).returncode
                except subprocess.TimeoutExpired: t = 1
                st("survived" if t == 0 else "tests fail, unreported")
                show("SURVIVED" if t == 0 else "UNREPORTED", m)
            open(f, "wb").write(src)
    finally: shutil.rmtree(d)
ts = [threading.Thread(target=work) for _ in range(int(os.environ.get("J", "4")))]
for t in ts: t.start()
for t in ts: t.join()
print(mode, pkg, stats)
