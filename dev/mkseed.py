#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from the descriptions in dev/seeds*.py and confirm each in a scratch copy.
mkseed.py [-k regex] [-n]   -n: only confirm and run the checks, do not rewrite"""
import sys, os, subprocess, shutil, json, re
from concurrent.futures import ThreadPoolExecutor
import threading
here = os.path.dirname(os.path.abspath(__file__))
BASE = "01797c7"
args = sys.argv[1:]; flt = None; nowrite = False
while args:
    if args[0] == "-k": flt = args[1]; args = args[2:]
    elif args[0] == "-n": nowrite = True; args = args[1:]
    else: break
SEEDS = []
for f in sorted(os.listdir(here)):
    if re.match(r"seeds.*\.py$", f):
        ns = {}; exec(open(os.path.join(here, f)).read(), ns); SEEDS += ns["S"]
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")
DEMO = '''#!/bin/bash
# exit 0: the property held, 1: it was broken
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%s/@PKG@/zz_demo_test.go": "%s/demo_test.go"}}' "$repo" "$here" > "$tmp/overlay.json"
# the test binary runs in a scratch directory: the packages write ./conf and ./logs
go test -c@RACE@ -vet=off -overlay "$tmp/overlay.json" -o "$tmp/demo.test" ./@PKG@ || exit 9
cd "$tmp" || exit 9
timeout 120 ./demo.test -test.count=1 -test.run '^TestDemo$' -test.timeout 100s
'''
netlock = threading.Lock()
def run(cmd, cwd, t=600, lock=False):
    if lock:
        with netlock:
            return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)
def work(s):
    d = "/tmp/seedw/" + s["id"]
    shutil.rmtree(d, ignore_errors=True); shutil.copytree("/repo", d, symlinks=True)
    msgs = []
    out = "/verif/seeded/" + s["id"] if not nowrite else "/tmp/seedo/" + s["id"]
    os.makedirs(out, exist_ok=True)
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(d, f); t = open(p).read()
            if t.count(old) < 1: return f"{s['id']}: EDIT DOES NOT APPLY {f}: {old[:60]!r}"
            open(p, "w").write(t.replace(old, new, 1))
        fm = run(["gofmt", "-l"] + sorted({e[0] for e in s["edits"]}), d).stdout.strip()
        if fm: msgs.append("gofmt: " + fm)
        diff = run(["git", "diff"], d).stdout
        # removed lines from the base revision?
        orig = 0
        for f in {e[0] for e in s["edits"]}:
            base = run(["git", "show", BASE + ":" + f], d).stdout.split("\n")
            cur = run(["git", "blame", "-s", "HEAD", "--", f], d).stdout.split("\n")
            fd = run(["git", "diff", "-U0", "--", f], d).stdout
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", fd, re.M):
                a, n = int(m[1]), int(m[2] if m[2] is not None else 1)
                for l in range(a, a + n):
                    if cur[l-1].startswith("^" + BASE[:6]) or cur[l-1].startswith(BASE): orig += 1
        if not orig: msgs.append("NO ORIGINAL LINE CHANGED")
        open(out + "/patch.diff", "w").write(diff)
        demo = DEMO.replace("@PKG@", s["pkg"]).replace("@RACE@", " -race" if s.get("race") else "")
        open(out + "/demo.sh", "w").write(demo); os.chmod(out + "/demo.sh", 0o755)
        open(out + "/demo_test.go", "w").write(s["test"])
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        b = run(["go", "build", "./..."], d)
        if b.returncode: return f"{s['id']}: BUILD FAILS {b.stderr[:500]}"
        t = run(["go", "test", "-vet=off", "-count=1", "-p", "1", "./dht", "./dht/krpc"], d, lock=True)
        # compare with the baseline: the same tests fail as on the unchanged tree
        fails = set(re.findall(r"--- FAIL: (\S+)", t.stdout))
        if fails - BASEFAIL or "build failed" in t.stdout: msgs.append("TESTS FAIL %s" % (fails - BASEFAIL))
        r = run(["bash", out + "/demo.sh"], d, lock=True)
        if r.returncode == 0: msgs.append("DEMO PASSES WITH THE PATCH")
        elif r.returncode == 9: msgs.append("DEMO DOES NOT BUILD " + r.stderr[:600])
        run(["git", "checkout", "--", "."], d)
        bad = 0
        for i in range(s.get("reps", 2)):
            r2 = run(["bash", out + "/demo.sh"], d, lock=True)
            if r2.returncode: bad += 1; last = (r2.stdout[-600:] + r2.stderr[-300:])
        if bad: msgs.append("DEMO FAILS ON THE UNCHANGED TREE: " + last)
        # the check
        run(["git", "apply", out + "/patch.diff"], d)
        v = "/tmp/mutv/seed" + s["id"]; os.makedirs(v, exist_ok=True); shutil.copy("/verif/known_findings.txt", v)
        hits = []
        for c in [s["property"]] + s.get("also", []):
            k = subprocess.run(["/tmp/p2pverif", "-check", c, "-repo", d, "-verif", v], env=env, capture_output=True, text=True, timeout=900)
            if "VIOLATION property=" + c in k.stdout:
                hits.append(c + ": " + "; ".join([l for l in k.stdout.split("\n") if "[" in l and not l.startswith(" ")][:1])[:200])
        msgs.append("caught " + " | ".join(hits) if hits else "MISSED")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return f"{s['id']} [{s['property']}] " + "; ".join(msgs)
os.makedirs("/tmp/seedw", exist_ok=True)
jobs = [s for s in SEEDS if not flt or re.search(flt, s["id"] + " " + s["property"])]
t = run(["go", "test", "-vet=off", "-count=1", "-p", "1", "./dht", "./dht/krpc"], "/repo")
BASEFAIL = set(re.findall(r"--- FAIL: (\S+)", t.stdout))
run(["git", "clean", "-fdxq", "dht/conf", "dht/krpc/conf"], "/repo")
print("baseline failures:", sorted(BASEFAIL))
with ThreadPoolExecutor(4) as ex:
    for l in ex.map(work, jobs): print(l, flush=True)
