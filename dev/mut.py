#!/usr/bin/env python3
"""Development harness: small edits of a scratch copy of /repo, and what the checks say about them.
mut.py [-k FILTER] FILE...   each FILE is a python file defining M (breaking) and R (behaviour preserving):
 M = [(name, property, [(file, old, new), ...])]   the check of the property must report a violation
 R = [(name, properties or None, [(file, old, new), ...])]   all (given) checks must stay quiet
"""
import sys, os, subprocess, shutil, json, re
from concurrent.futures import ThreadPoolExecutor
TOOL = os.environ.get("TOOL", "/tmp/p2pverif")
W = os.environ.get("MUTW", "/tmp/mutw%d" % os.getpid())
everything = os.environ.get("ALL") # refactorings against every check
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOMEMLIMIT="6GiB")
flt = None
args = sys.argv[1:]
test = False
while args and args[0].startswith("-"):
    if args[0] == "-k": flt = args[1]; args = args[2:]
    elif args[0] == "-t": test = True; args = args[1:]
M, R = [], []
for f in args:
    ns = {}
    exec(open(f).read(), ns)
    M += ns.get("M", []); R += ns.get("R", [])
claimed = subprocess.run([TOOL, "-list"], capture_output=True, text=True).stdout.split("\n")
claimed = [l.split("\t")[0] for l in claimed if "\t" in l]
def work(job):
    kind, name, prop, edits = job
    d = W + "/" + re.sub(r"\W+", "_", kind + name)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "logs"))
    for f, old, new in edits:
        p = os.path.join(d, f)
        s = open(p).read()
        if s.count(old) < 1:
            shutil.rmtree(d); return f"{kind} {name}: EDIT DOES NOT APPLY: {f}: {old[:50]!r}"
        s = s.replace(old, new, 1)
        open(p, "w").write(s)
    b = subprocess.run(["go", "build", "./..."], cwd=d, env=env, capture_output=True, text=True)
    if b.returncode:
        shutil.rmtree(d); return f"{kind} {name}: BUILD FAILS {b.stderr[:400]}"
    if test:
        t = subprocess.run(["go", "test", "./dht/...", "./misc/..."], cwd=d, env=env, capture_output=True, text=True)
    props = [prop] if isinstance(prop, str) else (not everything and prop or claimed)
    out = []
    for c in props:
        if c not in claimed: out.append("unclaimed"); continue
        v = W + "v/" + re.sub(r"\W+", "_", kind + name); os.makedirs(v, exist_ok=True)
        shutil.copy("/verif/known_findings.txt", v)
        try:
            r = subprocess.run([TOOL, "-check", c, "-repo", d, "-verif", v], env=env, capture_output=True, text=True, timeout=900)
        except subprocess.TimeoutExpired:
            out.append(c + ": TIMEOUT"); continue
        bad = "VIOLATION property=" + c in r.stdout
        first = "; ".join([l for l in r.stdout.split("\n") if "[" in l and not l.startswith(" ")][:2])[:330]
        if kind == "M": out.append(("caught: " if bad else "MISSED ") + first)
        elif bad: out.append(f"FALSE ALARM {c}: {first}")
    shutil.rmtree(d, ignore_errors=True)
    return f"{kind} {name} [{prop if isinstance(prop,str) else ''}]: " + ("; ".join(out) or "quiet")
jobs = [("M",) + m for m in M] + [("R",) + r for r in R]
if flt: jobs = [j for j in jobs if re.search(flt, j[1]) or (isinstance(j[2], str) and re.search(flt, j[2]))]
with ThreadPoolExecutor(6) as ex:
    for l in ex.map(work, jobs): print(l, flush=True)
shutil.rmtree("/tmp/mutw", ignore_errors=True)
