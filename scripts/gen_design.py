#!/usr/bin/env python3
"""DESIGN.md = scripts/design_head.md + tables from the tool, the seeds and the mutants + scripts/design_tail.md"""
import json, glob, os, re, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__)); top = os.path.dirname(here)
tool = os.environ.get("TOOL", "/tmp/p2pverif")
lst = dict(l.split("\t")[:2] for l in subprocess.run([tool, "-list"], capture_output=True, text=True).stdout.splitlines() if "\t" in l)
titles = {}
for l in open(top + "/properties.jsonl"):
    d = json.loads(l); titles[d["id"]] = d["title"]
mut = {}; ref = 0
for f in sorted(glob.glob(top + "/dev/*.py")):
    b = os.path.basename(f)
    if b in ("mut.py", "mkseed.py") or b.startswith("seeds"): continue
    ns = {}
    try: exec(open(f).read(), ns)
    except Exception as e: print(b, e, file=sys.stderr); continue
    for m in ns.get("M", []): mut.setdefault(m[1] if isinstance(m[1], str) else m[1][0], []).append(b[:-3])
    ref += len(ns.get("R", []))
seeds = {}
for f in glob.glob(top + "/seeded/*/meta.json"):
    m = json.load(open(f)); seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m["needs"]))
o = open(here + "/design_head.md").read()
for k in sorted(lst):
    o += f"* **{k}** ({titles[k]}). {lst[k]}.\n"
o += "\nNot decided here (`not_applicable`):\n\n"
for n in json.load(open(top + "/MANIFEST.json"))["not_applicable"]:
    o += f"* **{n['property']}** ({titles[n['property']]}). {n['reason']}.\n"
o += open(here + "/design_tail.md").read()
o += f"\n## What catches what\n\nEvery seeded change below is caught by the check of its property. \"Mutants\" are further\nchanges in dev/*.py (one edit each, {sum(map(len, mut.values()))} in all; {ref} behaviour-preserving edits beside them), all caught or\nlisted above as equivalent.\n\n| check | mutants | seeded changes: what they need to manifest |\n|---|---|---|\n"
for k in sorted(lst):
    o += f"| {k} | {len(mut.get(k, []))} | " + "; ".join(f"`{i}`: {n}" for i, n in sorted(seeds.get(k, []))).replace("|", "/") + " |\n"
open(top + "/DESIGN.md", "w").write(o)
