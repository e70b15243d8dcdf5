#!/usr/bin/env python3
"""Write MANIFEST.json: every property with a registered rule is claimed."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")
out = subprocess.run(["go", "run", ".", "-list"], cwd=here + "/tool", env=env, check=True, capture_output=True, text=True).stdout
rules = dict(l.split("\t", 1) for l in out.splitlines() if "\t" in l)
tech = json.load(open(here + "/scripts/technique.json"))
na = tech.pop("not_applicable")
props = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
checks, not_app = [], []
for i in props:
    if i in rules:
        t = tech.get(i, "property simulation over SSA")
        checks.append({
            "property": i,
            "quick_cmd": "./check.sh " + i,
            "thorough_cmd": "./check.sh " + i,
            "technique": "static analysis: " + t,
            "level": "other",
            "level_note": "Static decision on the type-checked SSA form of the current tree, all paths of the functions named in the evidence, nothing executed. Rule: " + rules[i] + ". Trusted: go/types, go/ssa, the models of library functions in tool/.",
        })
    else:
        not_app.append({"property": i, "reason": na.get(i, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "cd tool && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go vet .", "checks": checks, "not_applicable": not_app}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(here + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks", len(not_app), "not applicable")
