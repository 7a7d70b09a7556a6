#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property tables (props_*.py)."""
import json, glob, importlib, os, sys, subprocess
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
props, na = [], []
for f in sorted(glob.glob(here + "/props_*.py")):
    m = importlib.import_module(os.path.basename(f)[:-3])
    props += m.PROPS
    na += m.NA
props.sort(key=lambda p: p[0]["id"])
ids = [p[0]["id"] for p in props]
assert len(ids) == len(set(ids)), "duplicate id"
naids = {p["id"] for p, _ in na}
have = set(subprocess.run([here + "/../.bin/flowcheck", "-list"], capture_output=True, text=True).stdout.split())
assert set(ids) == have, (set(ids) ^ have)
root = os.path.dirname(here)
with open(root + "/properties.jsonl", "w") as f:
    for p, _ in sorted(props + na, key=lambda p: p[0]["id"]):
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
checks = []
for p, (tech, note) in props:
    i = p["id"]
    checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
                       technique=tech, level="other", level_note=note))
m = dict(version=1, setup_cmd="./build.sh", checks=checks,
         not_applicable=[dict(property=p["id"], reason=r) for p, r in na],
         notes="One analyzer (checker/, Go, vendored golang.org/x/tools) decides every property from /repo's current source; tools/gen.py writes this file and properties.jsonl from one table.")
with open(root + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(props), "claimed,", len(na), "not applicable")
