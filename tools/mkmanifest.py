#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered rules (boocheck list) and the table below."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
subprocess.check_call(["bash", here + "/setup.sh"])
rules = [json.loads(l) for l in subprocess.check_output([here + "/bin/boocheck", "list"], text=True).splitlines()]
props = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
VG = "static value-graph dataflow over SSA, canonical forms compared with a reference formulation"
PT = "static context-sensitive, field-sensitive points-to and effect analysis over SSA"
TECH = {
 "C06": PT + " (writes reaching caller-visible objects)",
 "C07": PT + " (retained references to caller storage)",
 "C14": "static interval reasoning over the branch conditions and list lengths reaching each operation that may fail, nil-ness dataflow, and " + VG,
 "C15": "typestate of opened files, use of every error result, and " + VG,
 "C18": PT + " with may-happen-in-parallel and lockset analysis per go statement",
}
NA = {
 "C30": "whether a round lowers the loss is a numerical inequality over the values of the data; no type, effect or value-flow argument over the source bounds it, and running training on samples would be a test, not static analysis",
 "C31": "uniformity and independence of random draws are statements about distributions; the source only fixes which generator is called with which bound (that part is decided under C08, C21, C26 and C27)",
}
DEFAULT_NA = "not decided: no static argument for it has been built here (see DESIGN.md)"
checks = []
for r in rules:
    i = r["id"]
    checks.append(dict(property=i, quick_cmd=f"bash run.sh {i} quick", thorough_cmd=f"bash run.sh {i} thorough",
        evidence_file=f"evidence/{i}.json", technique=TECH.get(i, VG), level=r["level"], level_note=r["explain"]))
claimed = {r["id"] for r in rules}
man = dict(version=1, setup_cmd="bash setup.sh", checks=checks,
    not_applicable=[dict(property=i, reason=NA.get(i, DEFAULT_NA)) for i in props if i not in claimed],
    notes="run.sh builds the checker (Go, vendored x/tools, no network) if needed and analyses /repo's current working tree; nothing in /repo is executed or written. No hooks are needed.")
json.dump(man, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
