#!/usr/bin/env python3
# Writes MANIFEST.json. Usage: gen_manifest.py
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NOT = {}
nf = os.path.join(here, "tools", "not_applicable.json")
if os.path.exists(nf): NOT = json.load(open(nf))
TECH = {
 "default": "property-based testing: coverage-guided generation over recorded choice sequences with shrinking, against an independent reference model",
 "C07": "coverage-guided fuzzing of every decoder in isolated worker processes (structured mutation of valid encodings plus raw bytes)",
 "C08": "property-based testing with a counting allocator: inflated counts and sizes, peak allocation against a linear bound",
 "C09": "model-based stateful testing: frame streams times chunkings against a stream model",
 "C10": "model-based stateful testing: streams with invalid frames times chunkings against the expected result sequence",
 "C13": "model-based stateful testing: random edit histories of message builders against a reference message",
 "C22": "metamorphic testing: decode-encode-decode fixpoint over generated and mutated wire input",
 "C28": "metamorphic testing: each input decoded alone, after other decodings, and from concurrent threads must give one outcome",
 "C29": "model-based stateful testing: whole connections times read/write splits and codec switches against a stream model",
 "C30": "metamorphic testing: equality and clones of near-identical generated pairs against equality of their reference contents",
 "C31": "differential testing: every public route that reads or writes the same thing, compared with each other",
 "C32": "metamorphic testing: the cost (steps, allocation, processor time) of generated data against the cost of four times as much, twice as deep, or more finely split data",
 "C24": "differential testing: the checked-in and the regenerated codec run on the same generated inputs",
 "C25": "property-based testing over generated specifications: the generator's codec is compiled and compared with a schema-driven reference",
}
NOTE = {
 "default": "random generation with coverage feedback; shows the property on the explored cases only, bounded by value sizes and nesting in DESIGN.md",
}
checks = []
for p in props:
    i = p["id"]
    if i in NOT: continue
    checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
      "evidence_file": f"evidence/{i}.json", "technique": TECH.get(i, TECH["default"]), "level": "exploration",
      "level_note": NOTE.get(i, NOTE["default"])})
m = {"version": 1, "setup_cmd": "./run.sh setup", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NOT.items())]}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
