#!/usr/bin/env python3
"""single source of MANIFEST.json"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
LEVEL = "model_checking"
TECH = "TLA+ specification (spec/NomDerive.tla) checked with TLC; conformance by trace validation: generated definitions are derived by the real macro, executed, and every recorded execution must be a behaviour of the specification"
NOTE = {
 "C17": "The acceptance rules are specified in TLA+ (spec/Accept.tla); TLC enumerates every sketch of a definition within the bounds (one attribute at every place in every form, byte-order lists up to three, refused next to accepted, container attributes on other types) with its verdict, and each is compiled; well-formed programs of the other families are compiled with only the documented imports. Trusts rustc's diagnostics.",
 "C19": "The same definitions are derived, built and run with std, alloc only and neither, against one specification with a configuration parameter; a no_std target library is also built. Trusts rustc.",
}
DEF_NOTE = "Bounded and sampled: systematic family of definitions (every construct of the property in every context) plus random programs, inputs biased to what the definition looks at, all their prefixes where truncation matters; every recorded execution (value, remainder, Needed, place and code of errors, side effects, diagnostics) must be a behaviour of the specification, and the property's declarative statement is model-checked on the specification for those cases. Trusts rustc, nom 8, the renderer and TLC."
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks: the harness crates are generated under .work/ with a path dependency on /repo."}
for p in props:
    i = p["id"]
    if i in NA: continue
    m["checks"].append({"property": i, "quick_cmd": "python3 tools/check.py " + i, "thorough_cmd": "python3 tools/check.py " + i + " thorough", "technique": TECH if i != "C17" else "TLA+ acceptance relation (spec/Accept.tla) enumerated by TLC; every generated sketch is replayed through the real derive macro and the verdicts compared",
                        "level": LEVEL, "level_note": NOTE.get(i, DEF_NOTE)})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
