#!/usr/bin/env python3
"""Writes MANIFEST.json: one check for each property that has a harness."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
tech = {
 "C01": "property-based testing: generated functions and points against the point-function definition",
 "C02": "stateful property-based testing: generated evaluation histories against an abstract model of the hierarchy",
 "C03": "property-based testing: differential between evaluation strategies",
 "C04": "property-based testing: differential against an independent implementation of the construction",
 "C05": "property-based testing: metamorphic and statistical relations over generated key pairs",
 "C06": "property-based testing and fuzzing: mutated messages against an independent acceptance model",
 "C07": "property-based testing: round trips and mutated messages against an independent reading of them",
 "C08": "property-based testing: operators and sampling against exact arithmetic",
 "C09": "property-based testing: differential between SIMD variants and a step-by-step reference, guarded buffers",
 "C10": "property-based testing: differential against an independent AES, overlapping spans, threads",
 "C11": "property-based testing: generated comparison functions against the definition",
 "C12": "property-based testing: metamorphic batch relations and mutated inputs",
 "C13": "property-based testing: generated gates against the definition modulo the group",
 "C14": "property-based testing: differential against independent hash implementations, metamorphic relations",
 "C15": "stateful property-based testing: insertion histories against a model table",
 "C16": "stateful property-based testing: insertion histories against a model table",
 "C17": "property-based testing: differential against an independent AES counter mode, request splitting",
 "C18": "property-based testing: recorded randomness, injected failures, bit independence by GF(2) rank",
 "C19": "property-based testing: differential between SIMD variants and a bytewise reference",
 "C20": "stateful property-based testing: builder histories against a model database",
 "C21": "stateful property-based testing: builder histories against a model database",
 "C22": "property-based testing: end-to-end retrieval against the plain list of values",
 "C23": "property-based testing: end-to-end retrieval against a map",
 "C24": "property-based testing: end-to-end retrieval against a map",
 "C25": "property-based testing with fault injection: leader/helper exchanges against a model",
 "C26": "property-based testing and fuzzing: mutated messages and configurations",
 "C27": "property-based testing: generated concurrent workloads against sequential results, thread sanitizer",
 "C28": "property-based testing: generated containers and views against direct indexing",
 "C30": "property-based testing: statistical and metamorphic relations over generated requests",
 "C29": "property-based testing: generated requests answered end to end, helpers against direct computation",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/harness/{i.lower()}.cc"):
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
                       "technique": tech[i], "level": "exploration",
                       "level_note": "generated-input search with shrinking in optimised and sanitised builds; shows the absence of failures on the cases explored, not in general"})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 build.py --all", "checks": checks, "not_applicable": na,
     "notes": "check.py runs a property's harness(es) from harness/ built against /repo's working tree; see DESIGN.md. No hooks are used."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
