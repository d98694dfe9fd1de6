#!/usr/bin/env python3
"""Writes MANIFEST.json. Properties with contracts proved by Verus are level 'proof'; the rest (none claimed as proved) are labelled bounded."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "proofs"))
try:
    import notes
    NOTES = notes.NOTES
except ImportError:
    NOTES = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
 "C23": "A statement about which programs rustc's borrow checker rejects (lifetime variance of NdArray<'a, T>). A contract constrains what an accepted function does; no deductive verifier available here takes 'this client program must not type-check' as an obligation, and Verus itself relies on the same borrow checker. (Two concrete lifetime holes found while reading were repaired under C18.)",
 "C24": "The kernels are behind cfg(target_vendor = \"apple\"), cfg(neon_simd) and cfg(blas): aarch64 intrinsics and foreign BLAS/Accelerate calls that neither compile here nor have contracts, and floating-point agreement up to rounding is outside the verifier's logic.",
}
checks = []
for p in props:
    i = p["id"]
    if i in NA: continue
    n = NOTES.get(i)
    checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --tier thorough",
        technique=n["technique"] if n else "bounded check of the real code against an executable reference over a stated bounded input space; contracts for this part not established",
        level="proof" if n else "exploration",
        level_note=n["note"] if n else "bounded: generated layouts and programs against an independent reference",
        **({"theorems": n["theorems"]} if n and n.get("theorems") else {})))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes="No hooks in /repo: the checks extract functions from /repo/src on every run (proof) and link the unmodified crate (bounded stand-in, witness search).")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
