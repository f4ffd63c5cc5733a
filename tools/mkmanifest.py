#!/usr/bin/env python3-vt
"""Writes /verif/MANIFEST.json from the contract registry."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."); sys.path[:0] = [os.path.join(V, "cppvc"), V]
from contracts import all as A
reg = A.registry(); checks = []
NA = {"C22": "Linearizability quantifies over thread interleavings. The contracts are sequential (one operation at a time against the callee contracts); deciding interleavings would need a permission logic for the lock-protected maps, which no deductive verifier for C++ available here provides. The locking discipline itself is claimed as C18.",
      "C23": "A liveness property over an endless loop reading a pipe (timing of reads, arrival of bytes, thread scheduling); function contracts express partial correctness of one call only. What one command line does is covered by C14."}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
for p in props:
    i = p["id"]
    if i in NA: continue
    fns = sorted(n for n, c in reg.items() if i in c.props and not c.assumed)
    lvl = "proof" if fns else "exploration"
    note = ("Every obligation of the contracts on %s is discharged for all inputs from the current source. " % ", ".join(fns) if fns else "No contract yet: bounded search only. ") + \
           "Assumes the trusted base and assumptions listed in the evidence file (POSIX calls, container semantics, sequential execution); functions outside the verifier's reach are covered by a bounded search of histories against a reference model, labelled bounded."
    checks.append(dict(property=i, quick_cmd="python3-vt checks/check.py " + i, thorough_cmd="VERIF_TIER=thorough python3-vt checks/check.py " + i, evidence_file="evidence/%s.json" % i,
        technique="contract-based deductive verification (clang AST -> obligations -> z3), bounded replay for counterexamples" if fns else "bounded search against a reference model (contracts pending)", level=lvl, level_note=note))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes="No hooks in /repo. Every check parses and compiles /repo's current sources itself; see DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
for p in props: jsonschema.validate(p, json.load(open("/root/.vp/PROPERTIES.schema.json")))
print(len(checks), "checks;", sum(c["level"] == "proof" for c in checks), "with proofs")
