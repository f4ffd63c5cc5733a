#!/usr/bin/env python3
"""proofs.py PROP OUT.json: the contracts of one property for the block size CPPVC_BS (used by the thorough tier of check.py)"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path[:0] = [os.path.join(VERIF, "cppvc"), VERIF]; sys.dont_write_bytecode = True; sys.setrecursionlimit(20000)
import verify
from frontend import Program, UNITS
from contracts import all as A
prop = sys.argv[1]; reg = A.registry()
items = [n for n, c in reg.items() if prop in c.props and not c.assumed]
res = verify.run(Program(os.environ.get("REPO", "/repo")).load(list(UNITS)), reg, items, A.CONSTS, prop, jobs=7, wall=float(os.environ.get("WALL", "1200")), budget=verify.BUDGET_TH)
o = [x for r in res for x in r["obls"]]
with open(sys.argv[2], "w") as f:
    json.dump(dict(block_size=A.CONSTS.get("IO_BLOCK_SIZE") or int(os.environ.get("CPPVC_BS", "4096")), functions=len(set(r["fn"] for r in res)), obligations=len(o), discharged=sum(x["r"] == "proved" for x in o),
                   undecided=[r["fn"] for r in res if r["status"] != "ok"], failed=[dict(name=x["name"], kind=x["kind"], where=x["where"], r=x["r"], model=(x.get("model") or "")[:3000]) for x in o if x["r"] != "proved"]), f)
