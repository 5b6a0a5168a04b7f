"""MANIFEST.json from the contracts that exist: python3 tools/gen_manifest.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
TECH = ("contract-based deductive verification: pre/postconditions on the real functions, obligations generated from "
        "/repo's source on every run and discharged by ring normalisation and SMT (z3, cvc5), counterexamples replayed on CPython")
NOTE = ("Every obligation of every contract (all parameters, all data, all lengths, no bound) is generated from the current text of "
        "conjugate/ and must be discharged. Trusts: the Python-subset reading in engine/, z3/cvc5, real arithmetic for floats, "
        "assumed contracts on numpy/scipy/matplotlib (cross-checked by execution).")
EXTRA = {}
exec(open(os.path.join(HERE, "tools", "notes.py")).read())

checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(HERE, "contracts", p.lower() + ".py")):
        checks.append(dict(property=p, quick_cmd=f"python3-vt run.py {p} --tier quick",
                           thorough_cmd=f"python3-vt run.py {p} --tier thorough", evidence_file=f"evidence/{p}.json",
                           technique=TECH, level="proof", level_note=NOTE + (" " + EXTRA[p] if p in EXTRA else "")))
    else:
        na.append(dict(property=p, reason=NA.get(p, "contracts for this property are not written yet")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the verified text is /repo's own, read on every run. DESIGN.md states what the extraction changes.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
