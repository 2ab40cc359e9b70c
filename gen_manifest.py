"""writes MANIFEST.json from the contracts present"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
NA = {}
try:
    NA = json.load(open(os.path.join(HERE, "not_applicable.json")))
except OSError:
    pass
LEVEL = {}
NOTE = {}
exec(open(os.path.join(HERE, "levels.py")).read())
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA or not os.path.exists(os.path.join(HERE, "contracts", i.lower() + ".py")):
        na.append({"property": i, "reason": NA.get(i, "no check yet")})
        continue
    checks.append({"property": i,
                   "quick_cmd": "%s /verif/check.py %s --tier quick" % (PY, i),
                   "thorough_cmd": "%s /verif/check.py %s --tier thorough" % (PY, i),
                   "technique": TECH.get(i, TECH["*"]),
                   "level": LEVEL.get(i, "proof"),
                   "level_note": NOTE.get(i, NOTE["*"])})
m = {"version": 1, "setup_cmd": "%s /verif/setup_check.py" % PY, "checks": checks, "not_applicable": na,
     "notes": "Contracts in /verif/contracts are checked against /repo's current sources by /verif/pyvc "
     "(symbolic execution of the real function bodies against callee contracts, obligations to polynomial / XOR-AND normal form, z3, cvc5). "
     "Concrete runs of the same contracts are bounded stand-ins and replay; they are never counted as proved."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
