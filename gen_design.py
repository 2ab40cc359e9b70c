import json, os, glob
H = os.path.dirname(os.path.abspath(__file__))
ns = {}
exec(open(H + "/design_per.py").read(), ns)
PER = ns["PER"]
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
man = json.load(open(H + "/MANIFEST.json"))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
per = []
for p in props:
    i = p["id"]
    per.append("### %s %s\n\n%s\n" % (i, p["title"], ("Not claimed: " + na[i]) if i in na else PER.get(i, "contracts/%s.py" % i.lower())))
fix = "\n".join("* %s %s" % (k["id"], k["what"]) for k in json.load(open(H + "/known_findings.json")))
rows = ["| planted bug | property | caught by | needs |", "|---|---|---|---|"]
res = {}
if os.path.exists(H + "/seed_results.json"):
    res = json.load(open(H + "/seed_results.json"))
for d in sorted(glob.glob(H + "/seeded/*/meta.json")):
    n = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    rows.append("| %s | %s | %s | %s |" % (n, m["property"], res.get(n, "?"), m["needs"].replace("|", "/")))
s = open(H + "/design_src.md").read()
open(H + "/DESIGN.md", "w").write(s.replace("@@PER@@", "\n".join(per)).replace("@@FIX@@", fix).replace("@@SEED@@", "\n".join(rows)))
