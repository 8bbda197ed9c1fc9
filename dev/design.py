"""Fill the generated parts of DESIGN.md (between the marker comments) from checks, evidence and seeds."""
import glob
import json
import os
import re
import runpy

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(V + "/properties.jsonl")]
rows = []
for p in props:
    e = json.load(open("%s/evidence/%s.json" % (V, p["id"])))
    c = e["coverage"]
    rows.append("### %s %s\n" % (p["id"], p["title"]))
    rows.append("* Encoded: %d functions of x-python (list in the evidence), from %s." % (
        c["functions_encoded_count"],
        ", ".join(sorted({f.split(":")[0].replace("xpython/", "") for f in c["functions_encoded"]})[:6]) + " ..."))
    rows.append("* Bounds: %s." % c["bounds"])
    rows.append("* Oracle and assumptions: %s." % "; ".join(e["assumptions"]))
    rows.append("* Cost: %d harnesses, %d states, %d queries, about %d s.\n" % (
        c["harnesses"], c["states"], c["queries_discharged"], max(1, round(e["wall_s"]))))
seeds = ["| bug | caught by | needs |", "|---|---|---|"]
for s in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(s))
    seeds.append("| %s: %s | %s | %s |" % (os.path.basename(os.path.dirname(s)), m["what_it_breaks"], m["property"], m["needs"]))
k = json.load(open(V + "/known_findings.json"))
fixed = sum(x["status"] == "fixed" for x in k)
c15 = len({x["what"].split(" defines ")[1].split(",")[0] for x in k if x["property"] == "C15" and x["status"] == "known"})
t = open(V + "/DESIGN.md").read()


def put(t, name, text):
    b, e = "<!-- %s -->" % name, "<!-- /%s -->" % name
    t = t.replace("@@%s@@" % name, b + e)
    return re.sub(re.escape(b) + ".*?" + re.escape(e), lambda m: b + text + e, t, flags=re.S)


t = put(t, "TABLE", "\n" + "\n".join(rows) + "\n")
t = put(t, "SEEDS", "\n" + "\n".join(seeds) + "\n")
t = put(t, "FIXED", str(fixed))
t = put(t, "C15", str(c15))
open(V + "/DESIGN.md", "w").write(t)
