"""Refresh the table of coverage in DESIGN.md from evidence/."""
import glob, json, re

rows = ["| id | unbounded obligations | bounded obligations | functions under contract | back ends (unbounded and bounded) | solver s | wall s |", "|---|---|---|---|---|---|---|"]
for f in sorted(glob.glob("evidence/R*.json")):
    e = json.load(open(f)); c = e["coverage"]
    fs = set(c.get("functions_under_contract", []))
    for b in c.get("bounded", []):
        fs |= set(b["functions"])
    rows.append("| %s | %d | %d | %d | %s | %s | %.0f |" % (e["property"], c["discharged"], c["bounded_obligations_discharged"], len(fs), ", ".join("%s %d" % (k, v) for k, v in sorted((c.get("back_ends") or {}).items())), c.get("solver_s", c.get("solver_seconds", "")), e["wall_s"]))
s = open("DESIGN.md").read()
s = re.sub(r"<!-- table -->.*<!-- /table -->", lambda m: "<!-- table -->\n" + "\n".join(rows) + "\n<!-- /table -->", s, flags=re.S)
open("DESIGN.md", "w").write(s)
rows = ["| bug | property | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (f.split("/")[1], m["property"], m["what_it_breaks"], m["needs"]))
s = open("DESIGN.md").read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda m: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
open("DESIGN.md", "w").write(s)
