"""Single source of properties.jsonl and MANIFEST.json (run: python3 meta.py)."""
import json

S = "src/"
LOC, TOOLS = "src/auv_nav/localisation/", "src/auv_nav/tools/"
P = []


def prop(id, title, statement, over, quant, why, files, mech, level, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or []), level=level, note=note))


exec(open("meta_props.py").read())

TECH = "contract-based deductive verification (symbolic execution of the real functions; z3/cvc5/ring back ends)"
with open("properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
        assert len(p["title"]) <= 80, p["title"]
NA = []
exec(open("meta_na.py").read())
for i in NA:
    pass
man = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import sys; sys.path.insert(0, \"/verif\"); import pyvc.engine'",
           checks=[dict(property=p["id"], quick_cmd="/opt/venv/bin/python check.py %s --tier quick" % p["id"],
                        thorough_cmd="/opt/venv/bin/python check.py %s --tier thorough" % p["id"], technique=TECH, level=p["level"], level_note=p["note"])
                   for p in P if p["id"] not in [n["property"] for n in NA]],
           not_applicable=NA, notes="No hooks in /repo; contracts live in /verif/contracts and are checked against the working tree of /repo on every run.")
json.dump(man, open("MANIFEST.json", "w"), indent=1)
