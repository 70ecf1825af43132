"""Writes properties.jsonl and MANIFEST.json.  A property is claimed when sim/props/<id>.py exists."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python -B"
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, observe, level_note, state=None, tech=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                           "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                           "observe_at": observe, "hook_needed": None},
                  level_note=level_note, tech=tech))


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech, [], "")
    NA.append((id, reason))


exec(open(os.path.join(HERE, "meta", "props.py")).read())

TECH = "deterministic simulation with fault injection: "


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k not in ("level_note", "tech")}) + "\n")
    checks, nas = [], [{"property": i, "reason": r} for i, r in NA]
    for p in P:
        if p["id"] in dict(NA):
            continue
        if not os.path.exists(os.path.join(HERE, "sim", "props", p["id"].lower() + ".py")):
            nas.append({"property": p["id"], "reason": "check under construction"})
            continue
        checks.append({"property": p["id"], "quick_cmd": "%s -m sim.run %s quick" % (PY, p["id"]),
                       "thorough_cmd": "%s -m sim.run %s thorough" % (PY, p["id"]),
                       "technique": TECH + p["tech"], "level": "exploration", "level_note": p["level_note"]})
    m = {"version": 1, "setup_cmd": "%s -m sim.selftest" % PY, "checks": checks, "not_applicable": nas,
         "notes": "No hooks in /repo: the library takes its store, its locks, its parser I/O and its output stream through seams that "
                  "already exist (rdflib store interface, threading module, rdflib.parser openers). See DESIGN.md."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
    print(len(P), "properties,", len(checks), "claimed")


main()
