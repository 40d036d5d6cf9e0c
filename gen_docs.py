#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (python3 gen_docs.py)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
NA = []
ENG = "stateless model checking of the compiled code (deviation-bounded exhaustive schedule enumeration)"
SEQ = "exhaustive operation-sequence enumeration of the compiled code against a reference model"
GRAPH = "exhaustive enumeration of bounded graphs/programs run on the compiled code"

def prop(id, title, statement, over, text, why, files, mech, tech, note, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append(({"id": id, "title": title, "statement": statement,
               "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}, tech, note))

STD = ("Exhaustive within the stated bounds on the compiled code of /repo under sequential consistency; "
       "trusts the engine in /verif/engine, clang's -fsanitize=thread instrumentation and the oracle in the harness. ")

exec(open(os.path.join(HERE, "props_table.py")).read())

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, _, _ in P: f.write(json.dumps(p) + "\n")
        for p, _ in NA: f.write(json.dumps(p) + "\n")
    m = {"version": 1,
         "setup_cmd": "python3 run.py build",
         "hooks": {"guard": "VP_MODEL_CHECK", "enable": "no hook in /repo is needed: the checks compile /repo's sources with -fsanitize=thread and link them against /verif/engine instead of libtsan; the guard is unused", "source_commits": []},
         "checks": [{"property": p["id"], "quick_cmd": "python3 run.py check %s --tier quick" % p["id"],
                     "thorough_cmd": "python3 run.py check %s --tier thorough" % p["id"],
                     "evidence_file": "evidence/%s.json" % p["id"], "technique": t,
                     "level": "model_checking", "level_note": n} for p, t, n in P],
         "not_applicable": [{"property": p["id"], "reason": r} for p, r in NA],
         "notes": "See DESIGN.md. Known findings and fixes: known_findings.txt. properties.jsonl and this file are written by gen_docs.py from props_table.py."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

main()
