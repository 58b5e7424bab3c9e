#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/bss-util/"
PROPS = []   # (id, title, statement, over, qtext, why, files, mechanism, note)
NA = []      # (id, title, statement, over, qtext, why, files, mechanism, reason)
def P(*a): PROPS.append(a)
def N(*a): NA.append(a)
exec(open(os.path.join(HERE, "tools", "props.py")).read())
TECH = "contract-based deductive verification: contracts on the real code (compiled from /repo on every run), verification conditions discharged by z3 and cvc5, counterexamples replayed natively"
def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for x in PROPS + NA:
            pid, title, st, over, qt, why, files, mech = x[:8]
            assert len(title) <= 80, (pid, len(title))
            f.write(json.dumps({"id": pid, "title": title, "statement": st, "quantifier": {"over": over, "text": qt}, "why_tests_cant": why,
                                "anchors": {"files": [I + y if "/" not in y else y for y in files], "mechanism": [{"name": a, "where": b} for a, b in mech]}}) + "\n")
    man = {"version": 1, "setup_cmd": "bash tools/setup.sh",
           "checks": [{"property": x[0], "quick_cmd": "python3-vt check.py %s quick" % x[0], "thorough_cmd": "python3-vt check.py %s thorough" % x[0],
                       "technique": TECH, "level": "proof", "level_note": x[8]} for x in PROPS],
           "not_applicable": [{"property": x[0], "reason": x[8]} for x in NA]}
    json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
main()
