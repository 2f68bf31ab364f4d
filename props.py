#!/usr/bin/env python3
"""The properties (single source for properties.jsonl and MANIFEST.json).  Run: python3 props.py"""
import json, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, thorough=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, thorough=thorough))


C2 = "compiler/c2po/"

prop("P01", "Rewriting preserves the meaning of every formula",
     "Turning the rewriting optimisation on never changes what a specification means: every formula it rewrites evaluates to the same truth "
     "value as before, at every time step of every input trace.",
     ["programs", "inputs"],
     "every formula that matches a rewrite rule (all operator combinations, intervals and operand counts), on every trace",
     "The tests print the rewritten form of about thirty formulas with a few fixed intervals; a wrong interval sum, a dropped operand or a "
     "condition that is too weak shows only for other bounds or operand counts.",
     [C2 + "rewrite.py"], [("rewrite rule table", C2 + "rewrite.py: optimize_rewrites")],
     "gated dataflow summary of the pass; each guard/replacement pair compared exactly (BDD over time-indexed propositions)",
     "Every rule reachable in the summary is instantiated for all bound values 0..2 and operand counts 2..3 its guard admits; bounds outside that window are not compared.")

prop("P02", "Normal forms keep the meaning and contain only the operators they promise",
     "Boolean and negation normal form, binary-operator splitting, operator flattening and the removal of extended, release or derived operators "
     "leave every formula equivalent to the original on every trace. Their result contains only the operators that form permits: negations only on literals "
     "in negation normal form, only negation, conjunction and until in Boolean normal form, no operator that the pass is meant to remove.",
     ["programs", "inputs"],
     "every formula with any nesting of the affected operators, any interval and operand count, on every trace",
     "Two fixed specifications are compared with expected text; the Boolean normal form and the removal passes have no test of their own.",
     [C2 + "transform.py"], [("normal form passes", C2 + "transform.py: to_nnf, to_bnf, multi_operators_to_binary, flatten_multi_operators, remove_extended_operators, remove_release_operators")],
     "gated dataflow summaries of the passes; exact equivalence of each replacement plus operator-coverage obligations",
     "Bounds 0..2 and operand counts up to 5 per rule; nesting is covered by the traversal rule, not by enumeration.")

exec(open(os.path.join(HERE, "props_more.py")).read()) if os.path.exists(os.path.join(HERE, "props_more.py")) else None


def main():
    sys.path.insert(0, HERE)
    from vf.checks import REGISTRY
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                                            "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in REGISTRY and not p["na"]:
            checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}",
                           "thorough_cmd": f"python3 check.py {p['id']} --thorough",
                           "technique": "static analysis: " + p["technique"], "level": "other", "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": p["na"] or "no check built yet"})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 check.py --list", "checks": checks, "not_applicable": na}, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not applicable")


main()
