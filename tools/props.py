"""Writes properties.jsonl and MANIFEST.json from one table (run by hand: python3 tools/props.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "reagent/training/"
PROOF = "contract-based deductive verification of the real Python (symbolic weakest-precondition engine over the executed code, z3/cvc5)"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, level="proof", note=None, technique=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  level=level, note=note, technique=technique, na=na))


exec(open(os.path.join(ROOT, "tools", "table.py")).read())

NOTE = ("Every obligation generated by executing the current source on symbolic inputs (all sizes, all real values) is discharged "
        "by an SMT solver; trusted: the engine, its models of torch operations, floats as reals. ")


def main():
    ids = [p["id"] for p in P]
    assert len(ids) == len(set(ids)), "duplicate id"
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
            }) + "\n")
    checks, na = [], []
    for p in P:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": f"./check {p['id']} --tier quick",
            "thorough_cmd": f"./check {p['id']} --tier thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"] or PROOF,
            "level": p["level"],
            "level_note": (NOTE if p["level"] == "proof" else "") + (p["note"] or ""),
        })
    m = {"version": 1, "setup_cmd": "./check --selftest", "checks": checks, "not_applicable": na,
         "notes": "One runner (./check) decides every property from /repo's working tree; see DESIGN.md."}
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "claimed", len(na), "not applicable")


main()
