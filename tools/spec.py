#!/usr/bin/env python3
"""Single source of properties.jsonl, rules/table.json and MANIFEST.json. Run after editing."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []

STD = "the C++ standard library, libc and the kernel behave as documented; their functions are modelled, not analysed"
ABS = "LLVM IR made by clang from /repo's sources stands for the program built by gcc"


def prop(id, title, statement, over, qtext, why, files, mech, parts, rule, technique, level="other", note="", assume=(), ir=True, minob=1):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, parts=parts,
                  rule=rule, technique=technique, level=level, note=note, assume=list(assume), ir=ir, minob=minob))


exec(open(os.path.join(HERE, "tools", "props.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P + NA:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
    table = {}
    for p in P:
        table[p["id"]] = {"parts": p["parts"], "rule": p["rule"], "level": p["level"], "min_obligations": p["minob"], "ir": p["ir"],
                          "assumptions": [STD] + ([ABS] if p["ir"] else []) + p["assume"]}
    with open(os.path.join(HERE, "rules", "table.json"), "w") as f:
        json.dump(table, f, indent=1)
        f.write("\n")
    man = {"version": 1, "setup_cmd": "python3 -c \"from engine import build_ir; build_ir.irdump_path()\"",
           "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                       "thorough_cmd": "python3 check.py %s thorough" % p["id"], "technique": p["technique"], "level": p["level"],
                       "level_note": p["note"]} for p in P],
           "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA]}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
