#!/usr/bin/env python3
"""The property catalogue: writes properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of monomorphised MIR"
NOTE = ("Static: every path of the interpreted functions is covered for every input (loops by inductive invariants), "
        "without running the code. Trusted: the rustc driver that dumps MIR, the models of std operations, the written "
        "specification. Constructs the interpreter cannot follow are reported as UNDECIDED, never as violations.")

P = []


def prop(pid, title, statement, over, qtext, why, files, mech, technique=None, note=NOTE, na=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, technique=technique, note=note, na=na))


exec(open(os.path.join(HERE, "tools", "catalogue.py")).read())


assert all(len(p["title"]) <= 80 for p in P), [p["pid"] for p in P if len(p["title"]) > 80]


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["pid"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
            }, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        if p["na"]:
            na.append({"property": p["pid"], "reason": p["na"]})
        else:
            checks.append({"property": p["pid"], "quick_cmd": "./check " + p["pid"],
                           "thorough_cmd": "./check %s --thorough" % p["pid"],
                           "technique": p["technique"], "level": "other", "level_note": p["note"]})
    m = {"version": 1, "setup_cmd": "./check --setup",
         "hooks": {"guard": "none", "enable": "no hooks: the checks analyse the MIR of the unmodified crate"},
         "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
