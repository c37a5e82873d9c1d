#!/usr/bin/env python3
"""The property list: writes properties.jsonl and MANIFEST.json."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ERR = "path-sensitive failure-propagation dataflow over the SSA form of the whole program (fallible functions inferred from error reports and system calls)"
PROPS = []
NA = []


def P(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    PROPS.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                       anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **({"observe_at": observe} if observe else {}))),
                  technique, note))


def N(id, title, statement, over, text, why, files, mech, reason):
    P(id, title, statement, over, text, why, files, mech, None, None)
    NA.append(dict(property=id, reason=reason))


exec(open(os.path.join(VERIF, "lib", "catalog_data.py")).read())


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p, t, n in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    import sys
    sys.path.insert(0, VERIF)
    sys.path.insert(0, os.path.join(VERIF, "lib"))
    import rules
    reg = rules.registry()
    for p, t, n in PROPS:
        if t is not None and p["id"] not in reg:
            NA.append(dict(property=p["id"], reason="no sound static rule for it has been built here yet (planned technique: %s)" % t))
    na = {x["property"] for x in NA}
    m = {
        "version": 1,
        "setup_cmd": "python3 lib/buildir.py",
        "checks": [dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"],
                        thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                        technique="static analysis: " + t, level="other", level_note=n)
                   for p, t, n in PROPS if p["id"] not in na],
        "not_applicable": NA,
        "notes": "Every check compiles /repo's current sources to SSA facts (clang-18 + tool/irdump.cpp, cached by content hash in build/) and decides its rules on them; nothing of muon is executed.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(PROPS), "properties,", len(m["checks"]), "claimed")


if __name__ == "__main__":
    main()
