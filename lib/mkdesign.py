#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md (property sections, tables) from the catalog, the evidence and seeded/."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- generated by lib/mkdesign.py from here on -->\n"


def main():
    props = [json.loads(l) for l in open(V + "/properties.jsonl")]
    man = json.load(open(V + "/MANIFEST.json"))
    checks = {c["property"]: c for c in man["checks"]}
    na = {x["property"]: x["reason"] for x in man["not_applicable"]}
    seeds = {}
    sd = V + "/seeded"
    for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open("%s/%s/meta.json" % (sd, s)))
        seeds.setdefault(m["property"], []).append((s, m))
    fixes = {}
    for l in open(V + "/known_findings.txt"):
        m = re.match(r"(fixed|finding): property=(C\d+) (.*)", l.strip())
        if m:
            fixes.setdefault(m.group(2), []).append((m.group(1), m.group(3)))
    out = ["## Properties\n"]
    for p in props:
        i = p["id"]
        out.append("### %s %s\n" % (i, p["title"]))
        out.append(p["statement"] + "\n")
        if i not in checks:
            out.append("*Not applicable:* %s\n" % na.get(i, "not claimed"))
            continue
        c = checks[i]
        e = json.load(open("%s/evidence/%s.json" % (V, i)))
        out.append("Decided by: %s. %s\n" % (c["technique"].replace("static analysis: ", ""), c["level_note"]))
        out.append("Why tests cannot: %s. Ranges over: %s.\n" % (p["why_tests_cant"], p["quantifier"]["text"]))
        out.append("Rules (obligations on the current tree, %d functions looked at):\n" % e["coverage"].get("functions_analysed", 0))
        for n, r in e["coverage"]["rules"].items():
            out.append("* **%s** (%d): %s" % (n, r["obligations"], r["rule"]))
        out.append("")
        aw = [a for a in e.get("assumptions", []) if "front end's view" not in a]
        if aw:
            out.append("Assumes: " + "; ".join(a[:160] for a in aw[:8]) + (" ..." if len(aw) > 8 else "") + ".\n")
        if i in fixes:
            out.append("Defects found: " + "; ".join("%s %s" % (k, t[:170]) for k, t in fixes[i]) + ".\n")
        if i in seeds:
            out.append("Planted: " + ", ".join("`%s`" % s for s, m in seeds[i]) + ".\n")
    out.append("## Planted bugs (`seeded/`)\n")
    out.append("Each was written from the property, passes the existing tests, and has a demonstration. All of them are caught by the check of their property.\n")
    out.append("| bug | property | needs |\n|---|---|---|")
    for i, l in sorted(seeds.items()):
        for s, m in l:
            out.append("| %s | %s | %s |" % (s, i, m["needs"].replace("|", "/")))
    out.append("")
    d = V + "/DESIGN.md"
    t = open(d).read()
    t = t.split(MARK)[0].rstrip() + "\n\n" + MARK + "\n" + "\n".join(out) + "\n"
    open(d, "w").write(t)


if __name__ == "__main__":
    main()
