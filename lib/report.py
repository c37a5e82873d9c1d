"""Obligations, findings and the evidence file of one check."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VP_EVIDENCE") or os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Report:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.obligations = 0
        self.findings = []
        self.rules = {}
        self.cur = None
        self.functions = set()
        self.assumptions = []
        self.samples = []

    def rule(self, name, text):
        self.cur = self.rules.setdefault(name, {"rule": text, "obligations": 0, "findings": 0})

    def fn(self, *names):
        self.functions.update(names)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def check(self, ok, key, where, msg, path=None):
        """One obligation.  key identifies the construct without line numbers."""
        self.obligations += 1
        self.cur["obligations"] += 1
        if ok:
            if len(self.samples) < 8 or (self.obligations % 97 == 0 and len(self.samples) < 14):
                self.samples.append("%s @ %s: %s: discharged" % (key, where, self.cur["rule"][:80]))
            return
        if any(f["key"] == key and f["where"] == where for f in self.findings):
            return
        self.cur["findings"] += 1
        self.findings.append({"key": key, "where": where, "msg": msg, "path": path or []})


def known():
    """[(property, key, text)] of the findings recorded as genuine and unrepaired."""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if not l.startswith("finding:"):
                continue
            parts = l[len("finding:"):].strip().split(" ", 2)
            d = dict(p.split("=", 1) for p in parts[:2])
            out.append((d["property"], d["key"], parts[2] if len(parts) > 2 else ""))
    return out


def finish(R, units, level="other", extra=None):
    kn = {(p, k): t for p, k, t in known()}
    new = []
    for f in R.findings:
        t = kn.get((R.prop, f["key"]))
        if t is not None:
            print("KNOWN-FINDING: property=%s %s (%s)" % (R.prop, t, f["where"]))
        else:
            new.append(f)
    ev = {
        "property": R.prop, "tier": R.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
        "coverage": {
            "explanation": "Static analysis of every translation unit of the build (front end + SSA facts, nothing executed). "
                           "An obligation is one program construct a rule must hold for; discharged means the rule was decided to hold there.",
            "obligations": R.obligations,
            "discharged": R.obligations - len(R.findings),
            "translation_units": units,
            "functions_analysed": len(R.functions),
            "rules": R.rules,
            "samples": R.samples or ["none"],
        },
        "assumptions": R.assumptions or ["the LLVM 18 front end's view of the program (x86_64 Linux, posix platform, the build's feature selection)"],
        "wall_s": round(time.time() - R.t0, 3),
        "violations": len(new),
    }
    if extra:
        ev["coverage"].update(extra)
    os.makedirs(EVID, exist_ok=True)
    p = os.path.join(EVID, R.prop + ".json")
    tmp = p + ".%d" % os.getpid()
    with open(tmp, "w") as fo:
        json.dump(ev, fo, indent=1)
        fo.write("\n")
    os.rename(tmp, p)
    vp = os.path.join(EVID, R.prop + ".violation.txt")
    if os.path.exists(vp):
        os.unlink(vp)
    for f in new:
        print("%s: [%s] %s%s" % (f["where"], f["key"], f["msg"], (" | path: lines " + " -> ".join(map(str, f["path"][-14:]))) if f["path"] else ""))
    if new:
        with open(vp, "w") as fo:
            fo.write("replay: python3 /verif/check.py %s --tier %s\n\n" % (R.prop, R.tier))
            for f in new:
                fo.write("%s\n  construct: %s\n  %s\n" % (f["where"], f["key"], f["msg"]))
                if f["path"]:
                    fo.write("  path (source lines): %s\n" % " -> ".join(map(str, f["path"])))
        print("VIOLATION property=%s replay=%s" % (R.prop, vp))
        sys.stdout.flush()
        return 1
    print("%s: %d obligations, %d discharged%s, %.1fs" % (
        R.prop, R.obligations, R.obligations - len(R.findings),
        " (%d known findings)" % (len(R.findings)) if R.findings else "", time.time() - R.t0))
    return 0
