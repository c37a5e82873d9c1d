"""Partial transfers: what the C library did not read or write is never taken for done."""
from rules import prop
from rules.r_errprop import model, scope, SCOPES
from rulelib import Paths, is_fail
from prog import vid, kint, AnalysisBroken
from sim import NZ

# call -> operand holding the requested number of units
WRITES = {"write": 2, "fwrite": 2}
READS = {"fread": 2}


def transfers(P, R, fs, kinds):
    M = model(P)
    n = 0
    for f in fs:
        sites = [c for c in f.calls() if c.callee in kinds]
        if not sites:
            continue
        # console output is not an effect the command answers for
        sites = [c for c in sites if c.callee != "fwrite" or not (console(P, f, c) or f.file.endswith("/log.c"))]
        if not sites:
            continue
        R.fn(f.name)
        R.rule("partial-transfer", "a write that took only a part of the data is continued or makes the function fail; a read that ended in an error makes it fail")
        assume = {}
        for c in sites:
            d = f.defs.get(vid(c.ops[kinds[c.callee]]))
            if d is not None and d.op == "load" and P.field(f, d.ops[0]):
                assume[P.field(f, d.ops[0])] = 2
            a = argof(f, c.ops[kinds[c.callee]])
            if a is not None:
                assume[("arg", a)] = 2
        for c0 in sites:
            if c0.callee in WRITES:
                def res(i, c0=c0):
                    if i.callee in READS:
                        return [2, 0]
                    if i is c0:
                        return [1]
                    if i.callee in WRITES:
                        return [2]
                    if i.callee == "feof":
                        return [1]
                    if i.callee == "ferror":
                        return [0]
                    return None

                def ev(i, s, env, c0=c0):
                    if i is c0:
                        return "-short" if s.num(i.ops[WRITES[i.callee]], env) == 1 else "short"
                    return None
                what = "a write that was only partly carried out counts as done"
            else:
                def res(i, c0=c0):
                    if i is c0:
                        return [0 if i.callee == "fread" else -1]
                    if i.callee == "feof":
                        return [0]
                    if i.callee == "ferror":
                        return [1]
                    return None

                def ev(i, s, env, c0=c0):
                    return "short" if i is c0 else None
                what = "a read that failed counts as the end of the data"
            s = Paths(P, f, M, assume=assume, results=res, events=ev).go()
            bad = [r for r in s.rets if "short" in r[1] and not is_fail(M, f, r[0])]
            n += 1
            R.check(not bad, "partial:%s@%s" % (c0.callee, f.cname), c0.where(), what, bad[0][2] if bad else None)
    return n


def argof(f, o):
    v = vid(o)
    while v is not None:
        if v in f.argids:
            return f.argids.index(v)
        d = f.defs.get(v)
        if d is None or d.op not in ("zext", "sext", "trunc"):
            return None
        v = vid(d.ops[0])
    return None


def console(P, f, c):
    d = f.defs.get(vid(c.ops[3])) if vid(c.ops[3]) is not None else None
    return d is not None and d.op == "load" and isinstance(d.ops[0], dict) and d.ops[0].get("g") in ("stdout", "stderr")


def scoped(pid, kinds, closure=True):
    def go(P, R):
        fs = scope(P, pid) if "files" not in SCOPES[pid] else \
            [P.funcs[n] for n in sorted(P.reach([P.fn(r).name for r in SCOPES[pid]["roots"]])) if n in P.funcs]
        if not transfers(P, R, fs, kinds):
            R.check(True, "no-transfers", "", "")
    prop(pid)(go)


for _p in ("C01", "C07", "C13", "C25", "C30"):
    scoped(_p, WRITES)
for _p in ("C06", "C01", "C30"):
    scoped(_p, READS)
