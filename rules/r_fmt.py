"""The in-place rewrite of formatted files."""
from rules import prop
from rules.r_errprop import model
from rules.r_samu import calls_to
from rulelib import Paths, callee_in, is_fail
from prog import AnalysisBroken, cstr, vid


@prop("C25")
def inplace(P, R):
    M = model(P)
    fs = [f for f in P.funcs.values() if calls_to(P, f, {"fmt"}) and calls_to(P, f, {"fs_fopen", "fopen"})]
    if not fs:
        raise AnalysisBroken("in-place formatting not found")
    for f in fs:
        R.fn(f.name)
        opens = [c for c in calls_to(P, f, {"fs_fopen", "fopen"}) if not (cstr(c.ops[1]) or "w").startswith("r")]

        def content(c):
            d = f.defs.get(vid(c.ops[1]))
            return d is not None and d.op == "load" and P.field(f, d.ops[0]) == ("source", "src")
        restores = [c for c in calls_to(P, f, {"fs_write"}) if content(c)]
        R.rule("restore-all", "what is written back is the whole content as read, not a part of it")
        for c in restores:
            w, n = f.defs.get(vid(c.ops[1])), f.defs.get(vid(c.ops[2]))
            while n is not None and n.op in ("zext", "trunc", "sext"):
                n = f.defs.get(vid(n.ops[0]))
            ok = n is not None and n.op == "load" and P.field(f, n.ops[0]) == ("source", "len")
            R.check(ok, "whole@%s" % f.cname, c.where(), "the original content is written back with another length than it was read with")
        R.rule("restore-on-failure", "when formatting or closing a file that was opened for writing fails, the original content is written back")

        def ev(i, s, env):
            if i in opens:
                return "opened"
            if i in restores:
                return "-opened"
            if callee_in(P, i, {"fmt"}):
                return "fmt"
            if callee_in(P, i, {"fs_read_entire_file"}):
                return "read"
            return None
        for nm, res in (("fmt", {"fmt": 0}), ("close", {"fmt": 1, "fs_fclose": 0})):
            s = Paths(P, f, M, events=ev, results=lambda i: next(([v] for n, v in res.items() if callee_in(P, i, {n})), [3] if i in opens else None)).go()
            bad = [r[2] for r in s.rets if "opened" in r[1]]
            for c in opens:
                bad += [p for st, p in s.hits.get(c.id, []) if "opened" in st]
            R.check(bool(opens) and not bad, "restore-%s@%s" % (nm, f.cname), f.loc(), "the original content is lost when %s fails" % ("formatting" if nm == "fmt" else "closing"), bad[0] if bad else None)
            bad = [r for r in s.rets if "fmt" in r[1] and not is_fail(M, f, r[0]) and "opened" in r[1]]
            R.check(not bad, "status-%s@%s" % (nm, f.cname), f.loc(), "a failed in-place rewrite is not reported", bad[0][2] if bad else None)
        R.rule("read-before-truncate", "the file is read before it is truncated")
        s = Paths(P, f, M, events=ev).go()
        for c in opens:
            bad = [p for st, p in s.hits.get(c.id, []) if "read" not in st]
            R.check(not bad, "order@%s" % f.cname, c.where(), "the file is truncated before it was read", bad[0] if bad else None)
        s = Paths(P, f, M, events=ev, results=lambda i: [(0, "noread")] if callee_in(P, i, {"fs_read_entire_file"}) else None).go()
        bad = [p for c in opens for st, p in s.hits.get(c.id, []) if "noread" in st]
        # a later file may be opened only after its own successful read
        R.check(not bad or all("noread" in st for c in opens for st, p in s.hits.get(c.id, [])) and not bad, "unreadable@%s" % f.cname, f.loc(), "a file that could not be read is truncated", bad[0] if bad else None)
