"""Test outcomes: classification of results, TAP verdict, exit status of the test command."""
from rules import prop
from rules.r_errprop import model
from rules.r_samu import const, calls_to, unreachable_call
from rulelib import Paths, callee_in, is_fail
from prog import AnalysisBroken, kint, vid, cstr
from sim import NZ

ST = ("test_result", "status")
CST = ("run_cmd_ctx", "status")
SF = ("obj_test", "should_fail")
PROTO = ("obj_test", "protocol")
OK_ = ("tap_parse_result", "all_ok")


def strarg(f, o):
    """The constant behind a struct str argument (a compound literal built from a string constant)."""
    v = vid(o)
    out = set()
    for i in f.instrs():
        if i.op == "store" and cstr(i.ops[0]) is not None:
            p = vid(i.ops[1])
            while p is not None and p not in f.argids and f.defs[p].op == "getelementptr":
                p = vid(f.defs[p].d["base"])
            if p == v:
                out.add(cstr(i.ops[0]))
    return out.pop() if len(out) == 1 else None


@prop("C17")
def classify(P, R):
    M = model(P)
    FAILED, TIMEDOUT, OKST = (const(P, "test_result_status_" + x) for x in ("failed", "timedout", "ok"))
    ERR, FIN, RUN = const(P, "run_cmd_error"), const(P, "run_cmd_finished"), const(P, "run_cmd_running")
    TAP, EXITC = const(P, "test_protocol_tap"), const(P, "test_protocol_exitcode")
    col = P.fn("collect_tests")

    def verdict(assume):
        """results() for the calls that classify a finished test, analysed under the same assumptions"""
        memo = {}

        def results(i):
            if callee_in(P, i, {"run_cmd_collect"}):
                return [(results.state, "ended")]
            g = P.funcs.get(i.callee) if i.callee else None
            if g is not None and g.rettype() == "enum test_result_status":
                if g.name not in memo:
                    s = Paths(P, g, M, assume=assume).go()
                    R.fn(g.name)
                    memo[g.name] = sorted({r[0] for r in s.rets}, key=str) or [None]
                return memo[g.name]
            return None
        return results

    def ev(i, s, env):
        if callee_in(P, i, {"run_cmd_collect"}):
            return ("-failed",)
        if i.op == "store" and P.field(s.f, i.ops[1]) == ST:
            v = s.ev(i.ops[0], env)
            return "failed" if v in (FAILED, TIMEDOUT) else "-failed"
        if callee_in(P, i, {"arr_push"}):
            return "push"
        return None
    R.rule("classified-failed", "a test that ended badly and was not expected to fail is recorded as failed")
    cases = [("exit-1", FIN, {CST: 1, SF: 0, PROTO: EXITC}), ("exit-99", FIN, {CST: 99, SF: 0, PROTO: EXITC}), ("exit-255", FIN, {CST: 255, SF: 0, PROTO: EXITC}),
             ("exit-127", FIN, {CST: 127, SF: 0, PROTO: EXITC}),
             ("signal", ERR, {SF: 0}), ("tap-not-ok", FIN, {OK_: 0, SF: 0, PROTO: TAP, CST: 0}), ("tap-exit", FIN, {CST: 1, SF: 0, PROTO: TAP})]
    for nm, state, a in cases:
        res = verdict(a)
        res.state = state
        s = Paths(P, col, M, assume=a, events=ev, results=res).go()
        R.fn(col.name)
        n = 0
        for c in calls_to(P, col, {"arr_push"}):
            hs = [h for h in s.hits.get(c.id, [])]
            n += len(hs)
            bad = [p for st, p in hs if "failed" not in st]
            # a result that is already marked as timed out stays so
            if bad and nm != "tap-exit":
                s2 = Paths(P, col, M, assume={**a, ST: 0}, events=ev, results=res).go()
                bad = [p for st, p in s2.hits.get(c.id, []) if "failed" not in st]
            R.check(not bad, "classify:%s" % nm, c.where() if nm != "tap-exit" else col.loc(), "a test that ended with '%s' is not recorded as failed" % nm, bad[0] if bad else None)
        R.check(n > 0, "recorded:%s" % nm, col.loc(), "a test that ended with '%s' is not recorded at all" % nm)
    R.rule("timeout-kept", "a test that timed out stays recorded as timed out once it ends")
    for state in (ERR, FIN):
        s = Paths(P, col, M, assume={ST: TIMEDOUT, CST: 0}, results=lambda i: [state] if callee_in(P, i, {"run_cmd_collect"}) else None,
                  events=lambda i, s, e: "st" if i.op == "store" and P.field(s.f, i.ops[1]) == ST and s.ev(i.ops[0], e) not in (FAILED, TIMEDOUT) else None).go()
        R.check(not s.hits, "timeout", col.loc(), "the result of a test that timed out is overwritten")
    R.rule("running-waits", "a test that still runs is neither recorded nor is its slot released")
    s = Paths(P, col, M, results=lambda i: [RUN] if callee_in(P, i, {"run_cmd_collect"}) else None,
              events=lambda i, s, e: "x" if callee_in(P, i, {"arr_push"}) or (i.op == "store" and P.field(s.f, i.ops[1]) == ("test_result", "busy")) else None).go()
    R.check(not s.hits, "running", col.loc(), "a running test is recorded or its slot released")

    R.rule("start-failure", "a test that could not be started is recorded as failed")
    ps = P.fn("push_test")
    s = Paths(P, ps, M, events=ev, results=lambda i: [(0, "nostart")] if callee_in(P, i, {"run_cmd"}) else None).go()
    R.fn(ps.name)
    bad = [r for r in s.rets if "nostart" in r[1] and not {"failed", "push"} <= r[1]]
    R.check(not bad and any("nostart" in r[1] for r in s.rets), "nostart", ps.loc(), "a test that could not be started is not recorded as failed", bad[0][2] if bad else None)
    R.rule("slot-free", "a job slot is used only when it is free")
    unreachable_call(P, R, "slot", ps, {"run_cmd"}, {("test_result", "busy"): 1, ("run_test_ctx", "busy_jobs"): 1}, "a busy slot is reused")

    R.rule("all-collected", "the tests of a project end only after every started test was collected")
    rp = P.fn("run_project_tests")

    def started(i, s, env):
        return "started" if i.op == "call" and any((P.funcs[t].cname if t in P.funcs else t) == "run_test" for t in P.call_targets(i)) or \
            (i.op == "call" and any((o.get("fn") if isinstance(o, dict) else None) and P.funcs.get(o["fn"]) is not None and P.funcs[o["fn"]].cname == "run_test" for o in i.ops)) else None
    s = Paths(P, rp, M, assume={("run_test_ctx", "busy_jobs"): 1, ("test_options", "fail_fast"): 0}, events=started).go()
    R.fn(rp.name)
    bad = [r for r in s.rets if "started" in r[1] and not is_fail(M, rp, r[0])]
    R.check(bool(s.hits) and not bad, "collected", rp.loc(), "the tests of a project can end with tests still running", bad[0][2] if bad else None)

    R.rule("exit-status", "the test command fails when any recorded result is a failure or a timeout")
    tr = P.fn("tests_run")
    for v, nm in ((FAILED, "failed"), (TIMEDOUT, "timedout")):
        s = Paths(P, tr, M, assume={ST: v, ("arr", "len"): 1, ("test_options", "list"): 0, ("run_cmd_ctx", "err_msg"): 0}).go()
        R.fn(tr.name)
        bad = [r for r in s.rets if not is_fail(M, tr, r[0])]
        R.check(bool(s.rets) and not bad, "exit:%s" % nm, tr.loc(), "the test command succeeds although a test %s" % nm, bad[0][2] if bad else None)
    R.rule("selected-run", "a test is left out only by category, suite or name")
    ga = P.fn("gather_project_tests_iter")
    s = Paths(P, ga, M, assume={("obj_test", "category"): 0, ("test_options", "cat"): 0},
              results=lambda i: [1] if callee_in(P, i, {"test_in_suite", "test_matches_cmdline_tests"}) else None,
              events=lambda i, s, e: "push" if callee_in(P, i, {"obj_array_push"}) else None).go()
    bad = [r for r in s.rets if "push" not in r[1]]
    R.check(bool(s.rets) and not bad, "gather", ga.loc(), "a selected test is not run", bad[0][2] if bad else None)
    for fn, a, key in (("test_matches_cmdline_tests", {("test_options", "tests_len"): 0}, "name"),
                       ("test_in_suite", {("test_options", "suites_len"): 0, ("var.setup", "exclude_suites"): 0}, "suite")):
        f = P.fn(fn)
        s = Paths(P, f, M, assume=a).go()
        R.fn(f.name)
        if key == "suite":
            # a setup may exclude suites; without one, nothing is left out
            bad = [r for r in s.rets if r[0] == 0]
        else:
            bad = [r for r in s.rets if r[0] != 1]
        R.check(bool(s.rets) and not bad, "select:%s" % key, f.loc(), "without a selection a test is left out", bad[0][2] if bad else None)


@prop("C17")
def tap(P, R):
    M = model(P)
    tp = P.fn("tap_parse")
    FAIL, TOTAL, PASS, SKIP = (("tap_parse_result", x) for x in ("fail", "total", "pass", "skip"))

    def st_ok(i, s, env):
        if i.op == "store" and P.field(s.f, i.ops[1]) == OK_:
            return "ok" if s.ev(i.ops[0], env) != 0 else "-ok"
        return None
    R.rule("tap-verdict", "a TAP stream with a failed point, a bail out or fewer points than planned is not ok")
    for nm, a in (("failed-point", {FAIL: 1}), ("bail-out", {("tap_parse_ctx", "bail_out"): 1}), ("missing-points", {TOTAL: 2, PASS: 1, SKIP: 0, FAIL: 0, ("tap_parse_ctx", "have_plan"): 1}),
                  ("unplanned-points", {TOTAL: 1, PASS: 2, SKIP: 0, FAIL: 0, ("tap_parse_ctx", "have_plan"): 1}),
                  ("no-points", {TOTAL: 1, PASS: 0, SKIP: 0, FAIL: 0, ("tap_parse_ctx", "have_plan"): 1})):
        s = Paths(P, tp, M, assume=a, events=st_ok).go()
        R.fn(tp.name)
        bad = [r for r in s.rets if "ok" in r[1]]
        R.check(bool(s.rets) and not bad, "verdict:%s" % nm, tp.loc(), "the TAP verdict is ok although: %s" % nm, bad[0][2] if bad else None)
    R.rule("tap-ok", "a complete TAP stream without failures is ok")
    s = Paths(P, tp, M, assume={TOTAL: 2, PASS: 2, SKIP: 0, FAIL: 0, ("tap_parse_ctx", "bail_out"): 0}, events=st_ok).go()
    bad = [r for r in s.rets if "ok" not in r[1]]
    R.check(not bad, "verdict:ok", tp.loc(), "a complete TAP stream without failures is not ok", bad[0][2] if bad else None)
    R.rule("tap-lines", "each kind of TAP line is counted as what it is")
    cb = P.fn("tap_parse_line_cb")
    kinds = {}
    for c in calls_to(P, cb, {"str_startswith", "str_startswithi"}):
        k = strarg(cb, c.ops[1])
        if k:
            kinds[c.id] = k

    def inc(i, s, env):
        if i.op == "store":
            fl = P.field(s.f, i.ops[1])
            if fl in (FAIL, PASS, SKIP):
                return fl[1]
            if fl == ("tap_parse_ctx", "bail_out") and s.ev(i.ops[0], env) == 1:
                return "bail"
        return None

    def line(prefix, directive):
        def results(i):
            k = kinds.get(i.id)
            if k is not None:
                kl = k.lower()
                if kl in ("todo", "skip"):
                    return [1 if kl == directive else 0]
                return [1 if k == prefix else 0]
            if i.callee == "strstr":
                return [NZ if directive else 0]
            return None
        return Paths(P, cb, M, events=inc, results=results).go()
    R.fn(cb.name)
    if not {"ok", "not ok", "Bail out!"} <= set(kinds.values()):
        raise AnalysisBroken("TAP line kinds not found in %s" % cb.cname)
    for prefix, directive, want in (("not ok", None, {"fail"}), ("ok", None, {"pass"}), ("not ok", "todo", {"skip"}), ("ok", "skip", {"skip"}), ("Bail out!", None, {"bail"})):
        s = line(prefix, directive)
        bad = [r for r in s.rets if set(r[1]) != want]
        R.check(bool(s.rets) and not bad, "line:%s%s" % (prefix, "#" + directive if directive else ""), cb.loc(),
                "a line '%s%s' is counted as %s" % (prefix, " # " + directive if directive else "", sorted(bad[0][1]) if bad else ""), bad[0][2] if bad else None)
