"""Child processes: what the child does after the fork, and how outcomes are read."""
from rules import prop
from rules.r_errprop import model, scope
from rules.r_samu import const, calls_to, unreachable_call
from rulelib import Paths, callee_in, is_fail
from prog import AnalysisBroken, kint, vid, cstr
from sim import NZ

PID = ("run_cmd_ctx", "pid")
CST = ("run_cmd_ctx", "status")
EXECS = {"execve", "execv", "execvp", "execl", "execlp", "posix_spawn", "fexecve"}


@prop("C21")
def child(P, R):
    M = model(P)
    forkers = [f for f in P.funcs.values() if any(c.callee in ("fork", "vfork") for c in f.calls())]
    if not forkers:
        raise AnalysisBroken("no fork found")

    def fork(v, *extra):
        lab = {0: "child", 2: "parent", -1: "nofork"}[v]

        def results(i):
            if i.callee in ("fork", "vfork"):
                return [(v, lab)]
            for names, val, l in extra:
                if i.callee in names:
                    return [(val, l)] if l else [val]
            return None
        return results

    def ev(i, s, env):
        if i.op == "call" and i.callee in EXECS:
            return "exec"
        return None
    for f in forkers:
        R.fn(f.name)
        R.rule("child-ends", "every path of the child ends in executing the program, or in a failing exit")
        s = Paths(P, f, M, assume={PID: 0}, results=fork(0, (EXECS, -1, None)), events=ev).go()
        bad = [r for r in s.rets if "child" in r[1]]
        R.check(not bad, "return@%s" % f.cname, f.loc(), "the child returns into the code of the parent", bad[0][2] if bad else None)
        n = 0
        for i, st, path in s.deads:
            if "child" not in st:
                continue
            n += 1
            if i.callee in ("exit", "_exit", "_Exit"):
                k = kint(i.ops[0])
                R.check(k is not None and k & 0xff != 0, "status@%s" % f.cname, i.where(), "the child ends with a successful status although the program was not started", path)
            else:
                R.check(i.callee == "abort" or i.callee == "__assert_fail" or i.callee in P.noret, "end@%s" % f.cname, i.where(), "the child ends in %s" % i.callee, path)
        if not n:
            raise AnalysisBroken("%s: no end of the child found" % f.cname)
        R.check(any(f.defs[k].op == "call" and f.defs[k].callee in EXECS for k in s.hits), "exec@%s" % f.cname, f.loc(), "the child never executes the program")
        for c in f.calls():
            if c.callee in EXECS:
                bad = [p for st, p in s.hits.get(c.id, []) if "child" not in st]
                R.check(not bad, "exec-child@%s" % f.cname, c.where(), "the program replaces the parent", bad[0] if bad else None)
        R.rule("parent-continues", "the parent neither executes the program nor exits")
        s = Paths(P, f, M, assume={PID: 2}, results=fork(2), events=ev).go()
        R.check(not any("parent" in st for hs in s.hits.values() for st, _ in hs), "exec-parent@%s" % f.cname, f.loc(), "the parent executes the program")
        bad = [d for d in s.deads if "parent" in d[1] and d[0].callee in ("exit", "_exit", "abort")]
        R.check(not bad, "exit-parent@%s" % f.cname, f.loc(), "the parent exits", bad[0][2] if bad else None)
        R.rule("fork-failure", "a failed fork is a failure")
        s = Paths(P, f, M, assume={PID: -1}, results=fork(-1)).go()
        bad = [r for r in s.rets if "nofork" in r[1] and not is_fail(M, f, r[0])]
        R.check(not bad, "nofork@%s" % f.cname, f.loc(), "a failed fork is reported as success", bad[0][2] if bad else None)
        R.rule("child-setup", "the program is not started after preparing the child failed")
        for names, what in (({"chdir"}, "changing directory"), ({"dup2"}, "redirecting"), ({"setenv", "putenv"}, "setting the environment")):
            if not any(c.callee in names for c in f.calls()):
                continue
            s = Paths(P, f, M, assume={PID: 0}, results=fork(0, (names, -1, "failed")), events=ev).go()
            bad = [p for hs in s.hits.values() for st, p in hs if "failed" in st]
            R.check(not bad, "%s@%s" % (sorted(names)[0], f.cname), f.loc(), "the program is started although %s failed" % what, bad[0] if bad else None)
        R.rule("child-context", "directory, input and captured outputs are set up before the program starts")

        def ev2(i, s, env):
            if i.op == "call":
                if i.callee == "dup2":
                    return "dup%s" % kint(i.ops[1])
                if i.callee == "chdir":
                    return "chdir"
                if i.callee in EXECS:
                    return "exec"
            return None
        for a, want, what in (({("run_cmd_ctx", "chdir"): NZ}, {"chdir"}, "the requested directory"), ({("run_cmd_ctx", "stdin_path"): NZ}, {"dup0"}, "the requested input"),
                              ({("run_cmd_ctx", "flags"): 0}, {"dup1", "dup2"}, "output capture")):
            s = Paths(P, f, M, assume={PID: 0, **a}, results=fork(0, ({"open"}, 3, None)), events=ev2).go()
            bad = [p for k, hs in s.hits.items() if f.defs[k].callee in EXECS for st, p in hs if not want <= st]
            R.check(not bad, "%s@%s" % (sorted(want)[0], f.cname), f.loc(), "the program is started without %s" % what, bad[0] if bad else None)


# callers that look at the outcome without treating a failing program as an error
INSPECT = {
    "compiler_detect_c_or_cpp": "unknown compilers are treated as a generic one, with a warning",
    "compiler_detect_nasm": "identified by its output only",
    "static_linker_detect": "identified by its output only",
    "linker_detect": "the kind follows from the compiler",
    "compiler_get_libdirs": "no library directories are known",
    "run_cmd_arr": "hands the status to its caller",
    "find_program_guess_version": "an unknown version is empty",
    "samu_jobstart": "asynchronous",
    "push_test": "asynchronous",
}


PRIMS = {"run_cmd", "run_cmd_argv", "run_cmd_unsplit", "run_cmd_arr"}


@prop("C01", "C06", "C07", "C13", "C30")
def status_scoped(P, R):
    """The same rules, for the part of the program whose outcome the property speaks of."""
    M = model(P)
    names = {f.name for f in scope(P, R.prop)}
    if R.prop in ("C01", "C07", "C13"):
        wait_status(P, R, M)
    callers_checked(P, R, M, names)


@prop("C17")
def status_tests(P, R):
    wait_status(P, R, model(P))


@prop("C32")
def status(P, R):
    M = model(P)
    wait_status(P, R, M)
    if callers_checked(P, R, M) < 8:
        raise AnalysisBroken("callers that run programs not found")


def wait_status(P, R, M):
    FIN, ERR = const(P, "run_cmd_finished"), const(P, "run_cmd_error")
    R.rule("wait-status", "only a child that exited by itself with status 0 is reported as finished successfully")
    waiters = [f for f in P.funcs.values() if any(c.callee in ("waitpid", "wait") for c in f.calls())]
    if not waiters:
        raise AnalysisBroken("no wait for a child found")
    for f in waiters:
        R.fn(f.name)
        cells = set()
        for c in f.calls():
            if c.callee in ("waitpid", "wait"):
                cells.add(vid(c.ops[1 if c.callee == "waitpid" else 0]))

        def run(ws):
            def loads(i, s):
                return ws if vid(i.ops[0]) in cells else None

            def ev(i, s, env):
                if i.op == "store" and P.field(s.f, i.ops[1]) == CST:
                    v = s.ev(i.ops[0], env)
                    return ("-zero", "-unknown", "nonzero") if v not in (0, None) else (("-nonzero", "-unknown", "zero") if v == 0 else ("-zero", "-nonzero", "unknown"))
                return None
            return Paths(P, f, M, loads=loads, events=ev, results=lambda i: [1] if i.callee in ("waitpid", "wait") else None).go()
        for ws, what in ((9, "killed by a signal"), (0x86, "crashed with a core dump"), (0x7f, "stopped")):
            s = run(ws)
            bad = [r for r in s.rets if r[0] == FIN or r[0] is None]
            R.check(bool(s.rets) and not bad, "wait:%s" % what.split()[0], f.loc(), "a child that was %s is reported as finished" % what, bad[0][2] if bad else None)
        for code in (1, 2, 127, 128, 255):
            s = run(code << 8)
            bad = [r for r in s.rets if r[0] == FIN and "nonzero" not in r[1]]
            R.check(any(r[0] == FIN for r in s.rets) and not bad, "wait:exit-%d" % code, f.loc(), "a child that exited with status %d is not reported with a failing status" % code, bad[0][2] if bad else None)
        s = run(0)
        bad = [r for r in s.rets if r[0] == FIN and "zero" not in r[1]]
        R.check(not bad, "wait:exit-0", f.loc(), "a child that exited with status 0 is not reported with status 0", bad[0][2] if bad else None)
        s = Paths(P, f, M, results=lambda i: [(-1, "nowait")] if i.callee in ("waitpid", "wait") else None).go()
        bad = [r for r in s.rets if "nowait" in r[1] and r[0] != ERR]
        R.check(not bad, "wait:fails", f.loc(), "a child that could not be waited for is not reported as an error", bad[0][2] if bad else None)
    R.rule("collect-failure", "running a program succeeds only if it was collected as finished")
    for f in P.funcs.values():
        if f.file.startswith("src/platform/posix") and calls_to(P, f, {"run_cmd_collect"}):
            s = Paths(P, f, M, results=lambda i: [(ERR, "bad")] if callee_in(P, i, {"run_cmd_collect"}) else None).go()
            R.fn(f.name)
            bad = [r for r in s.rets if "bad" in r[1] and not is_fail(M, f, r[0])]
            R.check(not bad, "collect@%s" % f.cname, f.loc(), "a program that did not finish is reported as run", bad[0][2] if bad else None)


def callers_checked(P, R, M, names=None):
    R.rule("status-checked", "a caller that needs the program to succeed fails when its status is not 0")
    n = 0
    for f in sorted(P.funcs.values(), key=lambda f: f.name):
        if f.file.startswith("src/platform") or (names is not None and f.name not in names) or not calls_to(P, f, PRIMS):
            continue
        n += 1
        R.fn(f.name)
        if f.cname in INSPECT:
            R.check(True, "inspect@%s" % f.cname, f.loc(), "")
            continue
        for st in (1, 3, 255):
            judge(P, R, M, f, PRIMS, st)
    return n


def judge(P, R, M, f, prims, status):
    """With every program exiting with a failure, f must not report success."""
    key = "status@%s" % f.cname
    outs = outargs(P, f)

    def ev(i, s, env):
        if i.op == "store":
            p = vid(i.ops[1])
            if p in outs:
                return "neg" if s.ev(i.ops[0], env) == 0 else "-neg"
            fl = P.field(s.f, i.ops[1])
            if fl == ("obj_run_result", "status"):
                # the status itself must be what is stored
                d = s.f.defs.get(vid(i.ops[0])) if vid(i.ops[0]) is not None else None
                while d is not None and d.op in ("sext", "zext", "trunc"):
                    d = s.f.defs.get(vid(d.ops[0]))
                return "handed" if d is not None and d.op == "load" and P.field(s.f, d.ops[0]) == CST else None
        if callee_in(P, i, prims):
            return "ran"
        return None
    # an option that asks to tolerate failure is assumed off
    s = Paths(P, f, M, assume={CST: status, ("compiler_check_opts", "skip_run_check"): 0}, events=ev, results=lambda i: [1] if callee_in(P, i, prims) else None).go()
    bad = [r for r in s.rets if "ran" in r[1] and not is_fail(M, f, r[0]) and not ({"handed", "neg"} & r[1])]
    fv = M.failvals(f)
    if bad and fv is None and f.rettype() == "void":
        bad = [r for r in bad if "used" in r[1]]
    R.check(not bad, key, f.loc(), "%s reports success although the program it ran failed" % f.cname, bad[0][2] if bad else None)
    if any(i.op == "store" and P.field(f, i.ops[1]) == ("obj_run_result", "status") for i in f.instrs()):
        # the script may ask for the failure to be an error (check: true)
        s = Paths(P, f, M, assume={CST: status, ("args_kw", "set"): 1}, events=ev, results=lambda i: [1] if callee_in(P, i, prims | {"get_obj_bool"}) else None).go()
        bad = [r for r in s.rets if "ran" in r[1] and not is_fail(M, f, r[0])]
        R.check(not bad, key + ":check", f.loc(), "%s reports success although the program failed and the script asked for a check" % f.cname, bad[0][2] if bad else None)


def outargs(P, f):
    """_Bool * arguments: results handed out"""
    return {f.argids[k] for k in range(len(f.argids)) if k + 1 < len(f.ditypes) and f.ditypes[k + 1] in ("_Bool *", "bool *")}
