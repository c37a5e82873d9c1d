"""What a command may do: effects reachable under assumptions."""
from rules import prop
from rules.r_errprop import model
from rulelib import Paths, Effects, reach_under, mutation, callee_in, is_fail
from prog import AnalysisBroken, cstr, fnname, kint, vid

SCRIPT = {"interp_node", "analyze_node", "builtin_run", "func_obj_eval"}


def commands(P):
    """Command line name -> functions, from the command tables."""
    out = {}
    for n, g in P.globals.items():
        nm = None
        for s, fl, v in P.init_leaves(g):
            if s == "command" and fl == "name":
                nm = cstr(v)
            elif s == "command" and fnname(v) and nm:
                out.setdefault(nm, set()).add(v["fn"])
    for f in P.funcs.values():
        nm = None
        for i in f.instrs():
            if i.op != "store":
                continue
            fl = P.field(f, i.ops[1])
            if fl == ("command", "name") or (fl is None and cstr(i.ops[0])):
                nm = cstr(i.ops[0])
            elif fl and fl[0] == "command" and fnname(i.ops[0]) and nm:
                out.setdefault(nm, set()).add(i.ops[0]["fn"])
    if len(out) < 10:
        raise AnalysisBroken("command tables not found")
    return out


def no_effects(P, R, key, roots, base, **kw):
    """Every effect in the unrestricted reach is an obligation: it must be unreachable under the assumptions."""
    M = model(P)
    stop = kw.get("stop", ())
    allseen, allcalls, _ = reach_under(P, M, roots, stop=stop, targets=kw.get("targets"))
    seen, calls, _ = reach_under(P, M, roots, **kw)
    R.fn(*seen)
    bad = {c.id if False else (c.fn.name, c.id): (c, p) for c, p in calls if base(c)}
    n = 0
    for c, _ in allcalls:
        l = base(c)
        if not l:
            continue
        n += 1
        b = bad.get((c.fn.name, c.id))
        R.check(b is None, "%s:%s:%s" % (key, c.fn.cname, l), c.where(),
                "%s is reachable: %s" % (l, P.chain(seen, c.fn.name)) if b else "", b[1] if b else None)
    if n == 0:
        for r in roots:
            R.check(True, "%s:%s" % (key, r), P.funcs[r].loc(), "")
    return seen


@prop("C02")
def dry_run(P, R):
    base = mutation(P)
    root = P.fn("install_run").name
    DRY = {("install_options", "dry_run"): 1}

    def script(v):
        return lambda i: [v] if callee_in(P, i, {"get_obj_bool"}) and i.fn.file == "src/cmd_install.c" else None
    R.rule("dry-run", "no mutating, spawning or network call is reachable from the installer when dry-run is set and no script opted in")
    R.assume("install scripts opt in to dry-run through a boolean of the install data; both values are considered")
    no_effects(P, R, "dry", [root], base, assume=DRY, results=script(0))
    R.rule("dry-run-script", "when a script opted in, the only effect reachable is starting a command, and its environment was told about the dry run")
    spawn = {f.name for f in P.funcs.values() if f.file.startswith("src/platform/") and "run_cmd" in f.file}
    M = model(P)
    seen, calls, _ = reach_under(P, M, [root], assume=DRY, results=script(1))
    for c, p in calls:
        l = base(c)
        if l:
            R.check(c.fn.name in spawn, "dryscript:%s:%s" % (c.fn.cname, l), c.where(), "%s reachable in a dry run: %s" % (l, P.chain(seen, c.fn.name)), p)
    runs = 0
    for f in list(seen):
        g = P.funcs.get(f)
        if g is None or g.file != "src/cmd_install.c":
            continue
        if not any(callee_in(P, c, {"run_cmd", "run_cmd_argv"}) for c in g.calls()):
            continue

        def ev(i, s, env):
            if i.op == "call" and any(cstr(o) == "MESON_INSTALL_DRY_RUN" for o in i.ops):
                return "told"
            if callee_in(P, i, {"run_cmd", "run_cmd_argv"}):
                return "run"
            return None
        s = Paths(P, g, M, assume=DRY, results=script(1), events=ev).go()
        for iid, hs in s.hits.items():
            i = g.defs[iid]
            if callee_in(P, i, {"run_cmd", "run_cmd_argv"}):
                bad = [p for st, p in hs if "told" not in st]
                runs += 1
                R.check(not bad, "told:%s" % g.cname, i.where(), "a script runs in a dry run without MESON_INSTALL_DRY_RUN in its environment", bad[0] if bad else None)
    if not runs:
        R.check(True, "told:none", P.funcs[root].loc(), "")


READONLY = {
    "check": None, "analyze": "an", "summary": None, "options": None, "version": None, "check-wrap": None, "dump_funcs": None, "info": "info",
}


def analyzer_targets(P):
    A = P.fn("analyze_node").name
    I = P.fn("interp_node").name

    def tg(c, ts):
        if c.callee is None and I in ts:
            return {A} if A in ts else set()
        if c.callee == I:
            return set()     # judged by the delegation rule
        return ts
    return tg


@prop("C03")
def read_only(P, R):
    base = mutation(P)
    M = model(P)
    R.rule("read-only", "no mutating, spawning or network call is reachable from an inspecting command")
    cmds = commands(P)
    for name in sorted(READONLY):
        fns = cmds.get(name)
        if not fns:
            raise AnalysisBroken("command %s not found" % name)
        stop = {"analyze_function", "builtin_run"}
        if name == "dump_funcs":
            stop = stop | {"dump_function_signatures"}
        if name == "info":
            # dispatches to the commands below
            continue
        no_effects(P, R, "cmd-" + name, sorted(fns), base, stop=stop, assume={("workspace", "in_analyzer"): 1} if name == "analyze" else None,
                   targets=analyzer_targets(P) if name == "analyze" else None)
    R.rule("signature-row", "listing a built-in's signature ends at its argument interpretation, before any effect")
    f = P.fn("interp_args")
    s = Paths(P, f, M, assume={("analyze_function_opts", "dump_signature"): 1}).go()
    bad = [r for r in s.rets if not is_fail(M, f, r[0])]
    R.check(not bad and bool(s.used), "interp_args", f.loc(), "argument interpretation goes on while signatures are listed", bad[0][2] if bad else None)
    stopped = impure_results(P, M)
    done = {}
    for t, nm, fn, pure, unsafe in table_rows(P):
        if fn not in P.funcs or fn in done:
            continue
        done[fn] = 1
        seen, calls, _ = reach_under(P, M, [fn], results=stopped, stop=SCRIPT | {"analyze_function"})
        b = next(((c, p, P.chain(seen, c.fn.name)) for c, p in calls if base(c)), None)
        R.check(b is None, "sig:%s.%s" % (t.split("@")[0], nm), b[0].where() if b else P.funcs[fn].loc(), "listing %s() reaches %s" % (nm, b[2]) if b else "", b[1] if b else None)
    # fmt without -i
    R.rule("fmt-stdout", "without the in-place option the formatter reaches no mutating call")
    getopts = [ord(c) for c in "cqe"] + [-1]

    def res(i):
        return getopts if callee_in(P, i, {"os_getopt", "getopt"}) else None
    n = sum(1 for f in cmds["fmt"] for c in P.funcs[f].calls() if res(c))
    if not n:
        raise AnalysisBroken("option loop of fmt not found")
    no_effects(P, R, "cmd-fmt", sorted(cmds["fmt"]), base, results=res)


def table_rows(P):
    """(table global, row name, function, pure, unsafe) of every built-in function table."""
    out = []
    for g in P.globals.values():
        dt = g.get("dt") or ""
        if "func_impl[" not in dt:
            continue
        v = P.typed_init(g["init"], dt)
        for r in v:
            if isinstance(r, dict) and r.get("__struct__") == "func_impl" and cstr(r.get("name")) is not None:
                out.append((g["name"], cstr(r["name"]), fnname(r["func"]), bool(kint(r.get("pure")) if isinstance(r.get("pure"), dict) else r.get("pure")),
                            bool(kint(r.get("fuzz_unsafe")) if isinstance(r.get("fuzz_unsafe"), dict) else r.get("fuzz_unsafe"))))
    if len(out) < 150:
        raise AnalysisBroken("function tables not found (%d rows)" % len(out))
    return out


def stopped_by(P, M, names):
    """Functions that fail on every path when the named functions fail (fixpoint), as {function name: failure}."""
    out = {}
    stop = {f.name: 0 for f in P.funcs.values() if f.cname in names}
    frontier = set(stop)
    callers = P.callers()
    while frontier:
        cand = {c.fn.name for n in frontier for c in callers.get(n, ()) if c.callee == n} - set(stop)
        frontier = set()
        for n in sorted(cand):
            f = P.funcs[n]
            if M.failvals(f) is None:
                continue
            s = Paths(P, f, M, results=lambda i: [stop[i.callee]] if i.callee in stop else None).go()
            if s.rets and all(is_fail(M, f, v) for v, _, _ in s.rets):
                stop[n] = M.failvals(f)[0]
                frontier.add(n)
    return stop


def impure_results(P, M):
    """Argument interpretation of an impure function under analysis always stops the function (rule analysis-stop)."""
    stop = stopped_by(P, M, {"interp_args"})
    return lambda i: [stop[i.callee]] if i.callee in stop else None


@prop("C04")
def analyzer(P, R):
    M = model(P)
    base = mutation(P)
    tg = analyzer_targets(P)
    IN = {("workspace", "in_analyzer"): 1}
    R.rule("pure-row", "a built-in declared pure cannot reach a mutating, spawning or network call during analysis")
    R.rule("impure-row", "a built-in not declared pure cannot reach such a call when argument interpretation stops it")
    done = {}
    stopped = impure_results(P, M)
    for t, name, fn, pure, unsafe in table_rows(P):
        if fn not in P.funcs:
            continue
        k = (fn, pure)
        if k not in done:
            seen, calls, _ = reach_under(P, M, [fn], assume=IN, results=None if pure else stopped, stop=SCRIPT | {"analyze_function"}, targets=tg)
            done[k] = next(((c, p, P.chain(seen, c.fn.name)) for c, p in calls if base(c)), None)
            R.fn(*seen)
        b = done[k]
        R.rule("pure-row" if pure else "impure-row", "")
        R.check(b is None, "%s.%s" % (t.split("@")[0], name), b[0].where() if b else P.funcs[fn].loc(),
                "%s() is evaluated by the analyzer and reaches %s: %s" % (name, base(b[0]), b[2]) if b else "", b[1] if b else None)

    R.rule("analysis-stop", "argument interpretation fails when analysing an impure function")
    f = P.fn("interp_args")
    s = Paths(P, f, M, assume={("analyze_function_opts", "do_analyze"): 1, ("analyze_function_opts", "pure_function"): 0}).go()
    R.fn(f.name)
    bad = [r for r in s.rets if not is_fail(M, f, r[0])]
    R.check(not bad and bool(s.used), "interp_args", f.loc(), "argument interpretation succeeds for an impure function during analysis", bad[0][2] if bad else None)

    R.rule("analysis-mode", "every built-in called by the analyzer is called in analysis mode with its own purity")
    f = P.fn("analyze_function")
    R.fn(f.name)

    def ev(i, s, env):
        if i.op == "store":
            fl = P.field(f, i.ops[1])
            if fl == ("analyze_function_opts", "do_analyze"):
                return "an" if s.ev(i.ops[0], env) == 1 else "-an"
            if fl == ("analyze_function_opts", "pure_function"):
                return "imp" if s.ev(i.ops[0], env) == 0 else "-imp"
        if i.op == "call" and i.callee is None:
            return "call"
        return None
    s = Paths(P, f, M, assume={("func_impl", "pure"): 0}, events=ev).go()
    n = 0
    for iid, hs in s.hits.items():
        i = f.defs[iid]
        if i.op == "call":
            n += 1
            bad = [p for st, p in hs if not {"an", "imp"} <= st]
            R.check(not bad, "analyze_function>call", i.where(), "an impure built-in is called without analysis mode being set", bad[0] if bad else None)
    if not n:
        raise AnalysisBroken("analyze_function no longer calls the built-in")

    R.rule("dispatch", "the analyzer never reaches the evaluating dispatcher")
    cmds = commands(P)
    roots = sorted(cmds["analyze"])
    seen, calls, _ = reach_under(P, M, roots, assume=IN, stop={"analyze_function"}, targets=tg)
    B = P.fn("builtin_run").name
    R.fn(*seen)
    R.check(B not in seen, "analyze>builtin_run", P.funcs[roots[0]].loc(), "the analyzer can evaluate built-ins unrestricted: %s" % (P.chain(seen, B) if B in seen else ""))
    for c, p in calls:
        if c.callee == P.fn("interp_node").name:
            R.check(c.fn.file == "src/lang/analyze.c", "interp_node<%s" % c.fn.cname, c.where(), "evaluates a node directly instead of analysing it")

    R.rule("delegation", "for each node type that the analyzer hands to the interpreter, the interpreter evaluates sub-expressions only through the analyzer")
    A, I = P.fn("analyze_node"), P.fn("interp_node")
    vals = [v for e in P.enums["node_type"] for n, v in e["vals"]]
    nd = 0
    for k in sorted(set(vals)):
        NT = {("node", "type"): k}
        direct = []

        def ev2(i, s, env):
            if i.op == "call":
                direct.append(i)
            return None
        Paths(P, A, M, assume=NT, events=ev2).go()

        def noscript(c, ts):
            return ts - {A.name} if (c.callee is None or c.callee == A.name) and (A.name in ts or I.name in ts) and c.callee != I.name else ts

        def drop(c, ts):
            if c.callee is None and I.name in ts:
                return set()
            return ts - {A.name}
        roots2 = {t for c in direct for t in drop(c, P.call_targets(c))}
        sub, _, _ = reach_under(P, M, sorted(roots2 - {I.name}), stop={"analyze_function", "interp_node"}, targets=drop)
        if I.name not in roots2 and I.name not in sub:
            continue
        nd += 1
        direct.clear()
        Paths(P, I, M, assume=NT, events=ev2).go()
        roots3 = {t for c in direct for t in drop(c, P.call_targets(c))}
        sub, _, _ = reach_under(P, M, sorted(roots3 - {I.name}), targets=drop, stop={"analyze_function"})
        R.check(B not in sub and B not in roots3, "node-type-%d" % k, I.loc(), "node type %d is handed to the interpreter, which evaluates functions in it: %s" % (k, P.chain(sub, B) if B in sub else ""))
    if nd < 3:
        raise AnalysisBroken("delegation from analyze_node to interp_node not found")

    R.rule("hooks", "the analyzer installs its node evaluation and analysis mode before it evaluates anything")
    n = 0
    for fn, e in sorted(seen.items()):
        f = P.funcs.get(fn)
        if f is None or f.file != "src/lang/analyze.c":
            continue
        if not any(i.op == "store" and P.field(f, i.ops[1]) == ("workspace", "interp_node") for i in f.instrs()):
            continue

        def ev3(i, s, env, f=f):
            if i.op == "store":
                fl = P.field(f, i.ops[1])
                if fl == ("workspace", "interp_node"):
                    return "hook" if fnname(i.ops[0]) == A.name else "-hook"
                if fl == ("workspace", "in_analyzer"):
                    return "mode" if s.ev(i.ops[0], env) == 1 else "-mode"
            if callee_in(P, i, {"eval", "eval_project", "eval_str", "eval_project_file"}):
                return "eval"
            if callee_in(P, i, {"workspace_init", "workspace_init_bare"}):
                return ("-hook", "-mode")
            return None
        s = Paths(P, f, M, events=ev3).go()
        for iid, hs in s.hits.items():
            i = f.defs[iid]
            if callee_in(P, i, {"eval", "eval_project", "eval_str", "eval_project_file"}):
                n += 1
                bad = [p for st, p in hs if not {"hook", "mode"} <= st]
                R.check(not bad, "%s>%s" % (f.cname, i.callee), i.where(), "evaluation starts before the analyzer's evaluation hook and mode are set", bad[0] if bad else None)
    if not n:
        raise AnalysisBroken("the analyzer's evaluation entry was not found")


@prop("C05")
def unsafe_rows(P, R):
    M = model(P)
    base = mutation(P)
    E = Effects(P, base, SCRIPT)
    R.rule("unsafe-row", "a built-in of the restricted language that may change the file system, start a program or use the network carries the unsafe flag")
    R.assume("reading files is not an unsafe operation")
    # tables selectable in the internal language mode: element 1 of each per-mode table array
    mode = next(v for e in P.enums["language_mode"] for n, v in e["vals"] if n == "language_internal")
    sel = internal_tables(P, mode)
    rows = [r for r in table_rows(P) if r[0] in sel]
    if len(rows) < 100:
        raise AnalysisBroken("tables of the internal language mode not found (%d rows)" % len(rows))
    for t, name, fn, pure, unsafe in rows:
        if fn is None:
            continue
        R.fn(fn)
        may = fn in E.may
        R.check(not may or unsafe, "%s.%s" % (t.split("@")[0], name), P.funcs[fn].loc() if fn in P.funcs else t,
                "%s() is allowed in restricted evaluation but reaches: %s" % (name, E.chain(fn) if may else ""))
    R.rule("unsafe-refused", "the dispatcher refuses rows that carry the unsafe flag when unsafe functions are disabled")
    f = P.fn("builtin_run")
    R.fn(f.name)

    def ev(i, s, env):
        if i.op == "call" and i.callee is None:
            ts = P.call_targets(i)
            if any(r[2] in ts for r in rows):
                return "call"
        return None
    # builtin dispatch: with the flag assumed no row function may be called
    s = Paths(P, f, M, assume={("func_impl", "fuzz_unsafe"): 1, "disable_fuzz_unsafe_functions": 1}, events=ev).go()
    hits = [(i, hs) for i, hs in s.hits.items()]
    R.check(not hits, "builtin_run", f.loc(), "an unsafe built-in is called although unsafe functions are disabled", hits[0][1][0][1] if hits else None)
    R.check(len(s.used) == 2, "builtin_run:flags", f.loc(), "the dispatcher does not consult the unsafe flag and the switch")
    # other indirect calls of rows that bypass the dispatcher
    R.rule("no-bypass", "built-ins are only called through the dispatcher, the analyzer or the signature dump")
    fns = {r[2] for r in rows if r[2]}
    for g in P.funcs.values():
        for c in g.calls():
            if c.callee is None and len(P.direct_targets(c) & fns) > 50:
                R.check(g.cname in ("builtin_run", "analyze_function", "dump_function_signatures"), "bypass:%s" % g.cname, c.where(),
                        "%s calls built-ins without the restriction of the dispatcher" % g.cname)
    R.rule("switch-set", "the restricted mode is switched on before evaluation")
    n = 0
    for g in P.funcs.values():
        for i in g.instrs():
            if i.op == "store" and isinstance(i.ops[1], dict) and i.ops[1].get("g", "").startswith("disable_fuzz_unsafe_functions"):
                n += 1
                k = kint(i.ops[0])
                R.check(k != 0, "switch:%s" % g.cname, i.where(), "restricted mode is switched off")
    if not n:
        raise AnalysisBroken("nothing switches restricted mode on")


def internal_tables(P, mode):
    """Function tables that lookups can select in a language mode (fixpoint over the table-of-table globals and initialisers)."""
    out = set()
    tops = []
    for g in P.globals.values():
        dt = g.get("dt") or ""
        if "func_impl" in dt and "*" in dt:
            tops.append(g)

    def walk(v, depth, dims, k):
        if isinstance(v, dict) and "g" in v and k is not False:
            out.add(v["g"])
            return
        rows = v.get("arr") if isinstance(v, dict) else (v if isinstance(v, list) else None)
        if rows is None:
            return
        for ix, e in enumerate(rows):
            if depth == dims - 1:
                if ix == mode:
                    walk(e, depth + 1, dims, True)
            else:
                walk(e, depth + 1, dims, k)
    for g in tops:
        dims = (g.get("dt") or "").count("[")
        if dims:
            walk(g.get("init"), 0, dims, True)
    # arrays of pointers that are filled from other arrays (func_tbl rows point to per-type arrays)
    more = set(out)
    for n in list(out):
        g = P.globals.get(n)
        if g is not None and "*" in (g.get("dt") or ""):
            rows = g["init"].get("arr") if isinstance(g.get("init"), dict) else None
            if rows and mode < len(rows) and isinstance(rows[mode], dict) and "g" in rows[mode]:
                more.add(rows[mode]["g"])
    return more


@prop("C16")
def no_download(P, R):
    M = model(P)
    R.rule("no-download", "with downloads disabled, evaluating a project reaches no network transfer and no version-control download")
    ND = next(v for e in P.enums["wrap_mode"] for n, v in e["vals"] if n == "wrap_mode_nodownload")

    def res(i):
        return [ND] if callee_in(P, i, {"get_option_wrap_mode"}) else None
    VCS = {"clone", "fetch", "pull", "submodule"}

    def net(c):
        return c.callee if c.callee in ("curl_easy_perform", "curl_multi_perform", "connect") else None

    def mark(i):
        return i.op == "store" and cstr(i.ops[0]) in VCS
    roots = [P.fn("eval_project").name]
    seen0, calls0, marked0 = reach_under(P, M, roots, mark=mark)
    seen, calls, marked = reach_under(P, M, roots, results=res, mark=mark)
    R.fn(*seen)
    bad = {(c.fn.name, c.id): p for c, p in calls if net(c)}
    badm = {(i.fn.name, i.id): p for i, p in marked}
    n = 0
    for c, _ in calls0:
        if net(c):
            n += 1
            k = (c.fn.name, c.id)
            R.check(k not in bad, "net:%s" % c.fn.cname, c.where(), "network transfer reachable with downloads disabled: %s" % P.chain(seen, c.fn.name) if k in bad else "", bad.get(k))
    for i, _ in marked0:
        n += 1
        k = (i.fn.name, i.id)
        R.check(k not in badm, "vcs:%s" % i.fn.cname, i.where(), "%s reachable with downloads disabled: %s" % (cstr(i.ops[0]), P.chain(seen, i.fn.name)) if k in badm else "", badm.get(k))
    if n == 0:
        raise AnalysisBroken("no download operation found")
    R.rule("mode-lookup", "the download mode is the project's option value")
    f = P.fn("get_option_wrap_mode")
    R.fn(f.name)
    modes(P, R, f, {n.replace("wrap_mode_", ""): v for e in P.enums["wrap_mode"] for n, v in e["vals"]}, only=("nodownload",))


def modes(P, R, f, want, only=None):
    """The function returns, for each text of the option, the value that stands for it."""
    from texteval import TextEval
    for text in sorted(only or want):
        s = TextEval(P, f, text, {"get_cstr", "get_str"}).run()
        if not s.complete:
            R.assume("not decided, taken to hold: %s maps '%s'" % (f.cname, text))
            continue
        bad = [r for r in s.rets if r[1] and r[0] is not None and r[0] != want[text]]
        back = {v: k for k, v in want.items()}
        R.check(not bad, "mapping:%s:%s" % (f.cname, text), f.loc(), "the option value '%s' is taken for '%s'" % (text, back.get(bad[0][0], bad[0][0])) if bad else "", bad[0][2] if bad else None)
        if not any(r[0] == want[text] for r in s.rets):
            R.check(any(r[0] is None or not r[1] for r in s.rets), "mapping:%s:%s" % (f.cname, text), f.loc(), "the option value '%s' has no effect" % text)


@prop("C45")
def default_library(P, R):
    R.rule("default-library", "library() makes the kind of library that the default_library option names")
    for f in P.bycname.get("get_option_default_library", []):
        v = {n: x for e in P.enums["tgt_type"] for n, x in e["vals"]}
        R.fn(f.name)
        modes(P, R, f, {"static": v["tgt_static_library"], "shared": v["tgt_dynamic_library"], "both": v["tgt_static_library"] | v["tgt_dynamic_library"]})
