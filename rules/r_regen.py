"""Files read to configure the project are inputs of the build (C27)."""
from rules import prop
from rules.r_errprop import model
from rulelib import Paths, callee_in, is_fail
from sim import NZ
from prog import vid, kint, isnull, cstr, AnalysisBroken

RECORD = "workspace_add_regenerate_deps"
# readers whose contents are not part of the build description: (file, function) -> reason
EXEMPT = {
    ("src/error.c", None): "prints a diagnostic about a description that was read (and recorded) before",
    ("src/lang/analyze.c", None): "the analyzer, which writes no build",
    ("src/functions/kernel/configure_file.c", "file_exists_with_content"): "compares with the output written by the last configuration",
    ("src/functions/compiler.c", "compiler_get_define"): "reads the output of the compiler just run",
    ("src/wrap.c", "wrap_download_or_check_packagefiles"): "a package that is unpacked once; a present subproject directory is never replaced",
    ("src/functions/kernel.c", "func_serial_load"): "only available to muon's own scripts",
    ("src/lang/serial.c", None): "loads what the same configuration stored in the build directory",
    ("src/platform/run_cmd.c", None): "reads the interpreter line of a program to start it",
    ("src/platform/posix/run_cmd.c", None): "feeds a file to a program",
    ("src/platform/posix/filesystem.c", "fs_copy_file"): "copies a file without interpreting it",
}
THROUGH = {"make_str": 1, "make_strn": 1, "get_cstr": 1, "get_str": 1, "get_file_path": 1, "get_obj_file": 1, "sbuf_into_str": 1, "get_obj_internal": 1}


def keys(P, f, o, depth=0, busy=None):
    """What a path value denotes: places it can come from, with conversions removed."""
    busy = set() if busy is None else busy
    v = vid(o)
    if v is None:
        return {("const", cstr(o))} if cstr(o) is not None else set()
    if v in busy or depth > 30:
        return set()
    busy = busy | {v}
    if v in f.argids:
        return {("arg", f.argids.index(v))}
    i = f.defs[v]
    if i.op == "phi":
        return set().union(*[keys(P, f, x, depth + 1, busy) for x, _ in i.ops])
    if i.op == "select":
        return keys(P, f, i.ops[1], depth + 1, busy) | keys(P, f, i.ops[2], depth + 1, busy)
    if i.op in ("bitcast", "freeze", "zext", "trunc", "sext"):
        return keys(P, f, i.ops[0], depth + 1, busy)
    if i.op == "call":
        g = P.funcs.get(i.callee)
        n = g.cname if g is not None else i.callee
        if n in THROUGH and THROUGH[n] < len(i.ops):
            return keys(P, f, i.ops[THROUGH[n]], depth + 1, busy)
        return {("call", i.id)}
    if i.op == "load":
        out = set()
        d = f.defs.get(vid(i.ops[0]))
        for base, st in place(P, f, i.ops[0], depth + 1, busy):
            if st and st[-1] == ("sbuf", "buf"):
                out.add(obj(base, st[:-1]))       # the text of a string buffer
            elif not st and (P.ditype(f, i.ops[0]) or "").endswith("struct sbuf *"):
                out.add(base)
            elif d is not None and d.op == "call" and not st:
                out.add(base)                     # the string of a file object
            else:
                out.add(("loaded", base, st))
        return out
    if i.op in ("getelementptr", "alloca"):
        return {obj(b, st) for b, st in place(P, f, o, depth, busy - {v})}
    return {("value", v)}


def obj(base, st):
    return ("at", base, st) if st else base


def place(P, f, o, depth=0, busy=None):
    """An address: set of (base, steps)."""
    v = vid(o)
    if v is None:
        return {(("global", o.get("g")), (o.get("off") or 0,) if o.get("off") else ())} if isinstance(o, dict) else set()
    if v not in f.argids:
        i = f.defs[v]
        if i.op == "getelementptr":
            st = tuple((s["s"], s["f"]) if "f" in s else str(s.get("idx")) for s in i.steps if not (kint(s.get("idx")) == 0 and s is i.steps[0]))
            return {(b, x + st) for b, x in place(P, f, i.d["base"], depth + 1, busy)}
        if i.op == "alloca":
            return {(("local", v), ())}
    return {(k, ()) for k in keys(P, f, o, depth + 1, busy)}


def read_call(P, c):
    """(operand index of the path, description) when the call opens a file for reading."""
    g = P.funcs.get(c.callee)
    n = g.cname if g is not None else c.callee
    if n == "fs_read_entire_file":
        return 0
    if n in ("fs_fopen", "fopen"):
        m = cstr(c.ops[1])
        return 0 if m is not None and m[0] == "r" else None
    if n == "open":
        k = kint(c.ops[1])
        return 0 if k is not None and not k & 3 else None
    return None


def exempt(f):
    for k, why in EXEMPT.items():
        if f.file == k[0] and k[1] in (None, f.cname):
            return why
    return None


@prop("C27")
def regenerate(P, R):
    M = model(P)
    rec = {f.name for f in P.funcs.values() if f.cname == RECORD}
    if not rec:
        raise AnalysisBroken("no function records inputs of the build")
    root = P.fn("eval_project").name
    stop = {f.cname for f in P.funcs.values() if f.file == "src/lang/analyze.c"}
    seen = P.reach([root], stop=stop)
    R.rule("recorded", "every path of project evaluation that reads a file and succeeds records that file as an input of the build")
    base = ("fs_read_entire_file", "fs_fopen", RECORD)
    scope = [P.funcs[n] for n in seen if n in P.funcs and P.funcs[n].cname not in base and P.funcs[n].file.startswith("src/")]
    readers = {}         # (function, parameter) that is read and not recorded inside
    todo = list(scope)
    sites = {}
    changed = True
    while changed:
        changed = False
        for f in todo:
            for c in f.calls():
                ks = set()
                k = read_call(P, c)
                if k is not None:
                    ks.add(k)
                for t in P.direct_targets(c):
                    ks |= readers.get(t, set())
                for k in ks:
                    if (f.name, c.id, k) in sites or k >= len(c.ops):
                        continue
                    sites[(f.name, c.id, k)] = (f, c, k)
                    changed = True
                    pk = keys(P, f, c.ops[k])
                    recs = [r for r in f.calls() if r.callee in rec]
                    own = {x[1] for x in pk if x[0] == "arg"}
                    if own and not any(keys(P, f, r.ops[1]) & pk for r in recs) and not exempt(f):
                        for a in own:
                            readers.setdefault(f.name, set()).add(a)
    n = 0
    used = set()
    for f, c, k in sites.values():
        why = exempt(f)
        pk = keys(P, f, c.ops[k])
        if why:
            used.add(why)
            continue
        if pk and all(x[0] == "arg" and x[1] in readers.get(f.name, ()) for x in pk):
            continue     # judged where the path is made
        R.fn(f.name)
        n += 1

        def ev(i, s, env):
            if i is c:
                return "read"
            if i.op == "call" and i.callee in rec and keys(P, f, i.ops[1]) & pk:
                return "rec"
            return None
        s = Paths(P, f, M, events=ev).go()
        bad = [p for v, st, p in s.rets if "read" in st and "rec" not in st and not is_fail(M, f, v)]
        R.check(not bad, "read:%s:%s" % (f.cname, c.callee or "pointer"), c.where(),
                "a file is read to configure the project (%s) without being recorded as an input of the build" % P.chain(seen, f.name) if bad else "", bad[0] if bad else None)
    if n < 4:
        raise AnalysisBroken("only %d places read build descriptions" % n)
    for why in sorted(used):
        R.assume("not a build description: " + why)

    R.rule("commands", "a command line given by the build description is recorded before it is run at configuration time")
    m = 0
    for f in scope:
        joins = [c for c in f.calls() if callee_in(P, c, {"join_args_argstr"})]
        runs = [c for c in f.calls() if callee_in(P, c, {"run_cmd"})]
        if not joins or not runs or not from_description(P, f):
            continue
        m += 1
        R.fn(f.name)
        for j in joins:
            jk = keys(P, f, j.ops[3])

            def ev(i, s, env):
                if i.op == "call" and i.callee in rec and keys(P, f, i.ops[1]) & jk:
                    return "rec"
                if i is j:
                    return "join"
                if i in runs:
                    return "run"
                return None
            s = Paths(P, f, M, events=ev).go()
            bad = [p for v, st, p in s.rets if {"join", "run"} <= st and "rec" not in st and not is_fail(M, f, v)]
            R.check(not bad, "command:%s" % f.cname, j.where(), "a command of the build description is run without recording the files it names", bad[0] if bad else None)
    if m < 2:
        raise AnalysisBroken("configuration time commands not found")

    R.rule("kept", "recording a path stores it unless it is inside the build directory or does not exist")
    pushes = 0
    for f in scope_of(P, rec):
        if not any(callee_in(P, c, {"obj_array_push"}) and regen(P, f, c.ops[1]) for c in f.calls()):
            continue

        def ev(i, s, env):
            if callee_in(P, i, {"obj_array_push"}) and regen(P, f, i.ops[1]):
                return "push"
            return None

        def res(i):
            if callee_in(P, i, {"path_is_subpath"}) and any(fl and fl[1] == "build_root" for fl in [fieldof(P, f, i.ops[0])]):
                return [(0,), (1, "inbuild")]
            if callee_in(P, i, {"fs_file_exists"}):
                return [(0, "missing"), (1,)]
            return None
        s = Paths(P, f, M, events=ev, results=res).go()
        pushes += 1
        R.fn(f.name)
        bad = [p for v, st, p in s.rets if not st & {"push", "inbuild", "missing"} and not is_fail(M, f, v)]
        R.check(not bad, "kept:%s" % f.cname, f.loc(), "a path to record is dropped", bad[0] if bad else None)
    if not pushes:
        raise AnalysisBroken("no function stores the recorded inputs")
    for r in rec:
        f = P.funcs[r]

        def ev(i, s, env):
            if i.op != "call":
                return None
            for o in i.ops:
                if isinstance(o, dict) and "fn" in o and stores(P, o["fn"]):
                    return "kept"
            if any(stores(P, t) for t in P.direct_targets(i)) or (callee_in(P, i, {"obj_array_push", "obj_array_extend"}) and regen(P, f, i.ops[1])):
                return "kept"
            return None
        s = Paths(P, f, M, events=ev).go()
        # a loop over an array may have no element
        bad = [p for v, st, p in s.rets if "kept" not in st]
        loop = any(x <= b for b, ins in enumerate(f.blocks) for x in ins[-1].d.get("succ", ()))
        R.check(not bad or loop, "keeps:%s" % f.cname, f.loc(), "recording a path can do nothing", bad[0] if bad else None)

    R.rule("never-dropped", "the list of inputs is created once and never replaced or shrunk")
    writes = 0
    for f in P.funcs.values():
        if "/tests/" in f.file:
            continue
        for i in f.instrs():
            if i.op == "store" and (P.field(f, i.ops[1]) or ("", ""))[1] == "regenerate_deps":
                writes += 1
                R.check(not on_eval(P, seen, f) or kint(i.ops[0]) == 0, "write:%s" % f.cname, i.where(), "the list of inputs is replaced")
            if i.op == "call":
                for k, o in enumerate(i.ops):
                    if regen(P, f, o) and callee_in(P, i, {"obj_array_del", "obj_array_set", "obj_array_dedup_in_place", "obj_array_sort", "obj_array_tail"}):
                        R.check(k != 1 or not callee_in(P, i, {"obj_array_del", "obj_array_set"}), "shrink:%s" % f.cname, i.where(), "an input is removed from the list")
                    elif isaddr(P, f, o):
                        writes += 1
                        R.check(callee_in(P, i, {"make_obj"}) and not on_eval(P, seen, f), "make:%s" % f.cname, i.where(), "the list of inputs is replaced during configuration")
    if not writes:
        raise AnalysisBroken("the list of inputs is never created")

    R.rule("emitted", "the build file's regeneration rule depends on the whole list")
    emits = 0
    for f in P.funcs.values():
        if not any(i.op == "load" and (P.field(f, i.ops[0]) or ("", ""))[1] == "regenerate_deps" for i in f.instrs()) or f.name in seen:
            continue
        t = tainted(P, f)
        if not f.file.startswith("src/backend"):
            continue
        emits += 1
        R.fn(f.name)

        def emit(i):
            return i.op == "call" and any(vid(o) in t for o in i.ops) and any((cstr(o) or "").startswith("build ") for o in i.ops)
        s = Paths(P, f, M, events=lambda i, s, env: "emit" if emit(i) else None).go()
        bad = [p for v, st, p in s.rets if "emit" not in st and not is_fail(M, f, v)]
        R.check(not bad, "emit:%s" % f.cname, f.loc(), "a build file is written whose regeneration rule does not depend on the recorded inputs", bad[0] if bad else None)
        for i in f.instrs():
            if emit(i):
                fm = next(cstr(o) for o in i.ops if (cstr(o) or "").startswith("build "))
                R.check("build.ninja" in fm.split(":")[0] and ":" in fm, "rule:%s" % f.cname, i.where(), "the inputs are not dependencies of build.ninja: %r" % fm[:60])
                head = fm.split("%s")[0]
                R.check("||" not in head and "|@" not in head, "order:%s" % f.cname, i.where(), "inputs are order-only dependencies")
    if not emits:
        raise AnalysisBroken("no backend writes the recorded inputs")

    R.rule("reloaded", "the builder brings the build file up to date before it looks at the requested targets, and starts over with the new one when it changed")
    f = P.fn("samu_main")
    R.fn(f.name)
    common = {("samu_node", "gen"): NZ, ("samu_buildoptions", "dryrun"): 0}

    def res(i):
        if callee_in(P, i, {"samu_toolget"}):
            return []
        if callee_in(P, i, {"samu_nodeget"}):
            return [NZ]
        return None

    def ev(i, s, env):
        if callee_in(P, i, {"samu_buildadd"}):
            return "add"
        if callee_in(P, i, {"samu_build"}):
            return {"build", "-add"} if "add" in s.cur else "build0"
        if callee_in(P, i, {"samu_parse"}):
            return {"-add", "-build", "-build0", "-targets"}
        if callee_in(P, i, {"samu_defaultnodes"}):
            return "targets"
        return None
    s = Paths(P, f, M, assume={**common, ("samu_node", "dirty"): 1, ("samu_edge", "flags"): -1}, results=res, events=ev).go()
    bad = [p for v, st, p in s.rets if "targets" in st]
    R.check(not bad, "stale:samu_main", f.loc(), "targets are built from an out of date build file", bad[0] if bad else None)
    s = Paths(P, f, M, assume=common, results=res, events=ev).go()
    bad, ok = [], 0
    for iid, hs in s.hits.items():
        i = f.defs[iid]
        if callee_in(P, i, {"samu_defaultnodes"}):
            ok += 1
            bad += [p for st, p in hs if "add" not in st and "build" not in st]
    R.check(ok and not bad, "first:samu_main", f.loc(), "targets are considered before the build file is brought up to date", bad[0] if bad else None)


def on_eval(P, seen, f):
    return f.name in seen


def scope_of(P, rec):
    out = []
    for n in P.reach(list(rec)):
        f = P.funcs.get(n)
        if f is not None:
            out.append(f)
    return out


def fieldof(P, f, o):
    d = f.defs.get(vid(o))
    return P.field(f, d.ops[0]) if d is not None and d.op == "load" else None


def regen(P, f, o):
    fl = fieldof(P, f, o)
    return fl is not None and fl[1] == "regenerate_deps"


def isaddr(P, f, o):
    d = f.defs.get(vid(o))
    return d is not None and d.op == "getelementptr" and (P.field(f, o) or ("", ""))[1] == "regenerate_deps"


def stores(P, n):
    f = P.funcs.get(n)
    return f is not None and any(callee_in(P, c, {"obj_array_push"}) and regen(P, f, c.ops[1]) for c in f.calls())


def from_description(P, f):
    """The function is, or is called by, a function of the build language that takes a command."""
    names = ("run_command", "configure_file")
    impl = set()
    for n, g in P.globals.items():
        nm = None
        for s, fl, v in P.init_leaves(g):
            if s == "func_impl" and fl == "name":
                nm = cstr(v)
            elif s == "func_impl" and isinstance(v, dict) and v.get("fn") and nm in names:
                impl.add(v["fn"])
    if not impl:
        raise AnalysisBroken("build language functions not found")
    return f.name in impl or any(c.fn.name in impl for c in P.callers().get(f.name, ()))


def tainted(P, f):
    t = set()
    for i in f.instrs():
        if i.op == "load" and (P.field(f, i.ops[0]) or ("", ""))[1] == "regenerate_deps":
            t.add(i.id)
    mem = set()
    changed = True
    while changed:
        changed = False
        for i in f.instrs():
            if i.op == "call":
                if any(vid(o) in t for o in i.ops):
                    new = {i.id} | {vid(o) for o in i.ops if vid(o) is not None and vid(o) not in f.argids and f.defs[vid(o)].op == "alloca"}
                    if not new <= (t | mem):
                        mem |= {x for x in new if x != i.id}
                        t.add(i.id)
                        changed = True
            elif i.op == "load" and vid(i.ops[0]) in mem and i.id not in t:
                t.add(i.id)
                changed = True
            elif i.op == "store" and vid(i.ops[0]) in t and vid(i.ops[1]) is not None and vid(i.ops[1]) not in mem:
                mem.add(vid(i.ops[1]))
                changed = True
            elif i.op in ("phi", "select", "getelementptr", "bitcast") and i.id not in t:
                ops = [x[0] for x in i.ops] if i.op == "phi" else i.ops
                if any(vid(o) in t for o in ops):
                    t.add(i.id)
                    changed = True
    return t
