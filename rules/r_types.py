"""Script values are used as the type they have (C09)."""
import re
from rules import prop
from rules.r_errprop import model
from rules.r_index import bounds
from rules.r_saved import accessors, same
from rules.r_tables import image
from objtypes import Types, UNK
from rulelib import Paths, callee_in, is_fail
from sim import NZ
from prog import vid, kint, AnalysisBroken

# Sites where the values of the analysis (types standing for values) take part:
# the inference does not model them.
EXEMPT = {
    "interp_args": "reads the declared arguments of every built-in: the rules on interp_args itself decide it",
    "merge_objects": "analyzer: handles values and types standing for values alike",
    "analyze_func": "analyzer: handles values and types standing for values alike",
    "analyze_node": "analyzer: handles values and types standing for values alike",
}


def inference(P):
    t = P.__dict__.get("_objtypes")
    if t is None:
        t = P.__dict__["_objtypes"] = Types(P, bounds(P), accessors(P), image, same)
        t.solve()
    return t


def name(P, t):
    f = P.funcs.get(t)
    return f.cname if f is not None else t


def named(P, n):
    fs = [f for f in P.funcs.values() if f.cname == n and f.blocks]
    return fs[0] if len(fs) == 1 else None


def results(P, table):
    """Assumed results by callee name; a value may be a callable(call) -> list or None."""
    def res(i):
        if not i.callee:
            return None
        r = table.get(name(P, i.callee))
        return r(i) if callable(r) else r
    return res


# containers that also hold plain numbers
NUMBERS = {"obj_array_push", "obj_array_set", "obj_dict_seti", "_obj_dict_set", "obj_dict_geti", "obj_array_prepend"}


@prop("C09")
def types(P, R):
    T = inference(P)
    M = model(P)
    und = 0

    R.rule("use", "at every use of a value through an accessor (or a function that starts with one), every type the value can have there is one the accessor takes")
    for f in sorted(P.funcs.values(), key=lambda f: (f.file, f.line)):
        if not f.blocks or f.name in T.skip or f.cname.endswith("_test") or f.file.endswith("_test.c"):
            continue
        for c in f.calls():
            for o, r, el, cal in T.demands(f, c):
                if not el and vid(o) in f.argids and (T.req.get((f.name, f.argids.index(vid(o)))) or 0) & ~1 == r:
                    continue
                m, e = T.value(f, o, c)
                if el:
                    m = e & ~T.bit("disabler") if "array" in c.callee else e
                    if "flat" in c.callee:
                        m = m & ~T.bit("array") | (UNK if m & T.bit("array") else 0)
                bad = m & ~UNK & ~r
                if bad and f.cname in EXEMPT:
                    und += 1
                    continue
                if not bad and m & UNK:
                    und += 1
                    continue
                R.fn(f.cname)
                R.check(not bad, "%s:%s:%s" % (f.cname, name(P, cal), T.show(bad)), c.where(),
                        "%s is handed %s that can be %s here, it takes %s" % (name(P, cal), "an element" if el else "a value", T.show(bad).replace("void", "missing"), T.show(r)))
    R.assume("%d further uses have a source the inference does not follow (elements of containers built elsewhere, values found by name): not decided here, "
             "the accessor stops the program there instead of reading other memory" % und)
    R.assume("type tags made at run time other than through make_complex_type with constants are not followed")

    R.rule("reference", "a truth value or a constant is not handed to a function that takes an object reference")
    for f in sorted(P.funcs.values(), key=lambda f: (f.file, f.line)):
        if not f.blocks or f.cname.endswith("_test") or f.file.endswith("_test.c"):
            continue
        for c in f.calls():
            g = P.funcs.get(c.callee)
            if g is None or g.cname in NUMBERS:
                continue
            for k, o in enumerate(c.ops[:len(g.argids)]):
                if k + 1 >= len(g.ditypes) or g.ditypes[k + 1] != "obj":
                    continue
                bad = bool(kint(o))
                v = vid(o)
                while v is not None and v not in f.argids:
                    d = f.defs[v]
                    if d.op in ("zext", "sext") and d.d.get("sty") == "i1" or d.op in ("icmp", "fcmp"):
                        bad = True
                    elif d.op == "load":
                        fl = P.field(f, d.ops[0])
                        bad = bool(fl) and P.fieldtype(*fl) == "_Bool"
                    elif d.op in ("zext", "sext", "trunc", "freeze"):
                        v = vid(d.ops[0])
                        continue
                    break
                R.check(not bad, "%s:%s:not-a-reference" % (f.cname, g.cname), c.where(), "%s takes a value of the script, and is handed a truth value or a constant" % g.cname)

    R.rule("abort", "where the program stops for values of certain types (an assertion or the unreachable default of a switch over the type), no value there has such a type")
    for f in sorted(P.funcs.values(), key=lambda f: (f.file, f.line)):
        if not f.blocks or f.name in T.skip or f.cname.endswith("_test") or f.file.endswith("_test.c") or f.cname in EXEMPT:
            continue
        for o, b, m in T.testlist(f):
            t = f.blocks[b][-1]
            if isinstance(o, tuple) or not direct(T, f, t):
                continue
            for s, k in m.items():
                x, n = s, 0
                while n < 4 and len(f.blocks[x]) == 1 and len(f.succs[x]) == 1:
                    x, n = f.succs[x][0], n + 1
                dead = [i for i in f.blocks[x] if i.op == "call" and (i.callee in P.noret or i.d.get("noreturn"))]
                if not dead:
                    continue
                v = T.value(f, o, t)[0]
                bad = v & k & ~UNK
                R.fn(f.cname)
                R.check(not bad, "%s:abort:%s" % (f.cname, T.show(bad)), dead[0].where(),
                        "the program stops here for a value that can be %s" % T.show(bad).replace("void", "missing"))

    # -- the accessors themselves ---------------------------------------------
    R.rule("guard", "the storage of a value is only given out after its type was compared with the type asked for, and found equal")
    g = named(P, "get_obj_internal")
    if g is None:
        raise AnalysisBroken("get_obj_internal not found")
    R.fn(g.cname)
    cuts = set()
    for i in g.instrs():
        if i.op != "icmp" or i.d["pred"] not in ("eq", "ne"):
            continue
        sides = [vid(x) for x in i.ops]
        if g.argids[2] in sides:
            o = i.ops[1 - sides.index(g.argids[2])]
            d = g.defs.get(vid(o))
            if d is not None and d.op == "load" and (P.field(g, d.ops[0]) or ("", ""))[1] == "t":
                for t in g.instrs():
                    if t.op == "br" and t.ops and vid(t.ops[0]) == i.id:
                        eq = t.d["succ"][0 if i.d["pred"] == "eq" else 1]
                        if t.d["succ"][0] != t.d["succ"][1]:
                            cuts.add((t.bb, eq))
    seen, work = {0}, [0]
    while work:
        b = work.pop()
        for s in g.succs[b]:
            if (b, s) not in cuts and s not in seen:
                seen.add(s)
                work.append(s)
    for i in g.instrs():
        if i.op == "ret":
            R.check(i.bb not in seen, "get_obj_internal:guard", i.where(), "get_obj_internal returns storage on a path where the type was not compared")

    R.rule("tag", "an accessor for struct obj_x asks for the type number obj_x, and the arena of that type holds elements of that size")
    sizes = arenas(P)
    acc = accessors(P)
    for n, (t, st, ptr, c) in sorted(acc.items()):
        f = P.funcs[n]
        R.fn(f.cname)
        want = T.N.get(st) if st and st.startswith("obj_") else T.N.get("obj_string") if st == "str" else None
        tn = f.cname
        m = re.match(r"(?:get|set)_(obj_\w+)$", tn)
        if want is None and m and m.group(1) in T.N:
            want = T.N[m.group(1)]
        if want is None and tn == "get_str":
            want = T.N["obj_string"]
        if want is not None:
            R.check(t == want, "%s:tag" % tn, c.where(), "%s gives out the storage of %s" % (tn, T.names.get(t)))
        if st and st in P.structs and sizes and t in sizes:
            R.check(sizes[t] == P.structs[st]["size"], "%s:size" % tn, c.where(),
                    "%s reads a struct %s of %d bytes, the arena of %s holds %d" % (tn, st, P.structs[st]["size"], T.names.get(t), sizes[t]))

    # -- the checks of declared types --------------------------------------------
    def never(fn, assumed, rule, key, okret=None, args=None):
        """With the assumed results, fn only returns failures."""
        f = named(P, fn)
        if f is None:
            return
        R.fn(f.cname)
        s = Paths(P, f, M, assume=args, results=results(P, assumed)).go()
        bad = [x for x in s.rets if not (okret(x[0]) if okret else x[0] == 0)]
        R.check(not bad, key, "%s:%d" % (f.file, f.line), rule, bad[0][2] if bad else None)

    nums = [T.N["obj_string"], T.N["obj_array"]]
    R.rule("checks", "a value that fails the comparison with a declared type is refused by every function on the way to the built-in")
    never("typecheck_custom", {"typecheck_complex_type": [0]}, "typecheck_custom accepts a value the comparison of types refused", "typecheck_custom")
    never("typecheck", {"typecheck_custom": [0]}, "typecheck accepts a value the comparison of types refused", "typecheck")
    never("typecheck_simple_err", {"get_obj_type": [T.N["obj_string"]]}, "typecheck_simple_err accepts a value of another type", "typecheck_simple_err",
          args={("arg", 2): T.N["obj_array"]})
    tf = {"typecheck": [0], "typecheck_custom": [0], "get_obj_type": nums,
          "obj_array_foreach": [0], "obj_array_foreach_flat": [0], "typecheck_function_arg_iter": [P.enum("ir_err")]}
    iterfail = lambda v: v == P.enum("ir_err")
    never("typecheck_function_arg_iter", {"typecheck": [0], "typecheck_custom": [0]}, "an element of the wrong type is accepted", "typecheck_function_arg_iter", iterfail)
    never("typecheck_nested_type_arr_iter", {"typecheck_complex_type": [0], "type_includes_disabler": [1]}, "an element of the wrong type is accepted", "typecheck_nested_type_arr_iter", iterfail)
    never("typecheck_nested_type_arr_iter", {"typecheck_complex_type": [1], "type_includes_disabler": [0], "get_obj_type": [T.N["obj_disabler"]]},
          "a disabler is accepted as an element of a list of another type", "typecheck_nested_type_arr_iter:disabler", iterfail,
          {("arg", 2): T.DISABLER, ("typecheck_nested_type_ctx", "type"): T.tagof("string")})
    never("typecheck_nested_type_dict_iter", {"typecheck_complex_type": [0], "typecheck_nested_type_arr_iter": [P.enum("ir_err")], "type_includes_disabler": [1]},
          "an element of the wrong type is accepted", "typecheck_nested_type_dict_iter", iterfail)
    iterdone = lambda v: v in (P.enum("ir_cont"), P.enum("ir_err"))
    for n in ("typecheck_function_arg_iter", "typecheck_nested_type_arr_iter", "typecheck_nested_type_dict_iter", "process_kwarg_dict_iter"):
        never(n, {"typecheck": [1], "typecheck_custom": [1], "typecheck_complex_type": [1], "process_kwarg": [1], "type_includes_disabler": [1],
                  "typecheck_nested_type_arr_iter": [P.enum("ir_cont")]}, "the elements after an accepted one are not compared", n + ":rest", iterdone)
    never("typecheck_function_arg", tf, "an argument of the wrong type is accepted", "typecheck_function_arg")
    never("process_kwarg", {"typecheck_function_arg": [0], "strcmp": [0]}, "a keyword argument of the wrong type is accepted", "process_kwarg")
    never("process_kwarg_dict_iter", {"process_kwarg": [0]}, "a keyword argument of the wrong type is accepted", "process_kwarg_dict_iter", iterfail)

    # the comparison itself
    f = named(P, "typecheck_complex_type")
    if f is not None:
        R.fn(f.cname)
        # plain types: the result is decided by the bits in common
        arr = T.bit("array") >> 1
        cases = [("plain-mismatch", T.bit("string") >> 1, T.bit("number") >> 1, False), ("plain-match", T.bit("string") >> 1, T.bit("string") >> 1, True),
                 ("plain-one-of", T.bit("string") >> 1, (T.bit("string") | T.bit("number")) >> 1, True),
                 ("plain-array-for-dict", arr, T.bit("dict") >> 1, False), ("void-for-string", 0, T.bit("string") >> 1, False)]
        for k, got, want, ok in cases:
            s = Paths(P, f, M, assume={("arg", 2): got - (1 << 63), ("arg", 3): want - (1 << 63)}).go()
            vals = {x[0] for x in s.rets}
            R.check(vals == {1} or NZ in vals and len(vals) == 1 if ok else vals == {0}, "typecheck_complex_type:" + k, "%s:%d" % (f.file, f.line),
                    "a value of type %s compared with %s gives %s" % (T.show(got << 1), T.show(want << 1), sorted(map(str, vals))))

        # compound types
        def compound(ct, first, second, each, key, ok, text, outer="array"):
            """Results when the parts compare as given."""
            seen = []

            def rec(c):
                p = part(f, P, c.ops[3])
                seen.append(p)
                return [first] if p == "type" else [second] if p == "subtype" else None
            s = Paths(P, f, M, assume={("arg", 3): (1 << 60 | ct << 48) - (1 << 63), ("arg", 1): 12345, ("obj_typeinfo", "type"): T.tagof(outer),
                                       ("obj_typeinfo", "subtype"): T.tagof("string")},
                      results=results(P, {"typecheck_complex_type": rec, "obj_array_foreach": [each], "obj_dict_foreach": [each], "get_obj_type": nums})).go()
            vals = {x[0] for x in s.rets}
            bad = [x for x in s.rets if (x[0] == 0) == ok]
            R.check(bool(s.rets) and not bad, "typecheck_complex_type:" + key, "%s:%d" % (f.file, f.line), text + " (result %s)" % sorted(map(str, vals)), bad[0][2] if bad else None)
        nested, orr = P.enum("complex_type_nested"), P.enum("complex_type_or")
        compound(nested, 0, 1, 1, "nested-outer", False, "a container type accepts a value that is not that container")
        compound(nested, 1, 1, 0, "nested-elements", False, "a container type accepts elements of another type")
        compound(nested, 1, 1, 0, "nested-values", False, "a dictionary type accepts values of another type", "dict")
        compound(orr, 0, 0, 1, "or-none", False, "an alternative accepts a value neither of its types accepts")
        compound(orr, 1, 0, 1, "or-first", True, "an alternative refuses a value its first type accepts")
        compound(orr, 0, 1, 1, "or-second", True, "an alternative refuses a value its second type accepts")
    readers(P, R, T, M)


def direct(T, f, t):
    """Does the branch look at the type of a value itself (not at the answer of another function)?"""
    if t.op == "switch":
        return True
    v = vid(t.ops[0])
    while v is not None and v not in f.argids and f.defs[v].op in ("xor", "trunc", "zext"):
        v = vid(f.defs[v].ops[0])
    d = f.defs.get(v) if v is not None and v not in f.argids else None
    return d is not None and d.op == "icmp" and kint(d.ops[1]) is not None and T.typeof(f, d.ops[0]) is not None


def part(f, P, o):
    """Which part of a compound type operand o is."""
    d = f.defs.get(vid(o)) if vid(o) is not None and vid(o) not in f.argids else None
    if d is not None and d.op == "load":
        return (P.field(f, d.ops[0]) or ("", ""))[1]
    return None


def readers(P, R, T, M):
    """interp_args and process_kwarg: what is stored was compared with the row's own type."""
    R.rule("same-row", "an argument is stored in the row whose type it was compared with, after it was compared")
    for fn, st in (("process_kwarg", "args_kw"), ("interp_args", "args_norm")):
        f = named(P, fn)
        if f is None:
            continue
        R.fn(fn)
        cfg = bounds(P).cfg(f)
        for c in f.calls():
            if callee_in(P, c, {"typecheck_function_arg"}):
                src = typeload(P, f, c.ops[3])
                fl = P.field(f, src.ops[0]) if src is not None else None
                R.check(fl is not None and fl == (st, "type"), fn + ":type", c.where(), "an argument is not compared with the type declared for it")
                # a value stored in place: same row
                d = f.defs.get(vid(c.ops[2])) if vid(c.ops[2]) not in f.argids else None
                if fl is not None and d is not None and d.op == "getelementptr" and P.field(f, c.ops[2]) == (st, "val"):
                    R.check(samerow(f, d, src), fn + ":row", c.where(), "an argument is compared with the type of another row than it is stored in")
        for i in f.instrs():
            if i.op == "store" and P.field(f, i.ops[1]) == (st, "val"):
                chk = [c for c in f.calls() if callee_in(P, c, {"typecheck_function_arg"})]
                ok = False
                for c in chk:
                    src = typeload(P, f, c.ops[3])
                    if src is None or not samerow(f, f.defs[vid(i.ops[1])], src):
                        continue
                    # the value read back from the place that was checked, on the success side
                    v = f.defs.get(vid(i.ops[0])) if vid(i.ops[0]) not in f.argids else None
                    if v is not None and v.op == "load" and vid(v.ops[0]) == vid(c.ops[2]) and succeeded(f, cfg, c, v):
                        ok = True
                R.check(ok, fn + ":store", i.where(), "a value is stored as an argument that was not compared with the type declared for it")

    R.rule("all-read", "every argument that was evaluated is compared with its declared type (or the table of keyword arguments) before the call goes on, and required keyword arguments are present")
    f = named(P, "interp_args")
    if f is not None:
        class Args(Paths):
            def call(self, i, env, st):
                n = name(P, i.callee) if i.callee else None
                if n == "interp_args_interp_node":
                    return [(0, st), (1, st | ({"lost"} if "got" in st else {"got"}))]
                if n in ("typecheck_function_arg", "process_kwarg"):
                    return [(0, st), (1, st - {"got"})]
                if n == "obj_dict_foreach" and any(name(P, t) == "process_kwarg_dict_iter" for t in P.fvalue_targets(f, i.ops[3])):
                    return [(0, st), (1, st - {"got"})]
                if n in ("typecheck", "typecheck_custom"):
                    return [(0, st), (1, st)]
                if n == "get_obj_type":
                    return [(T.N["obj_array"], st), (T.N["obj_string"], st)]
                return super().call(i, env, st)
        s = Args(P, f, M)
        s.limit = 200000
        s.go()
        bad = [x for x in s.rets if x[0] != 0 and ("got" in x[1] or "lost" in x[1])]
        R.check(any(x[0] != 0 for x in s.rets) and not bad, "interp_args:unchecked", "%s:%d" % (f.file, f.line),
                "an argument was evaluated and the call goes on without comparing it with a declared type", bad[0][2] if bad else None)
        s = Paths(P, f, M, assume={("args_kw", "required"): 1, ("args_kw", "set"): 0, ("args_kw", "key"): NZ, ("arg", 2): 0, ("arg", 3): 0, ("arg", 4): NZ},
                  results=results(P, {"next_arg": [0]})).go()
        bad = [x for x in s.rets if x[0] != 0]
        R.check(not bad, "interp_args:required", "%s:%d" % (f.file, f.line), "the call goes on without a required keyword argument", bad[0][2] if bad else None)
        s = Paths(P, f, M, assume={("args_norm", "type"): T.tagof("string"), ("arg", 2): NZ, ("arg", 3): 0, ("arg", 4): 0},
                  results=results(P, {"next_arg": [0]}),
                  loads=lambda i, s: NZ if row(f, i) else None).go()
        bad = [x for x in s.rets if x[0] != 0]
        R.check(not bad, "interp_args:missing", "%s:%d" % (f.file, f.line), "the call goes on without a required positional argument", bad[0][2] if bad else None)


def row(f, i):
    """Is this the load of a table of arguments from a list of such tables?"""
    d = f.defs.get(vid(i.ops[0])) if vid(i.ops[0]) is not None and vid(i.ops[0]) not in f.argids else None
    return i.ty == "ptr" and d is not None and d.op == "getelementptr" and "f" not in d.steps[-1]


def typeload(P, f, o):
    """The load of a declared type operand o is made from (flags added or removed)."""
    for _ in range(6):
        v = vid(o)
        if v is None or v in f.argids:
            return None
        d = f.defs[v]
        if d.op == "load":
            return d
        if d.op in ("or", "and"):
            o = d.ops[0] if kint(d.ops[0]) is None else d.ops[1]
            if kint(d.ops[0]) is None and kint(d.ops[1]) is None:
                return None
            continue
        return None
    return None


def samerow(f, g, ld):
    """Are gep g and the address of load ld fields of the same row?"""
    if g is None or g.op != "getelementptr":
        return False
    h = f.defs.get(vid(ld.ops[0]))

    def row(x):
        # drop the selection of the field
        if x is not None and x.op == "getelementptr" and x.steps and "f" in x.steps[-1] and len(x.steps) == 1:
            return x.d["base"]
        return {"v": x.id} if x is not None else None
    a, b = row(g), row(h)
    return a is not None and b is not None and same(f, a, b)


def succeeded(f, cfg, c, at):
    """Is `at` only reached when call c returned true?"""
    for t in f.instrs():
        if t.op == "br" and t.ops and len(t.d["succ"]) == 2:
            d = f.defs.get(vid(t.ops[0])) if vid(t.ops[0]) not in f.argids else None
            pos = 0
            if d is not None and d.op == "xor":
                d, pos = f.defs.get(vid(d.ops[0])), 1
            elif d is not None and d.op == "icmp" and kint(d.ops[1]) == 0:
                pos = 1 if d.d["pred"] == "eq" else 0
                d = f.defs.get(vid(d.ops[0]))
            if d is not None and d.id == c.id:
                no = t.d["succ"][1 - pos]
                seen, work = {no}, [no]
                while work:
                    b = work.pop()
                    for s in f.succs[b]:
                        if s not in seen:
                            seen.add(s)
                            work.append(s)
                if at.bb not in seen and cfg.dominates(t.bb, at.bb):
                    return True
    return False


def arenas(P):
    """{type number: element size} from the table the arenas are made from."""
    out = {}
    for f in P.funcs.values():
        for c in f.calls():
            if not callee_in(P, c, {"bucket_arr_init"}) or len(c.ops) < 3:
                continue
            a = f.defs.get(vid(c.ops[0])) if vid(c.ops[0]) not in f.argids else None
            arena = None
            while a is not None and a.op == "getelementptr":
                for s in a.steps:
                    if s.get("f") == "obj_aos":
                        arena = a
                b = vid(a.d["base"])
                a = f.defs.get(b) if b is not None and b not in f.argids else None
            d = f.defs.get(vid(c.ops[2])) if vid(c.ops[2]) not in f.argids else None
            if arena is None or d is None or d.op != "load":
                continue
            fi, v, tab = 0, vid(d.ops[0]), None
            while v is not None and v not in f.argids:
                x = f.defs[v]
                if x.op == "alloca":
                    tab = image(P, f, x)[0]
                    break
                if x.op != "getelementptr":
                    break
                for s in x.steps:
                    fi = s.get("fi", fi)
                v = vid(x.d["base"])
                if v is None and isinstance(x.d["base"], dict) and x.d["base"].get("g"):
                    tab = P.globals.get(x.d["base"]["g"], {}).get("init")
            for t, row in enumerate(tab.get("arr", []) if isinstance(tab, dict) else []):
                cells = row.get("arr", []) if isinstance(row, dict) else []
                k = cells[fi] if fi < len(cells) else None
                k = k if isinstance(k, int) else kint(k)
                if k:
                    out[t] = k
    return out
