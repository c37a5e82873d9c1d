"""Option values: validation, precedence of sources, unknown options (C19)."""
from rules import prop
from rules.r_errprop import model
from rulelib import Paths, callee_in, is_fail, Effects
from sim import NZ
from prog import vid, kint, isnull, cstr, fnname, AnalysisBroken

VAL, SRC, TYPE = ("obj_option", "val"), ("obj_option", "source"), ("obj_option", "type")
CHOICES, MAX, MIN = ("obj_option", "choices"), ("obj_option", "max"), ("obj_option", "min")
GROW = {"obj_array_extend", "obj_array_extend_nodup", "obj_array_push", "obj_array_set", "obj_array_del", "obj_array_clear"}
MEMBER = {"obj_array_in", "obj_array_index_of"}
# least to most important
ORDER = ["unset", "default", "environment", "yield", "default_options", "subproject_default_options",
         "override_options", "deprecated_rename", "commandline"]
STRTO = {"strtol", "strtoll", "__isoc23_strtol", "__isoc23_strtoll"}
LOOKUP = {"obj_dict_index_strn", "obj_dict_index", "obj_dict_index_str"}


def defi(f, o):
    v = vid(o)
    if v is None or v in f.argids:
        return None
    return f.defs[v]


def peel(f, o):
    i = defi(f, o)
    while i is not None and i.op in ("zext", "sext", "trunc", "freeze", "bitcast"):
        o = i.ops[0]
        i = defi(f, o)
    return o


def field_of(P, f, o):
    """the member a value was loaded from"""
    i = defi(f, peel(f, o))
    return P.field(f, i.ops[0]) if i is not None and i.op == "load" else None


def paramof(f, dt):
    """index of the parameter with this declared type"""
    for k in range(len(f.argids)):
        if k + 1 < len(f.ditypes) and (f.ditypes[k + 1] or "").replace("const ", "") == dt:
            return k
    return None


def literal(P, f, o, before=None):
    """text of a string literal or of a local struct str made from one"""
    t = cstr(o)
    if t is not None:
        return t
    v = vid(o)
    i = defi(f, o)
    if i is None or i.op != "alloca":
        return None
    out = {cstr(s.ops[0]) for s in f.instrs() if s.op == "store" and vid(s.ops[1]) == v}
    out.discard(None)
    return out.pop() if len(out) == 1 else None


def cell_of(f, o):
    """(alloca id) a value was loaded from, or ("v", id) for an SSA value"""
    o = peel(f, o)
    i = defi(f, o)
    if i is not None and i.op == "load":
        a = defi(f, i.ops[0])
        if a is not None and a.op == "alloca":
            return a.id
    v = vid(o)
    return ("v", v) if v is not None else None


def enumv(P, prefix, name):
    return P.enum(prefix + name)


def fresh(P, f, o):
    """the option pointer is the one of an object created in the same function"""
    i = defi(f, o)
    while i is not None and i.op == "getelementptr":
        i = defi(f, i.d["base"])
    if i is None or i.op != "call" or not callee_in(P, i, {"get_obj_option"}):
        return False
    ld = defi(f, i.ops[1])
    if ld is None or ld.op != "load":
        return False
    a = vid(ld.ops[0])
    return any(c.op == "call" and callee_in(P, c, {"make_obj"}) and len(c.ops) > 1 and vid(c.ops[1]) == a for c in f.instrs())


@prop("C19")
def options(P, R):
    M = model(P)
    srcs = {}
    for n in ORDER:
        srcs[n] = enumv(P, "option_value_source_", n)
    R.rule("source-order", "the order of option sources, from least to most important, is the documented one")
    for a, b in zip(ORDER, ORDER[1:]):
        R.check(srcs[a] < srcs[b], "order:%s<%s" % (a, b), "include/lang/object.h", "option source %s is not less important than %s" % (a, b))

    vstores, sstores, grows = {}, {}, {}
    for f in P.funcs.values():
        for i in f.instrs():
            if i.op == "store":
                fl = P.field(f, i.ops[1])
                if fl == VAL and not fresh(P, f, i.ops[1]):
                    vstores.setdefault(f.name, []).append(i)
                elif fl == SRC and not fresh(P, f, i.ops[1]):
                    sstores.setdefault(f.name, []).append(i)
            elif i.op == "call" and callee_in(P, i, GROW) and len(i.ops) > 1 and field_of(P, f, i.ops[1]) == VAL:
                grows.setdefault(f.name, []).append(i)
    writers = [P.funcs[n] for n in sorted(set(vstores) | set(grows) | set(sstores))]
    if not vstores or not any(paramof(f, "enum option_value_source") is not None for f in writers):
        raise AnalysisBroken("no function stores option values")

    # --- precedence -----------------------------------------------------------
    setters = []
    for f in writers:
        k = paramof(f, "enum option_value_source")
        ws = vstores.get(f.name, []) + grows.get(f.name, [])
        ss = sstores.get(f.name, [])
        R.fn(f.name)
        if f.cname == "obj_clone":
            continue  # copies an option, source included
        if k is None:
            R.rule("no-other-writer", "apart from the functions that compare sources, only directory options are rewritten, when the prefix is applied")
            kind = P.enum("build_option_kind_default")
            s = Paths(P, f, M, assume={("obj_option", "kind"): kind}, events=lambda i, s, env: "w" if i in ws + ss else None).go()
            bad = [h for l in s.hits.values() for h in l]
            R.check(("obj_option", "kind") in s.used and not bad and not ss, "other-writer@%s" % f.cname, ws[0].where() if ws else ss[0].where(),
                    "an option is changed without comparing the importance of its source", bad[0][1] if bad else None)
            continue
        setters.append(f)
        R.rule("precedence", "a value is stored, and its source recorded, exactly when its source is at least as important as the one that set the option before")
        for cur in ORDER:
            for new in ORDER:
                bad_src = []

                def ev(i, s, env):
                    if i in ws:
                        return "w"
                    if i in ss:
                        if s.ev(i.ops[0], env) != srcs[new]:
                            bad_src.append((i, s.path(s.node)))
                        return "s"
                    return None
                s = Paths(P, f, M, assume={SRC: srcs[cur], ("arg", k): srcs[new]}, events=ev)
                # once written, the member no longer has the assumed value
                s.loads = lambda i, s: None
                s.go()
                hits = [h for l in s.hits.values() for h in l]
                if srcs[cur] > srcs[new]:
                    R.check(not hits, "%s-over-%s@%s" % (new, cur, f.cname), f.loc(),
                            "a value from source %s overwrites one from the more important source %s" % (new, cur), hits[0][1] if hits else None)
                    bad = [r for r in s.rets if f.rettype() == "_Bool" and r[0] == 0 and False]
                else:
                    bad = [r for r in s.rets if not is_fail(M, f, r[0]) and not {"w", "s"} <= r[1]]
                    R.check(not bad and s.rets, "%s-after-%s@%s" % (new, cur, f.cname), f.loc(),
                            "a value from source %s does not replace one from source %s" % (new, cur), bad[0][2] if bad else None)
                    R.check(not bad_src, "recorded-%s-%s@%s" % (new, cur, f.cname), f.loc(), "the source recorded is not the one that set the value", bad_src[0][1] if bad_src else None)

    # --- validation -----------------------------------------------------------
    tc = Effects(P, lambda c: "typecheck" if callee_in(P, c, {"typecheck", "typecheck_custom"}) else None)
    types = {n: P.enum("op_" + n) for n in ("string", "boolean", "combo", "integer", "array", "feature")}
    validators = set()
    for f in setters:
        k = paramof(f, "enum option_value_source")
        ws = vstores.get(f.name, [])
        if not ws:
            continue
        slots = {cell_of(f, w.ops[0]) for w in ws}

        def is_value(o, slots=slots, f=f):
            return cell_of(f, o) in slots or vid(o) in slots

        def typed(i, f=f, is_value=is_value):
            return i.op == "call" and (callee_in(P, i, {"typecheck", "typecheck_custom"}) or (i.callee in tc.may and P.funcs[i.callee].rettype() == "_Bool")) and any(is_value(o) for o in i.ops) \
                and (callee_in(P, i, {"typecheck", "typecheck_custom"}) or paramof(P.funcs[i.callee], "enum build_option_type") is not None)

        for src in ORDER[1:]:
            base = {SRC: srcs["unset"], ("arg", k): srcs[src]}
            R.rule("validated-before-store", "on every path to the store of an option's value, that value has passed the type check")

            def ev(i, s, env):
                if i in ws:
                    return "w"
                if i.op == "store":
                    a = defi(f, i.ops[1])
                    if a is not None and a.op == "alloca" and a.id in slots:
                        return "-tc"
                return None
            calls = [i for i in f.instrs() if typed(i)]
            for c in calls:
                if c.callee in P.funcs and not callee_in(P, c, {"typecheck", "typecheck_custom"}):
                    validators.add(c.callee)
            s = Paths(P, f, M, assume=base, events=ev, results=lambda i: [(1, "tc"), (0, "bad", "-tc")] if i in calls else None).go()
            bad = [h for w in ws for h in s.hits.get(w.id, []) if "tc" not in h[0] or "bad" in h[0]]
            R.check(bool(calls) and not bad, "typecheck@%s:%s" % (f.cname, src), ws[0].where(), "an option value is stored that did not pass the type check", bad[0][1] if bad else None)

            R.rule("failure-propagated", "when a step of the validation fails the value is not stored and the failure is returned")
            for c in [i for i in f.instrs() if i.op == "call"]:
                fv = M.call_fail(c)
                if not fv:
                    continue
                s = Paths(P, f, M, assume=base, events=ev, results=lambda i, c=c, fv=fv: [(v, "F") for v in fv] if i is c else None).go()
                bad = [h[1] for w in ws for h in s.hits.get(w.id, []) if "F" in h[0]] + [r[2] for r in s.rets if "F" in r[1] and not is_fail(M, f, r[0])]
                R.check(not bad, "fail:%s@%s:%s" % ((c.callee or "?").split("@")[0], f.cname, src), c.where(), "the failure does not stop the option from being set", bad[0] if bad else None)

            R.rule("choices", "a value that is not one of the declared choices is not stored, and that is an error")
            member = [i for i in f.instrs() if callee_in(P, i, MEMBER) and len(i.ops) > 2 and field_of(P, f, i.ops[1]) == CHOICES and is_value(i.ops[2])]
            for t in ("combo", "array"):
                asm = {**base, TYPE: types[t], CHOICES: NZ}
                loops = []
                if t == "array":
                    for c in f.instrs():
                        if c.op != "call" or not callee_in(P, c, {"obj_array_foreach"}) or not is_value(c.ops[1]):
                            continue
                        cb = P.funcs.get(fnname(c.ops[3]))
                        if cb is None:
                            continue
                        ctx = vid(c.ops[2])
                        # which members of the context hold the choices
                        held = {P.field(f, st.ops[1]) for st in f.instrs() if st.op == "store" and field_of(P, f, st.ops[0]) == CHOICES}
                        ms = [m for m in cb.instrs() if callee_in(P, m, MEMBER) and field_of(P, cb, m.ops[1]) in held | {CHOICES} and vid(peel(cb, m.ops[2])) == cb.argids[2]]
                        s2 = Paths(P, cb, M, results=lambda i: [(0, "no")] if i in ms else None).go()
                        R.check(bool(ms) and all(is_fail(M, cb, r[0]) and "no" in r[1] for r in s2.rets), "element@%s" % cb.cname, cb.loc(),
                                "an element that is not one of the choices is accepted", s2.rets[0][2] if s2.rets else None)
                        R.fn(cb.name)
                        loops.append(c)
                    # an equivalent loop in the function itself
                    inl = [m for m in f.instrs() if callee_in(P, m, MEMBER) and field_of(P, f, m.ops[1]) == CHOICES and m not in member]
                    hit = loops + inl
                else:
                    hit = member
                s = Paths(P, f, M, assume=asm, events=ev, results=lambda i: [(0, "no")] if i in hit else None).go()
                bad = [h[1] for w in ws for h in s.hits.get(w.id, []) if "no" in h[0]] + [r[2] for r in s.rets if "no" in r[1] and not is_fail(M, f, r[0])]
                R.check(not bad, "not-a-choice:%s@%s:%s" % (t, f.cname, src), f.loc(), "a value outside the choices of a %s option is stored or not reported" % t, bad[0] if bad else None)
                s = Paths(P, f, M, assume=asm, events=ev, results=lambda i: [(1, "yes")] if i in hit else None).go()
                st = [h for w in ws for h in s.hits.get(w.id, [])]
                bad = [h for h in st if "yes" not in h[0]]
                must = hit and (t == "combo" or loops)
                R.check(bool(hit) and bool(st) and not (must and bad), "choices-tested:%s@%s:%s" % (t, f.cname, src), f.loc(), "the value of a %s option is stored without looking at its choices" % t, bad[0][1] if bad else None)

            R.rule("range", "an integer option below its minimum or above its maximum is not stored, and that is an error")
            big = 1 << 33
            for v, mx, mn, ok in ((5, 4, None, 0), (5, 5, None, 1), (4, 5, None, 1), (5, None, 6, 0), (5, None, 5, 1), (6, None, 5, 1),
                                  (5, 9, 1, 1), (0, 9, 1, 0), (10, 9, 1, 0), (-1, None, 1, 0), (-1, 0, None, 1), (0, -1, None, 0), (-2, None, -1, 0), (-1, None, -2, 1),
                                  (big + 1, 5, None, 0), (big, big + 1, None, 1), (1, None, big, 0), (-big, None, 0, 0), (0, -big, None, 0), (7, None, None, 1)):
                def res(i):
                    if not callee_in(P, i, {"get_obj_number"}):
                        return None
                    fl = field_of(P, f, i.ops[1])
                    if fl == MAX:
                        return [mx]
                    if fl == MIN:
                        return [mn]
                    return [v] if is_value(i.ops[1]) else None
                asm = {**base, TYPE: types["integer"], MAX: NZ if mx is not None else 0, MIN: NZ if mn is not None else 0}
                s = Wide(P, f, M, assume=asm, events=ev, results=res).go()
                st = [h for w in ws for h in s.hits.get(w.id, [])]
                name = "%s..%s:%s@%s:%s" % (mn, mx, v, f.cname, src)
                if ok:
                    R.check(bool(st), "in-range:" + name, f.loc(), "an integer in range is refused")
                else:
                    good = [r for r in s.rets if not is_fail(M, f, r[0])]
                    R.check(not st and not good, "out-of-range:" + name, f.loc(), "value %d of an integer option with range %s..%s is accepted" % (v, mn, mx), st[0][1] if st else None)

    # --- what the type check of each option type means ------------------------
    R.rule("type-map", "the value of an option is checked against the type its declaration gives")
    want = {"string": {"obj_string"}, "boolean": {"obj_bool"}, "combo": {"obj_string"}, "integer": {"obj_number"}, "feature": {"obj_feature_opt"}}
    n = 0
    for f in [P.funcs[v] for v in sorted(validators)] + [f for f in setters if any(callee_in(P, c, {"typecheck"}) for c in f.calls())]:
        if not any(callee_in(P, c, {"typecheck", "typecheck_custom"}) for c in f.calls()):
            continue
        R.fn(f.name)
        k = paramof(f, "enum build_option_type")
        for t, tv in types.items():
            seen = []

            def ev2(i, s, env):
                if callee_in(P, i, {"typecheck", "typecheck_custom"}):
                    seen.append((i, s.ev(i.ops[3], env), s.path(s.node)))
                    return "tc"
                return None

            def res2(i):
                if callee_in(P, i, {"make_complex_type"}):
                    return ["@+cx:%s:%s:%s" % (kint(i.ops[1]), sorted(tcbits(P, kint(i.ops[2]))), sorted(tcbits(P, kint(i.ops[3]))))]
                return None
            asm = {("arg", k): tv} if k is not None else {TYPE: tv}
            s = Wide(P, f, M, assume=asm, events=ev2, results=res2).go()
            n += 1
            if t == "array":
                ok = all(isinstance(v, str) and v == "@+cx:%s:%s:%s" % (P.enum("complex_type_nested"), sorted({P.enum("obj_array")}), sorted({P.enum("obj_string")})) for _, v, _ in seen)
            else:
                ok = all(isinstance(v, int) and {x for x in tcbits(P, v)} == {P.enum(x) for x in want[t]} for _, v, _ in seen)
            R.check(bool(seen) and ok, "type:%s@%s" % (t, f.cname), seen[0][0].where() if seen else f.loc(), "the value of a %s option is not checked to be %s" % (t, "a list of strings" if t == "array" else "of that type"))
            bad = [r for r in s.rets if not is_fail(M, f, r[0]) and "tc" not in r[1]]
            R.check(not bad, "type-tested:%s@%s" % (t, f.cname), f.loc(), "the type check of a %s option can be skipped" % t, bad[0][2] if bad else None)
            s = Wide(P, f, M, assume=asm, results=lambda i: [0] if callee_in(P, i, {"typecheck", "typecheck_custom"}) else None).go()
            bad = [r for r in s.rets if not is_fail(M, f, r[0])]
            R.check(not bad, "type-refused:%s@%s" % (t, f.cname), f.loc(), "a %s option accepts a value of another type" % t, bad[0][2] if bad else None)
        # the value handed back is the one that was checked
        chk = [c for c in f.calls() if callee_in(P, c, {"typecheck", "typecheck_custom"})]
        outs = [i for i in f.instrs() if i.op == "store" and vid(i.ops[1]) in f.argids]
        for o in outs:
            R.check(any(vid(c.ops[2]) == vid(o.ops[0]) for c in chk), "same-value@%s" % f.cname, o.where(), "the value returned is not the one that was checked")
    if not n:
        raise AnalysisBroken("no function type checks option values")

    # --- coercion of text -----------------------------------------------------
    reach = set()
    work = [c for f in setters for c in f.calls()]
    stop = {"eval_str", "typecheck", "interp_error", "interp_warning", "obj_iterable_foreach", "get_option"}
    while work:
        c = work.pop()
        for t in P.direct_targets(c):
            g = P.funcs.get(t)
            if g is not None and g.name not in reach and g.file == setters[0].file and g.cname not in stop:
                reach.add(g.name)
                work.extend(g.calls())
    coercers = [P.funcs[n] for n in sorted(reach)]
    R.rule("coerced-text", "text is only taken for a boolean or a feature state when it is one of the names of its states, each name meaning its own state")
    words = {"set_obj_bool": {"true": 1, "false": 0},
             "set_obj_feature_opt": {"auto": P.enum("feature_opt_auto"), "enabled": P.enum("feature_opt_enabled"), "disabled": P.enum("feature_opt_disabled")}}
    for setter, table in words.items():
        fs = [f for f in coercers + setters if any(callee_in(P, c, {setter}) for c in f.calls())]
        if not fs:
            raise AnalysisBroken("text is never turned into a value through " + setter)
        for f in fs:
            R.fn(f.name)
            eqs = {i: literal(P, f, i.ops[1]) or literal(P, f, i.ops[0]) for i in f.calls() if callee_in(P, i, {"str_eql", "str_eqli", "strcmp"})}
            for w, exp in list(table.items()) + [(None, None)]:
                got = []

                def ev3(i, s, env):
                    if callee_in(P, i, {setter}):
                        got.append((s.ev(i.ops[2], env), s.path(s.node)))
                        return "set"
                    return None
                asm = {TYPE: types["boolean" if setter == "set_obj_bool" else "feature"], ("obj_option", "deprecated"): 0}
                s = Paths(P, f, M, assume=asm, events=ev3, results=lambda i: ([int(eqs[i] == w)] if not callee_in(P, i, {"strcmp"}) else [int(eqs[i] != w)]) if i in eqs else None).go()
                if w is None:
                    bad = [r for r in s.rets if not is_fail(M, f, r[0])]
                    R.check(not got and not bad, "unknown-word:%s@%s" % (setter, f.cname), f.loc(), "text that names no state is accepted", (bad[0][2] if bad else got[0][1] if got else None))
                else:
                    R.check(bool(got) and all(v == exp for v, _ in got), "word:%s@%s" % (w, f.cname), f.loc(), "the text '%s' does not become its own state" % w)

    R.rule("coerced-number", "text is only taken for a number when all of it is a decimal number that fits")
    fs = [f for f in coercers + setters if any(c.callee in STRTO for c in f.calls())]
    if not fs:
        raise AnalysisBroken("text is never turned into a number")
    for f in fs:
        R.fn(f.name)
        conv = [c for c in f.calls() if c.callee in STRTO]
        for c in conv:
            R.check(kint(c.ops[2]) == 10, "base@%s" % f.cname, c.where(), "option values are not decimal")
            end = vid(c.ops[1])

            def atend(i):
                ld = defi(f, i.ops[0])
                return i.op == "load" and ld is not None and ld.op == "load" and vid(ld.ops[0]) == end

            def iserrno(i):
                g = defi(f, i.ops[0])
                return i.op == "load" and g is not None and g.op == "call" and g.callee == "__errno_location"
            for nm, e, l, er, ok in (("rest", NZ, NZ, 0, 0), ("empty", 0, 0, 0, 0), ("clamped", 0, NZ, 34, 0), ("good", 0, NZ, 0, 1)):
                def loads(i, s):
                    if atend(i):
                        return e
                    if iserrno(i):
                        return er
                    if P.field(f, i.ops[0]) == ("str", "len"):
                        return l
                    return None
                s = Paths(P, f, M, assume={TYPE: types["integer"], ("obj_option", "deprecated"): 0}, loads=loads,
                          events=lambda i, s, env: "conv" if i is c else ("set" if callee_in(P, i, {"set_obj_number"}) else None)).go()
                if ok:
                    R.check(any("set" in r[1] and not is_fail(M, f, r[0]) for r in s.rets), "number-%s@%s" % (nm, f.cname), c.where(), "a valid number is refused")
                else:
                    bad = [r for r in s.rets if not is_fail(M, f, r[0])]
                    R.check(not bad, "number-%s@%s" % (nm, f.cname), c.where(), {"rest": "text after the number is ignored", "empty": "empty text is taken for a number", "clamped": "a number that does not fit is changed silently"}[nm], bad[0][2] if bad else None)

    # --- where the values come from -------------------------------------------
    R.rule("source-tag", "each way of setting an option passes on the source it stands for")
    snames = {f.name for f in setters}
    sidx = {f.name: paramof(f, "enum option_value_source") for f in setters}

    def tags(f):
        """(where, source value or 'override' for a pending override's own) handed to setters, and sources of overrides queued"""
        out = []
        for c in f.calls():
            for t in P.direct_targets(c):
                if t in snames:
                    o = c.ops[sidx[t]]
                    if kint(o) is not None:
                        out.append((c, kint(o)))
                    elif field_of(P, f, o) == ("option_override", "source"):
                        out.append((c, "override"))
                    elif vid(o) in f.argids and f.name in snames:
                        out.append((c, "same"))
                    else:
                        out.append((c, None))
        return out

    def queued(f):
        """sources of the overrides f puts in the queue, evaluated path by path"""
        out = set()
        pushes = [c for c in f.calls() if callee_in(P, c, {"arr_push"}) and (P.ditype(f, c.ops[1]) or "").endswith("option_override *") or (callee_in(P, c, {"arr_push"}) and oo_alloca(P, f, c.ops[1]))]
        for c in pushes:
            a = vid(c.ops[1])
            sts = [i for i in f.instrs() if i.op == "store" and P.field(f, i.ops[1]) == ("option_override", "source")]

            def ev(i, s, env):
                if i in sts:
                    k = s.ev(i.ops[0], env)
                    return {"src:%s" % k} | {"-src:%s" % v for v in list(srcs.values()) + [None] if v != k}
                if i is c:
                    return "push"
                return None
            start = ()
            al = defi(f, c.ops[1])
            s = Paths(P, f, M, events=ev, start=start).go()
            for st, p in s.hits.get(c.id, []):
                for l in st:
                    if l.startswith("src:"):
                        out.add((c, int(l[4:]) if l[4:].lstrip("-").isdigit() else None))
                if not any(l.startswith("src:") for l in st):
                    out.add((c, initsource(P, f, c.ops[1])))
        return list(out)

    def closure(root, cut):
        seen, work = set(), [root]
        while work:
            n = work.pop()
            if n in seen:
                continue
            seen.add(n)
            f = P.funcs.get(n)
            if f is None:
                continue
            for c in f.calls():
                for t in P.direct_targets(c):
                    if t in P.funcs and t not in snames and P.funcs[t].cname not in cut and P.funcs[t].file == f.file:
                        work.append(t)
                for o in c.ops:
                    fnm = fnname(o)
                    if fnm in P.funcs and fnm not in snames and P.funcs[fnm].file == f.file:
                        work.append(fnm)
        return [P.funcs[n] for n in sorted(seen) if n in P.funcs]

    roots = [("create_option", {"default"}, None), ("init_global_options", {"environment"}, None),
             ("parse_and_set_cmdline_option", None, {"commandline"}),
             ("parse_and_set_default_options", {"default_options"}, {"subproject_default_options"}),
             ("parse_and_set_override_options", {"override_options"}, None),
             ("setup_project_options", {"yield", "override"}, None)]
    for rn, st, qu in roots:
        fs = [f for f in P.funcs.values() if f.cname == rn]
        if not fs:
            raise AnalysisBroken("anchor vanished: " + rn)
        got, gq = [], []
        for f in closure(fs[0].name, {"eval_str", "init_builtin_options"}):
            R.fn(f.name)
            got += [(f, c, v) for c, v in tags(f)]
            gq += [(f, c, v) for c, v in queued(f)]
        exp = {srcs.get(x, x) for x in (st or ())}
        for f, c, v in got:
            R.check(v in exp, "tag@%s" % f.cname, c.where(), "the option is set with the wrong source (%s)" % next((n for n, x in srcs.items() if x == v), v))
        R.check(exp <= {v for _, _, v in got}, "sets:%s" % rn, fs[0].loc(), "%s no longer sets options" % rn)
        expq = {srcs.get(x, x) for x in (qu or ())}
        for f, c, v in gq:
            R.check(v in expq, "queued@%s" % f.cname, c.where(), "the option is queued with the wrong source (%s)" % next((n for n, x in srcs.items() if x == v), v))
        R.check(expq <= {v for _, _, v in gq}, "queues:%s" % rn, fs[0].loc(), "%s no longer queues options" % rn)
    for f in coercers:
        for c, v in tags(f) + queued(f):
            R.check(v == srcs["deprecated_rename"], "tag@%s" % f.cname, c.where(), "a renamed option is set with the wrong source")

    # nobody ignores that a value was refused
    R.rule("refusal-reported", "whoever sets an option passes on that the value was refused")
    byname = {}
    for f in P.funcs.values():
        for c in f.calls():
            for t in P.direct_targets(c):
                if t in snames and P.funcs[t].rettype() == "_Bool":
                    byname.setdefault(f.name, []).append((c, t))
    for n, cs in sorted(byname.items()):
        f = P.funcs[n]
        for c, t in cs:
            if kint(c.ops[sidx[t]]) == srcs["environment"]:
                continue
            s = Paths(P, f, M, results=lambda i: [(0, "F")] if i is c else None).go()
            bad = [r for r in s.rets if "F" in r[1] and not is_fail(M, f, r[0])]
            R.check(not bad, "refused@%s" % f.cname, c.where(), "an invalid option value is reported but does not stop the configuration", bad[0][2] if bad else None)

    # --- overrides ------------------------------------------------------------
    R.rule("unknown-option", "an option given for a project that the project does not have is an error; one for another project is left alone")
    found = False
    for f in closure(next(f.name for f in P.funcs.values() if f.cname == "setup_project_options"), {"eval_str", "init_builtin_options"}):
        cs = [c for c, v in tags(f) if v == "override" or any(field_of(P, f, o) == ("option_override", "val") for o in c.ops)]
        if not cs:
            continue
        found = True
        looks = [c for c in f.calls() if callee_in(P, c, LOOKUP)]
        s = Paths(P, f, M, events=lambda i, s, env: "set" if i in cs else None, results=lambda i: [(0, "none")] if i in looks else None).go()
        bad = [r for r in s.rets if "none" in r[1] and not is_fail(M, f, r[0])]
        R.check(bool(looks) and any("none" in r[1] for r in s.rets) and not bad, "unknown@%s" % f.cname, f.loc(), "an unknown option is ignored", bad[0][2] if bad else None)
        bad = [h for c in cs for h in s.hits.get(c.id, [])]
        R.check(not bad, "unknown-set@%s" % f.cname, cs[0].where(), "an option that was not found is set", bad[0][1] if bad else None)
        for c in cs:
            t = next(t for t in P.direct_targets(c) if t in snames)
            g = P.funcs[t]
            R.check(any(field_of(P, f, o) == ("option_override", "val") for o in c.ops), "override-value@%s" % f.cname, c.where(), "the value set is not the one the override gives")
            kc = next((k for k in range(len(g.argids)) if g.ditypes[k + 1] == "_Bool"), None)
            if kc is not None:
                for ov in (0, 1):
                    vals = []
                    s = Paths(P, f, M, assume={("option_override", "obj_value"): ov}, events=lambda i, s, env: vals.append(s.ev(i.ops[kc], env)) if i is c else None).go()
                    R.check(vals and all(v == 1 - ov for v in vals), "coerced-%d@%s" % (ov, f.cname), c.where(), "the text of an override is not coerced to the option's type" if not ov else "a value is coerced as if it were text")
        # overrides of other projects
        sm = [c for c in f.calls() if callee_in(P, c, {"subproj_name_matches"})]
        if sm:
            s = Paths(P, f, M, events=lambda i, s, env: "set" if i in cs else None, results=lambda i: [(0, "other")] if i in sm else None).go()
            bad = [h for c in cs for h in s.hits.get(c.id, [])] + [None for r in s.rets if "other" in r[1] and is_fail(M, f, r[0]) and len(r[2]) < 0]
            R.check(not bad, "other-project@%s" % f.cname, cs[0].where(), "an option of another project is applied", bad[0][1] if bad and bad[0] else None)
            g = P.funcs[sm[0].callee]
            R.fn(g.name)
            for a, b, eq, exp in (("@+a", "@+b", 0, 1), ("@+a", "@+b", NZ, 0), (0, "@+b", 0, 0), ("@+a", 0, 0, 0), (0, 0, NZ, 1)):
                s = Paths(P, g, M, assume={("arg", 1): a, ("arg", 2): b}, results=lambda i: [eq] if i.callee == "strcmp" else None).go()
                R.check(all(r[0] == exp for r in s.rets) and s.rets, "matches:%s:%s:%s" % (a, b, eq), g.loc(), "an override is matched with the wrong project")
    if not found:
        raise AnalysisBroken("pending overrides are never applied")
    # options for subprojects that do not exist
    chk = [f for f in P.funcs.values() if f.cname == "check_invalid_subproject_option"]
    if not chk:
        raise AnalysisBroken("anchor vanished: check_invalid_subproject_option")
    g = chk[0]
    R.fn(g.name)
    R.rule("unknown-subproject", "an option on the command line for a subproject that does not exist is an error")
    s = Paths(P, g, M, assume={("option_override", "proj"): NZ, ("option_override", "source"): srcs["commandline"]},
              results=lambda i: [(1, "cmp")] if i.callee == "strcmp" else ([(0, "cmp")] if callee_in(P, i, {"str_eql"}) else None),
              events=lambda i, s, env: "look" if P.field(g, i.ops[0]) == ("option_override", "proj") and i.op == "load" else None).go()
    bad = [r for r in s.rets if "look" in r[1] and not is_fail(M, g, r[0])]
    R.check(any("look" in r[1] for r in s.rets) and not bad, "no-such-subproject@%s" % g.cname, g.loc(), "an option for a subproject that does not exist is accepted", bad[0][2] if bad else None)
    for f in sorted((f for f in P.funcs.values() if any(callee_in(P, c, {g.cname}) for c in f.calls())), key=lambda f: f.name):
        R.fn(f.name)
        s = Paths(P, f, M, assume={("workspace", "cur_project"): 0}, results=lambda i: [(0, "F")] if callee_in(P, i, {g.cname}) else None).go()
        bad = [r for r in s.rets if not is_fail(M, f, r[0])]
        R.check(not bad and s.rets, "subprojects-checked@%s" % f.cname, f.loc(), "options for subprojects that do not exist are not looked for, or ignored", bad[0][2] if bad else None)
    if not any(callee_in(P, c, {g.cname}) for f in P.funcs.values() for c in f.calls()):
        R.check(False, "subprojects-checked", g.loc(), "options for subprojects that do not exist are never looked for")

    # --- lookup order ---------------------------------------------------------
    R.rule("lookup-order", "an option is looked up among the overrides of the target, then those of the project, then the global ones, and the first one found counts")
    fs = [f for f in P.funcs.values() if f.cname == "get_option_overridable"]
    if not fs:
        raise AnalysisBroken("anchor vanished: get_option_overridable")
    f = fs[0]
    R.fn(f.name)

    def where(c):
        for o in c.ops:
            fl = field_of(P, f, o)
            if fl == ("project", "opts"):
                return "project"
            if fl == ("workspace", "global_opts"):
                return "global"
        return "overrides" if any(vid(o) == f.argids[2] for o in c.ops) else None
    for have in ("overrides", "project", "global", None):
        seq = []

        def ev4(i, s, env):
            return "look:%s" % where(i) if callee_in(P, i, LOOKUP) else None
        s = Paths(P, f, M, assume={("arg", 1): NZ, ("arg", 2): NZ}, events=ev4, results=lambda i: [int(where(i) == have)] if callee_in(P, i, LOOKUP) else None).go()
        order = ["overrides", "project", "global"]
        exp = {"look:" + x for x in (order[:order.index(have) + 1] if have else order)}
        R.check(s.rets and all(set(r[1]) == exp and bool(r[0]) == bool(have) for r in s.rets), "lookup-%s@%s" % (have, f.cname), f.loc(),
                "the option is not taken from the place that comes first", s.rets[0][2] if s.rets else None)
        # each place is only looked at after the ones before it
        for c in f.calls():
            w = where(c) if callee_in(P, c, LOOKUP) else None
            if w:
                need = {"look:" + x for x in order[:order.index(w)]}
                R.check(all(need <= h[0] for h in s.hits.get(c.id, [])), "first-%s-%s@%s" % (w, have, f.cname), c.where(), "%s options are looked at too early" % w)

    # --- declarations ---------------------------------------------------------
    R.rule("declared-limits", "the limits and choices an option is validated against are those of its declaration")
    decl = [f for f in P.funcs.values() if f.cname == "func_option"]
    if not decl:
        raise AnalysisBroken("anchor vanished: func_option")
    f = decl[0]
    R.fn(f.name)
    rows = akw_rows(P, f)
    seen = set()
    for i in f.instrs():
        if i.op != "store":
            continue
        fl = P.field(f, i.ops[1])
        if fl in (CHOICES, MAX, MIN, ("obj_option", "deprecated")):
            ld = defi(f, i.ops[0])
            k = rowof(P, f, ld.ops[0]) if ld is not None and ld.op == "load" else None
            seen.add(fl)
            R.check(k is not None and rows.get(k) == fl[1] and P.field(f, ld.ops[0]) == ("args_kw", "val"), "declared:%s" % fl[1], i.where(), "the %s of an option is not the declared one (%s)" % (fl[1], rows.get(k)))
    for fl in (CHOICES, MAX, MIN):
        R.check(fl in seen, "declared-stored:%s" % fl[1], f.loc(), "the declared %s of an option is not kept" % fl[1])


class Wide(Paths):
    maxint = 1 << 62


def tcbits(P, v):
    """the object types a type tag stands for"""
    if v is None:
        return {None}
    v &= (1 << 64) - 1
    if v >> 63:
        v &= (1 << 62) - 1
        return {k + 1 for k in range(48) if v >> k & 1}
    return {v}


def oo_alloca(P, f, o):
    i = defi(f, o)
    return i is not None and i.op == "alloca" and "option_override" in (i.d.get("aty") or "")


def initsource(P, f, o):
    """source given by the constant initialiser copied into a local override"""
    a = vid(o)
    for i in f.calls():
        if (i.callee or "").startswith(("llvm.memcpy", "memcpy")) and vid(i.ops[0]) == a:
            g = i.ops[1]
            if isinstance(g, dict) and "g" in g:
                for st, fld, v in P.init_leaves(P.globals[g["g"]]):
                    if (st, fld) == ("option_override", "source"):
                        return v if isinstance(v, int) else kint(v)
        if (i.callee or "").startswith(("llvm.memset", "memset")) and vid(i.ops[0]) == a:
            return 0
    return None


def akw_rows(P, f):
    """row number -> keyword of the function's keyword table"""
    rows = {}
    for i in f.instrs():
        if i.op == "store" and cstr(i.ops[0]) is not None:
            k = rowof(P, f, i.ops[1])
            if k is not None and P.field(f, i.ops[1], "ptr") in (("args_kw", "key"), None):
                rows[k] = cstr(i.ops[0])
        elif i.op == "call" and (i.callee or "").startswith("llvm.memcpy") and isinstance(i.ops[1], dict) and i.ops[1].get("g") in P.globals:
            t = P.ginit(i.ops[1]["g"])
            if isinstance(t, list):
                for k, r in enumerate(t):
                    if isinstance(r, dict) and r.get("__struct__") == "args_kw" and cstr(r.get("key")) is not None:
                        rows[k] = cstr(r["key"])
    return rows


def rowof(P, f, o):
    """row of the local keyword table an address lies in"""
    row = 0
    i = defi(f, o)
    while i is not None and i.op == "getelementptr":
        for st in i.steps:
            if "idx" in st:
                k = kint(st["idx"])
                if k is None:
                    return None
                if st.get("ety") == "%struct.args_kw":
                    row += k
        i = defi(f, i.d["base"])
    if i is None or i.op != "alloca" or "args_kw" not in (i.d.get("aty") or ""):
        return None
    return row
