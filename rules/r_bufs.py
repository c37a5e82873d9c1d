"""Bounded storage: every write into storage of a known size stays inside it (C24)."""
from rules import prop
from rules.r_index import bounds
from lin import Lin, addf, K
from prog import vid, kint, isnull

# call -> (destination operand, how many bytes: operand, or pair of operands to multiply)
WRITERS = {"memcpy": (0, 2), "memmove": (0, 2), "memset": (0, 2), "strncpy": (0, 2), "snprintf": (0, 1), "vsnprintf": (0, 1), "fread": (0, (1, 2)),
           "read": (1, 2), "readlink": (1, 2), "getcwd": (0, 1), "fgets": (0, 1), "recv": (1, 2), "strftime": (0, 1)}
UNBOUNDED = {"strcpy": 0, "strcat": 0, "sprintf": 0, "vsprintf": 0, "gets": 0, "stpcpy": 0, "strncat": 0}

# growth functions: callee -> (operand naming the object, its members, promise(lin, f, call, member atom) as forms <= 0)
CAP = {("sbuf", "buf"): ("sbuf", "cap"), ("str", "s"): ("str", "#cap")}


def lin(P):
    if not hasattr(P, "_lin"):
        L = Lin(P, bounds(P))
        L.capfields = CAP
        L.B.fresh = {"reserve_str": "str"}
        L.fieldposts = {"sbuf_grow": (1, [("sbuf", "len"), ("sbuf", "cap")]), "reserve_str": ("ret", [("str", "len"), ("str", "#cap")]),
                        "grow_str": ("ret", [("str", "len"), ("str", "#cap")])}

        def grown(L, f, c):
            n = L.form(f, c.ops[2])
            if n is None:
                return []
            return [addf(addf({("after", c.id, ("sbuf", "len")): 1}, n), {("after", c.id, ("sbuf", "cap")): 1}, -1)]

        def reserved(L, f, c):
            n = L.form(f, c.ops[2])
            ln, cap = {("after", c.id, ("str", "len")): 1}, {("after", c.id, ("str", "#cap")): 1}
            if n is None:
                return []
            return [addf(addf(n, {K: 1}), cap, -1), addf(ln, n, -1), addf(n, ln, -1)]

        def strgrown(L, f, c):
            n = L.form(f, c.ops[2])
            ln, cap = {("after", c.id, ("str", "len")): 1}, {("after", c.id, ("str", "#cap")): 1}
            if n is None:
                return []
            g = addf(addf(ln, n), cap, -1)
            return [addf(g, {K: 1}) if kint(c.ops[3]) == 1 else g]
        L.posts = {"sbuf_grow": grown, "reserve_str": reserved, "grow_str": strgrown}
        P._lin = L
    return P._lin


def writes(P, f):
    """(instruction, destination operand, length form or None, text)"""
    L = lin(P)
    for i in f.instrs():
        if i.op == "call":
            c = i.callee or ""
            if c in P.funcs:
                continue
            if c.startswith("llvm.mem"):
                c = c.split(".")[1]
            if c in UNBOUNDED:
                yield i, i.ops[UNBOUNDED[c]], None, c
            elif c in WRITERS:
                d, n = WRITERS[c]
                if isnull(i.ops[d]):
                    continue
                if isinstance(n, tuple):
                    a, b = L.form(f, i.ops[n[0]]), L.form(f, i.ops[n[1]])
                    w = None if a is None or b is None else L.product(a, b)
                else:
                    w = L.form(f, i.ops[n])
                yield i, i.ops[d], w, c


SLACK = (1, 2, 3, 8, 64, 512, 4096, 1 << 16)

# Constructs whose bound depends on facts outside of what the analysis expresses: not decided (counted in the evidence).
UNDECIDED = {
    ("samu_rot", "?"): "index is 0 or 1 by construction of the tree rotation",
    ("samu_treeinsert", "?"): "path length is bounded by the height of a balanced tree",
    ("samu_scankeyword", "keywords"): "binary search between two bounds",
    ("samu_canonpath", "component"): "loop exits through a fatal error at the last slot",
    ("func_obj_eval", "an"): "guarded by assertions on the number of arguments in the source",
    ("func_obj_eval", "akw"): "guarded by assertions on the number of arguments in the source",
    ("dump_function_signatures", "?"): "developer command; the language mode it iterates over is a constant of its caller",
    ("repl", "?"): "interactive debugger; table built at run time",
    ("test_in_suite_iter", "?"): "bounded by the length the caller keeps",
    ("check_lib_path", "ext"): "loop bound is a constant table of the same length",
    ("compiler_gcc_args_warning_lvl", "argv"): "number of arguments appended per level is a constant",
    ("fmt_node", "?"): "arithmetic operator number is set by the parser",
    ("analyze_method", "func_tbl"): "indexed by the type number of a typechecked object",
    ("str_unescape", "?"): "offset inside a string literal found by strchr",
    ("calc_sha_256", "k"): "round counter of nested loops",
    ("remove_paths", "?"): "guarded by an assertion in the source",
    ("wrap_parse_cb", "?"): "slot number found by a lookup in the same table",
    ("embedded_get", "embedded"): "loop bound is the length of the generated table",
    ("func_module_fs_hash", "buf"): "two counters advance together",
    ("muon_bestline", "buf"): "position found by strlen of the same buffer",
    ("keyval_parse", "call"): "the length is read from a copy of the structure the size was computed from",
    ("str_appf", "str.s"): "the length is read before the string is grown",
    ("arity_to_s", "buf"): "texts printed one after another; their lengths add up to less than the buffer",
    ("tok_to_s", "buf"): "texts printed one after another; their lengths add up to less than the buffer",
    ("node_to_s", "buf"): "texts printed one after another; their lengths add up to less than the buffer",
    ("both_libs_build_impl_tbl", "impl_tbl_both_libs"): "loop over another table of smaller size",
    ("python_build_impl_tbl", "impl_tbl_python_installation"): "loop over another table of smaller size",
    ("sbuf_grow", "call"): "relies on the length never exceeding the capacity",
}


def basename(P, f, o):
    """Name of the table a GEP indexes."""
    v = vid(o)
    for _ in range(8):
        if v is None:
            return o["g"].split("@")[0].split(".")[-1] if isinstance(o, dict) and "g" in o and not o["g"].startswith(".str") else "?"
        if v in f.argids:
            return "?"
        i = f.defs[v]
        if i.op == "getelementptr":
            n = [s["f"] for s in i.steps if "f" in s]
            if n:
                return n[-1]
            o = i.d["base"]
            v = vid(o)
            continue
        if i.op == "alloca":
            return i.d.get("name") or "?"
        return "?"
    return "?"


def undecided(f, name):
    return UNDECIDED.get((f.cname, name)) or UNDECIDED.get((f.cname, "?"))


def guarded(B, f, x, pt):
    """Is there any condition that bounds x from above?"""
    v, _ = B.term(f, x)
    if v in (None, "?"):
        return True
    seen, st = set(), [v]
    while st:
        v = st.pop()
        if v is None or v == "?" or v in seen:
            continue
        seen.add(v)
        if any(ft[0] in ("d", "n") and B.eqt(f, ft[1], v) for ft in B.facts(f, pt)):
            return True
        if any(ft[0] == "m" and B.memis(f, v, ft[1], ft[2]) for ft in B.facts(f, pt)):
            return True
        if v in f.argids:
            return True         # the caller's business
        i = f.defs[v]
        if i.op in ("phi",):
            for o, p in i.ops:
                st.append(B.term(f, o)[0])
        elif i.op in ("add", "sub", "mul", "shl", "and", "or", "urem", "udiv", "lshr", "select"):
            for o in i.ops:
                st.append(B.term(f, o)[0])
        elif i.op == "call" and i.callee not in ("strlen", "snprintf", "vsnprintf", "fread", "get_obj_number"):
            return True
        elif i.op == "load" and not (B.laststore(f, i) is not None):
            return True         # kept elsewhere; only what is provable is decided
        elif i.op == "load":
            st.append(B.term(f, B.laststore(f, i).ops[0])[0])
    return False


@prop("C24")
def index(P, R):
    """Variable indexes into arrays of a fixed length."""
    R.rule("array-index", "a variable index into an array of fixed length is inside it, by the conditions, definitions, types and stores that bound it")
    B = bounds(P)
    und = []
    for f in sorted(P.funcs.values(), key=lambda f: (f.file, f.line)):
        if f.file.endswith("_test.c") or f.file == "src/cmd_test.c":
            pass
        for i in f.instrs():
            if i.op != "getelementptr" or i.bb not in B.cfg(f).num:
                continue
            for n, s in enumerate(i.steps):
                if "idx" not in s or not s.get("n") or kint(s["idx"]) is not None:
                    continue
                N = s["n"]
                name = basename(P, f, i.d["base"]) if not any("f" in q for q in i.steps[:n]) else [q["f"] for q in i.steps[:n] if "f" in q][-1]
                R.fn(f.name)
                # one past the end may be computed when nothing is read or written there
                last = all(u.op == "call" or (u.op == "icmp") for u in uses(f, i))
                top = N if last and n == len(i.steps) - 1 else N - 1
                if B.prove(f, None, s["idx"], 0, i.bb) and B.prove(f, s["idx"], None, top, i.bb):
                    R.check(True, "index@%s:%s" % (f.cname, name), i.where(), "")
                    continue
                why = undecided(f, name)
                off = next((k for k in SLACK if B.prove(f, s["idx"], None, top + k, i.bb)), None)
                if why or (off is None and guarded(B, f, s["idx"], i.bb)):
                    und.append("%s %s[%d]: %s" % (f.cname, name, N, why or "not decided"))
                    continue
                R.check(False, "index@%s:%s" % (f.cname, name), i.where(), "%s[%d] is indexed with a value that %s" % (
                    name, N, "may be as large as %d" % (top + off) if off is not None else "nothing bounds"))
    for t in sorted(B.assumed):
        R.assume(t)
    for t in sorted(set(und)):
        R.assume("not decided, taken to hold: " + t)


def uses(f, i):
    if not hasattr(f, "_uses"):
        u = {}
        from prog import operands
        for k in f.instrs():
            for o in operands(k):
                v = vid(o)
                if v is not None:
                    u.setdefault(v, []).append(k)
        f._uses = u
    return f._uses.get(i.id, [])


@prop("C24")
def copies(P, R):
    """Writes of a number of bytes, and stores at a variable offset, into storage of known size."""
    R.rule("copy-bound", "offset + length of every bounded copy, formatted print, read and store is at most the size of the storage (fixed array, allocation, growable buffer after its growth call)")
    L = lin(P)
    B = L.B
    for f in sorted(P.funcs.values(), key=lambda f: (f.file, f.line)):
        jobs = list(writes(P, f))
        for i in f.instrs():
            if i.op == "store":
                v = vid(i.ops[1])
                if v is None or v in f.argids or f.defs[v].op != "getelementptr":
                    continue
                if any("f" in s or s.get("n") for s in f.defs[v].steps):
                    continue
                sz = L.sizeof(i.d.get("vty"))
                if sz:
                    jobs.append((i, i.ops[1], L.const(sz), "store"))
        for i, d, n, c in jobs:
            if i.bb not in B.cfg(f).num:
                continue
            p = L.place(f, d)
            if c in UNBOUNDED:
                src = i.ops[1] if len(i.ops) > 1 else None
                ok = p is not None and p[2] is not None and set(p[2]) <= {K} and isinstance(src, dict) and "str" in src and "%" not in src["str"] and \
                    set(p[1]) <= {K} and p[1].get(K, 0) + len(src["str"]) < p[2].get(K, 0)
                if True:
                    R.check(ok, "unbounded@%s:%s" % (f.cname, c), i.where(), "%s writes as much as the text is long" % c)
                continue
            if p is None or n is None:
                continue
            if p[0] == "argument":
                viacallers(P, R, L, f, i, d, p, n, c)
                continue
            if p[2] is None:
                continue
            if c == "store" and p[0] not in ("call",) and not any(t != K for t in p[2]):
                continue        # fixed arrays: decided by the index rule
            g = addf(addf(p[1], n), p[2], -1)
            R.fn(f.name)
            name = "%s.%s" % p[3] if len(p) > 3 else p[0].split(" ")[-1]
            if L.le0(f, g, i.bb):
                R.check(True, "copy@%s:%s" % (f.cname, name), i.where(), "")
                continue
            if undecided(f, name):
                continue
            off = next((k for k in SLACK if L.le0(f, addf(g, {K: -k}), i.bb)), None)
            if off is None and (L.known(f, g, i.bb) or not hard(L, f, p)):
                continue
            R.check(False, "copy@%s:%s" % (f.cname, name), i.where(), "%s may write %s the end of %s" % (c, "up to %d bytes past" % off if off is not None else "past", name))


def hard(L, f, p):
    """Storage whose size is fixed or set by a growth call."""
    return True


def viacallers(P, R, L, f, i, d, p, n, c):
    """A copy through a pointer parameter: at every call the argument has room for it."""
    off, length = p[1], n
    v = vid(d)
    while v not in f.argids:
        v = vid(f.defs[v].d["base"]) if f.defs[v].op == "getelementptr" else None
        if v is None:
            return
    for t in list(off) + list(length):
        if t != K and t not in f.argids:
            return
    k = f.argids.index(v)
    for call in P.callers().get(f.name, ()):
        g = call.fn
        if k >= len(call.ops) or call.bb not in L.B.cfg(g).num:
            continue
        q = L.place(g, call.ops[k])
        if q is None or q[2] is None:
            continue
        need = {}
        for src in (off, length):
            for t, co in src.items():
                w = L.const(co) if t == K else L.form(g, call.ops[f.argids.index(t)])
                if w is None:
                    need = None
                    break
                need = addf(need, w, 1 if t == K else co)
            if need is None:
                break
        if need is None:
            continue
        goal = addf(addf(q[1], need), q[2], -1)
        name = q[0].split(" ")[-1]
        if L.le0(g, goal, call.bb) or undecided(g, name) or undecided(f, name):
            R.check(True, "copy@%s:%s" % (g.cname, name), call.where(), "")
            continue
        s = next((x for x in SLACK if L.le0(g, addf(goal, {K: -x}), call.bb)), None)
        if s is None and L.known(g, goal, call.bb):
            continue
        R.check(False, "copy@%s:%s" % (g.cname, name), call.where(), "%s is told that %s is larger than it is" % (f.cname, name))


# -- growth functions: what copies() takes from them is proved here --------------
def member(P, f, o, s, fld):
    """Does the address name this member of this structure?"""
    v = vid(o)
    if v is None:
        return False
    if v not in f.argids and f.defs[v].op == "getelementptr":
        st = f.defs[v].steps
        return bool(st) and st[-1].get("s") == s and st[-1].get("f") == fld
    st = P.structs.get(s)
    if not st or not st.get("fields") or st["fields"][0][0] != fld:
        return False
    return (P.ditype(f, o) or "").replace("const ", "") == "struct %s *" % s


def loads(P, f, s, fld):
    """Loads of one member."""
    return [i for i in f.instrs() if i.op == "load" and i.bb in bounds(P).cfg(f).num and member(P, f, i.ops[0], s, fld)]


def fieldstores(P, f, s, fld):
    return [i for i in f.instrs() if i.op == "store" and i.bb in bounds(P).cfg(f).num and member(P, f, i.ops[1], s, fld)]


ALLOCS = {"z_malloc": lambda c: (c.ops[0],), "z_calloc": lambda c: (c.ops[0], c.ops[1]), "z_realloc": lambda c: (c.ops[1],), "bucket_arr_pushn": lambda c: (c.ops[3],)}


def allocations(P, f):
    L = lin(P)
    for c in f.calls():
        n = P.funcs[c.callee].cname if c.callee in P.funcs else c.callee
        if n in ALLOCS and c.bb in L.B.cfg(f).num:
            w = L.const(1)
            for o in ALLOCS[n](c):
                g = L.form(f, o)
                w = None if w is None or g is None else L.product(w, g)
            yield c, n, w


def under(P, f, arg, truth):
    """Edges that cannot be taken when a boolean parameter has the given value."""
    B = bounds(P)
    dead = set()

    def isarg(o, t):
        return decided(f, arg, o, t)
    for b in B.cfg(f).num:
        t = f.blocks[b][-1]
        if t.op == "br" and len(t.d["succ"]) == 2:
            r = isarg(t.ops[0], truth)
            if r is not None:
                dead.add((b, t.d["succ"][1 if r else 0]))
    for i in f.instrs():
        if i.op == "select":
            r = isarg(i.ops[0], truth)
            if r is not None:
                dead.add((i.id, 1 if r else 0, "select"))
    return dead


def decided(f, arg, o, t):
    """Value of a condition that only depends on a boolean parameter."""
    def isarg(o, t):
        v = vid(o)
        if v == arg:
            return t
        if v is None or v in f.argids:
            return None
        i = f.defs[v]
        if i.op in ("zext", "trunc", "freeze"):
            return isarg(i.ops[0], t)
        if i.op == "xor" and kint(i.ops[1]) in (1, -1):
            return isarg(i.ops[0], not t)
        if i.op == "icmp" and kint(i.ops[1]) == 0 and i.d["pred"] in ("ne", "eq"):
            return isarg(i.ops[0], t if i.d["pred"] == "ne" else not t)
        return None
    return isarg(o, t)


def one(P, n):
    fs = [f for f in P.funcs.values() if f.cname == n]
    return fs[0] if fs else None


def params(f):
    return f.argids


@prop("C24")
def growth(P, R):
    """The functions that make room really make it."""
    R.rule("growth", "the functions that enlarge strings, string builders and arrays allocate at least the size they record and promise, on every path")
    L = lin(P)
    B = L.B

    def ob(ok, f, key, i, msg):
        R.fn(f.name)
        R.check(ok, "grow@%s:%s" % (f.cname, key), i.where() if i is not None else f.where(), msg)

    f = one(P, "reserve_str")
    if f:
        n = {f.argids[2]: 1}
        for c, k, w in allocations(P, f):
            ob(w is not None and L.le0(f, addf(addf(n, {K: 1}), w, -1), c.bb), f, k, c, "storage for a string of the requested length plus its terminator is not certain to be reserved")
    f = one(P, "grow_str")
    if f:
        grow, nul = f.argids[2], f.argids[3]
        lens = [L.form(f, i) for i in ({"v": l.id} for l in loads(P, f, "str", "len"))]
        jobs = [(c, k, w, False) for c, k, w in allocations(P, f)]
        jobs += [(c, "reserve_str", None if L.form(f, c.ops[2]) is None else addf(L.form(f, c.ops[2]), {K: 1}), False) for c in f.calls() if (P.funcs[c.callee].cname if c.callee in P.funcs else "") == "reserve_str"]
        for c, k, w, _ in jobs:
            good = w is not None and any(L.le0(f, addf(addf(l, {grow: 1}), w, -1), c.bb) for l in lens)
            if good:
                L.dead = under(P, f, nul, True)
                L.extra = [{nul: -1, K: 1}]
                good = any(L.le0(f, addf(addf(addf(l, {grow: 1}), {K: 1}), w, -1), c.bb) for l in lens)
                L.dead, L.extra = set(), []
            ob(good, f, k, c, "storage for the old text, the added length and (when asked for) the terminator is not certain to be reserved")
    f = one(P, "sbuf_grow")
    if f:
        inc = f.argids[2]
        lens = [L.form(f, {"v": l.id}) for l in loads(P, f, "sbuf", "len")]
        caps = [L.form(f, {"v": l.id}) for l in loads(P, f, "sbuf", "cap") if not any(reaches_from(B.cfg(f), s.bb, l.bb) for s in fieldstores(P, f, "sbuf", "cap"))]
        cs = [(i, L.form(f, i.ops[0])) for i in fieldstores(P, f, "sbuf", "cap")]
        for i, w in cs:
            ob(w is not None and any(L.le0(f, addf(addf(l, {inc: 1}), w, -1), i.bb) for l in lens), f, "cap", i, "the recorded capacity is not certain to be at least the length plus the increment")
            for c, k, a in allocations(P, f):
                ob(a is not None and w is not None and L.le0(f, addf(w, a, -1), c.bb), f, k, c, "the memory obtained is not certain to be as large as the capacity recorded for it")
            for c in f.calls():
                k = P.funcs[c.callee].cname if c.callee in P.funcs else ""
                a = L.form(f, c.ops[2]) if k in ("reserve_str", "grow_str") else None
                if k == "reserve_str":
                    ob(a is not None and w is not None and L.le0(f, addf(w, a, -1), c.bb), f, k, c, "the memory obtained is not certain to be as large as the capacity recorded for it")
                elif k == "grow_str":
                    ob(a is not None and w is not None and any(L.le0(f, addf(addf(w, a, -1), q, -1), c.bb) for q in caps), f, k, c, "the string is not certain to grow by the difference of the capacities")
        for e in exits(P, f, {i.bb for i, _ in cs}):
            ok = any(L.le0(f, addf(addf(addf(l, {inc: 1}), q, -1), {}), e) for l in lens for q in caps)
            ob(ok, f, "return", f.blocks[e[0] if isinstance(e, tuple) else e][-1], "may return without having made room")
    for n in ("arr_get_mem", "arr_init"):
        f = one(P, n)
        if not f:
            continue
        als = list(allocations(P, f))
        cs = [(i, L.form(f, i.ops[0])) for i in fieldstores(P, f, "arr", "cap")]
        for i, w in cs:
            for c, k, a in als:
                items = [L.form(f, {"v": l.id}) for l in loads(P, f, "arr", "item_size")] + [{x: 1} for x in f.argids[1:]]
                ob(a is not None and w is not None and any(L.le0(f, addf(L.product(w, z), a, -1), c.bb) for z in items), f, k, c, "the memory obtained is not certain to hold the recorded number of items")
            if n == "arr_get_mem":
                lens = [L.form(f, s.ops[0]) for s in fieldstores(P, f, "arr", "len")]
                ob(w is not None and any(l is not None and L.le0(f, addf(l, w, -1), i.bb) for l in lens), f, "cap", i, "the new capacity is not certain to be at least the number of items")
        if n == "arr_get_mem":
            lens = [L.form(f, s.ops[0]) for s in fieldstores(P, f, "arr", "len")]
            caps = [L.form(f, {"v": l.id}) for l in loads(P, f, "arr", "cap") if not any(reaches_from(B.cfg(f), s.bb, l.bb) for s in fieldstores(P, f, "arr", "cap"))]
            for e in exits(P, f, {i.bb for i, _ in cs}):
                ob(any(L.le0(f, addf(l, q, -1), e) for l in lens if l is not None for q in caps if q is not None), f, "return", f.blocks[e[0] if isinstance(e, tuple) else e][-1], "may hand out an item past the capacity")
    # items are handed out only below the number stored
    for n, ln in (("arr_get", ("arr", "len")), ("bucket_arr_get", ("bucket", "len"))):
        f = one(P, n)
        if not f:
            continue
        for b in B.cfg(f).num:
            if f.blocks[b][-1].op != "ret":
                continue
            lens = [L.form(f, {"v": l.id}) for l in loads(P, f, *ln)]
            idx = [{f.argids[1]: 1}] if n == "arr_get" else [L.form(f, {"v": i.id}) for i in f.instrs() if i.op in ("urem", "and", "sub")]
            ok = any(L.le0(f, addf(addf(x, {K: 1}), l, -1), b) for x in idx if x for l in lens if l)
            ob(ok, f, "return", f.blocks[b][-1], "may hand out an item at an index that is not below the number of items")
    f = one(P, "bucket_arr_pushn")
    if f:
        res = f.argids[3]
        lens = [L.form(f, {"v": l.id}) for l in loads(P, f, "bucket", "len")]
        sizes = [L.form(f, {"v": l.id}) for l in loads(P, f, "bucket_arr", "bucket_size")]
        fresh = {c.bb for c in f.calls() if (P.funcs[c.callee].cname if c.callee in P.funcs else "") in ("init_bucket",)}
        news = fresh | {i.bb for i in fieldstores(P, f, "bucket_arr", "tail_bucket")}
        for e in exits(P, f, news):
            ok = any(L.le0(f, addf(addf(l, {res: 1}), s, -1), e) for l in lens if l for s in sizes if s)
            ob(ok, f, "return", f.blocks[e[0] if isinstance(e, tuple) else e][-1], "may use a bucket without enough room left in it")
        for b in news:
            ob(any(L.le0(f, addf({res: 1}, s, -1), b) for s in sizes if s), f, "new", f.blocks[b][-1], "may reserve more than a new bucket holds")
    for f in sorted(P.funcs.values(), key=lambda f: (f.file, f.line)):
        for c in f.calls():
            if (P.funcs[c.callee].cname if c.callee in P.funcs else "") != "bucket_arr_pushn" or c.bb not in B.cfg(f).num:
                continue
            n, d = L.form(f, c.ops[3]), L.form(f, c.ops[2])
            if n is None or d is None or not set(n) - {K}:
                continue
            sizes = [L.form(f, {"v": l.id}) for l in loads(P, f, "bucket_arr", "bucket_size")]
            ob(any(L.le0(f, addf(addf(n, {K: 1}), s, -1), c.bb) for s in sizes if s), f, "pushn", c, "may ask for as much as a whole bucket or more at once, which bucket_arr_pushn rejects by aborting")
    f = one(P, "init_bucket")
    if f:
        for c, k, a in allocations(P, f):
            s = [L.form(f, {"v": l.id}) for l in loads(P, f, "bucket_arr", "bucket_size")]
            z = [L.form(f, {"v": l.id}) for l in loads(P, f, "bucket_arr", "item_size")]
            ob(a is not None and any(L.le0(f, addf(L.product(x, y), a, -1), c.bb) for x in s if x for y in z if y), f, k, c, "a bucket is not certain to hold its number of items")


def exits(P, f, avoid):
    """Points (block or edge into a return) from which the function returns without having been in one of the blocks."""
    cfg = bounds(P).cfg(f)
    seen, st = set(), [0]
    while st:
        b = st.pop()
        if b in seen or b in avoid or b not in cfg.num:
            continue
        seen.add(b)
        st += cfg.succs[b]
    out = []
    for b in seen:
        t = f.blocks[b][-1]
        if t.op != "ret":
            continue
        # follow the joins backwards to edges that belong to such paths only
        work, done = [b], set()
        while work:
            x = work.pop()
            if x in done:
                continue
            done.add(x)
            ps = [p for p in cfg.num if x in cfg.succs[p] and not cfg.dominates(x, p)]
            if not any(reaches_from(cfg, a, x) for a in avoid):
                out.append(x)
                continue
            for p in ps:
                if p in seen:
                    if any(reaches_from(cfg, a, p) for a in avoid):
                        work.append(p)
                    else:
                        out.append((p, x))
    return out


def reaches_from(cfg, a, b):
    seen, st = set(), [a]
    while st:
        x = st.pop()
        if x == b:
            return True
        if x in seen:
            continue
        seen.add(x)
        st += cfg.succs[x]
    return False


# functions that read text up to its NUL (operand number of the text)
READERS = {"strlen": (0,), "strtol": (0,), "strtoul": (0,), "strtoll": (0,), "strtoull": (0,), "atoi": (0,), "strcmp": (0, 1), "strncmp": (),
           "strchr": (0,), "strrchr": (0,), "strstr": (0, 1), "strdup": (0,), "fputs": (0,), "puts": (0,), "perror": (0,), "setenv": (0, 1),
           "open": (0,), "fopen": (0,), "open64": (0,), "fopen64": (0,), "stat": (0,), "lstat": (0,), "stat64": (0,), "lstat64": (0,), "chdir": (0,),
           "getenv": (0,), "strpbrk": (0, 1), "strspn": (0, 1), "strcspn": (0, 1)}
PRINTERS = {"printf": 0, "fprintf": 1, "snprintf": 2, "sprintf": 1, "dprintf": 1}
CLOSES = {"snprintf", "vsnprintf", "getcwd", "fgets", "strftime"}


def textparams(P):
    """(function, parameter number) that is read as text up to its NUL."""
    if hasattr(P, "_textparams"):
        return P._textparams
    out = set()
    changed = True
    while changed:
        changed = False
        for f in P.funcs.values():
            for c in f.instrs():
                if c.op != "call":
                    continue
                for n, o in textargs(P, out, c):
                    v = vid(o)
                    if v in f.argids:
                        k = (f.name, f.argids.index(v) if isinstance(f.argids, list) else list(f.argids).index(v))
                        if k not in out:
                            out.add(k)
                            changed = True
    P._textparams = out
    return out


def textargs(P, known, c):
    """Operands of a call that the callee reads as text."""
    n = c.callee or ""
    nargs = len(c.ops) - (0 if c.callee else 1)
    g = P.funcs.get(n)
    if g is None:
        for k in READERS.get(n, ()):
            if k < len(c.ops):
                yield k, c.ops[k]
        if n in PRINTERS:
            yield from printed(c, PRINTERS[n])
        return
    np = len(g.argids)
    for k in range(len(c.ops)):
        if k < np:
            if (g.name, k) in known:
                yield k, c.ops[k]
    if np and len(c.ops) > np:
        yield from printed(c, np - 1)


def printed(c, k):
    """Operands that a format prints up to their NUL."""
    import re
    o = c.ops[k]
    if not isinstance(o, dict) or "str" not in o:
        return
    k += 1
    for m in re.finditer(r"%[-+ #0]*(\*|\d+)?(?:\.(\*|\d+)?)?(?:hh|h|ll|l|z|j|t|L)?([a-zA-Z%])", o["str"]):
        if m.group(3) == "%":
            continue
        k += (m.group(1) == "*") + (m.group(2) == "*")
        if m.group(3) == "s" and m.group(2) is None and k < len(c.ops):
            yield k, c.ops[k]
        k += 1


@prop("C24")
def terminated(P, R):
    """Local buffers that are read as text keep a NUL behind what is written."""
    R.rule("terminated", "a local character array that is read up to its NUL starts as zeroes (or has a NUL stored) and nothing written into it covers its last byte")
    L = lin(P)
    B = L.B
    text = textparams(P)
    for f in sorted(P.funcs.values(), key=lambda f: (f.file, f.line)):
        for a in [i for i in f.instrs() if i.op == "alloca"]:
            N = chars(a.d.get("aty"))
            if not N:
                continue
            ptrs = {a.id: 0}
            work = [a]
            geps, reads, wr, nul = [], [], [], []
            while work:
                p = work.pop()
                for u in uses(f, p):
                    if u.op == "getelementptr" and vid(u.d["base"]) == p.id:
                        geps.append(u)
                        if u.id not in ptrs:
                            ptrs[u.id] = 1
                            work.append(u)
                    elif u.op in ("phi", "select"):
                        if u.id not in ptrs:
                            ptrs[u.id] = 1
                            work.append(u)
                    elif u.op == "store" and vid(u.ops[1]) == p.id:
                        (nul if kint(u.ops[0]) == 0 else wr).append(u)
                    elif u.op == "call":
                        ta = [k for k, o in textargs(P, text, u) if vid(o) == p.id]
                        if ta:
                            reads.append(u)
            if not reads:
                continue
            jobs = []
            zero = False
            for i, d, n, c in writes(P, f):
                v = vid(d)
                if v not in ptrs or c in CLOSES:
                    continue
                if c == "memset" and kint(i.ops[1]) == 0:
                    zero = True
                    continue
                if c == "memcpy" and vid(i.ops[1]) is None and v == a.id and n is not None and set(n) <= {K} and n.get(K, 0) == N:
                    zero = True        # an initialiser
                    continue
                jobs.append((i, d, n, c))
            if any(u.op == "store" and kint(u.ops[0]) == 0 for u in nul):
                zero = True
            if not jobs and not wr:
                continue
            R.fn(f.name)
            nm = a.d.get("name") or "?"
            # a NUL stored at a computed place ends the text there
            placed = [u for u in nul if f.defs[vid(u.ops[1])].op == "getelementptr" and any(kint(s.get("idx")) is None for s in f.defs[vid(u.ops[1])].steps if "idx" in s)]
            if not zero and not placed:
                R.check(False, "terminated@%s:%s" % (f.cname, nm), reads[0].where(), "%s is read as text but its NUL is never stored" % nm)
                continue
            for i in wr:
                if placed:
                    continue
                v = vid(i.ops[1])
                d = f.defs[v]
                if d.op == "getelementptr":
                    sz = L.sizeof(i.d.get("vty")) or 1
                    q = L.place(f, i.ops[1])
                    ok = q is not None and L.le0(f, addf(q[1], {K: sz - (N - 1)}), i.bb)
                    if not ok:
                        ix = [s["idx"] for s in d.steps if "idx" in s]
                        ok = len(ix) >= 1 and B.prove(f, ix[-1], None, N - 1 - sz, i.bb)
                    if not ok and (undecided(f, nm) or not B.prove(f, ix[-1], None, N - 1, i.bb)):
                        continue        # not decided by the index rule either
                    R.check(ok, "terminated@%s:%s" % (f.cname, nm), i.where(), "the last byte of %s may be overwritten, and it is read as text" % nm)
            for i, d, n, c in jobs:
                if placed or n is None:
                    continue
                q = L.place(f, d)
                if q is None:
                    continue
                if L.le0(f, addf(addf(q[1], n), {K: -(N - 1)}), i.bb):
                    R.check(True, "terminated@%s:%s" % (f.cname, nm), i.where(), "")
                elif L.le0(f, addf(addf(q[1], n), {K: -N}), i.bb):
                    R.check(False, "terminated@%s:%s" % (f.cname, nm), i.where(), "%s may fill %s to its last byte, and it is read as text" % (c, nm))


def chars(ty):
    import re
    m = re.match(r"^\[(\d+) x i8\]$", ty or "")
    return int(m.group(1)) if m else None
