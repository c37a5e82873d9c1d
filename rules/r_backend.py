"""The files configuration leaves behind: all of them written, with all that was declared in them, and no write error unnoticed."""
from rules import prop
from rules.r_errprop import model
from rulelib import Paths, is_fail, callee_in
from prog import kint, vid, cstr, isnull
from sim import NZ


# -- a write error that shows only when the file is closed ----------------------

@prop("C07", "C01", "C25")
def late_error(P, R):
    R.rule("late-error", "a function that closes the stream it is handed fails when the stream's error indicator is set")
    M = model(P)
    n = 0
    for f in list(P.funcs.values()):
        if not f.file.startswith("src/") or f.file.startswith("src/external"):
            continue
        k = [j for j in range(len(f.argids)) if j + 1 < len(f.ditypes) and "FILE" in (f.ditypes[j + 1] or "")]
        cl = [c for c in f.calls() if c.callee == "fclose" and any(vid(c.ops[0]) == f.argids[j] for j in k)]
        if not cl or (M.failvals(f) is None and f.rettype() != "int"):
            continue
        n += 1
        R.fn(f.name)

        def res(i):
            return [1] if i.callee in ("ferror", "ferror_unlocked") else ([0] if i.callee == "fclose" else None)
        s = Paths(P, f, M, results=res, events=lambda i, s, e: "fclose" if i.op == "call" and i.callee == "fclose" else None)
        s.go()
        bad = [p for v, l, p in s.rets if "fclose" in l and not is_fail(M, f, v)]
        R.check(not bad, "late-error:%s" % f.cname, f.loc(), "%s reports success for a stream on which an earlier write failed" % f.cname, bad[0] if bad else None)
    R.check(n > 0, "late-error:none", "src/", "no function closes a stream and reports the outcome")


# -- the set of files -----------------------------------------------------------

def output_field(P, f, i):
    if i.op != "load":
        return None
    fl = P.field(f, i.ops[0])
    return fl[1] if fl and fl[0] == "output_path" else None


def name_of(P, f, o):
    s = cstr(o)
    if s is not None:
        return s
    v = vid(o)
    if v is None or v in f.argids:
        return None
    return output_field(P, f, f.defs[v])


@prop("C07")
def files(P, R):
    """Configuration succeeds only when every file that a later command reads back was written."""
    R.rule("files", "configuration succeeds only after each file that other code reads back was written by its writer")
    M = model(P)
    opener = P.fn("with_open")
    root = P.fn("ninja_write_all")
    need = {"build.ninja": None}
    for f in P.funcs.values():
        if f.file.startswith("src/backend/"):
            continue
        for i in f.instrs():
            n = output_field(P, f, i)
            if n and n != "private_dir":
                need.setdefault(n, i)

    def ev(i, s, e):
        if i.op == "call" and callee_in(P, i, {"with_open"}):
            n = name_of(P, root, i.ops[1])
            return [("w", n if n is not None else "*")]
        return None

    s = Paths(P, root, M, events=ev, results=lambda i: [0, 1] if callee_in(P, i, {"with_open"}) else None)
    s.go()
    R.fn(root.name)
    ok = [(l, p) for v, l, p in s.rets if not is_fail(M, root, v)]
    for n in sorted(need):
        bad = [p for l, p in ok if ("w", n) not in l and ("w", "*") not in l]
        R.check(not bad, "file-written:%s" % n, root.loc(), "configuration can succeed without writing %s%s" % (
            n, ", which %s reads back" % need[n].fn.cname if need[n] else ""), bad[0] if bad else None)

    R.rule("writers", "the writer of an output file uses the stream it is handed on every success path")
    seen = set()
    for c in P.callers().get(opener.name, ()):
        for k in P.cbparam.get(opener.name, ()):
            for t in P.fvalue_targets(c.fn, c.ops[k]):
                g = P.funcs.get(t)
                if g is None or t in seen:
                    continue
                seen.add(t)
                R.fn(t)
                arg = [a for j, a in enumerate(g.argids) if j + 1 < len(g.ditypes) and "FILE" in (g.ditypes[j + 1] or "")]

                def ev(i, s, e, arg=arg):
                    return "out" if i.op == "call" and any(vid(o) in arg for o in i.ops) else None
                s = Paths(P, g, M, events=ev)
                s.go()
                bad = [p for v, l, p in s.rets if "out" not in l and not is_fail(M, g, v)]
                R.check(not bad, "writer-writes:%s" % g.cname, g.loc(), "%s succeeds without writing to the file it was handed" % g.cname, bad[0] if bad else None)
    R.check(len(seen) > 0, "writer-writes:none", opener.loc(), "no writers found")


# -- what a target declares reaches the build description -------------------------

MUT = {"obj_array_push": 1, "obj_array_extend": 1, "obj_array_extend_nodup": 1, "obj_array_prepend": 1, "obj_dict_set": 1, "obj_dict_seti": 1,
       "push_args": 1, "sbuf_push": 1, "sbuf_pushs": 1, "sbuf_pushn": 1, "sbuf_pushf": 1, "relativize_path_push": 2, "get_option_link_args": 3}
SINK = {"fprintf", "fputs", "fwrite", "fputc", "serial_dump", "vfprintf"}
FOREACH = {"obj_array_foreach", "obj_array_foreach_flat", "obj_dict_foreach"}
PURE = {"get_cstr", "get_str", "get_obj_array", "get_obj_dict", "log_print"}   # take nothing in


class Flow(Paths):
    """Which values, variables and fields carry (something derived from) one source, along every path.

    source: callable(instr) -> bool: the instruction's result carries it
    needle: constant string whose presence in an operand carries it
    Path state: {("v", id)} SSA values, {("m", place)} memory, "sink" once written to a stream.
    """
    def __init__(self, P, f, M, source=None, needle=None, assume=None, results=None, start=(), depth=0, loads=None):
        super().__init__(P, f, M, assume=assume, results=results, start=start, loads=loads)
        self.source, self.needle, self.depth = source, needle, depth
        self.limit = 60000

    def place(self, o, access=False):
        """Field, variable or parameter a pointer operand designates (access: what a load or store through it touches)."""
        v = vid(o)
        if access:
            fl = self.P.field(self.f, o)
            if fl:
                return ("f",) + tuple(fl)
        if v is None or v in self.f.argids:
            return ("a", self.f.argids.index(v)) if v in self.f.argids else None
        d = self.f.defs[v]
        if d.op == "alloca":
            return ("l", v)
        if d.op == "getelementptr":
            fl = self.P.field(self.f, o)
            if fl:
                return ("f",) + tuple(fl)
            return self.place(d.d["base"])
        return None

    def root(self, o):
        v = vid(o)
        while v is not None and v not in self.f.argids:
            d = self.f.defs[v]
            if d.op == "alloca":
                return v
            if d.op == "getelementptr":
                v = vid(d.d["base"])
            else:
                return None
        return None

    def tainted(self, o, st):
        if self.needle is not None and cstr(o) is not None and self.needle in cstr(o):
            return True
        v = vid(o)
        if v is None:
            return False
        if ("v", v) in st:
            return True
        if v in self.f.argids:
            return False
        d = self.f.defs[v]
        if d.op in ("alloca", "getelementptr"):
            if d.op == "getelementptr" and vid(d.d["base"]) is not None and ("v", vid(d.d["base"])) in st:
                return True
            p = self.place(o)
            if p is not None and ("m", p) in st:
                return True
            r = self.root(o)
            if r is not None and ("m", ("l", r)) in st:
                return True
            if d.op == "alloca" and (d.d.get("aty") or "").startswith("%struct."):
                t = d.d["aty"][8:]
                return any(x[0] == "m" and x[1][0] == "f" and x[1][1] == t for x in st if isinstance(x, tuple))
        return False

    def derived(self, i, st):
        return any(self.tainted(o, st) for o in i.ops if not isinstance(o, tuple))

    def taint_obj(self, o, st):
        """The object o refers to now carries the source: so does the variable it was read from."""
        v = vid(o)
        if v is None:
            return st
        st = st | {("v", v)}
        if v in self.f.argids:
            if (self.f.ditypes[self.f.argids.index(v) + 1] or "").endswith("*"):
                st = st | {("m", ("a", self.f.argids.index(v)))}
        else:
            d = self.f.defs[v]
            if d.op == "load":
                p = self.place(d.ops[0], True)
                if p is not None:
                    st = st | {("m", p)}
            elif d.op in ("alloca", "getelementptr"):
                p = self.place(o)
                r = self.root(o)
                if p is not None:
                    st = st | {("m", p)}
                if r is not None and d.op == "alloca":
                    st = st | {("m", ("l", r))}
        return st

    def call(self, i, env, st):
        P = self.P
        if self.source and self.source(i, self):
            st = st | {("v", i.id), "src"}
            if i.op == "call":
                for o in i.ops:
                    v = vid(o)
                    if v is None or v in self.f.argids and self.f.ditypes[self.f.argids.index(v) + 1] != "obj":
                        continue
                    if v in self.f.argids or self.root(o) is not None or (self.f.defs[v].op == "load" and self.f.defs[v].ty == "i32"):
                        st = self.taint_obj(o, st)
        names = {P.funcs[t].cname if t in P.funcs else t for t in P.direct_targets(i)}
        outs = super().call(i, env, st)
        if names & PURE and not names & {"log_print"}:
            if self.derived(i, st):
                outs = [(v, s | {("v", i.id)}) for v, s in outs]
            return outs
        if not self.derived(i, st):
            return outs
        add = st | {("v", i.id)}
        if self.needle is not None and any(cstr(o) is not None and self.needle in cstr(o) for o in i.ops):
            add = add | {"src"}
        if names & SINK:
            add = add | {"sink", "sink0"}
        elif names & {"log_print"}:
            return outs
        elif names & FOREACH:
            k = None
            for t in P.direct_targets(i):
                for j in P.cbparam.get(t, ()):
                    for cb in P.fvalue_targets(self.f, i.ops[j]):
                        r = self.callback(cb, [x for x in add if isinstance(x, tuple) and x[0] == "m" and x[1][0] == "f"], self.tainted(i.ops[1], st), self.consts(i))
                        k = r if k is None else k & r
            add = self.aliases(k or frozenset(), add)
        else:
            m = [k for n, k in MUT.items() if n in names]
            if m:
                add = self.taint_obj(i.ops[m[0]], add)
            else:
                g = P.funcs.get(i.callee)
                inside = g is not None and self.depth < 6 and g.file.startswith("src/backend/")
                for o in i.ops:
                    v = vid(o)
                    if v is not None and v not in self.f.argids and self.f.defs[v].op in ("alloca", "getelementptr") and not (inside and self.isstruct(o)):
                        add = self.taint_obj(o, add)
                if inside:
                    add = self.aliases(self.summary(g, i, st), add)
        return [(v, s | add) for v, s in outs]

    def aliases(self, new, st):
        """A field that gained the source refers to the object whose reference this function put there."""
        st = st | new
        for x in new:
            if isinstance(x, tuple) and x[0] == "m":
                for i in self.f.instrs():
                    if i.op == "store" and self.place(i.ops[1], True) == x[1] and vid(i.ops[0]) is not None:
                        st = self.taint_obj(i.ops[0], st)
        return st

    def isobj(self, o):
        p = self.place(o, True)
        if p and p[0] == "f":
            return self.P.fieldtype(p[1], p[2]) == "obj"
        if p and p[0] == "l":
            return self.f.defs[p[1]].d.get("dt") == "obj"
        return False

    def isstruct(self, o):
        d = self.f.defs[vid(o)]
        if d.op == "alloca":
            return (d.d.get("aty") or "").startswith("%struct") and "sbuf" not in d.d["aty"]
        t = d.steps[-1].get("dt") if d.steps else None
        return bool(t) and t.startswith("struct ") and not t.endswith("*")

    def callback(self, name, fields, elements, known):
        """What holds after every element was handed to the callback: fields it adds to, and whether it writes."""
        g = self.P.funcs.get(name)
        if g is None or self.depth >= 6:
            return frozenset()
        if g is self.f:
            # recursion: whatever holds for it
            return frozenset({("m", self.place(i.ops[1], True)) for i in g.instrs() if i.op == "store"} | {("m", self.place(i.ops[0], True)) for i in g.instrs() if i.op == "load"})
        start = {("v", a) for a in g.argids[2:] if elements} | set(fields)
        s = Flow(self.P, g, self.M, needle=self.needle, assume={**self.plain(), **known}, results=self.results, start=start, depth=self.depth + 1)
        s.go()
        return s.must()

    def consts(self, c):
        """Fields of local structures handed to a call, which this function sets once to a constant."""
        out = {}
        for o in c.ops:
            v = vid(o)
            if v is None or v in self.f.argids or self.f.defs[v].op != "alloca" or not self.isstruct(o):
                continue
            t = self.f.defs[v].d["aty"][8:]
            vals = {}
            zero = False
            for i in self.f.instrs():
                if i.op == "store" and self.root(i.ops[1]) == v:
                    fl = self.P.field(self.f, i.ops[1])
                    w = vid(i.ops[0])
                    k = kint(i.ops[0])
                    if isnull(i.ops[0]):
                        k = 0
                    if k is None and w is not None and i.d.get("vty") == "ptr" and (w in self.f.argids or self.f.defs[w].op in ("alloca", "getelementptr")):
                        k = NZ
                    vals.setdefault(tuple(fl) if fl else None, set()).add(k)
                elif i.op == "call" and (i.callee or "").startswith("llvm.memset") and vid(i.ops[0]) == v and kint(i.ops[1]) == 0:
                    zero = True
                elif i.op == "call" and (i.callee or "").startswith("llvm.memcpy") and self.root(i.ops[0]) == v:
                    return {}
            if None in vals:
                continue
            st = self.P.structs.get(t)
            for n, ft, off in (st["fields"] if st else ()):
                k = vals.get((t, n), {0} if zero else {None})
                if len(k) == 1 and None not in k and k <= {0, NZ}:
                    out[(t, n)] = next(iter(k))
        return out

    def summary(self, g, i, st):
        start = {x for x in st if isinstance(x, tuple) and x[0] == "m" and x[1][0] == "f"}
        ptr = []
        for k, o in enumerate(i.ops):
            if k >= len(g.argids):
                break
            if self.tainted(o, st):
                start.add(("v", g.argids[k]))
            v = vid(o)
            if v is not None and (v in self.f.argids or self.f.defs[v].op in ("alloca", "getelementptr")):
                ptr.append((k, o))
        s = Flow(self.P, g, self.M, needle=self.needle, assume={**self.plain(), **self.consts(i)}, results=self.results, start=start, depth=self.depth + 1)
        s.go()
        m = s.must()
        out = {x for x in m if x == "sink" or (isinstance(x, tuple) and x[0] == "m" and x[1][0] == "f")}
        for k, o in ptr:
            if ("m", ("a", k)) in m:
                out |= self.taint_obj(o, frozenset())
        for k, a in enumerate(g.argids[:len(i.ops)]):
            if ("v", a) in m and vid(i.ops[k]) is not None:
                out |= self.taint_obj(i.ops[k], frozenset())
        return frozenset(out)

    def plain(self):
        return {k: v for k, v in self.assume.items() if not (isinstance(k, tuple) and k[0] == "arg")}

    def must(self):
        r = None
        for v, l, p in self.rets:
            if is_fail(self.M, self.f, v):
                continue
            l = frozenset(x for x in l if x == "sink" or (isinstance(x, tuple) and (x[0] == "m" or x[1] in self.f.argids)))
            r = l if r is None else r & l
        return r or frozenset()

    def load(self, i, env, st):
        # what is declared is there: a reference derived from it is not the null object
        if i.ty == "i32" and ("v", i.id) in st and self.isobj(i.ops[0]):
            v = super().load(i, env, st)
            return NZ if v is None else v
        return super().load(i, env, st)

    def visit(self, i, env, st):
        if i.op == "store":
            p = self.place(i.ops[1], True)
            v = vid(i.ops[1])
            if p is None and v is not None and v not in self.f.argids and self.f.defs[v].op == "load":
                p = self.place(self.f.defs[v].ops[0], True)     # through a pointer kept somewhere
            if p is not None:
                if self.tainted(i.ops[0], st):
                    st = st | {("m", p)}
                elif p[0] in ("l", "a") and ("m", p) in st and p[0] == "l" and self.f.defs[p[1]].d.get("aty") in ("i32", "ptr"):
                    st = st - {("m", p)}
            return st
        if i.op == "phi":
            return st
        if i.op == "load":
            hit = bool(self.source and self.source(i, self))
            p = self.place(i.ops[0], True)
            if hit or (p is not None and ("m", p) in st) or self.tainted(i.ops[0], st):
                st = st | {("v", i.id)}
                if hit:
                    st = st | {"src"}
            else:
                st = st - {("v", i.id)}
            return st
        if i.op in ("zext", "sext", "trunc", "freeze", "bitcast", "or", "and", "select"):
            if self.derived(i, st):
                return st | {("v", i.id)}
        return st

    def step(self, b, ix, env, st, node, work):
        # a phi carries the source when the operand of the edge taken does
        if ix == 0 and node and node[0] is not None:
            pred = node[0][1]
            for i in self.f.blocks[b]:
                if i.op != "phi":
                    break
                for o, p in i.ops:
                    if p == pred:
                        st = st | {("v", i.id)} if self.tainted(o, st) else st - {("v", i.id)}
        super().step(b, ix, env, st, node, work)


def loads(s, o):
    v = vid(o)
    if v is None or v in s.f.argids or s.f.defs[v].op != "load":
        return None
    return s.P.field(s.f, s.f.defs[v].ops[0])


NONNULL = {"get_cstr", "get_str", "get_obj_array", "join_args_ninja", "join_args_shell_ninja"}


def field_source(fl):
    def src(i, s):
        return i.op == "load" and s.P.field(s.f, i.ops[0]) == fl
    return src


def flows(P, R, M, fname, obligations, base=None):
    f = P.fn(fname)
    R.fn(f.name)
    more = []
    for o in obligations:
        k = [x for x in o[3] if x[1] == "flags"]
        if k:
            more.append((o[0] + " (with every other flag)", o[1], o[2], {**o[3], k[0]: -1}, o[4]))
    for what, source, needle, assume, want in obligations + more:
        a = dict(base or {})
        a.update(assume)
        s = Flow(P, f, M, source=source, needle=needle, assume=a,
                 results=lambda i: [NZ] if callee_in(P, i, NONNULL) else ([1] if callee_in(P, i, {"obj_dict_geti", "ninja_args_are_escapable", "fs_dir_exists"}) else None))
        s.go()
        key = "%s:%s" % (fname, what)
        good = [(l, p) for v, l, p in s.rets if not is_fail(M, f, v)]
        bad = [p for l, p in good if not want(l)]
        used = any("src" in l or needle is not None for l, p in good)
        R.check(used and not bad, key, f.loc(), "%s can succeed without %s reaching the build description" % (fname, what), bad[0] if bad else None)


def sunk(l):
    return "sink" in l


def iff(l):
    return "sink" in l or "src" not in l


@prop("C45")
def targets(P, R):
    R.rule("declared", "on every success path of a target's writer, each declared property flows to the stream")
    M = model(P)

    def F(s, f, extra=None, want=sunk, what=None):
        return (what or f, field_source((s, f)), None, {(s, f): NZ, **(extra or {})}, want)

    def N(needle, assume, what, want=sunk):
        return (what, None, needle, assume, want)
    ct = "obj_custom_target"
    e = P.enum
    fl = lambda n: {(ct, "flags"): e(n)}
    flows(P, R, M, "ninja_write_custom_tgt", [
        F(ct, "output"), F(ct, "input"), F(ct, "args"), F(ct, "depends"), F(ct, "env"), F(ct, "depfile"),
        N("-e", {(ct, "env"): NZ}, "the environment option"),
        N("DEPFILE", {(ct, "depfile"): NZ}, "the depfile"),
        N("CUSTOM_COMMAND_DEP", {(ct, "depfile"): NZ}, "the rule that reads the depfile"),
        N("-c", fl("custom_target_capture"), "the capture option"),
        N("-f", fl("custom_target_feed"), "the feed option"),
        N("console", fl("custom_target_console"), "the console pool"),
        N("default %s", fl("custom_target_build_by_default"), "being built by default"),
        N("build_always_stale", fl("custom_target_build_always_stale"), "being always stale"),
    ], base={("obj_array", "len"): 1})
    flows(P, R, M, "ninja_write_alias_tgt", [F("obj_alias_target", "name"), F("obj_alias_target", "depends")])
    bt = "obj_build_target"
    exe = {(bt, "type"): e("tgt_executable"), ("obj_array", "len"): NZ}
    dyn = {(bt, "type"): e("tgt_dynamic_library"), ("obj_array", "len"): NZ}
    flows(P, R, M, "ninja_write_build_tgt", [
        F(bt, "build_path"), F(bt, "objects"), F(bt, "src"), F(bt, "link_depends", exe),
        F("build_dep", "link_with", exe), F("build_dep", "link_whole", exe), F("build_dep", "link_args", exe),
        F("build_dep", "order_deps", {**exe, ("obj_array", "len"): 2}),
        F("build_dep", "order_deps", {**exe, ("obj_array", "len"): 1, ("write_tgt_iter_ctx", "have_order_deps"): 1}, what="a single order dependency"),
        F(bt, "soname", dyn),
        N("default %s", {(bt, "flags"): e("build_tgt_flag_build_by_default")}, "being built by default"),
        N("LINK_ARGS", exe, "the linker arguments"), N("LINK_ARGS", dyn, "the linker arguments of a shared library"),
        N("-order_deps", {("obj_array", "len"): 2}, "the order dependencies")
    ])
    stat = {(bt, "type"): e("tgt_static_library"), ("obj_array", "len"): NZ}
    flows(P, R, M, "ninja_write_build_tgt", [F(bt, f, t, what=f + " (%s)" % n) for n, t in (("library", dyn), ("static library", stat)) for f in ("build_path", "objects", "src", "link_depends")] + [
        ("the statement that stands for several order dependencies (%s)" % n, lambda i, s: i.op == "call" and any(cstr(o) and "-order_deps" in cstr(o) for o in i.ops[1:2]) and callee_in(P, i, {"make_strf"}),
         None, {**t, ("obj_array", "len"): 2}, lambda l: "sink0" in l and ("m", ("f", "write_tgt_iter_ctx", "implicit_deps")) in l) for n, t in (("executable", exe), ("library", dyn), ("static library", stat))])
    wi = "write_tgt_iter_ctx"
    flows(P, R, M, "write_tgt_sources_iter", [
        F(wi, "implicit_deps"), F(wi, "order_deps", {(wi, "have_order_deps"): 1}),
        ("the compiler arguments", lambda i, s: i.op == "call" and any(loads(s, o) == (wi, "joined_args") for o in i.ops), None, {}, iff),
        ("the object file", lambda i, s: callee_in(P, i, {"tgt_src_to_object_path"}), None, {}, sunk),
        ("the source file", lambda i, s: callee_in(P, i, {"get_file_path"}), None, {}, sunk),
    ])

    R.rule("linker", "what a target links with and its linker options flow to its linker arguments")
    into = lambda s, fld: (lambda l: ("m", ("f", s, fld)) in l)
    ind = lambda name: (lambda i, s: i.op == "call" and "fptr" in i.d and (loads(s, i.d["fptr"]) or ("", ""))[1] == name)
    yes = {("obj_array", "len"): NZ, ("arg", 1): NZ, ("str", "len"): NZ}
    la = into("build_dep", "link_args")
    flows(P, R, M, "setup_linker_args", [
        F("build_dep", f, yes, want=la) for f in ("link_with", "link_whole", "link_with_not_found", "rpath")] + [
        F("workspace", "global_link_args", yes, want=la), F("project", "link_args", yes, want=la),
        ("the link arguments of options", lambda i, s: callee_in(P, i, {"get_option_link_args"}), None, yes, la),
        ("export_dynamic", ind("export_dynamic"), None, {**yes, ("obj_build_target", "flags"): e("build_tgt_flag_export_dynamic")}, la),
    ])

    R.rule("compiler", "what a target, its project and the options ask of the compiler flows to its compiler arguments")
    j = into("setup_compiler_args_ctx", "joined_args")
    ctx = "setup_compiler_args_ctx"
    bf = lambda n: {**yes, ("obj_build_target", "flags"): e(n)}
    flows(P, R, M, "setup_compiler_args_iter", [
        F(ctx, "include_dirs", yes, want=j), F(ctx, "dep_args", yes, want=j), F("project", "include_dirs", yes, want=j),
        F("obj_build_target", "args", yes, want=j),
        ("the base arguments", lambda i, s: callee_in(P, i, {"get_base_compiler_args"}), None, yes, j),
        ("pic", ind("pic"), None, bf("build_tgt_flag_pic"), j), ("pie", ind("pie"), None, bf("build_tgt_flag_pie"), j),
        ("visibility", ind("visibility"), None, bf("build_tgt_flag_visibility"), j),
    ])
    f = P.fn("get_base_compiler_args")
    res = lambda l: ("m", ("a", len(f.argids) - 1)) in l
    flows(P, R, M, "get_base_compiler_args", [
        F("workspace", "global_args", yes, want=res), F("project", "args", yes, want=res)] + [
        (n, lambda i, s, n=n: callee_in(P, i, {n}), None, yes, res) for n in (
            "get_std_args", "get_buildtype_args", "get_warning_args", "get_werror_args", "setup_optional_b_args_compiler", "get_option_compile_args")])
    ba = P.fn("build_target_args")
    res = lambda l: ("m", ("a", len(ba.argids) - 1)) in l
    flows(P, R, M, "build_target_args", [
        F("build_dep", f, yes, want=res) for f in ("include_directories", "compile_args")] + [
        F("obj_build_target", "private_path", bf("build_tgt_generated_include"), want=res)])
    ic = "setup_compiler_args_includes_ctx"
    flows(P, R, M, "setup_compiler_args_includes_iter", [
        F("obj_include_directory", "path", {(ic, "dont_relativize"): 1}, want=lambda l: into(ic, "args")(l) or "src" not in l),
        F("obj_include_directory", "path", {(ic, "dont_relativize"): 0}, want=lambda l: into(ic, "args")(l) or "src" not in l, what="path (relative)"),
        ("a system include directory", ind("include_system"), None, {(ic, "dont_relativize"): 0, ("obj_include_directory", "is_system"): 1},
         lambda l: into(ic, "args")(l) or "src" not in l),
        ("a system include directory", ind("include_system"), None, {(ic, "dont_relativize"): 1, ("obj_include_directory", "is_system"): 1},
         lambda l: into(ic, "args")(l) or "src" not in l)])
    for fn, names in (("get_option_compile_args", ("c_args", "cpp_args")), ("get_option_link_args", ("c_link_args", "cpp_link_args"))):
        g = P.fn(fn)
        lang = [k for k in range(len(g.argids)) if "compiler_language" in (g.ditypes[k + 1] or "")][0]
        arr = [k for k in range(len(g.argids)) if g.ditypes[k + 1] == "obj"][-1]
        flows(P, R, M, fn, [N(n, {("arg", lang): e("compiler_language_" + n.split("_")[0])}, n, want=lambda l: ("v", g.argids[arr]) in l) for n in names])

    R.rule("rules", "the commands of compiler and linker rules carry the compiler, its arguments, inputs, outputs and depfile")
    flows(P, R, M, "write_compiler_rule", [
        F("obj_compiler", "cmd_arr"),
        N("$in", {}, "the input"), N("$out", {}, "the output"),
        N(" deps = ", {("compiler", "deps"): NZ}, "reading of the depfile"), N("depfile = ", {("compiler", "deps"): NZ}, "the depfile"),
        ("the option that makes the depfile", ind("deps"), None, {("compiler", "deps"): NZ}, sunk),
        ("the option that only compiles", ind("compile_only"), None, {}, sunk),
        ("the output option", ind("output"), None, {}, sunk)])
    flows(P, R, M, "write_linker_rule_iter", [
        ("the linker", lambda i, s: i.op == "load" and s.P.field(s.f, i.ops[0]) in (("obj_compiler", "cmd_arr"), ("obj_compiler", "linker_cmd_arr")), None, {}, sunk),
        N("$in", {}, "the inputs"), N("$out", {}, "the output"), N("$LINK_ARGS", {}, "the link arguments")])
    w = P.fn("ninja_write_rules")
    ph = [k for k in range(len(w.argids)) if w.ditypes[k + 1] == "_Bool"][0]
    flows(P, R, M, "ninja_write_rules", [
        F("workspace", "regenerate_deps"),
        N("build_always_stale", {("arg", ph): 1}, "the target that is always stale"),
        ("the regeneration command", lambda i, s: callee_in(P, i, {"regenerate_build_command"}), None, {}, sunk)])

    R.rule("elements", "each element of a list turned into arguments ends up in the result, or the conversion fails")
    elem(P, R, M, "arr_to_args_iter", 2, ("arr_to_args_ctx", "res"), [{}])
    elem(P, R, M, "relativize_paths_iter", 2, ("relativize_paths_ctx", "dest"), [{("relativize_paths_ctx", "oneshot"): 0}])
    elem(P, R, M, "relativize_paths_iter", 2, ("relativize_paths_ctx", "oneshot"), [{("relativize_paths_ctx", "oneshot"): NZ}])
    elem(P, R, M, "add_tgt_objects_iter", 2, ("write_tgt_iter_ctx", "object_names"), [{}])
    elem(P, R, M, "process_rpath_iter", 2, ("build_dep", "link_args"), [{("str", "len"): NZ}])
    elem(P, R, M, "arr_to_args", 2, 3, [{}])
    elem(P, R, M, "relativize_paths", 1, 3, [{}])
    elem(P, R, M, "relativize_path", 1, 3, [{}])


def elem(P, R, M, fname, k, dest, assumes):
    """Whatever is handed in as parameter k ends up in a field of the context (or behind an out parameter) on success."""
    f = P.fn(fname)
    R.fn(f.name)
    want = ("m", ("a", dest)) if isinstance(dest, int) else ("m", ("f",) + dest)
    for a in assumes:
        s = Flow(P, f, M, assume=a, start={("v", f.argids[k])}, results=lambda i: [NZ] if callee_in(P, i, NONNULL) else None)
        s.go()
        good = [(l, p) for v, l, p in s.rets if not is_fail(M, f, v)]
        bad = [p for l, p in good if want not in l]
        R.check(bool(good) and not bad, "%s:%s" % (fname, dest if isinstance(dest, int) else dest[1]), f.loc(), "%s can succeed without its element ending up in the result" % fname, bad[0] if bad else None)


def member(f, o):
    v = vid(o)
    if v is None or v in f.argids or f.defs[v].op != "getelementptr" or not f.defs[v].steps:
        return None
    st = f.defs[v].steps[-1]
    return (st.get("s"), st.get("f"))


@prop("C45", "C07")
def projects(P, R):
    R.rule("projects", "writing visits the targets and tests of every project that was configured")
    M = model(P)
    for fname, fld, user in (("ninja_write_build", "targets", {"obj_array_foreach"}), ("ninja_write_tests", "tests", {"obj_array_push"})):
        f = P.fn(fname)
        R.fn(f.name)

        def ev(i, s, e, fld=fld, user=user):
            if i.op == "call" and callee_in(P, i, {"arr_get"}) and member(f, i.ops[0]) == ("workspace", "projects") and kint(i.ops[1]) is None:
                return ["open", "seen", "missed"] if "open" in s.cur else ["open", "seen"]
            if i.op == "call" and callee_in(P, i, user) and any(loads(s, o) == ("project", fld) for o in i.ops):
                return ["-open", "used"]
            return None
        s = Paths(P, f, M, assume={("project", "not_ok"): 0, ("project", fld): NZ, ("obj_array", "len"): NZ}, events=ev, results=lambda i: [0] if callee_in(P, i, {"obj_dict_index"}) else None)
        s.go()
        good = [(l, p) for v, l, p in s.rets if not is_fail(M, f, v)]
        bad = [p for l, p in good if "missed" in l or "open" in l]
        R.check(any("seen" in l for l, p in good), "projects:%s:loop" % fname, f.loc(), "%s does not go through the projects" % fname)
        R.check(not bad, "projects:%s" % fname, f.loc(), "%s can succeed without writing the %s of a configured project" % (fname, fld), bad[0] if bad else None)
