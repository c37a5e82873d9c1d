"""Version requirements: what is found under a requirement was compared with it, and the comparison decides."""
from rules import prop
from rules.r_errprop import model
from rulelib import Paths, is_fail
from prog import AnalysisBroken, kint, vid, cstr
from sim import NZ

# family: (entry, structure and field saying something was found, where candidates come from)
FAMILIES = (
    ("dependency()", "func_dependency", ("dep_lookup_ctx", "found"), {"muon_pkgconf_lookup", "subproject_get_variable"}),
    ("find_program()", "func_find_program", ("find_program_iter_ctx", "found"), {"fs_file_exists", "fs_find_cmd"}),
    ("subproject()", "subproject", ("obj_subproject", "found"), {"eval_project"}),
)
CMP = "version_compare"


def strip(f, o):
    """Look through casts."""
    for _ in range(6):
        d = f.defs.get(vid(o)) if vid(o) is not None and vid(o) not in f.argids else None
        if d is not None and d.op in ("trunc", "zext", "bitcast", "freeze"):
            o = d.ops[0]
        else:
            break
    return o


class Flags:
    """Boolean results handed around by address: one class per result."""

    def __init__(self, P, scope, cmpfn):
        self.P, self.up = P, {}
        self.scope = scope
        for f in scope:
            for c in f.calls():
                g = P.funcs.get(c.callee)
                if g is None or g not in scope and g is not cmpfn:
                    continue
                for k, o in enumerate(c.ops):
                    if k < len(g.argids) and "_Bool *" in self.dt(g, k):
                        a = self.loc(f, o)
                        if a is not None:
                            self.join(a, ("P", g.name, k))

    def dt(self, g, k):
        return (g.ditypes[k + 1] or "") if len(g.ditypes) > k + 1 else ""

    def find(self, a):
        while self.up.get(a, a) != a:
            a = self.up[a]
        return a

    def join(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b:
            # fields represent their class
            if a[0] != "F":
                a, b = b, a
            self.up[b] = a

    def loc(self, f, o):
        v = vid(o)
        if v is None:
            return None
        if v in f.argids:
            k = f.argids.index(v)
            if "_Bool *" in self.dt(f, k):
                return self.find(("P", f.name, k))
        fl = self.P.field(f, o)
        if fl is not None and self.isbool(fl) and (not fl[0].startswith("obj_") or fl == ("obj_subproject", "found")):
            return self.find(("F",) + tuple(fl))
        d = f.defs.get(v) if v not in f.argids else None
        if d is not None and d.op == "alloca" and "_Bool" in (d.d.get("dt") or ""):
            return self.find(("A", f.name, v))
        return None

    def isbool(self, fl):
        s = self.P.structs.get(fl[0])
        return s is not None and any(n == fl[1] and "_Bool" in (t or "") for n, t, _ in [x[:3] for x in s["fields"]])


class Adopt:
    """(return value, state) of every path; the state holds the flags and whether a candidate was compared."""

    def __init__(self, P, M, root, flag, sources, cmpfn):
        self.P, self.M, self.root, self.cmpfn = P, M, root, cmpfn
        self.scope = {f for f in P.funcs.values() if f.file == root.file and f.blocks}
        self.flags = Flags(P, self.scope, cmpfn)
        self.F = self.flags.find(("F",) + flag)
        out = [k for k in range(len(cmpfn.argids)) if "_Bool *" in self.flags.dt(cmpfn, k)]
        if len(out) != 1:
            raise AnalysisBroken("%s: no single boolean result" % cmpfn.cname)
        self.cmpout = out[0]
        self.C = self.flags.find(("P", cmpfn.name, self.cmpout))
        self.sources = sources
        self.memo, self.fns, self.srcs, self.cmps = {}, set(), set(), set()
        self.comparers = {cmpfn.name} | {f.name for f in self.scope if any(self.flags.loc(f, a) == self.C for a in ({"v": x} for x in f.argids))}
        self.vparams = self.version_params()

    def version_params(self):
        """Parameters that are the version compared."""
        P = self.P
        vp = set()
        changed = True
        while changed:
            changed = False
            for f in self.scope:
                for c in f.calls():
                    for o in self.version_ops(f, c, vp):
                        if vid(o) in f.argids:
                            k = (f.name, f.argids.index(vid(o)))
                            if k not in vp:
                                vp.add(k)
                                changed = True
        return vp

    def version_ops(self, f, c, vp):
        out = []
        if c.callee == self.cmpfn.name:
            for o in c.ops:
                d = f.defs.get(vid(o)) if vid(o) is not None and vid(o) not in f.argids else None
                if d is not None and d.op == "call" and d.callee and d.callee.split("@")[0] == "get_str":
                    out.append(d.ops[1])
        for k, o in enumerate(c.ops):
            if (c.callee, k) in vp:
                out.append(o)
        return out

    def versions(self, f):
        """Locals of f that hold the version compared."""
        k = f.__dict__.get("_vlocals")
        if k is None:
            k = set()
            for c in f.calls():
                for o in self.version_ops(f, c, self.vparams):
                    d = f.defs.get(vid(o)) if vid(o) is not None and vid(o) not in f.argids else None
                    if d is not None and d.op == "load" and vid(d.ops[0]) in f.defs and f.defs[vid(d.ops[0])].op == "alloca":
                        k.add(vid(d.ops[0]))
            f._vlocals = k
        return k

    def of(self, name, args, start):
        key = (name, args, start)
        if key not in self.memo:
            self.memo[key] = {}
            s = _Walk(self, self.P.funcs[name], args, start)
            self.fns.add(self.P.funcs[name].cname)
            s.go()
            out = {}
            for v, st, p in s.rets:
                out.setdefault((v, self.leave(name, st)), p)
            self.memo[key] = out
        return self.memo[key]

    def leave(self, name, st):
        f1 = ("=", self.F, 1) in st
        st = {x for x in st if not (isinstance(x, tuple) and x[0] == "K")}
        if "local" in st:
            st.discard("local")
            if not f1:
                st.discard("cand")
        if not f1 and name not in self.comparers:
            if ("=", self.C, 0) in st:
                st.discard(("=", self.C, 0))
                st.discard("cand")
        return frozenset(st)


class _Walk(Paths):
    def __init__(self, A, f, args, start):
        a = {("arg", k): v for k, v in enumerate(args) if v is not None and k < len(f.argids)}
        super().__init__(A.P, f, A.M, assume=a, start=start)
        self.A = A

    def put(self, st, cls, v):
        st = frozenset(x for x in st if not (isinstance(x, tuple) and x[0] == "=" and x[1] == cls))
        if v in (0, 1):
            st |= {("=", cls, v)}
        elif v == NZ:
            st |= {("=", cls, 1)}
        return st

    def visit(self, i, env, st):
        if i.op == "store":
            l = self.A.flags.loc(self.f, i.ops[1])
            if l is not None:
                v = self.num(strip(self.f, i.ops[0]), env)
                st = self.put(st, l, v)
                if l == self.A.F and v == 0:
                    st -= {"cand", "local"}      # rejected
        self.cur = st
        return st

    def load(self, i, env, st):
        A, f = self.A, self.f
        l = A.flags.loc(f, i.ops[0])
        if l is not None:
            for v in (0, 1):
                if ("=", l, v) in st:
                    return v
        fl = self.P.field(f, i.ops[0])
        if fl == ("find_program_iter_ctx", "version"):
            return NZ
        if fl is not None and fl[0] == "args_kw" and fl[1] in ("val", "set", "node"):
            b = i.ops[0]
            d = f.defs.get(vid(b)) if vid(b) is not None and vid(b) not in f.argids else None
            while d is not None and d.op == "getelementptr":
                b = d.d["base"]
                d = f.defs.get(vid(b)) if vid(b) is not None and vid(b) not in f.argids else None
            if d is not None and d.op == "load" and "version" in str((self.P.field(f, d.ops[0]) or ("", ""))[1]) \
                    or vid(b) in f.argids and "version" in f.argnames[f.argids.index(vid(b))]:
                return 1 if fl[1] == "set" else NZ
        if "version" in str((fl or ("", ""))[1]) and fl[0] == "dep_lookup_ctx":
            return NZ
        v = vid(i.ops[0])
        if v in A.versions(f):
            return NZ if ("K", v) in st else 0
        return super().load(i, env, st)

    def local(self, c):
        f = self.f
        for o in c.ops:
            v = vid(o)
            while v is not None and v not in f.argids and f.defs[v].op == "getelementptr":
                v = vid(f.defs[v].d["base"])
            if v is not None and v not in f.argids and f.defs[v].op == "alloca":
                return True
        return False

    def candidate(self, st, c, out=None):
        A = self.A
        A.srcs.add((self.f.cname, c.callee.split("@")[0], c.where()))
        st = frozenset(x for x in st if not (isinstance(x, tuple) and x[0] == "=" and x[1] == A.C)) | {"cand"}
        st -= {"local", "compared"}
        if self.local(c):
            st |= {"local"}
        return st

    def call(self, i, env, st):
        A, f, P = self.A, self.f, self.P
        for o in i.ops:
            if vid(o) in A.versions(f):
                st |= {("K", vid(o))}
        n = (i.callee or "").split("@")[0]
        if i.callee == A.cmpfn.name:
            A.cmps.add((f.cname, i.where()))
            return [(0, st), (1, self.put(st, A.C, 1) | {"compared"}), (1, self.put(st, A.C, 0) | {"compared"})]
        if n in A.sources:
            return [(0, st), (1, self.candidate(st, i))]
        if n == "obj_dict_index":
            d = f.defs.get(vid(i.ops[1])) if vid(i.ops[1]) is not None and vid(i.ops[1]) not in f.argids else None
            fl = P.field(f, d.ops[0]) if d is not None and d.op == "load" else None
            if fl is not None and fl[1].startswith("wrap_provides"):
                return [(0, st), (1, st)]
            s1 = self.candidate(st, i)
            if A.F[1] == "obj_subproject" and vid(i.ops[3]) in f.argids:
                s1 = self.put(s1, A.F, 1)       # the result is the one found before
            return [(0, st), (1, s1)]
        if n == "make_obj" and A.F[1] == "obj_subproject":
            t = kint(i.ops[2])
            if t == P.enum("obj_subproject"):
                if ("=", A.F, 1) in st:
                    st -= {"cand", "local"}     # rejected
                return [(None, self.put(st, A.F, 0))]
        cbs = [t for t in A.M.callbacks(i) if P.funcs[t] in A.scope] if i.callee else []
        g = P.funcs.get(i.callee)
        loc = frozenset(x for x in st if isinstance(x, tuple) and x[0] == "K")
        was = "local" in st
        inner = st - loc - {"local"}

        def back(s2):
            s2 = s2 | loc
            if "cand" in s2 and (was or self.local(i)):
                s2 |= {"local"}
            return s2
        if cbs:
            cont, err = P.enum("ir_cont"), P.enum("ir_err")
            seen, work, out = {inner}, [inner], {(1, inner)}
            while work:
                s = work.pop()
                for t in sorted(cbs):
                    for (v, s2) in A.of(t, (), s):
                        if v == err:
                            out.add((0, s2))
                            continue
                        out.add((1, s2))
                        if (v == cont or not isinstance(v, int)) and s2 not in seen:
                            seen.add(s2)
                            work.append(s2)
            return [(v, back(s)) for v, s in sorted(out, key=str)]
        if g is not None and g in A.scope:
            args = tuple(v if isinstance(v, int) or v == NZ else None for v in (self.ev(o, env) for o in i.ops))
            return sorted({(v, back(s2)) for v, s2 in A.of(g.name, args, inner)}, key=str)
        return super().call(i, env, st)


@prop("C35")
def adopted(P, R):
    R.rule("compared-before-found", "with a version requirement given, on every path on which a candidate (from the system, a cache, an override, a fallback, "
           "an earlier call) ends up found, the last candidate obtained was compared with the requirement and the comparison said yes")
    M = model(P)
    cmpfn = next((f for f in P.funcs.values() if f.cname == CMP and f.blocks), None)
    if cmpfn is None:
        raise AnalysisBroken("version_compare not found")
    for what, entry, flag, sources in FAMILIES:
        root = next((f for f in P.funcs.values() if f.cname == entry and f.blocks), None)
        if root is None:
            raise AnalysisBroken("%s not found" % entry)
        if flag[0] not in P.structs:
            raise AnalysisBroken("struct %s not found" % flag[0])
        A = Adopt(P, M, root, flag, sources, cmpfn)
        start = frozenset({("=", A.F, 0)})
        given = tuple(NZ if "version" in n else None for n in root.argnames)
        outs = A.of(root.name, given, start)
        good = 0
        for (v, st), path in sorted(outs.items(), key=str):
            if is_fail(M, root, v):
                continue
            f1 = ("=", A.F, 1) in st
            if f1 and "cand" in st:
                ok = ("=", A.C, 1) in st and "compared" in st
                good += ok
                R.check(ok, "%s:found-unchecked" % entry, root.loc(),
                        "%s: something is found that %s the version requirement" % (what, "does not meet" if ("=", A.C, 0) in st else "was not compared with"), path)
            else:
                R.check(True, "%s:state" % entry, root.loc(), "")
        if not A.srcs:
            raise AnalysisBroken("%s: no candidate found" % entry)
        for fn, src, where in sorted(A.srcs):
            R.check(True, "%s:%s:%s" % (entry, fn, src), where, "")
        R.check(good > 0, "%s:never-compared" % entry, root.loc(), "%s: nothing found is ever compared with the version requirement" % what)
        R.fn(*A.fns)


WANT = {">=": (0, 1, 1), ">": (0, 0, 1), "==": (0, 1, 0), "=": (0, 1, 0), "!=": (1, 0, 1), "<=": (1, 1, 0), "<": (1, 0, 0)}


@prop("C35")
def comparison(P, R):
    M = model(P)
    f = next((f for f in P.funcs.values() if f.cname == CMP and f.blocks), None)
    if f is None:
        raise AnalysisBroken("version_compare not found")
    cbs = {t for c in f.calls() for t in M.callbacks(c)}
    if not cbs:
        R.assume("version_compare does not go through a callback: how it treats lists of requirements is not decided")
        return
    R.rule("every-requirement", "a version that fails one of a list of requirements fails the list: the answer \"no\" ends the comparison and is what the caller gets")
    cont = P.enum("ir_cont")
    for n in sorted(cbs):
        g = P.funcs[n]
        fields = {P.field(g, i.ops[1]) for i in g.instrs() if i.op == "store"}
        fields = {x for x in fields if x and x[0] in P.structs and any(m[0] == x[1] and "_Bool" in (m[1] or "") for m in P.structs[x[0]]["fields"])}
        if len(fields) != 1:
            R.assume("%s: no single result field: not decided" % g.cname)
            continue
        fl = fields.pop()
        s = Paths(P, g, M, assume={fl: 0}).go()
        for v, st, p in s.rets:
            R.check(v != cont, "%s:continues" % g.cname, g.loc(), "the comparison goes on after a requirement that is not met: the last one decides", p)
        R.check(fl in s.used, "%s:ignored" % g.cname, g.loc(), "whether a requirement is met is not looked at before the next one is compared")
        out = [k for k in range(len(f.argids)) if len(f.ditypes) > k + 1 and "_Bool *" in (f.ditypes[k + 1] or "")]
        for val in (0, 1):
            got = []

            def ev(i, s, env):
                if i.op == "store" and vid(i.ops[1]) == f.argids[out[0]]:
                    x = s.num(strip(f, i.ops[0]), env)
                    got.append((1 if x == NZ else x, i))
                    return "-no" if x else "no"
            s = Paths(P, f, M, assume={fl: val}, events=ev)
            if out:
                s.go()
                for x, i in got:
                    R.check(x == val, "%s:answer:%d" % (f.cname, val), i.where(), "the caller gets %s when the comparison says %s" % (x, bool(val)))
                R.check(bool(got), "%s:no-answer:%d" % (f.cname, val), f.loc(), "no answer is handed to the caller")
        first = [kint(i.ops[0]) for i in f.instrs() if i.op == "store" and P.field(f, i.ops[1]) == fl]
        if None not in first:
            R.check(any(first), "%s:empty" % f.cname, f.loc(), "an empty list of requirements is not met by any version")
        R.fn(f.cname, g.cname)
        operators(P, R, M, g, fl)


def operators(P, R, M, g, fl):
    R.rule("operators", "each operator of a requirement (>=, >, ==, =, !=, <=, <, none) accepts exactly the outcomes of the comparison it names")
    R.assume("rpmvercmp orders versions (C42); decided here is what the operators make of its answer")
    call = next((c for c in g.calls() if "cmp" in (c.callee or "") and c.callee in P.funcs and P.funcs[c.callee].rettype() in ("int8_t", "int")), None)
    rows = []
    for gl in sorted(P.globals_used(g)):
        for r in (P.globals[gl].get("init") or {}).get("arr", []) if isinstance(P.globals[gl].get("init"), dict) else []:
            if isinstance(r, dict) and "arr" in r and len(r["arr"]) == 2 and isinstance(r["arr"][0], dict):
                name = r["arr"][0]
                name = cstr(name) or (cstr(name["arr"][0]) if name.get("arr") else None)
                n = r["arr"][0].get("arr", [None, None])[1] if isinstance(r["arr"][0], dict) and r["arr"][0].get("arr") else None
                k = kint(r["arr"][1]) if not isinstance(r["arr"][1], int) else r["arr"][1]
                if name and isinstance(k, int):
                    rows.append((name, n, k))
    phis = [i for i in g.instrs() if i.op == "phi" and any(kint(x) is not None for x, _ in i.ops) and any(
        g.defs.get(vid(x)) is not None and vid(x) not in g.argids and g.defs[vid(x)].op in ("load", "phi") for x, _ in i.ops)]
    phis = [i for i in phis if any(j.op in ("switch", "icmp") and vid(j.ops[0]) == i.id and (j.op == "switch" or j.d["pred"] in ("eq", "ne")) for j in g.instrs())]
    if call is None or not rows or len(phis) != 1:
        R.assume("%s: the table of operators was not recognised: not decided" % g.cname)
        return
    op = phis[0]
    seen = []
    for name, n, k in rows:
        R.check(not any(name.startswith(x) for x in seen), "operator:%s:order" % name, g.loc(), "the operator %s is taken for a shorter one tried before it" % name)
        R.check(n is None or n == len(name), "operator:%s:len" % name, g.loc(), "the operator %s is given the length %s" % (name, n))
        seen.append(name)
    dflt = {kint(x) for x, _ in op.ops if kint(x) is not None}
    for name, k in [(n, k) for n, _, k in rows] + [("", d) for d in sorted(dflt)]:
        want = WANT.get(name if name else "==")
        if want is None:
            continue
        for c, w in zip((-1, 0, 1), want):
            got = []

            def ev(i, s, env):
                if i.op == "store" and P.field(g, i.ops[1]) == fl:
                    x = s.num(strip(g, i.ops[0]), env)
                    got.append(1 if x == NZ else x)
            s = Paths(P, g, M, events=ev)
            ix = next(j for j, x in enumerate(g.blocks[call.bb]) if x.id == call.id)
            s.run(frozenset(), {op.id: k, call.id: c}, start=(call.bb, ix + 1))
            bad = [x for x in got if x is not None and x != w]
            if None in got:
                R.assume("operator %s: outcome not decided" % (name or "(none)"))
                continue
            R.check(got and not bad, "operator:%s:%d" % (name or "none", c), call.where(),
                    "a version that compares %s is %s by a requirement with the operator \"%s\"" % (
                        ("less", "equal", "greater")[c + 1], "accepted" if not w else "refused", name))
