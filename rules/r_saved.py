"""Saving, cloning and loading of script values (C18)."""
import re
from rules import prop
from sim import Sim, NZ
from prog import vid, kint, isnull, cstr, fnname, operands, AnalysisBroken
from rulelib import Paths, callee_in, is_fail
from rules.r_errprop import model

# kinds of values that every configured project may store
STORED = "null bool number string file array dict test install_target environment option feature_opt configuration_data".split()


def objtypes(P):
    """{enumerator without prefix: value} of the value types, in order."""
    for d in (dict(e["vals"]) for es in P.enums.values() for e in es):
        if "obj_build_target" in d and "obj_null" in d:
            return {k[4:]: v for k, v in d.items() if k.startswith("obj_") and k != "obj_type_count"}, d["obj_type_count"], d.get("_obj_aos_start", d.get("obj_number"))
    raise AnalysisBroken("the enumeration of value types was not found")


def accessors(P):
    """Functions that give out (or take) the storage of one type: {function name: (type number, 'struct x' or None, pointer result)}"""
    out = {}
    for f in P.funcs.values():
        gi = [c for c in f.calls() if callee_in(P, c, {"get_obj_internal"})]
        if len(gi) != 1 or len(f.argids) > 3 or len(list(f.calls())) > 3:
            continue
        k = kint(gi[0].ops[2]) if len(gi[0].ops) > 2 else None
        if k is None:
            continue
        rets = [i for i in f.instrs() if i.op == "ret" and i.ops]
        ptr = any(vid(i.ops[0]) == gi[0].id for i in rets)
        m = re.match(r"(?:const )?struct (\w+) \*$", f.rettype() or "")
        out[f.name] = (k, m.group(1) if m and ptr else None, ptr, gi[0])
    return out


class Clone(Sim):
    """Symbolic walk of the cloning function for one type of the value.

    Tokens: @+WS/@+WD the workspaces, @V the value, @+R the result slot,
    @N the new object, @+S/@+D the storage of the value / of the new object,
    @(S.field) a value read from the source, @C(x) a clone of x.
    State: frozenset of facts (target, value).
    """

    def __init__(self, P, f, M, t, acc):
        super().__init__(P, f)
        self.M, self.t, self.acc = M, t, acc
        self.rets = []
        self.cbs = []

    def outval(self, o, tok, env):
        """A value written through a pointer to a local: it stays until the local is stored to."""
        c = self.cell(o)
        if c is not None and not isinstance(c[0], tuple):
            env[("out", c)] = tok

    def setfact(self, st, k, v):
        return frozenset(x for x in st if x[0] != k) | {(k, v)}

    def fname(self, i, base):
        s = base
        for x in i.steps:
            if "f" in x:
                s += "." + x["f"]
            elif kint(x.get("idx")) != 0:
                return None
        return s

    def evi(self, i, env):
        if i.op == "getelementptr":
            b = self.ev(i.d["base"], env)
            if isinstance(b, str) and b[:3] in ("@+S", "@+D"):
                return self.fname(i, b) or NZ
        if i.op in ("trunc", "zext"):
            v = self.ev(i.ops[0], env)
            if isinstance(v, str) and v.startswith("@("):
                return v        # _Bool members
        return super().evi(i, env)

    def first(self, tok, size):
        """A load or store through a pointer to a structure is one of its first member."""
        if tok in ("@+S", "@+D") and self.acc.get("struct"):
            return tok + "." + self.P.structs[self.acc["struct"]]["fields"][0][0]
        return tok

    def load(self, i, env, st):
        p = self.ev(i.ops[0], env)
        if p == "@+R":
            return dict(st).get("ret")
        if isinstance(p, str) and p.startswith("@+S"):
            return "@(" + self.first(p, 0)[2:] + ")"
        if isinstance(p, str) and p.startswith("@+D"):
            v = dict(st).get(self.first(p, 0)[2:])
            return v if isinstance(v, str) and v.startswith("@") else None
        return env.get(("out", self.cell(i.ops[0])))

    def visit(self, i, env, st):
        if i.op != "store":
            return st
        env.pop(("out", self.cell(i.ops[1])), None)
        p, v = self.ev(i.ops[1], env), self.ev(i.ops[0], env)
        if p == "@+R":
            return self.setfact(st, "ret", v)
        if isinstance(p, str) and p.startswith("@+D"):
            return self.setfact(st, self.first(p, 0)[2:], v)
        if isinstance(p, str) and p.startswith("@+S"):
            return self.setfact(st, "changes", p)
        return st

    def refine(self, o, val, env, depth=0):
        v = vid(o)
        cur = env.get(v) if v is not None else None
        if isinstance(cur, str) and cur.startswith("@("):
            if val == 0:
                env[("zero", cur)] = 1
            return True
        return super().refine(o, val, env, depth)

    def call(self, i, env, st):
        P = self.P
        a = [self.ev(o, env) for o in i.ops]
        g = P.funcs.get(i.callee) if i.callee else None
        n = g.cname if g is not None else (i.callee or "")
        if n == "get_obj_type" and a[1] == "@V":
            return [(self.t, st)]
        if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove"):
            if isinstance(a[0], str) and a[0].startswith("@+D"):
                src = a[1] if isinstance(a[1], str) and a[1].startswith("@+S") and a[1][3:] == a[0][3:] else "?"
                for fl, dt in self.fields():
                    st = self.setfact(st, "D." + fl, "@(S.%s)" % fl if src != "?" and a[0] == "@+D" and isinstance(a[2], int) and a[2] >= P.structs[self.acc["struct"]]["size"] else "?")
            return [(None, st)]
        if n == "make_obj":
            if a[0] != "@+WD":
                return [(None, self.setfact(st, "ret", "?"))]
            tok = "@N" if a[2] == self.t else "?"
            if a[1] == "@+R":
                return [(None, self.setfact(st, "ret", tok))]
            self.outval(i.ops[1], tok, env)
            return [(None, st)]
        if n == "str_clone":
            return [("@C%s" % a[2][1:] if a[0] == "@+WS" and a[1] == "@+WD" and isinstance(a[2], str) and a[2].startswith("@") else None, st)]
        if g is not None and g.name == self.f.name:
            tok = "@C%s" % a[2][1:] if a[0] == "@+WS" and a[1] == "@+WD" and isinstance(a[2], str) and a[2].startswith("@(") else "?"
            if isinstance(a[3], str) and a[3].startswith("@+D"):
                return [(1, self.setfact(st, self.first(a[3], 0)[2:], tok)), (0, st)]
            if a[3] == "@+R":
                return [(1, self.setfact(st, "ret", tok)), (0, st)]
            e = [(1, st), (0, st)]
            self.outval(i.ops[3], tok, env)
            return e
        if g is not None and g.name in self.acc["all"]:
            k, s, ptr, _ = self.acc["all"][g.name]
            if k == self.t:
                if a[0] == "@+WS" and a[1] == "@V":
                    return [("@+S" if ptr else "@(S)", st)]
                if a[0] == "@+WD" and a[1] == "@N":
                    if ptr:
                        return [("@+D", st)]
                    return [(None, self.setfact(st, "D", a[2] if len(a) > 2 else "?"))]
            return [(None, st)]
        if len(a) >= 2 and n.startswith("get_obj_") and a[0] == "@+WS" and a[1] == "@V":
            return [("@(S)", st)]
        if n.startswith("set_obj_") and a[0] == "@+WD" and a[1] == "@N":
            return [(None, self.setfact(st, "D", a[2]))]
        if n in ("obj_array_foreach", "obj_dict_foreach"):
            fn = fnname(i.ops[3]) if len(i.ops) > 3 else None
            if a[0] == "@+WS" and a[1] == "@V" and fn:
                self.cbs.append((i, fn, dict(env), st))
                return [(1, self.setfact(st, "elements", "@" + n)), (0, st)]
            return [(None, st)]
        v = self.M.const_ret(i.callee)
        return [(v, st)]

    def fields(self):
        s = self.acc.get("struct")
        return [(x[0], x[1]) for x in self.P.structs[s]["fields"]] if s else []

    def ret(self, i, val, env, st):
        if val == 0:
            return
        self.rets.append((val, st, {k[1] for k in env if isinstance(k, tuple) and k[0] == "zero"}, self.path(self.node)))


@prop("C18")
def clone(P, R):
    M = model(P)
    types, count, aos = objtypes(P)
    acc = accessors(P)
    f = P.fn("obj_clone")
    R.fn(f.name)
    R.rule("cloned", "for every type of value the cloning function (used for saving and loading) either copies every field from the same field of the source, references by cloning what they refer to, or reports failure")
    structof = {}
    for k, s, ptr, _ in acc.values():
        if s:
            structof[k] = s
    ok = set()
    for n, t in sorted(types.items(), key=lambda x: x[1]):
        s = Clone(P, f, M, t, {"all": acc, "struct": structof.get(t)})
        s.run(frozenset(), {f.argids[0]: "@+WS", f.argids[1]: "@+WD", f.argids[2]: "@V", f.argids[3]: "@+R"})
        if not s.rets:
            if n in STORED:
                R.check(False, "handled:" + n, f.loc(), "values of type %s, which are part of the saved state, cannot be cloned" % n)
            else:
                R.check(True, "rejected:" + n, f.loc(), "")
            continue
        ok.add(n)
        if n in ("array", "dict"):
            elements(P, R, f, s, n, types)
            continue
        flds = s.fields() if n not in ("string", "file", "number", "bool", "feature_opt", "null") else []
        for val, st, zero, path in s.rets:
            d = dict(st)
            R.check("changes" not in d, "source:%s" % n, f.loc(), "cloning a %s changes the original" % n, path)
            if n == "null":
                R.check(d.get("ret") == 0, "ret:" + n, f.loc(), "the clone of nothing is not nothing", path)
                continue
            if n == "string":
                R.check(d.get("ret") in ("@CV",), "ret:" + n, f.loc(), "the clone of a string is not made from it", path)
                continue
            R.check(d.get("ret") == "@N", "ret:" + n, f.loc(), "cloning a %s succeeds without giving back a new object of that type" % n, path)
            if n == "file":
                R.check(d.get("D") == "@C(S)", "value:" + n, f.loc(), "the clone of a file does not get a clone of its path", path)
                continue
            if not flds:
                R.check(d.get("D") == "@(S)", "value:" + n, f.loc(), "the clone of a %s does not get its value" % n, path)
                continue
            for fl, dt in flds:
                v = d.get("D." + fl)
                src = "(S.%s)" % fl
                if dt == "obj":
                    good = v == "@C" + src or (v == "@" + src and "@" + src in zero) or (v in (None, 0) and "@" + src in zero)
                    R.check(good, "field:%s.%s" % (n, fl), f.loc(), "%s: the field %s of the clone does not refer to a clone of what the original refers to%s" % (
                        n, fl, " but to the same object number in another workspace" if v == "@" + src else ""), path)
                else:
                    R.check("*" not in dt, "pointer:%s.%s" % (n, fl), f.loc(), "%s.%s is an address, which means nothing in the saved state" % (n, fl))
                    R.check(v == "@" + src, "field:%s.%s" % (n, fl), f.loc(), "the field %s of a %s is not copied" % (fl, n), path)
    for n in STORED:
        R.check(n in ok, "stored:" + n, f.loc(), "values of type %s, which are part of the saved state, cannot be cloned" % n)


class Elem(Sim):
    """Walk of the callback that clones one element. State: (facts)"""

    def __init__(self, P, f, M, clonefn):
        super().__init__(P, f)
        self.M, self.clonefn = M, clonefn
        self.rets = []

    def load(self, i, env, st):
        fl = self.P.field(self.f, i.ops[0])
        if fl and fl[0] == "obj_clone_ctx":
            return "@+" + fl[1]
        p = i.ops[0]
        return env.get(("out", self.cell(p)))

    def visit(self, i, env, st):
        if i.op == "store":
            env.pop(("out", self.cell(i.ops[1])), None)
        return st

    def call(self, i, env, st):
        P = self.P
        a = [self.ev(o, env) for o in i.ops]
        g = P.funcs.get(i.callee) if i.callee else None
        n = g.cname if g is not None else (i.callee or "")
        if g is not None and g.name == self.clonefn:
            good = a[0] == "@+WS" and a[1] == "@+wk_dest" and isinstance(a[2], str)
            c = self.cell(i.ops[3])
            if c is not None and good:
                env[("out", c)] = "@C" + a[2].lstrip("@+")
            return [(1, st), (0, st | {"failed"})]
        if n in ("obj_array_push", "obj_dict_set"):
            return [(None, st | {("put", n, tuple(a), sum(1 for x in st if isinstance(x, tuple)))})]
        if n == "get_obj_type":
            return [(None, st)]
        return [(self.M.const_ret(i.callee), st)]

    def ret(self, i, val, env, st):
        self.rets.append((val, st, self.path(self.node)))


def elements(P, R, f, s, n, types):
    M = model(P)
    for val, st, zero, path in s.rets:
        d = dict(st)
        R.check(d.get("ret") == "@N", "ret:" + n, f.loc(), "cloning a %s succeeds without giving back a new %s" % (n, n), path)
        R.check(d.get("elements") == "@obj_%s_foreach" % n, "elements:" + n, f.loc(), "cloning a %s succeeds without going through its elements" % n, path)
        if n == "dict":
            pass
    for c, fn, env, st in s.cbs:
        d = dict(st)
        ctxv = vid(c.ops[2])
        store = {}
        for i in f.instrs():
            if i.op == "store" and i.bb == c.bb:
                fl = P.field(f, i.ops[1])
                if fl and fl[0] == "obj_clone_ctx":
                    store[fl[1]] = i.ops[0]
        cb = P.funcs[fn]
        R.fn(cb.name)
        good = s.ev(store.get("wk_dest"), env) == "@+WD" if "wk_dest" in store else False
        R.check(good, "ctx:" + n, c.where(), "the elements of the %s are not cloned into the target workspace" % n)
        e = Elem(P, cb, M, f.name)
        names = ["@E%d" % k for k in range(len(cb.argids))]
        env0 = {x: names[k] for k, x in enumerate(cb.argids)}
        env0[cb.argids[0]] = "@+WS"
        e.run(frozenset(), env0)
        want = {"array": ("obj_array_push", ("@+wk_dest", "@+container", "@CE2")),
                "dict": ("obj_dict_set", ("@+wk_dest", "@+container", "@CE2", "@CE3"))}[n]
        err = P.enum("ir_err")
        for val, st2, path in e.rets:
            if val == err:
                R.check("failed" in st2, "stop:" + n, cb.loc(), "an element of a %s that can be cloned is treated as a failure" % n, path)
                continue
            puts = [x for x in st2 if isinstance(x, tuple)]
            R.check("failed" not in st2, "failed:" + n, cb.loc(), "an element of a %s that cannot be cloned is left out without an error" % n, path)
            R.check(val == P.enum("ir_cont"), "continue:" + n, cb.loc(), "cloning a %s stops after an element without an error" % n, path)
            R.check(len(puts) == 1 and puts[0][1] == want[0] and puts[0][2] == want[1], "element:" + n, cb.loc(),
                    "an element of a %s is not put into the clone exactly once" % n, path)


class IO(Sim):
    """What a successful run of a function writes to (or reads from) the file, in order.

    State: tuple of atoms; a number is that many bytes, 'v' a run of variable length.
    """
    CAP = 7

    def __init__(self, P, f, M, T, prim, memo):
        super().__init__(P, f)
        self.M, self.T, self.prim, self.memo = M, T, prim, memo
        self.out = set()
        self.readto = set()
        for c in f.calls():
            if callee_in(P, c, {"fs_fread"}) and kint(c.ops[1]) == 1:
                v = vid(c.ops[0])
                if v is not None and v not in f.argids and f.defs[v].op == "alloca":
                    self.readto.add(v)

    def load(self, i, env, st):
        if self.P.field(self.f, i.ops[0]) == ("obj_internal", "t"):
            return self.T
        if vid(i.ops[0]) in self.readto:
            return self.T
        return None

    def cat(self, st, more):
        for a in more:
            if a == "v" and st and st[-1] == "v":
                continue
            st = st + (a,)
        return st

    def call(self, i, env, st):
        P = self.P
        g = P.funcs.get(i.callee) if i.callee else None
        n = g.cname if g is not None else (i.callee or "")
        if n in ("fs_fwrite", "fs_fread"):
            k = self.ev(i.ops[1], env)
            if "skip" in st:
                return [(1, st)]
            st = self.cat(st, (k if isinstance(k, int) else "v",))
            return [(1, st)] if len(st) <= self.CAP else []
        if n == "fs_fseek":
            return [(1, st[:-1] if "skip" in st else st + ("skip",))]
        if n == "fs_ftell":
            return [(1, st)]
        if g is not None and g.name in self.prim and g.name != self.f.name:
            if "skip" in st:
                return [(1, st)]
            fld = ()
            for o in i.ops:
                fl = addrfield(P, self.f, o)
                if fl and fl[0] == "workspace":
                    fld = (fl[1],)
            r = []
            for t in trace(P, g, self.M, self.T, self.prim, self.memo):
                r.append((1, self.cat(st, fld + t)))
            return r
        return [(self.M.const_ret(i.callee), st)]

    def ret(self, i, val, env, st):
        if val != 0:
            self.out.add(tuple(x for x in st if x != "skip"))


def addrfield(P, f, o):
    """(struct, field) whose address o is."""
    v = vid(o)
    if v is None or v in f.argids or f.defs[v].op != "getelementptr":
        return None
    s = [x for x in f.defs[v].steps if "f" in x]
    return (s[0]["s"], s[0]["f"]) if s else None


def trace(P, f, M, T, prim, memo):
    k = (f.name, T)
    if k not in memo:
        memo[k] = set()
        s = IO(P, f, M, T, prim, memo)
        if f.cname in ("serial_dump", "serial_load"):
            s.CAP = 60
        s.run((), {})
        memo[k] = s.out
    return memo[k]


def doers(P, f, names):
    """Functions called from f (inclusive) that reach one of names."""
    out = set()
    seen = P.reach([f.name])
    for n in seen:
        g = P.funcs.get(n)
        if g is not None and g.cname not in names and any(P.funcs[x].cname in names for x in P.reach([n]) if x in P.funcs):
            out.add(n)
    return out


def show(ts):
    return " | ".join(",".join(map(str, t)) for t in sorted(ts, key=str)[:3])


@prop("C18")
def layout(P, R):
    M = model(P)
    types, count, aos = objtypes(P)
    d, l = P.fn("serial_dump"), P.fn("serial_load")
    R.rule("layout", "what loading reads is, section by section and for every type of value, what saving writes: same order, same sizes")
    R.rule("tables", "the storage of every type is as large as the structure its accessor gives out")
    wr, rd = {x for x in doers(P, d, {"fs_fwrite"})}, {x for x in doers(P, l, {"fs_fread"})}
    isfile = lambda n: any("FILE" in (t or "") or "_IO_FILE" in (t or "") for t in P.funcs[n].ditypes)
    wr, rd = {n for n in wr if isfile(n)}, {n for n in rd if isfile(n)}
    for n in wr | rd:
        R.fn(n)
    mw, mr = {}, {}
    R.rule("layout", "what loading reads is, section by section and for every type of value, what saving writes: same order, same sizes")
    for n, t in sorted(types.items(), key=lambda x: x[1]):
        if n.startswith("_"):
            continue
        a, b = trace(P, d, M, t, wr, mw), trace(P, l, M, t, rd, mr)
        if not a or not b:
            raise AnalysisBroken("no successful path through serial_dump or serial_load")
        a2, b2 = a - b, b - a
        # loading returns early when there is nothing: a prefix of the other form
        R.check(not a2 and not b2, "layout:" + n, d.loc(), "with a value of type %s saving writes %s but loading reads %s" % (n, show(a2) or show(a), show(b2) or show(b)))
    sizes(P, R, types, count, aos)


def sizes(P, R, types, count, aos):
    R.rule("tables", "the storage of every type is as large as the structure its accessor gives out")
    tab = None
    for f in P.funcs.values():
        for c in f.calls():
            if not callee_in(P, c, {"bucket_arr_init"}):
                continue
            if kint(c.ops[2]) is not None:
                continue
            v = vid(c.ops[2])
            if v is None or v in f.argids or f.defs[v].op != "load":
                continue
            a = vid(f.defs[v].ops[0])
            base, off = None, 0
            for _ in range(4):
                if a is None or a in f.argids:
                    break
                g = f.defs[a]
                if g.op == "alloca":
                    base = g
                    break
                if g.op != "getelementptr":
                    break
                for s in g.steps:
                    if "fi" in s and not (s.get("s") or "").startswith("workspace"):
                        off = s["fi"]
                a = vid(g.d["base"])
                if a is None and isinstance(g.d["base"], dict) and "g" in g.d["base"]:
                    base = g.d["base"]["g"]
            if base is None:
                continue
            if not isinstance(base, str):
                src = [i.ops[1].get("g") for i in f.calls() if (i.callee or "").startswith("llvm.memcpy") and vid(i.ops[0]) == base.id and isinstance(i.ops[1], dict)]
                base = src[0] if src else None
            if base and base in P.globals:
                tab = (f, c, P.globals[base]["init"], off)
    if tab is None:
        raise AnalysisBroken("the table of sizes per type was not found")
    f, c, init, off = tab
    R.fn(f.name)
    rows = flatrows(init)
    acc = {}
    for n, (k, s, ptr, call) in accessors(P).items():
        g = P.funcs[n]
        need = None
        m = re.match(r"(?:const )?(struct \w+) \*$", g.rettype() or "")
        if m and ptr:
            need = P.structs[m.group(1)[7:]]["size"]
        else:
            for i in g.instrs():
                if i.op in ("load", "store") and vid(i.ops[-1] if i.op == "store" else i.ops[0]) == call.id:
                    need = max(need or 0, {"i64": 8, "i32": 4, "i8": 1, "ptr": 8}.get(i.ty if i.op == "load" else i.d.get("vty"), 0))
        if need:
            acc.setdefault(k, []).append((n, need))
    for n, t in sorted(types.items(), key=lambda x: x[1]):
        if n.startswith("_") or t < aos:
            continue
        r = rows.get(t)
        R.check(r is not None and isinstance(r.get(off), int) and r[off] > 0 and all(isinstance(x, int) and x > 0 for x in r.values()), "size:" + n, c.where(), "type %s has no storage size" % n)
        for g, need in acc.get(t, []):
            R.check(r is not None and r.get(off, 0) == need, "size:%s" % n, c.where(), "the storage of a %s has %s bytes, but %s() gives out %d" % (n, r.get(off) if r else None, g.split("@")[0], need))
        if t not in acc:
            R.check(True, "noaccessor:" + n, c.where(), "")


def flatrows(init):
    rows = {}
    es = init.get("arr") or init.get("elems") or init.get("agg") if isinstance(init, dict) else init
    for k, e in enumerate(es or []):
        fs = e.get("arr") or e.get("elems") or e.get("agg") or e.get("struct") if isinstance(e, dict) else e
        if isinstance(fs, list):
            rows[k] = {j: x if isinstance(x, int) else kint(x) for j, x in enumerate(fs)}
    return rows


def origin(P, f, o):
    """(struct, field) a value was loaded from, looking through widening and narrowing."""
    for _ in range(6):
        v = vid(o)
        if v is None or v in f.argids:
            return None
        d = f.defs[v]
        if d.op in ("zext", "sext", "trunc", "freeze"):
            o = d.ops[0]
        elif d.op == "load":
            return P.field(f, d.ops[0])
        else:
            return None
    return None


def same(f, a, b, depth=0):
    """The same expression over the same loads?"""
    if depth > 8:
        return False
    ka, kb = kint(a), kint(b)
    if ka is not None or kb is not None:
        return ka == kb
    va, vb = vid(a), vid(b)
    if va is None or vb is None:
        return a == b
    if va == vb:
        return True
    if va in f.argids or vb in f.argids:
        return False
    x, y = f.defs[va], f.defs[vb]
    while x.op in ("zext", "sext", "trunc") and vid(x.ops[0]) is not None and vid(x.ops[0]) not in f.argids:
        x = f.defs[vid(x.ops[0])]
    while y.op in ("zext", "sext", "trunc") and vid(y.ops[0]) is not None and vid(y.ops[0]) not in f.argids:
        y = f.defs[vid(y.ops[0])]
    if x.id == y.id:
        return True
    if x.op != y.op or x.op in ("call", "phi", "alloca"):
        return False
    if x.op == "getelementptr":
        return [(s.get("s"), s.get("f"), kint(s.get("idx"))) for s in x.steps] == [(s.get("s"), s.get("f"), kint(s.get("idx"))) for s in y.steps] and same(f, x.d["base"], y.d["base"], depth + 1)
    if len(x.ops) != len(y.ops):
        return False
    if all(same(f, p, q, depth + 1) for p, q in zip(x.ops, y.ops)):
        return True
    return x.op in ("add", "mul") and same(f, x.ops[0], y.ops[1], depth + 1) and same(f, x.ops[1], y.ops[0], depth + 1)


class Flagged(Sim):
    """Walk with the flags of every string known; counts table uses."""

    def __init__(self, P, f, M, src, val, idx):
        super().__init__(P, f)
        self.M, self.src, self.val, self.idx = M, src, val, idx
        self.order, self.left = [], []
        self.expect = ()

    def load(self, i, env, st):
        return self.val if self.P.field(self.f, i.ops[0]) == self.src else None

    def visit(self, i, env, st):
        if i.op == "load" and self.P.field(self.f, i.ops[0]) == self.src and self.expect:
            return (st[0], 1)
        return st

    def ret(self, i, val, env, st):
        if st[1] and val != 0:
            self.left.append(self.path(self.node))

    def call(self, i, env, st):
        l = label(self.P, self.f, i)
        if l:
            self.order.append((l, i, self.ev(i.ops[1], env) if l == "use" else None, st[0], self.path(self.node)))
            if l == "use":
                st = (min(st[0] + 1, 3), st[1])
            if l in self.expect:
                st = (st[0], 0)
        elif st[1] and callee_in(self.P, i, {"bucket_arr_get"}) and addrfield(self.P, self.f, i.ops[0]) != ("workspace", "chrs"):
            self.left.append(self.path(self.node))
            st = (st[0], 0)
        n = self.P.funcs[i.callee].cname if i.callee in self.P.funcs else ""
        if n in ("fs_fwrite", "fs_fread", "fs_fseek", "fs_ftell") or n.startswith(("dump_", "load_", "get_big")):
            return [(1, st)]
        return [(self.M.const_ret(i.callee), st)]


def label(P, f, c):
    g = P.funcs.get(c.callee) if c.callee else None
    n = g.cname if g is not None else (c.callee or "")
    if n == "fs_fwrite" and origin(P, f, c.ops[0]) == ("str", "s"):
        return "text"
    if n == "arr_push":
        return "offset"
    if n == "arr_get" and "struct arr *" in (P.ditype(f, c.ops[0]) or ""):
        return "use"
    if n == "bucket_arr_lookup_pointer":
        return "pool"
    return None


@prop("C18")
def strings(P, R):
    M = model(P)
    d, l = P.fn("serial_dump"), P.fn("serial_load")
    R.rule("strings", "a string is saved with its text, length and flags: long strings into, and out of, the table of long strings, the others in the pool of characters, each decided by the same flag")
    wr = [P.funcs[n] for n in P.reach([d.name]) if n in P.funcs and P.funcs[n].file == d.file]
    rd = [P.funcs[n] for n in P.reach([l.name]) if n in P.funcs and P.funcs[n].file == l.file]
    for fs, to, frm in ((wr, "serial_str", "str"), (rd, "str", "serial_str")):
        found = 0
        for f in fs:
            got = {}
            for i in f.instrs():
                if i.op == "store":
                    fl = P.field(f, i.ops[1])
                    if fl and fl[0] == to and not (isinstance(i.ops[0], dict) and i.ops[0].get("undef")):
                        got.setdefault(fl[1], []).append(i)
            if not got.get("len") and not got.get("flags") and not got.get("s"):
                continue
            if to == "str" and not any(P.field(f, i.ops[0]) and P.field(f, i.ops[0])[0] == frm for i in f.instrs() if i.op == "load"):
                continue
            R.fn(f.name)
            for m in ("s", "len", "flags"):
                R.check(bool(got.get(m)), "member:%s.%s@%s" % (to, m, f.cname), f.loc(), "%s does not set %s.%s" % (f.cname, to, m))
            for m in ("len", "flags"):
                for i in got.get(m, []):
                    found += 1
                    R.check(origin(P, f, i.ops[0]) == (frm, m), "member:%s.%s@%s" % (to, m, f.cname), i.where(), "%s.%s is not set from %s.%s" % (to, m, frm, m))
        if not found:
            raise AnalysisBroken("no function converts between str and serial_str")
    big = P.enum("str_flag_big")
    labels = set()
    for f in wr:
        if not any(P.field(f, i.ops[0]) == ("str", "flags") for i in f.instrs() if i.op == "load"):
            continue
        ls = {label(P, f, c) for c in f.calls()} - {None}
        if not ls & {"text", "use", "pool"}:
            continue
        R.fn(f.name)
        for val in range(4):
            s = Flagged(P, f, M, ("str", "flags"), val, None)
            s.expect = {"use", "pool"} & ls or ({"text"} if val & big else set())
            s.run((0, 0), {})
            R.check(not s.left, "left:%d@%s" % (val, f.cname), f.loc(), "a string with flags %d can be left out of the saved state" % val, s.left[0] if s.left else None)
            seen = {x[0] for x in s.order}
            labels |= seen
            want = (ls & {"text", "offset", "use"}) if val & big else (ls & {"pool"})
            R.check(seen == want, "flag:%d@%s" % (val, f.cname), f.loc(), "a string with flags %d is saved like a %s one (%s)" % (val, "short" if val & big else "long", ", ".join(sorted(seen ^ want))))
            for lab, c, ix, n, path in s.order:
                if lab == "use":
                    R.check(ix == n or ix == NZ and n > 1, "index@%s" % f.cname, c.where(), "the %d. long string takes its place in the table from entry %s" % (n, ix), path)
                    # with only short strings the counter must not move
                    v = vid(c.ops[1])
                    while v is not None and v not in f.argids and f.defs[v].op in ("zext", "sext"):
                        v = vid(f.defs[v].ops[0])
                    if v is not None and v not in f.argids and f.defs[v].op == "phi":
                        z = Still(P, f, M, v)
                        z.run(0, {})
                        R.check(not z.bad, "counter@%s" % f.cname, f.loc(), "a short string moves on in the table of long strings", z.bad[0] if z.bad else None)
        # the recorded offset advances by what is written
        if "text" in ls:
            for c in f.calls():
                if label(P, f, c) != "offset":
                    continue
                a = vid(c.ops[1])
                sts = [i for i in f.instrs() if i.op == "store" and vid(i.ops[1]) == a and kint(i.ops[0]) is None]
                w = [x for x in f.calls() if label(P, f, x) == "text"]
                ok = bool(sts)
                for i in sts:
                    x = f.defs.get(vid(i.ops[0]))
                    ok = ok and x is not None and x.op == "add" and any(
                        f.defs.get(vid(p)) is not None and f.defs[vid(p)].op == "load" and vid(f.defs[vid(p)].ops[0]) == a and all(same(f, q, y.ops[1]) for y in w)
                        for p, q in ((x.ops[0], x.ops[1]), (x.ops[1], x.ops[0])) if vid(p) is not None)
                R.check(ok, "offset@%s" % f.cname, c.where(), "the offset of the next long string does not advance by the length written")
                for y in w:
                    x = f.defs.get(vid(y.ops[1]))
                    while x is not None and x.op in ("zext", "sext"):
                        x = f.defs.get(vid(x.ops[0]))
                    R.check(x is not None and (origin(P, f, y.ops[1]) == ("str", "len") or x.op == "add" and any(origin(P, f, p) == ("str", "len") for p in x.ops)),
                            "text@%s" % f.cname, y.where(), "the text written is not as long as the string")
    for x in ("text", "offset", "use", "pool"):
        if x not in labels:
            raise AnalysisBroken("saving of strings not recognised (%s)" % x)
    n = 0
    for f in rd:
        if not any(P.field(f, i.ops[0]) == ("serial_str", "flags") for i in f.instrs() if i.op == "load"):
            continue
        pool = [c for c in f.calls() if callee_in(P, c, {"bucket_arr_get"}) and addrfield(P, f, c.ops[0]) == ("workspace", "chrs")]
        if not pool:
            continue
        n += 1
        R.fn(f.name)
        own = [c for c in f.calls() if any(P.field(f, i.ops[0]) == ("big_string_table", "data") for g in P.direct_targets(c) if g in P.funcs for f in [P.funcs[g]] for i in f.instrs() if i.op == "load")]
        for val in range(4):
            hits = set()

            def ev(i, s, env):
                if i.op == "call" and i in pool:
                    hits.add("pool")
                if i.op == "call" and i in own:
                    hits.add("table")
            Paths(P, f, M, assume={("serial_str", "flags"): val}, events=ev, results=lambda c: [1] if callee_in(P, c, {"fs_fread", "load_uint32"}) else None).go()
            R.check(hits == ({"table"} if val & big else {"pool"}), "flag:%d@%s" % (val, f.cname), f.loc(), "a string with flags %d is loaded from the %s" % (val, "/".join(sorted(hits))))
    if not n:
        raise AnalysisBroken("loading of strings not recognised")


class Still(Sim):
    """Does a counter stay put while every string is a short one?"""

    def __init__(self, P, f, M, phi):
        super().__init__(P, f)
        self.M, self.phi, self.bad = M, phi, []

    def load(self, i, env, st):
        return 0 if self.P.field(self.f, i.ops[0]) == ("str", "flags") else None

    def call(self, i, env, st):
        if env.get(self.phi, 0) != 0:
            self.bad.append(self.path(self.node))
        return [(self.M.const_ret(i.callee), st)]


@prop("C18")
def bigdict(P, R):
    M = model(P)
    R.rule("dict-form", "a dictionary that is cloned keeps the form whose elements are saved, however many elements it has")
    types, count, aos = objtypes(P)
    f = P.fn("obj_clone")
    s = Clone(P, f, M, types["dict"], {"all": accessors(P), "struct": "obj_dict"})
    base = s.load
    s.load = lambda i, env, st: (base(i, env, st) if base(i, env, st) is not None else 0 if s.ev(i.ops[0], env) == "@+D.flags" else None)
    s.run(frozenset(), {f.argids[0]: "@+WS", f.argids[1]: "@+WD", f.argids[2]: "@V", f.argids[3]: "@+R"})
    if not s.cbs:
        raise AnalysisBroken("cloning of dictionaries not recognised")
    setters = [P.funcs[n] for n in P.reach([P.fn("obj_dict_set").name]) if n in P.funcs and any(
        i.op == "store" and P.field(P.funcs[n], i.ops[1]) == ("obj_dict", "flags") for i in P.funcs[n].instrs())]
    if not setters:
        R.check(True, "one-form", P.fn("obj_dict_set").loc(), "")
    for g in setters:
        R.fn(g.name)
        for c, fn, env, st in s.cbs:
            k = dict(st).get("D.flags", 0)
            hit = []

            def ev(i, sm, e):
                if i.op == "store" and P.field(g, i.ops[1]) == ("obj_dict", "flags"):
                    hit.append(sm.path(sm.node))
                if i.op == "call" and any(addrfield(P, g, o) == ("workspace", "dict_hashes") for o in i.ops) and not callee_in(P, i, {"bucket_arr_get"}):
                    hit.append(sm.path(sm.node))
            Paths(P, g, M, assume={("obj_dict", "flags"): k} if isinstance(k, int) else None, events=ev).go()
            R.check(not hit, "form@%s" % g.cname, c.where(), "adding the elements of a large dictionary to its clone turns the clone into a hash table, which is not part of the saved state", hit[0] if hit else None)


def stripv(f, o):
    v = vid(o)
    while v is not None and v not in f.argids and f.defs[v].op in ("zext", "sext", "trunc", "freeze", "sitofp"):
        o = f.defs[v].ops[0]
        v = vid(o)
    return o


def rowname(P, f, p):
    """Keyword name of the row of a keyword table that p points into."""
    from rules.r_tables import image
    v, k, base = vid(p), None, None
    for _ in range(4):
        if v is None or v in f.argids:
            return None
        d = f.defs[v]
        if d.op == "alloca":
            base = d
            break
        if d.op != "getelementptr":
            return None
        for s in d.steps:
            if "idx" in s and kint(s["idx"]) is not None and (s.get("ety") or "").startswith("%struct.args_kw"):
                k = kint(s["idx"])
        v = vid(d.d["base"])
    if base is None or "args_kw" not in (base.d.get("dt") or ""):
        return None
    init, rows = image(P, f, base)
    nm = None
    if isinstance(init, dict):
        r = P.typed_init(init, base.d["dt"].replace("const ", ""))
        if isinstance(r, list) and (k or 0) < len(r) and isinstance(r[k or 0], dict):
            nm = r[k or 0].get("key")
            nm = nm.get("str") if isinstance(nm, dict) else nm
    o = rows.get(k or 0, {}).get(0)
    if o is not None:
        nm = cstr(o) or nm
    return ("keyword", nm) if nm else None


def source(P, f, o, depth=0):
    """What a value put into the saved state is."""
    o = stripv(f, o)
    v = vid(o)
    if v is None or v in f.argids or depth > 4:
        return None
    d = f.defs[v]
    if d.op == "load":
        a = vid(d.ops[0])
        if a is not None and a not in f.argids and f.defs[a].op == "alloca" and "args_kw" not in (f.defs[a].d.get("dt") or ""):
            for c in f.calls():
                if any(vid(x) == a for x in c.ops):
                    if callee_in(P, c, {"get_option_value"}) and cstr(c.ops[2]):
                        return ("option", cstr(c.ops[2]))
                    for x in c.ops:
                        s = rowname(P, f, x) or (source(P, f, x, depth + 1) if vid(x) != a else None)
                        if s and s[0] == "keyword":
                            return s
            return ("local", a)
        fl = P.field(f, d.ops[0])
        if fl and fl[0] == "args_kw":
            return rowname(P, f, d.ops[0])
        return fl
    if d.op == "call":
        for x in d.ops[1:]:
            s = source(P, f, x, depth + 1)
            if s:
                return s
    return None


class Pushes(Sim):
    """Order of what is put into each local array. State: tuple of (alloca, source)."""

    def __init__(self, P, f, M):
        super().__init__(P, f)
        self.M, self.done = M, []

    def call(self, i, env, st):
        n = self.P.funcs[i.callee].cname if i.callee in self.P.funcs else i.callee or ""
        if n == "make_obj":
            v = vid(i.ops[1])
            return [(None, tuple(x for x in st if x[0] != v))]
        if n == "obj_array_push":
            s = source(self.P, self.f, i.ops[1])
            if s and s[0] == "local" and len(st) < 16:
                return [(None, st + ((s[1], source(self.P, self.f, i.ops[2])),))]
            if s and s[0] != "local":
                self.done.append((s, source(self.P, self.f, i.ops[2]), st))
        if n in ("serial_dump", "obj_dict_set"):
            s = source(self.P, self.f, i.ops[1 if n == "serial_dump" else 3])
            self.done.append((n, s, st))
        return [(self.M.const_ret(i.callee), st)]


def layouts(P, f, M):
    """Arrays that leave f (saved, or put into another container): set of tuples of sources."""
    s = Pushes(P, f, M)
    s.run((), {})
    out = set()
    for what, o, st in s.done:
        if o and o[0] == "local":
            out.add(tuple(x[1] for x in st if x[0] == o[1]))
    return {x for x in out if x}


def sinks(P, f, dst):
    """What the reader does with an element stored at dst."""
    fl = addrfield(P, f, dst)
    v = vid(dst)
    if v is not None and v not in f.argids and f.defs[v].op == "getelementptr":
        x = [s for s in f.defs[v].steps if "f" in s]
        if x:
            return {(x[-1]["s"], x[-1]["f"])}
    out = set()
    if v is None or v in f.argids:
        return out
    vals = {i.id for i in f.instrs() if i.op == "load" and vid(i.ops[0]) == v}
    for _ in range(4):
        for i in f.instrs():
            if i.id in vals:
                continue
            if i.op in ("zext", "sext", "sitofp", "trunc", "phi", "select") and any(vid(o) in vals for o in operands(i)):
                vals.add(i.id)
            elif i.op == "call" and any(vid(o) in vals for o in i.ops):
                n = P.funcs[i.callee].cname if i.callee in P.funcs else ""
                if n in ("get_cstr", "get_obj_number", "get_str"):
                    vals.add(i.id)
                elif n in ("obj_array_foreach", "obj_dict_foreach", "obj_array_sort") and fnname(i.ops[3]):
                    cb = fnname(i.ops[3])
                    r = {P.funcs[x].cname for x in P.reach([cb]) if x in P.funcs}
                    out.add("targets" if "get_obj_install_target" in r else "tests" if "get_obj_test" in r else "scripts" if "run_cmd" in r else "other")
                elif n == "get_obj_bool":
                    out.add("bool")
            elif i.op == "store" and vid(i.ops[0]) in vals:
                p = vid(i.ops[1])
                d = f.defs.get(p) if p is not None and p not in f.argids else None
                if d is not None and d.op == "getelementptr":
                    x = [s for s in d.steps if "f" in s]
                    if x:
                        # an anonymous structure's first member is the structure itself
                        t = (x[-1].get("dt") or "").replace("struct ", "")
                        if t in P.structs:
                            out.add((t, P.structs[t]["fields"][0][0]))
                        else:
                            out.add((x[-1]["s"], x[-1]["f"]))
    return out


# element -> what its reader must do with it
ELEMENTS = {
    ("workspace", "install"): "targets", ("workspace", "install_scripts"): "scripts", ("workspace", "source_root"): ("workspace", "source_root"),
    ("option", "prefix"): "prefix", ("workspace", "global_opts"): ("workspace", "global_opts"), ("project", "opts"): ("project", "opts"),
    ("project", "tests"): "tests", ("project", "test_setups"): "other",
    ("keyword", "env"): "env", ("keyword", "exclude_suites"): "exclude_suites", ("keyword", "exe_wrapper"): "wrapper",
    ("keyword", "timeout_multiplier"): "timeout_multiplier", ("keyword", "is_default"): "bool",
}
FILES = {"install": [("workspace", "install"), ("workspace", "install_scripts"), ("workspace", "source_root"), ("option", "prefix")],
         "options": [("workspace", "global_opts"), ("project", "opts")],
         "tests": [("project", "tests"), ("project", "test_setups")],
         "test setups": [("keyword", "env"), ("keyword", "exclude_suites"), ("keyword", "exe_wrapper"), ("keyword", "is_default"), ("keyword", "timeout_multiplier")]}


def matches(want, got):
    return any(g == want or (isinstance(g, tuple) and g[1] == want) for g in got)


@prop("C18")
def statefiles(P, R):
    M = model(P)
    R.rule("elements", "the commands that run later take each element of a state file from the position at which configuring puts it")
    readers = []
    for f in P.funcs.values():
        idx = [c for c in f.calls() if callee_in(P, c, {"obj_array_index"}) and kint(c.ops[2]) is not None]
        groups = {}
        for c in idx:
            s = stripv(f, c.ops[1])
            v = vid(s)
            if v is not None and v not in f.argids and f.defs[v].op == "load":
                v = ("m", vid(f.defs[v].ops[0]))
            groups.setdefault(v, []).append(c)
        for g in groups.values():
            sk = {kint(c.ops[2]): (sinks(P, f, c.ops[3]), c) for c in g}
            readers.append((f, sk))
    for nm, need in FILES.items():
        found = []
        for f in P.funcs.values():
            if not any(callee_in(P, c, {"obj_array_push"}) for c in f.calls()):
                continue
            fields = set()
            for c in f.calls():
                if callee_in(P, c, {"obj_array_push"}):
                    s = source(P, f, c.ops[2])
                    if s in need:
                        fields.add(s)
            if len(fields) < 2:
                continue
            ls = layouts(P, f, M)
            if any(len(set(l) & set(need)) >= 2 for l in ls):
                found += [(f, l) for l in sorted(ls, key=lambda l: -len(l)) if set(l) & set(need)]
        if not found:
            raise AnalysisBroken("nothing writes the saved %s" % nm)
        for f, l in found:
            R.fn(f.name)
            for e in need:
                R.check(l.count(e) == 1, "written:%s:%s@%s" % (nm, e[1], f.cname), f.loc(), "%s is not part of the saved %s" % (e[1], nm))
            n = 0
            for g, sk in readers:
                allk = set().union(*(s for s, c in sk.values())) if sk else set()
                if sum(1 for e in need if matches(ELEMENTS[e], allk)) < (1 if nm != "test setups" else 3):
                    continue
                if nm == "tests" and not (g.file == "src/cmd_test.c" and set(sk) <= {0, 1}):
                    continue
                for k, (s, c) in sorted(sk.items()):
                    known = [e for e in need if matches(ELEMENTS[e], s)]
                    for e in known:
                        n += 1
                        R.fn(g.name)
                        R.check(k < len(l) and l[k] == e, "read:%s:%s@%s" % (nm, e[1], g.cname), c.where(), "%s takes %s of the saved %s from position %d, where %s puts %s" % (
                            g.cname, e[1], nm, k, f.cname, l[k][1] if k < len(l) and l[k] else "something else"))
            if not n:
                raise AnalysisBroken("nothing reads the saved %s" % nm)


class EachProject(Sim):
    """Walk of the loop over the projects. State: 0 none, 1 a project whose tests are not yet put in."""

    def __init__(self, P, f, M):
        super().__init__(P, f)
        self.M, self.left, self.first, self.n = M, [], [], 0

    def load(self, i, env, st):
        fl = self.P.field(self.f, i.ops[0])
        return {("project", "not_ok"): 0, ("project", "tests"): NZ, ("obj_array", "len"): 1}.get(fl)

    def call(self, i, env, st):
        P = self.P
        if callee_in(P, i, {"arr_get"}) and addrfield(P, self.f, i.ops[0]) == ("workspace", "projects"):
            if st == 1:
                self.left.append(self.path(self.node))
            if st is None:
                self.first.append(self.ev(i.ops[1], env))
            self.n += 1
            return [(NZ, 1)]
        if callee_in(P, i, {"obj_array_push"}) and source(P, self.f, i.ops[2]) == ("project", "tests"):
            return [(None, 0)]
        if callee_in(P, i, {"obj_dict_index"}):
            return [(0, st)]
        return [(self.M.const_ret(i.callee), st)]

    def ret(self, i, val, env, st):
        if st == 1:
            self.left.append(self.path(self.node))


@prop("C18")
def everytest(P, R):
    M = model(P)
    R.rule("every-project", "the tests of every project that was configured are saved")
    n = 0
    for f in P.funcs.values():
        if not any(callee_in(P, c, {"obj_array_push"}) and source(P, f, c.ops[2]) == ("project", "tests") for c in f.calls()):
            continue
        R.fn(f.name)
        s = EachProject(P, f, M)
        s.run(None, {})
        if not s.n:
            continue
        n += 1
        R.check(not s.left, "tests@" + f.cname, f.loc(), "%s leaves out the tests of a configured project" % f.cname, s.left[0] if s.left else None)
        R.check(set(s.first) <= {0}, "first@" + f.cname, f.loc(), "%s does not begin with the first project" % f.cname)
    if not n:
        raise AnalysisBroken("nothing saves the tests of the projects")


@prop("C18")
def strclone(P, R):
    R.rule("string-copy", "the copy of a string has its text and its recorded length, which may differ from where a first zero byte is")
    f = P.fn("str_clone")
    R.fn(f.name)
    mk = [c for c in f.calls() if c.callee in P.funcs and any(origin(P, f, o) == ("str", "s") for o in c.ops)]
    if not mk:
        raise AnalysisBroken("str_clone makes no string")
    for c in mk:
        lens = [k for k, o in enumerate(c.ops) if origin(P, f, o) == ("str", "len")]
        texts = [k for k, o in enumerate(c.ops) if origin(P, f, o) == ("str", "s")]
        R.check(bool(lens), "length@str_clone", c.where(), "the copy does not get the recorded length of the string")
        g = P.funcs[c.callee]
        if not lens or "src/lang" not in g.file:
            continue
        R.fn(g.name)
        p, t = g.argids[lens[0]], g.argids[texts[0]]
        cp = [x for x in g.calls() if (x.callee or "").startswith(("llvm.memcpy", "llvm.memmove")) and vid(x.ops[1]) == t]
        R.check(bool(cp) and all(vid(stripv(g, x.ops[2])) == p for x in cp), "copied@" + g.cname, g.loc(), "%s does not copy the whole text" % g.cname)
        st = lensets(P, g, p)
        R.check(bool(st) and all(st), "recorded@" + g.cname, g.loc(), "%s does not record the length it was given" % g.cname)


def lensets(P, g, p, depth=0):
    """For every place that records the length of the new string: is it the argument?"""
    out = [vid(stripv(g, i.ops[0])) == p for i in g.instrs() if i.op == "store" and P.field(g, i.ops[1]) == ("str", "len")]
    for c in g.calls():
        h = P.funcs.get(c.callee) if c.callee else None
        if h is not None and depth < 2 and h.file == g.file and any(i.op == "store" and P.field(h, i.ops[1]) == ("str", "len") for i in h.instrs()):
            ks = [k for k, o in enumerate(c.ops) if vid(stripv(g, o)) == p]
            out += lensets(P, h, h.argids[ks[0]], depth + 1) if ks else [False]
    return out
