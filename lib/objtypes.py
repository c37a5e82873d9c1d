"""Which types a script value can have where it is used.

A whole-program, flow-sensitive inference of the set of object types behind
every value of type `obj`.  A set is a bit mask (bit t: type number t, bit 0:
no value); UNK marks that some source was not understood.  The elements of an
array and the values of a dictionary have a mask of their own.
"""
import re
from prog import vid, kint, isnull, AnalysisBroken
from bounds import Cfg

UNK = 1 << 60
VOID = 1


class Types:
    def __init__(self, P, B, acc, image, same):
        self.P, self.B, self.same, self.image = P, B, same, image
        self.N = {}
        for e in P.enums.get("obj_type", []):
            for k, v in e["vals"]:
                if k.startswith("obj_"):
                    self.N[k] = v
        if "obj_string" not in self.N:
            raise AnalysisBroken("enum obj_type not found")
        self.NESTED = P.enum("complex_type_nested")
        self.DISABLER = P.enum("disabler_id")
        self.names = {v: k[4:] for k, v in self.N.items()}
        self.ANY = 0
        for t in range(1, 33):
            self.ANY |= 1 << t
        self.bit = lambda n: 1 << self.N["obj_" + n]
        self.home = {f.file for f in P.funcs.values() if f.cname == "get_obj_internal"}
        if not self.home:
            raise AnalysisBroken("get_obj_internal not found")
        self.req = {}           # (function, parameter number) -> mask it must have
        for n, (t, st, ptr, call) in acc.items():
            f = P.funcs[n]
            v = vid(call.ops[1])
            if v in f.argids and call.bb == 0:
                self.req[(n, f.argids.index(v))] = 1 << t
        self.skip = {f.name for f in P.funcs.values() if f.file in self.home or f.cname == "typecheck_complex_type"}
        self.params, self.fields, self.rets, self.outs = {}, {}, {}, {}
        self.why = {}
        self.isobj = {}
        self.images = {}
        self.tests = {}
        self.memo = {}
        self.perm = {}
        self.efs = {}
        self.sites, self.mixed, self.kept = {}, set(), set()
        self.rcvrs()
        self.requirements()

    # -- what functions demand ----------------------------------------------
    def requirements(self):
        """Parameters handed to an accessor before anything is decided."""
        P = self.P
        changed = True
        while changed:
            changed = False
            for f in P.funcs.values():
                if not f.blocks:
                    continue
                b, seen, null = 0, set(), set()
                while b not in seen:
                    seen.add(b)
                    for c in f.blocks[b]:
                        if c.op != "call" or not c.callee:
                            continue
                        for k, o in enumerate(c.ops):
                            r = self.req.get((c.callee, k))
                            if r and vid(o) in f.argids:
                                key = (f.name, f.argids.index(vid(o)))
                                if self.req.get(key) is None:
                                    self.req[key] = r | (VOID if vid(o) in null else 0)
                                    changed = True
                    t = f.blocks[b][-1]
                    n = None
                    if t.op == "br" and t.ops and len(t.d["succ"]) == 2:
                        d = f.defs.get(vid(t.ops[0])) if vid(t.ops[0]) not in f.argids else None
                        if d is not None and d.op == "icmp" and d.d["pred"] in ("eq", "ne") and kint(d.ops[1]) == 0 and vid(d.ops[0]) in f.argids:
                            null.add(vid(d.ops[0]))
                            n = t.d["succ"][1 if d.d["pred"] == "eq" else 0]
                    if n is None:
                        if len(f.succs[b]) != 1:
                            break
                        n = f.succs[b][0]
                    b = n

    def rcvrs(self):
        """The receiver of methods, from the tables of functions."""
        P = self.P
        self.rc = {}
        g = next((n for n in P.globals if n.split("@")[0] == "func_tbl"), None)
        if g is None:
            raise AnalysisBroken("func_tbl not found")
        tbl = P.globals[g].get("init")
        rows = tbl.get("arr", []) if isinstance(tbl, dict) else []
        for t, r in enumerate(rows):
            for e in (r.get("arr", []) if isinstance(r, dict) else []):
                if isinstance(e, dict) and e.get("g"):
                    self.table(e["g"], 1 << t)

    def table(self, g, mask):
        init = self.P.globals.get(g, {}).get("init")
        for row in (init.get("arr", []) if isinstance(init, dict) else []):
            fl = row.get("arr", []) if isinstance(row, dict) else []
            fn = fl[1].get("fn") if len(fl) > 1 and isinstance(fl[1], dict) else None
            tr = any(isinstance(x, dict) and x.get("fn") for x in fl[2:])
            if fn in self.P.funcs:
                k = (fn, 1)
                self.rc[k] = self.rc.get(k, 0) | (UNK if tr else mask)

    # -- kinds of functions ---------------------------------------------------
    def dt(self, f, k):
        """Source type of parameter k."""
        t = f.ditypes[k + 1] if len(f.ditypes) > k + 1 else ""
        return (t or "").replace("const ", "")

    def tag(self, t):
        """(mask, elements) of values that pass a declared type; None: not constant."""
        if t is None:
            return None
        t &= (1 << 64) - 1
        lst = t & (1 << 62) or t & (1 << 61)
        if t & (1 << 60):
            return None
        if t & (1 << 63):
            m = (t & 0xffffffff) << 1
            if t & (1 << 59) or not m:
                m |= VOID
        else:
            b = t & ~((1 << 61) | (1 << 62))
            if b > 40:
                return None
            m = 1 << b
        if lst:
            return self.bit("array"), m
        e = self.ANY if m & self.bit("dict") else self.ANY & ~self.bit("disabler") if m & self.bit("array") else 0
        return m, e

    def tagof(self, n):
        """The declared type that accepts only n."""
        return (self.bit(n) >> 1) - (1 << 63)

    def tagop(self, f, o):
        """The same for an operand."""
        k = kint(o)
        if k is not None:
            return self.tag(k)
        v = vid(o)
        d = f.defs.get(v) if v is not None and v not in f.argids else None
        if d is not None and d.op == "call" and d.callee == "make_complex_type":
            a, b = self.tagop(f, d.ops[2]), self.tagop(f, d.ops[3])
            if a is None or b is None:
                return None
            if kint(d.ops[1]) == self.NESTED:
                return a[0], b[0]
            return self.join(a, b)
        return None

    # -- values -----------------------------------------------------------------
    def join(self, a, b):
        return a[0] | b[0], a[1] | b[1]

    def key(self, f, o):
        """Location of a load: an alloca or parameter with a constant path."""
        v = vid(o)
        if v is None:
            return None
        path = []
        for _ in range(8):
            if v is None:
                return None
            if v in f.argids:
                return ("p", v, tuple(path))
            d = f.defs[v]
            if d.op == "alloca":
                return ("a", v, tuple(path))
            if d.op == "load" and path:
                p = vid(d.ops[0])
                if p is not None and p not in f.argids and f.defs[p].op == "alloca" and "struct args_kw *" in (f.defs[p].d.get("dt") or "") and self.given(f, p):
                    return ("a", p, tuple(path))
            if d.op != "getelementptr":
                return None
            st = []
            for s in d.steps:
                if "f" in s:
                    st.append(s["f"])
                else:
                    k = kint(s.get("idx"))
                    st.append("*" if k is None else k)
            # leading zero indices do not select anything
            path = [x for x in st] + path
            v = vid(d.d["base"])
        return None

    def norm(self, f, key):
        """Fold the row number and the field of a table of arguments."""
        kind, a, path = key
        row, fld = 0, None
        for x in path:
            if isinstance(x, int) and row != "*":
                row += x
            elif x == "*":
                row = "*"
            else:
                fld = x if fld is None else fld + "." + x
        return kind, a, row, fld

    def rows(self, f, a):
        k = (f.name, a)
        if k in self.images:
            return self.images[k]
        d = f.defs[a]
        t = (d.d.get("dt") or d.d.get("aty") or "")
        m = re.search(r"struct[ .](args_norm|args_kw)\b", t)
        res = None
        gv = None
        if m and t.endswith("*"):
            gv = self.given(f, a)
            if gv is not None:
                res = dict(self.rows(gv[1], gv[2].id) or {}) or None
                if res is not None:
                    res["call"] = gv[0]
            m = None
        if m:
            st = m.group(1)
            fl = [n for n, _, _ in self.P.structs[st]["fields"]]
            base, rows = self.image(self.P, f, d)
            res = {}
            init = self.P.typed_init(base, "struct %s[%s]" % (st, d.d.get("n"))) if base is not None and "arr" in (base or {}) else None
            n = d.d.get("n") or 0
            for r in range(n):
                row = {}
                if isinstance(init, list) and r < len(init) and isinstance(init[r], dict):
                    for name, val in init[r].items():
                        k2 = kint(val) if not isinstance(val, int) else val
                        if k2 is not None:
                            row[name] = k2
                        elif isinstance(val, dict) and val.get("k") is not None:
                            row[name] = val["k"]
                for fi, op in rows.get(r, {}).items():
                    k2 = kint(op)
                    row[fl[fi]] = k2 if k2 is not None else None
                    if fl[fi] == "type" and k2 is None:
                        row["typeop"] = op
                res[r] = row
            res["kind"] = st
            # optional positional arguments
            for c in f.calls():
                for x, how in self.readers().get(c.callee, {}).items():
                    if not isinstance(how, tuple) and x < len(c.ops) and vid(c.ops[x]) == a:
                        res["call"] = c
                        if how == 3:
                            res["opt"] = True
                if (c.callee or "").split(".")[0] == "interp_args" and len(c.ops) >= 5:
                    if vid(c.ops[3]) == a:
                        res["opt"] = True
                    if vid(c.ops[2]) == a or vid(c.ops[3]) == a or vid(c.ops[4]) == a:
                        res["call"] = c
        self.images[k] = res
        return res

    def readers(self):
        """{function: {parameter that is a table of arguments it has read: operand of interp_args}}"""
        if "readers" not in self.perm:
            out = self.perm["readers"] = {}
            for g in self.P.funcs.values():
                for c in g.calls():
                    if (c.callee or "").split(".")[0] == "interp_args" and len(c.ops) >= 5:
                        for x in (2, 3, 4):
                            if vid(c.ops[x]) in g.argids:
                                out.setdefault(g.name, {})[g.argids.index(vid(c.ops[x]))] = x
                            for gl in self.origins(g, c.ops[x]):
                                # a static table the caller is given the address of
                                for i in g.instrs():
                                    if i.op == "store" and isinstance(i.ops[0], dict) and i.ops[0].get("g") == gl and vid(i.ops[1]) in g.argids:
                                        out.setdefault(g.name, {})[g.argids.index(vid(i.ops[1]))] = ("table", gl)
        return self.perm["readers"]

    def origins(self, g, o):
        """Globals operand o can be."""
        if isinstance(o, dict) and o.get("g"):
            return [o["g"]]
        v = vid(o)
        d = g.defs.get(v) if v is not None and v not in g.argids else None
        if d is not None and d.op in ("phi", "select"):
            return [x.get("g") for x in ([x for x, _ in d.ops] if d.op == "phi" else d.ops[1:]) if isinstance(x, dict) and x.get("g")]
        return []

    def given(self, f, a):
        """Local a holds the address of a table some callee read the arguments into: (call, callee, alloca the table is copied from)"""
        k = ("given", f.name, a)
        if k not in self.perm:
            self.perm[k] = None
            for c in f.calls():
                for x, how in self.readers().get(c.callee, {}).items():
                    if isinstance(how, tuple) and x < len(c.ops) and vid(c.ops[x]) == a:
                        g = self.P.funcs[c.callee]
                        for i in g.calls():
                            if (i.callee or "").startswith("llvm.memcpy") and isinstance(i.ops[0], dict) and i.ops[0].get("g") == how[1] and vid(i.ops[1]) in g.defs:
                                self.perm[k] = (c, g, g.defs[vid(i.ops[1])])
        return self.perm[k]

    def looped(self, f, a):
        """Is the presence of arguments decided row by row in a loop?"""
        k = ("looped", f.name, a)
        if k not in self.perm:
            self.perm[k] = any(i.op == "load" and (x := self.key(f, i.ops[0])) is not None and x[:2] == ("a", a) and x[2] and x[2][-1] == "set" and "*" in x[2]
                               for i in f.instrs())
        return self.perm[k]

    def immune(self, f):
        """Does f ask for the disablers among its arguments?"""
        k = ("immune", f.name)
        if k not in self.perm:
            self.perm[k] = any(i.op == "store" and isinstance(i.ops[1], dict) and (i.ops[1].get("g") or "").split("@")[0] == "disabler_among_args_immunity"
                               and kint(i.ops[0]) not in (0, None) for i in f.instrs())
        return self.perm[k]

    def declared(self, f, a, row):
        """Value of argument `row` after the arguments were read."""
        r = self.rows(f, a)
        if r is None or r.get("call") is None:
            return (UNK, UNK)
        if row == "*":
            return (UNK, UNK)
        rw = r.get(row)
        if rw is None:
            return (UNK, UNK)
        t = self.tagop(f, rw["typeop"]) if "typeop" in rw else self.tag(rw.get("type", 0))
        if t is None:
            return (UNK, UNK)
        m, e = t
        if not self.immune(f):
            m &= ~self.bit("disabler")  # a call with a disabler among its arguments is not made
        else:
            m |= self.bit("disabler")   # passes every check of types
        if r.get("opt") or r["kind"] == "args_kw" and not rw.get("required"):
            m |= UNK if r["kind"] == "args_kw" and self.looped(f, a) else VOID
        return m, e

    def value(self, f, o, at, depth=0):
        """Type of operand o where instruction `at` uses it."""
        if kint(o) is not None:
            return (0, 0) if kint(o) == 0 else (1 << self.N["obj_disabler"], 0) if kint(o) == self.DISABLER else (UNK, UNK)
        v = vid(o)
        if v is None or depth > 24:
            return (UNK, UNK)
        k = (f.name, v, at.id, self.round)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = (0, 0)
        d = f.defs.get(v) if v not in f.argids else None
        if d is not None and d.op == "load":
            key = self.key(f, d.ops[0])
            if key is not None:
                key = self.norm(f, key)
                if key[0] == "a" or key[0] == "p" and (key[3] is None or self.P.field(f, d.ops[0]) in self.known):
                    r = self.flowloc(f, key, d, depth)
                    if key[0] != "a":
                        r = self.filt(f, o, d, at, r)
                    elif d.bb != at.bb:
                        # tested after it was read
                        r = self.filt(f, o, None, at, r, d.bb)
                    self.memo[k] = r
                    return r
        if d is not None and d.op in ("phi", "select"):
            r = (0, 0)
            if d.op == "phi":
                for x, p in d.ops:
                    v2 = self.value(f, x, f.blocks[p][-1], depth + 1)
                    m = self.edgefilters(f, ("op", x)).get((p, d.bb))
                    if m is not None:
                        if not v2[0] & (m | UNK) and v2[0]:
                            continue
                        v2 = (v2[0] & (m | UNK), v2[1])
                    if not self.feasible(f, d, p, at):
                        continue
                    r = self.join(r, v2)
            else:
                r = self.join(self.value(f, d.ops[1], d, depth + 1), self.value(f, d.ops[2], d, depth + 1))
        else:
            r = self.base(f, o, d, at, depth)
        r = self.filt(f, o, d, at, r)
        self.memo[k] = r
        return r

    def base(self, f, o, d, at, depth):
        if d is None:
            k = (f.name, f.argids.index(vid(o)))
            if k in self.rc:
                return (self.rc[k], UNK)
            return self.bysite(f, k, at)
        if d.op == "load":
            b = f.defs.get(vid(d.ops[0]))
            if b is not None and b.op == "call" and b.callee == "get_obj_file":
                return (self.bit("string"), 0)
            fl = self.P.field(f, d.ops[0])
            if fl is not None and fl not in self.opaque():
                return self.fields.get(fl, (0, 0)) if fl in self.known else (UNK, UNK)
            return (UNK, UNK)
        if d.op == "call":
            n = d.callee
            g = self.P.funcs.get(n)
            if n == "obj_array_get_tail":
                return (self.value(f, d.ops[1], d, depth + 1)[1], UNK)
            if g is not None and g.cname == "_make_str":
                return (self.bit("string"), 0)      # interned strings are found by their text
            if n in ("obj_array_slice",):
                return (self.bit("array"), self.value(f, d.ops[1], d, depth + 1)[1])
            if g is not None and g.blocks and (g.ditypes[0] if g.ditypes else "") == "obj":
                return self.rets.get(n, (0, 0))
            return (UNK, UNK)
        return (UNK, UNK)

    def bysite(self, f, k, at):
        """A parameter, from the calls that agree with the flags tested on the way to `at`."""
        flags = [j for j in range(len(f.argids)) if self.dt(f, j) == "_Bool"]
        sites = self.sites.get(k)
        if not flags or not sites or k in self.mixed:
            return self.params.get(k, (0, 0))
        r = (0, 0)
        pol = {}
        for c, v in sites.items():
            ok = True
            for j in flags:
                b = c[j] if j < len(c) else None
                if b is None:
                    continue
                if j not in pol:
                    pol[j] = self.polarity(f, f.argids[j], at.bb)
                if pol[j] is not None and bool(b) != pol[j]:
                    ok = False
            if ok:
                r = self.join(r, v)
        return r

    def polarity(self, f, a, bb):
        """True/False when flag a was tested on every way to block bb."""
        k = ("pol", f.name, a, bb)
        if k in self.perm:
            return self.perm[k]
        res = None
        for b in f.blocks:
            t = b[-1]
            if t.op != "br" or not t.ops or len(t.d["succ"]) != 2:
                continue
            v, neg = vid(t.ops[0]), False
            for _ in range(4):
                d = f.defs.get(v) if v is not None and v not in f.argids else None
                if d is None:
                    break
                if d.op in ("trunc", "zext"):
                    v = vid(d.ops[0])
                elif d.op == "xor" and kint(d.ops[1]) in (1, -1) or d.op == "icmp" and d.d["pred"] == "eq" and kint(d.ops[1]) == 0:
                    v, neg = vid(d.ops[0]), not neg
                else:
                    break
            if v != a:
                continue
            for s, w in zip(t.d["succ"], (True, False)):
                if len(f.preds[s]) == 1 and self.B.cfg(f).dominates(s, bb):
                    res = w != neg
        self.perm[k] = res
        return res

    def feasible(self, f, phi, p, at):
        """Can the value that enters phi from block p reach `at`, going by the types tested before and after?"""
        for o, b, m in self.testlist(f):
            if isinstance(o, tuple) or not self.B.cfg(f).dominates(phi.bb, b) or not self.B.cfg(f).dominates(b, at.bb) or b == at.bb:
                continue
            d = f.defs.get(vid(o)) if vid(o) is not None and vid(o) not in f.argids else None
            if d is not None and self.B.cfg(f).dominates(phi.bb, d.bb):
                continue
            post = self.maskat(f, o, phi.bb, at.bb)
            pre = self.maskat(f, o, d.bb if d is not None else 0, p)
            e = self.edgefilters(f, ("op", o)).get((p, phi.bb))
            if e is not None:
                pre &= e
            if not post & pre:
                return False
        return True

    def maskat(self, f, o, src, bb):
        """The types o can have in block bb by the tests made after block src was left."""
        k = ("maskat", f.name, str(o), src, bb)
        if k in self.perm:
            return self.perm[k]
        edges = self.edgefilters(f, ("op", o))
        FULL = (1 << 50) - 1
        state, work = {src: FULL}, [src]
        while work:
            b = work.pop()
            for t in dict.fromkeys(f.succs[b]):
                m = edges.get((b, t))
                ns = state[b] if m is None else state[b] & m
                if t == src or not ns:
                    continue
                if t not in state or ns & ~state[t]:
                    state[t] = state.get(t, 0) | ns
                    work.append(t)
        r = self.perm[k] = state.get(bb, 0)
        return r

    def opaque(self):
        return {("args_norm", "val"), ("args_kw", "val"), ("obj_option", "val"), ("option_override", "obj_value")}

    # -- flags: booleans that remember how a test ended --------------------------
    def flagmodel(self, f):
        """(phi flags by block, branch conditions by block)."""
        k = ("flags", f.name)
        if k in self.perm:
            return self.perm[k]
        conds, want = {}, []
        for b in f.blocks:
            t = b[-1]
            if t.op == "br" and t.ops and len(t.d["succ"]) == 2 and t.d["succ"][0] != t.d["succ"][1]:
                r = self.flagof(f, t.ops[0])
                if r is not None:
                    conds[t.bb] = (r[0], r[1], t.d["succ"])
                    want.append(r[0])
        phis, todo, seen = {}, list(want), set()
        while todo:
            x = todo.pop()
            if x in seen or isinstance(x, tuple):
                continue
            seen.add(x)
            d = f.defs.get(x)
            if d is None or d.op != "phi":
                continue
            ent = {}
            for o, p in d.ops:
                c = kint(o)
                if c is not None:
                    ent[p] = bool(c)
                else:
                    r = self.flagof(f, o)
                    if r is not None:
                        ent[p] = r
                        todo.append(r[0])
            if ent:
                phis.setdefault(d.bb, {})[x] = ent
        # a condition is worth following when it is tested twice or is a phi of constants
        keep = {x for x in want if want.count(x) > 1} | {x for e in phis.values() for x in e}
        conds = {b: c for b, c in conds.items() if c[0] in keep}
        defs = {}
        for x in keep:
            if not isinstance(x, tuple) and x not in f.argids and f.defs[x].op != "phi":
                defs.setdefault(f.defs[x].bb, set()).add(x)
        r = self.perm[k] = (phis, conds, defs)
        return r

    def flagof(self, f, o):
        """(flag, negated) behind a condition."""
        v, neg = vid(o), False
        for _ in range(6):
            if v is None:
                return None
            d = f.defs.get(v) if v not in f.argids else None
            if d is None:
                return (v, neg)
            if d.op in ("trunc", "zext"):
                v = vid(d.ops[0])
            elif d.op == "xor" and kint(d.ops[1]) in (1, -1):
                v, neg = vid(d.ops[0]), not neg
            elif d.op == "icmp" and kint(d.ops[1]) == 0 and d.d.get("oty") in ("i1", "i8") and d.d["pred"] in ("eq", "ne"):
                v, neg = vid(d.ops[0]), neg != (d.d["pred"] == "eq")
            elif d.op == "load":
                k = self.key(f, d.ops[0])
                if k is not None and k[2] and k[2][-1] == "set":
                    return (("set", self.norm(f, k)), neg)
                return (v, neg)
            else:
                return (v, neg)
        return None

    def step(self, f, fl, b, t):
        """Flags after the edge b -> t; None: the edge is not taken under these flags."""
        phis, conds, defs = self.flagmodel(f)
        c = conds.get(b)
        d = dict(fl)
        br = f.blocks[b][-1]
        if br.op == "br" and br.ops and len(br.d["succ"]) == 2 and kint(br.ops[0]) is not None:
            if t != br.d["succ"][0 if kint(br.ops[0]) else 1]:
                return None
        if c is not None:
            x, neg, succ = c
            want = (t == succ[0]) != neg
            if x in d and d[x] != want:
                return None
            d[x] = want
        new = {}
        for x, ent in phis.get(t, {}).items():
            e = ent.get(b)
            if isinstance(e, bool):
                new[x] = e
            elif e is not None and e[0] in d:
                new[x] = d[e[0]] != e[1]
            else:
                new[x] = None
        for x in defs.get(t, ()):
            d.pop(x, None)
        for x, y in new.items():
            if y is None:
                d.pop(x, None)
            else:
                d[x] = y
        return frozenset(d.items())

    def spread(self, f, state, work, b, fl, t, ns, join):
        """Propagate ns to block t; states of a block are kept apart by flags, up to a limit."""
        nf = self.step(f, fl, b, t)
        if nf is None:
            return
        st = state.setdefault(t, {})
        if nf not in st and len(st) >= 24:
            nf = frozenset()
        old = st.get(nf)
        new = ns if old is None else join(old, ns)
        if new != old:
            st[nf] = new
            work.append((t, nf))

    # -- flow of one location -----------------------------------------------------
    def flowloc(self, f, key, ld, depth):
        """The value a location has at the load ld."""
        kind, a, row, fld = key
        mk = ("loc", f.name, key, self.round, ld.bb if self.spilled(f, key) else None)
        ent = self.memo.get(mk)
        if ent is None:
            if kind == "a" and self.rows(f, a) is not None and (fld != "val" or row == "*"):
                return (UNK, UNK)
            self.memo[mk] = ent = {}
            self.runloc(f, key, ent, ld if self.spilled(f, key) else None)
        return ent.get(ld.id, (0, 0))

    def spilled(self, f, key):
        """Is the location a local copy of a parameter?"""
        k = ("spill", f.name, key)
        if k not in self.perm:
            self.perm[k] = key[0] == "a" and key[2:] == (0, None) and any(
                i.op == "store" and vid(i.ops[0]) in f.argids and vid(i.ops[1]) == key[1] for i in f.blocks[0]) \
                and any(self.dt(f, j) == "_Bool" for j in range(len(f.argids)))
        return self.perm[k]

    def runloc(self, f, key, ent, ld=None):
        kind, a, row, fld = key
        rows = self.rows(f, a) if kind == "a" else None
        fld0 = self.floc(f, key) if kind == "p" or rows is None and fld is not None else None
        start = self.fields.get(fld0, (0, 0)) if kind == "p" and fld0 else (UNK, UNK) if kind == "p" else (0, 0)
        state = {0: {frozenset(): start}}
        work = [(0, frozenset())]
        n = 0
        edges = self.edgefilters(f, ("loc", key))
        elems = self.edgefilters(f, ("loc", key), True)
        FULL = (1 << 50) - 1
        if kind == "a" and self.leaks(f, a):
            for i in f.instrs():
                if i.op == "load":
                    ent[i.id] = (UNK, UNK)
            return
        while work:
            b, fl = work.pop()
            n += 1
            if n > 20000:
                for i in f.instrs():
                    if i.op == "load":
                        ent[i.id] = (UNK, UNK)
                break
            s = state[b][fl]
            for i in f.blocks[b]:
                if i.op == "load":
                    k = self.key(f, i.ops[0])
                    if k is not None and self.norm(f, k) == key:
                        ent[i.id] = self.join(ent.get(i.id, (0, 0)), s)
                elif i.op == "store":
                    k = self.key(f, i.ops[1])
                    if k is not None:
                        k = self.norm(f, k)
                        if k == key:
                            s = self.value(f, i.ops[0], ld, 1) if ld is not None and b == 0 and vid(i.ops[0]) in f.argids else self.stored(f, i) if not (rows is not None and rows.get("call") is not None and self.before(f, i, rows["call"])) else s
                        elif k[:2] == key[:2] and rows is not None and k[3] == "val" and k[2] == "*":
                            s = self.join(s, self.stored(f, i))
                elif i.op == "call":
                    if rows is not None:
                        if i is rows.get("call"):
                            s = self.declared(f, a, row)
                        else:
                            # the whole table is given away: only single arguments are reset by callees
                            for x, o in enumerate(i.ops):
                                kk = self.key(f, o) if vid(o) is not None else None
                                if kk is not None and kk[:2] == (kind, a) and self.norm(f, kk)[3] == "val" and self.norm(f, kk)[2] == row:
                                    s = self.outval(f, i, x, s)
                    else:
                        for x, o in enumerate(i.ops):
                            kk = self.key(f, o) if vid(o) is not None else None
                            if kk is not None and self.norm(f, kk) == key:
                                s = self.outval(f, i, x, s)
                            elif kk is not None and fld0 and kk[:2] == (kind, a) and self.touches(i, x, fld0):
                                s = self.join(s, self.fields.get(fld0, (0, 0)))
                        if kind == "p" and fld0 and not i.callee:
                            s = self.join(s, self.fields.get(fld0, (0, 0)))
                        elif kind == "p" and fld0 and (i.callee or "") in self.P.funcs and fld0 in self.mods(i.callee):
                            s = self.join(s, self.fields.get(fld0, (0, 0)))
            for t in dict.fromkeys(f.succs[b]):
                m = edges.get((b, t))
                e = elems.get((b, t))
                ns = s if m is None else (self.cut(s[0], m), s[1])
                if e is not None and e != FULL:
                    ns = (ns[0], s[1] & e | (e if s[1] & UNK else 0))
                if ns[0] == 0 and s[0] != 0:
                    continue
                self.spread(f, state, work, b, fl, t, ns, self.join)

    def floc(self, f, key):
        """(struct, field) of a location."""
        for i in f.instrs():
            if i.op in ("load", "store"):
                p = i.ops[0] if i.op == "load" else i.ops[1]
                k = self.key(f, p)
                if k is not None and self.norm(f, k) == key:
                    fl = self.P.field(f, p)
                    return fl if fl in self.known else None
        return None

    def mods(self, n):
        try:
            return {k[1:] if len(k) == 3 else k for k in self.B.modset(n)}
        except Exception:
            return self.known

    def touches(self, c, x, fl):
        """May the callee change the field through argument x?"""
        return not c.callee or c.callee not in self.P.funcs or c.callee.startswith("llvm.") or True

    def stored(self, f, i):
        return (0, 0) if kint(i.ops[0]) == 0 else self.value(f, i.ops[0], i, 1)

    def before(self, f, i, c):
        return i.bb == c.bb and i.ix < c.ix or i.bb != c.bb and self.B.cfg(f).dominates(i.bb, c.bb)

    def outval(self, f, c, x, s):
        """What a call leaves in the location passed as argument x."""
        n = c.callee
        if n is None:
            # evaluation of a node of the script, or of a variable
            t = c.d.get("fptr")
            fl = self.P.field(f, f.defs[vid(t)].ops[0]) if vid(t) is not None and vid(t) not in f.argids and f.defs[vid(t)].op == "load" else None
            if fl is not None and fl[0] == "workspace" and fl[1] == "interp_node":
                return (self.ANY | VOID, UNK)
            if fl is not None and fl[0] == "workspace" and fl[1] == "get_variable":
                return (self.ANY, UNK)
            return (UNK, UNK)
        if n.startswith("llvm."):
            return (UNK, UNK) if "memcpy" in n else (VOID, 0) if "memset" in n else s
        if n.startswith("get_option") or n == "typecheck_opt":
            return (UNK, UNK)       # as declared for the option of that name
        if n == "make_obj":
            t = kint(c.ops[2])
            return (1 << t, 0 if t in (self.N["obj_array"], self.N["obj_dict"]) and False else UNK) if t is not None else (UNK, UNK)
        if n in ("obj_array_index",) and x == 3 or n in ("obj_dict_index", "obj_dict_index_str", "obj_dict_geti") and x == 3 or n == "obj_dict_index_strn" and x == 4:
            e = self.value(f, c.ops[1], c, 2)[1]
            return (e, UNK)
        if n in ("obj_array_dup", "obj_dict_dup", "obj_array_tail") and x == 2 or n in ("obj_array_dedup",) and x == 2 or n == "obj_array_sort" and x == 4:
            v = self.value(f, c.ops[2 if n == "obj_array_sort" else 1], c, 2)
            return (self.bit("dict" if "dict" in n else "array"), v[1])
        if n == "obj_array_join" and x == 4:
            return (self.bit("string"), 0)
        if n in ("obj_array_dedup_in_place", "obj_array_prepend") and x == 1:
            return (self.bit("array"), UNK)
        if n == "interp_node":
            return (self.ANY | VOID, UNK)
        g = self.P.funcs.get(n)
        if g is not None and g.cname == "muon_json_to_dict":
            return (self.bit("dict"), UNK)      # refuses any other document
        if g is None or not g.blocks or g.name in self.skip:
            return (UNK, UNK)
        if self.dt(g, x) != "obj *" or (n, x) in self.kept:
            return (UNK, UNK)
        o = self.outs.get((n, x))
        # the callee may leave it alone
        return self.join((s[0] & ~VOID, s[1]), o) if o is not None else s

    # -- tests ----------------------------------------------------------------------
    def elemtests(self, f):
        """The same for the elements of the operand tested."""
        k = ("elem", f.name)
        if k not in self.tests:
            out = self.tests[k] = []
            FULL = (1 << 50) - 1
            for b in f.blocks:
                t = b[-1]
                if t.op == "br" and t.ops and len(t.d["succ"]) == 2 and t.d["succ"][0] != t.d["succ"][1]:
                    self.elem = True
                    try:
                        cs = self.cond(f, t.ops[0], FULL)
                    finally:
                        self.elem = False
                    for o, mt, mf in cs:
                        if not isinstance(o, tuple) and (mt != FULL or mf != FULL):
                            out.append((o, t.bb, {t.d["succ"][0]: mt, t.d["succ"][1]: mf}))
        return self.tests[k]

    elem = False

    def testlist(self, f):
        """[(operand tested, block, {target: mask kept})]"""
        if f.name in self.tests:
            return self.tests[f.name]
        out = []
        FULL = (1 << 50) - 1
        for b in f.blocks:
            t = b[-1]
            if t.op == "switch":
                c = self.typeof(f, t.ops[0])
                if c is not None:
                    m, all_ = {}, 0
                    for k, s in t.d["cases"]:
                        m[s] = m.get(s, 0) | 1 << k
                        all_ |= 1 << k
                    d = t.d["default"]
                    m[d] = m.get(d, 0) | FULL & ~all_
                    out.append((c, t.bb, m))
            elif t.op == "br" and t.ops and len(t.d["succ"]) == 2 and t.d["succ"][0] != t.d["succ"][1]:
                for o, mt, mf in self.cond(f, t.ops[0], FULL):
                    out.append((o, t.bb, {t.d["succ"][0]: mt, t.d["succ"][1]: mf}))
        self.tests[f.name] = out
        return out

    def typeof(self, f, o):
        """o is the type of a script value: the value."""
        v = vid(o)
        while v is not None and v not in f.argids and f.defs[v].op in ("zext", "trunc", "sext"):
            v = vid(f.defs[v].ops[0])
        if v is None or v in f.argids:
            return None
        d = f.defs[v]
        if d.op == "call" and d.callee == "get_obj_type":
            return d.ops[1]
        if d.op == "phi":
            xs = [x for x, _ in d.ops if kint(x) != 0]
            if len(xs) == 1:
                return self.typeof(f, xs[0])
        if d.op == "load":
            # kept in a local
            k = self.key(f, d.ops[0])
            if k is not None and k[0] == "a":
                st = [i for i in f.instrs() if i.op == "store" and self.key(f, i.ops[1]) == k]
                if len(st) == 1:
                    return self.typeof(f, st[0].ops[0])
        return None

    def cond(self, f, o, FULL, depth=0):
        v = vid(o)
        if v is None or v in f.argids or depth > 6:
            return []
        d = f.defs[v]
        if d.op in ("trunc", "zext"):
            return self.cond(f, d.ops[0], FULL, depth + 1)
        if d.op == "xor" and kint(d.ops[1]) in (1, -1):
            return [(x, b, a) for x, a, b in self.cond(f, d.ops[0], FULL, depth + 1)]
        if d.op == "icmp":
            a, b = d.ops[0], d.ops[1]
            k = kint(b)
            if self.elem:
                if k == 0 and d.d.get("oty") in ("i1", "i8") and d.d["pred"] in ("eq", "ne"):
                    s = self.cond(f, a, FULL, depth + 1)
                    return [(x, n, y) for x, y, n in s] if d.d["pred"] == "eq" else s
                return []
            if d.d["pred"] in ("eq", "ne") and k is not None:
                x = self.typeof(f, a)
                if x is not None:
                    r = (x, 1 << k, FULL & ~(1 << k)) if 0 <= k < 50 else None
                elif k == self.DISABLER and d.d.get("oty") == "i32" and self.isval(f, a):
                    r = (a, FULL, FULL & ~self.bit("disabler"))
                elif k == 0 and d.d.get("oty") == "i32" and self.isval(f, a):
                    r = (a, VOID, FULL & ~VOID)
                elif d.d.get("oty") in ("i1", "i8") and k == 0:
                    s = self.cond(f, a, FULL, depth + 1)
                    return [(x, n, y) for x, y, n in s] if d.d["pred"] == "eq" else s
                else:
                    r = None
                if r is None:
                    return []
                return [r] if d.d["pred"] == "eq" else [(r[0], r[2], r[1])]
            if d.d["pred"] in ("eq", "ne") and kint(b) is None and k is None:
                # compared with the one disabler value
                for x, y in ((a, b), (b, a)):
                    ld = f.defs.get(vid(y))
                    if ld is not None and ld.op == "load" and isinstance(ld.ops[0], dict) and (ld.ops[0].get("g") or "").split("@")[0] == "disabler_id":
                        db = self.bit("disabler")
                        r = (x, FULL, FULL & ~db)
                        return [r] if d.d["pred"] == "eq" else [(r[0], r[2], r[1])]
            return []
        if d.op == "load":
            # akw[i].set
            k = self.key(f, d.ops[0])
            if k is not None and k[2] and k[2][-1] == "set":
                return [(("set", self.norm(f, k)), FULL & ~VOID, FULL)]
            if k is not None and k[0] == "a":
                st = [i for i in f.instrs() if i.op == "store" and self.key(f, i.ops[1]) == k]
                if len(st) == 1 and kint(st[0].ops[0]) is None:
                    return self.cond(f, st[0].ops[0], FULL, depth + 1)
            return []
        if d.op == "call":
            n = d.callee or ""
            ix = {"typecheck": (2, 3), "typecheck_custom": (2, 3), "typecheck_simple_err": (1, 2)}.get(n)
            if ix:
                t = self.tagop(f, d.ops[ix[1]])
                if t is None:
                    return [(d.ops[ix[0]], FULL, FULL)]
                m = t[0]
                if self.elem:
                    return [(d.ops[ix[0]], t[1], FULL)]
                if n != "typecheck_simple_err":
                    m |= self.bit("disabler")
                return [(d.ops[ix[0]], m, FULL)]
            g = self.P.funcs.get(n)
            if not self.elem and g is not None and g.blocks and (g.ditypes[0] if g.ditypes else "") == "_Bool" and len(g.blocks) <= 12:
                return [(d.ops[k], t, e) for k, t, e in self.predicate(g)]
            return []
        return []

    def predicate(self, g):
        """[(parameter, types it can have when g answers true, ... false)]"""
        k = ("pred", g.name)
        if k in self.perm:
            return self.perm[k]
        self.perm[k] = []
        FULL = (1 << 50) - 1
        out = []
        for j in range(len(g.argids)):
            if self.dt(g, j) != "obj" or not self.edgefilters(g, ("op", {"v": g.argids[j]})):
                continue
            res = {True: 0, False: 0}
            for i in g.instrs():
                if i.op == "ret" and i.ops:
                    self.answers(g, {"v": g.argids[j]}, i.ops[0], i.bb, None, res, 0)
            if res[True] != FULL or res[False] != FULL:
                out.append((j, res[True] & FULL, res[False] & FULL))
        self.perm[k] = out
        return out

    def answers(self, g, arg, o, bb, pred, res, depth):
        """Add the types of arg with which the answer o is given."""
        v = vid(o)
        d = g.defs.get(v) if v is not None and v not in g.argids else None
        while d is not None and d.op in ("trunc", "zext"):
            o = d.ops[0]
            v = vid(o)
            d = g.defs.get(v) if v is not None and v not in g.argids else None
        if d is not None and d.op == "phi" and depth < 6:
            for x, p in d.ops:
                self.answers(g, arg, x, d.bb, p, res, depth + 1)
            return
        m = self.maskat(g, arg, 0, bb) if pred is None else self.maskat(g, arg, 0, pred)
        if pred is not None:
            e = self.edgefilters(g, ("op", arg)).get((pred, bb))
            if e is not None:
                m &= e
        c = kint(o)
        if c is None or c:
            res[True] |= m
        if not c:
            res[False] |= m

    def isval(self, f, o):
        return True

    def edgefilters(self, f, what, elem=False):
        """{(block, target): mask} for a location or an operand."""
        ek = (f.name, str(what), elem)
        if ek in self.efs:
            return self.efs[ek]
        out = self.efs[ek] = {}
        for o, b, m in self.elemtests(f) if elem else self.testlist(f):
            if isinstance(o, tuple):
                hit = what[0] == "loc" and o[1][:3] == what[1][:3] and what[1][3] == "val"
            elif what[0] == "loc":
                d = f.defs.get(vid(o))
                k = self.key(f, d.ops[0]) if d is not None and d.op == "load" else None
                hit = k is not None and self.norm(f, k) == what[1]
            else:
                hit = self.same(f, o, what[1])
            if hit:
                for s, x in m.items():
                    e = (b, s)
                    out[e] = out.get(e, -1) & x
        return out

    def cut(self, a, m):
        """What is left of the types a after a test that lets m through."""
        m &= (1 << 50) - 1
        a &= m | UNK
        if a & UNK and bin(m).count("1") <= 4:
            # whatever it was, it passed a test that names these types
            a = m
            if a != self.bit("disabler"):
                a &= ~self.bit("disabler")
        return a

    def leaks(self, f, a):
        """Is the address of local a kept somewhere?"""
        k = ("leak", f.name, a)
        if k not in self.perm:
            addr = {a}
            for i in f.instrs():
                if i.op == "getelementptr" and vid(i.d["base"]) in addr:
                    addr.add(i.id)
            d = f.defs[a]
            self.perm[k] = (d.d.get("dt") or "") == "obj" and any(i.op == "store" and vid(i.ops[0]) in addr for i in f.instrs())
        return self.perm[k]

    def filt(self, f, o, d, at, r, src=None):
        """Narrow r by the tests of o between its definition and `at`."""
        m, e = self.narrow(f, o, d, at, False, src), self.narrow(f, o, d, at, True, src)
        a = self.cut(r[0], m & ~UNK) if m & ((1 << 50) - 1) != (1 << 50) - 1 else r[0]
        b = r[1] & e
        if r[1] & UNK and not e & UNK:
            b |= e
        return a, b

    def narrow(self, f, o, d, at, elem, first=None):
        FULL = (1 << 50) - 1 | UNK
        edges = self.edgefilters(f, ("op", o), elem)
        if not edges:
            return FULL
        src = d.bb if d is not None else 0
        # what is known about other loads of the same expression holds from the start
        start = 0 if d is not None and d.op == "load" else src
        if first is not None:
            start = src = first
        mk = ("filt", f.name, str(o) if not (d is not None and d.op == "load") else ("ld", id(edges)), start, elem)
        state = self.perm.get(mk)
        if state is None:
            state = {start: {frozenset(): FULL}}
            work = [(start, frozenset())]
            n = 0
            while work:
                b, fl = work.pop()
                n += 1
                if n > 20000:
                    state = {}
                    break
                s = state[b][fl]
                for t in dict.fromkeys(f.succs[b]):
                    m = edges.get((b, t))
                    # elements that passed a check are of a known type
                    ns = s if m is None else m if elem and m != -1 and m != FULL & ~UNK else s & (m | UNK)
                    if t == src and start == src:
                        continue
                    if not elem and not ns & ~UNK:
                        continue
                    self.spread(f, state, work, b, fl, t, ns, lambda x, y: x | y)
            state = {b: self.union(st.values()) for b, st in state.items()}
            self.perm[mk] = state
        return state.get(at.bb, FULL)

    @staticmethod
    def union(xs):
        r = 0
        for x in xs:
            r |= x
        return r

    # -- the whole program ------------------------------------------------------------
    def add(self, tab, k, v, why):
        o = tab.get(k, (0, 0))
        n = self.join(o, v)
        if n != o:
            tab[k] = n
            for bit in range(0, 62):
                if n[0] & ~o[0] & (1 << bit):
                    self.why.setdefault((id(tab), k, bit), why)
            self.dirty = True

    def solve(self):
        P = self.P
        # fields that hold script values
        self.known = set()
        for s, st in P.structs.items():
            for n, t, _ in st["fields"]:
                if (t or "").replace("const ", "") == "obj":
                    self.known.add((s, n))
        self.known -= self.opaque()
        self.round = 0
        fs = [f for f in P.funcs.values() if f.blocks and f.name not in self.skip and not f.cname.endswith("_test")]
        taken = set()
        for f in P.funcs.values():
            for c in f.calls():
                for o in c.ops:
                    if isinstance(o, dict) and o.get("fn") in P.funcs:
                        taken.add(o["fn"])
        cbs = {}
        # functions called in ways that are not understood
        direct = set()
        for f in P.funcs.values():
            for c in f.calls():
                if c.callee:
                    direct.add(c.callee)
        itr = {"obj_array_foreach": 1, "obj_array_foreach_flat": 1, "obj_dict_foreach": 2}
        iterated = set()
        for f in P.funcs.values():
            for c in f.calls():
                if c.callee in itr:
                    for t in P.fvalue_targets(f, c.ops[3]):
                        iterated.add(t)
        for g in fs:
            for k in range(len(g.argids)):
                if self.dt(g, k) == "obj" and (g.name, k) not in self.rc and g.name not in iterated and g.name not in direct:
                    self.params[(g.name, k)] = (UNK, UNK)
        for t in iterated | taken:
            g = P.funcs.get(t)
            for k in range(len(g.argids) if g is not None else 0):
                self.mixed.add((t, k))
        self.dirty = True
        while self.dirty and self.round < 12:
            self.dirty = False
            self.round += 1
            self.memo = {}
            for f in fs:
                self.visit(f, itr)
            for f in P.funcs.values():
                if f.name in self.skip and f.blocks and (f.ditypes[0] if f.ditypes else "") == "obj":
                    for i in f.instrs():
                        if i.op == "ret" and i.ops:
                            v = self.value(f, i.ops[0], i)
                            self.add(self.rets, f.name, (v[0] & ~VOID, v[1]), i)    # nothing is made of nothing

        # fields nobody was seen to set
        if self.round < 24 and not getattr(self, "late", False):
            self.late = True
            for fl in self.known:
                if not self.fields.get(fl, (0, 0))[0]:
                    self.add(self.fields, fl, (UNK, UNK), None)
            self.dirty = True
            while self.dirty and self.round < 24:
                self.dirty = False
                self.round += 1
                self.memo = {}
                for f in fs:
                    self.visit(f, itr)

    def visit(self, f, itr):
        P = self.P
        rt = (f.ditypes[0] if f.ditypes else "") or ""
        for i in f.instrs():
            # a pointer to a value is handed on
            if i.op == "call" and not (i.callee or "").startswith("llvm."):
                for x, o in enumerate(i.ops):
                    v = vid(o)
                    if v in f.argids and self.dt(f, f.argids.index(v)) == "obj *":
                        self.add(self.outs, (f.name, f.argids.index(v)), self.outval(f, i, x, (0, 0)), i)
                    elif v is not None and v not in f.argids and f.defs[v].op == "getelementptr":
                        fl = P.field(f, o)
                        if fl in self.known:
                            r = self.outval(f, i, x, (0, 0))
                            self.add(self.fields, fl, (r[0] & ~VOID, r[1]), i)
            if i.op == "call":
                n = i.callee
                if n in itr:
                    e = self.value(f, i.ops[1], i)[1]
                    for t in P.fvalue_targets(f, i.ops[3]):
                        g = P.funcs.get(t)
                        if g is None:
                            continue
                        if n == "obj_dict_foreach":
                            self.add(self.params, (t, 2), (UNK, UNK), i)
                            self.add(self.params, (t, 3), (e, UNK), i)
                        else:
                            e &= ~self.bit("disabler")
                            if n.endswith("flat"):
                                e = e & ~self.bit("array") | (UNK if e & self.bit("array") else 0)
                            self.add(self.params, (t, 2), (e, UNK), i)
                    continue
                g = P.funcs.get(n)
                if g is None or not g.blocks or g.name in self.skip:
                    continue
                for k in range(min(len(i.ops), len(g.argids))):
                    if self.dt(g, k) == "obj":
                        v = self.value(f, i.ops[k], i)
                        self.add(self.params, (n, k), v, i)
                        st = self.sites.setdefault((n, k), {})
                        sk = tuple(kint(o) for o in i.ops)
                        st[sk] = self.join(st.get(sk, (0, 0)), v)
            elif i.op == "store":
                v = vid(i.ops[0])
                if v is not None:
                    if v in f.argids:
                        if self.dt(f, f.argids.index(v)) == "obj *" and not (vid(i.ops[1]) not in f.argids and vid(i.ops[1]) is not None and f.defs[vid(i.ops[1])].op == "alloca" and f.defs[vid(i.ops[1])].d.get("dt") == "obj *"):
                            self.kept.add((f.name, f.argids.index(v)))
                    elif f.defs[v].op == "getelementptr" and P.field(f, i.ops[0]) in self.known:
                        self.add(self.fields, P.field(f, i.ops[0]), (UNK, UNK), i)
                fl = P.field(f, i.ops[1])
                if fl in self.known:
                    v = self.value(f, i.ops[0], i)
                    if kint(i.ops[0]) != 0:
                        self.add(self.fields, fl, (v[0] & ~VOID | (UNK if v[0] & VOID else 0), v[1]), i)
                else:
                    k = self.key(f, i.ops[1])
                    if k is not None and k[0] == "p" and k[1] in f.argids:
                        j = f.argids.index(k[1])
                        if self.dt(f, j) == "obj *" and not [x for x in k[2] if x != 0]:
                            self.add(self.outs, (f.name, j), self.value(f, i.ops[0], i), i)
            elif i.op == "ret" and i.ops and rt == "obj":
                v = self.value(f, i.ops[0], i)
                self.add(self.rets, f.name, (v[0] & ~VOID | (UNK if v[0] & VOID else 0), v[1]), i)

    def demands(self, f, c):
        """[(operand, what is demanded of it, is it about the elements, callee)] at call c."""
        out = []
        it = {"obj_array_foreach": (2,), "obj_array_foreach_flat": (2,), "obj_dict_foreach": (3,), "obj_iterable_foreach": (3,)}.get(c.callee)
        if it:
            for t in self.P.fvalue_targets(f, c.ops[3]):
                for k in it:
                    r = self.req.get((t, k))
                    if r and t in self.P.funcs:
                        out.append((c.ops[1], r, True, t))
            return out
        for k, o in enumerate(c.ops):
            r = self.req.get((c.callee, k))
            if r:
                out.append((o, r, False, c.callee))
        return out

    def show(self, m):
        return "|".join([self.names.get(t, "void" if t == 0 else str(t)) for t in range(50) if m & (1 << t)] + (["?"] if m & UNK else []))
