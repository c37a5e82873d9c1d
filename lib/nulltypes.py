"""Where a script value may be missing.

The inference of objtypes, with "no value" followed through stores, parameters
and results, and with the fields of objects that some creator of the object
leaves empty.
"""
from prog import vid, kint, isnull
from objtypes import Types, UNK, VOID

# cells of containers: what is in them is a matter of the container
CONTAINERS = {("obj_array", "val"), ("obj_array", "tail"), ("obj_array", "next"), ("obj_dict", "tail"), ("obj_dict", "next"), ("obj_dict", "val"), ("obj_dict", "key")}
# fields that are empty for a while, and are filled in before anyone else sees the object
ASSURED = {
    ("obj_custom_target", "output"): "a target without declared outputs gets an empty list from its creator (checked)",
    ("obj_custom_target", "private_path"): "only targets made for generated lists have no name and no directory of their own, and generated lists are not made for those",
    ("obj_build_target", "soname"): "set for every shared library and module, and only read for those",
    ("obj_func", "kwarg_defaults"): "made with the first default, and only read when there are defaults",
}


class NullTypes(Types):
    def __init__(self, *a):
        super().__init__(*a)
        self.zero = False
        self.handed = set()
        self.nested = {}        # (object, field of a structure inside it) -> creators that leave it empty
        self.nullable = {}      # field -> creators that leave it empty

    # -- no value is a value -------------------------------------------------
    def value(self, f, o, at, depth=0):
        if kint(o) == 0:
            return (VOID, 0) if self.zero else (0, 0)
        return super().value(f, o, at, depth)

    def stored(self, f, i):
        return (VOID, 0) if self.zero and kint(i.ops[0]) == 0 else super().stored(f, i)

    def base(self, f, o, d, at, depth):
        r = super().base(f, o, d, at, depth)
        if d is not None and d.op == "load":
            fl = self.P.field(f, d.ops[0])
            if self.lacks(f, d, fl):
                r = (r[0] & ~VOID | (0 if self.settled(f, d, fl, at) else VOID), r[1])
        return r

    def visit(self, f, itr):
        super().visit(f, itr)
        P = self.P
        rt = (f.ditypes[0] if f.ditypes else "") or ""
        for i in f.instrs():
            if i.op == "store":
                fl = P.field(f, i.ops[1])
                if fl in self.known and kint(i.ops[0]) != 0:
                    v = self.value(f, i.ops[0], i)
                    if v[0] & VOID and (self.zero or fl[0].startswith("obj_") or not fl[0].startswith("build_dep") and self.parts(f, i.ops[0])):
                        self.add(self.fields, fl, (VOID, 0), i)
                        if not self.zero:
                            self.handed.add(fl)
            elif i.op == "ret" and i.ops and rt == "obj":
                if self.value(f, i.ops[0], i)[0] & VOID:
                    self.add(self.rets, f.name, (VOID, 0), i)

    # -- fields a creator leaves empty ----------------------------------------
    def sets(self):
        """Fields of script values each function stores to (or has filled in)."""
        k = self.perm.get("sets")
        if k is None:
            k = self.perm["sets"] = {}
            for f in self.P.funcs.values():
                s = k[f.name] = set()
                for i in f.instrs():
                    if i.op == "store":
                        fl = self.P.field(f, i.ops[1])
                        if fl in self.known and kint(i.ops[0]) != 0:
                            s.add(fl)
                    elif i.op == "call":
                        n = i.callee or ""
                        for x, o in enumerate(i.ops):
                            v = vid(o)
                            if v is None or v in f.argids:
                                continue
                            g = self.P.funcs.get(n)
                            if g is not None and self.dt(g, x) == "obj *" and self.P.field(f, o) in self.known:
                                s.add(self.P.field(f, o))
                        if n.startswith("llvm.memcpy"):
                            s.add(("copy", self.pointee(f, i.ops[0])))
        return k

    def pointee(self, f, o):
        """Structure behind a pointer."""
        t = self.P.ditype(f, o) or ""
        t = t.replace("const ", "")
        if t.startswith("struct ") and t.endswith("*"):
            return t[7:].rstrip(" *")
        d = f.defs.get(vid(o)) if vid(o) is not None and vid(o) not in f.argids else None
        if d is not None and d.op == "alloca":
            t = d.d.get("dt") or ""
            return t[7:] if t.startswith("struct ") else None
        return None

    def closure(self, n, depth=12):
        """Fields set by n and what it calls."""
        k = ("closure", n)
        if k not in self.perm:
            st = self.sets()
            seen, work = {n}, [(n, 0)]
            while work:
                x, d = work.pop()
                if d >= depth:
                    continue
                for c in self.P.funcs[x].calls():
                    for t in self.P.call_targets(c):
                        g = self.P.funcs.get(t)
                        if g is not None and t not in seen and g.cname not in ("interp_node", "make_obj", "eval_project", "subproject", "eval"):
                            seen.add(t)
                            work.append((t, d + 1))
            self.perm[k] = set().union(*[st[x] for x in seen])
        return self.perm[k]

    def creators(self):
        """[(function, structure, instruction)]: where objects and the contexts of loops come to be."""
        inv = {v: k for k, v in self.N.items()}
        out = []
        for f in self.P.funcs.values():
            if f.file.endswith("_test.c") or f.cname.endswith("_test"):
                continue
            for i in f.instrs():
                if i.op == "call" and i.callee and self.P.funcs.get(i.callee) is not None and self.P.funcs[i.callee].cname == "make_obj":
                    s = inv.get(kint(i.ops[2]))
                    if s in self.P.structs:
                        out.append((f, s, i))
        return out

    def kills(self, f, i, fl):
        """Does instruction i set the field (of some object)?"""
        if i.op == "store":
            return self.P.field(f, i.ops[1]) == fl and kint(i.ops[0]) != 0
        if i.op == "call":
            n = i.callee or ""
            g = self.P.funcs.get(n)
            for x, o in enumerate(i.ops):
                if g is not None and vid(o) is not None and self.dt(g, x) == "obj *" and self.P.field(f, o) == fl:
                    return True
            if n.startswith("llvm.memcpy"):
                return fl in self.inside(self.pointee(f, i.ops[0]))
            for t in self.P.call_targets(i):
                g = self.P.funcs.get(t)
                if g is not None and g.cname not in ("interp_node", "make_obj", "eval_project", "subproject", "eval"):
                    k = self.closure(t)
                    if fl in k or any(("copy", x) in k for x in self.holders(fl)):
                        return True
        return False

    def inner(self, t):
        s = t[7:].rstrip(" *") if t.startswith("struct ") else None
        return {x[0] for x in self.inside(s)}

    def inside(self, s):
        k = ("inside", s)
        if k not in self.perm:
            self.perm[k] = set(self.members(s)) if s in self.P.structs else set()
        return self.perm[k]

    def holders(self, fl):
        k = ("holders", fl)
        if k not in self.perm:
            self.perm[k] = [s for s in self.P.structs if s.startswith(("obj_", "build_dep")) and fl in self.inside(s)]
        return self.perm[k]

    def left_empty(self, f, c, fl):
        """Can f return successfully after the creation c without setting the field?"""
        for i in f.blocks[c.bb][c.ix + 1:]:
            if self.kills(f, i, fl):
                return False
        seen, work = set(), [(c.bb, s) for s in f.succs[c.bb]]
        last = f.blocks[c.bb][-1]
        if last.op == "ret":
            return self.okret(f, last, None)
        while work:
            p, b = work.pop()
            if (p, b) in seen:
                continue
            seen.add((p, b))
            if any(self.kills(f, i, fl) for i in f.blocks[b]):
                continue
            t = f.blocks[b][-1]
            if t.op == "ret":
                if self.okret(f, t, p):
                    return True
                continue
            work += [(b, s) for s in f.succs[b]]
        return False

    def stays_empty(self, f, c, fl, seen=()):
        """Is the field still empty when the object is handed to the rest of the program: a function
        that is only called from elsewhere may leave it to its callers."""
        if not self.left_empty(f, c, fl):
            return False
        sites = self.usesites(f.name)
        if len(seen) < 3 and f.name not in seen and sites and f.name not in self.taken() and all(x.callee == f.name for _, x in sites):
            return any(self.stays_empty(g, x, fl, seen + (f.name,)) for g, x in sites)
        return True

    def taken(self):
        """Functions whose address is stored in a table or variable."""
        if "taken" not in self.perm:
            out = self.perm["taken"] = set()
            for g in self.P.globals.values():
                work = [g.get("init")]
                while work:
                    x = work.pop()
                    if isinstance(x, dict):
                        if x.get("fn"):
                            out.add(x["fn"])
                        work += [y for y in x.values() if isinstance(y, (dict, list))]
                    elif isinstance(x, list):
                        work += x
            for g in self.P.funcs.values():
                for i in g.instrs():
                    if i.op in ("store", "phi", "select"):
                        out |= {y["fn"] for x in i.ops for y in (x if isinstance(x, tuple) else (x,)) if isinstance(y, dict) and y.get("fn")}
        return self.perm["taken"]

    def okret(self, f, t, p):
        if not t.ops:
            return True
        v = kint(t.ops[0])
        d = f.defs.get(vid(t.ops[0])) if vid(t.ops[0]) is not None and vid(t.ops[0]) not in f.argids else None
        if d is not None and d.op == "phi" and d.bb == t.bb:
            v = next((kint(x) for x, q in d.ops if q == p), None)
        ty = f.ditypes[0] if f.ditypes else ""
        if (ty or "").endswith("*"):
            if d is not None and d.op == "phi" and d.bb == t.bb:
                return not any(isnull(x) for x, q in d.ops if q == p)
            return not isnull(t.ops[0])
        if ty == "_Bool":
            return v != 0
        if ty == "enum iteration_result":
            return v != self.P.enum("ir_err")
        return True

    def find_nullable(self):
        for f, s, c in self.creators():
            for fl in self.members(s):
                if fl in self.known and fl not in CONTAINERS and self.stays_empty(f, c, fl):
                    if fl[0] == s:
                        self.nullable.setdefault(fl, set()).add(f.cname)
                    else:
                        self.nested.setdefault((s, fl), set()).add(f.cname)

    def lacks(self, f, d, fl):
        """Can the field read by load d be empty in the kind of object it is part of?"""
        if fl in self.nullable:
            return True
        if not any(x[1] == fl for x in self.nested):
            return False
        v = self.basis(f, d.ops[0])
        t = self.pointee(f, {"v": v}) if v is not None else None
        if t is None and v is not None and v not in f.argids and f.defs[v].op == "call":
            g = self.P.funcs.get(f.defs[v].callee)
            r = ((g.ditypes[0] if g is not None and g.ditypes else "") or "").replace("const ", "")
            t = r[7:].rstrip(" *") if r.startswith("struct ") else None
        return (t, fl) in self.nested

    def demands(self, f, c):
        out = super().demands(f, c)
        g = self.P.funcs.get(c.callee)
        if g is not None and g.cname == "get_cstr" and self.parts(f, c.ops[1]):
            # accepts nothing, and returns nothing then: which may be printed
            uses = [i for i in f.instrs() for x in i.ops if vid(x if not isinstance(x, tuple) else x[0]) == c.id]
            if uses and all(i.op == "call" and self.printed(f, i, c.id) for i in uses):
                return out
            return [(o, r & ~VOID, e, x) for o, r, e, x in out]
        if g is not None and g.cname in ("obj_array_push", "obj_dict_set"):
            k = len(c.ops) - 1
            if not any(o is c.ops[k] for o, _, _, _ in out) and self.parts(f, c.ops[k]):
                out.append((c.ops[k], self.ANY, False, c.callee))
        return out

    def printed(self, f, i, v):
        """Is v one of the variable arguments of a call?"""
        g = self.P.funcs.get(i.callee)
        n = len(g.argids) if g is not None else None
        return n is not None and any(vid(o) == v for o in i.ops[n:]) and not any(vid(o) == v for o in i.ops[:n])

    def blame(self, f, o):
        return ", ".join(sorted(self.parts(f, o))) or "handed here by a caller"

    def parts(self, f, o):
        """The parts that may be missing behind an operand."""
        out, work, seen = set(), [o], set()
        while work:
            o = work.pop()
            v = vid(o)
            if v is None or v in seen or v in f.argids:
                continue
            seen.add(v)
            d = f.defs[v]
            if d.op == "load":
                fl = self.P.field(f, d.ops[0])
                if fl is not None and (self.lacks(f, d, fl) or fl in self.handed):
                    out.add("%s.%s" % fl)
                a = vid(d.ops[0])
                if a is not None and a not in f.argids and f.defs[a].op == "alloca":
                    work += [i.ops[0] for i in f.instrs() if i.op == "store" and vid(i.ops[1]) == a]
            elif d.op in ("phi", "select"):
                work += [x for x, _ in d.ops] if d.op == "phi" else d.ops[1:]
        return out

    def members(self, s):
        """Fields of a structure and of the structures inside it."""
        for n, t, _ in self.P.structs[s]["fields"]:
            yield s, n
            t = (t or "").replace("const ", "")
            if t.startswith("struct ") and not t.endswith("*") and t[7:] in self.P.structs:
                yield from self.members(t[7:])

    # -- fields known to be set where they are read ----------------------------
    def basis(self, f, p):
        """The object a field pointer leads into: operand of the base pointer."""
        v = vid(p)
        while v is not None and v not in f.argids and f.defs[v].op == "getelementptr":
            v = vid(f.defs[v].d["base"])
        return v

    def sameobj(self, f, a, b):
        if a == b:
            return a is not None
        if a is None or b is None or a in f.argids or b in f.argids:
            return False
        x, y = f.defs[a], f.defs[b]
        if x.op == y.op == "call" and x.callee == y.callee and len(x.ops) == 2 and len(y.ops) == 2:
            return self.same(f, x.ops[1], y.ops[1])
        if x.op == y.op == "load":
            return self.same(f, {"v": a}, {"v": b})
        return False

    def settled(self, f, ld, fl, at):
        k = ("settled", f.name, ld.id)
        if k not in self.perm:
            self.perm[k] = self._settled(f, ld, fl)
        return self.perm[k]

    def _settled(self, f, ld, fl):
        base = self.basis(f, ld.ops[0])
        cfg = self.B.cfg(f)
        for i in f.instrs():
            if not (i.bb == ld.bb and i.ix < ld.ix or i.bb != ld.bb and cfg.dominates(i.bb, ld.bb)):
                continue
            if i.op == "store" and self.P.field(f, i.ops[1]) == fl and kint(i.ops[0]) is None and self.sameobj(f, base, self.basis(f, i.ops[1])):
                if not self.value(f, i.ops[0], i)[0] & VOID:
                    return True
            elif i.op == "call" and i.callee and i.callee.split("@")[0] in ("make_obj", "obj_array_dup", "obj_dict_dup", "obj_array_join"):
                for o in i.ops:
                    if vid(o) is not None and self.P.field(f, o) == fl and self.sameobj(f, base, self.basis(f, o)):
                        return True
            elif i.op == "call" and i.callee in self.P.funcs and fl in self.sets()[i.callee]:
                # a helper that fills in the structure
                g = self.P.funcs[i.callee]
                if any(vid(o) is not None and x < len(g.argids) and self.sameobj(f, base, self.basis(f, o)) and fl[0] in self.inner(self.dt(g, x))
                       for x, o in enumerate(i.ops)):
                    return True
        # set by the callers, before the call
        sh = self.shape(f, base)
        if sh is not None and len(sh) > 1:
            sites = self.usesites(f.name)
            if sites and all(any(self.setting(g, i, fl) and self.shape(g, self.basis(g, self.setting(g, i, fl))) == sh
                                 and (i.bb == c.bb and i.ix < c.ix or i.bb != c.bb and self.B.cfg(g).dominates(i.bb, c.bb)) for i in g.instrs())
                             for g, c in sites):
                return True
        # tested by the callers, before the call
        sites = self.usesites(f.name)
        if sites and all(self.guarded(g, c, fl) for g, c in sites):
            return True
        # a flag that is only set together with the field
        for w in self.witnesses(fl):
            match = lambda p: self.P.field(f, p) == w and self.sameobj(f, base, self.basis(f, p))
            for b in f.blocks:
                t = b[-1]
                if t.op == "br" and t.ops and len(t.d["succ"]) == 2:
                    for pol, s in ((True, t.d["succ"][0]), (False, t.d["succ"][1])):
                        if len(f.preds[s]) == 1 and (s == ld.bb or cfg.dominates(s, ld.bb)) \
                                and self.implied(f, t.ops[0], pol, w, match, lambda o: self.sameobj(f, base, vid(o))):
                            return True
        # a kind that is only given to objects that have the field
        for w, k, b in self.kinds(f, base):
            if w[0] == fl[0] and len(f.preds[b]) == 1 and (b == ld.bb or cfg.dominates(b, ld.bb)) and self.kindful(w, k, fl):
                return True
        return False

    def kinds(self, f, base):
        """[(field, constant, block)]: blocks only reached when a field of the object has a value."""
        out = []
        for b in f.blocks:
            t = b[-1]
            if not t.ops or vid(t.ops[0]) is None or vid(t.ops[0]) in f.argids:
                continue
            d = f.defs[vid(t.ops[0])]
            todo = []
            if t.op == "br" and len(t.d["succ"]) == 2 and d.op == "icmp" and d.d["pred"] in ("eq", "ne") and kint(d.ops[1]) is not None:
                todo = [(d.ops[0], kint(d.ops[1]), t.d["succ"][0 if d.d["pred"] == "eq" else 1])]
            elif t.op == "switch":
                todo = [(t.ops[0], k, x) for k, x in t.d["cases"]]
            for o, k, x in todo:
                l = f.defs.get(vid(o)) if vid(o) is not None and vid(o) not in f.argids else None
                if l is not None and l.op == "load":
                    w = self.P.field(f, l.ops[0])
                    if w is not None and k != 0 and self.sameobj(f, base, self.basis(f, l.ops[0])):
                        out.append((w, k, x))
        return out

    def kindful(self, w, k, fl):
        key = ("kindful", w, k, fl)
        if key not in self.perm:
            sites = [(f, i) for f in self.P.funcs.values() for i in f.instrs()
                     if i.op == "store" and self.P.field(f, i.ops[1]) == w and kint(i.ops[0]) in (k, None)]
            self.perm[key] = bool(sites) and all(kint(i.ops[0]) == k and self.together(f, i, fl) for f, i in sites)
        return self.perm[key]

    def guarded(self, g, c, fl):
        """Is call c only reached when such a field was found to be set?"""
        cfg = self.B.cfg(g)
        for b in g.blocks:
            t = b[-1]
            if t.op == "br" and t.ops and len(t.d["succ"]) == 2:
                r = self.flagload(g, t.ops[0])
                if r is not None and self.P.field(g, r[0].ops[0]) == fl:
                    s = t.d["succ"][1 if r[1] else 0]
                    if len(g.preds[s]) == 1 and (s == c.bb or cfg.dominates(s, c.bb)):
                        return True
        return False

    def shape(self, f, v):
        """How an object was reached: accessors, loads and fields, from wherever they start."""
        out = []
        for _ in range(10):
            if v is None or v in f.argids:
                return out
            d = f.defs[v]
            if d.op == "call" and d.callee and len(d.ops) == 2:
                out.append(d.callee.split("@")[0])
                v = vid(d.ops[1])
            elif d.op == "load":
                fl = self.P.field(f, d.ops[0])
                b = f.defs.get(vid(d.ops[0])) if vid(d.ops[0]) is not None and vid(d.ops[0]) not in f.argids else None
                if b is not None and b.op == "alloca":
                    # a parameter or local that holds the pointer
                    return out
                out.append(("load", fl))
                v = vid(d.ops[0])
            elif d.op == "getelementptr":
                v = vid(d.d["base"])
            elif d.op == "bitcast":
                v = vid(d.ops[0])
            else:
                return out if d.op == "alloca" else None
        return None

    def setting(self, f, i, fl):
        """Pointer to the field, if instruction i gives it a value."""
        if i.op == "store" and self.P.field(f, i.ops[1]) == fl and kint(i.ops[0]) is None:
            return i.ops[1]
        if i.op == "call" and (i.callee or "").split("@")[0] in ("make_obj", "obj_array_dup"):
            return next((o for o in i.ops if vid(o) is not None and self.P.field(f, o) == fl), None)
        return None

    def usesites(self, n):
        """[(function, call)]: calls of n, and calls that are handed n."""
        k = "usesites"
        if k not in self.perm:
            u = self.perm[k] = {}
            for g in self.P.funcs.values():
                for c in g.calls():
                    for x in {c.callee} | {o.get("fn") for o in c.ops if isinstance(o, dict)}:
                        if x:
                            u.setdefault(x, []).append((g, c))
        return self.perm[k].get(n, [])

    def flagload(self, f, o):
        v, neg = vid(o), False
        for _ in range(6):
            d = f.defs.get(v) if v is not None and v not in f.argids else None
            if d is None:
                return None
            if d.op in ("trunc", "zext"):
                v = vid(d.ops[0])
            elif d.op == "xor" and kint(d.ops[1]) in (1, -1):
                v, neg = vid(d.ops[0]), not neg
            elif d.op == "icmp" and kint(d.ops[1]) == 0 and d.d["pred"] in ("eq", "ne"):
                v, neg = vid(d.ops[0]), neg != (d.d["pred"] == "eq")
            elif d.op == "load":
                return d, neg
            else:
                return None
        return None

    def implied(self, f, o, pol, w, match, arg, depth=0):
        """Does the condition being `pol` mean that the flag w of the object is set?"""
        k = kint(o)
        if k is not None:
            return (k != 0) != pol
        d = f.defs.get(vid(o)) if vid(o) is not None and vid(o) not in f.argids else None
        if d is None or depth > 8:
            return False
        if d.op in ("trunc", "zext", "freeze"):
            return self.implied(f, d.ops[0], pol, w, match, arg, depth + 1)
        if d.op == "xor" and kint(d.ops[1]) in (1, -1):
            return self.implied(f, d.ops[0], not pol, w, match, arg, depth + 1)
        if d.op == "icmp" and kint(d.ops[1]) == 0 and d.d["pred"] in ("eq", "ne"):
            return self.implied(f, d.ops[0], pol == (d.d["pred"] == "ne"), w, match, arg, depth + 1)
        if d.op == "load":
            return pol and match(d.ops[0])
        if d.op == "select":
            # a && b, a || b
            c, x, y = d.ops
            one = lambda z, p: self.implied(f, z, p, w, match, arg, depth + 1)
            return (one(c, True) or one(x, pol)) and (one(c, False) or one(y, pol))
        if d.op == "call":
            g = self.P.funcs.get(d.callee)
            return pol and g is not None and bool(g.blocks) and any(
                vid(a) is not None and arg(a) and self.onlyif(g, x, w) for x, a in enumerate(d.ops[:len(g.argids)]))
        if d.op == "phi":
            good = self.edges(f, match)
            cfg = self.B.cfg(f)
            for y, p in d.ops:
                if (p, d.bb) in good or any(len(f.preds[s]) == 1 and (s == p or cfg.dominates(s, p)) for _, s in good):
                    continue
                if not self.implied(f, y, pol, w, match, arg, depth + 1):
                    return False
            return True
        return False

    def edges(self, f, match):
        """Edges taken only with the flag set."""
        out = set()
        for b in f.blocks:
            t = b[-1]
            if t.op == "br" and t.ops and len(t.d["succ"]) == 2 and t.d["succ"][0] != t.d["succ"][1]:
                r = self.flagload(f, t.ops[0])
                if r is not None and match(r[0].ops[0]):
                    out.add((t.bb, t.d["succ"][1 if r[1] else 0]))
        return out

    def onlyif(self, g, x, w):
        """Does g return true only when flag w of its parameter x is set?"""
        k = ("onlyif", g.name, x, w)
        if k not in self.perm:
            self.perm[k] = False
            match = lambda p: self.P.field(g, p) == w and self.basis(g, p) == g.argids[x]
            rets = [b[-1] for b in g.blocks if b[-1].op == "ret" and b[-1].ops]
            cfg, good = self.B.cfg(g), self.edges(g, match)
            self.perm[k] = bool(rets) and (g.ditypes[0] if g.ditypes else "") == "_Bool" and all(
                any(len(g.preds[s]) == 1 and (s == t.bb or cfg.dominates(s, t.bb)) for _, s in good)
                or self.implied(g, t.ops[0], True, w, match, lambda o: vid(o) == g.argids[x]) for t in rets)
        return self.perm[k]

    def witnesses(self, fl):
        """Boolean fields of the same structure that are only true when fl is set."""
        k = ("witness", fl)
        if k not in self.perm:
            out = []
            for n, t, _ in self.P.structs[fl[0]]["fields"]:
                if "_Bool" not in (t or ""):
                    continue
                sites = [(f, i) for f in self.P.funcs.values() for i in f.instrs()
                         if i.op == "store" and kint(i.ops[0]) != 0 and self.P.field(f, i.ops[1]) == (fl[0], n)]
                if sites and all(self.together(f, i, fl) for f, i in sites):
                    out.append((fl[0], n))
            self.perm[k] = out
        return self.perm[k]

    def together(self, f, st, fl):
        """Is the field of the same object set on every path through the store st?"""
        base, cfg = self.basis(f, st.ops[1]), self.B.cfg(f)
        for i in f.instrs():
            hit = i.op == "store" and self.P.field(f, i.ops[1]) == fl and kint(i.ops[0]) != 0 and self.sameobj(f, base, self.basis(f, i.ops[1])) \
                or i.op == "call" and (i.callee or "").split("@")[0] in ("make_obj", "obj_array_dup") and any(
                    vid(o) is not None and self.P.field(f, o) == fl and self.sameobj(f, base, self.basis(f, o)) for o in i.ops)
            if hit and (i.bb == st.bb or cfg.dominates(i.bb, st.bb) or self.postdom(f, i.bb, st.bb)):
                return True
        return False

    def postdom(self, f, a, b):
        """Does every way on from block b pass block a?"""
        seen, work = {b}, [b]
        while work:
            x = work.pop()
            if f.blocks[x][-1].op == "ret":
                return False
            for s in f.succs[x]:
                if s != a and s not in seen:
                    seen.add(s)
                    work.append(s)
        return True

    def solve(self):
        self.known = {(s, n) for s, st in self.P.structs.items() for n, t, _ in st["fields"] if (t or "").replace("const ", "") == "obj"} - self.opaque()
        self.find_nullable()
        # first which fields are given no value at all, with "no value" followed everywhere
        self.zero = True
        super().solve()
        found = {k: i for k in self.fields if k[0].startswith("obj_") and self.fields[k][0] & VOID
                 for i in [self.why.get((id(self.fields), k, 0))]}
        for k, i in found.items():
            if k not in CONTAINERS:
                self.nullable.setdefault(k, set()).add(i.fn.cname if i is not None else "?")
        for k in ASSURED:
            self.nullable.pop(k, None)
        # then what such fields reach; other values are followed as far as the base analysis does
        self.zero = False
        self.params, self.fields, self.rets, self.outs, self.why = {}, {}, {}, {}, {}
        self.memo, self.tests, self.isobj = {}, {}, {}
        self.sites, self.mixed, self.kept, self.late = {}, set(), set(), False
        for k in [k for k in self.perm if k[0] in ("settled",)]:
            del self.perm[k]
        super().solve()
        for k in ASSURED:
            if k in self.fields:
                self.fields[k] = (self.fields[k][0] & ~VOID, self.fields[k][1])
