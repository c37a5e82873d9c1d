"""Demand-driven symbolic bounds (in the style of ABCD).

Goals are difference constraints x - y <= c over SSA values, constants and zero,
at a program point.  A goal is decided from the definitions of the values, the
conditions of the branches that dominate the point, the declared types and, for
parameters, results and structure fields, from all call sites, returns and
stores of the program.  Loops are handled by induction over the phi cycle.
Arithmetic is taken to be free of wrap-around except where noted.
"""
from prog import vid, kint, isnull, operands

ZERO = None
UNSIGNED = {"uint8_t": (0, 255), "unsigned char": (0, 255), "_Bool": (0, 1), "uint16_t": (0, 65535), "unsigned short": (0, 65535),
            "uint32_t": (0, (1 << 32) - 1), "unsigned int": (0, (1 << 32) - 1), "obj": (0, (1 << 32) - 1), "size_t": (0, None),
            "uint64_t": (0, None), "unsigned long": (0, None), "type_tag": (0, None), "char": (-128, 127), "int8_t": (-128, 127),
            "int16_t": (-32768, 32767)}
CASTS = ("zext", "sext", "freeze", "bitcast")


def width(t):
    return int(t[1:]) if t and t[0] == "i" and t[1:].isdigit() else 64


class Cfg:
    def __init__(self, P, f):
        n = len(f.blocks)
        self.f = f
        self.succs = []
        for b in range(n):
            dead = any(i.op == "call" and (i.callee in P.noret or i.d.get("noreturn")) for i in f.blocks[b])
            self.succs.append([] if dead else list(dict.fromkeys(f.succs[b])))
        seen = {0}
        order = []
        st = [(0, iter(self.succs[0]))]
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succs[s])))
                    break
            else:
                order.append(b)
                st.pop()
        self.rpo = order[::-1]
        self.num = {b: k for k, b in enumerate(self.rpo)}
        self.preds = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succs[b]:
                self.preds[s].append(b)
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in self.rpo[1:]:
                new = None
                for p in self.preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = new, p
                            while x != y:
                                while self.num[x] > self.num[y]:
                                    x = idom[x]
                                while self.num[y] > self.num[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self.idom = idom
        self.ctl = {}

    def dominates(self, a, b):
        if a not in self.num or b not in self.num:
            return False
        while b != a and b != 0:
            b = self.idom[b]
        return a == b

    def reaches(self, a, b):
        """Is there a path of at least one edge from a to b?"""
        r = self.__dict__.setdefault("rch", {})
        if a not in r:
            seen, st = set(), list(self.succs[a])
            while st:
                x = st.pop()
                if x not in seen:
                    seen.add(x)
                    st.extend(self.succs[x])
            r[a] = seen
        return b in r[a]

    def controlling(self, b):
        """Edges (p, s) every path to b has taken last through s."""
        if b in self.ctl:
            return self.ctl[b]
        out = []
        s = b
        while True:
            ps = self.preds.get(s, [])
            ent = [p for p in ps if not self.dominates(s, p)]
            if len(ent) == 1:
                out.append((ent[0], s))
            if s == 0:
                break
            s = self.idom[s]
        self.ctl[b] = out
        return out


def nphi(stack):
    return sum(1 for k in stack if k[0] == "phi")


class Bounds:
    budget = 4000

    def __init__(self, P):
        self.P = P
        self.cfgs = {}
        self.mods = None
        self.fstores = None
        self.reachc = {}
        self.assumed = set()
        self.extra = []

    def cfg(self, f):
        c = self.cfgs.get(f.name)
        if c is None:
            c = self.cfgs[f.name] = Cfg(self.P, f)
        return c

    # -- memory ---------------------------------------------------------------
    def addr(self, f, o, depth=0):
        """Canonical address and the set of memory it was computed from."""
        v = vid(o)
        if v is None:
            if isinstance(o, dict) and "g" in o:
                return ("g", o["g"], o.get("off", 0)), set()
            return ("?", id(o)), set()
        if v in f.argids:
            return ("a", v), set()
        i = f.defs[v]
        if depth > 12:
            return ("v", v), set()
        if i.op == "getelementptr":
            b, dep = self.addr(f, i.d["base"], depth + 1)
            path = []
            for s in i.steps:
                if "f" in s:
                    path.append((s.get("s"), s["f"]))
                else:
                    k = kint(s.get("idx"))
                    path.append(("i", k if k is not None else ("v", vid(s.get("idx")))))
            if path and path[0] == ("i", 0):
                path = path[1:]
            return ("p", b, tuple(path)) if path else b, dep
        if i.op == "load":
            b, dep = self.addr(f, i.ops[0], depth + 1)
            fl = self.P.field(f, i.ops[0])
            r = self.rootalloca(f, i.ops[0])
            return ("L", b), dep | ({("F", fl)} if fl else set()) | ({("A", r)} if r is not None else set()) | ({("G", b[1])} if b[0] == "g" else set())
        if i.op in ("bitcast", "freeze"):
            return self.addr(f, i.ops[0], depth + 1)
        if i.op == "call" and self.pure_getter(i):
            return ("C", i.callee, tuple(repr(self.addr(f, o, depth + 1)[0]) if vid(o) is not None else repr(o) for o in i.ops)), set()
        return ("v", v), set()

    def pure_getter(self, c):
        """Accessors that return the same object for the same argument."""
        return bool(c.callee) and (c.callee.startswith("get_obj_") or c.callee in ("get_str", "get_cstr", "current_project", "get_file_path"))

    def rootalloca(self, f, o):
        v = vid(o)
        while v is not None and v not in f.argids:
            i = f.defs[v]
            if i.op == "alloca":
                return v
            if i.op != "getelementptr":
                return None
            v = vid(i.d["base"])
        return None

    def modset(self, name):
        """Fields and globals a function may store, transitively."""
        if self.mods is None:
            P = self.P
            direct = {}
            for f in P.funcs.values():
                s = set()
                for i in f.instrs():
                    if i.op == "store":
                        s |= self.written(f, i)
                    elif i.op == "call" and (i.callee or "").startswith(("llvm.mem", "memcpy", "memset", "memmove", "fread")):
                        s |= self.written(f, i)
                direct[f.name] = s
            callees = {f.name: {t for c in f.calls() for t in P.call_targets(c) if t in P.funcs} for f in P.funcs.values()}
            changed = True
            while changed:
                changed = False
                for n, cs in callees.items():
                    s = direct[n]
                    k = len(s)
                    for c in cs:
                        s |= direct[c]
                    if len(s) != k:
                        changed = True
            self.mods = direct
        return self.mods.get(name, set())

    def written(self, f, i):
        """What a store or memory-writing library call may change."""
        if i.op == "store":
            ds = [i.ops[1]]
        elif i.op == "call":
            if (i.callee or "").startswith(("llvm.lifetime", "llvm.dbg")):
                return set()
            ds = [i.ops[0]] if (i.callee or "").startswith(("llvm.mem", "memcpy", "memset", "memmove", "fread")) and i.ops else []
        else:
            return set()
        out = set()
        for o in ds:
            r = self.rootalloca(f, o)
            if r is not None:
                out.add(("A", r))
            fl = self.P.field(f, o)
            if fl:
                out.add(("F", fl))
            if isinstance(o, dict) and "g" in o:
                out.add(("G", o["g"]))
            if i.op == "call":
                t = self.P.ditype(f, o)
                t = t[:-2].replace("const ", "") if t and t.endswith(" *") else ""
                if t.startswith("struct ") and t[7:] in self.P.structs:
                    for n, ft, off in self.P.structs[t[7:]]["fields"]:
                        out.add(("F", (t[7:], n)))
        return out

    fresh = {}      # functions that write only to the object they return: name -> structure

    def root(self, a):
        while a[0] in ("p", "L"):
            if a[0] == "L":
                return ("L",)
            a = a[1]
        return a

    def apart(self, f, a, b):
        """Are the objects two addresses lie in certainly different ones?"""
        ra, rb = self.root(a), self.root(b)
        if ra == rb:
            return False
        if ra[0] == "a" and rb[0] == "a":
            self.assumed.add("different pointer parameters do not overlap")
            return True
        for x, y in ((ra, rb), (rb, ra)):
            if x[0] == "v" and x[1] in f.defs and f.defs[x[1]].op == "call" and self.cname(f.defs[x[1]].callee) in self.fresh and y[0] in ("a", "v", "C"):
                return True
        return False

    def cname(self, n):
        return self.P.funcs[n].cname if n in self.P.funcs else n

    def clobbers(self, f, i, deps, cell=None):
        plain = [d for d in deps if d[0] == "P"]
        if plain:
            if i.op == "store" and not self.written(f, i) and i.d.get("vty") in [d[1] for d in plain]:
                return True
            if i.op == "call" and not (i.callee or "").startswith("llvm."):
                at = {d[2] for d in plain}
                if any(vid(o) is not None and self.addr(f, o)[0] in at for o in i.ops):
                    return True
            deps = deps - set(plain)
        if i.op == "store":
            w = self.written(f, i) & deps
            if w and cell is not None and all(x[0] == "F" for x in w) and self.apart(f, self.addr(f, i.ops[1])[0], cell):
                return False
            return bool(w)
        if i.op == "call":
            if (i.callee or "").startswith(("llvm.lifetime", "llvm.dbg")):
                return False
            if self.written(f, i) & deps:
                return True
            for o in i.ops:
                r = self.rootalloca(f, o)
                if r is not None and ("A", r) in deps:
                    return True
            nd = {d for d in deps if d[0] != "A"}
            if nd:
                for t in self.P.call_targets(i):
                    m = self.modset(t) & nd
                    if m and self.cname(t) in self.fresh and cell is not None and all(x[0] == "F" and x[1][0] == self.fresh[self.cname(t)] for x in m):
                        continue
                    if m:
                        return True
        return False

    def between(self, f, a, b):
        """Instructions that may execute after a and before b without a being executed again."""
        if a.bb == b.bb and a.ix < b.ix:
            return f.blocks[a.bb][a.ix + 1:b.ix]
        cfg = self.cfg(f)
        fwd = set()
        st = list(cfg.succs[a.bb])
        while st:
            x = st.pop()
            if x in fwd or x == a.bb:
                continue
            fwd.add(x)
            st.extend(cfg.succs[x])
        bwd = set()
        st = [b.bb]
        first = True
        while st:
            x = st.pop()
            for p in cfg.preds.get(x, []):
                if p == a.bb or p in bwd or p not in fwd:
                    continue
                bwd.add(p)
                st.append(p)
        out = list(f.blocks[a.bb][a.ix + 1:])
        for x in bwd - {b.bb}:
            out += f.blocks[x]
        if b.bb in bwd:
            out += f.blocks[b.bb]
        else:
            out += f.blocks[b.bb][:b.ix]
        return out

    def same(self, f, x, y):
        """Do two SSA values always hold the same number (when both are available)?"""
        x, y = self.strip(f, x), self.strip(f, y)
        if x == y:
            return True
        if x is None or y is None or x in f.argids or y in f.argids:
            return False
        k = (f.name, min(x, y), max(x, y))
        if k in self.reachc:
            return self.reachc[k]
        self.reachc[k] = r = self.same_(f, f.defs[x], f.defs[y])
        return r

    def same_(self, f, a, b):
        if a.op != b.op:
            return False
        if a.op == "call":
            if a.callee != b.callee or a.callee not in ("strlen",) and not self.pure_getter(a):
                return False
            return all((vid(p) is None and p == q) or (vid(p) is not None and vid(q) is not None and (self.addr(f, p)[0] == self.addr(f, q)[0])) for p, q in zip(a.ops, b.ops))
        if a.op in ("add", "sub", "mul", "shl", "udiv", "urem", "lshr", "and"):
            return all((vid(p) is None and p == q) or (vid(p) is not None and vid(q) is not None and self.same(f, vid(p), vid(q))) for p, q in zip(a.ops, b.ops))
        if a.op != "load":
            return False
        pa, da = self.addr(f, a.ops[0])
        pb, db = self.addr(f, b.ops[0])
        if pa != pb or pa[0] == "?":
            return False
        deps = da | db | self.cellof(f, a)
        cfg = self.cfg(f)
        for p, q in ((a, b), (b, a)):
            if (p.bb == q.bb and p.ix < q.ix) or (p.bb != q.bb and cfg.dominates(p.bb, q.bb)):
                return not any(self.clobbers(f, i, deps, pa) for i in self.between(f, p, q))
        # neither dominates: both read what was there at their common dominator
        d = a.bb
        while not cfg.dominates(d, b.bb):
            d = cfg.idom[d] if d in cfg.idom else None
            if d is None:
                return False
        t = f.blocks[d][-1]
        return not any(self.clobbers(f, i, deps, pa) for q in (a, b) for i in self.between(f, t, q))

    def cellof(self, f, ld):
        out = set()
        fl = self.P.field(f, ld.ops[0])
        if fl:
            out.add(("F", fl))
        r = self.rootalloca(f, ld.ops[0])
        if r is not None:
            out.add(("A", r))
        if isinstance(ld.ops[0], dict) and "g" in ld.ops[0]:
            out.add(("G", ld.ops[0]["g"]))
        if not out:
            # through a plain pointer: other stores of this type through plain pointers may hit it
            out.add(("P", ld.ty, self.addr(f, ld.ops[0])[0]))
        return out

    # -- terms ------------------------------------------------------------------
    def strip(self, f, v):
        while v is not None and v not in f.argids:
            i = f.defs[v]
            if i.op in CASTS or (i.op == "trunc" and width(i.ty) >= 32):
                n = vid(i.ops[0])
                if n is None:
                    return v
                v = n
            else:
                break
        return v

    def term(self, f, o):
        """Operand -> (value id or ZERO, constant offset)."""
        k = kint(o)
        if k is not None:
            return (ZERO, k)
        if isnull(o):
            return (ZERO, 0)
        v = vid(o)
        if v is None:
            return ("?", 0)
        c = 0
        for _ in range(16):
            v = self.strip(f, v)
            if v in f.argids:
                break
            i = f.defs[v]
            if i.op in ("add", "sub") and kint(i.ops[1]) is not None:
                k = kint(i.ops[1])
                c += k if i.op == "add" else -k
                n = vid(i.ops[0])
                if n is None:
                    k0 = kint(i.ops[0])
                    return (ZERO, k0 + c) if k0 is not None else ("?", 0)
                v = n
                continue
            # casts of constants
            if i.op in CASTS and kint(i.ops[0]) is not None:
                return (ZERO, kint(i.ops[0]) + c)
            break
        return (v, c)

    # -- facts --------------------------------------------------------------------
    def edgefacts(self, f, p, s):
        t = f.blocks[p][-1]
        if t.op == "br" and len(t.d["succ"]) == 2 and t.d["succ"][0] != t.d["succ"][1]:
            return self.condfacts(f, t.ops[0], t.d["succ"][0] == s)
        if t.op == "switch":
            ks = [k for k, b in t.d["cases"] if b == s]
            if ks and t.d["default"] != s:
                v, c = self.term(f, t.ops[0])
                return [("d", v, ZERO, max(ks) - c), ("d", ZERO, v, c - min(ks))]
        return []

    def condfacts(self, f, o, truth, depth=0):
        v = vid(o)
        if v is None or v in f.argids or depth > 8:
            return []
        i = f.defs[v]
        if i.op == "icmp":
            return self.icmpfacts(f, i, truth, depth)
        if i.op == "xor" and kint(i.ops[1]) in (1, -1):
            return self.condfacts(f, i.ops[0], not truth, depth + 1)
        if i.op in ("zext", "freeze") or (i.op == "trunc" and i.ty == "i1"):
            return self.condfacts(f, i.ops[0], truth, depth + 1)
        if (i.op == "and" and truth) or (i.op == "or" and not truth):
            return self.condfacts(f, i.ops[0], truth, depth + 1) + self.condfacts(f, i.ops[1], truth, depth + 1)
        if i.op == "phi":
            live = [(x, p) for x, p in i.ops if not (kint(x) is not None and bool(kint(x)) != truth)]
            if len(live) == 1:
                x, p = live[0]
                out = self.condfacts(f, x, truth, depth + 1)
                for e in [(p, i.bb)] + self.cfg(f).controlling(p):
                    out += self.edgefacts(f, *e)
                return out
            return []
        if i.op == "call":
            return self.callfacts(f, i, truth)
        return []

    CHECKS = {"boundscheck": (2, 3), "bounds_adjust": (1, 2)}

    def callfacts(self, f, c, truth):
        n = self.P.funcs[c.callee].cname if c.callee in self.P.funcs else c.callee
        if truth and n in self.CHECKS:
            l, a = self.CHECKS[n]
            v, k = self.term(f, c.ops[l])
            return [("m", c, c.ops[a], v, k)]
        return []

    def icmpfacts(self, f, i, truth, depth):
        p = i.d["pred"]
        if not truth:
            p = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}[p]
        (a, ca), (b, cb) = self.term(f, i.ops[0]), self.term(f, i.ops[1])
        if a == "?" or b == "?":
            return []
        out = []
        uns = p[0] == "u"

        def le(x, y, c):
            out.append(("d", x, y, c))
        if p == "eq":
            # the comparison of a condition with 0/1
            if b is ZERO and cb == 0 and depth < 6:
                out += self.condfacts(f, i.ops[0], False, depth + 1)
            le(a, b, cb - ca)
            le(b, a, ca - cb)
        elif p == "ne":
            if b is ZERO and cb == 0 and depth < 6:
                out += self.condfacts(f, i.ops[0], True, depth + 1)
            out.append(("n", a, b, cb - ca))
            if b is ZERO and cb == 0:
                out += self.nullrows(f, i.ops[0])
        else:
            if p in ("ugt", "sgt"):
                a, ca, b, cb = b, cb, a, ca
                p = p[0] + "lt"
            elif p in ("uge", "sge"):
                a, ca, b, cb = b, cb, a, ca
                p = p[0] + "le"
            # a + ca < b + cb
            le(a, b, cb - ca - (1 if p.endswith("lt") else 0))
            if uns:
                le(ZERO, a, ca)
                le(ZERO, b, cb)
        return out

    # -- tables ended by an empty row ----------------------------------------------
    def position(self, f, p):
        """(root, path) of an address in a global or local table; path of int | (operand, n) | ("f", k)."""
        path = []
        for _ in range(10):
            v = vid(p)
            if v is None:
                return (("g", p["g"]), path) if isinstance(p, dict) and "g" in p and not p.get("off") else (None, None)
            if v in f.argids:
                return None, None
            i = f.defs[v]
            if i.op == "alloca":
                return ("a", v), path
            if i.op != "getelementptr":
                return None, None
            st = []
            for n, s in enumerate(i.steps):
                if "f" in s or "fi" in s:
                    st.append(("f", s.get("fi")))
                else:
                    k = kint(s["idx"])
                    if s.get("n") is not None:
                        st.append(k if k is not None else (s["idx"], s["n"]))
                    elif k == 0:
                        pass
                    elif n == 0 and k is not None:
                        st.append(("+", k, s.get("ety")))
                    else:
                        return None, None
            path = st + path
            p = i.d["base"]
        return None, None

    def leafpath(self, path, aty):
        """Constant path into an array of structures or scalars, offsets folded; None when not constant."""
        out = []
        if aty and aty.startswith("["):
            elem = aty[aty.index(" x ") + 3:-1]
        else:
            elem = None
        for s in path:
            if isinstance(s, int):
                out.append(s)
            elif s[0] == "f":
                if not out and elem is not None:
                    out.append(0)
                out.append(s[1])
            elif s[0] == "+":
                if s[2] == elem and len(out) <= 1:
                    out = [(out[0] if out else 0) + s[1]]
                elif out and len(out) > 1:
                    out[-1] += s[1]
                else:
                    return None
            else:
                return None
        return out

    def nullrows(self, f, o):
        """The value loaded from a table is not null: the index is not one of a row known to be empty there."""
        v = vid(o)
        if v is None or v in f.argids or f.defs[v].op != "load":
            return []
        root, path = self.position(f, f.defs[v].ops[0])
        if root is None or any(isinstance(x, tuple) and x[0] == "+" for x in path):
            return []
        if root[0] == "g":
            # declared elsewhere: the length is that of the definition
            path = [(x[0], self.tablelen(root[1])) if isinstance(x, tuple) and x[0] != "f" and not x[1] and k == 0 else x for k, x in enumerate(path)]
        var = [k for k, x in enumerate(path) if isinstance(x, tuple) and x[0] != "f"]
        if not var or any(path[k][1] > 512 for k in var):
            return []
        tab = self.table(f, root)
        if tab is None:
            return []
        t, c = self.term(f, path[var[-1]][0])
        if t in (ZERO, "?"):
            return []
        out = []
        last = var[-1]
        for k in range(path[last][1]):
            if self.alwaysnull(f, tab, path[:last] + [k] + path[last + 1:], f.defs[v]):
                out.append(("n", t, ZERO, k - c))
        return out

    def tablelen(self, g):
        t = (self.P.globals.get(g) or {}).get("ty") or ""
        return int(t[1:t.index(" x ")]) if t.startswith("[") else 0

    def alwaysnull(self, f, tab, path, ld):
        for k, x in enumerate(path):
            if isinstance(x, tuple) and x[0] != "f":
                return all(self.alwaysnull(f, tab, path[:k] + [j] + path[k + 1:], ld) for j in range(x[1]))
        base, over = tab
        flat = [x if isinstance(x, int) else x[1] for x in path]
        sts = []
        for q, i in over:
            m = min(len(q), len(flat))
            if q[:m] == flat[:m] and not any(q[m:]) and not any(flat[m:]):
                sts.append(i)
        for i in sts:
            if not (isnull(i.ops[0]) or kint(i.ops[0]) == 0):
                return False
        if sts and any(self.cfg(f).dominates(i.bb, ld.bb) for i in sts):
            return True
        return base is not None and self.isnullat(base, path)

    def isnullat(self, x, path):
        if isinstance(x, dict) and x.get("zero"):
            return True
        if not path:
            while isinstance(x, dict) and "arr" in x:
                x = x["arr"][0] if x["arr"] else {"zero": 1}
            return isnull(x) or kint(x) == 0 or (isinstance(x, dict) and bool(x.get("null") or x.get("zero")))
        if not (isinstance(x, dict) and "arr" in x):
            return False
        k = path[0]
        es = x["arr"]
        if isinstance(k, int) and x.get("struct") == "":
            # an array whose tail of zeroes was packed
            out = []
            for e in es:
                if isinstance(e, dict) and e.get("zero") and str(e.get("ty", "")).startswith("["):
                    n = int(e["ty"][1:e["ty"].index(" x ")])
                    out += [{"zero": 1}] * n
                else:
                    out.append(e)
            es = out
        k = k if isinstance(k, int) else k[1]
        return k is not None and k < len(es) and self.isnullat(es[k], path[1:])

    def table(self, f, root):
        """(constant initialiser or None, [(constant path, store)]) of a table with no other writes."""
        c = self.__dict__.setdefault("_tinit", {})
        key = root if root[0] == "g" else (f.name,) + root
        if key not in c:
            c[key] = self.table_(f, root)
        return c[key]

    def table_(self, f, root):
        if root[0] == "g":
            g = self.P.globals.get(root[1])
            if g is not None and "init" in g and (g.get("const") or root[1] not in self.writtenglobals()):
                return g["init"], []
            return None
        aty = f.defs[root[1]].d.get("aty")
        base, over = None, []
        for i in f.instrs():
            if i.op == "store":
                if self.rootalloca(f, i.ops[0]) == root[1]:
                    return None
                if self.rootalloca(f, i.ops[1]) == root[1]:
                    _, p = self.position(f, i.ops[1])
                    p = self.leafpath(p, aty) if p is not None else None
                    if p is None:
                        return None
                    over.append((p, i))
            elif i.op == "call" and not (i.callee or "").startswith(("llvm.lifetime", "llvm.dbg")):
                for k, o in enumerate(i.ops):
                    if self.rootalloca(f, o) != root[1]:
                        continue
                    if k == 0 and vid(o) == root[1] and (i.callee or "").startswith("llvm.memcpy") and isinstance(i.ops[1], dict) and "g" in i.ops[1] and base is None:
                        g = self.P.globals.get(i.ops[1]["g"])
                        if g is None or "init" not in g or not g.get("const"):
                            return None
                        base = g["init"]
                    elif k == 0 and vid(o) == root[1] and (i.callee or "").startswith("llvm.memset") and kint(i.ops[1]) == 0 and base is None:
                        base = {"zero": 1}
                    elif not ((i.callee or "").startswith("llvm.memcpy") and k == 1):
                        return None
        return (base, over)

    def writtenglobals(self):
        if "_wg" not in self.__dict__:
            out = set()
            for f in self.P.funcs.values():
                for i in f.instrs():
                    tgt = [i.ops[1]] if i.op == "store" else [i.ops[0]] if i.op == "call" and i.ops and (i.callee or "").startswith(("llvm.mem", "mem")) else []
                    for o in tgt:
                        g = self.rootglobal(f, o)
                        if g:
                            out.add(g)
            self._wg = out
        return self._wg

    def rootglobal(self, f, o):
        v = vid(o)
        if v is None:
            return o.get("g") if isinstance(o, dict) else None
        while v is not None and v not in f.argids:
            i = f.defs[v]
            if i.op != "getelementptr":
                return None
            b = i.d["base"]
            v = vid(b)
            if v is None:
                return b.get("g") if isinstance(b, dict) else None
        return None

    def facts(self, f, pt):
        """pt: a block, or an edge (p, s)."""
        cfg = self.cfg(f)
        key = (f.name, pt)
        c = self.__dict__.setdefault("_facts", {})
        if key in c:
            return c[key]
        out = []
        if isinstance(pt, tuple):
            out += self.edgefacts(f, *pt)
            b = pt[0]
        else:
            b = pt
        if b in cfg.num:
            for e in cfg.controlling(b):
                out += self.edgefacts(f, *e)
        c[key] = out
        return out

    # -- ranges from types ---------------------------------------------------------
    def trange(self, f, v):
        """(lo, hi) of a value from its type and definition."""
        P = self.P
        t = None
        lo = hi = None
        if v in f.argids:
            k = f.argids.index(v) + 1
            t = P.ditype(f, {"v": v})
        else:
            i = f.defs[v]
            if i.op in ("zext",):
                lo, hi = 0, (1 << width(i.d.get("sty"))) - 1
            elif i.op == "icmp":
                return 0, 1
            elif i.op == "and":
                for o in i.ops:
                    k = kint(o)
                    if k is not None and k >= 0:
                        return 0, k
            elif i.op == "urem" and kint(i.ops[1]):
                return 0, kint(i.ops[1]) - 1
            elif i.op == "srem" and kint(i.ops[1]):
                k = abs(kint(i.ops[1]))
                return -k + 1, k - 1
            elif i.op == "lshr" and kint(i.ops[1]) is not None:
                return 0, (1 << (width(i.ty) - kint(i.ops[1]))) - 1
            elif i.op == "call" and i.callee in ("strlen", "fread", "fwrite", "strspn", "strcspn"):
                return 0, None
            elif i.op in ("load", "call"):
                t = P.ditype(f, {"v": v})
            elif i.op in ("udiv", "urem"):
                return 0, None
            if i.op == "load" and i.ty in ("i8", "i16") and t is None:
                w = width(i.ty)
                return -(1 << (w - 1)), (1 << w) - 1
        t = (t or "").replace("const ", "")
        if t.startswith("enum "):
            vals = [(n, x) for e in P.enums.get(t[5:], []) for n, x in e["vals"]] if t[5:] in P.enums else []
            if vals:
                self.assumed.add("values of type %s are enumerators" % t)
                xs = [x for n, x in vals if not n.endswith(("_count", "_max")) and not n.startswith("_")]
                return min(xs), max(xs)
        if t in UNSIGNED:
            l2, h2 = UNSIGNED[t]
            lo = l2 if lo is None else max(lo, l2)
            hi = h2 if hi is None else (hi if h2 is None else min(hi, h2))
        return lo, hi

    # -- the prover -------------------------------------------------------------------
    def prove(self, f, x, y, c, pt):
        """x - y <= c at pt (a block or edge); x, y operands or (id, off) terms."""
        self.steps = 0
        tx = x if isinstance(x, tuple) else self.term(f, x) if x is not None else (ZERO, 0)
        ty = y if isinstance(y, tuple) else self.term(f, y) if y is not None else (ZERO, 0)
        return self.go(f, tx[0], ty[0], c - tx[1] + ty[1], pt, {}, 0, 0)

    def go(self, f, x, y, c, pt, stack, depth, ipd):
        self.steps += 1
        if self.steps > self.budget or depth > 40 or x == "?" or y == "?":
            return False
        if x == y or (x is not ZERO and y is not ZERO and self.same(f, x, y)):
            return c >= 0
        if x is not ZERO:
            lo, hi = self.trange(f, x)
        else:
            lo = hi = 0
        if y is not ZERO:
            ylo, yhi = self.trange(f, y)
        else:
            ylo = yhi = 0
        if hi is not None and ylo is not None and hi - ylo <= c:
            return True
        key = (f.name, x, y, pt)
        if key in stack:
            # the same goal again: only a round of a loop is an induction step
            return c >= stack[key][0] and nphi(stack) > stack[key][1]
        stack = dict(stack)
        stack[key] = (c, nphi(stack))
        return self.byfacts(f, x, y, c, pt, stack, depth, ipd) or self.bydef(f, x, y, c, pt, stack, depth, ipd)

    def byfacts(self, f, x, y, c, pt, stack, depth, ipd):
        fs = self.facts(f, pt) + self.extra
        todo = []
        for ft in fs:
            if ft[0] == "d":
                _, a, b, d = ft
                if a == "?" or b == "?":
                    continue
                if self.eqt(f, a, x):
                    # x <= b + d ; need b - y <= c - d
                    if b is ZERO and y is ZERO:
                        if d <= c:
                            return True
                        continue
                    if self.eqt(f, b, y):
                        if d <= c:
                            return True
                        continue
                    todo.append((b, y, c - d))
                elif self.eqt(f, b, y) and y is not ZERO:
                    # a <= y + d  =>  y >= a - d ; need x - a <= c - d
                    todo.append((x, a, c - d))
            elif ft[0] == "m":
                _, call, ptr, lv, lk = ft
                if x is not ZERO and self.memis(f, x, call, ptr):
                    # x <= len - 1
                    if self.eqt(f, lv, y):
                        if lk - 1 <= c:
                            return True
                    else:
                        todo.append((lv, y, c - lk + 1))
                if x is ZERO and y is not ZERO and self.memis(f, y, call, ptr) and c >= 0:
                    return True
            elif ft[0] == "n":
                _, a, b, d = ft  # a != b + d
                # x <= y + c + 1 and x != y + c + 1  =>  x <= y + c
                if (self.eqt(f, a, x) and self.eqt(f, b, y) and d == c + 1) or (self.eqt(f, a, y) and self.eqt(f, b, x) and -d == c + 1):
                    k = ("ne", f.name, x, y, c, pt)
                    if k not in stack:
                        s2 = dict(stack)
                        s2[k] = 0
                        s2.pop((f.name, x, y, pt), None)
                        if self.go(f, x, y, c + 1, pt, s2, depth + 1, ipd):
                            return True
        for a, b, d in todo:
            if self.go(f, a, b, d, pt, stack, depth + 1, ipd):
                return True
        return False

    def eqt(self, f, a, b):
        if a is ZERO or b is ZERO:
            return a is b
        return a == b or self.same(f, a, b)

    def memis(self, f, v, call, ptr):
        """Is v a load of *ptr after the call, unmodified since?"""
        v = self.strip(f, v)
        if v in f.argids:
            return False
        i = f.defs[v]
        if i.op != "load":
            return False
        pa, da = self.addr(f, i.ops[0])
        pb, db = self.addr(f, ptr)
        if pa != pb:
            return False
        if not self.cfg(f).dominates(call.bb, i.bb):
            return False
        return not any(self.clobbers(f, k, da | self.cellof(f, i)) for k in self.between(f, call, i))

    def sub(self, f, o, other, c, pt, stack, depth, ipd, left=True):
        v, k = self.term(f, o)
        if left:
            return self.go(f, v, other, c - k, pt, stack, depth + 1, ipd)
        return self.go(f, other, v, c + k, pt, stack, depth + 1, ipd)

    def bydef(self, f, x, y, c, pt, stack, depth, ipd):
        for left, v in ((True, x), (False, y)):
            if v is ZERO:
                continue
            if self.expand(f, left, v, y if left else x, c, pt, stack, depth, ipd):
                return True
        return False

    def expand(self, f, left, v, other, c, pt, stack, depth, ipd):
        """Goal v - other <= c (left) or other - v <= c (right), by the definition of v."""
        if v in f.argids:
            return other is ZERO and self.byargs(f, left, v, c, stack, depth, ipd)
        i = f.defs[v]
        if i.op == "phi":
            return self.byphi(f, left, v, i, other, c, stack, depth, ipd)
        if i.op == "select":
            for o, tr in ((i.ops[1], True), (i.ops[2], False)):
                w, k = self.term(f, o)
                cc = c - k if left else c + k
                a, b = (w, other) if left else (other, w)
                if self.go(f, a, b, cc, pt, stack, depth + 1, ipd):
                    continue
                ok = False
                for ft in self.condfacts(f, i.ops[0], tr):
                    if ft[0] == "d" and self.eqt(f, ft[1], a) and self.eqt(f, ft[2], b) and ft[3] <= cc:
                        ok = True
                if not ok:
                    return False
            return True
        if i.op == "add":
            a, b = i.ops
            if left:
                # a + b <= other + c when one of them is at most k
                for p, q in ((a, b), (b, a)):
                    qv, qk = self.term(f, q)
                    if qv not in (ZERO, "?"):
                        lo, hi = self.trange(f, qv)
                        if hi is not None and hi < (1 << 31) and self.sub(f, p, other, c - hi - qk, pt, stack, depth, ipd, left):
                            return True
                        # q <= other - p - known: facts of the form p + q are handled through 'same'
                    for ft in self.facts(f, pt):
                        # q <= z - p : q - (sub z p) <= d
                        if ft[0] == "d" and ft[1] not in (ZERO, "?") and ft[2] not in (ZERO, "?") and self.eqt(f, ft[1], qv):
                            z = f.defs.get(ft[2]) if ft[2] not in f.argids else None
                            if z is not None and z.op == "sub" and vid(z.ops[1]) is not None and self.eqt(f, self.strip(f, vid(z.ops[1])), self.term(f, p)[0]) and self.term(f, p)[1] == 0:
                                if self.sub(f, z.ops[0], other, c - ft[3] - qk, pt, stack, depth, ipd, True):
                                    return True
                return False
            for p, q in ((a, b), (b, a)):
                qv, qk = self.term(f, q)
                lo = self.trange(f, qv)[0] if qv not in (ZERO, "?") else None
                if lo is not None and lo > -(1 << 31) and self.sub(f, p, other, c + lo + qk, pt, stack, depth, ipd, left):
                    return True
                if qv not in (ZERO, "?") and other is ZERO:
                    if self.go(f, ZERO, qv, qk, pt, stack, depth + 1, ipd) and self.sub(f, p, other, c, pt, stack, depth, ipd, left):
                        return True
            return False
        if i.op == "sub":
            a, b = i.ops
            bv, bk = self.term(f, b)
            av, ak = self.term(f, a)
            if left:
                # a - b <= other + c
                lo = self.trange(f, bv)[0] if bv not in (ZERO, "?") else (bk if bv is ZERO else None)
                if lo is not None and self.sub(f, a, other, c + lo + (bk if bv is not ZERO else 0), pt, stack, depth, ipd, True):
                    return True
                if bv not in (ZERO, "?") and self.go(f, ZERO, bv, bk, pt, stack, depth + 1, ipd) and self.sub(f, a, other, c, pt, stack, depth, ipd, True):
                    return True
                if other is ZERO and self.go(f, av, bv, c - ak + bk, pt, stack, depth + 1, ipd):
                    return True
                return False
            if other is ZERO:
                # b - a <= c
                return self.go(f, bv, av, c - bk + ak, pt, stack, depth + 1, ipd)
            return False
        if i.op == "shl" and kint(i.ops[1]) is not None and other is ZERO:
            k = kint(i.ops[1])
            return self.sub(f, i.ops[0], ZERO, (c >> k) if left else -((-c) >> k), pt, stack, depth, ipd, left)
        if i.op == "mul" and other is ZERO:
            for a, b in ((i.ops[0], i.ops[1]), (i.ops[1], i.ops[0])):
                k = kint(b)
                if k is not None and k > 0:
                    return self.sub(f, a, ZERO, c // k if left else -((-c + k - 1) // k) if c < 0 else c // k, pt, stack, depth, ipd, left)
            return False
        if i.op == "udiv" and left and other is ZERO and (kint(i.ops[1]) or 0) > 0:
            k = kint(i.ops[1])
            return self.sub(f, i.ops[0], ZERO, c * k + k - 1, pt, stack, depth, ipd, True)
        if i.op in ("udiv", "lshr") and left:
            return self.sub(f, i.ops[0], other, c, pt, stack, depth, ipd, True)
        if i.op == "urem" and left:
            return self.sub(f, i.ops[1], other, c + 1, pt, stack, depth, ipd, True) or self.sub(f, i.ops[0], other, c, pt, stack, depth, ipd, True)
        if i.op == "and" and left:
            return any(vid(o) is not None and self.sub(f, o, other, c, pt, stack, depth, ipd, True) for o in i.ops)
        if i.op == "call" and other is ZERO and ipd < 3:
            return self.byret(f, left, i, c, stack, depth, ipd)
        if i.op == "load":
            return self.byload(f, left, i, other, c, pt, stack, depth, ipd)
        return False

    def byphi(self, f, left, v, i, other, c, stack, depth, ipd):
        """Every incoming value keeps the bound; the value of an earlier round may be taken to keep it."""
        cfg = self.cfg(f)
        both = None
        if other is not ZERO and other not in f.argids:
            o2 = f.defs[other]
            if o2.bb == i.bb:
                if o2.op != "phi":
                    return False
                both = dict((p, o) for o, p in o2.ops)
            elif not cfg.dominates(o2.bb, i.bb) and cfg.reaches(o2.bb, i.bb):
                return False      # belongs to another round than the incoming values
        key = ("phi", f.name, left, v, other)
        if key in stack:
            return c >= stack[key]
        stack = dict(stack)
        stack[key] = c
        ok = bool(i.ops)
        for o, p in i.ops:
            if p not in cfg.num:
                continue
            w, k = self.term(f, o)
            ov, ok2 = (other, 0) if both is None else self.term(f, both.get(p))
            e = (p, i.bb)
            if w == "?" or ov == "?":
                return False
            # left: w + k - (ov + ok2) <= c
            if not (self.go(f, w, ov, c - k + ok2, e, stack, depth + 1, ipd) if left else self.go(f, ov, w, c + k - ok2, e, stack, depth + 1, ipd)):
                return False
        return ok

    def byargs(self, f, left, v, c, stack, depth, ipd):
        P = self.P
        if ipd >= 3 or f.name in self.addrtaken():
            return False
        k = f.argids.index(v)
        cs = self.P.callers().get(f.name, ())
        if not cs:
            return False
        for call in cs:
            if k >= len(call.ops):
                return False
            g = call.fn
            if call.bb not in self.cfg(g).num:
                continue
            w, off = self.term(g, call.ops[k])
            if not (self.go(g, w, ZERO, c - off, call.bb, stack, depth + 1, ipd + 1) if left else self.go(g, ZERO, w, c + off, call.bb, stack, depth + 1, ipd + 1)):
                return False
        return True

    def addrtaken(self):
        if not hasattr(self, "_at"):
            s = set()
            for f in self.P.funcs.values():
                for i in f.instrs():
                    for o in operands(i):
                        if isinstance(o, dict) and "fn" in o:
                            s.add(o["fn"])

            def walk(v):
                if isinstance(v, dict):
                    if "fn" in v:
                        s.add(v["fn"])
                    for x in v.values():
                        walk(x)
                elif isinstance(v, list):
                    for x in v:
                        walk(x)
            for g in self.P.globals.values():
                walk(g.get("init"))
            self._at = s
        return self._at

    def byret(self, f, left, i, c, stack, depth, ipd):
        ts = [t for t in self.P.call_targets(i)]
        if not ts or any(t not in self.P.funcs for t in ts):
            return False
        for t in ts:
            g = self.P.funcs[t]
            for b in self.cfg(g).rpo:
                r = g.blocks[b][-1]
                if r.op == "ret":
                    if not r.ops:
                        return False
                    w, k = self.term(g, r.ops[0])
                    if not (self.go(g, w, ZERO, c - k, b, stack, depth + 1, ipd + 1) if left else self.go(g, ZERO, w, c + k, b, stack, depth + 1, ipd + 1)):
                        return False
        return True

    def byload(self, f, left, i, other, c, pt, stack, depth, ipd):
        p = i.ops[0]
        # a local variable whose address is taken, or a field: what was stored last in this function
        st = self.laststore(f, i)
        if st is not None:
            w, k = self.term(f, st.ops[0])
            if w != "?" and (self.go(f, w, other, c - k, st.bb, stack, depth + 1, ipd) if left else self.go(f, other, w, c + k, st.bb, stack, depth + 1, ipd)):
                return True
        if other is not ZERO:
            return False
        # constant tables
        g = p.get("g") if isinstance(p, dict) else None
        # structure fields and global scalars: every store in the program keeps the bound
        key = None
        if g is not None and not p.get("off"):
            key = ("G", g)
        else:
            r = self.rootalloca(f, p)
            if r is not None and self.pathless(f, p):
                return self.bylocal(f, left, r, c, stack, depth, ipd)
            fl = self.P.field(f, p)
            if fl:
                key = ("F", fl)
        if key is None or ipd >= 3:
            return False
        k2 = ("inv", key, left)
        if k2 in stack:
            return c >= stack[k2]
        stack = dict(stack)
        stack[k2] = c
        if c < 0:
            return False  # zero-initialised
        sts = self.stores().get(key, [])
        if not sts or key in self.opaque():
            return False
        for g2, s in sts:
            if s.bb not in self.cfg(g2).num:
                continue
            w, k = self.term(g2, s.ops[0])
            if not (self.go(g2, w, ZERO, c - k, s.bb, stack, depth + 1, ipd + 1) if left else self.go(g2, ZERO, w, c + k, s.bb, stack, depth + 1, ipd + 1)):
                return False
        if key[0] == "G":
            gi = self.P.globals[g].get("init")
            k = kint(gi) if isinstance(gi, dict) else None
            if k is not None and ((left and k > c) or (not left and -k > c)):
                return False
        else:
            for k in self.initvals(key[1]):
                if k is None or (left and k > c) or (not left and -k > c):
                    return False
        return True

    def initvals(self, fl):
        """Values a field has in constant initialisers."""
        if not hasattr(self, "_iv"):
            iv = {}

            def walk(v):
                if isinstance(v, dict):
                    if "struct" in v and "arr" in v:
                        st = self.P.structs.get(v["struct"])
                        if st:
                            for (n, t, off), x in zip(st["fields"], v["arr"]):
                                if kint(x) is not None:
                                    iv.setdefault((v["struct"], n), set()).add(kint(x))
                    for x in v.values():
                        walk(x)
                elif isinstance(v, list):
                    for x in v:
                        walk(x)
            for g in self.P.globals.values():
                walk(g.get("init"))
            self._iv = iv
        return self._iv.get(fl, ())

    def pathless(self, f, p):
        v = vid(p)
        return v is not None and v not in f.argids and f.defs[v].op == "alloca"

    def bylocal(self, f, left, r, c, stack, depth, ipd):
        """A local scalar in memory: every store to it keeps the bound and nothing else writes it."""
        key = ("loc", f.name, r, left)
        if key in stack:
            return c >= stack[key]
        stack = dict(stack)
        stack[key] = c
        n = 0
        for i in f.instrs():
            if i.op == "store" and vid(i.ops[1]) == r:
                n += 1
                w, k = self.term(f, i.ops[0])
                if not (self.go(f, w, ZERO, c - k, i.bb, stack, depth + 1, ipd) if left else self.go(f, ZERO, w, c + k, i.bb, stack, depth + 1, ipd)):
                    return False
            elif i.op == "store" and vid(i.ops[0]) == r:
                return False
            elif i.op == "call" and any(vid(o) == r for o in i.ops) and not (i.callee or "").startswith(("llvm.lifetime", "llvm.dbg")):
                if (i.callee or "").startswith("llvm.memset") and kint(i.ops[1]) == 0 and c >= 0:
                    continue
                return False
        return n > 0

    def stores(self):
        if self.fstores is None:
            self.fstores = {}
            for f in self.P.funcs.values():
                for i in f.instrs():
                    if i.op == "store":
                        fl = self.P.field(f, i.ops[1])
                        if fl:
                            self.fstores.setdefault(("F", fl), []).append((f, i))
                        if isinstance(i.ops[1], dict) and "g" in i.ops[1] and not i.ops[1].get("off"):
                            self.fstores.setdefault(("G", i.ops[1]["g"]), []).append((f, i))
        return self.fstores

    def opaque(self):
        """Fields and globals whose address is handed to a call (may be written there)."""
        if not hasattr(self, "_op"):
            s = set()
            for f in self.P.funcs.values():
                for i in f.calls():
                    for o in i.ops:
                        v = vid(o)
                        if v is not None and v not in f.argids and f.defs[v].op == "getelementptr":
                            st = f.defs[v].steps
                            if st and "f" in st[-1]:
                                s.add(("F", (st[-1]["s"], st[-1]["f"])))
                        elif isinstance(o, dict) and "g" in o:
                            s.add(("G", o["g"]))
            self._op = s
        return self._op

    def laststore(self, f, ld):
        """The store whose value a load reads, when it is unique and nothing in between writes the cell."""
        pa, da = self.addr(f, ld.ops[0])
        if pa[0] == "?":
            return None
        cfg = self.cfg(f)
        deps = da | self.cellof(f, ld)
        best = None
        for i in f.instrs():
            if i.op == "store" and i is not ld:
                if not ((i.bb == ld.bb and i.ix < ld.ix) or (i.bb != ld.bb and cfg.dominates(i.bb, ld.bb))):
                    continue
                pb, _ = self.addr(f, i.ops[1])
                if pa == pb:
                    if best is None or (i.bb == best.bb and i.ix > best.ix) or (i.bb != best.bb and cfg.dominates(best.bb, i.bb)):
                        best = i
        if best is None:
            return None
        if any(self.clobbers(f, k, deps, pa) for k in self.between(f, best, ld)):
            return None
        return best
