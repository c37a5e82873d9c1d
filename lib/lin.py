"""Linear bounds: goals are linear inequalities over SSA values (sum of coef*value + const <= 0).

Used where a bound has more than two terms (offset + length <= capacity).  Facts
come from the conditions of dominating branches, from value ranges of types and
from declared postconditions of growth functions (which are proved separately on
those functions).  A goal is decided by cancelling its terms with facts, by the
definitions of the values, and by cases over phi values.
"""
from bounds import ZERO
from prog import vid, kint, isnull

K = "const"      # key of the constant term
SIZES = {"i1": 1, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "ptr": 8, "float": 4, "double": 8}


def addf(a, b, k=1):
    r = dict(a)
    for t, c in b.items():
        n = r.get(t, 0) + k * c
        if n:
            r[t] = n
        else:
            r.pop(t, None)
    return r


class Lin:
    budget = 1500

    def __init__(self, P, B):
        self.P, self.B = P, B
        self.reps = {}
        self.posts = {}      # callee name -> function(lin, f, call) -> list of forms <= 0
        self.fieldposts = {}
        self.dead = set()    # edges taken to be impossible
        self.extra = []      # further forms <= 0
        self.atleast = {}

    # -- forms: {atom: coef, 1: const} ----------------------------------------
    def rep(self, f, v):
        B = self.B
        v = B.strip(f, v)
        rs = self.reps.setdefault(f.name, [])
        for r in rs:
            if r == v or B.same(f, r, v):
                return r
        rs.append(v)
        return v

    def const(self, k):
        return {K: k} if k else {}

    def form(self, f, o, depth=0):
        k = kint(o)
        if k is not None:
            return self.const(k)
        if isnull(o):
            return {}
        v = vid(o)
        if v is None:
            return None
        return self.vform(f, v, depth)

    def vform(self, f, v, depth=0):
        v = self.B.strip(f, v)
        if v not in f.argids and depth < 12:
            i = f.defs[v]
            if i.op in ("zext", "sext", "freeze", "bitcast", "trunc") and kint(i.ops[0]) is not None:
                return self.const(kint(i.ops[0]))
            if i.op in ("add", "sub"):
                a, b = self.form(f, i.ops[0], depth + 1), self.form(f, i.ops[1], depth + 1)
                if a is not None and b is not None:
                    return addf(a, b, 1 if i.op == "add" else -1)
            if i.op in ("mul", "shl"):
                a, b = self.form(f, i.ops[0], depth + 1), self.form(f, i.ops[1], depth + 1)
                if a is not None and b is not None:
                    if i.op == "shl":
                        b = {K: 1 << b[K]} if set(b) == {K} else None
                    if b is not None and not (set(b) - {K}):
                        return {t: c * b.get(K, 0) for t, c in a.items() if c * b.get(K, 0)}
                    if b is not None and not (set(a) - {K}):
                        return {t: c * a.get(K, 0) for t, c in b.items() if c * a.get(K, 0)}
                    if b is not None:
                        return self.product(a, b)
            if i.op == "load":
                st = self.B.laststore(f, i)
                if st is not None:
                    w = self.form(f, st.ops[0], depth + 1)
                    if w is not None:
                        return w
                m = self.memory(f, i)
                if m is not None:
                    return {m: 1}
        return {self.rep(f, v): 1}

    def product(self, a, b):
        r = {}
        for t, c in a.items():
            for u, d in b.items():
                if t == K:
                    k = u
                elif u == K:
                    k = t
                else:
                    k = ("*",) + tuple(sorted((repr(t), repr(u))))
                r[k] = r.get(k, 0) + c * d
        return {k: c for k, c in r.items() if c}

    # -- memory after a growth function -----------------------------------------
    def memory(self, f, ld):
        """Atom of a field read after a call with a postcondition about it."""
        pa, deps = self.B.addr(f, ld.ops[0])
        if pa[0] == "?":
            return None
        best = None
        for c in f.calls():
            post = self.fieldposts.get(self.P.funcs[c.callee].cname if c.callee in self.P.funcs else c.callee)
            if post is None:
                continue
            if not ((c.bb == ld.bb and c.ix < ld.ix) or (c.bb != ld.bb and self.B.cfg(f).dominates(c.bb, ld.bb))):
                continue
            k, flds = post
            if k != "ret" and k >= len(c.ops):
                continue
            base = ("v", c.id) if k == "ret" else self.B.addr(f, c.ops[k])[0]
            for s, fld in flds:
                if self.fieldaddr(base, s, fld) == self.flat(pa):
                    if any(self.B.clobbers(f, q, deps | self.B.cellof(f, ld), pa) for q in self.B.between(f, c, ld)):
                        continue
                    if best is None or self.B.cfg(f).dominates(best[0].bb, c.bb):
                        best = (c, (s, fld))
        if best is None:
            return None
        return ("after", best[0].id, best[1])

    def flat(self, a):
        if a[0] == "p" and a[1][0] == "p":
            b = self.flat(a[1])
            return ("p", b[1], b[2] + a[2])
        return a

    def fieldaddr(self, base, s, fld):
        b = self.flat(base)
        return ("p", b[1], b[2] + ((s, fld),)) if b[0] == "p" else ("p", b, ((s, fld),))

    # -- facts ------------------------------------------------------------------
    def facts(self, f, pt):
        out = list(self.extra)
        for ft in self.B.facts(f, pt):
            if ft[0] == "d" and ft[1] != "?" and ft[2] != "?":
                a = {} if ft[1] is ZERO else self.vform(f, ft[1])
                b = {} if ft[2] is ZERO else self.vform(f, ft[2])
                g = addf(addf(a, b, -1), {K: -ft[3]} if ft[3] else {})
                if set(g) - {K}:
                    out.append(g)
            elif ft[0] == "n" and ft[2] is ZERO and ft[3] == 0 and isinstance(ft[1], int):
                # not zero, and never negative: at least one
                k = (f.name, ft[1], pt)
                if k not in self.atleast:
                    self.atleast[k] = False
                    self.B.steps = 0
                    d = f.defs.get(ft[1]) if ft[1] not in f.argids else None
                    if d is not None and d.ty != "ptr":
                        self.atleast[k] = d.op == "phi" and self.B.byphi(f, False, d.id, d, ZERO, 0, {}, 0, 0)
                        if not self.atleast[k]:
                            self.B.steps = 0
                            self.atleast[k] = self.B.go(f, ZERO, d.id, 0, pt, {}, 0, 0)
                if self.atleast[k]:
                    out.append(addf({K: 1}, self.vform(f, ft[1]), -1))
        b = pt[0] if isinstance(pt, tuple) else pt
        for c in f.calls():
            n = self.P.funcs[c.callee].cname if c.callee in self.P.funcs else c.callee
            if n in ("read", "readlink", "fread", "recv") and (c.bb == b or self.B.cfg(f).dominates(c.bb, b)) and (n != "fread" or kint(c.ops[1]) == 1):
                w = self.form(f, c.ops[2])      # never more than was asked for
                if w is not None:
                    out.append(addf({self.rep(f, c.id): 1}, w, -1))
            if n in self.posts and (c.bb == b or self.B.cfg(f).dominates(c.bb, b)):
                out += [g for g in self.posts[n](self, f, c) if g]
        return out

    def lower(self, f, t):
        if isinstance(t, tuple):
            return 0
        lo, _ = self.B.trange(f, t)
        if lo is None and t not in f.argids and f.defs[t].op == "call" and f.defs[t].callee in ("vsnprintf", "snprintf"):
            return 0
        return lo

    # -- the prover ---------------------------------------------------------------
    def le0(self, f, g, pt):
        self.steps = 0
        self.used = set()
        return self.go(f, g, pt, frozenset(), 0)

    def go(self, f, g, pt, seen, depth):
        self.steps += 1
        if self.steps > self.budget or depth > 9:
            return False
        key = (frozenset(g.items()), pt)
        if key in seen:
            return False
        seen = seen | {key}
        # drop terms that can only make the sum smaller
        c = g.get(K, 0)
        pos = []
        for t, k in g.items():
            if t == K:
                continue
            if k < 0:
                lo = self.lower(f, t)
                if lo is None:
                    pos.append(t)
                else:
                    c += k * lo
            else:
                hi = None if isinstance(t, tuple) else self.B.trange(f, t)[1]
                if hi is None or hi > 1 << 30:
                    pos.append(t)
                else:
                    c += k * hi
        if not pos and c <= 0:
            return True
        if len(pos) == 1 and isinstance(pos[0], int) and g[pos[0]] > 0:
            # one value left to bound: loops and whole-program facts
            self.B.steps = 0
            if self.B.go(f, pos[0], ZERO, -c // g[pos[0]], pt, {}, 0, 0):
                return True
        for ft in self.facts(f, pt):
            for t in g:
                if t == K or t not in ft or (ft[t] > 0) != (g[t] > 0) or g[t] % ft[t]:
                    continue
                r = g[t] // ft[t]
                if r <= 0:
                    continue
                n = addf(g, ft, -r)
                if len(n) <= len(g) + 1 and self.go(f, n, pt, seen, depth + 1):
                    return True
        # cases over a phi
        for t in sorted((t for t in g if isinstance(t, int) and t != K and t not in f.argids and f.defs[t].op in ("phi", "select")), reverse=True):
            i = f.defs[t]
            cfg = self.B.cfg(f)
            if i.op == "phi":
                if any(p in cfg.num and cfg.dominates(i.bb, p) for _, p in i.ops):
                    continue
                if any(u != t and isinstance(u, int) and u != K and u not in f.argids and cfg.reaches(f.defs[u].bb, i.bb) and not cfg.dominates(f.defs[u].bb, i.bb) for u in g):
                    continue
                cases = [(o, (p, i.bb)) for o, p in i.ops if p in cfg.num and (p, i.bb) not in self.dead and not any(cfg.dominates(e[1], p) and len(self.preds(f, e[1])) == 1 for e in self.dead if len(e) == 2)]
            else:
                cases = [(i.ops[1 + k], pt) for k in (0, 1) if (t, k, "select") not in self.dead]
            ok = bool(cases)
            for o, e in cases:
                w = self.form(f, o)
                if w is None:
                    ok = False
                    break
                n = addf({x: y for x, y in g.items() if x != t}, w, g[t])
                # what held at the point itself still holds in this case
                if not (self.go(f, n, e, seen, depth + 1) or self.go(f, n, pt, seen, depth + 1)):
                    ok = False
                    break
            if ok:
                return True
        return False

    def preds(self, f, b):
        return [p for p in self.B.cfg(f).num if b in f.blocks[p][-1].d.get("succ", ())]

    def known(self, f, g, pt):
        """Is there any fact that mentions one of the terms of the goal which have to be bounded from above?"""
        fs = self.facts(f, pt)
        for t in g:
            if t == K or g[t] < 0:
                continue
            if any(ft.get(t, 0) > 0 for ft in fs):
                return True
        return False

    # -- sizes and places ---------------------------------------------------------
    def sizeof(self, ty):
        if ty in SIZES:
            return SIZES[ty]
        if ty and ty.startswith("["):
            n, e = ty[1:].split(" x ", 1)
            s = self.sizeof(e[:-1])
            return None if s is None else int(n) * s
        if ty and ty.startswith("%struct."):
            s = self.P.structs.get(ty[8:])
            return s.get("size") if s else None
        return None

    def place(self, f, o, depth=0):
        """Address -> list of (what, offset form in bytes, capacity form or None, point)."""
        off = {}
        v = vid(o)
        cap = None
        for _ in range(12):
            if v is None:
                if isinstance(o, dict) and "g" in o and o["g"] in self.P.globals:
                    g = self.P.globals[o["g"]]
                    s = self.sizeof(g.get("ty") or "") or None
                    if o.get("off"):
                        off = addf(off, {K: o["off"]})
                    return ("global %s" % o["g"].split("@")[0], off, None if s is None else self.const(s))
                return None
            if v in f.argids:
                return ("argument", off, None)
            i = f.defs[v]
            if i.op == "getelementptr":
                for s in i.steps:
                    if "f" in s or "fi" in s:
                        # an array member: the place is the member
                        t = self.membersize(s)
                        if t is None:
                            if s.get("fi"):
                                return None
                            continue
                        nm, sz = t
                        if sz is not None and self.arraymember(s):
                            later = i.steps[i.steps.index(s) + 1:]
                            for q in later:
                                w = self.scaled(f, q)
                                if w is None:
                                    return None
                                off = addf(off, w)
                            return ("member %s" % nm, off, self.const(sz))
                        return None
                    w = self.scaled(f, s)
                    if w is None:
                        return None
                    off = addf(off, w)
                o = i.d["base"]
                v = vid(o)
                continue
            if i.op == "alloca":
                s = self.sizeof(i.d.get("aty"))
                return ("local %s" % i.d.get("name"), off, None if s is None else self.const(s))
            if i.op == "call":
                return ("call", off, self.allocated(f, i)) if self.allocated(f, i) is not None else None
            if i.op == "load":
                st = self.B.laststore(f, i)
                if st is not None and vid(st.ops[0]) is not None and depth < 4:
                    r = self.place(f, st.ops[0], depth + 1)
                    if r is not None:
                        return (r[0], addf(off, r[1]), r[2])
                fl = self.P.field(f, i.ops[0])
                return ("field", off, self.capacity(f, fl, i), fl) if fl else None
            return None
        return None

    def membersize(self, s):
        st = self.P.structs.get(s.get("s") or "")
        if not st or "f" not in s:
            return None
        for n, t, o in st["fields"]:
            if n == s["f"]:
                m = t.rfind("[")
                if t.endswith("]") and m > 0:
                    e = t[:m].strip()
                    es = {"char": 1, "uint8_t": 1, "uint32_t": 4}.get(e)
                    if es and t[m + 1:-1].isdigit():
                        return ("%s.%s" % (s["s"], n), es * int(t[m + 1:-1]))
                return ("%s.%s" % (s["s"], n), None)
        return None

    def arraymember(self, s):
        t = self.membersize(s)
        return t is not None and t[1] is not None

    def scaled(self, f, s):
        if "f" in s or "fi" in s:
            return {} if not s.get("fi") else None
        sz = self.sizeof(s.get("ety"))
        w = self.form(f, s["idx"])
        if w is None:
            return None
        if not w:
            return {}
        if sz is None:
            return None
        return {t: c * sz for t, c in w.items()}

    def allocated(self, f, c):
        n = self.P.funcs[c.callee].cname if c.callee in self.P.funcs else c.callee
        if n in ("z_malloc", "malloc") and c.ops:
            return self.form(f, c.ops[0])
        if n in ("z_realloc", "realloc", "samu_xmalloc"):
            return self.form(f, c.ops[1])
        if n in ("z_calloc", "calloc"):
            a, b = self.form(f, c.ops[0]), self.form(f, c.ops[1])
            return None if a is None or b is None else self.product(a, b)
        if n == "samu_arena_realloc":
            return self.form(f, c.ops[3])
        return None

    def capacity(self, f, fl, ld):
        cf = getattr(self, "capfields", {}).get(fl)
        if cf is None:
            return None
        # the capacity member of the same object, as it is where the pointer is read
        base = self.basev(f, ld.ops[0], fl)
        if base is None:
            return None
        m = self.memory_at(f, base, cf, ld)
        return None if m is None else {m: 1}

    def basev(self, f, o, fl):
        """Operand naming the object a member is read from."""
        v = vid(o)
        if v is None or v in f.argids:
            return o
        i = f.defs[v]
        if i.op == "getelementptr" and i.steps and i.steps[-1].get("f") == fl[1] and i.steps[-1].get("s") == fl[0] and len(i.steps) == 1:
            return i.d["base"]
        return o

    def memory_at(self, f, base, cf, ld):
        """Atom for member cf of *base at the position of ld."""
        want = self.fieldaddr(self.B.addr(f, base)[0], *cf)
        for j in f.instrs():
            if j.op == "load" and self.flat(self.B.addr(f, j.ops[0])[0]) == want:
                m = self.memory(f, j)
                if m is not None and self.sametime(f, m, ld, cf):
                    return m
        # a growth call in front of it
        best = None
        for c in f.calls():
            n = self.P.funcs[c.callee].cname if c.callee in self.P.funcs else c.callee
            post = self.fieldposts.get(n)
            if post is None or (post[0] != "ret" and post[0] >= len(c.ops)) or cf not in post[1]:
                continue
            obj = ("v", c.id) if post[0] == "ret" else self.B.addr(f, c.ops[post[0]])[0]
            if self.flat(obj) != self.flat(self.B.addr(f, base)[0]):
                continue
            if not ((c.bb == ld.bb and c.ix < ld.ix) or (c.bb != ld.bb and self.B.cfg(f).dominates(c.bb, ld.bb))):
                continue
            if any(self.writescap(f, q, cf) for q in self.B.between(f, c, ld)):
                continue
            if best is None or (best.bb == c.bb and best.ix < c.ix) or (best.bb != c.bb and self.B.cfg(f).dominates(best.bb, c.bb)):
                best = c
        return ("after", best.id, cf) if best is not None else None

    def sametime(self, f, m, ld, cf):
        c = f.defs.get(m[1])
        if c is None:
            return False
        if not ((c.bb == ld.bb and c.ix < ld.ix) or (c.bb != ld.bb and self.B.cfg(f).dominates(c.bb, ld.bb))):
            return False
        return not any(self.writescap(f, q, cf) for q in self.B.between(f, c, ld))

    def writescap(self, f, q, cf):
        """Does q change a capacity member (or, for one that is not stored, the storage itself)?"""
        fs = {("F", cf)}
        for (s, p), c in self.capfields.items():
            if c == cf and cf[1].startswith("#"):
                fs = {("F", (s, p))}
        return self.B.clobbers(f, q, fs)
