"""Data read from files muon wrote earlier is checked before it is used (C11, C31).

Values that come out of a read call are traced inside the loaders.  Every place
where such a value selects or sizes memory is an obligation: it must follow, from
the conditions that dominate the place, that the access stays inside of what was
read or allocated.
"""
import math
from rules import prop
from rules.r_index import bounds
from rules.r_bufs import lin
from rules.r_errprop import model
from rulelib import Paths, is_fail, callee_in
from bounds import width, ZERO
from lin import addf, K
from prog import vid, kint, fnname, AnalysisBroken

# reader -> (operand filled, operands whose product is the number of bytes)
READERS = {"fread": (0, (1, 2)), "fs_fread": (0, (1,)), "src_fread": (0, (1, 2)), "read": (1, (2,))}
# members that hold a table -> member of the same structure with the number of its elements
LENOF = {("big_string_table", "data"): ("big_string_table", "len"), ("samu_deps_ctx", "entries"): ("samu_deps_ctx", "entrieslen"),
         ("source", "src"): ("source", "len")}
# accessor -> (table operand, index operand, structure and member with the number of elements)
ACCESS = {"arr_get": (0, 1, ("arr", "len")), "bucket_arr_get": (0, 1, ("bucket_arr", "len"))}
ALLOC = {"z_malloc": (0,), "z_calloc": (0, 1), "z_realloc": (1,), "malloc": (0,), "calloc": (0, 1), "samu_xmalloc": (1,),
         "samu_xreallocarray": (3, 4), "samu_arena_alloc": (1,), "samu_arena_realloc": (3,)}
QUIET = ("samu_warn", "samu_fatal", "log_print", "z_free", "samu_mkstr")

SLACK = (1, 2, 3, 4, 8, 12, 16)


class Loader:
    def __init__(self, P, roots, files):
        self.P, self.B, self.L = P, bounds(P), lin(P)
        names = set()
        for r in roots:
            names |= {P.fn(r).name}
        names = set(P.reach(sorted(names))) | names
        self.fs = [P.funcs[n] for n in sorted(names) if n in P.funcs and P.funcs[n].file in files]
        self.readers = {}
        for n, (k, sz) in READERS.items():
            self.readers[n] = (k, sz)
        self.find_readers()
        self.filled = {f.name: {} for f in self.fs}     # leaf -> list of (call, size operands)
        self.targ = {f.name: set() for f in self.fs}    # tainted arguments (values)
        self.tv = {}
        self.solve()

    def cn(self, n):
        f = self.P.funcs.get(n)
        return f.cname if f is not None else n

    def find_readers(self):
        """Functions that pass a pointer they were given on to a reader."""
        changed = True
        while changed:
            changed = False
            for f in self.fs:
                if f.cname in self.readers:
                    continue
                for c in f.calls():
                    r = self.readers.get(self.cn(c.callee))
                    if r is None:
                        continue
                    v = vid(c.ops[r[0]])
                    if v in f.argids:
                        ks = []
                        for o in r[1]:
                            k = o if isinstance(o, tuple) else kint(c.ops[o])
                            ks.append(("k", k) if isinstance(k, int) else k)
                        if all(isinstance(x, tuple) for x in ks):
                            self.readers[f.cname] = (f.argids.index(v), tuple(ks))
                            changed = True

    # -- where memory comes from -------------------------------------------------
    def leaves(self, f, o):
        """Address -> set of (root, first member or None)."""
        v = vid(o)
        out = set()
        st, seen = [(v, None)], set()
        while st:
            v, m = st.pop()
            if v is None or (v, m) in seen:
                continue
            seen.add((v, m))
            if v in f.argids:
                out.add((v, m))
                continue
            i = f.defs[v]
            if i.op == "getelementptr":
                n = next((s["f"] for s in i.steps if "f" in s), None)
                st.append((vid(i.d["base"]), n or m))
            elif i.op == "phi":
                st += [(vid(x), m) for x, _ in i.ops]
            elif i.op == "select":
                st += [(vid(x), m) for x in i.ops[1:]]
            elif i.op in ("bitcast", "freeze"):
                st.append((vid(i.ops[0]), m))
            elif i.op == "load":
                out.add((("L", repr(self.B.addr(f, i.ops[0])[0])), m))
            else:
                out.add((v, m))
        return out

    def touches(self, f, o, fl):
        """Does the address o lie in memory that is filled from the file?"""
        return any(r in fl and (m in fl[r] or None in fl[r] or (m is None and fl[r])) for r, m in self.leaves(f, o))

    def solve(self):
        byname = {f.name: f for f in self.fs}
        self.fill = {f.name: {} for f in self.fs}       # root -> set of members
        changed = True
        while changed:
            changed = False
            for f in self.fs:
                fl = self.fill[f.name]

                def mark(fl, r, m):
                    s = fl.setdefault(r, set())
                    if m in s:
                        return False
                    s.add(m)
                    return True
                for c in f.calls():
                    r = self.readers.get(self.cn(c.callee))
                    if r is not None and f.cname not in self.readers:
                        for root, m in self.leaves(f, c.ops[r[0]]):
                            changed |= mark(fl, root, m)
                    g = byname.get(c.callee)
                    if g is not None and g.cname not in self.readers:
                        for k, o in enumerate(c.ops):
                            if k >= len(g.argids) or vid(o) is None:
                                continue
                            if vid(o) not in f.argids and f.defs[vid(o)].ty == "ptr" or vid(o) in f.argids:
                                for root, m in self.leaves(f, o):
                                    for x in fl.get(root, ()):
                                        if m is None or x == m or x is None:
                                            # content that is written by the callee is not content of the file
                                            if self.onlyread(g, k):
                                                changed |= mark(self.fill[g.name], g.argids[k], x if m is None else None)
                            if self.istv(f, o) and g.argids[k] not in self.targ[g.name]:
                                self.targ[g.name].add(g.argids[k])
                                changed = True
                t = self.taint(f)
                if t != self.tv.get(f.name):
                    self.tv[f.name] = t
                    changed = True

    def onlyread(self, g, k):
        a = g.argids[k]
        for i in g.instrs():
            if i.op == "store" and any(r == a for r, _ in self.leaves(g, i.ops[1])):
                return False
        return True

    def istv(self, f, o):
        return vid(o) in self.tv.get(f.name, ())

    def taint(self, f):
        t = set(self.targ[f.name])
        fl = self.fill[f.name]
        changed = True
        while changed:
            changed = False
            for i in f.instrs():
                if i.id is None or i.id in t:
                    continue
                if i.op == "load":
                    if i.ty == "ptr" or not self.touches(f, i.ops[0], fl):
                        continue
                    s = self.B.laststore(f, i) or reaching(self, f, i)
                    if s is not None and vid(s.ops[0]) not in t:
                        continue
                elif i.op in ("add", "sub", "mul", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem", "and", "or", "xor", "zext", "sext", "trunc", "freeze", "select"):
                    if not any(vid(o) in t for o in i.ops):
                        continue
                elif i.op == "phi":
                    if not any(vid(o) in t for o, _ in i.ops):
                        continue
                else:
                    continue
                t.add(i.id)
                changed = True
        return t

    # -- proofs --------------------------------------------------------------------
    def cell(self, f, o, fld):
        return self.L.fieldaddr(self.B.addr(f, o)[0], *fld)

    def canon(self, a):
        """A member at offset 0 has the address of its structure."""
        a = self.L.flat(a)
        while a[0] == "p":
            s, m = a[2][-1]
            st = self.P.structs.get(s or "") if s != "i" else None
            if not st or not any(n == m and o == 0 for n, _, o in st["fields"]):
                break
            a = ("p", a[1], a[2][:-1]) if len(a[2]) > 1 else a[1]
        return a

    def current(self, f, cell, at):
        """Loads of a cell whose value is still that of the cell at an instruction."""
        cell = self.canon(cell)
        for i in f.instrs():
            if i.op != "load" or i.ty == "ptr":
                continue
            a, deps = self.B.addr(f, i.ops[0])
            if self.canon(a) != cell:
                continue
            if not ((i.bb == at.bb and i.ix < at.ix) or (i.bb != at.bb and self.B.cfg(f).dominates(i.bb, at.bb))):
                continue
            if any(self.B.clobbers(f, q, deps | self.B.cellof(f, i), a) for q in self.B.between(f, i, at)):
                continue
            yield i

    def le(self, f, g, pt):
        """g <= 0 at pt"""
        self.L.extra = self.divfacts(f, pt)
        try:
            if self.L.le0(f, g, pt):
                return True
            # one quotient bounded from below: q >= k  <=>  dividend >= k * divisor
            ts = [t for t in g if t != K]
            if len(ts) == 1 and g[ts[0]] == -1 and isinstance(ts[0], int) and ts[0] not in f.argids:
                d = self.divof(f, ts[0])
                if d is not None:
                    x, c = d
                    w = self.L.form(f, x)
                    if w is not None:
                        n = {t: -k for t, k in w.items()}
                        n = addf(n, {K: g.get(K, 0) * c})
                        return self.L.le0(f, n, pt)
            # a difference of two values: loops
            ps, ns = [t for t in ts if g[t] == 1], [t for t in ts if g[t] == -1]
            if len(ps) == 1 and len(ns) == 1 and len(ts) == 2 and all(isinstance(t, int) for t in ts):
                self.B.steps = 0
                return self.B.go(f, ps[0], ns[0], -g.get(K, 0), pt, {}, 0, 0)
            return False
        finally:
            self.L.extra = []

    def divof(self, f, v):
        if v in f.argids:
            return None
        i = f.defs[v]
        if i.op == "udiv" and kint(i.ops[1]):
            return i.ops[0], kint(i.ops[1])
        if i.op == "lshr" and kint(i.ops[1]) is not None and kint(i.ops[1]) < 32:
            return i.ops[0], 1 << kint(i.ops[1])
        return None

    def divfacts(self, f, pt):
        out = []
        b = pt[0] if isinstance(pt, tuple) else pt
        for i in f.instrs():
            if i.id is None or i.bb != b and not self.B.cfg(f).dominates(i.bb, b):
                continue
            if i.op == "store":
                continue
            d = self.divof(f, i.id)
            if d is not None:
                w = self.L.form(f, d[0])
                q = self.L.vform(f, i.id)
                if w is not None and q is not None:
                    out.append(addf({t: c * d[1] for t, c in q.items()}, w, -1))
        return out

    def related(self, f, o, caps, pt):
        """Is there a condition between the value (or what it is computed from) and the capacity?"""
        fs = self.L.facts(f, pt)
        seen, st = set(), [vid(o)]
        while st:
            v = st.pop()
            if v is None or v in seen:
                continue
            seen.add(v)
            for ft in fs:
                if any(isinstance(t, int) and t != K and (t == v or self.B.same(f, t, v)) for t in ft) and any(c in ft for c in caps):
                    return True
            if v not in f.argids and f.defs[v].op in ("add", "sub", "mul", "udiv", "urem", "zext", "sext", "trunc", "and", "lshr"):
                st += [vid(x) for x in f.defs[v].ops]
        return False


def obligations(P, R, pid, ld):
    """Walk the loaders; yields nothing, reports through R."""
    B, L = ld.B, ld.L
    count = 0
    und = []
    for f in ld.fs:
        fl = ld.fill[f.name]
        tv = ld.tv.get(f.name, set())
        if not fl and not tv:
            continue
        R.fn(f.name)
        # what is known about the buffers that were filled: root -> list of (call, size form)
        sizes = {}
        for c in f.calls():
            r = ld.readers.get(ld.cn(c.callee))
            if r is None or f.cname in ld.readers:
                continue
            w = sizeform(ld, f, c, r)
            for root, m in ld.leaves(f, c.ops[r[0]]):
                sizes.setdefault((root, m), []).append((c, w))

        def goal(g, pt):
            # sizes and counts are unsigned; differences of them have their own obligation
            return g is not None and (all(c <= 0 for c in g.values()) or ld.le(f, g, pt))

        def decide(key, i, o, gs, caps, what):
            """gs: alternatives, each a list of goals that must all hold"""
            nonlocal count
            count += 1
            if any(all(goal(g, i.bb) for g in a) for a in gs if a):
                R.check(True, key, i.where(), "")
                return
            off = None
            for k in SLACK:
                if any(all(goal(addf(g, {K: -k}) if n == 0 else g, i.bb) for n, g in enumerate(a)) for a in gs if a):
                    off = k
                    break
            some = ld.related(f, o, caps, i.bb)
            R.check(False, key, i.where(), "%s %s" % (what, "may be too large by %d" % off if off else "is not bounded by what was loaded, by the checks in front of it" if some else "is used without a check against what was loaded"))

        def lenforms(cell, i):
            """(form of the number of elements, atom) at i"""
            out = []
            for q in ld.current(f, cell, i):
                w = L.form(f, {"v": q.id})
                if w is not None:
                    out.append(w)
            return out

        for i in list(f.instrs()):
            if i.bb not in B.cfg(f).num:
                continue
            # -- arithmetic on file data must not wrap --------------------------------
            if i.op == "sub" and i.id in tv and kint(i.ops[0]) is None and used_for_memory(f, i):
                a, b = L.form(f, i.ops[0]), L.form(f, i.ops[1])
                if a is not None and b is not None:
                    n = addf(b, a, -1)
                    ok = signed_small(f, i) or goal(n, i.bb)
                    count += 1
                    R.check(ok, "wrap:%s@%s" % (i.op, f.cname), i.where(), "a difference of values from the file may wrap around")
            if i.op in ("add", "mul") and i.id in tv and used_for_memory(f, i):
                w = width(i.ty)
                bad = None
                for o in i.ops:
                    v = vid(o)
                    if v is None or v not in tv:
                        continue
                    if narrower(f, v, w) or anybound(ld, f, v, i.bb):
                        continue
                    bad = o
                count += 1
                R.check(bad is None, "wrap:%s@%s" % (i.op, f.cname), i.where(), "a sum of unchecked values from the file may wrap around")
            # -- indexing ---------------------------------------------------------------
            if i.op == "getelementptr" and any("idx" in s for s in i.steps):
                for n, s in enumerate(i.steps):
                    if "idx" not in s:
                        continue
                    o = s["idx"]
                    N = s.get("n")
                    if N:
                        if vid(o) in tv:
                            w = L.form(f, o)
                            if w is not None:
                                decide("index@%s:%s" % (f.cname, member(i, n)), i, o, [[addf(w, {K: -(N - 1)}), {t: -c for t, c in w.items()}]], [K], "an index into %s[%d] from the file" % (member(i, n), N))
                        continue
                    if n > 0 or not dereferenced(f, i):
                        continue
                    base = i.d["base"]
                    esz = L.sizeof(s.get("ety"))
                    cell = lencell(ld, f, base)
                    lv = ld.leaves(f, base)
                    w = L.form(f, o)
                    if w is None or esz is None:
                        continue
                    low = {t: -c for t, c in w.items()}
                    # the start may itself lie inside of what was loaded
                    off, root = {t: k * esz for t, k in w.items()}, vid(base)
                    while root is not None and root not in f.argids and f.defs[root].op == "getelementptr" and len(f.defs[root].steps) == 1 and "idx" in f.defs[root].steps[0]:
                        s2 = f.defs[root].steps[0]
                        w2, e2 = L.form(f, s2["idx"]), L.sizeof(s2.get("ety"))
                        if w2 is None or e2 is None:
                            break
                        off, root = addf(off, {t: k * e2 for t, k in w2.items()}), vid(f.defs[root].d["base"])
                    lowoff = {t: -c // math.gcd(*off.values()) for t, c in off.items()} if off else {}
                    if cell is not None:
                        if vid(o) in tv:
                            caps = lenforms(cell[0], i)
                            decide("index@%s:%s" % (f.cname, cell[1]), i, o, [[addf(addf(w, c, -1), {K: 1}), low] for c in caps], [t for c in caps for t in c if t != K], "an index into %s from the file" % cell[1])
                        continue
                    hit = [(r, m) for r, m in lv if (r, m) in sizes]
                    if hit and len(hit) >= 1 and isheap(f, lv):
                        if all(u.op == "icmp" or u.op == "getelementptr" and len(u.steps) == 1 and "idx" in u.steps[0] for u in f.uses.get(i.id, ())):
                            continue      # accesses from there on count from the start
                        # data read from the file: only as far as it was read
                        sz = {id(c): (c, w2) for h in hit for c, w2 in sizes[h] if (c.bb == i.bb and c.ix < i.ix) or (c.bb != i.bb and B.cfg(f).dominates(c.bb, i.bb))}
                        gs, caps = [], []
                        for c, w2 in sz.values():
                            if w2 is None:
                                continue
                            gs.append([addf(addf(off, {K: esz}), w2, -1), lowoff])
                            caps += [t for t in w2 if t != K]
                        decide("content@%s" % f.cname, i, o, gs, caps, "the part of the record that is looked at")
                        continue
                    if vid(o) in tv or loopover(f, o, tv):
                        # memory allocated for what the file announced
                        al = allocform(ld, f, base, i)
                        if al is not None:
                            decide("index@%s:allocated" % f.cname, i, o, [[addf(addf({t: k * esz for t, k in w.items()}, {K: esz}), al, -1), low]], [t for t in al if t != K], "an index from the file into allocated memory")
                        elif vid(o) in tv:
                            und.append("%s: index into memory of unknown size" % f.cname)
            if i.op == "store" and vid(i.ops[0]) in tv:
                strlen_rule(ld, f, i, decide)
            if i.op != "call":
                continue
            n = ld.cn(i.callee) if i.callee else ""
            if n in ACCESS:
                t, k, fld = ACCESS[n]
                if len(i.ops) > k and vid(i.ops[k]) in tv:
                    w = L.form(f, i.ops[k])
                    caps = lenforms(ld.cell(f, i.ops[t], fld), i)
                    gs = [[addf(addf(w, c, -1), {K: 1})] for c in caps]
                    cs = [x for c in caps for x in c if x != K]
                    if n == "bucket_arr_get":
                        for bi, bl, blv in bucketpos(ld, f, i.ops[t], i.ops[k], i):
                            gs.append([addf(addf(bi, bl, -1), {K: 1})])
                            cs += [x for x in bl if x != K]
                    decide("element:%s@%s" % (n, f.cname), i, i.ops[k], gs, cs, "an element number from the file")
            elif n == "obj_clone":
                if vid(i.ops[2]) in tv:
                    w = L.form(f, i.ops[2])
                    a = B.addr(f, i.ops[0])[0]
                    cell = L.fieldaddr(a, "workspace", "objs")
                    cell = ("p", cell[1], cell[2] + (("bucket_arr", "len"),))
                    caps = lenforms(cell, i)
                    decide("root@%s" % f.cname, i, i.ops[2], [[addf(addf(w, c, -1), {K: 1})] for c in caps], [x for c in caps for x in c if x != K], "the number of the loaded object")
            elif n in ("memcpy", "memmove") or (n or "").startswith("llvm.memcpy") or (n or "").startswith("llvm.memmove") or n in ld.readers:
                rd = ld.readers.get(n)
                w = sizeform(ld, f, i, rd) if rd else L.form(f, i.ops[2])
                so = [x for x in (rd[1] if rd else (2,)) if isinstance(x, int)]
                if not so or not any(vid(i.ops[x]) in tv for x in so) or w is None:
                    continue
                ends = [(i.ops[rd[0]], "destination")] if rd else [(i.ops[0], "destination"), (i.ops[1], "source")]
                for o, side in ends:
                    caps, off, name = capacity(ld, f, o, i, sizes)
                    szo = next(i.ops[x] for x in so if vid(i.ops[x]) in tv)
                    if caps is None:
                        pr = product_le(ld, f, o, szo, i)
                        if pr is None:
                            und.append("%s: %s of %s" % (f.cname, side, n))
                        else:
                            count += 1
                            R.check(pr, "length:%s:%s@%s" % (n.split(".")[1] if n.startswith("llvm.") else n, side, f.cname), i.where(), "a number of items from the file is not limited to the memory it is read into")
                        continue
                    gs = [[addf(addf(off, w), c, -1)] for c in caps]
                    decide("length:%s:%s@%s" % (n.split(".")[1] if n.startswith("llvm.") else n, side, f.cname), i, szo, gs, [t for c in caps for t in c if t != K], "a length from the file, for %s," % (name or side))
    for t in sorted(set(und)):
        R.assume("not decided: " + t)
    return count


def sizeform(ld, f, c, r):
    w = {K: 1}
    for o in r[1]:
        x = ld.L.const(o[1]) if isinstance(o, tuple) else ld.L.form(f, c.ops[o])
        if x is None:
            return None
        if set(w) <= {K}:
            w = {t: k * w.get(K, 0) for t, k in x.items()}
        elif set(x) <= {K}:
            w = {t: k * x.get(K, 0) for t, k in w.items()}
        else:
            w = ld.L.product(w, x)
    return w


def member(i, n):
    fs = [s["f"] for s in i.steps[:n] if "f" in s]
    if fs:
        return fs[-1]
    d = i.fn.defs.get(vid(i.d["base"]))
    if d is not None and d.op == "getelementptr":
        fs = [s["f"] for s in d.steps if "f" in s]
        if fs:
            return fs[-1]
    if d is not None and d.op == "alloca":
        return d.d.get("name") or "?"
    return "?"


def dereferenced(f, i):
    """Is the address used for more than being compared?"""
    f.build_uses() if not getattr(f, "uses", None) else None
    return any(u.op != "icmp" for u in f.uses.get(i.id, ()))


def used_for_memory(f, i):
    """Does the result reach an address, a length, a comparison or a stored value?"""
    f.build_uses() if not getattr(f, "uses", None) else None
    return any(u.op not in ("trunc",) for u in f.uses.get(i.id, ()))


def signed_small(f, i):
    """int arithmetic on a narrower type cannot wrap; a negative result is the index's own obligation."""
    v = vid(i.ops[0])
    if v is None or v in f.argids:
        return False
    d = f.defs[v]
    return d.op == "zext" and width(d.d.get("sty")) < width(i.ty) and kint(i.ops[1]) is not None


def narrower(f, v, w):
    if v in f.argids:
        return False
    d = f.defs[v]
    if d.op == "zext" and width(d.d.get("sty")) < w:
        return True
    if d.op in ("urem", "and", "lshr") or d.op == "udiv":
        return True
    return False


def anybound(ld, f, v, pt):
    """Does any condition bound the value from above by something that is not itself unchecked?"""
    seen, st = set(), [v]
    fs = ld.L.facts(f, pt)
    while st:
        v = st.pop()
        if v is None or v in seen:
            continue
        seen.add(v)
        w = ld.L.vform(f, v)
        for ft in fs:
            if any(t != K and t in w and w[t] > 0 and ft.get(t, 0) > 0 for t in ft):
                return True
        if v in f.argids:
            continue
        d = f.defs[v]
        if d.op in ("zext", "sext", "trunc", "freeze"):
            st.append(vid(d.ops[0]))
        elif d.op == "load":
            s = ld.B.laststore(f, d)
            if s is not None:
                st.append(vid(s.ops[0]))
        elif d.op == "phi":
            st += [vid(o) for o, _ in d.ops]
        elif d.op in ("sub", "udiv", "lshr", "and", "urem"):
            st.append(vid(d.ops[0]))
        elif d.op == "add" and kint(d.ops[1]) is not None:
            st.append(vid(d.ops[0]))
    return False


def isheap(f, lv):
    return not any(r in f.defs and f.defs[r].op == "alloca" for r, _ in lv if isinstance(r, int))


def lencell(ld, f, base):
    """Table read from a member with a known length member -> (cell of the length, name)."""
    v = vid(base)
    if v is None or v in f.argids or f.defs[v].op != "load":
        return None
    fl = ld.P.field(f, f.defs[v].ops[0])
    if fl not in LENOF:
        # first member of an argument: the address is the structure itself
        for (s, m), cf in LENOF.items():
            a = vid(f.defs[v].ops[0])
            if a in f.argids and f.defs[v].ty == "ptr" and ld.P.ditype(f, f.defs[v].ops[0]) and s in str(ld.P.ditype(f, f.defs[v].ops[0])):
                return ld.cell(f, f.defs[v].ops[0], cf), m
        return None
    o = f.defs[v].ops[0]
    d = f.defs.get(vid(o)) if vid(o) is not None else None
    b = o
    if d is not None and d.op == "getelementptr" and d.steps and d.steps[-1].get("f") == fl[1]:
        if len(d.steps) == 1:
            b = d.d["base"]
            return ld.cell(f, b, LENOF[fl]), fl[1]
        a = ld.L.flat(ld.B.addr(f, o)[0])
        return ("p", a[1], a[2][:-1] + (LENOF[fl],)), fl[1]
    return ld.cell(f, b, LENOF[fl]), fl[1]


def loopover(f, o, tv):
    """A counter that runs up to a value from the file."""
    v = vid(o)
    seen = set()
    while v is not None and v not in f.argids and v not in seen:
        seen.add(v)
        d = f.defs[v]
        if d.op in ("zext", "sext", "trunc"):
            v = vid(d.ops[0])
            continue
        break
    if v is None or v in f.argids or f.defs[v].op != "phi":
        return False
    f.build_uses() if not getattr(f, "uses", None) else None
    for u in f.uses.get(v, ()):
        for q in [u] + (list(f.uses.get(u.id, ())) if u.op in ("zext", "sext") else []):
            if q.op == "icmp" and any(vid(x) in tv for x in q.ops):
                return True
    return False


def allocform(ld, f, base, at):
    """Number of bytes of the allocation a pointer was loaded from, if it can be named."""
    v = vid(base)
    for _ in range(6):
        if v is None or v in f.argids:
            return None
        i = f.defs[v]
        if i.op == "load":
            s = ld.B.laststore(f, i) or reaching(ld, f, i)
            if s is None:
                return None
            v = vid(s.ops[0])
            continue
        if i.op == "getelementptr" and [s.get("f") for s in i.steps] == ["s"] and i.steps[0].get("s") == "samu_string":
            c = f.defs.get(vid(i.d["base"]))
            if c is not None and c.op == "call" and ld.cn(c.callee) == "samu_mkstr":
                w = ld.L.form(f, c.ops[1])
                return None if w is None else addf(w, {K: 1})
            return None
        if i.op == "call":
            n = ld.cn(i.callee) if i.callee else ""
            if n not in ALLOC:
                return None
            w = {K: 1}
            for k in ALLOC[n]:
                x = ld.L.form(f, i.ops[k])
                if x is None:
                    return None
                w = {t: c * x.get(K, 0) for t, c in w.items()} if set(x) <= {K} else {t: c * w.get(K, 0) for t, c in x.items()} if set(w) <= {K} else ld.L.product(w, x)
            return w
        return None
    return None


def reaching(ld, f, i):
    """The only store to the same cell that dominates a load, with nothing in between that changes the member."""
    a, deps = ld.B.addr(f, i.ops[0])
    best = None
    for s in f.instrs():
        if s.op == "store" and ld.L.flat(ld.B.addr(f, s.ops[1])[0]) == ld.L.flat(a):
            if ld.B.cfg(f).dominates(s.bb, i.bb) and (best is None or ld.B.cfg(f).dominates(best.bb, s.bb)):
                best = s
    if best is None:
        return None
    for q in ld.B.between(f, best, i):
        if q.op in ("store", "call") and ld.B.clobbers(f, q, deps | ld.B.cellof(f, i), a):
            return None
    return best


def capacity(ld, f, o, at, sizes):
    """-> (list of capacity forms or None, offset form, name)"""
    L = ld.L
    v = vid(o)
    off = {}
    while v is not None and v not in f.argids and f.defs[v].op == "getelementptr":
        i = f.defs[v]
        cell = lencell(ld, f, i.d["base"])
        if any("f" in s for s in i.steps):
            break
        w = {}
        for s in i.steps:
            x = L.scaled(f, s)
            if x is None:
                return None, {}, None
            w = addf(w, x)
        off = addf(off, w)
        o = i.d["base"]
        v = vid(o)
    cell = lencell(ld, f, o)
    if cell is not None:
        caps = []
        for q in ld.current(f, cell[0], at):
            w = L.form(f, {"v": q.id})
            if w is not None:
                caps.append(w)
        return caps, off, cell[1]
    lv = ld.leaves(f, o)
    if v is not None and v not in f.argids and f.defs[v].op in ("call", "getelementptr"):
        al = allocform(ld, f, o, at)
        if al is not None:
            return [al], off, "allocated memory"
    if v is not None and v not in f.argids and f.defs[v].op == "phi":
        # grown until it is large enough: every case has its own capacity
        cs = [grown(ld, f, v)]
        if cs[0] is not None and ld.cn(at.callee) in ld.readers:
            return cs, off, "buffer"
    hit = [h for h in lv if h in sizes]
    if hit and isheap(f, lv) and not (ld.cn(at.callee) in ld.readers):
        caps = [w for h in hit for c, w in sizes[h] if w is not None and ((c.bb == at.bb and c.ix < at.ix) or (c.bb != at.bb and ld.B.cfg(f).dominates(c.bb, at.bb)))]
        return caps, off, "record"
    return None, {}, None


def grown(ld, f, v):
    """A buffer and the variable with its size, changed together: phi(buf) and phi(cap) of the same block."""
    i = f.defs[v]
    for j in f.blocks[i.bb]:
        if j.op != "phi" or j is i or j.ty == "ptr":
            continue
        if pairs(ld, f, i, j, set()):
            return ld.L.vform(f, j.id)
    return None


def pairs(ld, f, i, j, seen):
    """Does j always hold the size of the allocation i?"""
    if (i.id, j.id) in seen:
        return True
    seen.add((i.id, j.id))
    bo = {p: o for o, p in i.ops}
    co = {p: o for o, p in j.ops}
    for p in bo:
        b, c = vid(bo[p]), co.get(p)
        if b is None:
            return False
        d = f.defs.get(b)
        cd = f.defs.get(vid(c)) if vid(c) is not None else None
        if d is None:
            return False
        if d.op == "phi":
            if cd is not None and cd.op == "phi" and cd.bb == d.bb and pairs(ld, f, d, cd, seen):
                continue
            return False
        if d.op == "call" and ld.cn(d.callee) in ALLOC:
            ks = ALLOC[ld.cn(d.callee)]
            if len(ks) != 1:
                return False
            a = ld.L.form(f, d.ops[ks[0]])
            w = ld.L.form(f, c)
            if a is None or w is None or a != w:
                return False
            continue
        return False
    return True


def product_le(ld, f, o, n, at):
    """Items read into the storage of a bucket: the bucket has room for bucket_size of them.  None: not of that form."""
    B, L = ld.B, ld.L
    v = vid(o)
    if v is None or v in f.argids or f.defs[v].op != "load":
        return None
    fl = ld.P.field(f, f.defs[v].ops[0])
    a = B.addr(f, f.defs[v].ops[0])[0]
    init = None
    for c in f.calls():
        if ld.cn(c.callee) == "init_bucket" and (L.flat(B.addr(f, c.ops[1])[0]) == L.flat(a) or L.fieldaddr(B.addr(f, c.ops[1])[0], "bucket", "mem") == L.flat(a)):
            init = c
    if init is None:
        return None
    d = f.defs[B.strip(f, vid(n))]
    if d.op != "mul":
        return False
    for x, y in ((0, 1), (1, 0)):
        k = f.defs.get(B.strip(f, vid(d.ops[x]))) if vid(d.ops[x]) is not None else None
        if k is None or k.op != "load" or ld.P.field(f, k.ops[0]) != ("bucket_arr", "item_size"):
            continue
        w = L.form(f, d.ops[y])
        for q in ld.current(f, ld.cell(f, init.ops[0], ("bucket_arr", "bucket_size")), at):
            if ld.le(f, addf(w, L.form(f, {"v": q.id}), -1), at.bb):
                return True
    return False


def bucketpos(ld, f, table, idx, at):
    """Forms (position inside its bucket, number of items in that bucket) of an element number."""
    B, L = ld.B, ld.L
    v = vid(idx)
    for i in f.instrs():
        if i.op != "urem" or vid(i.ops[0]) is None or not (B.strip(f, vid(i.ops[0])) == B.strip(f, v) or B.same(f, vid(i.ops[0]), v)):
            continue
        bs = f.defs.get(B.strip(f, vid(i.ops[1]))) if vid(i.ops[1]) is not None else None
        if bs is None or bs.op != "load" or ld.canon(B.addr(f, bs.ops[0])[0]) != ld.canon(ld.cell(f, table, ("bucket_arr", "bucket_size"))):
            continue
        for q in f.instrs():
            if q.op != "load" or ld.P.field(f, q.ops[0]) != ("bucket", "len"):
                continue
            if not ((q.bb == at.bb and q.ix < at.ix) or (q.bb != at.bb and B.cfg(f).dominates(q.bb, at.bb))):
                continue
            g = f.defs.get(vid(q.ops[0]))
            c = f.defs.get(vid(g.d["base"])) if g is not None and g.op == "getelementptr" else None
            if c is None or c.op != "call" or ld.cn(c.callee) != "arr_get":
                continue
            if ld.canon(B.addr(f, c.ops[0])[0]) != ld.canon(ld.cell(f, table, ("bucket_arr", "buckets"))):
                continue
            dv = f.defs.get(B.strip(f, vid(c.ops[1]))) if vid(c.ops[1]) is not None else None
            if dv is None or dv.op != "udiv" or not B.same(f, vid(dv.ops[0]), vid(i.ops[0])) or not B.same(f, vid(dv.ops[1]), vid(i.ops[1])):
                continue
            yield L.vform(f, i.id), L.vform(f, q.id), q


def strlen_rule(ld, f, i, decide):
    """A string's text and length are stored together: the text must be that long."""
    B, L = ld.B, ld.L
    a = vid(i.ops[1])
    if a is None or a in f.argids or f.defs[a].op != "getelementptr":
        return
    g = f.defs[a]
    t = ld.P.field(f, i.ops[1])
    off = next((kint(s["idx"]) for s in g.steps if "idx" in s), None)
    if t != ("str", "len") and not (off == 8 and g.d.get("sty") == "i8"):
        return
    for s in f.blocks[i.bb]:
        if s.op != "store" or s.d.get("vty") != "ptr" or B.addr(f, s.ops[1])[0] != B.addr(f, g.d["base"])[0] and ld.P.field(f, s.ops[1]) != ("str", "s"):
            continue
        v = vid(s.ops[0])
        c = f.defs.get(v) if v is not None else None
        if c is None or c.op != "call":
            continue
        w = L.form(f, i.ops[0])
        if ld.cn(c.callee) == "bucket_arr_get":
            gs, cs = [], []
            for bi, bl, q in bucketpos(ld, f, c.ops[0], c.ops[1], i):
                gs.append([addf(addf(addf(bi, w), bl, -1), {K: 1})])
                cs += [x for x in bl if x != K]
            decide("string@%s" % f.cname, i, i.ops[0], gs, cs, "the length of a string in the file")
        elif ld.cn(c.callee) in ALLOC:
            al = allocform(ld, f, s.ops[0], i)
            if al is not None:
                decide("string@%s" % f.cname, i, i.ops[0], [[addf(addf(w, al, -1), {K: 1})]], [x for x in al if x != K], "the length of a string in the file")
        return


def stale(P, R, ld, must_fail):
    """What a failed read should have filled is not used; in loaders of saved state the failure is reported."""
    R.rule("failed-read", "after a read that failed nothing of what it should have filled is looked at" + (", and the loader fails" if must_fail else ""))
    M = model(P)
    for f in ld.fs:
        sites = [c for c in f.calls() if ld.cn(c.callee) in ld.readers and f.cname not in ld.readers]
        for c0 in sites:
            r = ld.readers[ld.cn(c0.callee)]
            lv = ld.leaves(f, c0.ops[r[0]])

            def ev(i, s, env, c0=c0, lv=lv):
                if i is c0:
                    return "-stale"
                if i.op == "call" and ld.cn(i.callee) in ld.readers and ld.leaves(f, i.ops[ld.readers[ld.cn(i.callee)][0]]) & lv:
                    return "-stale"
                if i.op == "load" and "stale" in s.cur and i.ty != "ptr" and any((q, m) in lv or (m is None and any(q == x for x, _ in lv)) for q, m in ld.leaves(f, i.ops[0])):
                    return "used"
                return None

            def res(i, c0=c0):
                if i is c0:
                    return [(0, "stale", "failed"), (1,)]
                return None
            s = Paths(P, f, M, results=res, events=ev).go()
            R.fn(f.name)
            used = [h for k, hs in s.hits.items() for h in hs if f.defs.get(k) is not None and f.defs[k].op == "load"]
            R.check(not used, "stale:%s@%s" % (ld.cn(c0.callee), f.cname), c0.where(), "%s goes on with data that could not be read" % f.cname, used[0][1] if used else None)
            if must_fail:
                bad = [x for x in s.rets if "failed" in x[1] and not is_fail(M, f, x[0])]
                R.check(not bad, "read:%s@%s" % (ld.cn(c0.callee), f.cname), c0.where(), "%s succeeds although the file ended early" % f.cname, bad[0][2] if bad else None)


def c11(P):
    if not hasattr(P, "_c11"):
        P._c11 = Loader(P, ["serial_load"], {P.fn("serial_load").file})
    return P._c11


@prop("C11")
def loader(P, R):
    ld = c11(P)
    R.rule("checked-before-use", "lengths, offsets and numbers read from a saved file are bounded, by the conditions that dominate their use, by what was loaded or allocated")
    n = obligations(P, R, "C11", ld)
    if not n:
        raise AnalysisBroken("no value read from a saved file is used")
    stale(P, R, ld, True)


@prop("C11")
def rejected(P, R):
    """Every part of the file that does not load makes loading fail."""
    M = model(P)
    ld = c11(P)
    R.rule("rejected", "a loader that finds a part corrupted, or fails to load a part, fails")
    names = {f.cname for f in ld.fs}
    loaders = {g.cname for g in ld.fs if any(ld.cn(c.callee) in ld.readers or ld.cn(c.callee) == "corrupted_dump" for c in g.calls())} - set(ld.readers)
    for f in sorted(P.funcs.values(), key=lambda f: f.name):
        if f.file.endswith("_test.c"):
            continue
        for c0 in list(f.calls()):
            n = ld.cn(c0.callee) if c0.callee else ""
            if not (n in loaders and f.name in {g.name for g in ld.fs} or n in ("serial_load", "serial_load_from_private_dir", "load_obj_from_serial_dump")):
                continue
            if f.file == "src/cmd_test.c" and n == "serial_load_from_private_dir":
                pass

            def res(i, c0=c0):
                return [(0, "failed")] if i is c0 else None
            s = Paths(P, f, M, results=res).go()
            bad = [x for x in s.rets if "failed" in x[1] and not is_fail(M, f, x[0])]
            R.fn(f.name)
            R.check(not bad, "%s@%s" % (n, f.cname), c0.where(), "%s succeeds although %s failed" % (f.cname, n), bad[0][2] if bad else None)


@prop("C11")
def identified(P, R):
    """A file of another kind or version is not read any further."""
    R.rule("identified", "the header is accepted only when both the magic and the version in the file equal those of this muon")
    M = model(P)
    ld = c11(P)
    hdr = [f for f in ld.fs if any((c.callee or "") in ("memcmp", "strncmp", "bcmp") for c in f.calls()) and any(ld.cn(c.callee) in ld.readers for c in f.calls())]
    R.check(bool(hdr), "magic", "", "the magic at the start of a saved file is never compared")
    for f in hdr:
        R.fn(f.name)
        for c in f.calls():
            if (c.callee or "") in ("memcmp", "strncmp", "bcmp"):
                s = Paths(P, f, M, results=lambda i, c=c: [(1, "differs")] if i is c else None).go()
                bad = [x for x in s.rets if "differs" in x[1] and not is_fail(M, f, x[0])]
                R.check(not bad, "magic@%s" % f.cname, c.where(), "a file with another magic is accepted", bad[0][2] if bad else None)
                n = kint(c.ops[2])
                a = f.defs.get(vid(c.ops[0])) if vid(c.ops[0]) is not None else None
                b = f.defs.get(vid(c.ops[1])) if vid(c.ops[1]) is not None else None
                al = next((x for x in (a, b) if x is not None and x.op == "alloca"), None)
                if al is not None and n is not None:
                    R.check(n >= ld.L.sizeof(al.d.get("aty")), "magic-length@%s" % f.cname, c.where(), "only a part of the magic is compared")
        # the version
        ver = [g for g in ("serial_version",)]
        vs = [i for i in f.instrs() if i.op == "load" and isinstance(i.ops[0], dict) and str(i.ops[0].get("g", "")).split("@")[0] in ver]
        ok = False
        rets = [i for i in f.instrs() if i.op == "ret"]
        cases = []
        for r in rets:
            v = vid(r.ops[0]) if r.ops else None
            if v is not None and v not in f.argids and f.defs[v].op == "phi":
                cases += [(o, (p, f.defs[v].bb)) for o, p in f.defs[v].ops]
            elif r.ops:
                cases.append((r.ops[0], r.bb))
        succ = [(o, pt) for o, pt in cases if kint(o) != 0]
        L = ld.L
        tv = ld.tv.get(f.name, set())
        ok = bool(succ)
        for o, pt in succ:
            d = f.defs.get(vid(o)) if vid(o) is not None else None
            if d is not None and d.op == "icmp" and d.d.get("pred") == "eq" and any(vid(x) in tv for x in d.ops):
                continue
            fs = L.facts(f, pt)
            good = False
            for t in {t for ft in fs for t in ft if isinstance(t, int) and t != K and t in tv}:
                up = [ft for ft in fs if ft.get(t, 0) == 1]
                for u in up:
                    neg = {x: -c for x, c in u.items()}
                    if neg in fs:
                        good = True
            ok = ok and good
        R.check(ok, "version@%s" % f.cname, f.loc(), "a file written by another version is accepted")


@prop("C31")
def logs(P, R):
    d, l = P.fn("samu_depsinit"), P.fn("samu_loginit")
    if not hasattr(P, "_c31"):
        P._c31 = Loader(P, ["samu_depsinit", "samu_loginit"], {d.file, l.file})
    ld = P._c31
    R.rule("checked-before-use", "sizes and node numbers read from the logs are bounded, by the conditions that dominate their use, by the tables and records that were loaded")
    n = obligations(P, R, "C31", ld)
    if not n:
        raise AnalysisBroken("no value read from a log is used")
    stale(P, R, ld, False)


@prop("C31")
def within(P, R):
    """Reading from the log's text stays inside it."""
    R.rule("source-bounds", "reading from the text of a log copies no more than what is left of it, and no more than was asked for")
    f = P.fn("src_fread")
    L, B = lin(P), bounds(P)
    R.fn(f.name)
    ld = P._c31
    n = 0
    for i in f.calls():
        c = i.callee or ""
        if not (c in ("memcpy", "memmove") or c.startswith(("llvm.memcpy", "llvm.memmove"))):
            continue
        n += 1
        # what is left: length of the source less the position copied from
        g = f.defs.get(vid(i.ops[1]))
        if g is None or g.op != "getelementptr" or len(g.steps) != 1 or "idx" not in g.steps[0]:
            R.check(False, "source@src_fread", i.where(), "the text is not copied from the position that was reached")
            continue
        pos = g.steps[0]["idx"]
        cell = lencell(ld, f, g.d["base"])
        m = f.defs.get(B.strip(f, vid(i.ops[2])))
        ok = asked = False
        for q in ld.current(f, cell[0], i) if cell else ():
            left = addf(L.form(f, {"v": q.id}), L.form(f, pos), -1)
            if m is not None and m.op == "mul":
                for a, b in ((0, 1), (1, 0)):
                    ok = ok or quotient(ld, f, m.ops[a], m.ops[b], left, i.bb, set())
            elif m is not None:
                ok = ok or ld.le(f, addf(L.vform(f, m.id), left, -1), i.bb)
        want = L.product(L.vform(f, f.argids[1]), L.vform(f, f.argids[2]))
        if m is not None and m.op == "mul":
            for a, b in ((0, 1), (1, 0)):
                for x, y in ((1, 2), (2, 1)):
                    if vid(m.ops[b]) is not None and B.strip(f, vid(m.ops[b])) == f.argids[x]:
                        asked = asked or upto(ld, f, m.ops[a], f.argids[y], i.bb)
        elif m is not None:
            asked = ld.le(f, addf(L.vform(f, m.id), want, -1), i.bb)
        R.check(ok, "source@src_fread", i.where(), "more may be copied than is left of the text")
        R.check(asked, "asked@src_fread", i.where(), "more may be copied than was asked for")
        # the position itself is inside the text
        ok = any(ld.le(f, addf(L.form(f, pos), L.form(f, {"v": q.id}), -1), i.bb) for q in (ld.current(f, cell[0], i) if cell else ()))
        R.check(ok, "position@src_fread", i.where(), "the position may be behind the end of the text")
    if not n:
        R.check(True, "no-copy", f.loc(), "")


def upto(ld, f, o, a, pt):
    """o <= argument a, by cases"""
    v = vid(o)
    if v is None:
        return False
    d = f.defs.get(v)
    if d is not None and d.op == "select":
        t, e = d.ops[1], d.ops[2]
        cf = ld.B.condfacts(f, d.ops[0], True) + [], ld.B.condfacts(f, d.ops[0], False)
        return all(selcase(ld, f, x, fs, a) for x, fs in ((t, cf[0]), (e, cf[1])))
    return ld.le(f, addf(ld.L.form(f, o), ld.L.vform(f, a), -1), pt)


def selcase(ld, f, x, fs, a):
    v = ld.B.strip(f, vid(x)) if vid(x) is not None else None
    if v == a:
        return True
    return any(ft[0] == "d" and ft[1] not in (ZERO, "?") and ft[2] not in (ZERO, "?") and ld.B.strip(f, ft[1]) == v and ld.B.strip(f, ft[2]) == a and ft[3] <= 0 for ft in fs)


def quotient(ld, f, r, y, left, pt, seen):
    """r * y <= left: r is left / y, or at most that, by cases."""
    L, B = ld.L, ld.B
    v = vid(r)
    if v is None or v in seen:
        return False
    seen = seen | {v}
    v = B.strip(f, v)
    yv = B.strip(f, vid(y)) if vid(y) is not None else None
    d = f.defs.get(v)
    if d is not None and d.op == "udiv":
        if vid(d.ops[1]) is not None and B.strip(f, vid(d.ops[1])) == yv or (yv is None and kint(d.ops[1]) == kint(y)):
            x = L.form(f, d.ops[0])
            return x is not None and ld.le(f, addf(x, left, -1), pt)
        return False
    if d is not None and d.op in ("phi", "select"):
        cases = [(o, (p, d.bb)) for o, p in d.ops] if d.op == "phi" else [(d.ops[1], True), (d.ops[2], False)]
        for o, e in cases:
            if quotient(ld, f, o, y, left, e if isinstance(e, tuple) else pt, seen):
                continue
            fs = B.facts(f, e) if isinstance(e, tuple) else B.condfacts(f, d.ops[0], e)
            w = vid(o)
            if w is None or not any(ft[0] == "d" and ft[3] <= 0 and ft[1] not in (ZERO, "?") and ft[2] not in (ZERO, "?") and B.strip(f, ft[1]) == B.strip(f, w)
                                    and quotient(ld, f, {"v": ft[2]}, y, left, pt, seen) for ft in fs):
                return False
        return True
    # any other value: bounded by a quotient
    return any(ft[0] == "d" and ft[3] <= 0 and ft[1] not in (ZERO, "?") and ft[2] not in (ZERO, "?") and B.strip(f, ft[1]) == v and ft[2] not in seen
               and quotient(ld, f, {"v": ft[2]}, y, left, pt, seen) for ft in B.facts(f, pt))


@prop("C31")
def strings(P, R):
    """The storage of names from the log: room for the text and its end."""
    R.rule("string-room", "a string made for n characters has room for them and for the terminator")
    f = P.fn("samu_mkstr")
    L = lin(P)
    R.fn(f.name)
    off = next((o for n, _, o in P.structs["samu_string"]["fields"] if n == "s"), None)
    n = L.vform(f, f.argids[1])
    al = [c for c in f.calls() if c.callee in P.funcs and P.funcs[c.callee].cname in ALLOC]
    for c in al:
        w = {K: 0}
        ks = ALLOC[P.funcs[c.callee].cname]
        w = L.form(f, c.ops[ks[0]]) if len(ks) == 1 else None
        if w is None:
            continue
        g = addf(addf(n, {K: off + 1}), w, -1)
        R.check(L.le0(f, g, c.bb), "samu_mkstr", c.where(), "samu_mkstr does not allocate room for the text and its terminator")


@prop("C31")
def optional(P, R):
    """Fields of a log line and what is looked up by them may be missing."""
    R.rule("missing-field", "a field of a log line, the position of a character or a node that may not have been found is used only after it was found to be there")
    B = bounds(P)
    root = P.fn("samu_loginit")
    names = set(P.reach([root.name])) | {root.name}
    fs = [P.funcs[n] for n in sorted(names) if n in P.funcs and P.funcs[n].file == root.file]
    fs += [f for f in sorted(P.funcs.values(), key=lambda f: f.name) if f.file == root.file and f not in fs]
    n = 0
    for f in fs:
        for i in f.instrs():
            if i.op == "call" and (i.callee in ("strchr", "strstr", "strrchr", "memchr", "strpbrk") or i.callee in P.funcs and P.funcs[i.callee].cname == "samu_nodeget"):
                pass
            elif i.op == "load" and i.ty == "ptr" and nullarray(B, f, i):
                pass
            else:
                continue
            R.fn(f.name)
            for u, how in derefs(P, f, i):
                n += 1
                R.check(nonnull(B, f, i, u), "missing@%s:%s" % (f.cname, how), u.where(), "%s may not be there and is used without a check" % how)
    R.check(n > 0, "none", root.loc(), "no field of the build log is checked") if not fs else R.check(True, "fields", root.loc(), "")


def nullarray(B, f, i):
    """Element of a local array of pointers that starts out empty."""
    r = B.rootalloca(f, i.ops[0])
    if r is None:
        return False
    t = f.defs[r].d.get("aty") or ""
    if not (t.startswith("[") and t.endswith("x ptr]")):
        return False
    return any(c.op == "call" and (c.callee or "").startswith("llvm.memset") and B.rootalloca(f, c.ops[0]) == r for c in f.instrs() if c.op == "call")


def derefs(P, f, i):
    """Uses of a pointer that need it to point somewhere: (instruction, name)."""
    f.build_uses() if not getattr(f, "uses", None) else None
    out = []
    name = i.d.get("name") or (P.funcs[i.callee].cname if i.op == "call" and i.callee in P.funcs else i.callee if i.op == "call" else "a field")
    st, seen = [i.id], set()
    while st:
        v = st.pop()
        if v in seen:
            continue
        seen.add(v)
        for u in f.uses.get(v, ()):
            if u.op == "load" and vid(u.ops[0]) == v:
                out.append((u, name))
            elif u.op == "store" and vid(u.ops[1]) == v:
                out.append((u, name))
            elif u.op == "getelementptr" and vid(u.d["base"]) == v:
                st.append(u.id)
            elif u.op == "call" and not P.direct_targets(u) and not (u.callee or "").startswith("llvm.lifetime"):
                out.append((u, name))
            elif u.op == "call" and u.callee not in P.funcs and (u.callee or "").startswith("str"):
                out.append((u, name))
            elif u.op == "call" and u.callee in P.funcs and P.funcs[u.callee].cname == "samu_nodeget":
                out.append((u, name))
    return out


def nonnull(B, f, i, u):
    """Does a dominating condition say that the pointer (or the cell it was read from) is not null?"""
    for ft in B.facts(f, u.bb):
        if ft[0] == "n":
            for x, y, k in ((ft[1], ft[2], ft[3]), (ft[2], ft[1], ft[3])):
                if y is ZERO and k == 0 and x not in (ZERO, "?") and B.eqt(f, x, i.id):
                    return True
        if ft[0] == "d" and ft[1] is ZERO and ft[3] < 0 and ft[2] not in (ZERO, "?") and B.eqt(f, ft[2], i.id):
            return True
    return False


@prop("C31")
def ignored(P, R):
    """A damaged log does not stop the build."""
    R.rule("ignored", "no value from a log decides whether the command gives up; the callback that reads the build log never does")
    ld = P._c31
    n = 0
    root = P.fn("samu_loginit")
    taken = {g.name for g in P.funcs.values() if g.file == root.file and any(fnname(o) == g.name for c in root.calls() for o in c.ops)}
    for f in sorted(P.funcs.values(), key=lambda f: f.name):
        if f not in ld.fs and f.name not in taken:
            continue
        tv = ld.tv.get(f.name, set())
        for c in f.calls():
            if not c.d.get("noreturn") and not (c.callee in P.funcs and P.funcs[c.callee].cname == "samu_fatal"):
                continue
            if f.name in taken:
                R.check(False, "fatal@%s" % f.cname, c.where(), "a line of the build log makes the command give up")
                continue
            bad = False
            for p, s in ld.B.cfg(f).controlling(c.bb):
                t = f.blocks[p][-1]
                d = f.defs.get(vid(t.ops[0])) if t.ops and vid(t.ops[0]) is not None else None
                st, seen = [d], set()
                while st:
                    d = st.pop()
                    if d is None or d.id in seen:
                        continue
                    seen.add(d.id)
                    if d.op == "icmp" and any(vid(o) in tv for o in d.ops):
                        bad = True
                    if d.op in ("xor", "and", "or", "select", "zext", "trunc"):
                        st += [f.defs.get(vid(o)) for o in d.ops if vid(o) is not None]
                # only the nearest condition that decides between giving up and going on
                break
            n += 1
            R.check(not bad, "fatal@%s" % f.cname, c.where(), "what a log contains makes the command give up")


@prop("C31")
def complete(P, R):
    """A list of dependencies that was only read in part is dropped."""
    R.rule("partial-list", "when a record is rejected half way through, the list it was filling is emptied before it is used")
    ld = P._c31
    for f in ld.fs:
        tv = ld.tv.get(f.name, set())
        cfg = ld.B.cfg(f)
        for s in f.instrs():
            if s.op != "store" or vid(s.ops[0]) not in tv or P.field(f, s.ops[1]) != ("samu_nodearray", "len"):
                continue
            R.fn(f.name)
            cell = ld.L.flat(ld.B.addr(f, s.ops[1])[0])
            # the loop that fills it: left through its condition when complete
            done = set()
            for b in cfg.num:
                t = f.blocks[b][-1]
                if t.op != "br" or len(t.d["succ"]) != 2 or not cfg.dominates(s.bb, b) or not fills(f, cfg, b):
                    continue
                if not any(b in f.blocks[q][-1].d.get("succ", ()) and cfg.dominates(b, q) for q in cfg.num):
                    continue
                for x in t.d["succ"]:
                    if not cfg.reaches(x, b) or not inloop(cfg, f, x, b):
                        done.add((b, x))
            if not done:
                continue        # counted when it is complete
            seen, st, bad = set(), [(s.bb, s.ix + 1)], None
            while st and bad is None:
                b, ix = st.pop()
                stop = False
                for q in f.blocks[b][ix:]:
                    if q.op == "store" and ld.L.flat(ld.B.addr(f, q.ops[1])[0]) == cell and kint(q.ops[0]) == 0:
                        stop = True
                        break
                    if q.op == "load" and P.field(f, q.ops[0]) == ("samu_nodearray", "len") and not cfg.dominates(s.bb, q.bb):
                        bad = q
                        break
                if stop or bad:
                    continue
                for x in f.blocks[b][-1].d.get("succ", ()):
                    if (b, x) in done or x in seen:
                        continue
                    seen.add(x)
                    st.append((x, 0))
            R.check(bad is None, "list@%s" % f.cname, s.where(), "a list of dependencies that could be read only in part is used%s" % (" (line %d)" % bad.line if bad else ""))


def fills(f, cfg, h):
    """A loop whose body stores pointers into a table."""
    for b in cfg.num:
        if cfg.dominates(h, b) and b != h and inloop(cfg, f, b, h):
            for q in f.blocks[b]:
                g = f.defs.get(vid(q.ops[1])) if q.op == "store" and q.d.get("vty") == "ptr" and vid(q.ops[1]) is not None else None
                if g is not None and g.op == "getelementptr" and any("idx" in x for x in g.steps):
                    return True
    return False


def inloop(cfg, f, x, h):
    """Does x lead back to the loop header h without leaving what h dominates?"""
    seen, st = {x}, [x]
    while st:
        b = st.pop()
        if b == h:
            return True
        if not cfg.dominates(h, b):
            continue
        for y in f.blocks[b][-1].d.get("succ", ()):
            if y not in seen:
                seen.add(y)
                st.append(y)
    return False


@prop("C11")
def truncated(P, R):
    """The reader the loaders build on tells a short read from a complete one."""
    from rules.r_io import transfers, READS
    f = P.fn("fs_fread")
    R.rule("short-read", "reading less than was asked for fails")
    M = model(P)
    R.fn(f.name)
    for c0 in [c for c in f.calls() if c.callee == "fread"]:
        for n in (0, 1):
            a = {("arg", 1): 2}
            s = Paths(P, f, M, assume=a, results=lambda i, c0=c0, n=n: [(n, "short")] if i is c0 else [n] if i.callee in ("feof", "ferror") and False else None).go()
            bad = [r for r in s.rets if "short" in r[1] and not is_fail(M, f, r[0])]
            R.check(not bad, "fs_fread:%d" % n, c0.where(), "a short read counts as complete", bad[0][2] if bad else None)
