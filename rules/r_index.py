"""Division and indexing with numbers that come from a script."""
from rules import prop
from rules.r_errprop import model
from rulelib import Paths, callee_in
from bounds import Bounds
from prog import vid, kint, operands, AnalysisBroken
from sim import TooComplex

SOURCES = {"get_obj_number"}
OUT_SOURCES = {"str_to_i": 1}


def bounds(P):
    if not hasattr(P, "_bounds"):
        P._bounds = Bounds(P)
    return P._bounds


class Origin:
    """Does a value derive from a number of the script? Follows SSA, local memory, out parameters and arguments."""

    def __init__(self, P):
        self.P = P
        self.outc = {}
        self.argc = {}

    def cname(self, n):
        return self.P.funcs[n].cname if n in self.P.funcs else n

    def outparam(self, n, k, depth=0):
        """Does function n store a script number through its k-th pointer parameter?"""
        if OUT_SOURCES.get(self.cname(n)) == k:
            return True
        key = (n, k)
        if key in self.outc:
            return self.outc[key]
        self.outc[key] = False
        g = self.P.funcs.get(n)
        r = False
        if g is not None and k < len(g.argids) and depth < 6:
            a = g.argids[k]
            for i in g.instrs():
                if i.op == "store" and self.base(g, i.ops[1]) == a and self.number(g, i.ops[0], depth + 1):
                    r = True
                if i.op == "call":
                    for j, o in enumerate(i.ops):
                        if self.base(g, o) == a and any(self.outparam(t, j, depth + 1) for t in self.P.direct_targets(i)):
                            r = True
        self.outc[key] = r
        return r

    def base(self, f, o):
        v = vid(o)
        while v is not None and v not in f.argids and f.defs[v].op in ("getelementptr", "bitcast", "freeze"):
            i = f.defs[v]
            v = vid(i.d["base"]) if i.op == "getelementptr" else vid(i.ops[0])
        return v

    def number(self, f, o, depth=0, seen=None):
        seen = set() if seen is None else seen
        v = vid(o)
        if v is None or (f.name, v) in seen or depth > 8:
            return False
        seen.add((f.name, v))
        if v in f.argids:
            k = f.argids.index(v)
            t = f.ditypes[k + 1] if k + 1 < len(f.ditypes) else ""
            if t not in ("int64_t", "int", "int32_t", "uint32_t", "uint64_t", "size_t", "long"):
                return False
            key = (f.name, k)
            if key not in self.argc:
                self.argc[key] = False
                self.argc[key] = any(k < len(c.ops) and self.number(c.fn, c.ops[k], depth + 1, set()) for c in self.P.callers().get(f.name, ()))
            return self.argc[key]
        i = f.defs[v]
        if i.op == "call":
            return any(self.cname(t) in SOURCES for t in self.P.direct_targets(i))
        if i.op == "load":
            b = self.base(f, i.ops[0])
            if b is None or b in f.argids or f.defs[b].op != "alloca":
                return False
            for u in f.instrs():
                if u.op == "store" and self.base(f, u.ops[1]) == b and self.number(f, u.ops[0], depth, seen):
                    return True
                if u.op == "call":
                    for j, x in enumerate(u.ops):
                        if self.base(f, x) == b and any(self.outparam(t, j, depth + 1) for t in self.P.direct_targets(u)):
                            return True
            return False
        if i.op in ("phi", "add", "sub", "mul", "select", "zext", "sext", "trunc", "freeze", "xor", "and", "or", "shl"):
            return any(self.number(f, x, depth, seen) for x in operands(i))
        return False


def containers(P, f, ptr=None, struct=None, arr=None):
    """Loads of the length that belongs to a string (by its text pointer) or an array (by its object)."""
    B = bounds(P)
    out = []
    for i in f.instrs():
        if i.op != "load":
            continue
        fl = P.field(f, i.ops[0])
        if arr is not None and fl == ("obj_array", "len"):
            b = B.addr(f, i.ops[0])[0]
            # ("p", ("C", "get_obj_array", (wk, arr)), path)
            if b[0] == "p" and b[1][0] == "C" and b[1][1].split("@")[0] == "get_obj_array":
                d = f.defs[vid(i.ops[0])] if vid(i.ops[0]) is not None else None
                g = f.defs.get(vid(d.d["base"])) if d is not None and d.op == "getelementptr" else d
                if g is not None and g.op == "call" and len(g.ops) > 1 and sameval(B, f, g.ops[1], arr):
                    out.append(i)
        if ptr is not None and fl == ("str", "len"):
            if owner(B.addr(f, i.ops[0])[0]) == owner(B.addr(f, ptr)[0]):
                out.append(i)
    return out


def owner(a):
    """The object a field address belongs to."""
    if a[0] == "p":
        path = a[2]
        if path and path[-1][0] == "str":
            path = path[:-1]
        return ("p", a[1], path) if path else a[1]
    return a


def sameval(B, f, a, b):
    va, vb = vid(a), vid(b)
    if va is None or vb is None:
        return repr(a) == repr(b)
    return va == vb or B.same(f, va, vb)


def inrange(P, f, idx, lens, slack, at):
    """0 <= idx and idx <= len - slack, at block at."""
    B = bounds(P)
    if not B.prove(f, None, idx, 0, at):
        return "may be negative"
    for l in lens:
        if B.prove(f, idx, {"v": l.id}, -slack, at):
            return None
    return "may exceed the length" if lens else "is not compared with the length of this container"


@prop("C10")
def division(P, R):
    """A path walk with the divisor known to be 0 (or -1 with the smallest dividend) must not reach the division."""
    M = model(P)
    O = Origin(P)
    R.rule("division", "a division by a number of the script is unreachable when the divisor is 0, and when it is -1 and the dividend is the smallest number")
    n = 0
    for f in P.funcs.values():
        for i in f.instrs():
            if i.op not in ("sdiv", "srem", "udiv", "urem") or kint(i.ops[1]) is not None:
                continue
            if not O.number(f, i.ops[1]):
                continue
            n += 1
            R.fn(f.name)
            cases = [("zero", {0: 0})]
            if i.op in ("sdiv", "srem"):
                cases.append(("overflow", {0: -1, 1: -(1 << 63)}))
            for nm, vals in cases:
                div, num = P_origin(f, i.ops[1]), P_origin(f, i.ops[0])

                def results(c):
                    if c is div:
                        return [vals[0]]
                    if 1 in vals and c is num:
                        return [vals[1]]
                    return None
                s = Paths(P, f, M, results=results, events=lambda x, s, e: "div" if x is i else None)
                s.maxint = 1 << 64
                s.go()
                hit = s.hits.get(i.id)
                ok = not hit and div is not None
                R.check(ok, "%s-%s@%s" % (i.op, nm, f.cname), i.where(),
                        "the division is reached with %s" % ("a divisor of 0" if nm == "zero" else "the smallest number divided by -1"), hit[0][1] if hit else None)
    if not n:
        R.check(True, "no-division", "", "")


def P_origin(f, o):
    v = vid(o)
    while v is not None and v not in f.argids:
        i = f.defs[v]
        if i.op == "call":
            return i
        if i.op in ("zext", "sext", "freeze", "trunc"):
            v = vid(i.ops[0])
            continue
        if i.op == "phi":
            vs = {vid(x) for x, _ in i.ops if vid(x) is not None}
            if len(vs) == 1:
                v = vs.pop()
                continue
        return None
    return None


@prop("C10")
def indexing(P, R):
    B = bounds(P)
    O = Origin(P)
    R.rule("index", "an index computed from a number of the script is proven to be at least 0 and less than the length of the container it is used on")
    sinks = 0
    for f in sorted(P.funcs.values(), key=lambda g: (g.file, g.line)):
        if f.cname == "obj_array_index":
            continue
        for i in f.instrs():
            if callee_in(P, i, {"obj_array_index"}) and len(i.ops) >= 3 and kint(i.ops[2]) is None and O.number(f, i.ops[2]):
                sinks += 1
                R.fn(f.name)
                why = inrange(P, f, i.ops[2], containers(P, f, arr=i.ops[1]), 1, i.bb)
                R.check(why is None, "array@%s" % f.cname, i.where(), "an array index from the script %s" % why)
            elif i.op == "getelementptr":
                for st in i.steps:
                    if "idx" not in st or kint(st["idx"]) is not None or not O.number(f, st["idx"]):
                        continue
                    sinks += 1
                    R.fn(f.name)
                    if st.get("n"):
                        ok = B.prove(f, None, st["idx"], 0, i.bb) and B.prove(f, st["idx"], None, st["n"] - 1, i.bb)
                        R.check(ok, "table@%s" % f.cname, i.where(), "a table index from the script is not bounded by the table")
                        continue
                    d = f.defs.get(vid(i.d["base"]))
                    lens = containers(P, f, ptr=d.ops[0]) if d is not None and d.op == "load" else []
                    # one past the end may be addressed; a read of n bytes from there is judged at the copy
                    copies = [c for c in f.calls() if callee_in(P, c, {"make_strn"}) and vid(c.ops[1]) == i.id]
                    used = [u for u in f.instrs() if u is not i and any(vid(o) == i.id for o in operands(u)) and u not in copies]
                    why = inrange(P, f, st["idx"], lens, 1 if used else 0, i.bb)
                    R.check(why is None, "text@%s" % f.cname, i.where(), "a text index from the script %s" % why)
                    for c in copies:
                        R.check(copyfits(P, f, st["idx"], c.ops[2], lens, c.bb), "text-length@%s" % f.cname, c.where(), "a length from the script may exceed the text")
    R.rule("check", "the bounds check accepts only indexes between 0 and the length")
    for nm, (l, a) in B.CHECKS.items():
        f = P.fn(nm) if any(g.cname == nm for g in P.funcs.values()) else None
        if f is None:
            continue
        R.fn(f.name)
        R.check(postcondition(P, f, l, a), "postcondition@%s" % nm, f.loc(), "%s may accept an index that is negative or not less than the length" % nm)
    if not sinks:
        raise AnalysisBroken("no index from a script number found")


def copyfits(P, f, start, n, lens, at):
    """start + n <= len and n >= 0"""
    B = bounds(P)
    k = kint(n)
    if k is not None:
        return k >= 0 and any(B.prove(f, start, {"v": l.id}, -k, at) for l in lens)
    v = B.strip(f, vid(n))
    d = f.defs.get(v)
    if d is not None and d.op == "sub" and sameval(B, f, d.ops[1], start):
        return B.prove(f, start, d.ops[0], 0, at) and any(B.prove(f, d.ops[0], {"v": l.id}, 0, at) for l in lens)
    return False


def postcondition(P, f, l, a):
    B = bounds(P)
    arg = f.argids[a]
    ok = False
    for b in f.blocks:
        t = b[-1]
        if t.op != "ret" or b[0].bb not in B.cfg(f).num:
            continue
        v = vid(t.ops[0])
        # every way the function can answer true
        cases = [(t.ops[0], t.bb)]
        d = f.defs.get(v) if v is not None else None
        while d is not None and d.op in ("zext", "freeze"):
            cases = [(d.ops[0], d.bb)]
            v = vid(d.ops[0])
            d = f.defs.get(v) if v is not None else None
        if d is not None and d.op == "phi":
            cases = [(o, (p, d.bb)) for o, p in d.ops]
        for o, pt in cases:
            if kint(o) == 0:
                continue
            blk = pt[0] if isinstance(pt, tuple) else pt
            facts = B.condfacts(f, o, True) if kint(o) is None else []
            loads = [i for i in f.instrs() if i.op == "load" and vid(i.ops[0]) == arg and B.cfg(f).dominates(i.bb, blk)
                     and not any(writes(P, f, x, arg) for x in B.between(f, i, t))]
            vals = [{"v": i.id} for i in loads]
            for i in f.instrs():
                if i.op == "store" and vid(i.ops[1]) == arg and (B.cfg(f).dominates(i.bb, blk)) and not any(writes(P, f, x, arg) for x in B.between(f, i, t)):
                    vals.append(i.ops[0])
            B.extra = facts
            try:
                good = any(B.prove(f, None, x, 0, pt) and B.prove(f, x, {"v": f.argids[l]}, -1, pt) for x in vals)
                # decided by another check of the same kind on the same cell
                good = good or any(x[0] == "m" and vid(x[2]) == arg and x[3] == f.argids[l] and x[4] <= 0 for x in facts + B.facts(f, pt))
            finally:
                B.extra = []
            if not good:
                return False
            ok = True
    return ok


def writes(P, f, i, arg):
    if i.op == "store":
        return vid(i.ops[1]) == arg
    if i.op == "call" and not (i.callee or "").startswith("llvm."):
        return any(vid(o) == arg for o in i.ops)
    return False
