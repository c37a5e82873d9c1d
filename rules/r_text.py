"""Bytes outside ASCII in text (C33)."""
from rules import prop
from rules.r_index import bounds
from rules.r_saved import same
from prog import vid, kint, AnalysisBroken

READERS = {"fgetc", "getc", "getchar", "getc_unlocked", "fgetc_unlocked", "getchar_unlocked", "_IO_getc"}


def aschar(f, o):
    """The 8-bit value o is the signed reading of, or None."""
    v = vid(o)
    if v is None:
        return None
    if v in f.argids:
        return o if (f.ditypes[f.argids.index(v) + 1] or "").replace("const ", "") == "char" else None
    d = f.defs[v]
    if d.op == "sext" and d.d.get("sty") == "i8":
        o = d.ops[0]
        v = vid(o)
        if v is None or v in f.argids:
            return o
        d = f.defs[v]
    if d.ty == "i8" and d.op in ("load", "phi", "select", "trunc") and d.d.get("dt", "char").replace("const ", "") == "char":
        return o
    return None


def sides(f, i):
    """(predicate, the character, constant) of a comparison with the constant on the right."""
    p, a, b = i.d["pred"], i.ops[0], i.ops[1]
    if kint(a) is not None:
        a, b = b, a
        p = {"slt": "sgt", "sle": "sge", "sgt": "slt", "sge": "sle"}.get(p, p)
    return p, aschar(f, a), kint(b)


@prop("C33")
def ascii(P, R):
    B = bounds(P)
    R.rule("control", "a byte outside ASCII, negative as a signed character, never satisfies a test for control characters or blanks")
    R.rule("index", "a signed character never selects an entry of a table (the tables of the C library's character classes, which have entries for negative characters, apart)")
    R.rule("end", "a byte that was read and the end-of-file marker are never merged in a signed or narrow character: no variable, field or result can hold both the marker and a sign-extended byte")
    R.rule("accept", "evaluating the readers of script strings, of build file text and of depfiles with every input character beyond ASCII reaches no error and no early end")
    n = 0
    for f in sorted(P.funcs.values(), key=lambda f: (f.file, f.line)):
        for i in f.instrs():
            if i.op == "icmp" and i.d["pred"] in ("slt", "sle", "sgt", "sge"):
                p, c, k = sides(f, i)
                if k is None or c is None:
                    continue
                n += 1
                R.fn(f.name)
                # the set of characters below the bound
                top = {"slt": k - 1, "sle": k, "sgt": k, "sge": k - 1}[p]
                low = top in range(-1, 33)
                R.check(not low or bounded(f, i, c, B) or top < 31 and ranged(f, i, c), "control@%s:%d" % (f.cname, top), i.where(), "in %s every byte outside ASCII counts as at most %d, like a control character" % (f.cname, top))
            elif i.op == "icmp" and i.d["pred"] in ("eq", "ne") and kint(i.ops[1]) == -1:
                c = aschar(f, i.ops[0])
                if c is None:
                    continue
                d = f.defs.get(vid(c))
                t = d.op == "trunc" and f.defs.get(vid(d.ops[0])) is not None and f.defs[vid(d.ops[0])].op == "call" and f.defs[vid(d.ops[0])].callee in READERS if d is not None else False
                n += 1
                R.check(not t, "end@%s" % f.cname, i.where(), "%s takes the byte 255 for the end of the file" % f.cname)
            elif i.op == "getelementptr":
                for s in i.steps:
                    v = vid(s.get("idx")) if "idx" in s else None
                    if v is None or v in f.argids or f.defs[v].op != "sext":
                        continue
                    d = f.defs[v]
                    if d.d.get("sty") != "i8":
                        # widened twice, or moved by a constant
                        e = f.defs.get(vid(d.ops[0]))
                        while e is not None and e.op in ("add", "sub") and kint(e.ops[1]) is not None:
                            e = f.defs.get(vid(e.ops[0]))
                        if e is None or e.op != "sext" or e.d.get("sty") != "i8":
                            continue
                        d = e
                    base = f.defs.get(vid(i.d["base"]))
                    ct = base is not None and base.op == "load" and f.defs.get(vid(base.ops[0])) is not None and "__ctype" in (f.defs[vid(base.ops[0])].callee or "") if base is not None and vid(base.ops[0] if base.ops else None) is not None else False
                    n += 1
                    R.fn(f.name)
                    R.check(ct or bounded(f, i, d.ops[0], B), "index@%s" % f.cname, i.where(), "%s uses a signed character as an index: bytes outside ASCII are negative" % f.cname)
    if n < 10:
        raise AnalysisBroken("no character tests found")
    merges(P, R)
    accepts(P, R)


def bounded(f, at, c, B):
    """Is c known not to be negative where at is?"""
    cfg = B.cfg(f)
    for i in f.instrs():
        if i.op != "icmp" or i.id == at.id or i.d["pred"] not in ("slt", "sle", "sgt", "sge", "eq"):
            continue
        p, x, k = sides(f, i)
        if k is None or x is None or not same(f, x, c):
            continue
        t = f.blocks[i.bb][-1]
        if t.op != "br" or len(t.d["succ"]) != 2 or vid(t.ops[0]) != i.id:
            continue
        good = None
        if p == "sge" and k >= 0 or p == "sgt" and k >= -1 or p == "eq" and k >= 0:
            good = t.d["succ"][0]
        elif p == "slt" and k >= 0 or p == "sle" and k >= -1:
            good = t.d["succ"][1]
        if good is not None and good != t.d["succ"][1 if good == t.d["succ"][0] else 0] and cfg.dominates(good, at.bb) and (base(f, x) == base(f, c) or calm(f, i.bb, good, at)):
            return True
    return False


def base(f, o):
    """The value behind widenings and narrowings."""
    while vid(o) is not None and vid(o) not in f.argids and f.defs[vid(o)].op in ("sext", "zext", "trunc"):
        o = f.defs[vid(o)].ops[0]
    return vid(o)


def calm(f, test, frm, at):
    """Nothing is written and nothing called on the paths from block frm to at."""
    fw, work = set(), [frm]
    while work:
        b = work.pop()
        if b in fw or b == test:
            continue
        fw.add(b)
        if b != at.bb:
            work += f.succs[b]
    back, work = set(), [at.bb]
    while work:
        b = work.pop()
        if b in back or b == test:
            continue
        back.add(b)
        work += f.preds[b]
    # can at be reached again from itself without passing frm?
    loop, work = set(), list(f.succs[at.bb])
    while work:
        b = work.pop()
        if b in loop or b in (frm, test):
            continue
        loop.add(b)
        work += f.succs[b]
    bs = fw & back | (loop & back if at.bb in loop else set())
    for b in bs:
        for i in f.blocks[b]:
            if i.op == "call" and not (i.callee or "").startswith("llvm.dbg") and "__ctype" not in (i.callee or "") or i.op == "store":
                if b == at.bb and i.ix > at.ix and at.bb not in loop:
                    continue
                return False
    return True


def ranged(f, at, c):
    """One end of a range test: the other end is tested next to it."""
    near = {at.bb} | {s for s in f.succs[at.bb]} | {b for b in range(len(f.blocks)) if at.bb in f.succs[b]}
    for b in near:
        for i in f.blocks[b]:
            if i.op == "icmp" and i.id != at.id and i.d["pred"] in ("slt", "sle", "sgt", "sge"):
                p, x, k = sides(f, i)
                if k is not None and x is not None and same(f, x, c):
                    return True
    return False


def parts(f, o, seen, depth=0):
    """The values merged in o: 'eof', 'byte' (narrow or sign-extended) or 'other'."""
    if kint(o) == -1:
        return {"eof"}
    v = vid(o)
    if v is None or v in f.argids or v in seen or depth > 12:
        return set()
    seen.add(v)
    d = f.defs[v]
    if d.op == "phi":
        return set().union(*[parts(f, x, seen, depth + 1) for x, _ in d.ops]) if d.ops else set()
    if d.op == "select":
        return parts(f, d.ops[1], seen, depth + 1) | parts(f, d.ops[2], seen, depth + 1)
    if d.op in ("sext", "trunc"):
        return parts(f, d.ops[0], seen, depth + 1)
    if d.op == "load" and d.ty == "i8" and d.d.get("dt", "char").replace("const ", "") == "char":
        return {"byte"}
    return set()


def merges(P, R):
    fields = {}
    for f in sorted(P.funcs.values(), key=lambda f: (f.file, f.line)):
        for i in f.instrs():
            if i.op == "ret" and i.ops:
                t = (f.ditypes[0] or "").replace("const ", "") if f.ditypes else ""
                if t not in ("char", "int", "signed char"):
                    continue
                ps = parts(f, i.ops[0], set())
                if "byte" in ps:
                    R.check("eof" not in ps, "end@%s" % f.cname, i.where(), "%s returns both a signed character and the end marker -1: the byte 255 ends the text" % f.cname)
            elif i.op == "store":
                k = P.field(f, i.ops[1])
                if k is not None:
                    ps = parts(f, i.ops[0], set())
                    if ps:
                        fields.setdefault(k, []).append((f, i, ps))
    for k, l in sorted(fields.items(), key=str):
        ps = set().union(*[p for _, _, p in l])
        if "eof" in ps and len(ps) > 1:
            for f, i, p in l:
                if "byte" in p:
                    R.check(False, "end@%s.%s" % k[:2] if isinstance(k, tuple) else "end@%s" % (k,), i.where(), "%s stores a signed character where -1 marks the end: the byte 255 ends the text" % f.cname)
        elif "byte" in ps:
            R.check(True, "end@%s" % (k,), l[0][1].where(), "")


# function, what its result may not be for ordinary text (None: any), and the calls that report an error
TEXT = [
    ("samu_depsparse", ("samu_warn", "samu_fatal")),
    ("samu_scanstring", ("samu_scanerror", "ret")),
    ("lex_string_char", ("lex_error",)),
]
BYTES = (0x80, 0x85, 0xa0, 0xe9, 0xfe, 0xff)


class Feed:
    """A function evaluated with one character for everything it reads."""

    def __init__(self, P, f, byte):
        self.P, self.f, self.byte = P, f, byte

    def const(self, o, env, depth=0):
        k = kint(o)
        if k is not None:
            return k
        if isinstance(o, dict) and o.get("null"):
            return 0
        v = vid(o)
        if v is None or depth > 30 or v in self.f.argids:
            return None
        if v in env:
            return env[v]
        d = self.f.defs[v]
        c = lambda n: self.const(d.ops[n], env, depth + 1)
        if d.op == "load":
            if d.ty == "i8" and (d.d.get("dt") or "char").replace("const ", "") in ("char", "unsigned char", "uint8_t") and not self.local(d.ops[0]):
                return self.byte - 256 if self.byte > 127 else self.byte
            k = self.P.field(self.f, d.ops[0])
            if k in CHARS:
                return self.byte
            if d.ty == "i16" and self.ctype(d.ops[0]):
                return 0
            return None
        if d.op == "call":
            if d.callee in READERS or self.reader(d.callee):
                return self.byte
            if d.callee in ("strchr", "rawmemchr"):
                k = c(1)
                return None if k is None or 0 <= k < 128 else 0
            return None
        if d.op in ("sext", "trunc", "zext"):
            k = c(0)
            if k is None:
                return None
            if d.op == "zext":
                return k & ((1 << int(d.d["sty"][1:])) - 1)
            if d.op == "trunc":
                b = int(d.ty[1:])
                k &= (1 << b) - 1
                return k - (1 << b) if b > 1 and k >> (b - 1) else k
            return k
        if d.op in ("and", "or", "xor", "add", "sub", "mul"):
            a, b = c(0), c(1)
            if d.op == "and" and 0 in (a, b):
                return 0
            if a is None or b is None:
                return None
            return {"and": a & b, "or": a | b, "xor": a ^ b, "add": a + b, "sub": a - b, "mul": a * b}[d.op]
        if d.op == "select":
            t = c(0)
            return None if t is None else c(1 if t else 2)
        if d.op == "icmp":
            a, b = c(0), c(1)
            if a is None or b is None:
                return None
            p = d.d["pred"]
            if p[0] == "u":
                m = int(d.d.get("oty", "i64")[1:]) if d.d.get("oty", "i64")[0] == "i" else 64
                a, b = a & ((1 << m) - 1), b & ((1 << m) - 1)
            return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p if p in ("eq", "ne") else p[1:]])
        return None

    def local(self, o):
        while vid(o) is not None and vid(o) not in self.f.argids:
            d = self.f.defs[vid(o)]
            if d.op == "alloca":
                return True
            if d.op != "getelementptr":
                return False
            o = d.d["base"]
        return False

    def ctype(self, o):
        d = self.f.defs.get(vid(o))
        if d is None or d.op != "getelementptr":
            return False
        d = self.f.defs.get(vid(d.d["base"]))
        d = self.f.defs.get(vid(d.ops[0])) if d is not None and d.op == "load" else None
        return d is not None and d.op == "call" and "__ctype" in (d.callee or "")

    def reader(self, n):
        """A function that hands out the next character or -1."""
        g = self.P.funcs.get(n)
        if g is None or not g.ditypes or g.ditypes[0] not in ("int", "char", "unsigned char"):
            return False
        return any(x.op == "load" and x.ty == "i8" for x in g.instrs())

    def run(self):
        """The blocks reached."""
        f = self.f
        work, seen, out = [(0, frozenset())], set(), set()
        while work:
            b, env = work.pop()
            if (b, env) in seen:
                continue
            if len(seen) > 4000:
                raise AnalysisBroken("%s: too many states" % f.cname)
            seen.add((b, env))
            out.add(b)
            e = dict(env)
            t = f.blocks[b][-1]
            ss = f.succs[b]
            if t.op == "br" and t.ops and len(ss) == 2:
                k = self.const(t.ops[0], e)
                ss = ss if k is None else [t.d["succ"][0 if k else 1]]
            elif t.op == "switch":
                k = self.const(t.ops[0], e)
                if k is not None:
                    ss = [next((x for c, x in t.d["cases"] if c == k), t.d["default"])]
            for s in ss:
                n = dict(e)
                for i in f.blocks[s]:
                    if i.op != "phi":
                        break
                    k = next((self.const(x, e) for x, p in i.ops if p == b), None)
                    if k is None or abs(k) > 255 or i.ty not in ("i1", "i8", "i32"):
                        n.pop(i.id, None)
                    else:
                        n[i.id] = k
                work.append((s, frozenset(n.items())))
        return out


CHARS = set()


def accepts(P, R):
    CHARS.clear()
    CHARS.add(("samu_scanner", "chr"))
    for name, bad in TEXT:
        f = next((g for g in P.funcs.values() if g.cname == name), None)
        if f is None:
            continue
        R.fn(f.name)
        for byte in BYTES:
            out = Feed(P, f, byte).run()
            hit = None
            for b in sorted(out):
                for i in f.blocks[b]:
                    if i.op == "call" and i.callee in bad or i.op == "ret" and "ret" in bad:
                        hit = hit or i
            R.check(hit is None, "accept@%s" % f.cname, hit.where() if hit is not None else "%s:%d" % (f.file, f.line), "%s does not take the byte %#x for ordinary text" % (f.cname, byte))
