"""Escaping of everything written to the generated build file (C12)."""
import re
from collections import defaultdict
from rules import prop
from rules.r_errprop import model
from rules.r_index import bounds
from rules.r_wrap import root
from rulelib import Paths, callee_in, is_fail
from sim import NZ
from prog import vid, kint, isnull, cstr, fnname, AnalysisBroken

# what a text may be written as: part of a path list, of a shell command, of a
# plain value, as an identifier, or in a comment
PATH, CMD, VAL, IDENT, NOTE = "path", "command", "value", "identifier", "comment"
ALL = frozenset((PATH, CMD, VAL, IDENT, NOTE))
NONE = frozenset()
AS_PATH = frozenset((PATH, VAL, NOTE))
AS_CMD = frozenset((CMD, VAL, NOTE))
AS_NOTE = frozenset((NOTE,))

OUTPUT = {"fprintf": (0, 1), "fputs": (1, 0), "fputc": (1, 0), "fwrite": (3, 0), "obj_fprintf": (1, 2), "vfprintf": (0, 1), "putc": (1, 0)}
STREAM_OUT = ("build.ninja",)
# in-place or whole-text filters of a string buffer: name -> (index of buffer, index of text, result)
ESCAPES = {"ninja_escape": (1, 2, AS_PATH), "shell_ninja_escape": (1, 2, AS_CMD), "str_unescape": (1, 2, AS_NOTE)}
JOINED = {"join_args_ninja": AS_PATH, "join_args_shell_ninja": AS_CMD}
SAME = {"get_cstr": 1, "get_str": 1, "str_clone": 2, "str_clone_mutable": 1, "make_str": 1, "make_strn": 1}
PUSH = {"obj_array_push": (1, 2), "obj_array_set": (1, 3), "obj_dict_set": (1, 3), "obj_dict_seti": (1, 3), "obj_array_prepend": (1, 2)}
EXTEND = {"obj_array_extend": (1, 2), "obj_array_extend_nodup": (1, 2)}
FETCH = {"obj_dict_geti": (1, 3), "obj_dict_index": (1, 3), "obj_array_index": (1, 3), "obj_dict_index_str": (1, 3), "obj_array_pop": (1, None)}
COPY = {"obj_array_dup": (1, 2), "obj_array_dedup": (1, 2), "obj_array_sort": (2, 4), "obj_dict_dup": (1, 2)}
FOREACH = {"obj_array_foreach": (1, 3), "obj_array_foreach_flat": (1, 3), "obj_dict_foreach": (1, 3)}
# functions whose returned argument list consists of constants and of their own parameters
ARGLIST = re.compile(r"(struct )?args")


def fmtargs(s):
    """Conversions of a format string, in order: (text before, conversion)."""
    out, last = [], 0
    for m in re.finditer(r"%(%|[-+ #0]*(?:\*|\d+)?(?:\.(?:\*|\d+))?(?:hh|h|ll|l|z|j|t|L)?[a-zA-Z])", s):
        if m.group(0) == "%%":
            continue
        out.append((s[last:m.start()], m.group(0)))
        last = m.end()
    return out, s[last:]


class Text:
    """What is known about the characters of a text, by where it comes from."""

    def __init__(self, P):
        self.P = P
        self.B = bounds(P)
        self.memo = {}
        self.busy = set()
        self.cut = False
        self.stores = defaultdict(list)     # (struct, member) -> [(f, value operand)]
        self.outs = defaultdict(list)       # (struct, member) -> [(call, operand index)]
        self.gstore = set()
        self.foreach = defaultdict(list)    # callback -> [(call, container operand)]
        self.steps = 0
        for f in P.funcs.values():
            for i in f.instrs():
                if i.op == "store":
                    r = root(f, i.ops[1])
                    fl = P.field(f, i.ops[1])
                    if fl:
                        self.stores[fl].append((f, i))
                    if r is None:
                        g = i.ops[1].get("g") if isinstance(i.ops[1], dict) else None
                        d = f.defs.get(vid(i.ops[1])) if vid(i.ops[1]) is not None and vid(i.ops[1]) not in f.argids else None
                        while g is None and d is not None and d.op == "getelementptr":
                            b = d.d["base"]
                            g = b.get("g") if isinstance(b, dict) else None
                            d = f.defs.get(vid(b)) if vid(b) is not None and vid(b) not in f.argids else None
                        if g:
                            self.gstore.add(g)
                elif i.op == "call":
                    n = self.cname(i)
                    if n in FOREACH:
                        a, k = FOREACH[n]
                        if k < len(i.ops) and fnname(i.ops[k]):
                            self.foreach[i.ops[k]["fn"]].append((i, i.ops[a]))
                    for k, o in enumerate(i.ops):
                        v = vid(o)
                        d = f.defs.get(v) if v is not None and v not in f.argids else None
                        if d is not None and d.op == "getelementptr" and not n.startswith("llvm."):
                            fl = P.field(f, o)
                            if fl:
                                self.outs[fl].append((i, k))
        self.H = Heap(P, self)

    def cname(self, c):
        return self.P.funcs[c.callee].cname if c.callee in self.P.funcs else (c.callee or "")

    # -- definitions of a local variable that may reach an instruction ------
    def reaching(self, f, a, at):
        """Stores to and calls with the address a that may be the last before `at`."""
        out, seen = [], set()
        work = [(at.bb, at.ix)]
        while work:
            b, ix = work.pop()
            stop = False
            for j in range(ix - 1, -1, -1):
                i = f.blocks[b][j]
                if i.op == "store" and vid(i.ops[1]) == a:
                    out.append(i)
                    stop = True
                    break
                if i.op == "call" and any(vid(o) == a for o in i.ops) and not self.cname(i).startswith("llvm.lifetime"):
                    out.append(i)
                    if self.cname(i) in ("sbuf_init", "sbuf_clear"):
                        stop = True
                        break
                if i.op == "call" and self.cname(i) == "make_obj" and vid(i.ops[1]) == a:
                    stop = True
                    break
            if not stop:
                for p in f.preds[b]:
                    if p not in seen:
                        seen.add(p)
                        work.append((p, len(f.blocks[p])))
        return out

    def shared(self, f, a):
        """Is the address of a variable kept in memory?"""
        return any(i.op == "store" and vid(i.ops[0]) == a for i in f.build_uses().get(a, ()))

    # -- texts --------------------------------------------------------------
    def of(self, fr, o, at=None):
        """(safe uses, what makes the others unsafe). fr = (function, call or None, outer frame)."""
        f = fr[0]
        if not isinstance(o, dict) or cstr(o) is not None or isnull(o) or kint(o) is not None:
            return ALL, None
        v = vid(o)
        if v is None:
            g = o.get("g")
            if g and g not in self.gstore:
                return ALL, None
            return NONE, "global %s" % (g or o)
        key = (self.fkey(fr), v)
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            self.cut = True
            return ALL, None
        self.busy.add(key)
        outer, self.cut = self.cut, False
        self.steps += 1
        if len(self.busy) == 1:
            self.steps = 0
        try:
            if self.steps > 5000:
                return NONE, "text that comes from many places"
            r = self.value(fr, v)
        finally:
            self.busy.discard(key)
        if not self.cut or r[0] == NONE or not self.busy:
            self.memo[key] = r
        self.cut = self.cut or outer
        return r

    def fkey(self, fr):
        out = []
        while fr is not None:
            out.append((fr[0].name, fr[1].id if fr[1] is not None else None))
            fr = fr[2]
        return tuple(out)

    def depth(self, fr):
        n = 0
        while fr is not None:
            n, fr = n + 1, fr[2]
        return n

    def meet(self, rs):
        s, w = ALL, None
        for r, x in rs:
            if r != ALL and w is None or (r & s) < s and x:
                w = x if w is None or not (s & r) else (w if s <= r else x)
            s = s & r
            if not s:
                return s, w or x
        return s, w

    def actuals(self, fr, k):
        """The operands a parameter stands for: (frame, operand)."""
        f = fr[0]
        if fr[1] is not None:
            if k < len(fr[1].ops):
                yield fr[2], fr[1].ops[k]
            return
        n = 0
        for c in self.P.callers().get(f.name, ()):
            if f.name in self.P.direct_targets(c) and k < len(c.ops):
                n += 1
                yield (c.fn, None, None), c.ops[k]
        if f.name in self.foreach and k == len(f.argids) - 1:
            for c, cont in self.foreach[f.name]:
                for a in self.allocs((c.fn, None, None), cont):
                    if a is None:
                        yield (c.fn, None, None), {"g": "elements of an unknown list at %s" % c.where()}
                    else:
                        yield from self.contents(a)

    def value(self, fr, v):
        f, P = fr[0], self.P
        if v in f.argids:
            k = f.argids.index(v)
            rs = [self.of(g, o) for g, o in self.actuals(fr, k)]
            return self.meet(rs) if rs else (NONE, "parameter '%s' of %s" % (f.argnames[k] if k < len(f.argnames) else k, f.cname))
        i = f.defs[v]
        if i.op == "phi":
            return self.meet(self.of(fr, x) for x, _ in i.ops)
        if i.op == "select":
            return self.meet(self.of(fr, x) for x in i.ops[1:3])
        if i.op in ("bitcast", "freeze", "inttoptr", "ptrtoint"):
            return self.of(fr, i.ops[0])
        if i.op in ("zext", "sext", "trunc"):
            s = f.defs.get(vid(i.ops[0])) if vid(i.ops[0]) not in f.argids else None
            if i.d.get("sty") in ("i1", "i8") or s is not None and s.op in ("icmp", "fcmp"):
                return ALL, None
            return self.of(fr, i.ops[0])
        if i.op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem", "icmp", "fcmp"):
            return ALL, None       # a number
        if i.op == "getelementptr":
            r = root(f, {"v": v})
            if r is not None and r not in f.argids and f.defs[r].op == "alloca":
                return self.memory(fr, i, r, P.field(f, {"v": v}))
            return self.of(fr, i.d["base"])
        if i.op == "alloca":
            return NONE, "buffer '%s' at %s" % (i.d.get("name"), i.where())
        if i.op == "load":
            return self.loaded(fr, i)
        if i.op == "call":
            return self.called(fr, i)
        return NONE, "%s at %s" % (i.op, i.where())

    def loaded(self, fr, i):
        f, P = fr[0], self.P
        a = i.ops[0]
        r = root(f, a)
        if r is None:
            d = a
            while vid(d) is not None and vid(d) not in f.argids and f.defs[vid(d)].op == "getelementptr":
                d = f.defs[vid(d)].d["base"]
            g = d.get("g") if isinstance(d, dict) else None
            if g and g in P.globals and g not in self.gstore and P.globals[g].get("init") is not None:
                return ALL, None
            return NONE, "global %s" % (g or "data")
        fl = P.field(f, a)
        return self.memory(fr, i, r, fl)

    def memory(self, fr, i, r, fl):
        f, P = fr[0], self.P
        d = f.defs.get(r) if r not in f.argids else None
        if d is not None and d.op == "alloca" and (d.d.get("dt") or "").startswith("struct sbuf"):
            return self.sbuf(fr, r, i)
        if r in f.argids and fl and fl[0] == "sbuf":
            return self.sbuf(fr, r, i)
        if d is not None and d.op == "alloca" and not fl:
            rs = []
            if self.shared(f, r):
                rs.append((NONE, "variable '%s' that is also changed through a pointer" % d.d.get("name")))
            for w in self.reaching(f, r, i):
                rs.append(self.of(fr, w.ops[0]) if w.op == "store" else self.outvalue(fr, w, r))
            return self.meet(rs)
        if fl and fl[0] in ("args_norm", "args_kw"):
            return NONE, "argument of a script function"
        if fl:
            return self.member(fl, f)
        if r in f.argids:
            # what a pointer parameter points at
            k = f.argids.index(r)
            rs = []
            for g, o in self.actuals(fr, k):
                gf = g[0]
                rr = root(gf, o)
                call = fr[1] if fr[1] is not None else None
                if rr is not None and rr not in gf.argids and gf.defs[rr].op == "alloca" and vid(o) == rr:
                    for c in gf.calls():
                        if (call is None or c is call) and any(vid(x) == rr for x in c.ops) and f.name in P.direct_targets(c):
                            for w in self.reaching(gf, rr, c):
                                rs.append(self.of(g, w.ops[0]) if w.op == "store" else self.outvalue(g, w, rr))
                else:
                    x = P.field(gf, o)
                    rs.append(self.member(x, gf) if x else (NONE, "memory behind parameter of %s" % f.cname))
            return self.meet(rs) if rs else (NONE, "memory behind parameter of %s" % f.cname)
        return NONE, "memory at %s" % i.where()

    def member(self, fl, f=None):
        key = ("member",) + fl
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            self.cut = True
            return ALL, None
        self.busy.add(key)
        try:
            rs = []
            n = 0
            for g, s in self.stores.get(fl, ()):
                if kint(s.ops[0]) == 0 or isnull(s.ops[0]):
                    n += 1
                    continue
                n += 1
                r = self.of((g, None, None), s.ops[0])
                if r[0] != ALL:
                    r = (r[0], "%s (stored in %s.%s at %s)" % (r[1], fl[0], fl[1], s.where()))
                rs.append(r)
                if not r[0]:
                    break
            for c, k in self.outs.get(fl, ()):
                r = self.outop((c.fn, None, None), c, k)
                if r is not None:
                    n += 1
                    rs.append(r)
            out = self.meet(rs) if rs or n else (NONE, "member %s.%s" % fl)
        finally:
            self.busy.discard(key)
        self.memo[key] = out
        return out

    def outvalue(self, fr, c, a):
        """Text a call leaves in the variable whose address it was given."""
        rs = [self.outop(fr, c, k) for k, o in enumerate(c.ops) if vid(o) == a]
        return self.meet([r for r in rs if r is not None])

    def outop(self, fr, c, k):
        n = self.cname(c)
        if n.startswith("llvm.") or n == "make_obj":
            return None
        if n in FETCH and FETCH[n][1] == k:
            return self.fetched(fr, c, FETCH[n][0])
        if n == "str_app" or n == "str_appn":
            return self.meet([self.of(fr, c.ops[2])])
        if n in ("get_option_value",):
            return NONE, "option value at %s" % c.where()
        g = self.P.funcs.get(c.callee) if c.callee else None
        if g is None or g.decl:
            return NONE, "set by %s at %s" % (n or "a call", c.where())
        if self.depth(fr) > 6:
            return NONE, "set by %s at %s" % (n, c.where())
        p = g.argids[k] if k < len(g.argids) else None
        rs = []
        sub = (g, c, fr)
        if self.shared(g, p):
            return NONE, "set by %s at %s" % (n, c.where())
        for i in g.instrs():
            if i.op == "store" and vid(i.ops[1]) == p:
                rs.append(self.of(sub, i.ops[0]))
            elif i.op == "call" and any(vid(o) == p for o in i.ops):
                r = self.outvalue(sub, i, p)
                if r is not None:
                    rs.append(r)
        if not rs:
            return None
        return self.meet(rs)

    def fetched(self, fr, c, k):
        cs = self.allocs(fr, c.ops[k])
        if not cs or None in cs:
            return NONE, "element of an unknown container at %s" % c.where()
        rs = []
        for a in cs:
            for g, o in self.contents(a):
                rs.append(self.of(g, o))
        return self.meet(rs)

    def called(self, fr, i):
        f = fr[0]
        n = self.cname(i)
        if n in SAME and SAME[n] < len(i.ops):
            return self.of(fr, i.ops[SAME[n]])
        if n in JOINED:
            return JOINED[n], "joined by %s at %s" % (n, i.where())
        if n == "join_args_plain":
            r = self.fetched(fr, i, 1)
            # arguments are separated by blanks
            return r[0] - {IDENT, PATH}, r[1]
        if n == "sbuf_into_str":
            v = vid(i.ops[1])
            return self.sbuf(fr, v, i)
        if n == "make_strf":
            return self.format(fr, i, 1)
        if n in ("get_file_path", "get_obj_file"):
            return NONE, "file name at %s" % i.where()
        g = self.P.funcs.get(i.callee) if i.callee else None
        tg = [self.P.funcs.get(t) for t in self.P.direct_targets(i)]
        if not tg or any(g is None or g.decl for g in tg) or self.depth(fr) > 6:
            return NONE, "result of %s at %s" % (n or "a call", i.where())
        rs = []
        for g in tg:
            if ARGLIST.search(g.rettype() or "") and not any(c.callee not in ("snprintf", "__assert_fail") and not (c.callee or "").startswith("llvm.") for c in g.calls()):
                rs += [self.of(fr, o) for o in i.ops]
                continue
            for b in g.blocks:
                t = b[-1]
                if t.op == "ret" and t.ops:
                    rs.append(self.of((g, i, fr), t.ops[0]))
        return self.meet(rs) if rs else (ALL, None)

    def format(self, fr, c, k):
        s = cstr(c.ops[k])
        if s is None:
            return NONE, "text formatted at %s" % c.where()
        rs = []
        cs, _ = fmtargs(s)
        if any("*" in x for _, x in cs) or len(cs) > len(c.ops) - k - 1:
            return NONE, "text formatted at %s" % c.where()
        for n, (_, x) in enumerate(cs):
            if x[-1] in "diuxXp":
                continue
            if x[-1] == "s":
                rs.append(self.of(fr, c.ops[k + 1 + n]))
            elif x[-1] == "c" and kint(c.ops[k + 1 + n]) is not None:
                continue
            else:
                rs.append((NONE, "value formatted with %s at %s" % (x, c.where())))
        return self.meet(rs)

    # -- string buffers -------------------------------------------------------
    def sbuf(self, fr, a, at):
        """Contents of the string buffer a just before `at`."""
        f = fr[0]
        key = (self.fkey(fr), "sbuf", a, at.id)
        if key in self.busy:
            self.cut = True
            return ALL, None
        self.busy.add(key)
        try:
            return self.sbuf_(fr, a, at)
        finally:
            self.busy.discard(key)

    def sbuf_(self, fr, a, at):
        f = fr[0]
        if a in f.argids:
            return NONE, "buffer of the caller of %s" % f.cname
        d = f.defs.get(a)
        if d is None or d.op != "alloca":
            return NONE, "buffer at %s" % at.where()
        if self.shared(f, a):
            return NONE, "buffer '%s' that is also changed through a pointer" % d.d.get("name")
        # backwards to the last total filter, collecting what was appended since
        rs, seen = [], set()
        work = [(at.bb, at.ix)]
        while work:
            b, ix = work.pop()
            stop = False
            for j in range(ix - 1, -1, -1):
                i = f.blocks[b][j]
                if i.op != "call":
                    if i.op == "store" and root(f, i.ops[1]) == a:
                        rs.append((NONE, "buffer changed at %s" % i.where()))
                    continue
                pos = [k for k, o in enumerate(i.ops) if vid(o) == a]
                if not pos:
                    continue
                n = self.cname(i)
                if n in ("sbuf_init", "sbuf_clear"):
                    stop = True
                    break
                g = self.P.funcs.get(i.callee) if i.callee else None
                if g is not None and not g.decl and len(pos) == 1 and filters(self.P, g, pos[0]):
                    rs.append((ALL, None))
                    stop = True
                    break
                r = self.append(fr, i, pos)
                if r is not None:
                    rs.append(r)
            if not stop:
                for p in f.preds[b]:
                    if p not in seen:
                        seen.add(p)
                        work.append((p, len(f.blocks[p])))
        return self.meet(rs)

    def append(self, fr, c, pos):
        """What a call adds to a buffer it is given."""
        n = self.cname(c)
        if n.startswith("llvm.") or n in ("sbuf_destroy", "sbuf_into_str", "sbuf_grow"):
            return None
        if n in ESCAPES and pos == [ESCAPES[n][0]]:
            return ESCAPES[n][2], "escaped by %s at %s" % (n, c.where())
        if n in ("sbuf_pushs", "sbuf_pushn"):
            return self.of(fr, c.ops[2])
        if n == "sbuf_push":
            return (ALL, None) if kint(c.ops[2]) is not None else (NONE, "character appended at %s" % c.where())
        if n == "sbuf_pushf":
            return self.format(fr, c, 2)
        g = self.P.funcs.get(c.callee) if c.callee else None
        if g is None or g.decl or len(pos) != 1 or self.depth(fr) > 4 or (g.file or "").startswith("src/platform"):
            return NONE, "text produced by %s at %s" % (n or "a call", c.where())
        sub = (g, c, fr)
        p = g.argids[pos[0]]
        rs = []
        if self.shared(g, p):
            return NONE, "text produced by %s at %s" % (n, c.where())
        for i in g.instrs():
            if i.op == "call":
                q = [k for k, o in enumerate(i.ops) if vid(o) == p]
                if q:
                    r = self.append(sub, i, q)
                    if r is not None:
                        rs.append(r)
            elif i.op == "store" and root(g, i.ops[1]) == p:
                rs.append((NONE, "buffer changed at %s" % i.where()))
        return self.meet(rs)

    # -- containers -----------------------------------------------------------
    def allocs(self, fr, o):
        """Creation sites of the containers an object may be; None = unknown."""
        return self.H.sites(self.H.node(fr[0], o))

    def contents(self, a):
        """Everything put into the containers created at a: (frame, operand)."""
        if self.memo.get(("contents", a)) is None:
            out = {}
            for c, val in self.H.puts(a):
                out.setdefault((c.fn.name, vid(val) if vid(val) is not None else str(val)), ((c.fn, None, None), val))
            self.memo[("contents", a)] = list(out.values())
        return self.memo[("contents", a)]


class Heap:
    """Which containers (by the call that creates them) each object variable may
    hold: inclusion constraints over the whole program, independent of order."""

    def __init__(self, P, T):
        self.P, self.T = P, T
        self.ids = {}
        self.edges = defaultdict(set)
        self.pts = []
        self.site = []           # bit -> (function, call id)
        self.bit = {}
        self.put = defaultdict(list)      # container node -> [value node]
        self.get = defaultdict(list)      # container node -> [destination node]
        self.ext = defaultdict(list)      # container node -> [source container node]
        self.inside = {}                  # bit -> node of the contents
        self.recs = []                    # (call, container node, value operand or None, source node)
        for f in P.funcs.values():
            if not f.decl:
                self.build(f)
        self.solve()

    def n(self, key):
        x = self.ids.get(key)
        if x is None:
            x = self.ids[key] = len(self.pts)
            self.pts.append(0)
        return x

    def node(self, f, o):
        v = vid(o)
        return None if v is None else self.n((f.name, v))

    def loc(self, f, a):
        """Node of the variable at an address."""
        if vid(a) is None:
            return None
        fl = self.P.field(f, a)
        if fl:
            return self.n(("F",) + fl)
        r = root(f, a)
        if r is None:
            return None
        if r in f.argids:
            return self.n(("D", f.name, f.argids.index(r)))
        return self.n(("S", f.name, r)) if f.defs[r].op == "alloca" else None

    def edge(self, a, b):
        if a is not None and b is not None and a != b:
            self.edges[a].add(b)

    def build(self, f):
        P, T = self.P, self.T
        for i in f.instrs():
            if i.op == "phi":
                for x, _ in i.ops:
                    self.edge(self.node(f, x), self.n((f.name, i.id)))
            elif i.op == "select":
                for x in i.ops[1:3]:
                    self.edge(self.node(f, x), self.n((f.name, i.id)))
            elif i.op in ("bitcast", "freeze"):
                self.edge(self.node(f, i.ops[0]), self.n((f.name, i.id)))
            elif i.op == "load" and i.d.get("ty") == "i32":
                self.edge(self.loc(f, i.ops[0]), self.n((f.name, i.id)))
            elif i.op == "store" and vid(i.ops[0]) is not None and i.d.get("vty", "i32") == "i32":
                self.edge(self.node(f, i.ops[0]), self.loc(f, i.ops[1]))
            elif i.op == "call":
                self.call(f, i)

    def call(self, f, i):
        P, T = self.P, self.T
        n = T.cname(i)
        if n.startswith("llvm."):
            return
        if n == "make_obj":
            k = (f.name, i.id)
            self.bit[k] = len(self.site)
            self.site.append(k)
            l = self.loc(f, i.ops[1])
            if l is not None:
                self.pts[l] |= 1 << self.bit[k]
            return
        if n in PUSH or n == "push_args":
            c = self.node(f, i.ops[1])
            val = i.ops[PUSH[n][1] if n in PUSH else 2]
            if c is not None:
                if n in PUSH and self.node(f, val) is not None:
                    self.put[c].append(self.node(f, val))
                self.recs.append((i, c, val, None))
            return
        if n in EXTEND:
            c, s = self.node(f, i.ops[1]), self.node(f, i.ops[2])
            if c is not None:
                if s is not None:
                    self.ext[c].append(s)
                self.recs.append((i, c, None, s))
            return
        if n in FETCH:
            c = self.node(f, i.ops[FETCH[n][0]])
            d = self.loc(f, i.ops[FETCH[n][1]]) if FETCH[n][1] is not None else self.n((f.name, i.id))
            if c is not None and d is not None:
                self.get[c].append(d)
            return
        if n in COPY:
            self.edge(self.node(f, i.ops[COPY[n][0]]), self.loc(f, i.ops[COPY[n][1]]))
            return
        if n in FOREACH:
            a, k = FOREACH[n]
            c = self.node(f, i.ops[a])
            if c is not None and k < len(i.ops):
                for t in ([i.ops[k]["fn"]] if fnname(i.ops[k]) else P.fvalue_targets(f, i.ops[k])):
                    g = P.funcs.get(t)
                    if g is not None and not g.decl:
                        self.get[c].append(self.n((g.name, g.argids[-1])))
            return
        if n in SAME or n in JOINED or n in ("join_args_plain", "make_strf", "sbuf_into_str"):
            return
        for t in P.direct_targets(i):
            g = P.funcs.get(t)
            if g is None or g.decl:
                continue
            for k, o in enumerate(i.ops):
                if k >= len(g.argids) or vid(o) is None:
                    continue
                self.edge(self.node(f, o), self.n((g.name, g.argids[k])))
                if g.args[k].get("ty", "ptr") == "ptr":
                    l = self.loc(f, o)
                    if l is not None:
                        d = self.n(("D", g.name, k))
                        self.edge(l, d)
                        self.edge(d, l)
            if i.d.get("ty") == "i32":
                for b in g.blocks:
                    t = b[-1]
                    if t.op == "ret" and t.ops:
                        self.edge(self.node(g, t.ops[0]), self.n((f.name, i.id)))

    def content(self, b):
        x = self.inside.get(b)
        if x is None:
            x = self.inside[b] = self.n(("C", b))
        return x

    def bits(self, m):
        while m:
            b = m & -m
            yield b.bit_length() - 1
            m ^= b

    def solve(self):
        work = [x for x in range(len(self.pts)) if self.pts[x]]
        done = defaultdict(int)      # container node -> bits handled
        inw = set(work)
        while work:
            x = work.pop()
            inw.discard(x)
            new = self.pts[x] & ~done[x]
            if new and (x in self.put or x in self.get or x in self.ext):
                for b in self.bits(new):
                    c = self.content(b)
                    for v in self.put.get(x, ()):
                        self.flow(v, c, work, inw)
                    for d in self.get.get(x, ()):
                        self.flow(c, d, work, inw)
                    for s in self.ext.get(x, ()):
                        # contents of the source's containers go into this one
                        self.get[s].append(c)
                        for sb in self.bits(done[s]):
                            self.flow(self.content(sb), c, work, inw)
            done[x] |= self.pts[x]
            for y in self.edges.get(x, ()):
                if self.pts[x] & ~self.pts[y]:
                    self.pts[y] |= self.pts[x]
                    if y not in inw:
                        inw.add(y)
                        work.append(y)

    def flow(self, a, b, work, inw):
        if a == b:
            return
        self.edges[a].add(b)
        if self.pts[a] & ~self.pts[b]:
            self.pts[b] |= self.pts[a]
            if b not in inw:
                inw.add(b)
                work.append(b)

    def sites(self, x):
        if x is None or not self.pts[x]:
            return {None}
        return {self.site[b] for b in self.bits(self.pts[x])}

    def puts(self, a):
        if not hasattr(self, "by"):
            self.by = defaultdict(list)
            for r in self.recs:
                for b in self.bits(self.pts[r[1]]):
                    self.by[b].append(r)
        out, seen, work = [], set(), [self.bit[a]]
        while work:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b)
            for c, x, val, src in self.by.get(b, ()):
                if val is not None:
                    out.append((c, val))
                elif src is None or not self.pts[src]:
                    out.append((c, {"g": "elements of an unknown list at %s" % c.where()}))
                else:
                    work += [q for q in self.bits(self.pts[src]) if q not in seen]
        return out


_filters = {}


def filters(P, g, k):
    """Does g replace every character of the buffer outside [0-9A-Za-z_] by a constant?"""
    key = (id(P), g.name, k)
    if key not in _filters:
        _filters[key] = filters_(P, g, k)
    return _filters[key]


def filters_(P, g, k):
    p = g.argids[k]
    if any(i.op == "call" and not (i.callee or "").startswith("llvm.") for i in g.instrs()):
        return False
    st = [i for i in g.instrs() if i.op == "store" and i.d.get("vty", "") == "i8"]
    if not st or any(kint(i.ops[0]) is None or not (chr(kint(i.ops[0]) & 255).isalnum() or kint(i.ops[0]) == 95) for i in st):
        return False
    # every character is looked at: from the first to the length of the buffer
    def member(o, name):
        d = g.defs.get(vid(o)) if vid(o) is not None and vid(o) not in g.argids else None
        return d is not None and d.op == "load" and P.field(g, d.ops[0]) == ("sbuf", name)

    def length(o):
        o = peel(g, o)
        d = g.defs.get(vid(o)) if vid(o) is not None and vid(o) not in g.argids else None
        if member(o, "len"):
            return True
        return d is not None and d.op == "getelementptr" and member(d.d["base"], "buf") and len(d.steps) == 1 and length(d.steps[0].get("idx"))

    def first(o):
        d = g.defs.get(vid(o)) if vid(o) is not None and vid(o) not in g.argids else None
        if member(o, "buf"):
            return True
        if d is not None and d.op == "phi":
            return any(first(x) for x, _ in d.ops)
        if d is not None and d.op == "getelementptr" and member(d.d["base"], "buf") and len(d.steps) == 1:
            x = peel(g, d.steps[0].get("idx"))
            q = g.defs.get(vid(x)) if vid(x) is not None and vid(x) not in g.argids else None
            return q is not None and q.op == "phi" and any(kint(y) == 0 for y, _ in q.ops)
        return False
    if not any(i.op == "icmp" and i.d["pred"] in ("ult", "slt", "ne", "ugt", "sgt", "eq", "uge", "sge") and any(length(o) for o in i.ops) for i in g.instrs()):
        return False
    if not any(i.op == "load" and i.d.get("ty") == "i8" and first(i.ops[0]) for i in g.instrs()):
        return False
    for ch in range(256):
        c = chr(ch)
        if ch < 128 and (c.isalnum() or c == "_"):
            continue
        val = ch - 256 if ch > 127 else ch

        def loads(i, s):
            return val if i.d.get("ty") == "i8" else None

        def ev(i, s, env):
            if i.op == "load" and i.d.get("ty") == "i8":
                return {"seen", "-put"}
            if i.op == "store" and i.d.get("vty", "") == "i8":
                return {"put"}
            return None
        s = Paths(P, g, events=ev, loads=loads).go()
        for r in s.rets:
            if "seen" in r[1] and "put" not in r[1]:
                return False
    return True


class Lines:
    """Follows what the current line of the build file begins with."""

    def __init__(self, P, T, roots):
        self.P = P
        self.T = T
        self.memo = {}
        self.active = set()
        self.sites = {}        # (call id, conversion index) -> (call, frame operand, {context})
        self.outs = set()
        self.names = set()     # bindings that are expanded in a command
        self.writers = set()
        self.smemo = {}
        for f in P.funcs.values():
            if any(self.sink(i) for i in f.calls()):
                self.writers.add(f.name)
        self.reachw = {}

    def sink(self, c):
        n = self.T.cname(c)
        if n not in OUTPUT:
            return False
        return self.stream(c.fn, c.ops[OUTPUT[n][0]])

    def stream(self, f, o, depth=0, busy=()):
        """Does a stream originate from the callback that writes the build file?"""
        v = vid(o)
        key = (f.name, v)
        if v is None or key in busy or depth > 10:
            return False
        if key in self.smemo:
            return self.smemo[key]
        r = self.stream_(f, o, depth, busy + (key,))
        if r or not busy:
            self.smemo[key] = r
        return r

    def stream_(self, f, o, depth, busy):
        v = vid(o)
        if v in f.argids:
            if f.name in self.roots0:
                return True
            k = f.argids.index(v)
            return any(self.stream(c.fn, c.ops[k], depth + 1, busy) for c in self.P.callers().get(f.name, ()) if k < len(c.ops) and f.name in self.P.direct_targets(c))
        i = f.defs[v]
        if i.op == "phi":
            return any(self.stream(f, x, depth + 1, busy) for x, _ in i.ops)
        if i.op in ("select",):
            return any(self.stream(f, x, depth + 1, busy) for x in i.ops[1:])
        if i.op == "load":
            fl = self.P.field(f, i.ops[0])
            if fl:
                return any(self.stream(g, s.ops[0], depth + 1, busy) for g, s in self.T.stores.get(fl, ()))
        return False

    def advance(self, st, text):
        for ch in text:
            st = "" if ch == "\n" else (st + ch if len(st) < 60 or ch == ":" and st.count(":") < 2 else st)
        return st

    def context(self, st):
        if st.startswith("#"):
            return NOTE
        if st.startswith("rule ") or st.startswith("pool "):
            return IDENT
        if st.startswith("build "):
            h, s, t = st.partition(": ")
            return IDENT if s and not re.search(r"[ \t]", t) else PATH
        if st.startswith("default ") or st.startswith("subninja ") or st.startswith("include "):
            return PATH
        m = re.match(r"[ \t]+([A-Za-z_][\w.-]*)[ \t]*=", st)
        if m:
            return CMD if m.group(1) in self.names or m.group(1) in ("command", "rspfile_content") else VAL
        if re.match(r"[A-Za-z_][\w.-]*[ \t]*=", st):
            return VAL
        return None

    def run(self, f, st0):
        """States at the returns of f, entered in the middle of line st0."""
        key = (f.name, st0)
        if key in self.memo:
            return self.memo[key]
        if key in self.active:
            return {st0}
        self.active.add(key)
        out = set()
        inn = defaultdict(set)
        inn[0].add(st0)
        work = [0]
        while work:
            b = work.pop()
            cur = set(inn[b])
            for i in f.blocks[b]:
                if i.op == "call":
                    cur = set().union(*[self.step(i, s) for s in cur]) if cur else cur
                elif i.op == "ret":
                    out |= cur
            for s in f.succs[b]:
                if not cur <= inn[s]:
                    inn[s] |= cur
                    if len(inn[s]) > 400:
                        raise AnalysisBroken("too many kinds of lines in %s" % f.cname)
                    work.append(s)
        self.active.discard(key)
        self.memo[key] = out
        return out

    def writes(self, n, seen=None):
        if n not in self.reachw:
            r = self.P.reach([n])
            self.reachw[n] = bool(set(r) & self.writers)
        return self.reachw[n]

    def hit(self, c, k, o, st):
        x = self.sites.setdefault((c.fn.name, c.id, k), (c, o, set()))
        x[2].add((self.context(st), st))

    def step(self, c, st):
        T = self.T
        n = T.cname(c)
        if n in OUTPUT and self.sink(c):
            self.outs.add((c.fn.name, c.id))
            k = OUTPUT[n][1]
            s = cstr(c.ops[k]) if not kint(c.ops[k]) else None
            if n in ("fprintf",) and s is not None:
                cs, tail = fmtargs(s)
                for m, (pre, conv) in enumerate(cs):
                    st = self.advance(st, pre.replace("%%", "%"))
                    o = c.ops[k + 1 + m] if k + 1 + m < len(c.ops) else None
                    if conv[-1] not in "diuxXp":
                        self.hit(c, m, o if conv == "%s" else {"g": "conversion " + conv}, st)
                    st = self.advance(st, "\x01")
                return {self.advance(st, tail.replace("%%", "%"))}
            if n == "fputs" and s is not None:
                return {self.advance(st, s)}
            if n in ("fputc", "putc") and kint(c.ops[k]) is not None:
                return {self.advance(st, chr(kint(c.ops[k]) & 255))}
            self.hit(c, 0, c.ops[k] if n == "fputs" else {"g": "data"}, st)
            return {self.advance(st, "\x01")}
        out = {st}
        tg = [t for t in self.P.call_targets(c) if t in self.P.funcs and not self.P.funcs[t].decl and self.writes(t)]
        if not tg:
            return out
        direct = set(self.P.direct_targets(c))
        res = set()
        for t in tg:
            if t in direct and t in self.writers or t in direct and not any(x not in direct for x in tg):
                res |= self.run(self.P.funcs[t], st)
            elif t not in direct:
                # a callback: any number of times
                seen, todo = set(), {st}
                while todo:
                    x = todo.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    todo |= self.run(self.P.funcs[t], x)
                res |= seen
        return res or out


def writer(P):
    """The callbacks that produce the build file."""
    out = []
    for f in P.funcs.values():
        for c in f.calls():
            if any(cstr(o) in STREAM_OUT for o in c.ops):
                for o in c.ops:
                    if fnname(o) and o["fn"] in P.funcs:
                        out.append(P.funcs[o["fn"]])
    return out


@prop("C12")
def escaped(P, R):
    roots = writer(P)
    if not roots:
        raise AnalysisBroken("nothing writes the build file")
    T = Text(P)
    Lines.roots0 = {f.name for f in roots}
    L = Lines(P, T, roots)
    reach = P.reach([f.name for f in roots])
    # names of bindings that end up in a command
    for n in reach:
        f = P.funcs.get(n)
        if f is None or f.decl:
            continue
        for c in f.calls():
            for o in c.ops:
                s = cstr(o)
                if s:
                    for m in re.finditer(r"command = ([^\n]*)", s):
                        L.names |= set(re.findall(r"\$\{?(\w+)", m.group(1)))
                    m = re.fullmatch(r"\$\{?(\w+)\}?", s)
                    if m:
                        L.names.add(m.group(1))
    R.rule("escaped", "every text that is not chosen by muon and is written to the build file was escaped for the place where it is written: paths, commands, values, names and comments")
    for f in roots:
        L.run(f, "")
    for (fn, _, k), (c, o, ctx) in sorted(L.sites.items(), key=lambda e: (e[0][0], e[1][0].line or 0, e[0][2])):
        R.fn(fn)
        got, why = T.of((c.fn, None, None), o)
        for cx, st in sorted(ctx, key=str):
            key = "text@%s:%s:%s" % (c.fn.cname, (cx or "?"), re.sub(r"\s+", " ", st.replace("\x01", "%"))[-24:].strip())
            if cx is None:
                R.check(got == ALL, key, c.where(), "text of unknown kind is written to the build file after \"%s\" (%s)" % (st[-20:].replace("\x01", "%s"), why))
            else:
                R.check(cx in got, key, c.where(), "a %s is written to the build file without being escaped as one: %s" % (cx, why))
    R.rule("followed", "every place that writes to the build file was reached by following the callback that writes it")
    allsinks = [(f, c) for f in P.funcs.values() for c in f.calls() if T.cname(c) in OUTPUT and L.sink(c)]
    for f, c in allsinks:
        R.check((f.name, c.id) in L.outs, "sink@%s:%s" % (f.cname, c.line), c.where(), "output that the analysis did not reach")
    R.check(len(allsinks) > 10, "sinks", roots[0].loc(), "only %d writes to the build file" % len(allsinks))
    escapers(P, R, T)
    newlines(P, R, T, reach)


SHELL = "|&;<>()$`\\\"' \t*?[]#~{}!"
NINJA = " :$"


def peel(f, o):
    v = vid(o)
    while v is not None and v not in f.argids and f.defs[v].op in ("sext", "zext", "trunc", "freeze", "bitcast"):
        o = f.defs[v].ops[0]
        v = vid(o)
    return o


def isload(f, o):
    o = peel(f, o)
    v = vid(o)
    return v is not None and v not in f.argids and f.defs[v].op == "load" and f.defs[v].d.get("ty") == "i8"


def bound(f, o, bind):
    """A constant, looking through parameters that were bound to constants."""
    v = vid(o)
    if v is not None and v in f.argids and f.argids.index(v) in bind:
        return bind[f.argids.index(v)]
    if cstr(o) is not None:
        return cstr(o)
    if v is not None and v not in f.argids:
        o = peel(f, o)
        v = vid(o)
        if v is not None and v in f.argids and f.argids.index(v) in bind:
            return bind[f.argids.index(v)]
        return None
    return kint(o)


def search(P, f, bind, ch):
    """Results of library searches in a text that contains only the character ch."""
    def results(i):
        n = i.callee
        if n == "strchr" and isload(f, i.ops[1]):
            s = bound(f, i.ops[0], bind)
            if isinstance(s, str):
                return [NZ if chr(ch) in s else 0]
        if n in ("strpbrk", "strcspn"):
            s = bound(f, i.ops[1], bind)
            if isinstance(s, str) and n == "strpbrk":
                return [NZ if chr(ch) in s else 0]
            if isinstance(s, str) and chr(ch) in s:
                return [0]
        if n == "strchr" and kint(i.ops[1]) is not None and bound(f, i.ops[0], bind) is None:
            return [NZ if kint(i.ops[1]) == ch else 0]
        return None
    return results


def pushes_of(P, f, sb):
    """Calls that append to the buffer parameter sb."""
    out = []
    for c in f.calls():
        if any(vid(o) == sb for o in c.ops) and not (c.callee or "").startswith("llvm."):
            out.append(c)
    return out


def plain(P, f, k, bind, ch, esc, depth=0):
    """Ways in which f writes the character ch of its text to its buffer (operand k) without `esc` directly before it."""
    sb = f.argids[k]
    sub = [c for c in pushes_of(P, f, sb) if c.callee in P.funcs and not P.funcs[c.callee].decl and P.funcs[c.callee].cname not in ("sbuf_push", "sbuf_pushs", "sbuf_pushn", "sbuf_pushf")]
    bad = []

    def ev(i, s, env):
        if i.op != "call" or not any(vid(o) == sb for o in i.ops):
            return None
        n = P.funcs[i.callee].cname if i.callee in P.funcs else i.callee
        if n == "sbuf_push":
            if isload(f, i.ops[2]):
                return {"written", "-esc"}
            return {"esc"} if bound(f, i.ops[2], bind) == ord(esc) else {"-esc"}
        if n in ("sbuf_pushs", "sbuf_pushn", "sbuf_pushf"):
            return "raw" if not any(cstr(o) is not None for o in i.ops[2:3]) else None
        return None
    s = Paths(P, f, None, events=ev, results=search(P, f, bind, ch), loads=lambda i, s: ch if i.d.get("ty") == "i8" else None).go()
    n = 0
    for c in pushes_of(P, f, sb):
        cn = P.funcs[c.callee].cname if c.callee in P.funcs else c.callee
        if cn == "sbuf_push" and isload(f, c.ops[2]):
            n += 1
            bad += [(c, p) for st, p in s.hits.get(c.id, []) if "esc" not in st]
        elif cn in ("sbuf_pushs", "sbuf_pushn", "sbuf_pushf") and cstr(c.ops[2]) is None:
            n += 1
            bad += [(c, p) for st, p in s.hits.get(c.id, [])]
    for c in sub:
        if depth > 2:
            bad.append((c, None))
            continue
        g = P.funcs[c.callee]
        b2 = {}
        for q, o in enumerate(c.ops):
            x = bound(f, o, bind)
            if x is not None:
                b2[q] = x
        n += 1
        bad += plain(P, g, [q for q, o in enumerate(c.ops) if vid(o) == sb][0], b2, ch, esc, depth + 1)
    if not n:
        bad.append((f.blocks[0][0], None))
    return bad


def named(P, n):
    f = next((f for f in P.funcs.values() if f.cname == n and not f.decl), None)
    if f is None:
        raise AnalysisBroken(n)
    return f


def escapers(P, R, T):
    R.rule("path-escape", "escaping for a path list puts a dollar before every blank, colon and dollar and never lets a line break through")
    f = named(P, "ninja_escape")
    R.fn(f.name)
    for ch in NINJA:
        bad = plain(P, f, 1, {}, ord(ch), "$")
        R.check(not bad, "char:%r@ninja_escape" % ch, f.loc(), "the character %r is written without a dollar before it" % ch, bad[0][1] if bad else None)
    bad = [b for b in plain(P, f, 1, {}, 10, "\x00")]
    R.check(not bad, "newline@ninja_escape", f.loc(), "a line break is written to the build file", bad[0][1] if bad else None)
    f = named(P, "shell_ninja_escape")
    R.rule("command-escape", "escaping for a command first quotes for the shell and then puts a dollar before every dollar of the result")
    R.fn(f.name)
    bad = plain(P, f, 1, {}, ord("$"), "$")
    R.check(not bad, "char:'$'@shell_ninja_escape", f.loc(), "a dollar is written without a dollar before it", bad[0][1] if bad else None)
    quoted = [c for c in f.calls() if callee_in(P, c, {"shell_escape"}) and vid(c.ops[2]) == f.argids[2] and vid(c.ops[1]) != f.argids[1]]

    def ev(i, s, env):
        if i in quoted:
            return "q"
        if i.op == "call" and any(vid(o) == f.argids[1] for o in i.ops):
            return "w"
        return None
    s = Paths(P, f, None, events=ev).go()
    for c in pushes_of(P, f, f.argids[1]):
        src = [root(f, f.defs[vid(o)].ops[0]) for o in c.ops if vid(o) is not None and vid(o) not in f.argids and f.defs[vid(o)].op == "load"]
        ok = bool(quoted) and all("q" in st for st, _ in s.hits.get(c.id, [])) and any(r == vid(q.ops[1]) for q in quoted for r in src)
        R.check(ok, "quoted@shell_ninja_escape", c.where(), "text is written that was not quoted for the shell")
    bad = [r for r in s.rets if "w" not in r[1]]
    R.check(not bad, "written@shell_ninja_escape", f.loc(), "an argument is dropped", bad[0][2] if bad else None)
    f = named(P, "shell_escape")
    R.rule("shell-quote", "an argument with a character that is special to the shell is put in single quotes, a single quote within it is written outside of them, and an empty argument stays an argument")
    R.fn(f.name)
    sb, txt = f.argids[1], f.argids[2]
    ps = pushes_of(P, f, sb)

    def kind(i):
        n = P.funcs[i.callee].cname if i.callee in P.funcs else i.callee
        if n == "sbuf_push":
            return "char" if isload(f, i.ops[2]) else "q" if kint(i.ops[2]) == 39 else "const"
        if n in ("sbuf_pushs", "sbuf_pushn"):
            return "const" if cstr(i.ops[2]) is not None else "raw"
        return "other"

    def ev2(i, s, env):
        if i not in ps:
            return None
        k = kind(i)
        if k == "q":
            return {"open"} if "open" not in s.cur else {"closed"}
        return {"-closed", k} if k == "char" else {k}
    for ch in SHELL + "\n":
        s = Paths(P, f, None, events=ev2, results=search(P, f, {}, ord(ch)), loads=lambda i, s: ord(ch) if i.d.get("ty") == "i8" else None).go()
        bad = [(c, p) for c in ps for st, p in s.hits.get(c.id, []) if kind(c) in ("raw", "other") or kind(c) == "char" and ("open" not in st or ch == "'")]
        hit = any(s.hits.get(c.id) for c in ps if kind(c) in ("q", "char", "const"))
        R.check(hit and not bad, "char:%r@shell_escape" % ch, f.loc(), "the character %r reaches the shell without being quoted" % ch, bad[0][1] if bad else None)
    esc = [c for c in ps if kind(c) == "const" and cstr(c.ops[2])]
    s = Paths(P, f, None, events=ev2, results=search(P, f, {}, 39), loads=lambda i, s: 39 if i.d.get("ty") == "i8" else None).go()
    used = [c for c in esc if s.hits.get(c.id)]
    R.check(bool(used) and all(cstr(c.ops[2]) in ("'\\''", "'\"'\"'") for c in used), "quote@shell_escape", f.loc(), "a single quote within an argument ends the quotes")
    s = Paths(P, f, None, events=ev2).go()
    bad = [r for r in s.rets if "open" in r[1] and "closed" not in r[1]]
    R.check(not bad, "closed@shell_escape", f.loc(), "quotes are left open", bad[0][2] if bad else None)
    s = Paths(P, f, None, events=ev2, loads=lambda i, s: 0 if i.d.get("ty") == "i8" else None).go()
    bad = [r for r in s.rets if not ({"const"} <= r[1] or {"open", "closed"} <= r[1])]
    R.check(bool(s.rets) and not bad, "empty@shell_escape", f.loc(), "an empty argument disappears", bad[0][2] if bad else None)
    # every character is looked at before the text is taken as it is
    R.rule("joined", "joining escapes every element with the escaping function it is named for, and separates them")
    for n, e in (("join_args_ninja", "ninja_escape"), ("join_args_shell_ninja", "shell_ninja_escape")):
        f = named(P, n)
        R.fn(f.name)
        fns = {P.funcs[o["fn"]].cname for c in f.calls() for o in c.ops if fnname(o) and o["fn"] in P.funcs}
        R.check(fns == {e}, "uses@" + n, f.loc(), "%s escapes with %s" % (n, ", ".join(sorted(fns)) or "nothing"))
    f = named(P, "join_args")
    cbs = [P.funcs[o["fn"]] for c in f.calls() if callee_in(P, c, {"obj_array_foreach"}) for o in c.ops if fnname(o) and o["fn"] in P.funcs]
    R.check(bool(cbs), "elements@join_args", f.loc(), "the elements are not visited")
    for g in cbs:
        R.fn(g.name)
        escs = [c for c in g.calls() if c.callee is None]
        sf = [x for c in escs for x in [vid(c.fptr)] if x is not None and g.defs[x].op == "load"]
        fl = P.field(g, g.defs[sf[0]].ops[0]) if sf else None
        own = [i for i in f.instrs() if i.op == "store" and P.field(f, i.ops[1]) == fl and vid(i.ops[0]) in f.argids]
        R.check(bool(escs) and bool(own), "given@join_args", f.loc(), "the escaping function that was given is not used")
        apps = [c for c in g.calls() if callee_in(P, c, {"str_app"})]

        def ev3(i, s, env):
            if i in escs:
                return "esc"
            if i in apps:
                return "app"
            return None
        s = Paths(P, g, None, assume={fl: NZ} if fl else {}, events=ev3).go()
        bad = [r for r in s.rets if not {"esc", "app"} <= r[1]]
        R.check(not bad, "applied@join_args", g.loc(), "an element is written without being escaped", bad[0][2] if bad else None)
        for c in apps:
            if cstr(c.ops[2]) is not None:
                continue
            # when an escaping function is set the text comes from its buffer
            v = vid(peel(g, c.ops[2]))
            d = g.defs.get(v)
            outs = {vid(e.ops[1]) for e in escs}
            cand = [x for x, p in d.ops] if d is not None and d.op == "phi" else [c.ops[2]]
            def frombuf(x):
                q = g.defs.get(vid(x))
                return q is not None and q.op == "load" and root(g, q.ops[0]) in outs
            R.check(any(frombuf(x) for x in cand), "text@join_args", c.where(), "the text that is appended is not the escaped one")


# commands whose words muon runs itself and which were found before
TOOLS = re.compile(r"cmd_arr$")


def newlines(P, R, T, reach):
    R.rule("line-breaks", "a command whose arguments contain a line break, which no escaping can express, is refused instead of written")
    M = model(P)
    check = {}
    for f in P.funcs.values():
        for c in f.calls():
            if T.cname(c) not in FOREACH or f.rettype() not in ("bool", "_Bool") or vid(c.ops[1]) not in f.argids:
                continue
            for o in c.ops:
                g = P.funcs.get(o["fn"]) if fnname(o) else None
                if g is None:
                    continue
                nl = [i for i in g.calls() if i.callee in ("strchr", "memchr") and kint(i.ops[1]) == 10]
                if nl:
                    s = Paths(P, g, M, results=lambda i: [(NZ, "nl")] if i in nl else None).go()
                    ok = all(is_fail(M, g, r[0]) for r in s.rets)
                    s2 = Paths(P, f, M, results=lambda i: [0] if i is c else None).go()
                    ok = ok and all(is_fail(M, f, r[0]) for r in s2.rets)
                    R.fn(g.name)
                    R.check(ok, "check@" + f.cname, g.loc(), "a line break is not reported")
                    check[f.name] = f.argids.index(vid(c.ops[1]))
    if not check:
        R.check(False, "check", "src/args.c", "no function looks for line breaks in arguments")
        return

    def place(f, o):
        v = vid(peel(f, o))
        d = f.defs.get(v) if v is not None and v not in f.argids else None
        if d is not None and d.op == "load":
            return (root(f, d.ops[0]), P.field(f, d.ops[0]))
        return v
    for n in sorted(reach):
        f = P.funcs.get(n)
        if f is None or f.decl:
            continue
        for c in f.calls():
            if T.cname(c) != "join_args_shell_ninja":
                continue
            at = place(f, c.ops[1])
            if isinstance(at, tuple) and at[1] and at[1][0] == "obj_compiler" and TOOLS.search(at[1][1]):
                continue
            def same(o):
                return place(f, o) == at

            def ev(i, s, env):
                if i.op == "call" and (T.cname(i) in PUSH or T.cname(i) in EXTEND or T.cname(i) == "push_args") and same(i.ops[1]):
                    return "-ok"
                return "join" if i is c else None

            def results(i):
                if i.op == "call" and i.callee in check and same(i.ops[check[i.callee]]):
                    return [(1, "ok"), (0, "refused")]
                return None
            s = Paths(P, f, M, events=ev, results=results).go()
            R.fn(f.name)
            bad = [p for st, p in s.hits.get(c.id, []) if "ok" not in st]
            if bad:
                cs = T.allocs((f, None, None), c.ops[1])
                if None not in cs and all(fixed(T, g, o) for a in cs for g, o in T.contents(a)):
                    continue
            R.check(bool(s.hits.get(c.id)) and not bad, "checked@%s" % f.cname, c.where(), "arguments are written to a command without looking for line breaks in them", bad[0] if bad else None)
            bad = [r for r in s.rets if "refused" in r[1] and "ok" not in r[1] and not is_fail(M, f, r[0])]
            R.check(not bad, "refused@%s" % f.cname, c.where(), "arguments that cannot be written are not reported", bad[0][2] if bad else None)


def fixed(T, g, o):
    """The name muon itself was started with, or a constant."""
    if cstr(o) is not None or kint(o) is not None:
        return True
    f = g[0]
    d = f.defs.get(vid(o)) if vid(o) is not None else None
    if d is not None and d.op == "call" and T.cname(d) == "make_str":
        x = f.defs.get(vid(d.ops[1])) if vid(d.ops[1]) is not None else None
        return x is not None and x.op == "load" and T.P.field(f, x.ops[0]) == ("workspace", "argv0")
    return False
