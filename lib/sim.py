"""Path-sensitive exploration of one function's SSA control-flow graph.

Property simulation in the style of ESP: the explored state is (block, the
constants known on this path for values that are still live, automaton state);
equal states are merged, so the walk terminates, and branches whose outcome is
determined by what is already known on the path are not taken the other way.
No value outside the program text is ever needed and nothing is executed.
"""
from prog import kint, vid, isnull, operands

NZ = "NZ"
INTPREDS = {
    "eq": lambda a, b: a == b, "ne": lambda a, b: a != b,
    "slt": lambda a, b: a < b, "sle": lambda a, b: a <= b, "sgt": lambda a, b: a > b, "sge": lambda a, b: a >= b,
}


def width(ty):
    if ty and ty[0] == "i" and ty[1:].isdigit():
        return int(ty[1:])
    return 64


def unsigned(v, w):
    return v & ((1 << w) - 1)


def liveness(f):
    if getattr(f, "_live", None) is not None:
        return f._live
    n = len(f.blocks)
    use = [set() for _ in range(n)]
    dfn = [set() for _ in range(n)]
    phiuse = [dict() for _ in range(n)]  # block -> {pred: set}
    for b, bl in enumerate(f.blocks):
        for i in bl:
            if i.op == "phi":
                for o, p in i.ops:
                    v = vid(o)
                    if v is not None:
                        phiuse[b].setdefault(p, set()).add(v)
                dfn[b].add(i.id)
                continue
            for o in operands(i):
                v = vid(o)
                if v is not None and v not in dfn[b]:
                    use[b].add(v)
            dfn[b].add(i.id)
    livein = [set() for _ in range(n)]
    changed = True
    while changed:
        changed = False
        for b in range(n - 1, -1, -1):
            out = set()
            for s in f.succs[b]:
                out |= livein[s]
                out |= phiuse[s].get(b, set())
            li = use[b] | (out - dfn[b])
            if li != livein[b]:
                livein[b] = li
                changed = True
    # keep what a live derived condition is computed from: closure over cheap ops
    f._live = (livein, phiuse)
    return f._live


def copies(f):
    """value -> conversions and negations of it that follow in its block"""
    if getattr(f, "_copies", None) is None:
        m = {}
        for b in f.blocks:
            at = {}
            for n, i in enumerate(b):
                if i.op in ("zext", "sext", "trunc", "freeze", "xor"):
                    v = vid(i.ops[0])
                    if v in at:
                        m.setdefault(v, []).append(i)
                if i.id is not None:
                    at[i.id] = n
        f._copies = m
    return f._copies


class TooComplex(Exception):
    pass


class Sim:
    """Subclass and override call(), visit(), ret()."""
    limit = 150000
    maxint = 2

    def __init__(self, P, f):
        self.P = P
        self.f = f
        self.livein, self.phiuse = liveness(f)
        self.escaping = None

    # hooks -----------------------------------------------------------------
    def call(self, i, env, st):
        """Return list of (value or None, st) outcomes; [] kills the path."""
        return [(None, st)]

    def visit(self, i, env, st):
        """Called for every non-call instruction; return new st or False to kill."""
        return st

    def load(self, i, env, st):
        """Value known for a load, or None."""
        return None

    def ret(self, i, val, env, st):
        pass

    def dead(self, i, env, st):
        """path ended in a call that does not return"""
        pass

    # evaluation ------------------------------------------------------------
    def ev(self, o, env):
        k = kint(o)
        if k is not None:
            return k
        if isnull(o):
            return 0
        v = vid(o)
        if v is not None:
            return env.get(v)
        if isinstance(o, dict) and ("g" in o or "fn" in o):
            return NZ
        return None

    def num(self, o, env):
        """Like ev, but without symbolic tokens ("@..."; "@+..." is non-zero)."""
        v = self.ev(o, env)
        if isinstance(v, str) and v != NZ:
            return NZ if v.startswith("@+") else None
        return v

    def evi(self, i, env):
        op = i.op
        if op == "icmp":
            a, b = self.num(i.ops[0], env), self.num(i.ops[1], env)
            if i.d["pred"] in ("ult", "uge") and b == 0:
                return 0 if i.d["pred"] == "ult" else 1
            if i.d["pred"] in ("ugt", "ule") and a == 0:
                return 0 if i.d["pred"] == "ugt" else 1
            if a is None or b is None:
                va, vb = vid(i.ops[0]), vid(i.ops[1])
                if va is not None and va == vb:
                    return {"eq": 1, "ne": 0}.get(i.d["pred"])
                return None
            p = i.d["pred"]
            if a == NZ or b == NZ:
                o = b if a == NZ else a
                if o == 0:
                    if p == "eq":
                        return 0
                    if p == "ne":
                        return 1
                    if p == "ugt" and a == NZ:
                        return 1
                    if p == "ult" and b == NZ:
                        return 1
                    if p == "ule" and a == NZ:
                        return 0
                return None
            if p in INTPREDS:
                return int(INTPREDS[p](a, b))
            w = width(i.d.get("oty"))
            ua, ub = unsigned(a, w), unsigned(b, w)
            return int({"ult": ua < ub, "ule": ua <= ub, "ugt": ua > ub, "uge": ua >= ub}[p])
        if op in ("zext", "sext", "trunc", "freeze", "bitcast"):
            a = self.ev(i.ops[0], env)
            if op in ("freeze", "bitcast") and isinstance(a, str):
                return a
            a = self.num(i.ops[0], env)
            if a is None:
                return None
            if a == NZ:
                return NZ if op != "trunc" else None
            if op == "trunc":
                w = width(i.ty)
                a = unsigned(a, w)
                if w > 1 and a >= (1 << (w - 1)):
                    a -= 1 << w
                return a
            if op == "zext":
                return unsigned(a, width(i.d.get("sty")))
            if op == "sext" and i.d.get("sty") == "i1":
                return -a
            return a
        if op in ("xor", "and", "or"):
            a, b = self.ev(i.ops[0], env), self.ev(i.ops[1], env)
            if op == "and" and (a == 0 or b == 0):
                return 0
            if op == "or" and i.ty == "i1" and (a == 1 or b == 1):
                return 1
            if isinstance(a, int) and isinstance(b, int):
                r = a ^ b if op == "xor" else (a & b if op == "and" else a | b)
                return r & 1 if i.ty == "i1" else r
            return None
        if op == "add":
            a, b = self.ev(i.ops[0], env), self.ev(i.ops[1], env)
            if isinstance(a, int) and isinstance(b, int):
                # counters: exact while small, then only known to be non-zero
                r = a + b
                return r if -2 <= r <= self.maxint else NZ
            if (a == NZ and b == 0) or (b == NZ and a == 0):
                return NZ
            if (a == NZ and b == 1) or (b == NZ and a == 1):
                return NZ
            return None
        if op == "sub":
            a, b = self.ev(i.ops[0], env), self.ev(i.ops[1], env)
            if isinstance(a, int) and isinstance(b, int):
                r = a - b
                return r if -2 <= r <= self.maxint else NZ
            return None
        if op in ("udiv", "sdiv", "urem", "srem"):
            a, b = self.ev(i.ops[0], env), self.ev(i.ops[1], env)
            if isinstance(a, int) and isinstance(b, int) and a >= 0 and b > 0:
                return a // b if op.endswith("div") else a % b
            return None
        if op in ("shl", "lshr", "ashr"):
            a, b = self.ev(i.ops[0], env), self.ev(i.ops[1], env)
            if not isinstance(a, int) or not isinstance(b, int):
                return None
            if op == "ashr":
                return a >> b
            if op == "lshr":
                return unsigned(a, width(i.ty)) >> b
            r = a << b
            return r if -65536 <= r <= 65536 else None
        if op == "select":
            c = self.ev(i.ops[0], env)
            if c == 1:
                return self.ev(i.ops[1], env)
            if c == 0:
                return self.ev(i.ops[2], env)
            a, b = self.ev(i.ops[1], env), self.ev(i.ops[2], env)
            return a if a == b else None
        if op in ("alloca",):
            return NZ
        if op == "getelementptr":
            return NZ
        return None

    def refine(self, o, val, env, depth=0):
        """Record that value o equals val on this path; False if contradictory."""
        k = kint(o)
        if k is not None:
            return val == k if val != NZ else k != 0
        v = vid(o)
        if v is None:
            return True
        cur = env.get(v)
        if isinstance(cur, str) and cur != NZ:
            return not (cur.startswith("@+") and val == 0)
        if cur is not None and cur != val:
            if cur == NZ and val != 0 and val != NZ:
                pass
            elif val == NZ and cur != 0 and cur != NZ:
                return True
            else:
                return False
        env[v] = val
        if depth > 8 or v in self.f.argids:
            return True
        i = self.f.defs[v]
        self.forward(i, env)
        if i.op == "icmp" and val in (0, 1):
            p = i.d["pred"]
            if p in ("ult", "ule", "ugt", "uge", "slt", "sgt", "sle", "sge"):
                a, b = i.ops
                kb = kint(b)
                if kb == 0 and ((p == "ugt" and val) or (p == "ule" and not val)):
                    return self.refine(a, NZ, env, depth + 1)
                if kb == 0 and ((p == "ugt" and not val) or (p == "ule" and val)):
                    return self.refine(a, 0, env, depth + 1)
                return True
            if p not in ("eq", "ne"):
                return True
            a, b = i.ops
            eq = (p == "eq") == bool(val)
            kb = 0 if isnull(b) else self.ev(b, env)
            ka = 0 if isnull(a) else self.ev(a, env)
            if kb is None and ka is not None:
                a, kb = b, ka
            if kb is None or kb == NZ:
                return True
            if eq:
                return self.refine(a, kb, env, depth + 1)
            if kb == 0:
                # not equal to zero
                ai = self.f.defs.get(vid(a)) if vid(a) is not None and vid(a) not in self.f.argids else None
                if ai is not None and ai.op in ("zext", "sext") and ai.d.get("sty") == "i1":
                    return self.refine(ai.ops[0], 1, env, depth + 1)
                if (ai is not None and ai.ty == "i1"):
                    return self.refine(a, 1, env, depth + 1)
                return self.refine(a, NZ, env, depth + 1)
            return True
        if i.op == "xor" and kint(i.ops[1]) in (1, -1) and i.ty == "i1":
            return self.refine(i.ops[0], 1 - val, env, depth + 1) if val in (0, 1) else True
        if i.op in ("zext", "sext") and val in (0, 1):
            return self.refine(i.ops[0], val, env, depth + 1)
        if i.op == "trunc" and i.ty == "i1" and val in (0, 1):
            # a _Bool object: i8 holding 0 or 1
            return self.refine(i.ops[0], val, env, depth + 1)
        if i.op == "and" and i.ty == "i1" and val == 1:
            return self.refine(i.ops[0], 1, env, depth + 1) and self.refine(i.ops[1], 1, env, depth + 1)
        if i.op == "or" and i.ty == "i1" and val == 0:
            return self.refine(i.ops[0], 0, env, depth + 1) and self.refine(i.ops[1], 0, env, depth + 1)
        return True

    def forward(self, i, env, depth=0):
        """A value became known: so do the copies of it made in the same block."""
        c = copies(self.f).get(i.id)
        if not c or depth > 4:
            return
        for u in c:
            if env.get(u.id) is None:
                r = self.evi(u, env)
                if r is not None:
                    env[u.id] = r
                    self.forward(u, env, depth + 1)

    # memory of local, non-escaping-at-the-moment scalars ----------------------
    def cell(self, o):
        """Key for a memory cell inside a local alloca with constant path."""
        v = vid(o)
        path = []
        while v is not None and v not in self.f.argids:
            i = self.f.defs[v]
            if i.op == "alloca":
                return (v, tuple(reversed(path)))
            if i.op != "getelementptr":
                break
            for s in reversed(i.steps):
                if "f" in s or "fi" in s:
                    path.append(s.get("fi"))
                else:
                    k = kint(s.get("idx"))
                    if k is None:
                        return None
                    path.append(("i", k, i.d.get("sty")))
            v = vid(i.d["base"])
        if v is None:
            return None
        return (("p", v), tuple(reversed(path)))  # memory behind a pointer: forgotten at every call and unrelated store

    def escapes(self):
        """allocas whose address is stored somewhere or passed to a call"""
        if self.escaping is not None:
            return self.escaping
        out = set()
        f = self.f

        def root(o):
            v = vid(o)
            while v is not None and v not in f.argids:
                i = f.defs[v]
                if i.op == "alloca":
                    return v
                if i.op == "getelementptr":
                    v = vid(i.d["base"])
                    continue
                if i.op in ("phi", "select"):
                    return None
                return None
            return None
        for i in f.instrs():
            if i.op == "call":
                for o in i.ops:
                    r = root(o)
                    if r is not None:
                        out.add(r)
            elif i.op == "store":
                r = root(i.ops[0])
                if r is not None:
                    out.add(r)
            elif i.op in ("phi", "select"):
                for o in operands(i):
                    r = root(o)
                    if r is not None:
                        out.add(r)
        self.escaping = out
        return out

    def killmem(self, env, alloca=None):
        for k in [k for k in env if isinstance(k, tuple) and (alloca is None or k[0] == alloca)]:
            if alloca is not None or isinstance(k[0], tuple) or k[0] in self.escapes():
                del env[k]

    # exploration --------------------------------------------------------------
    def run(self, st, env=None, start=(0, 0)):
        f = self.f
        self.seen = set()
        self.parent = {}
        work = [(start[0], start[1], None, dict(env or {}), st, None)]
        n = 0
        while work:
            b, ix, pred, env, st, node = work.pop()
            if pred is not None:
                newv = {}
                for i in f.blocks[b]:
                    if i.op != "phi":
                        break
                    for o, p in i.ops:
                        if p == pred:
                            newv[i.id] = self.ev(o, env)
                            break
                for k, v in newv.items():
                    if v is None:
                        env.pop(k, None)
                    else:
                        env[k] = v
                live = self.livein[b]
                phis = newv.keys()
                env = {k: v for k, v in env.items() if isinstance(k, tuple) or k in live or k in phis}
            key = (b, ix, frozenset(env.items()), st)
            if key in self.seen:
                continue
            self.seen.add(key)
            n += 1
            if n > self.limit:
                raise TooComplex("%s: more than %d states" % (f.cname, self.limit))
            node = (node, b)
            self.step(b, ix, env, st, node, work)
        self.nstates = n

    def step(self, b, ix, env, st, node, work):
        f = self.f
        bl = f.blocks[b]
        while ix < len(bl):
            i = bl[ix]
            self.node = node
            if i.op == "phi":
                ix += 1
                continue
            if i.op == "call":
                self.killmem(env)
                if i.callee in self.P.noret or i.d.get("noreturn"):
                    self.dead(i, env, st)
                    return
                outs = self.call(i, env, st)
                if not outs:
                    return
                env.pop(i.id, None)
                if len(outs) > 1:
                    for val, s2 in outs[1:]:
                        e2 = dict(env)
                        if val is not None:
                            e2[i.id] = val
                        work.append((b, ix + 1, None, e2, s2, node))
                val, st = outs[0]
                if val is not None:
                    env[i.id] = val
                ix += 1
                continue
            s2 = self.visit(i, env, st)
            if s2 is False:
                return
            st = s2
            if i.op == "store":
                c = self.cell(i.ops[1])
                if c is None or isinstance(c[0], tuple):
                    esc = self.escapes()
                    for k in [k for k in env if isinstance(k, tuple) and k != c and (isinstance(k[0], tuple) or (c is None and k[0] in esc))]:
                        del env[k]
                if c is not None:
                    v = self.ev(i.ops[0], env)
                    if v is None:
                        env.pop(c, None)
                    else:
                        env[c] = v
                else:
                    pass
            elif i.op == "load":
                v = self.load(i, env, st)
                if v is None:
                    c = self.cell(i.ops[0])
                    if c is not None:
                        v = env.get(c)
                if v is None:
                    env.pop(i.id, None)
                else:
                    env[i.id] = v
            elif i.op == "br":
                su = i.d["succ"]
                if len(su) == 1:
                    work.append((su[0], 0, b, env, st, node))
                    return
                c = self.num(i.ops[0], env)
                if c is not None and c != NZ:
                    work.append((su[0] if c else su[1], 0, b, env, st, node))
                    return
                for val, t in ((0, su[1]), (1, su[0])):
                    e2 = dict(env)
                    if self.refine(i.ops[0], val, e2):
                        work.append((t, 0, b, e2, st, node))
                return
            elif i.op == "switch":
                c = self.ev(i.ops[0], env)
                if isinstance(c, int):
                    w = width("i32")
                    for k, t in i.d["cases"]:
                        if k == c or unsigned(k, 64) == unsigned(c, 64):
                            work.append((t, 0, b, env, st, node))
                            return
                    work.append((i.d["default"], 0, b, env, st, node))
                    return
                for k, t in i.d["cases"]:
                    e2 = dict(env)
                    if self.refine(i.ops[0], k, e2):
                        work.append((t, 0, b, e2, st, node))
                work.append((i.d["default"], 0, b, dict(env), st, node))
                return
            elif i.op == "ret":
                v = self.ev(i.ops[0], env) if i.ops else None
                self.ret(i, v, env, st)
                return
            elif i.op == "unreachable":
                return
            else:
                v = self.evi(i, env)
                if v is None:
                    env.pop(i.id, None)
                else:
                    env[i.id] = v
            ix += 1

    def path(self, node):
        """Source lines of the blocks on the current path (for reports)."""
        out = []
        while node is not None:
            node, b = node
            ls = [i.line for i in self.f.blocks[b] if i.line]
            if ls:
                out.append(ls[0])
        out.reverse()
        res = []
        for l in out:
            if not res or res[-1] != l:
                res.append(l)
        return res
