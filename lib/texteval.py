"""What a function returns for one text: constants and tables are followed, everything else is left open.

Used for the small functions that turn the text of an option into an
enumerator.  The text under question stands for the result of the calls that
fetch the option's value; comparisons with constant texts, and with entries of
constant tables, are decided; every other condition is explored both ways.
"""
from prog import vid, kint, cstr, isnull


class Unknown(Exception):
    pass


def table(P, f, root):
    """Rows of a local table filled from a constant, or of a constant global."""
    rows = {}
    d = f.defs.get(root)
    if d is None or d.op != "alloca":
        return None
    for i in f.instrs():
        if i.op == "call" and (i.callee or "").startswith("llvm.memcpy") and vid(i.ops[0]) == root and isinstance(i.ops[1], dict) and "g" in i.ops[1]:
            g = P.globals.get(i.ops[1]["g"])
            init = (g or {}).get("init")
            for n, r in enumerate((init or {}).get("arr") or []):
                rows[n] = r
        if i.op == "store":
            a = f.defs.get(vid(i.ops[1]))
            if a is not None and a.op == "getelementptr" and vid(a.d["base"]) == root and len(a.steps) == 1 and kint(a.steps[0].get("idx")) is not None:
                rows[kint(a.steps[0]["idx"])] = i.ops[0]
            elif vid(i.ops[1]) == root:
                rows[0] = i.ops[0]
    return rows


def texts(o):
    if isnull(o):
        return 0
    s = cstr(o)
    if s is not None:
        return ("text", s)
    k = kint(o)
    return k


class TextEval:
    def __init__(self, P, f, text, sources, limit=4000):
        self.P, self.f, self.text, self.sources, self.limit = P, f, text, sources, limit
        self.rets = []      # (value or None, every text comparison decided, lines)
        self.complete = True
        self.tabs = {}

    def val(self, o, env):
        v = vid(o)
        if v is not None:
            if v not in env and v not in self.f.argids and self.f.defs[v].op == "alloca" and self.tab(v):
                return ("slot", v, 0)
            return env.get(v)
        if isinstance(o, dict) and "g" in o and "str" not in o:
            g = self.P.globals.get(o["g"])
            if isinstance((g or {}).get("init"), dict) and g["init"].get("arr"):
                return ("gslot", o["g"], 0)
        return texts(o)

    def tab(self, root):
        if root not in self.tabs:
            self.tabs[root] = table(self.P, self.f, root)
        return self.tabs[root]

    def structtext(self, o):
        """The text of a local `struct str` built from a constant."""
        v = vid(o)
        f = self.f
        if v is None:
            g = self.P.globals.get(o.get("g")) if isinstance(o, dict) else None
            init = (g or {}).get("init")
            for r in (init or {}).get("arr") or (init or {}).get("st") or []:
                s = cstr(r)
                if s is not None:
                    return s
            return None
        if v in f.argids or f.defs[v].op != "alloca":
            return None
        found = set()
        for i in f.instrs():
            if i.op == "store":
                a = f.defs.get(vid(i.ops[1]))
                if (vid(i.ops[1]) == v or (a is not None and a.op == "getelementptr" and vid(a.d["base"]) == v)) and cstr(i.ops[0]) is not None:
                    found.add(cstr(i.ops[0]))
            if i.op == "call" and (i.callee or "").startswith("llvm.memcpy") and vid(i.ops[0]) == v and isinstance(i.ops[1], dict) and "g" in i.ops[1]:
                s = self.structtext(i.ops[1])
                if s:
                    found.add(s)
        return found.pop() if len(found) == 1 else None

    def call(self, i, env):
        """(value, decided)"""
        c = i.callee or ""
        if c in self.sources:
            return ("text", self.text), True
        if c in ("strcmp", "strncmp"):
            a, b = self.val(i.ops[0], env), self.val(i.ops[1], env)
            if isinstance(a, tuple) and isinstance(b, tuple):
                a, b = a[1], b[1]
                if c == "strncmp":
                    n = self.val(i.ops[2], env)
                    if not isinstance(n, int):
                        return None, False
                    a, b = a[:n], b[:n]
                return (a > b) - (a < b), True
            return None, False
        g = self.P.funcs.get(c)
        if g is not None and g.cname in ("str_eql", "str_eqli", "str_startswith"):
            r = []
            for o in i.ops[:2]:
                x = self.val(o, env)
                r.append(x[1] if isinstance(x, tuple) else self.structtext(o))
            if None not in r:
                if g.cname == "str_startswith":
                    return int(r[0].startswith(r[1])), True
                return int(r[0] == r[1] if g.cname == "str_eql" else r[0].lower() == r[1].lower()), True
            return None, False
        if c == "strlen":
            x = self.val(i.ops[0], env)
            return (len(x[1]) if isinstance(x, tuple) else None), True
        return None, True

    def step(self, i, env):
        op = i.op
        if op == "getelementptr":
            v = vid(i.d["base"])
            if v is not None and v not in self.f.argids and self.f.defs[v].op == "alloca" and len(i.steps) == 1 and "idx" in i.steps[0]:
                k = self.val(i.steps[0]["idx"], env)
                return ("slot", v, k) if isinstance(k, int) else None
            if v is None and isinstance(i.d["base"], dict) and "g" in i.d["base"] and len(i.steps) == 1 and "idx" in i.steps[0]:
                k = self.val(i.steps[0]["idx"], env)
                return ("gslot", i.d["base"]["g"], k) if isinstance(k, int) else None
            x = self.val(i.d["base"], env)
            if isinstance(x, tuple) and x[0] in ("slot", "gslot") and len(i.steps) == 1:
                k = self.val(i.steps[0].get("idx"), env)
                return (x[0], x[1], x[2] + k) if isinstance(k, int) else None
            if isinstance(x, tuple) and x[0] == "text" and len(i.steps) == 1:
                k = self.val(i.steps[0].get("idx"), env)
                return ("text", x[1][k:]) if isinstance(k, int) and 0 <= k <= len(x[1]) else None
            return None
        if op == "load":
            x = self.val(i.ops[0], env)
            if isinstance(x, tuple):
                if x[0] == "slot":
                    t = self.tab(x[1])
                    return texts(t[x[2]]) if t and x[2] in t else None
                if x[0] == "gslot":
                    g = self.P.globals.get(x[1])
                    rows = ((g or {}).get("init") or {}).get("arr") if isinstance((g or {}).get("init"), dict) else None
                    return texts(rows[x[2]]) if rows and 0 <= x[2] < len(rows) else None
                if x[0] == "text":
                    return ord(x[1][0]) if x[1] else 0
            v = vid(i.ops[0])
            if v is not None and v not in self.f.argids and self.f.defs[v].op == "alloca":
                t = self.tab(v)
                return texts(t[0]) if t and 0 in t and len(t) > 1 else None
            return None
        if op == "icmp":
            a, b = self.val(i.ops[0], env), self.val(i.ops[1], env)
            if isnull(i.ops[1]):
                b = 0
            if a is None or b is None:
                return None
            p = i.d["pred"]
            if isinstance(a, tuple) and isinstance(b, tuple) and a[:2] == b[:2] and a[0] != "text":
                a, b = a[2], b[2]
            if isinstance(a, tuple) or isinstance(b, tuple):
                if (a == 0 or b == 0) and p in ("eq", "ne"):
                    return int(p == "ne")
                return None
            if p[0] == "u":
                a, b = a & (2 ** 64 - 1), b & (2 ** 64 - 1)
            return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p if p in ("eq", "ne") else p[1:]])
        if op in ("sdiv", "udiv", "ashr", "lshr"):
            a, b = self.val(i.ops[0], env), self.val(i.ops[1], env)
            if isinstance(a, tuple) and a[0] == "bytes" and isinstance(b, int):
                n = b if op.endswith("div") else 1 << b
                return a[1] * 8 // n
            return None
        if op in ("ptrtoint", "bitcast"):
            return self.val(i.ops[0], env)
        if op == "sub":
            a, b = self.val(i.ops[0], env), self.val(i.ops[1], env)
            if isinstance(a, tuple) and isinstance(b, tuple) and a[:2] == b[:2] and a[0] in ("slot", "gslot"):
                return ("bytes", a[2] - b[2])
        if op in ("zext", "sext", "trunc", "freeze"):
            x = self.val(i.ops[0], env)
            if op == "trunc" and i.ty == "i1" and isinstance(x, int):
                return x & 1
            return x
        if op in ("add", "sub", "or", "and", "xor", "mul"):
            a, b = self.val(i.ops[0], env), self.val(i.ops[1], env)
            if isinstance(a, int) and isinstance(b, int):
                r = {"add": a + b, "sub": a - b, "or": a | b, "and": a & b, "xor": a ^ b, "mul": a * b}[op]
                return r & 1 if i.ty == "i1" else r
            return None
        if op == "select":
            c = self.val(i.ops[0], env)
            if c is None:
                a, b = self.val(i.ops[1], env), self.val(i.ops[2], env)
                return a if a == b else None
            return self.val(i.ops[1 if c else 2], env)
        return None

    def run(self):
        f = self.f
        work = [(0, None, {}, True, ())]
        n = 0
        while work:
            b, pred, env, ok, path = work.pop()
            n += 1
            if n > self.limit:
                self.complete = False
                return self
            env = dict(env)
            blk = f.blocks[b]
            new = {}
            for i in blk:
                if i.op == "phi":
                    for o, p in i.ops:
                        if p == pred:
                            new[i.id] = self.val(o, env)
            env.update(new)
            for i in blk:
                if i.op == "phi":
                    continue
                if i.line and (not path or path[-1] != i.line):
                    path = path + (i.line,)
                if i.op == "call":
                    v, d = self.call(i, env)
                    ok = ok and d
                    if i.id is not None:
                        env[i.id] = v
                    if i.d.get("noreturn"):
                        break
                elif i.op == "ret":
                    self.rets.append((self.val(i.ops[0], env) if i.ops else None, ok, list(path)))
                elif i.op == "br":
                    s = i.d["succ"]
                    if len(s) == 1:
                        work.append((s[0], b, env, ok, path))
                    else:
                        c = self.val(i.ops[0], env)
                        for k, t in ((1, s[0]), (0, s[1])):
                            if c is None or bool(c) == bool(k):
                                e = env
                                if c is None and vid(i.ops[0]) is not None:
                                    e = dict(env)
                                    e[vid(i.ops[0])] = k
                                work.append((t, b, e, ok, path))
                elif i.op == "switch":
                    c = self.val(i.ops[0], env)
                    for t in set(i.d["succ"]):
                        work.append((t, b, env, ok and c is not None, path))
                elif i.id is not None:
                    env[i.id] = self.step(i, env)
        return self
