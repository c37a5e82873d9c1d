"""Rule building blocks shared by the property rules."""
from prog import vid, kint, isnull, cstr, fnname, operands, AnalysisBroken
from sim import Sim, TooComplex, NZ


class Paths(Sim):
    """Walk every feasible path of f under assumptions.

    assume:   {(struct, field) or global name or ("arg", k): value} known loads
    results:  callable(call) -> list of values the call may return, or None (unknown)
    events:   callable(instr, sim, env) -> label or None; the automaton state is
              the set of labels seen so far on the path (frozenset)
    success:  only returns that are not failures are recorded
    """

    def __init__(self, P, f, M=None, assume=None, results=None, events=None, start=(), loads=None):
        super().__init__(P, f)
        self.M = M
        self.assume = assume or {}
        self.results = results
        self.events = events
        self.loads = loads
        self.rets = []       # (value, labels, path)
        self.deads = []
        self.hits = {}       # (instr id) -> (labels before, path) for labelled events
        self.used = set()
        self.env0 = {}
        for k, v in self.assume.items():
            if isinstance(k, tuple) and k[0] == "arg":
                self.env0[f.argids[k[1]]] = v
                self.used.add(k)
        self.st0 = frozenset(start)

    def go(self):
        self.run(self.st0, dict(self.env0))
        return self

    def ev_event(self, i, env, st):
        if self.events:
            self.cur = st
            l = self.events(i, self, env)
            if l is False:
                return False
            if l:
                ls = l if isinstance(l, (set, frozenset, list, tuple)) else [l]
                self.hits.setdefault(i.id, []).append((st, self.path(self.node)))
                add = frozenset(x for x in ls if not str(x).startswith("-"))
                rem = frozenset(x[1:] for x in ls if str(x).startswith("-"))
                return (st - rem) | add
        return st

    def call(self, i, env, st):
        s2 = self.ev_event(i, env, st)
        if s2 is False:
            return []
        if self.results:
            rs = self.results(i)
            if rs is not None:
                out = []
                for r in rs:
                    if isinstance(r, tuple):
                        out.append((r[0], s2 | frozenset(r[1:])))
                    else:
                        out.append((r, s2))
                return out
        v = self.M.const_ret(i.callee) if self.M else None
        return [(v, s2)]

    def visit(self, i, env, st):
        return self.ev_event(i, env, st) if i.op in ("store", "load", "sdiv", "srem", "switch") else st

    def load(self, i, env, st):
        if self.loads:
            v = self.loads(i, self)
            if v is not None:
                return v
        if not self.assume:
            return None
        p = i.ops[0]
        if isinstance(p, dict) and "g" in p and p["g"] in self.assume and not p.get("off"):
            self.used.add(p["g"])
            return self.assume[p["g"]]
        fl = self.P.field(self.f, p)
        if fl in self.assume:
            self.used.add(fl)
            return self.assume[fl]
        return None

    def ret(self, i, val, env, st):
        self.rets.append((val, st, self.path(self.node)))

    def dead(self, i, env, st):
        self.deads.append((i, st, self.path(self.node)))


def is_fail(M, f, val):
    fv = M.failvals(f)
    if fv is not None:
        return val in fv
    t = f.rettype()
    if t in ("int", "int32_t"):
        return val == NZ or (isinstance(val, int) and val != 0)
    return False


def callee_in(P, i, names):
    if i.op != "call":
        return False
    for t in P.direct_targets(i):
        f = P.funcs.get(t)
        n = f.cname if f is not None else t
        if n in names:
            return True
    return False


class Effects:
    """Which functions may (transitively) perform an effect, and through what chain."""

    def __init__(self, P, base, stop=()):
        """base: callable(call instr) -> label or None"""
        self.P = P
        self.may = {}
        rev = {}
        work = []
        for f in P.funcs.values():
            if f.cname in stop:
                continue
            for c in f.calls():
                l = base(c)
                if l and f.name not in self.may:
                    self.may[f.name] = (l, c, None)
                    work.append(f.name)
        callers = P.callers()
        while work:
            n = work.pop()
            for c in callers.get(n, ()):
                g = c.fn.name
                if g not in self.may and c.fn.cname not in stop:
                    self.may[g] = (self.may[n][0], c, n)
                    work.append(g)

    def chain(self, n):
        out = []
        while n is not None:
            l, c, nx = self.may[n]
            out.append("%s (%s)" % (n.split("@")[0], c.where()))
            n = nx
        out.append(l)
        return " -> ".join(out)


MUTATING = set("""mkdir chmod fchmod fchmodat symlink symlinkat unlink rename remove rmdir ftruncate truncate execve
execvp execv kill fork curl_easy_perform archive_write_header archive_write_data_block link utimensat""".split())


def mutation(P):
    """Base effects: system calls that change the file system, start or signal processes, use the network."""
    def base(c):
        if c.callee in MUTATING:
            return c.callee
        f = P.funcs.get(c.callee)
        if (f is not None and f.cname == "fs_fopen") or c.callee == "fopen":
            m = cstr(c.ops[1])
            if m is None and c.fn.cname == "fs_fopen":
                return None  # judged at fs_fopen's callers
            if m is None or m[0] != "r" or "+" in m:
                return "fopen(\"%s\")" % m
        if c.callee == "open":
            k = kint(c.ops[1])
            if k is None or k & 3:
                return "open for writing"
        return None
    return base


def reach_under(P, M, roots, assume=None, results=None, stop=(), edge=None, mark=None, targets=None):
    """What is reachable from roots when the assumed loads hold.

    Context sensitive in the constant _Bool arguments of direct calls, and path
    sensitive in functions that read an assumed location, have a known argument
    or call a function whose result is assumed.
    Returns {function name: (caller name, call)}, [(call, path)] and the marked
    non-call instructions reached (mark: callable(instr) -> bool).
    """
    assume = assume or {}
    seen = {}
    calls = {}
    work = []
    ctxs = set()

    def add(n, args, frm):
        f = P.funcs.get(n)
        if n not in seen:
            seen[n] = frm
        if f is None or f.cname in stop or (n, args) in ctxs:
            return
        if (n, frozenset()) in ctxs:
            return
        if sum(1 for c in ctxs if c[0] == n) > 12:
            args = frozenset()
        ctxs.add((n, args))
        work.append((f, args))

    for r in roots:
        add(r, frozenset(), None)
    ffields = {k for k in assume if isinstance(k, tuple)}
    marked = []
    senscache = P.__dict__.setdefault("_sens", {})

    def sensitive(f):
        for i in f.instrs():
            if i.op == "load":
                p = i.ops[0]
                if (isinstance(p, dict) and p.get("g") in assume) or P.field(f, p) in ffields:
                    return True
            elif i.op == "call" and results and results(i) is not None:
                return True
        return False

    def boolargs(c, val):
        g = P.funcs.get(c.callee) if c.callee else None
        if g is None:
            return frozenset()
        out = []
        for k in range(min(len(c.ops), len(g.argids))):
            if k + 1 < len(g.ditypes) and g.ditypes[k + 1] == "_Bool":
                v = val(c.ops[k])
                if v in (0, 1):
                    out.append((k, v))
        return frozenset(out)

    while work:
        f, args = work.pop()
        reached = []
        if args or sensitive(f):
            got = {}

            def events(i, s, env):
                if i.op == "call":
                    got.setdefault(i.id, {})[boolargs(i, lambda o: s.ev(o, env))] = s.path(s.node)
                elif mark is not None and mark(i):
                    marked.append((i, s.path(s.node)))
                return None
            s = Paths(P, f, M, assume={**assume, **{("arg", k): v for k, v in args}}, results=results, events=events)
            s.go()
            for i, _, path in s.deads:
                got.setdefault(i.id, {})[frozenset()] = path
            for c in f.calls():
                for a, path in got.get(c.id, {}).items():
                    reached.append((c, a, path))
        else:
            for c in f.calls():
                reached.append((c, boolargs(c, kint), []))
            if mark is not None:
                marked.extend((i, []) for i in f.instrs() if i.op != "call" and mark(i))
        for c, a, path in reached:
            if edge is not None and not edge(c):
                continue
            calls.setdefault(c, path)
            for t in (targets(c, P.call_targets(c)) if targets else P.call_targets(c)):
                add(t, a if t == c.callee else frozenset(), (f.name, c))
    return seen, list(calls.items()), marked


class Outcomes:
    """What calling a function can amount to: the set of (return value, operations carried out), over all its paths.

    Summaries are computed bottom-up per context (known argument values) and applied at call sites.

    scope:  callable(function) -> bool: functions to look into; others return unknown values
    prim:   callable(call, sim, env) -> list of (value, label...) for the operations of interest, or None
    count:  labels of which the second occurrence is labelled too (label + "2")
    """

    def __init__(self, P, M, scope, prim, loads=None, assume=None, events=None, count=()):
        self.P, self.M, self.scope, self.prim = P, M, scope, prim
        self.loads, self.assume, self.events, self.count = loads, assume or {}, events, frozenset(count)
        self.memo = {}
        self.fns = set()

    def of(self, name, args=(), start=frozenset()):
        key = (name, args)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None     # recursion: unknown
        f = self.P.funcs[name]
        self.fns.add(name)
        a = dict(self.assume)
        for k, v in enumerate(args):
            if v is not None and k < len(f.argids):
                a[("arg", k)] = v
        s = _OutPaths(self, f, a)
        s.go()
        out = {}
        for v, st, p in s.rets:
            out.setdefault((v, st), p)
        self.memo[key] = out
        return out


class _OutPaths(Paths):
    def __init__(self, O, f, assume):
        super().__init__(O.P, f, O.M, assume=assume, events=O.events, loads=O.loads)
        self.O = O

    def call(self, i, env, st):
        s2 = self.ev_event(i, env, st)
        if s2 is False:
            return []
        self.cur = s2
        rs = self.O.prim(i, self, env)
        if rs is not None:
            return [(r[0], s2 | frozenset(r[1:])) if isinstance(r, tuple) else (r, s2) for r in rs]
        g = self.P.funcs.get(i.callee)
        if g is not None and self.O.scope(g):
            args = tuple(v if isinstance(v, int) or v == NZ else None for v in (self.ev(o, env) for o in i.ops))
            out = self.O.of(g.name, args)
            if out is not None:
                return sorted({(v, s2 | l | {x + "2" for x in s2 & l & self.O.count}) for v, l in out}, key=str)
        return [(self.M.const_ret(i.callee) if self.M else None, s2)]
