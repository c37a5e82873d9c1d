"""Handles are closed exactly once on every path (C20)."""
from rules import prop
from rules.r_errprop import model
from rulelib import Paths, callee_in, is_fail
from rules.r_regen import keys
from sim import NZ
from prog import vid, kint, isnull, cstr, AnalysisBroken

# opening call -> (kind, result when it fails)
OPEN = {"fopen": ("file", 0), "fs_fopen": ("file", 0), "fdopen": ("file", 0), "freopen": ("file", 0), "tmpfile": ("file", 0), "popen": ("pipe", 0),
        "open": ("descriptor", -1), "openat": ("descriptor", -1), "creat": ("descriptor", -1), "mkstemp": ("descriptor", -1), "dup": ("descriptor", -1),
        "opendir": ("directory", 0), "fdopendir": ("directory", 0),
        "archive_read_new": ("archive", 0), "archive_write_disk_new": ("archive", 0), "archive_write_new": ("archive", 0), "curl_easy_init": ("transfer", 0)}
CLOSE = {"fclose", "fs_fclose", "pclose", "close", "closedir", "archive_read_free", "archive_write_free", "archive_free", "curl_easy_cleanup"}
TOK = 1 << 40


def name(P, c):
    g = P.funcs.get(c.callee)
    return g.cname if g is not None else (c.callee or "")


class Own(Paths):
    limit = 60000

    def __init__(self, P, f, M, S, params=()):
        super().__init__(P, f, M)
        self.S = S
        self.bad = {}
        self.opened = set()
        start = set()
        for k in params:
            t = self.tok(f.argids[k])
            self.env0[f.argids[k]] = t
            start.add(("open", t))
        self.st0 = frozenset(start)

    def tok(self, vid_):
        return TOK + vid_

    def ev(self, o, env):
        return super().ev(o, env)

    def killmem(self, env, alloca=None):
        # a handle kept in a local structure stays there when the structure is passed on
        keep = {k: v for k, v in env.items() if isinstance(k, tuple) and isinstance(v, int) and v >= TOK and not isinstance(k[0], tuple)}
        super().killmem(env, alloca)
        env.update(keep)

    def report(self, key, i, msg):
        self.bad.setdefault((key, i.id), (i, msg, self.path(self.node)))

    def escape(self, st, v):
        return st - {("open", v)} | {("moved", v)} if ("open", v) in st else st

    def call(self, i, env, st):
        n = name(self.P, i)
        S = self.S
        ops = [self.ev(o, env) for o in i.ops]
        for t in self.P.direct_targets(i) or ([i.callee] if i.callee else []):
            for k, v in enumerate(ops):
                if not (isinstance(v, int) and v >= TOK):
                    continue
                if ("closed", v) in st:
                    self.report("used", i, "%s is given a handle that was already closed" % n if not self.closes(t, n, k) else "a handle is closed twice")
                elif self.closes(t, n, k):
                    st = st - {("open", v), ("moved", v)} | {("closed", v)}
                elif k in S.keeps.get(t, ()):
                    st = self.escape(st, v)
        o = OPEN.get(n) or S.opens.get(i.callee)
        if o:
            t = self.tok(i.id)
            self.opened.add(i.id)
            if ("open", t) in st:
                self.report("lost", i, "the handle opened here is overwritten while it is open")
            st2 = frozenset(x for x in st if x[1] != t)
            for k in [k for k, v in env.items() if v == t]:
                del env[k]
            return [(t, st2 | {("open", t)}), (o[1], st2)]
        v = self.M.const_ret(i.callee) if self.M else None
        return [(v, st)]

    def closes(self, t, n, k):
        return (n in CLOSE and k == 0) or k in self.S.closers.get(t, ())

    def visit(self, i, env, st):
        if i.op == "store":
            v = self.ev(i.ops[0], env)
            if isinstance(v, int) and v >= TOK:
                c = self.cell(i.ops[1])
                if c is None or isinstance(c[0], tuple):
                    st = self.escape(st, v)
        return st

    def ret(self, i, val, env, st):
        if isinstance(val, int) and val >= TOK:
            self.rets.append(("handle", st, self.path(self.node), val))
            st = self.escape(st, val)
        else:
            self.rets.append((val, st, self.path(self.node), None))
        for x in st:
            if x[0] == "open" and x[1] - TOK not in self.f.argids:
                d = self.f.defs[x[1] - TOK]
                self.report("leak", d, "the handle opened here is still open when %s returns" % self.f.cname)


class Summaries:
    """Which functions return an open handle, close a parameter, or keep it."""

    def __init__(self, P, M, kp):
        self.P, self.M, self.keeps = P, M, kp
        self.opens, self.closers = {}, {}
        self.results = {}
        callers = P.callers()
        todo = [f for f in P.funcs.values() if any(name(P, c) in OPEN or name(P, c) in CLOSE for c in f.calls())]
        while todo:
            f = todo.pop(0)
            before = (self.opens.get(f.name), frozenset(self.closers.get(f.name, ())))
            self.judge(f)
            if (self.opens.get(f.name), frozenset(self.closers.get(f.name, ()))) != before:
                for c in callers.get(f.name, ()):
                    if c.fn not in todo:
                        todo.append(c.fn)

    def params(self, f):
        """Parameters that may be handed to a closing call."""
        out = set()
        for c in f.calls():
            for t in self.P.direct_targets(c) or ([c.callee] if c.callee else []):
                for k, o in enumerate(c.ops):
                    if ((name(self.P, c) in CLOSE and k == 0) or k in self.closers.get(t, ())) and vid(o) in f.argids:
                        out.add(f.argids.index(vid(o)))
        return out

    def judge(self, f):
        ps = self.params(f)
        s = Own(self.P, f, self.M, self, ps)
        s.go()
        self.results[f.name] = (f, s)
        for k in ps:
            t = s.tok(f.argids[k])
            rets = [st for _, st, _, _ in s.rets]
            if rets and any(("closed", t) in st for st in rets):
                self.closers.setdefault(f.name, set()).add(k)
        hs = [v for r, _, _, v in s.rets if r == "handle" and v - TOK not in f.argids]
        if hs and f.name not in self.opens:
            d = f.defs[hs[0] - TOK]
            k = OPEN.get(name(self.P, d)) or self.opens.get(d.callee)
            if k and not f.cname in OPEN:
                self.opens[f.name] = k


def keeps(P):
    """Parameters stored into memory that outlives the call."""
    out = {}
    for f in P.funcs.values():
        for i in f.instrs():
            if i.op == "store" and vid(i.ops[0]) in f.argids:
                v = vid(i.ops[1])
                while v is not None and v not in f.argids and f.defs[v].op == "getelementptr":
                    v = vid(f.defs[v].d["base"])
                if v is None or v in f.argids or f.defs[v].op != "alloca":
                    out.setdefault(f.name, set()).add(f.argids.index(vid(i.ops[0])))
    return out


@prop("C20")
def handles(P, R):
    M = model(P)
    S = Summaries(P, M, keeps(P))
    for n in list(S.results):
        S.judge(P.funcs[n])
    R.rule("closed", "a handle opened by a function is closed exactly once on every path that leaves it, unless it is returned or stored with a longer-lived owner")
    total = 0
    for f, s in S.results.values():
        if "/tests/" in f.file or not f.file.startswith("src/"):
            continue
        R.fn(f.name)
        for oid in sorted(s.opened):
            d = f.defs[oid]
            total += 1
            mine = [(i, m, p) for (k, iid), (i, m, p) in s.bad.items() if iid == oid]
            R.check(not mine, "open:%s:%s" % (f.cname, name(P, d)), d.where(), mine[0][1] if mine else "", mine[0][2] if mine else None)
        for (k, iid), (i, m, p) in s.bad.items():
            if k == "used" and iid not in s.opened:
                R.check(False, "use:%s:%s" % (f.cname, name(P, i)), i.where(), m, p)
        for k in S.closers.get(f.name, ()):
            t = s.tok(f.argids[k])
            bad = [p for _, st, p, _ in s.rets if ("closed", t) not in st]
            if f.cname in CLOSE:
                R.check(not bad, "closer:%s" % f.cname, f.loc(), "%s can return without closing the handle" % f.cname, bad[0] if bad else None)
    if total < 10:
        raise AnalysisBroken("only %d places open a handle" % total)

    commands(P, R, M)
    members(P, R, M)


RUN = {"run_cmd", "run_cmd_argv", "run_cmd_unsplit"}


def ctxtype(t):
    return (t or "").replace("const ", "") in ("struct run_cmd_ctx *",)


def commands(P, R, M):
    """Pipes of started programs."""
    R.rule("pipes", "the pipes of a command that could not be started or waited for are closed before its context goes out of scope")
    plat = [f for f in P.funcs.values() if f.file.startswith("src/platform/")]
    destroy = {"run_cmd_ctx_destroy"}
    dirty = {}           # function -> parameters left holding pipes on some path
    n = 0
    todo = [f for f in P.funcs.values() if any(callee_in(P, c, RUN | {"run_cmd_collect"}) for c in f.calls()) and f not in plat and "/tests/" not in f.file]
    order = []
    while todo:
        f = todo.pop(0)
        if f in order:
            continue
        order.append(f)

        def ev(i, s, env):
            if i.op != "call":
                return None
            if callee_in(P, i, destroy):
                ks = keys(P, f, i.ops[0])
                return ["-" + repr(k) for k in ks] or None
            return None

        def res(i):
            out = set()
            if callee_in(P, i, RUN):
                for k in keys(P, f, i.ops[0]):
                    out.add(repr(k))
                return [(0,) + tuple(out), (1,)]
            ks = set()
            for t in P.direct_targets(i):
                for a in dirty.get(t, ()):
                    if a < len(i.ops):
                        ks |= {repr(k) for k in keys(P, f, i.ops[a])}
            return [(0,) + tuple(ks), (1,)] if ks else None
        s = Paths(P, f, M, events=ev, results=res).go()
        R.fn(f.name)
        sites = [c for c in f.calls() if callee_in(P, c, RUN) or any(dirty.get(t) for t in P.direct_targets(c))]
        for c in sites:
            args = [0] if callee_in(P, c, RUN) else sorted(set().union(*[dirty.get(t, set()) for t in P.direct_targets(c)]))
            for a in args:
                ks = keys(P, f, c.ops[a])
                bad = [p for v, st, p in s.rets if any(repr(k) in st for k in ks)]
                if bad and ks and all(k[0] == "arg" for k in ks):
                    dirty.setdefault(f.name, set()).update(k[1] for k in ks)
                    for cc in P.callers().get(f.name, ()):
                        if cc.fn not in order and cc.fn not in todo:
                            todo.append(cc.fn)
                    continue
                if bad and handed(P, f, c.ops[a]):
                    R.assume("the context of a test program belongs to its test, which the test runner destroys")
                    continue
                n += 1
                R.check(not bad, "pipes:%s:%s" % (f.cname, name(P, c)), c.where(), "the pipes of a command that could not be started stay open when %s returns" % f.cname, bad[0] if bad else None)
    if n < 8:
        raise AnalysisBroken("only %d places start a command" % n)
    R.rule("pipe-members", "every descriptor the command context can hold is closed when its flag is set, and the flag is cleared")
    closers = [f for f in plat if "windows" not in f.file and any(c.callee == "close" and ctxfield(P, f, c.ops[0]) for c in f.calls())]
    closer = max(closers, key=lambda f: sum(1 for c in f.calls() if c.callee == "close"), default=None)
    if closer is None:
        raise AnalysisBroken("no function closes the descriptors of a command")
    R.fn(closer.name)
    fds = set()
    for f in plat:
        if "windows" in f.file:
            continue
        for c in f.calls():
            if c.callee == "close":
                fds |= {ctxfield(P, f, c.ops[0])}
            if c.callee in ("dup2",):
                fds |= {ctxfield(P, f, c.ops[0])}
            if callee_in(P, c, {"open_run_cmd_pipe", "pipe"}):
                for o in c.ops[:1]:
                    b = ctxaddr(P, f, o)
                    if b:
                        fds |= {(b[0], 0), (b[0], 1)}
    fds.discard(None)
    flags = {}
    for i in closer.instrs():
        if i.op == "load":
            k = ctxaddr(P, closer, i.ops[0])
            if k and k[0].endswith("_open"):
                flags[k] = i
    for fd in sorted(fds, key=str):
        fl = (fd[0] + "_open", fd[1])

        def ev(i, s, env):
            if i.op == "call" and i.callee == "close" and ctxfield(P, closer, i.ops[0]) == fd:
                return "closed"
            if i.op == "store" and ctxaddr(P, closer, i.ops[1]) == fl and kint(i.ops[0]) == 0:
                return "cleared"
            return None

        def ld(i, s):
            return 1 if ctxaddr(P, closer, i.ops[0]) == fl else None
        s = Paths(P, closer, M, events=ev, loads=ld).go()
        bad = [p for v, st, p in s.rets if not {"closed", "cleared"} <= st]
        R.check(not bad, "member:%s[%s]" % fd, closer.loc(), "an open descriptor of a command (%s[%s]) is not closed and marked closed" % fd, bad[0] if bad else None)
    R.check(len(fds) >= 5, "member-count", closer.loc(), "descriptors of the command context not recognised")
    for f in plat:
        if "windows" in f.file or f.cname not in ("run_cmd_ctx_destroy", "run_cmd_collect"):
            continue
        fin = P.enum("run_cmd_finished")

        def ev(i, s, env):
            return "closed" if callee_in(P, i, {closer.cname}) else None
        s = Paths(P, f, M, events=ev).go()
        bad = [p for v, st, p in s.rets if "closed" not in st and (f.cname == "run_cmd_ctx_destroy" or v == fin)]
        R.check(not bad, "closing:%s" % f.cname, f.loc(), "%s leaves descriptors open" % f.cname, bad[0] if bad else None)
    R.rule("pipe-flags", "a descriptor that was opened is marked open before anything can fail")
    m = 0
    for f in plat:
        if "windows" in f.file:
            continue
        for c in f.calls():
            if c.callee == "pipe" and vid(c.ops[0]) in f.argids:
                m += 1
                fa = [k for k in range(len(f.argids)) if k != f.argids.index(vid(c.ops[0]))]

                def ev(i, s, env):
                    if i.op == "store" and kint(i.ops[0]) == 1:
                        return {"f%s" % (elem(f, i.ops[1]),)}
                    return None
                s = Paths(P, f, M, events=ev, results=lambda i: [(-1,), (0, "open")] if i is c else None).go()
                bad = [p for v, st, p in s.rets if "open" in st and len([x for x in st if x.startswith("f")]) < 2]
                R.check(not bad, "flag:%s" % f.cname, c.where(), "a pipe is not marked open on a path that leaves %s" % f.cname, bad[0] if bad else None)
            elif c.callee == "pipe":
                m += 1
            if c.callee == "open":
                st_ = [i for i in f.instrs() if i.op == "store" and vid(i.ops[0]) == c.id and ctxaddr(P, f, i.ops[1])]
                for w in st_:
                    m += 1
                    fl = (ctxaddr(P, f, w.ops[1])[0] + "_open", ctxaddr(P, f, w.ops[1])[1])

                    def ev(i, s, env):
                        if i.op == "store" and ctxaddr(P, f, i.ops[1]) == fl and kint(i.ops[0]) == 1:
                            return "flag"
                        return None
                    s = Paths(P, f, M, events=ev, results=lambda i: [(-1,), (7, "open")] if i is c else None).go()
                    bad = [p for v, st, p in s.rets if "open" in st and "flag" not in st]
                    R.check(not bad, "flag:%s:%s" % (f.cname, fl[0]), c.where(), "a descriptor is not marked open on a path that leaves %s" % f.cname, bad[0] if bad else None)
    if m < 2:
        raise AnalysisBroken("the pipes of a command are never opened")


def elem(f, o):
    v = vid(o)
    if v is None or v in f.argids:
        return (v, 0)
    d = f.defs[v]
    return (vid(d.d["base"]) if d.op == "getelementptr" else v, str([s.get("idx") for s in d.steps]) if d.op == "getelementptr" else 0)


def handed(P, f, o):
    """The context is a member of an object obtained from elsewhere."""
    ks = keys(P, f, o)
    return bool(ks) and all(k[0] != "local" and not (k[0] == "at" and k[1][0] == "local") for k in ks) and f.file == "src/cmd_test.c"


def ctxaddr(P, f, o):
    """(member, element) of the command context an address names."""
    v = vid(o)
    if v is None or v in f.argids or f.defs[v].op != "getelementptr":
        return None
    d = f.defs[v]
    steps = list(d.steps)
    b = vid(d.d["base"])
    while b is not None and b not in f.argids and f.defs[b].op == "getelementptr":
        steps = list(f.defs[b].steps) + steps
        b = vid(f.defs[b].d["base"])
    at = [k for k, s in enumerate(steps) if s.get("s") == "run_cmd_ctx"]
    if not at:
        return None
    e = 0
    for s in steps[at[-1] + 1:]:
        if kint(s.get("idx")) is not None:
            e = kint(s["idx"])
        elif kint(s.get("n")) is not None:
            e = kint(s["n"])
    return (steps[at[-1]]["f"], e)


def ctxfield(P, f, o):
    d = f.defs.get(vid(o))
    return ctxaddr(P, f, d.ops[0]) if d is not None and d.op == "load" else None


def members(P, R, M):
    """Handles stored with the build executor."""
    R.rule("owned", "a file kept by the build executor is closed before it is opened again and before the executor returns")
    mem = {}
    for f in P.funcs.values():
        for i in f.instrs():
            if i.op == "store":
                d = f.defs.get(vid(i.ops[0]))
                fl = P.field(f, i.ops[1])
                if fl and d is not None and d.op == "call" and name(P, d) in OPEN and "samu" in f.file:
                    mem.setdefault(fl, []).append((f, d))
    if not mem:
        raise AnalysisBroken("the build executor keeps no files")
    root = P.fn("samu_main")
    for fl, opens in sorted(mem.items()):
        closes = {}
        for f in P.funcs.values():
            for c in f.calls():
                if name(P, c) in CLOSE and c.ops:
                    d = f.defs.get(vid(c.ops[0]))
                    if d is not None and d.op == "load" and P.field(f, d.ops[0]) == fl:
                        closes.setdefault(f.name, c)

        def walk(f, start, mode):
            """Effect of f on the file, given that it is open (1) or not (0): set of end states, and violations."""
            key = (f.name, start)
            if key in memo:
                return memo[key]
            memo[key] = {start}
            bad = []

            def ev(i, s, env):
                if i.op != "call":
                    return None
                d = f.defs.get(vid(i.ops[0])) if i.ops else None
                if name(P, i) in CLOSE and d is not None and d.op == "load" and P.field(f, d.ops[0]) == fl:
                    return {"-open"}
                if any(i is x for _, x in opens):
                    if "open" in s.cur:
                        bad.append((i, s.path(s.node)))
                    return "open"
                return None

            def res(i):
                ts = [P.funcs[t] for t in P.direct_targets(i) if t in P.funcs]
                if any(t.name in inter for t in ts) and not any(i is x for _, x in opens):
                    return "inter"
                return None

            class W(Paths):
                def call(self, i, env, st):
                    if res(i) == "inter":
                        out = []
                        for t in P.direct_targets(i):
                            if t in P.funcs:
                                for e in walk(P.funcs[t], 1 if "open" in st else 0, mode):
                                    out.append((None, st | {"open"} if e else st - {"open"}))
                        return out
                    return super().call(i, env, st)

                def load(self, i, env, st):
                    if P.field(self.f, i.ops[0]) == fl:
                        return NZ if "open" in st else 0
                    return super().load(i, env, st)
            w = W(P, f, M, events=ev, start={"open"} if start else ())
            w.go()
            R.fn(f.name)
            ends = {1 if "open" in st else 0 for _, st, _ in w.rets}
            memo[key] = ends
            for i, p in bad:
                viol.append(("reopened", i, p))
            if f is root:
                for _, st, p in w.rets:
                    if "open" in st:
                        viol.append(("left open when the executor returns", opens[0][1], p))
            return ends
        touch = {f.name for f, _ in opens} | set(closes)
        callers = P.callers()
        inter, st = set(), list(touch)
        while st:
            n = st.pop()
            if n in inter:
                continue
            inter.add(n)
            st += [c.fn.name for c in callers.get(n, ()) if "samu" in c.fn.file and c.callee]
        memo, viol = {}, []
        if root.name not in inter:
            raise AnalysisBroken("samu_main does not open %s.%s" % fl)
        walk(root, 0, None)
        R.check(not viol, "owned:%s.%s" % fl, opens[0][1].where(), "the file in %s.%s is %s" % (fl + (viol[0][0],)) if viol else "", viol[0][2] if viol else None)
