"""Failure propagation.

FALLIBLE functions are inferred from the program: a function that returns bool,
enum iteration_result (or another enum with an error enumerator) or a pointer
is fallible when some path on which it reported an error -- or on which a
fallible operation it called failed -- ends in a failure return.  The base of
the inference is the error-reporting calls and a table of system calls and
library calls with their documented failure value.

OBLIGATION: for every call of a fallible function and every error report, all
paths on which the call failed / the report was made end in a failure return of
the enclosing function, in a call that does not return, or in a store to one of
the sticky error flags whose consumers are checked in turn.
"""
from collections import defaultdict
from prog import vid, kint, operands, AnalysisBroken
from sim import Sim, TooComplex, NZ

# external operations: callee -> list of failure values
EXTERNAL = {
    "fopen": [0], "fdopen": [0], "fclose": [-1], "mkdir": [-1], "chmod": [-1], "fchmod": [-1], "fchmodat": [-1],
    "symlink": [-1], "symlinkat": [-1], "unlink": [-1], "rename": [-1], "remove": [-1], "chdir": [-1],
    "fseek": [-1], "fsync": [-1], "pipe": [-1], "dup2": [-1], "opendir": [0], "ftell": [-1],
    "open": [-1], "ftruncate": [-1], "waitpid": [-1],
    "fork": [-1], "kill": [-1],
    "archive_read_open_memory": [-25, -30], "archive_write_header": [-25, -30], "archive_write_finish_entry": [-25, -30],
    "archive_write_data_block": [-25, -30], "archive_read_data_block": [-25, -30], "archive_read_next_header": [-25, -30],
    "curl_easy_perform": [7],
}
ERR_ENUM = ("_err", "_error", "_fail")


class Model:
    """Failure classes, error reporters and the inferred set of fallible functions."""

    def __init__(self, P):
        self.P = P
        self.LOGERR = P.enum("log_error")
        self.enumfail = {}
        for name, es in P.enums.items():
            for e in es:
                bad = [v for n, v in e["vals"] if n.endswith(ERR_ENUM)]
                if bad:
                    self.enumfail["enum " + name] = bad
        for need in ("enum iteration_result",):
            if need not in self.enumfail:
                raise AnalysisBroken("anchor vanished: " + need)
        self.fallible = {}
        self.why = {}
        self.queries = set()
        self._infer()

    def failvals(self, f):
        t = f.rettype()
        if t == "_Bool":
            return [0]
        if t in self.enumfail:
            return self.enumfail[t]
        if t and t.endswith("*"):
            return [0]
        if t == "int" and self.int_status(f):
            return [-1]
        if t == "int":
            return self.passed_status(f)
        return None

    def passed_status(self, f):
        """Failure values of an int function that returns the status of library calls."""
        k = self.__dict__.setdefault("_passed", {})
        if f.name not in k:
            out, seen, work = set(), set(), [i.ops[0] for i in f.instrs() if i.op == "ret" and i.ops]
            while work:
                o = work.pop()
                if kint(o) is not None:
                    continue
                d = f.defs.get(vid(o))
                if d is not None and d.op in ("phi", "select"):
                    if d.id not in seen:
                        seen.add(d.id)
                        work += d.ops[1:] if d.op == "select" else [o for o, _ in d.ops]
                elif d is not None and d.op in ("trunc", "sext", "zext"):
                    work.append(d.ops[0])
                elif d is not None and d.op == "call" and d.callee and d.callee.startswith("archive_") and d.callee in EXTERNAL and d.callee not in self.P.funcs:
                    out |= set(EXTERNAL[d.callee])
                else:
                    out = None
                    break
            k[f.name] = sorted(out) if out else None
        return k[f.name]

    def int_status(self, f):
        """An int function that returns only 0 and -1 returns a status."""
        k = self.__dict__.setdefault("_intst", {})
        if f.name not in k:
            vals, seen, work = set(), set(), [i.ops[0] for i in f.instrs() if i.op == "ret" and i.ops]
            while work:
                o = work.pop()
                c = kint(o)
                if c is not None:
                    vals.add(c - (1 << 32) if c >= 1 << 31 else c)
                    continue
                d = f.defs.get(vid(o))
                if d is None or d.op not in ("phi", "select"):
                    vals.add(None)
                    continue
                if d.id not in seen:
                    seen.add(d.id)
                    work += d.ops[1:] if d.op == "select" else [o for o, _ in d.ops]
            k[f.name] = vals == {0, -1}
        return k[f.name]

    def emitter(self, c):
        n = c.callee
        if n == "log_print":
            return len(c.ops) > 1 and kint(c.ops[1]) == self.LOGERR
        if n in ("error_message", "error_messagef", "error_messagev"):
            return len(c.ops) > 3 and kint(c.ops[3]) == self.LOGERR
        f = self.P.funcs.get(n)
        return f is not None and f.cname in ("interp_error", "lex_error", "parse_error", "typecheck_simple_err_msg")

    def is_reporter(self, f):
        return f.cname in ("interp_error", "lex_error", "parse_error", "error_message", "error_messagef",
                           "error_messagev", "log_print", "interp_diagnostic", "error_unrecoverable")

    def targets(self, c):
        k = c.d.get("_dt")
        if k is None:
            k = c.d["_dt"] = self.P.direct_targets(c)
        return k

    def callbacks(self, c):
        """The functions a call hands over as callbacks."""
        k = c.d.get("_cb")
        if k is None:
            k = set()
            for j in self.P.cbparam.get(c.callee, ()):
                if j < len(c.ops):
                    k |= self.P.fvalue_targets(c.fn, c.ops[j])
            c.d["_cb"] = k
        return k

    def own_callback(self, c):
        """The functions handed to the parameter an indirect call goes through."""
        if c.callee or vid(c.fptr) not in c.fn.argids:
            return set()
        return self.handed().get((c.fn.name, c.fn.argids.index(vid(c.fptr))), set())

    def handed(self):
        """(function, parameter) -> the functions handed over for it."""
        if not hasattr(self, "_handed"):
            P = self.P
            h = {}
            flow = {}
            for f in P.funcs.values():
                for c in f.calls():
                    for k in P.cbparam.get(c.callee, ()):
                        if k < len(c.ops):
                            h.setdefault((c.callee, k), set()).update(P.fvalue_targets(f, c.ops[k]))
                            v = vid(c.ops[k])
                            if v in f.argids:
                                flow.setdefault((f.name, f.argids.index(v)), set()).add((c.callee, k))
            work = list(flow)
            while work:
                a = work.pop()
                for b in flow.get(a, ()):
                    if not h.get(a, set()) <= h.setdefault(b, set()):
                        h[b] |= h[a]
                        work.append(b)
            self._handed = h
        return self._handed

    def call_fail(self, c):
        """Failure values of a call, or None when the callee is not fallible."""
        if c.callee in EXTERNAL and c.callee not in self.P.funcs:
            return EXTERNAL[c.callee]
        ts = self.targets(c)
        for t in ts:
            if t in self.fallible:
                return self.failvals(self.P.funcs[t])
        if c.callee in self.P.funcs and any(t in self.fallible for t in self.callbacks(c)):
            # hands on the failure of its callback (see own_callback)
            return self.failvals(self.P.funcs[c.callee])
        return None

    def _infer(self):
        P = self.P
        cand = {}
        callees = {}
        dirty = set()
        for f in P.funcs.values():
            if self.is_reporter(f):
                continue
            fv = self.failvals(f)
            if fv is None:
                continue
            cand[f.name] = fv
            cs = set()
            for c in f.calls():
                cs |= self.targets(c) | self.callbacks(c)
                if self.emitter(c) or (c.callee in EXTERNAL and c.callee not in P.funcs):
                    dirty.add(f.name)
            callees[f.name] = cs
        while dirty:
            new = set()
            for n in dirty:
                f = P.funcs[n]
                s = _Infer(self, f, cand[n])
                try:
                    s.run(0)
                except TooComplex:
                    raise AnalysisBroken("path exploration too large: %s" % f.cname)
                if s.hit:
                    self.fallible[n] = cand[n]
                    new.add(n)
            dirty = {n for n in cand if n not in self.fallible and callees[n] & new}

    # constants ------------------------------------------------------------
    def const_ret(self, name):
        """Value a function always returns (None when it varies)."""
        if not hasattr(self, "_cr"):
            self._cr = {}
        if name not in self._cr:
            f = self.P.funcs.get(name)
            v = None
            if f is not None:
                vals = set()
                for i in f.instrs():
                    if i.op == "ret":
                        vals.add(kint(i.ops[0]) if i.ops else None)
                if len(vals) == 1:
                    v = vals.pop()
            self._cr[name] = v
        return self._cr[name]


class _Infer(Sim):
    def __init__(self, M, f, fv):
        super().__init__(M.P, f)
        self.M = M
        self.fv = fv
        self.hit = False

    def call(self, i, env, st):
        if self.hit:
            return []
        if self.M.emitter(i):
            return [(None, 1)]
        if st == 0:
            fv = self.M.call_fail(i)
            if fv is not None:
                return [(None, 0)] + [(v, 1) for v in fv]
        return [(self.M.const_ret(i.callee), st)]

    def ret(self, i, val, env, st):
        if st == 1 and val in self.fv:
            self.hit = True


def feasible(f, i):
    return True


class ErrProp(Sim):
    """One function: which failures / error reports reach a non-failure return."""

    def __init__(self, M, f, queries, sticky=(), exempt=lambda f, i: False, assume=None):
        super().__init__(M.P, f)
        self.M = M
        self.queries = queries
        self.sticky = sticky
        self.exempt = exempt
        self.bad = {}
        self.obl = set()
        self.fv = M.failvals(f)
        self.assume = assume or {}

    def okret(self, val):
        if self.fv is not None:
            return val in self.fv
        t = self.f.rettype()
        if t in ("int", "int32_t", "long", "ssize_t", "off_t", "int64_t"):
            return val == NZ or (isinstance(val, int) and val != 0)
        return False

    def failvalue(self, i):
        ts = self.M.targets(i)
        for t in ts:
            f = self.P.funcs.get(t)
            if f is not None and f.cname in self.queries:
                return None
        fv = self.M.call_fail(i)
        if fv is None:
            for t in self.M.own_callback(i):
                if t in self.M.fallible and self.P.funcs[t].cname not in self.queries:
                    return self.M.failvals(self.P.funcs[t])
        return fv

    def call(self, i, env, st):
        if st is None:
            if self.M.emitter(i):
                if self.exempt(self.f, i):
                    return [(None, None)]
                self.obl.add(i.id)
                return [(None, i.id)]
            fv = self.failvalue(i)
            if fv is not None and not self.exempt(self.f, i):
                self.obl.add(i.id)
                good = NZ if fv == [0] else None
                t = next((self.P.funcs[t] for t in self.M.targets(i) if t in self.P.funcs), None)
                if t is not None and t.rettype() == "_Bool":
                    good = 1
                return [(good, None)] + [(v, i.id) for v in fv]
        return [(self.M.const_ret(i.callee), st)]

    def visit(self, i, env, st):
        if isinstance(st, int) and i.op == "store" and self.sticky:
            fl = self.P.field(self.f, i.ops[1])
            if fl in self.sticky:
                v = self.ev(i.ops[0], env)
                if v is not None and self.sticky[fl](v):
                    return "recorded"
        return st

    def load(self, i, env, st):
        if self.assume:
            fl = self.P.field(self.f, i.ops[0])
            if fl in self.assume:
                return self.assume[fl]
        return None

    def ret(self, i, val, env, st):
        if st is None or st == "recorded":
            return
        if self.okret(val):
            return
        self.bad.setdefault(st, (self.path(self.node), val))


class AllFail(Sim):
    """Under an assumption on field loads, every return is a failure."""

    def __init__(self, M, f, assume, after=None):
        super().__init__(M.P, f)
        self.M = M
        self.assume = assume
        self.fv = M.failvals(f)
        self.bad = []
        self.loads = 0
        self.after = after  # predicate: obligations start once such a call succeeded

    def call(self, i, env, st):
        if self.after is not None and self.after(i):
            return [(None, "armed")]
        return [(self.M.const_ret(i.callee), st)]

    def load(self, i, env, st):
        fl = self.P.field(self.f, i.ops[0])
        if fl in self.assume:
            self.loads += 1
            return self.assume[fl]
        return None

    def ret(self, i, val, env, st):
        if self.after is not None and st != "armed":
            return
        if self.fv is not None and val in self.fv:
            return
        if self.fv is None and isinstance(val, int) and val != 0:
            return
        self.bad.append((self.path(self.node), val))
