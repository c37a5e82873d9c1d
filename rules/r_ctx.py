"""Evaluation context: saved, changed and restored on every exit (C08)."""
from rules import prop
from rules.r_errprop import model
from rules.r_samu import calls_to
from rules.r_wrap import root
from rulelib import callee_in
from prog import AnalysisBroken, kint, vid, operands
from sim import Sim

# fields of the workspace or of the current project that decide where names, files and messages resolve
CONTEXT = {("workspace", n) for n in ("cur_project", "src", "ast", "lang_mode")} | {("project", n) for n in ("cwd", "build_dir", "scope_stack")}
COUNTERS = {("workspace", "loop_depth"), ("workspace", "func_depth")}
# objects whose initial context is set up here: not a change of an existing context
INIT = {"make_project": "fills in a project it has just created", "workspace_init_bare": "initialises the workspace",
        "workspace_init": "initialises the workspace", "workspace_setup_paths": "called once by setup, before evaluation"}
OWNED = ("workspace", "project")


def sites(P, f):
    """Instructions that change a context field, by field."""
    out = {}
    for i in f.instrs():
        if i.op == "store":
            fl = P.field(f, i.ops[1])
            if fl and not (fl in CONTEXT | COUNTERS and local(P, f, i.ops[1])):
                out.setdefault(fl, []).append(i)
        elif i.op == "call":
            for o in i.ops:
                fl = P.field(f, o) if vid(o) is not None and f.defs.get(vid(o)) is not None and f.defs[vid(o)].op == "getelementptr" else None
                if fl in CONTEXT and fl != ("workspace", "src") and addr_is_written(P, i, o):
                    out.setdefault(fl, []).append(i)
    return out


def addr_is_written(P, c, o):
    k = next(k for k, x in enumerate(c.ops) if x == o)
    for t in P.direct_targets(c):
        g = P.funcs.get(t)
        if g is None or k >= len(g.argids):
            continue
        a = g.argids[k]
        for i in g.instrs():
            if (i.op == "store" and vid(i.ops[1]) == a) or (i.op == "call" and any(vid(x) == a for x in i.ops)):
                return True
    return False


def local(P, f, o):
    """Is the changed object a workspace (or project) of this function's own?"""
    r = root(f, o)
    if r is None or r in f.argids:
        return False
    d = f.defs[r]
    return d.op == "alloca"


def saved_here(P, f, fl, ss):
    """Does f store a value it loaded from the same field before?"""
    def loads(o, seen):
        v = vid(o)
        if v is None or v in f.argids or v in seen:
            return False
        seen.add(v)
        d = f.defs[v]
        if d.op == "load":
            return P.field(f, d.ops[0]) == fl
        if d.op in ("phi", "select"):
            return any(loads(x, seen) for x in operands(d))
        return False
    return any(i.op == "store" and loads(i.ops[0], set()) for i in ss)


def owner_is_workspace(P, f, i):
    """Is the stored field part of a structure nested in the workspace?"""
    v = vid(i.ops[1])
    d = f.defs.get(v) if v is not None and v not in f.argids else None
    return d is not None and d.op == "getelementptr" and any(s.get("s") == "workspace" for s in d.steps)


def scope_call(P, f, c):
    """+1 / -1 for a call that pushes / pops a local scope."""
    for suffix, n in (("push_local_scope", 1), ("pop_local_scope", -1)):
        if c.callee is None:
            d = f.defs.get(vid(c.fptr))
            if d is not None and d.op == "load" and P.field(f, d.ops[0]) == ("workspace", suffix):
                return n
        elif callee_in(P, c, {suffix, "analyze_" + suffix}):
            return n
    return 0


def gsaved(f, g, l):
    def loads(o, seen):
        v = vid(o)
        if v is None or v in f.argids or v in seen:
            return False
        seen.add(v)
        d = f.defs[v]
        if d.op == "load":
            return isinstance(d.ops[0], dict) and d.ops[0].get("g") == g
        if d.op in ("phi", "select"):
            return any(loads(x, seen) for x in operands(d))
        return False
    return any(loads(i.ops[0], set()) for i in l)


class Ctx(Sim):
    """State: frozenset of (what, 'changed' | net depth)."""

    def __init__(self, P, f, M, sitemap, globs, chdirs):
        super().__init__(P, f)
        self.M, self.sitemap, self.globs = M, sitemap, globs
        self.rets = []
        self.fieldset = {x for x in sitemap.values()}
        self.chdirs = chdirs

    def mark(self, st, what, ok):
        st = frozenset(x for x in st if x[0] != what)
        return st if ok else st | {(what, "changed")}

    def bump(self, st, what, n):
        cur = next((x[1] for x in st if x[0] == what), 0)
        if cur == "changed":
            return st
        cur = max(-4, min(4, cur + n))
        st = frozenset(x for x in st if x[0] != what)
        return st if cur == 0 else st | {(what, cur)}

    def load(self, i, env, st):
        p = i.ops[0]
        what = self.P.field(self.f, p)
        if what not in self.fieldset or what in COUNTERS:
            what = p.get("g") if isinstance(p, dict) and not p.get("off") and p.get("g") in self.globs else None
        if what is None:
            return None
        if any(x[0] == what for x in st):
            return None
        return ("@+%s" if what == ("workspace", "ast") else "@%s") % (what,)

    def visit(self, i, env, st):
        if i.op != "store":
            return st
        what = self.sitemap.get(i.id)
        if what in COUNTERS:
            d = self.f.defs.get(vid(i.ops[0]))
            c = kint(d.ops[1]) if d is not None and d.op in ("add", "sub") else None
            if c is None:
                return self.mark(st, what, False)
            return self.bump(st, what, c if d.op == "add" else -c)
        if what is None and isinstance(i.ops[1], dict) and i.ops[1].get("g") in self.globs:
            what = i.ops[1]["g"]
        if what is not None:
            t = self.ev(i.ops[0], env)
            return self.mark(st, what, t in ("@%s" % (what,), "@+%s" % (what,)))
        return st

    def call(self, i, env, st):
        if callee_in(self.P, i, {"log_get_prefix"}):
            return [("@+prefix" if not any(x[0] == "log prefix" for x in st) else None, st)]
        if callee_in(self.P, i, {"log_set_prefix"}):
            return [(None, self.mark(st, "log prefix", self.ev(i.ops[0], env) == "@+prefix"))]
        if i.id in self.sitemap:
            st = self.mark(st, self.sitemap[i.id], False)
        n = scope_call(self.P, self.f, i)
        if n:
            st = self.bump(st, "local scope", n)
        if i.id in self.chdirs:
            if self.chdirs[i.id] == "restore":
                # a failing restore is reported by the failure rules
                return [(1, self.mark(st, "working directory", True)), (0, self.mark(st, "working directory", True))]
            return [(1, self.mark(st, "working directory", False)), (0, st)]
        return [(self.M.const_ret(i.callee), st)]

    def ret(self, i, val, env, st):
        self.rets.append((st, self.path(self.node)))


def chdir_kind(P, f, c):
    """A change back to a saved directory, or to the directory every command runs in, restores."""
    d = f.defs.get(vid(c.ops[0]))
    if d is not None and d.op == "load":
        if P.field(f, d.ops[0]) == ("workspace", "source_root"):
            return "restore"
        r = root(f, d.ops[0])
        for x in f.calls():
            if callee_in(P, x, {"path_cwd"}) and any(root(f, o) == r and r is not None for o in x.ops):
                return "restore"
    return "change"


# the process-wide directory is the caller's business here
CHDIR_CALLERS = {"os_chdir": "the wrapper of the system call", "path_chdir": "the wrapper of the system call", "cmd_main": "the -C option of the command line", "samu_main": "the -C option of the build tool; its caller restores it", "do_analyze": "start of a run: the project root of a file"}


@prop("C08")
def context(P, R):
    M = model(P)
    RULES = {"ctx": ("context-restored", "a function that changes a field of the evaluation context stores the value found at its entry back on every path to a return"),
             "cnt": ("counter-balanced", "nesting counters and scope pushes are balanced on every path to a return"),
             "dir": ("directory-restored", "a function that changes the working directory changes back on every path to a return")}
    done = set()
    for f in sorted(P.funcs.values(), key=lambda f: f.loc()):
        if f.cname in INIT:
            continue
        ss = sites(P, f)
        sitemap = {}
        for fl, l in ss.items():
            if fl in CONTEXT or fl in COUNTERS or ((fl[0] in OWNED or any(owner_is_workspace(P, f, i) for i in l if i.op == "store")) and saved_here(P, f, fl, l)):
                for i in l:
                    sitemap[i.id] = fl
        glob = {}
        for i in f.instrs():
            if i.op == "store" and isinstance(i.ops[1], dict) and "g" in i.ops[1] and not i.ops[1].get("off"):
                glob.setdefault(i.ops[1]["g"], []).append(i)
        glob = {g for g, l in glob.items() if gsaved(f, g, l)}
        what = set(sitemap.values()) | glob
        if any(scope_call(P, f, c) for c in f.calls()):
            what.add("local scope")
        if calls_to(P, f, {"log_set_prefix"}):
            what.add("log prefix")
        cd = {c.id: chdir_kind(P, f, c) for c in calls_to(P, f, {"path_chdir", "chdir"})} if f.cname not in CHDIR_CALLERS else {}
        if cd:
            what.add("working directory")
        if not what:
            continue
        R.fn(f.name)
        s = Ctx(P, f, M, sitemap, glob, cd)
        s.run(frozenset(), {})
        for w in sorted(what, key=str):
            nm = w.split("@")[0] if isinstance(w, str) else ".".join(w)
            done.add(nm)
            R.rule(*RULES["dir" if nm == "working directory" else "cnt" if w in COUNTERS or nm == "local scope" else "ctx"])
            bad = [p for st, p in s.rets if any(x[0] == w for x in st)]
            R.check(not bad, "restore:%s@%s" % (nm, f.cname), f.loc(), "%s changes the %s and does not restore it on a path to its return" % (f.cname, nm), bad[0] if bad else None)
    for need in ("workspace.cur_project", "workspace.src", "workspace.ast", "project.scope_stack", "project.cwd", "project.build_dir", "local scope", "workspace.loop_depth"):
        if need not in done:
            raise AnalysisBroken("nothing changes %s any more" % need)
