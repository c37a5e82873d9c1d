"""Staged installation (C28)."""
from rules import prop
from rules.r_errprop import model
from rules.r_index import bounds
from rules.r_wrap import root
from rulelib import Paths, callee_in
from sim import NZ
from prog import vid, kint, isnull, cstr, AnalysisBroken

DEST = {"fs_mkdir": 0, "fs_mkdir_p": 0, "fs_copy_file": 1, "fs_copy_dir": 1, "fs_make_symlink": 1, "fs_chmod": 0, "fix_rpaths": 0, "fs_write": 0,
        "fs_remove": 0, "fs_rmdir": 0, "fs_copy_metadata": 1, "fs_make_writeable_if_exists": 0, "remove": 0, "unlink": 0, "mkdir": 0, "rename": 1,
        "chmod": 0, "lchown": 0, "chown": 0, "symlink": 1, "link": 1, "truncate": 0, "creat": 0}
# functions that build a path into their second operand
JOINS = {"path_join_absolute": "prefix", "path_join": "first", "path_copy": "only", "path_make_absolute": "only", "path_dirname": "only", "path_push": "push",
         "path_without_ext": "only", "path_executable": "only", "sbuf_pushs": "push", "sbuf_pushf": "push", "sbuf_push": "char", "sbuf_pushn": "push",
         "sbuf_init": "char", "sbuf_clear": "char", "path_relative_to": "other", "path_basename": "other", "sbuf_into_str": "char", "_path_normalize": "char", "sbuf_destroy": "char"}
WRAPPERS = ("get_cstr", "get_str", "sbuf_into_str", "make_str", "str_clone")


class Origin:
    """What a path is made of, given that a staging directory is set."""

    def __init__(self, P):
        self.P = P
        self.B = bounds(P)
        self.busy = set()
        self.deadc = {}

    def cname(self, c):
        return self.P.funcs[c.callee].cname if c.callee in self.P.funcs else (c.callee or "")

    def livef(self, f):
        """Blocks and edges that can run when the staging directory is set."""
        if f.name not in self.deadc:
            dead = set()
            for b in self.B.cfg(f).num:
                t = f.blocks[b][-1]
                if t.op == "br" and len(t.d["succ"]) == 2:
                    r = self.isset(f, t.ops[0], True)
                    if r is not None:
                        dead.add((b, t.d["succ"][1 if r else 0]))
            seen, st = set(), [0]
            while st:
                b = st.pop()
                if b in seen:
                    continue
                seen.add(b)
                st += [s for s in self.B.cfg(f).succs[b] if (b, s) not in dead]
            self.deadc[f.name] = (seen, dead)
        return self.deadc[f.name]

    def isset(self, f, o, t, depth=0):
        """Value of a condition on the staging directory being set."""
        v = vid(o)
        if v is None or v in f.argids or depth > 8:
            return None
        i = f.defs[v]
        if i.op in ("zext", "trunc", "freeze"):
            return self.isset(f, i.ops[0], t, depth + 1)
        if i.op == "xor" and kint(i.ops[1]) in (1, -1):
            return self.isset(f, i.ops[0], not t, depth + 1)
        if i.op == "icmp" and (kint(i.ops[1]) == 0 or isnull(i.ops[1])) and i.d["pred"] in ("ne", "eq"):
            return self.isset(f, i.ops[0], t if i.d["pred"] == "ne" else not t, depth + 1)
        if i.op == "load":
            fl = self.P.field(f, i.ops[0])
            return t if fl and fl[1] == "destdir" else None
        return None

    def of(self, f, o, depth=0):
        """Set of: prefixed, destdir, const, (struct, member), what."""
        if isinstance(o, dict) and ("str" in o or "null" in o):
            return {"const"}
        if kint(o) is not None:
            return {"const"}
        v = vid(o)
        if v is None:
            return {"other"}
        key = (f.name, v)
        if key in self.busy:
            return set()
        if depth > 40:
            return {"other"}
        self.busy.add(key)
        try:
            return self.of_(f, v, depth)
        finally:
            self.busy.discard(key)

    def of_(self, f, v, depth):
        P = self.P
        if v in f.argids:
            k = f.argids.index(v)
            out = set()
            cs = P.callers().get(f.name, ())
            for c in cs:
                if k < len(c.ops) and c.bb in self.livef(c.fn)[0]:
                    out |= self.of(c.fn, c.ops[k], depth + 1)
            return out or {"argument"}
        i = f.defs[v]
        live, dead = self.livef(f)
        if i.op == "phi":
            out = set()
            for x, p in i.ops:
                if p in live and (p, i.bb) not in dead:
                    out |= self.of(f, x, depth + 1)
            return out
        if i.op == "select":
            r = self.isset(f, i.ops[0], True)
            out = set()
            if r is not False:
                out |= self.of(f, i.ops[1], depth + 1)
            if r is not True:
                out |= self.of(f, i.ops[2], depth + 1)
            return out
        if i.op in ("bitcast", "freeze"):
            return self.of(f, i.ops[0], depth + 1)
        if i.op == "getelementptr":
            r = root(f, {"v": v})
            if r is not None and r not in f.argids and f.defs[r].op == "alloca":
                return self.buffer(f, r, depth)
            return {"other"}
        if i.op == "alloca":
            return self.buffer(f, v, depth)
        if i.op == "load":
            a = i.ops[0]
            r = root(f, a)
            fl = P.field(f, a)
            if r is not None and r not in f.argids and f.defs[r].op == "alloca" and (f.defs[r].d.get("dt") or "").startswith("struct sbuf"):
                return self.buffer(f, r, depth)
            if fl and fl[1] == "destdir":
                return {"destdir"}
            if r is not None and r not in f.argids and f.defs[r].op == "alloca":
                # a local or a member of a local structure
                out = set()
                for s in f.instrs():
                    if s.op == "store" and root(f, s.ops[1]) == r and s.bb in live and (P.field(f, s.ops[1]) == fl):
                        out |= self.of(f, s.ops[0], depth + 1)
                if out:
                    return out
            if fl and fl[0].endswith("_ctx"):
                # handed through a context structure: everything ever stored there
                out = set()
                for g in P.funcs.values():
                    for s in g.instrs():
                        if s.op == "store" and P.field(g, s.ops[1]) == fl and kint(s.ops[0]) != 0 and not isnull(s.ops[0]) and s.bb in self.livef(g)[0]:
                            out |= self.of(g, s.ops[0], depth + 1)
                return out or {fl}
            return {fl} if fl else {"other"}
        if i.op == "call":
            n = self.cname(i)
            if n in WRAPPERS:
                o = i.ops[1] if len(i.ops) > 1 else i.ops[0]
                return self.of(f, o, depth + 1)
            return {"result of " + n}
        return {"other"}

    def buffer(self, f, a, depth):
        """What a local string builder is filled with."""
        out, any_ = set(), False
        live, _ = self.livef(f)
        for c in f.calls():
            if c.bb not in live:
                continue
            n = self.cname(c)
            pos = [k for k, o in enumerate(c.ops) if vid(o) == a]
            if not pos or n.startswith("llvm."):
                continue
            kind = JOINS.get(n)
            if kind == "char":
                continue
            any_ = True
            if kind is None or pos != [1]:
                if n in ("get_cstr",):
                    continue
                out.add("filled by " + n)
                continue
            if kind == "prefix":
                p = self.of(f, c.ops[2], depth + 1)
                out |= {"prefixed"} if p <= {"destdir", "prefixed"} and p else p | {"other"}
            elif kind == "first":
                out |= self.of(f, c.ops[2], depth + 1)
                if isinstance(c.ops[3], dict) and (cstr(c.ops[3]) or "x").startswith("/"):
                    out.add("const")
            elif kind == "only":
                out |= self.of(f, c.ops[2], depth + 1)
            elif kind == "push":
                if len(c.ops) > 2 and n == "path_push" and (cstr(c.ops[2]) or "x").startswith("/"):
                    out.add("const")
            else:
                out.add("filled by " + n)
        return out or (set() if any_ else {"nothing"})


@prop("C28")
def staged(P, R):
    roots = [f for f in P.funcs.values() if any(i.op == "load" and P.field(f, i.ops[0]) == ("install_options", "destdir") for i in f.instrs())]
    if not roots:
        raise AnalysisBroken("nothing reads the staging directory")
    O = Origin(P)
    sc = P.reach([f.name for f in roots])
    fns = [f for n in sc for f in [P.funcs.get(n)] if f is not None and f.file == roots[0].file]
    R.rule("staged", "every path that installation creates or changes is, when a staging directory is set, one computed by appending the destination to it")
    n = 0
    for f in sorted(fns, key=lambda f: f.line):
        R.fn(f.name)
        live, _ = O.livef(f)
        for c in f.calls():
            k = DEST.get(O.cname(c))
            w = None
            if O.cname(c) in ("fs_fopen", "fopen") and not (cstr(c.ops[1]) or "w").startswith("r"):
                k = 0
            if k is None or c.bb not in live:
                continue
            n += 1
            w = O.of(f, c.ops[k])
            bad = sorted(str(x) for x in w - {"prefixed"})
            R.check(bool(w) and not bad, "dest@%s:%s" % (f.cname, O.cname(c)), c.where(), "%s works on a path that is not below the staging directory (%s)" % (O.cname(c), bad[0] if bad else "unknown"))
    R.check(n >= 1, "dest@" + roots[0].cname, roots[0].loc(), "nothing is installed")
    M = model(P)
    R.rule("carried", "a staging directory given by the user is in effect before anything is installed, and is told to the install scripts")
    for f in roots:
        def ev(i, s, env):
            if i.op == "store":
                fl = P.field(f, i.ops[1])
                if fl and fl[1] == "destdir" and fl[0] != "install_options":
                    if kint(i.ops[0]) == 0 or isnull(i.ops[0]):
                        return "-set"
                    return "set"
                return None
            if callee_in(P, i, {"obj_array_foreach"}):
                return "go"
            return None
        s = Paths(P, f, M, assume={("install_options", "destdir"): NZ}, events=ev).go()
        R.fn(f.name)
        hits = [(i, st, p) for i in f.calls() if callee_in(P, i, {"obj_array_foreach"}) for st, p in s.hits.get(i.id, [])]
        bad = [p for i, st, p in hits if "set" not in st]
        R.check(bool(hits) and not bad, "set@" + f.cname, f.loc(), "installs without the staging directory that was asked for", bad[0] if bad else None)
        for i in f.instrs():
            if i.op == "store":
                fl = P.field(f, i.ops[1])
                if fl and fl[1] == "destdir" and fl[0] != "install_options" and not (kint(i.ops[0]) == 0) and i.bb in O.livef(f)[0]:
                    w = O.of(f, i.ops[0])
                    R.check(w == {"destdir"}, "value@" + f.cname, i.where(), "the staging directory in effect is not the one that was asked for (%s)" % sorted(map(str, w)))
    for f in fns:
        runs = [c for c in f.calls() if callee_in(P, c, {"run_cmd", "run_cmd_argv"})]
        if not runs:
            continue

        def key(c):
            d = f.defs.get(vid(c.ops[2])) if vid(c.ops[2]) is not None else None
            return cstr(d.ops[1]) if d is not None and d.op == "call" and len(d.ops) > 1 else None

        def ev2(i, s, env):
            if callee_in(P, i, {"obj_dict_set"}):
                k = key(i)
                if k == "DESTDIR" and O.of(f, i.ops[3]) <= {"destdir"}:
                    return "DESTDIR"
                if k == "MESON_INSTALL_DESTDIR_PREFIX" and O.of(f, i.ops[3]) <= {"prefixed"}:
                    return "DDP"
                if k == "MESON_INSTALL_PREFIX":
                    return "PREFIX"
                return None
            return "run" if i in runs else None
        loads = lambda i, s: NZ if (P.field(f, i.ops[0]) or ("", ""))[1] == "destdir" else None
        s = Paths(P, f, M, events=ev2, loads=loads).go()
        for want, txt in (("DESTDIR", "DESTDIR"), ("DDP", "MESON_INSTALL_DESTDIR_PREFIX"), ("PREFIX", "MESON_INSTALL_PREFIX")):
            bad = [p for c in runs for st, p in s.hits.get(c.id, []) if want not in st]
            R.check(not bad, "env:%s@%s" % (txt, f.cname), f.loc(), "an install script is run without the right %s" % txt, bad[0] if bad else None)
    R.rule("asked", "the staging directory comes from the option and, without it, from the environment")
    for f in P.funcs.values():
        calls = [c for c in f.calls() if c.callee in {r.name for r in roots}]
        if not calls:
            continue
        R.fn(f.name)
        src = set()
        for i in f.instrs():
            if i.op == "store" and P.field(f, i.ops[1]) == ("install_options", "destdir"):
                v = vid(i.ops[0])
                d = f.defs.get(v) if v is not None and v not in f.argids else None
                if d is not None and d.op == "call" and d.callee == "getenv" and cstr(d.ops[0]) == "DESTDIR":
                    src.add("env")
                elif d is not None and d.op == "load" and isinstance(d.ops[0], dict) and d.ops[0].get("g", "").split("@")[0] == "optarg":
                    src.add("opt")
                else:
                    src.add("other")
        for k, t in (("env", "the environment variable DESTDIR"), ("opt", "the option for the staging directory")):
            R.check(k in src, "%s@%s" % (k, f.cname), f.loc(), "%s has no effect" % t)
    # the join itself
    R.rule("join", "joining an absolute path below a directory keeps the directory in front")
    f = next((f for f in P.funcs.values() if f.cname == "path_join_absolute"), None)
    if f is None:
        raise AnalysisBroken("path_join_absolute")
    R.fn(f.name)
    a, b, sb = f.argids[2], f.argids[3], f.argids[1]

    def ev3(i, s, env):
        if i.op != "call":
            return None
        n = O.cname(i)
        if n in ("path_copy", "path_make_absolute") and vid(i.ops[1]) == sb:
            return {"first" if vid(i.ops[2]) == a else "-first", "-second"}
        if n in ("sbuf_pushs", "sbuf_pushf", "sbuf_pushn") and vid(i.ops[1]) == sb:
            out = set()
            if any(vid(o) == a for o in i.ops[2:]):
                out.add("first")
            if any(vid(o) == b for o in i.ops[2:]):
                out.add("second")
            return out
        if n == "path_push" and vid(i.ops[1]) == sb:
            return {"-first"} if vid(i.ops[2]) == b else {"first"}
        if n == "path_join" and vid(i.ops[1]) == sb:
            return {"-first", "-second"}
        if n == "sbuf_clear":
            return {"-first", "-second"}
        return None
    s = Paths(P, f, M, events=ev3).go()
    bad = [r for r in s.rets if not {"first", "second"} <= r[1]]
    R.check(bool(s.rets) and not bad, "join@" + f.cname, f.loc(), "the joined path does not start with the directory", bad[0][2] if bad else None)
