"""An operation that reports success has been carried out (C01), and iterations visit everything and stop at errors (C01, C06)."""
from rules import prop
from rules.r_errprop import model, QUERIES
from rules.r_samu import const
from rulelib import Paths, callee_in, is_fail, reach_under
from prog import AnalysisBroken, kint, vid, fnname
from sim import NZ

ERR, CONT, DONE = 0, 1, 2
ITER = "enum iteration_result"


def iterators(P):
    """[(function, [callback calls])]: the functions that hand items to a callback."""
    if hasattr(P, "_iterators"):
        return P._iterators
    out = []
    handed = {}
    for f in P.funcs.values():
        for c in f.calls():
            if c.callee in P.cbparam:
                for k in P.cbparam[c.callee]:
                    if k < len(c.ops):
                        handed.setdefault((c.callee, k), set()).update(P.fvalue_targets(f, c.ops[k]))
    types = {}
    for (n, k), ts in handed.items():
        f = P.funcs.get(n)
        if f is not None:
            types.setdefault(f.ditypes[k + 1], set()).update(t for t in ts if t in P.funcs)
    iters = {dt for dt, ts in types.items() if ts and all(P.funcs[t].rettype() == ITER for t in ts)}
    for f in sorted(P.funcs.values(), key=lambda f: (f.file, f.line)):
        cs = []
        for c in f.calls():
            if c.callee or c.ty != "i32":
                continue
            v = vid(c.fptr)
            if v in f.argids:
                dt = f.ditypes[f.argids.index(v) + 1]
            else:
                d = f.defs.get(v)
                fl = P.field(f, d.ops[0]) if d is not None and d.op == "load" else None
                dt = P.fieldtype(*fl) if fl else None
            if dt in iters:
                cs.append(c)
        if cs:
            out.append((f, cs))
    P._iterators = out
    return out


def callbacks(P, within, prims):
    """Functions handed as callbacks to one of the primitives, called in one of the functions named."""
    out = set()
    for n in within:
        f = P.funcs.get(n)
        if f is None:
            continue
        for c in f.calls():
            g = P.funcs.get(c.callee)
            if (g.cname if g is not None else c.callee) not in prims:
                continue
            for o in c.ops:
                t = fnname(o)
                if t in P.funcs:
                    out.add(t)
    return out


def iteration(P, R, only=None):
    M = model(P)
    R.rule("iteration-error", "an iteration whose callback reports an error is a failure (or hands the error on)")
    R.rule("iteration-all", "an iteration ends early only when its callback says so: while items are left the next one is visited")
    n = 0
    for f, cs in iterators(P):
        if only is not None and f.name not in only:
            continue
        if f.rettype() not in ("_Bool", ITER, "bool"):
            continue
        R.fn(f.name)
        n += 1
        ids = {c.id for c in cs}

        def res(v, lab):
            return lambda i: [(v, lab)] if i.id in ids else None
        R.cur = R.rules["iteration-error"]
        s = Paths(P, f, M, results=res(ERR, "err")).go()
        bad = [r for r in s.rets if "err" in r[1] and r[0] != 0]
        R.check(not bad, "error@%s" % f.cname, f.loc(), "%s succeeds although the callback failed" % f.cname, bad[0][2] if bad else None)
        R.cur = R.rules["iteration-all"]
        s = Paths(P, f, M, results=res(CONT, "cont"), assume={("obj_array", "have_next"): 1, ("obj_array", "len"): NZ}).go()
        if any(k == ("obj_array", "have_next") for k in s.used):
            bad = [r for r in s.rets if not is_fail(M, f, r[0])]
            R.check(not bad, "all@%s" % f.cname, f.loc(), "%s ends although the array has a next element" % f.cname, bad[0][2] if bad else None)
        for st in ("obj_array", "obj_dict"):
            s = Paths(P, f, M, results=res(CONT, "cont"), assume={(st, "len"): NZ}).go()
            if (st, "len") in s.used and st == "obj_array":
                bad = [r for r in s.rets if "cont" not in r[1] and not is_fail(M, f, r[0])]
                R.check(not bad, "some@%s" % f.cname, f.loc(), "%s succeeds without visiting the elements of a non-empty container" % f.cname, bad[0][2] if bad else None)
        # a directory: every entry until readdir has no more
        if any(c.callee in ("readdir", "readdir64") for c in f.calls()):
            def results(i):
                if i.id in ids:
                    return [(CONT,)]
                if i.callee in ("readdir", "readdir64"):
                    return [(NZ, "entry"), (0, "end")]
                return None
            s = Paths(P, f, M, results=results).go()
            bad = [r for r in s.rets if "end" not in r[1] and not is_fail(M, f, r[0])]
            R.check(not bad, "dir@%s" % f.cname, f.loc(), "%s succeeds before the directory's entries are exhausted" % f.cname, bad[0][2] if bad else None)
            # the end of the entries and an error of the system look alike
            def ev(i, s, env):
                if i.op == "load" and vid(i.ops[0]) in f.defs:
                    d = f.defs[vid(i.ops[0])]
                    if d.op == "call" and d.callee == "__errno_location":
                        return {"errno"}
                return None
            seen = Paths(P, f, M, results=results, events=ev).go()
            bad = [r for r in seen.rets if "end" in r[1] and "errno" not in r[1] and not is_fail(M, f, r[0])]
            R.check(not bad, "readdir@%s" % f.cname, f.loc(), "%s takes an error of readdir for the end of the directory" % f.cname, bad[0][2] if bad else None)
    if not n:
        raise AnalysisBroken("no iteration over callbacks found")


@prop("C06")
def iteration06(P, R):
    iteration(P, R)


# operation: (the calls that carry it out, what else justifies its success)
DONE_BY = {
    "fs_mkdir": ({"mkdir", "mkdirat"}, {}),
    "fs_chmod": ({"chmod", "fchmodat", "fchmod"}, {}),
    "fs_remove": ({"remove", "unlink", "unlinkat", "rmdir"}, {}),
    "fs_make_symlink": ({"symlink", "symlinkat"}, {}),
    "fs_copy_link": ({"fs_make_symlink"}, {}),
    "fs_copy_dir": ({"fs_dir_foreach"}, {}),
    "fs_copy_file": ({"open", "openat", "fs_copy_link", "creat"}, {}),
    "fs_mkdir_p": ({"fs_mkdir"}, {"fs_dir_exists": 1}),
    "fs_fwrite": ({"fwrite"}, {}),
    "fs_write": ({"fs_fwrite"}, {}),
    "fs_fclose": ({"fclose"}, {}),
}
# calls reporting success with zero
ZERO = {"mkdir", "mkdirat", "chmod", "fchmodat", "fchmod", "remove", "unlink", "unlinkat", "rmdir", "symlink", "symlinkat", "fclose"}


def performed(P, R, names):
    M = model(P)
    R.rule("performed", "an operation on the file system succeeds only on paths that carried it out")
    for n in sorted(names):
        done, known = DONE_BY[n]
        for f in P.bycname.get(n, ()):
            R.fn(f.name)

            def results(i):
                if callee_in(P, i, done):
                    return [(0 if i.callee in ZERO else NZ if i.ty not in ("i1", "i8") else 1, "done")]
                for q, v in known.items():
                    if callee_in(P, i, {q}) and i.ops and vid(i.ops[0]) == f.argids[0]:
                        return [(v, "done"), (1 - v,)]
                return None
            size = {("arg", 1): NZ} if n == "fs_fwrite" else {}  # nothing to write otherwise
            s = Paths(P, f, M, results=results, assume=size).go()
            bad = [r for r in s.rets if "done" not in r[1] and not is_fail(M, f, r[0])]
            R.check(not bad, "performed@%s" % f.cname, f.loc(), "%s succeeds without %s" % (f.cname, "/".join(sorted(done))), bad[0][2] if bad else None)


IN = "obj_install_target"
OK = {"fs_copy_file": "copied", "fs_copy_dir": "copied", "fs_make_symlink": "linked", "fs_mkdir_p": "dir", "fs_mkdir": "dir", "fs_dir_foreach": "walked", "fs_chmod": "chmod", "fix_rpaths": "rpath"}


def succeed(P):
    def results(i):
        for n, l in OK.items():
            if callee_in(P, i, {n}):
                return [(1, l)]
        return None
    return results


@prop("C01")
def install(P, R):
    M = model(P)
    roots = [f for f in P.bycname.get("install_run", ())]
    if not roots:
        raise AnalysisBroken("install_run not found")
    seen, _, _ = reach_under(P, M, [f.name for f in roots], targets=lambda c, ts: ts if c.callee else [])
    work = {n for n in seen if n in P.funcs}
    while True:
        new = callbacks(P, work, {"obj_array_foreach", "fs_dir_foreach", "obj_dict_foreach", "obj_array_foreach_flat"}) - work
        if not new:
            break
        s2, _, _ = reach_under(P, M, sorted(new), targets=lambda c, ts: ts if c.callee else [])
        work |= {n for n in s2 if n in P.funcs} | new
    iteration(P, R, {f.name for f, _ in iterators(P)} & work | {f.name for n in ("obj_array_foreach", "fs_dir_foreach") for f in P.bycname.get(n, ())})
    performed(P, R, {n for n in DONE_BY if any(f.name in work for f in P.bycname.get(n, ()))})

    # the callback over the install targets: it reads the kind of the target
    itf = [P.funcs[n] for n in sorted(work) if any(i.op == "load" and P.field(P.funcs[n], i.ops[0]) == (IN, "type") for i in P.funcs[n].instrs())]
    itf = [f for f in itf if f.rettype() == ITER]
    if not itf:
        raise AnalysisBroken("no function carrying out install targets found")
    R.rule("item", "an install target counts as installed only when every operation its kind calls for was carried out")
    kinds = ("install_target_default", "install_target_subdir", "install_target_symlink", "install_target_emptydir")
    en = {k: P.enum(k) for k in kinds}
    for f in itf:
        R.fn(f.name)
        for kind, v in sorted(en.items()):
            for perm in (0, 1):
                for bt in (0, 1):
                    for opt in (0, 1):
                        base = succeed(P)

                        def results(i):
                            if callee_in(P, i, {"fs_exists"}):
                                return [(1, "exists"), (0, "missing")]
                            if callee_in(P, i, {"fs_dir_exists"}):
                                return [(1, "isdir"), (0, "nodir")]
                            return base(i)
                        s = Paths(P, f, M, results=results, assume={(IN, "type"): v, (IN, "has_perm"): perm, (IN, "build_target"): bt, (IN, "optional"): opt, ("install_options", "dry_run"): 0}).go()
                        if (IN, "type") not in s.used:
                            raise AnalysisBroken("%s does not read the kind of the target" % f.cname)
                        for val, st, path in s.rets:
                            if val == ERR:
                                continue
                            need = []
                            if opt and "missing" in st and not st & set(OK.values()):
                                need = []  # not built: skipped
                            elif kind == "install_target_default":
                                need = ["copied"] + (["rpath"] if bt else [])
                            elif kind == "install_target_symlink":
                                need = ["linked"]
                            elif kind == "install_target_subdir":
                                need = ["dir"] + ([] if "missing" in st else ["walked"])
                            elif kind == "install_target_emptydir":
                                need = ["dir"]
                            skipped = opt and "missing" in st and not st & set(OK.values())
                            if perm and not skipped:
                                need.append("chmod")
                            miss = [x for x in need if x not in st]
                            if f.rettype() == ITER:
                                R.check(val == CONT, "stop@%s:%s" % (f.cname, kind), f.loc(), "%s ends the installation before the remaining targets were installed" % f.cname, path)
                            R.check(not miss, "item@%s:%s:%s" % (f.cname, kind, "+".join(miss)), f.loc(), "%s (%s): success without %s" % (f.cname, kind, ", ".join(miss)), path)

    # trees: callbacks over the entries of a directory
    R.rule("entry", "an entry of an installed tree counts as installed only when it was excluded, or copied or walked, with its permissions set")
    walkers = [P.funcs[n] for n in sorted(callbacks(P, work, {"fs_dir_foreach"}))]
    if not walkers:
        raise AnalysisBroken("no callback over directory entries found")
    for f in walkers:
        R.fn(f.name)
        perms = {P.field(f, i.ops[0]) for i in f.instrs() if i.op == "load"}
        hp = [x for x in perms if x and x[1] == "has_perm"]
        for perm in (0, 1) if hp else (0,):
            base = succeed(P)

            def results(i):
                if callee_in(P, i, {"obj_array_in"}):
                    return [(1, "excluded"), (0,)]
                if callee_in(P, i, {"fs_dir_exists"}):
                    return [(1, "dir?"), (0,)]
                return base(i)
            s = Paths(P, f, M, results=results, assume={x: perm for x in hp}).go()
            for val, st, path in s.rets:
                if val == ERR:
                    continue
                R.check(val == CONT, "stop@%s" % f.cname, f.loc(), "%s leaves out the remaining entries" % f.cname, path)
                ok = "excluded" in st or "copied" in st or ("walked" in st and ("dir" in st or "dir?" in st))
                R.check(ok, "entry@%s" % f.cname, f.loc(), "%s: success although the entry was neither excluded nor copied" % f.cname, path)
                R.check(not perm or "chmod" in st or "excluded" in st, "mode@%s" % f.cname, f.loc(), "%s: success without setting the permissions" % f.cname, path)

    R.rule("whole", "the installation succeeds only after the targets and then the scripts were gone through")
    for f in roots:
        def results(i):
            if callee_in(P, i, {"obj_array_foreach", "obj_array_foreach_flat"}):
                fs = [fnname(o) for o in i.ops]
                for t in fs:
                    if t in P.funcs:
                        return [(1, "targets" if P.funcs[t] in itf else "scripts")]
            return None
        s = Paths(P, f, M, results=results, assume={}).go()
        for val, st, path in s.rets:
            if is_fail(M, f, val):
                continue
            R.check({"targets", "scripts"} <= st, "whole@%s" % f.cname, f.loc(), "%s succeeds without going through the targets and the scripts" % f.cname, path)
    R.rule("script", "an install script counts as run only when its command was run")
    sc = set()
    for f in roots:
        for n in work:
            for c in P.funcs[n].calls() if n in P.funcs else ():
                if callee_in(P, c, {"run_cmd", "run_cmd_argv"}) and P.funcs[n].rettype() == ITER:
                    sc.add(n)
    if not sc:
        raise AnalysisBroken("no function running install scripts found")
    for n in sorted(sc):
        f = P.funcs[n]
        R.fn(n)

        def results(i):
            if callee_in(P, i, {"run_cmd", "run_cmd_argv"}):
                return [(1, "ran")]
            return None
        s = Paths(P, f, M, results=results, assume={("install_options", "dry_run"): 0}).go()
        for val, st, path in s.rets:
            if val == ERR:
                continue
            R.check(val == CONT and "ran" in st, "script@%s" % f.cname, f.loc(), "%s succeeds without running the script" % f.cname, path)
