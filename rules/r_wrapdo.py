"""Wrapped subprojects: success means every step was carried out, whatever the wrap file contains."""
from rules import prop
from rules.r_errprop import model
from rules.r_samu import const
from rules.r_wrap import wrapfield, root, strip
from rulelib import Paths, Outcomes, callee_in, is_fail
from prog import AnalysisBroken, kint, vid, cstr, isnull
from sim import NZ

FILES = ("src/wrap.c",)
FIELDS = ("wf_directory wf_patch_url wf_patch_filename wf_patch_hash wf_patch_directory wf_diff_files wf_source_url wf_source_filename "
          "wf_source_hash wf_lead_directory_missing wf_url wf_revision wf_depth wf_push_url wf_clone_recursive").split()
GET = {"muon_archive_extract", "fs_copy_dir"}
RUN = {"run_cmd", "run_cmd_argv"}


def strings_in(P, f, c):
    """Constant strings in the arrays a call hands over."""
    roots = {root(f, strip(f, o)) for o in c.ops if vid(o) is not None}
    out = {cstr(o) for o in c.ops if cstr(o)}
    for i in f.instrs():
        if i.op == "store" and cstr(i.ops[0]) and root(f, i.ops[1]) in roots:
            out.add(cstr(i.ops[0]))
    for o in c.ops:
        # constant array, copied or used in place
        for r in roots:
            for m in f.calls():
                if m.callee and m.callee.startswith("llvm.memcpy") and root(f, m.ops[0]) == r and isinstance(m.ops[1], dict) and "g" in m.ops[1]:
                    out |= gstrings(P, m.ops[1]["g"])
        if isinstance(o, dict) and "g" in o:
            out |= gstrings(P, o["g"])
    return out


def gstrings(P, g):
    g = P.globals.get(g)
    if not g:
        return set()
    return {cstr(v) for _, _, v in P.init_leaves(g) if cstr(v)}


def runs(P):
    """Functions a command line is handed to, that end in starting it."""
    k = P.__dict__.get("_runners")
    if k is None:
        k = set()
        for n in RUN:
            for f in P.bycname.get(n, ()):
                k.add(f.name)
                k |= {c.fn.name for c in P.callers().get(f.name, ()) if c.fn.file in FILES}
        P._runners = k
    return k


def fieldloads(state):
    def loads(i, s):
        k = wrapfield(s.P, s.f, {"v": i.id})
        return state.get(k) if k is not None else None
    return loads


def about(P, f, o, text):
    """Is the argument the content of a buffer a constant was put into (a path that ends in the constant)?"""
    d = f.defs.get(vid(o)) if vid(o) is not None else None
    r = root(f, d.ops[0]) if d is not None and d.op == "load" else root(f, o)
    for c in f.calls():
        if any(cstr(x) == text for x in c.ops) and any(root(f, x) == r for x in c.ops if vid(x) is not None):
            return True
    return False


def prim(P, existing=0, local=None):
    rn = runs(P)

    def p(i, s, env):
        n = i.callee
        if n in rn and n in P.funcs:
            a = strings_in(P, s.f, i)
            l = ("clone" if "clone" in a else "checkout" if "checkout" in a else "diff" if a & {"patch", "apply"} else None)
            if l:
                return [(1, l), (0,)]
        if callee_in(P, i, GET):
            return [(1, "got2" if "got" in s.cur else "got"), (0,)]
        if callee_in(P, i, {"fs_file_exists"}):
            if about(P, s.f, i.ops[0], "meson.build"):
                return [existing]
            return [(1, "local"), 0] if local is None else [local]
        if callee_in(P, i, {"fs_dir_exists", "fs_mkdir", "fs_has_cmd", "fs_read_entire_file"}):
            return [1, 0]
        return None
    return p


def scope(f):
    return f.file in FILES


@prop("C30")
def wraps(P, R):
    M = model(P)
    wf = {n: const(P, n) for n in FIELDS}
    FILE, GIT = const(P, "wrap_type_file"), const(P, "wrap_type_git")
    h = P.fn("wrap_handle")
    TYPE = ("wrap", "type")

    def state(**kw):
        st = {v: 0 for v in wf.values()}
        for k, v in kw.items():
            st[wf["wf_" + k]] = v
        return st
    R.rule("steps", "handling a wrap succeeds only when every step its fields call for was carried out (or the subproject was already there)")
    FILEF = dict(source_filename=NZ, source_url=NZ, source_hash=NZ)
    cases = [
        ("file", FILE, dict(FILEF), {"got"}, "nothing was extracted or copied"),
        ("file-local", FILE, dict(source_filename=NZ), {"got"}, "nothing was extracted or copied"),
        ("file-lead", FILE, dict(FILEF, lead_directory_missing=NZ), {"got"}, "nothing was extracted or copied"),
        ("file-patch", FILE, dict(FILEF, patch_filename=NZ, patch_url=NZ, patch_hash=NZ), {"got", "got2"}, "the patch archive was not extracted"),
        ("file-patch-local", FILE, dict(FILEF, patch_filename=NZ), {"got", "got2"}, "the patch archive was not extracted"),
        ("file-patch-dir", FILE, dict(FILEF, patch_directory=NZ), {"got", "got2"}, "the patch directory was not copied"),
        ("file-diff", FILE, dict(FILEF, diff_files=NZ), {"got", "diff"}, "a diff was not applied"),
        ("file-patch-diff", FILE, dict(FILEF, patch_directory=NZ, diff_files=NZ), {"got", "got2", "diff"}, "a patch or diff was not applied"),
        ("git", GIT, dict(url=NZ, revision=NZ), {"clone", "checkout"}, "the repository was not cloned, or the revision not checked out"),
        ("git-depth", GIT, dict(url=NZ, revision=NZ, depth=NZ, clone_recursive=NZ, push_url=NZ), {"clone", "checkout"}, "the repository was not cloned, or the revision not checked out"),
        ("git-patch", GIT, dict(url=NZ, revision=NZ, patch_directory=NZ), {"clone", "checkout", "got"}, "the patch was not applied"),
        ("git-diff", GIT, dict(url=NZ, revision=NZ, diff_files=NZ), {"clone", "checkout", "diff"}, "a diff was not applied"),
    ]
    for nm, ty, fields, need, why in cases:
        O = Outcomes(P, M, scope, prim(P), loads=fieldloads(state(**fields)), assume={TYPE: ty, ("run_cmd_ctx", "status"): 0}, count={"got"})
        out = O.of(h.name)
        good = [(v, l) for v, l in out if not is_fail(M, h, v)]
        bad = [(v, l) for v, l in good if not need <= l]
        R.fn(*O.fns)
        R.check(bool(good) and not bad, "steps-%s" % nm, h.loc(), ("a wrap counts as handled although " + why) if good else "a wrap of this kind is never handled (%s)" % nm, out[bad[0]] if bad else None)
    R.rule("present", "a subproject that is already there is not fetched again")
    O = Outcomes(P, M, scope, prim(P, existing=1), loads=fieldloads(state(**FILEF)), assume={TYPE: FILE, ("run_cmd_ctx", "status"): 0})
    out = O.of(h.name)
    bad = [(v, l) for v, l in out if {"got", "clone", "diff"} & l]
    R.check(not bad, "present", h.loc(), "a subproject that is already there is fetched again", out[bad[0]] if bad else None)

    R.rule("all-diffs", "the list of diffs is left only at its end")
    n = 0
    for f in P.funcs.values():
        if f.file not in FILES:
            continue
        ds = [i for i in f.instrs() if i.op == "load" and wrapfield(P, f, {"v": i.id}) == wf["wf_diff_files"]]
        if not ds or not any(i.op == "load" and i.ty == "i8" and P.field(f, i.ops[0]) is None for i in f.instrs()):
            continue
        n += 1
        R.fn(f.name)
        s = Paths(P, f, M, loads=lambda i, s: (44 if i.ty == "i8" and s.P.field(s.f, i.ops[0]) is None and not isalloca(s.f, i.ops[0]) else
                                               NZ if i in ds else None)).go()
        bad = [r for r in s.rets if not is_fail(M, f, r[0])]
        R.check(not bad, "all-diffs@%s" % f.cname, f.loc(), "the list of diffs is left although more follow", bad[0][2] if bad else None)
    if not n:
        raise AnalysisBroken("the list of diffs is not read")

    R.rule("absent-field", "a field that a wrap file may leave out is not used as if it were there")
    req = required(P, M, TYPE, {"file": FILE, "git": GIT}, wf)
    seen = set()
    for tn, ty in (("file", FILE), ("git", GIT)):
        for k, ix in sorted(wf.items()):
            if ix in req[tn]:
                R.check(True, "required-%s-%s" % (tn, k), h.loc(), "")
                continue
            found = []
            base = prim(P)

            def pr(i, s, env):
                g = P.funcs.get(i.callee)
                if i.callee and not (g is not None and scope(g) and g.name not in runs(P)):
                    for j, o in enumerate(i.ops):
                        if vid(o) is not None and s.ev(o, env) == 0 and j not in () and needs(P, M, i.callee, j):
                            found.append((i, s.path(s.node)))
                return base(i, s, env)
            O = Outcomes(P, M, scope, pr, loads=fieldloads({ix: 0}), assume={TYPE: ty, ("run_cmd_ctx", "status"): 0})
            O.of(h.name)
            R.fn(*O.fns)
            i, p = found[0] if found else (None, None)
            R.check(not found, "absent-%s-%s" % (tn, k), i.where() if i else h.loc(),
                    "%s: the field %s may be missing, but is used" % (i.fn.cname if i else "", k[3:]), p)

    R.rule("subproject", "a required subproject that could not be prepared is an error, an optional one is not found")
    n = 0
    for c in P.callers().get(h.name, ()):
        f = c.fn
        bools = [k for k in range(len(f.argids)) if f.ditypes[k + 1] in ("_Bool", "bool")]
        outs = [f.argids[k] for k in range(len(f.argids)) if f.ditypes[k + 1] in ("_Bool *", "bool *")]
        if f.rettype() not in ("_Bool", "bool") or len(bools) != 1 or len(outs) != 1:
            continue
        n += 1
        R.fn(f.name)
        for nm, d, w, hd, mb in (("no-wrap", 0, 0, 0, 0), ("wrap-failed", 0, 1, 0, 0), ("wrap-failed-left", 0, 1, 0, 1), ("no-build-file", 1, 1, 1, 0), ("fetched-no-build-file", 0, 1, 1, 0)):
            def results(i):
                if callee_in(P, i, {"fs_dir_exists"}):
                    return [d]
                if callee_in(P, i, {"fs_file_exists"}):
                    return [mb if about(P, f, i.ops[0], "meson.build") else w]
                if callee_in(P, i, {h.cname}):
                    return [hd]
                return None

            def ev(i, s, env):
                if i.op == "store" and vid(i.ops[1]) in outs:
                    return "found" if s.ev(i.ops[0], env) != 0 else ["-found", "notfound"]
                return None
            s = Paths(P, f, M, assume={("arg", bools[0]): 1}, results=results, events=ev).go()
            bad = [r for r in s.rets if not is_fail(M, f, r[0])]
            R.check(bool(s.rets) and not bad, "required-%s@%s" % (nm, f.cname), f.loc(), "a required subproject counts as found (%s)" % nm, bad[0][2] if bad else None)
            s = Paths(P, f, M, assume={("arg", bools[0]): 0}, results=results, events=ev).go()
            bad = [r for r in s.rets if not is_fail(M, f, r[0]) and ("notfound" not in r[1] or "found" in r[1])]
            R.check(bool(s.rets) and not bad, "optional-%s@%s" % (nm, f.cname), f.loc(), "an optional subproject counts as found (%s)" % nm, bad[0][2] if bad else None)
    R.note = n


def isalloca(f, o):
    v = vid(o)
    while v is not None and v not in f.argids:
        d = f.defs[v]
        if d.op == "alloca":
            return True
        if d.op != "getelementptr":
            return False
        v = vid(d.d["base"])
    return False


def required(P, M, TYPE, types, wf):
    """Fields without which validation fails, per kind of wrap."""
    out = {t: set() for t in types}
    for f in P.funcs.values():
        if f.file not in FILES or f.rettype() not in ("_Bool", "bool"):
            continue
        arr = [i for i in f.instrs() if i.op == "store" and isalloca(f, i.ops[1]) and kint(i.ops[0]) is not None and index(f, i.ops[1]) is not None]
        if len(arr) < 5 or not any(P.field(f, i.ops[0]) == TYPE for i in f.instrs() if i.op == "load"):
            continue
        back = {v: k for k, v in wf.items()}

        def ev(i, s, env):
            if i in arr:
                k = index(f, i.ops[1])
                return ("" if kint(i.ops[0]) == 1 else "-") + "r%d" % k
            return None
        for t, v in types.items():
            s = Paths(P, f, M, assume={TYPE: v}, events=ev).go()
            oks = [r[1] for r in s.rets if not is_fail(M, f, r[0])]
            if oks:
                out[t] |= {k for k in back if all("r%d" % k in l for l in oks)}
    return out


def index(f, o):
    d = f.defs.get(vid(o)) if vid(o) is not None else None
    if d is None or d.op != "getelementptr":
        return None
    st = d.steps[-1]
    return kint(st["idx"]) if "idx" in st else None


NONNULL = {"strlen": (0,), "strcmp": (0, 1), "strncmp": (0, 1), "strchr": (0,), "strrchr": (0,), "strspn": (0,), "strcspn": (0,), "strstr": (0, 1),
           "fopen": (0,), "open": (0,), "stat": (0,), "stat64": (0,), "access": (0,), "opendir": (0,), "mkdir": (0,), "memcmp": (0, 1)}


def needs(P, M, name, k, depth=0):
    """May the function use its k-th argument as the address of something, when it is NULL?"""
    memo = P.__dict__.setdefault("_needs", {})
    if (name, k) in memo:
        return memo[(name, k)]
    f = P.funcs.get(name)
    if f is None:
        r = k in NONNULL.get(name, ())
        memo[(name, k)] = r
        return r
    memo[(name, k)] = False
    if depth > 6 or k >= len(f.argids):
        return False
    a = f.argids[k]

    def ev(i, s, env):
        if i.op in ("load", "store"):
            o = i.ops[0] if i.op == "load" else i.ops[1]
            if root(f, o) == a:
                return "hit"
        if i.op == "call":
            for j, o in enumerate(i.ops):
                if vid(o) == a and i.callee and needs(P, M, i.callee, j, depth + 1):
                    return "hit"
        return None
    s = Paths(P, f, M, assume={("arg", k): 0}, events=ev).go()
    memo[(name, k)] = bool(s.hits)
    return memo[(name, k)]
