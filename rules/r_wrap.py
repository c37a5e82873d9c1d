"""Downloads: verification before use, containment of extraction."""
from rules import prop
from rules.r_errprop import model
from rules.r_samu import const, calls_to, unreachable_call
from rulelib import Paths, Outcomes, callee_in, is_fail
from prog import AnalysisBroken, kint, vid, cstr, isnull
from sim import NZ


def strip(f, o):
    """Look through casts."""
    while True:
        v = vid(o)
        d = f.defs.get(v) if v is not None and v not in f.argids else None
        if d is None or d.op not in ("bitcast", "zext", "sext", "trunc", "freeze"):
            return o
        o = d.ops[0]


def root(f, o):
    """The object an address is computed from: alloca or argument id."""
    v = vid(o)
    while v is not None and v not in f.argids:
        d = f.defs[v]
        if d.op == "getelementptr":
            v = vid(d.d["base"])
        elif d.op in ("bitcast", "freeze"):
            v = vid(d.ops[0])
        else:
            return v
    return v


def derived(f, o, pred, depth=0, seen=None):
    """Is a value computed (through loads, casts, arithmetic and calls) from an instruction satisfying pred?"""
    seen = set() if seen is None else seen
    v = vid(o)
    if v is None or v in f.argids or v in seen or depth > 12:
        return False
    seen.add(v)
    d = f.defs[v]
    if pred(d):
        return True
    if d.op in ("load", "zext", "sext", "trunc", "xor", "or", "and", "add", "sub", "bitcast", "freeze"):
        return any(derived(f, x, pred, depth + 1, seen) for x in d.ops)
    if d.op in ("phi", "select"):
        from prog import operands
        return any(derived(f, x, pred, depth + 1, seen) for x in operands(d))
    return False


@prop("C15")
def checksum(P, R):
    M = model(P)
    R.rule("verify-compares", "verification succeeds only if the recorded hash is complete and every byte of the data's hash equals it")
    vers = [f for f in P.funcs.values() if not f.file.startswith("src/sha") and f.rettype() == "_Bool" and calls_to(P, f, {"calc_sha_256"})
            and any(k + 1 < len(f.ditypes) and f.ditypes[k + 1] == "const char *" for k in range(len(f.argids)))
            and any(i.op == "call" and i.callee == "strtol" or callee_in(P, i, {"strtol", "strtoul", "memcmp", "sscanf", "snprintf"}) for i in f.calls())]
    vers = [f for f in vers if f.file == "src/wrap.c"]
    if not vers:
        raise AnalysisBroken("checksum verification not found")
    vnames = set()
    for f in vers:
        R.fn(f.name)
        vnames.add(f.cname)
        hashcalls = calls_to(P, f, {"calc_sha_256"})
        hroots = {root(f, c.ops[0]) for c in hashcalls}

        def cmpinstr(i):
            if i.op == "icmp":
                return any(derived(f, o, lambda d: d.op == "load" and root(f, d.ops[0]) in hroots) for o in i.ops)
            if i.op == "call" and i.callee in ("memcmp", "bcmp", "strncmp", "strcmp", "strcasecmp", "strncasecmp"):
                return any(root(f, o) in hroots for o in i.ops)
            return False
        cmps = [i for i in f.instrs() if cmpinstr(i)]
        if not cmps:
            R.check(False, "compare@%s" % f.cname, f.loc(), "the computed hash is never compared")
            continue

        class Cmp(Paths):
            match = False
            maxint = 160

            def evi(self, i, env):
                if i in cmps and i.op == "icmp":
                    return int((i.d["pred"] == "eq") == self.match)
                return super().evi(i, env)

        def run(match, length=64, digits=64):
            def results(i):
                if i in cmps:
                    return [0 if match else NZ]
                if i.callee == "strlen":
                    return [length]
                if i.callee in ("strspn",):
                    return [digits]
                if i.callee in ("isxdigit",):
                    return [NZ if digits == 64 else 0]
                return None

            def ev(i, s, env):
                if i in hashcalls:
                    return "hashed"
                if i.op == "load" and root(f, i.ops[0]) in hroots:
                    g = f.defs.get(vid(i.ops[0]))
                    if g is not None and g.op == "getelementptr" and g.steps:
                        st = g.steps[-1]
                        ix = s.ev(st["idx"], env) if "idx" in st else st.get("fi")
                    else:
                        ix = 0
                    return "b%s" % ix
                if i in cmps and i.op == "call":
                    n = s.ev(i.ops[2], env) if len(i.ops) > 2 else None
                    return "all" if n is None or n == NZ or n >= 32 else "short"
                return None
            s = Cmp(P, f, M, results=results, events=ev)
            s.match = match
            return s.go()
        s = run(False)
        bad = [r for r in s.rets if not is_fail(M, f, r[0])]
        R.check(bool(s.rets) and not bad, "mismatch@%s" % f.cname, f.loc(), "data whose hash differs is accepted", bad[0][2] if bad else None)
        s = run(True)
        good = [r for r in s.rets if not is_fail(M, f, r[0])]
        bad = [r for r in good if "hashed" not in r[1] or not ("all" in r[1] or "bNone" in r[1] or "bNZ" in r[1] or {"b%d" % k for k in range(32)} <= r[1])]
        R.check(bool(good) and not bad, "complete@%s" % f.cname, f.loc(), "only a part of the hash is compared" if good else "no data is ever accepted", bad[0][2] if bad else None)
        for n, what in ((0, "an empty"), (63, "a too short"), (65, "a too long")):
            s = run(True, length=n, digits=min(n, 64))
            bad = [r for r in s.rets if not is_fail(M, f, r[0])]
            R.check(not bad, "length@%s" % f.cname, f.loc(), "%s recorded hash is accepted" % what, bad[0][2] if bad else None)
        s = run(True, digits=5)
        bad = [r for r in s.rets if not is_fail(M, f, r[0])]
        R.check(not bad, "digits@%s" % f.cname, f.loc(), "a recorded hash that is not a hexadecimal number is accepted", bad[0][2] if bad else None)
        for c in hashcalls:
            a = [root(f, strip(f, o)) for o in c.ops[1:3]]
            R.check(len(set(a)) == 2 and all(x in f.argids for x in a), "data@%s" % f.cname, c.where(), "the hash is not computed over the data passed in")

    R.rule("verify-before-extract", "archive data is extracted only after the same data was verified against the recorded hash, if there is one")
    ext = "muon_archive_extract"
    hparam = {}      # function name -> index of its hash argument
    sites = [c for f in P.funcs.values() if f.cname != ext for c in calls_to(P, f, {ext})]
    if not sites:
        raise AnalysisBroken("no extraction of archives found")
    for c in sites:
        f = c.fn
        R.fn(f.name)
        vcalls = calls_to(P, f, vnames)
        if not vcalls:
            R.check(False, "verify@%s" % f.cname, c.where(), "%s extracts data without verifying it" % f.cname)
            continue
        same = [v for v in vcalls if vid(strip(f, v.ops[0])) == vid(strip(f, c.ops[0])) and vid(strip(f, v.ops[1])) == vid(strip(f, c.ops[1]))]
        if not same:
            R.check(False, "same-data@%s" % f.cname, c.where(), "the data that is extracted is not the data that was verified")
            continue
        hargs = {f.argids.index(vid(v.ops[2])) for v in same if vid(v.ops[2]) in f.argids}
        assume = {("arg", k): NZ for k in hargs}

        def ev(i, s, e):
            if i in same:
                return "verified"
            if i is c:
                return "ext"
        s = Paths(P, f, M, assume=assume, events=ev).go()
        bad = [p for st, p in s.hits.get(c.id, []) if "verified" not in st]
        R.check(not bad, "verify@%s" % f.cname, c.where(), "data is extracted without being verified although a hash is recorded", bad[0] if bad else None)
        s = Paths(P, f, M, assume=assume, results=lambda i: [0] if i in same else None, events=ev).go()
        bad = [p for st, p in s.hits.get(c.id, [])]
        R.check(not bad, "refuse@%s" % f.cname, c.where(), "data is extracted although its verification failed", bad[0] if bad else None)
        bad = [r for r in s.rets if "verified" in r[1] and not is_fail(M, f, r[0])]
        R.check(not bad, "refuse-fails@%s" % f.cname, c.where(), "a checksum mismatch is not reported", bad[0][2] if bad else None)
        for k in hargs:
            hparam[f.name] = k
    R.rule("hash-passed", "the recorded hash reaches the verification unchanged, and belongs to the file that is extracted")
    FIELDS = {const(P, "wf_source_hash"): ("wf_source_url", "wf_source_filename"), const(P, "wf_patch_hash"): ("wf_patch_url", "wf_patch_filename")}
    work = list(hparam)
    done = set()
    ends = 0
    while work:
        n = work.pop()
        if n in done:
            continue
        done.add(n)
        for c in P.callers().get(n, ()):
            g = c.fn
            R.fn(g.name)
            o = c.ops[hparam[n]]
            v = vid(o)
            if v in g.argids:
                k = g.argids.index(v)
                if g.name in hparam and hparam[g.name] != k:
                    R.check(False, "hash-arg@%s" % g.cname, c.where(), "two different arguments are passed on as the hash")
                hparam[g.name] = k
                work.append(g.name)
                R.check(True, "hash-arg@%s" % g.cname, c.where(), "")
                continue
            fld = wrapfield(P, g, o)
            ok = fld in FIELDS
            ends += ok
            R.check(ok, "hash-field@%s" % g.cname, c.where(), "the hash that is passed on is not the one recorded in the wrap file")
            if ok:
                want = {const(P, x) for x in FIELDS[fld]}
                others = [wrapfield(P, g, a) for k, a in enumerate(c.ops) if k != hparam[n]]
                got = {x for x in others if x is not None}
                foreign = got & ({const(P, y) for k2, ys in FIELDS.items() if k2 != fld for y in ys})
                R.check(not foreign, "hash-pair@%s" % g.cname, c.where(), "the hash belongs to another file than the one that is fetched")
    if not ends:
        raise AnalysisBroken("no recorded hash reaches the verification")

    R.rule("hash-kept", "a recorded hash is never dropped on the way to the verification")
    lost = []
    calls = 0
    for fld in FIELDS:
        def prim(i, s, env):
            nonlocal calls
            for n, k in hparam.items():
                if i.callee == n and k < len(i.ops):
                    here = wrapfield(P, s.f, i.ops[k])
                    v = s.ev(i.ops[k], env)
                    if here == fld or v == 0 or v == NZ:
                        calls += 1
                        if v == 0 and fld in origins(P, s.f, i.ops[k]):
                            lost.append((i, s.path(s.node)))
            return None
        O = Outcomes(P, M, lambda f: f.file == "src/wrap.c", prim, loads=lambda i, s: NZ if wrapfield(P, s.f, {"v": i.id}) == fld else None)
        for h in P.bycname.get("wrap_handle", ()):
            O.of(h.name)
    R.check(not lost, "hash-kept", lost[0][0].where() if lost else "src/wrap.c:1", "the recorded hash is dropped before the verification", lost[0][1] if lost else None)


def wrapfield(P, f, o, depth=0):
    """Index of the wrap field a value is loaded from."""
    v = vid(o)
    d = f.defs.get(v) if v is not None and v not in f.argids else None
    if d is None:
        return None
    if d.op == "load":
        g = f.defs.get(vid(d.ops[0]))
        if g is not None and g.op == "getelementptr" and any(s.get("f") == "fields" for s in allsteps(f, g)):
            last = allsteps(f, g)[-1]
            k = kint(last.get("idx"))
            return k if k is not None else (0 if last.get("f") == "fields" else None)
    if d.op == "phi" and depth < 3:
        s = {wrapfield(P, f, x, depth + 1) for x, _ in d.ops if not isnull(x)}
        s.discard(None)
        return s.pop() if len(s) == 1 else None
    return None


def origins(P, f, o, depth=0):
    """Every wrap field a value may have been loaded from."""
    k = wrapfield(P, f, o)
    if k is not None:
        return {k}
    d = f.defs.get(vid(o)) if vid(o) is not None else None
    if d is not None and d.op in ("phi", "select") and depth < 4:
        return set().union(*[origins(P, f, x, depth + 1) for x in ([a for a, _ in d.ops] if d.op == "phi" else d.ops[1:])])
    return set()


def allsteps(f, g):
    out = list(g.steps)
    b = vid(g.d["base"])
    while b is not None and b not in f.argids and f.defs[b].op == "getelementptr":
        out = list(f.defs[b].steps) + out
        b = vid(f.defs[b].d["base"])
    return out


@prop("C29")
def contain(P, R):
    M = model(P)
    NEED = {0x0100: "following symlinks", 0x0200: "parent directory segments", 0x10000: "absolute paths"}
    fs = [f for f in P.funcs.values() if calls_to(P, f, {"archive_write_header"})]
    if not fs:
        raise AnalysisBroken("no extraction of archive entries found")
    for f in fs:
        R.fn(f.name)
        heads = calls_to(P, f, {"archive_write_header"})

        def ev(i, s, env):
            if i.op != "call":
                return None
            if i.callee == "archive_write_disk_set_options":
                k = s.ev(i.ops[1], env)
                out = ["-o%x" % b for b in NEED]
                if isinstance(k, int):
                    out = [("" if k & b else "-") + "o%x" % b for b in NEED]
                return out
            if callee_in(P, i, {"path_chdir"}):
                o = i.ops[0]
                return ["in", "-back"] if vid(o) in f.argids else ["back", "-in"]
            if i.callee == "archive_write_header":
                return "head"
            if i.callee in ("archive_write_free", "archive_free"):
                return "freed"
            return None
        s = Paths(P, f, M, events=ev, results=lambda i: [1, (0, "-in")] if callee_in(P, i, {"path_chdir"}) else None).go()
        for b, what in NEED.items():
            R.rule("secure-%x" % b, "no entry is written without refusing %s" % what)
            for c in heads:
                bad = [p for st, p in s.hits.get(c.id, []) if "o%x" % b not in st]
                R.check(bool(s.hits.get(c.id)) and not bad, "secure-%x@%s" % (b, f.cname), c.where(), "entries are written without refusing %s" % what, bad[0] if bad else None)
        R.rule("in-destination", "entries are written with the destination as the current directory")
        s2 = Paths(P, f, M, events=ev, results=lambda i: [(1, "in") if vid(i.ops[0]) in f.argids else 1, 0] if callee_in(P, i, {"path_chdir"}) else None).go()
        for c in heads:
            bad = [p for st, p in s2.hits.get(c.id, []) if "in" not in st]
            R.check(not bad, "cwd@%s" % f.cname, c.where(), "entries are written relative to another directory than the destination", bad[0] if bad else None)
        s3 = Paths(P, f, M, events=ev, results=lambda i: [0] if callee_in(P, i, {"path_chdir"}) else None).go()
        bad = [p for c in heads for st, p in s3.hits.get(c.id, [])]
        R.check(not bad, "cwd-failed@%s" % f.cname, f.loc(), "entries are written although entering the destination failed", bad[0] if bad else None)
        R.rule("directory-restored", "the previous directory is current again on every exit")
        s4 = Paths(P, f, M, events=ev).go()
        bad = [r for r in s4.rets if "in" in r[1] and "head" in r[1]]
        R.check(not bad, "restore@%s" % f.cname, f.loc(), "the current directory is not restored", bad[0][2] if bad else None)
        bad = [p for c in calls_to(P, f, {"archive_write_free"}) for st, p in s4.hits.get(c.id, []) if "back" in st]
        R.check(not bad, "finish@%s" % f.cname, f.loc(), "delayed work of the writer is finished in another directory", bad[0] if bad else None)
        R.rule("entry-name", "the name of an entry is not replaced by one that was not checked")
        for c in f.calls():
            if c.callee and c.callee.startswith("archive_entry_") and any(x in c.callee for x in ("copy_pathname", "set_pathname", "copy_hardlink", "set_hardlink", "set_link", "copy_link", "update_pathname")):
                R.check(False, "rename@%s" % f.cname, c.where(), "the name or link target of an entry is replaced")
        R.check(True, "rename@%s" % f.cname, f.loc(), "")
