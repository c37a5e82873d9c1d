"""The bundled build executor: job outcome, readiness, dirtiness."""
from rules import prop
from rules.r_errprop import model
from rulelib import Paths, reach_under, callee_in, is_fail, mutation
from prog import AnalysisBroken, kint, vid, cstr
from sim import NZ


def const(P, name):
    for es in P.enums.values():
        for e in es:
            for n, v in e["vals"]:
                if n == name:
                    return v
    raise AnalysisBroken("enumerator %s not found" % name)


def calls_to(P, f, names):
    return [c for c in f.calls() if callee_in(P, c, names)]


def unreachable_call(P, R, key, f, names, assume, msg, results=None, need=True):
    """Under the assumptions no call of names happens in f; every such call site is an obligation."""
    M = model(P)
    sites = calls_to(P, f, names)
    if not sites:
        if need:
            raise AnalysisBroken("%s does not call %s" % (f.cname, "/".join(sorted(names))))
        return
    s = Paths(P, f, M, assume=assume, results=results, events=lambda i, s, e: "hit" if callee_in(P, i, names) else None).go()
    R.fn(f.name)
    for c in sites:
        h = s.hits.get(c.id)
        R.check(not h, "%s@%s" % (key, f.cname), c.where(), msg, h[0][1] if h else None)


COMPLETE = {"samu_logrecord", "samu_recorddeps", "samu_depsrecord", "samu_nodedone", "samu_queue"}


@prop("C13")
def jobs(P, R):
    M = model(P)
    R.rule("failed-not-done", "the completion of a failed job reaches no log record and no readiness update")
    f = P.fn("samu_jobdone")
    all_, _, _ = reach_under(P, M, [f.name])
    seen, calls, _ = reach_under(P, M, [f.name], assume={("samu_job", "failed"): 1})
    R.fn(*seen)
    n = 0
    for t in sorted(COMPLETE):
        g = P.fn(t).name
        if g in all_:
            n += 1
            R.check(g not in seen, "failed>%s" % t, f.loc(), "completion of a failed job reaches %s: %s" % (t, P.chain(seen, g) if g in seen else ""))
    if not n:
        raise AnalysisBroken("job completion no longer records anything")
    R.rule("success-done", "the completion of a successful job records its outputs and releases its dependents")
    seen, calls, _ = reach_under(P, M, [f.name], assume={("samu_job", "failed"): 0})
    for t in ("samu_logrecord", "samu_nodedone"):
        R.check(P.fn(t).name in seen, "success>%s" % t, f.loc(), "completion of a successful job never reaches %s" % t)

    R.rule("failure-recorded", "a command that ended with a non-zero status or could not be collected is marked failed before its completion")
    b = P.fn("samu_build")
    ERR, RUN, FIN = const(P, "run_cmd_error"), const(P, "run_cmd_running"), const(P, "run_cmd_finished")

    def ev(i, s, env):
        if callee_in(P, i, {"run_cmd_collect"}):
            return ("-failed",)
        if i.op == "store" and P.field(s.f, i.ops[1]) == ("samu_job", "failed"):
            v = s.ev(i.ops[0], env)
            return "failed" if v == 1 or v == NZ else "-failed"
        if callee_in(P, i, {"samu_jobdone"}):
            return "done"
        return None
    for nm, outcome, status in (("status", FIN, NZ), ("collect", ERR, 0)):
        s = Paths(P, b, M, assume={("run_cmd_ctx", "status"): status}, events=ev,
                  results=lambda i: [outcome] if callee_in(P, i, {"run_cmd_collect"}) else None).go()
        k = 0
        for iid, hs in s.hits.items():
            if callee_in(P, b.defs[iid], {"samu_jobdone"}):
                k += 1
                bad = [p for st, p in hs if "failed" not in st]
                R.check(not bad, "mark-%s" % nm, b.defs[iid].where(), "a job whose command failed (%s) is completed without being marked failed" % nm, bad[0] if bad else None)
        if not k:
            R.check(False, "mark-%s" % nm, b.loc(), "a finished job is never completed")
    R.rule("running-not-done", "a job whose command still runs is not completed")
    unreachable_call(P, R, "running", b, {"samu_jobdone"}, {}, "a running job is completed",
                     results=lambda i: [RUN] if callee_in(P, i, {"run_cmd_collect"}) else None)

    R.rule("limits", "no job is started once the failure limit or the job limit is reached")
    unreachable_call(P, R, "maxfail", b, {"samu_jobstart"}, {("samu_buildoptions", "maxfail"): 0}, "a job can start although the failure limit is reached")
    unreachable_call(P, R, "maxjobs", b, {"samu_jobstart"}, {("samu_buildoptions", "maxjobs"): 0}, "a job can start although the job limit is reached")
    R.rule("dry-run", "with -n no command is started")
    unreachable_call(P, R, "dryrun", b, {"samu_jobstart"}, {("samu_buildoptions", "dryrun"): 1}, "a command can start in a dry run")

    R.rule("failure-fatal", "the build does not return normally once a job failed to start or failed")
    # outcome of every job: failed
    bad = []
    for outcome, status in ((FIN, NZ), (ERR, 0)):
        s = Paths(P, b, M, assume={("samu_job", "failed"): 1, ("run_cmd_ctx", "status"): status}, events=lambda i, s, e: "failed" if callee_in(P, i, {"samu_jobdone"}) else None,
                  results=lambda i: [outcome] if callee_in(P, i, {"run_cmd_collect"}) else None).go()
        bad += [r for r in s.rets if "failed" in r[1]]
    R.check(not bad, "return-after-failure", b.loc(), "the build returns normally after a failed job", bad[0][2] if bad else None)
    s = Paths(P, b, M, results=lambda i: [(0, "nostart")] if callee_in(P, i, {"samu_jobstart"}) else None).go()
    bad = [r for r in s.rets if "nostart" in r[1]]
    R.check(not bad, "return-after-nostart", b.loc(), "the build returns normally after a job could not be started", bad[0][2] if bad else None)
    R.rule("slot-ownership", "a slot is marked running exactly when its command was started, and released when it was collected")

    def ev4(i, s, env):
        if callee_in(P, i, {"samu_jobstart"}):
            return "start"
        if i.op == "store" and P.field(s.f, i.ops[1]) == ("samu_job", "running"):
            return ("run" if s.ev(i.ops[0], env) == 1 else "norun")
        return None
    s = Paths(P, b, M, events=ev4, results=lambda i: [(0, "no")] if callee_in(P, i, {"samu_jobstart"}) else None).go()
    bad = [p for iid, hs in s.hits.items() if b.defs[iid].op == "store" for st, p in hs if kint(b.defs[iid].ops[0]) == 1]
    R.check(not bad, "running-after-nostart", b.loc(), "a job that did not start is marked running", bad[0] if bad else None)
    s = Paths(P, b, M, events=lambda i, s, e: ("-running" if s.ev(i.ops[0], e) == 0 else None) if i.op == "store" and P.field(s.f, i.ops[1]) == ("samu_job", "running") else ("done" if callee_in(P, i, {"samu_jobdone"}) else None),
              results=lambda i: [(FIN, "running")] if callee_in(P, i, {"run_cmd_collect"}) else None).go()
    bad = [r for r in s.rets if "running" in r[1]]
    for iid, hs in s.hits.items():
        if callee_in(P, b.defs[iid], {"samu_jobdone"}):
            bad2 = [p for st, p in hs if "running" in st]
            R.check(not bad2, "release", b.defs[iid].where(), "a collected job stays marked as running", bad2[0] if bad2 else None)


@prop("C14")
def readiness(P, R):
    M = model(P)
    MISSING = const(P, "SAMU_MTIME_MISSING")
    DIN, DOUT, WORK, CYCLE = (const(P, "FLAG_" + x) for x in ("DIRTY_IN", "DIRTY_OUT", "WORK", "CYCLE"))
    add, done, isd = P.fn("samu_buildadd"), P.fn("samu_nodedone"), P.fn("samu_isdirty")
    NB = ("samu_edge", "nblock")
    R.rule("queue-ready", "an edge is queued only when no input blocks it")
    for f in (add, done):
        unreachable_call(P, R, "queue", f, {"samu_queue"}, {NB: 2}, "an edge is queued while inputs block it")
    for f in P.funcs.values():
        if f.file.startswith("src/external/samurai") and f not in (add, done) and calls_to(P, f, {"samu_queue"}):
            unreachable_call(P, R, "queue", f, {"samu_queue"}, {NB: 2}, "an edge is queued while inputs block it")
    R.rule("queue-released", "an edge is queued when its last blocking input is done")
    s = Paths(P, done, M, assume={NB: 1, ("samu_edge", "flags"): WORK | DIN | DOUT}, events=lambda i, s, e: "q" if callee_in(P, i, {"samu_queue"}) else None,
              start=()).go()
    R.check(bool(s.hits), "released", done.loc(), "the last completed input does not queue the edge")

    R.rule("prune-clean", "a finished output never prunes an edge that still has to run, and touches no edge outside this build")
    FL = ("samu_edge", "flags")
    boolarg = [k for k in range(len(done.argids)) if done.ditypes[k + 1] in ("_Bool", "bool")]
    if boolarg:
        pr = ("arg", boolarg[0])
        for nm, a in (("dirty-in", {pr: 0, FL: WORK | DIN}), ("dirty-out", {pr: 0, FL: WORK | DOUT}), ("pruned-dirty-out", {pr: 1, FL: WORK | DOUT})):
            unreachable_call(P, R, "prune-" + nm, done, {done.cname}, a, "an edge that has to run is pruned (%s)" % nm, need=False)
            s = Paths(P, done, M, assume=dict(a, **{}), events=lambda i, s, e: ("dec" if i.op == "store" and P.field(s.f, i.ops[1]) == NB else None)).go()
            R.check(bool(s.hits), "dec-" + nm, done.loc(), "a finished input is never taken off the inputs an edge waits for (%s)" % nm)
        for v in (0, 1):
            s = Paths(P, done, M, assume={pr: v, FL: 0}, events=lambda i, s, e: ("ch" if callee_in(P, i, {"samu_queue", done.cname}) or (
                i.op == "store" and (P.field(s.f, i.ops[1]) or ("",))[0] == "samu_edge") else None)).go()
            R.check(not s.hits, "outside-%d" % v, done.loc(), "an edge that is not part of this build is changed", next((h[0][1] for h in s.hits.values()), None))

    R.rule("block-counted", "every input that has to be built first (order-only inputs included) is counted as blocking")

    def ev(i, s, env):
        if callee_in(P, i, {add.cname}) and i.callee == add.name:
            return "pending"
        if i.op == "store" and P.field(s.f, i.ops[1]) == NB:
            d = s.f.defs.get(vid(i.ops[0])) if vid(i.ops[0]) is not None else None
            if d is not None and d.op == "add" and kint(d.ops[1]) == 1:
                return "-pending"
        return None

    def pend(key, assume, msg):
        s = Paths(P, add, M, assume=assume, events=ev).go()
        R.fn(add.name)
        rec = [c for c in add.calls() if c.callee == add.name]
        if not rec:
            raise AnalysisBroken("the walk over inputs was not found")
        for c in rec:
            hs = s.hits.get(c.id, [])
            bad = [p for st, p in hs if "pending" in st]
            R.check(bool(hs) and not bad, key, c.where(), msg if hs else "inputs are not visited", bad[0] if bad else None)
        bad = [r for r in s.rets if "pending" in r[1]]
        R.check(not bad, key + ":exit", add.loc(), msg, bad[0][2] if bad else None)
    D, GEN, OO = ("samu_node", "dirty"), ("samu_node", "gen"), ("samu_edge", "inorderidx")
    NIN = ("samu_edge", "nin")
    pend("dirty-input", {D: 1, GEN: NZ}, "a dirty input is not counted as blocking")
    pend("dirty-orderonly", {D: 1, GEN: NZ, OO: 0}, "a dirty order-only input is not counted as blocking")
    pend("blocked-input", {D: 0, GEN: NZ, NB: 2}, "an input whose own edge is blocked is not counted as blocking")
    pend("blocked-orderonly", {D: 0, GEN: NZ, NB: 2, OO: 0}, "an order-only input whose own edge is blocked is not counted as blocking")

    R.rule("dirty-propagates", "a dirty explicit or implicit input makes the edge dirty")

    def ev2(i, s, env):
        if i.op == "call" and i.callee == add.name:
            return "pending"
        if i.op == "store" and P.field(s.f, i.ops[1]) == ("samu_edge", "flags"):
            d = s.f.defs.get(vid(i.ops[0])) if vid(i.ops[0]) is not None else None
            if d is not None and d.op == "or" and (kint(d.ops[1]) or 0) & DIN:
                return "-pending"
        return None
    # decided for the first input (index 0) of an edge that has explicit inputs; the index is the only thing that differs for others
    recs = [c for c in add.calls() if c.callee == add.name]

    def first_only(i, s, env):
        if i in recs:
            return False if "first" in s.cur else ("first", "pending")
        return ev2(i, s, env)
    s = Paths(P, add, M, assume={D: 1, GEN: NZ, OO: NZ}, events=first_only).go()
    bad = [r[2] for r in s.rets if "pending" in r[1]]
    R.check(any(c.id in s.hits for c in recs) and not bad, "dirty-flag", add.loc(), "a dirty input does not mark the edge dirty", bad[0] if bad else None)

    R.rule("deps-loaded", "recorded dependencies are loaded before the inputs are visited")
    s = Paths(P, add, M, events=lambda i, s, e: "deps" if callee_in(P, i, {"samu_depsload"}) else ("rec" if i.op == "call" and i.callee == add.name else None)).go()
    for c in recs:
        bad = [p for st, p in s.hits.get(c.id, []) if "deps" not in st]
        R.check(not bad, "depsload", c.where(), "inputs are visited before the recorded dependencies are loaded", bad[0] if bad else None)
    R.rule("cycle", "a dependency cycle is reported, never followed")
    s = Paths(P, add, M, assume={("samu_edge", "flags"): CYCLE, GEN: NZ}, events=lambda i, s, e: "rec" if i.op == "call" and i.callee == add.name else None).go()
    R.check(not s.hits and not s.rets, "cycle", add.loc(), "an edge that is already on the walk is followed or accepted")

    def ev5(i, s, env):
        if i.op == "store" and P.field(s.f, i.ops[1]) == ("samu_edge", "flags"):
            d = s.f.defs.get(vid(i.ops[0])) if vid(i.ops[0]) is not None else None
            if d is not None and d.op == "or" and (kint(d.ops[1]) or 0) & CYCLE:
                return "mark"
            if d is not None and d.op == "and":
                return "-mark"
        if i.op == "call" and i.callee == add.name:
            return "rec"
        return None
    s = Paths(P, add, M, events=ev5).go()
    for c in recs:
        bad = [p for st, p in s.hits.get(c.id, []) if "mark" not in st]
        R.check(not bad, "cycle-mark", c.where(), "inputs are visited before the edge is marked as being visited", bad[0] if bad else None)

    R.rule("dirty-decision", "an output is out of date when it is missing, older than an input, unrecorded, recorded before an input changed, or recorded with another command")
    NOTPHONY = {("samu_edge", "rule"): 0}
    argn = {a: k for k, a in enumerate(isd.argnames)}
    need = ("newest", "generator", "restat")
    if any(a not in argn for a in need):
        # positional fallback: (ctx, n, newest, generator, restat)
        argn = dict(ctx=0, n=1, newest=2, generator=3, restat=4)
    gen, res, newest = ("arg", argn["generator"]), ("arg", argn["restat"]), ("arg", argn["newest"])
    M_ = ("samu_node", "mtime")
    L_ = ("samu_node", "logmtime")
    newer = lambda v: (lambda i: [v] if callee_in(P, i, {"samu_isnewer"}) else None)
    cases = [
        ("missing", {M_: MISSING}, None, {}),
        ("older", {M_: 5, L_: 5, newest: NZ, res: 0}, newer(1), {}),
        ("unrecorded", {M_: 5, L_: MISSING, gen: 0}, newer(0), {}),
        ("recorded-before", {M_: 5, L_: 4, newest: NZ}, newer(0), {}),
        ("command-changed", {M_: 5, L_: 5, gen: 0, ("samu_edge", "hash"): 1, ("samu_node", "hash"): 2}, newer(0), {}),
        ("command-unrecorded", {M_: 5, L_: 5, gen: 0, ("samu_edge", "hash"): 1, ("samu_node", "hash"): 0}, newer(0), {}),
        ("command-changed-restat", {M_: 5, L_: 5, gen: 0, res: 1, ("samu_edge", "hash"): 0, ("samu_node", "hash"): 2}, newer(0), {}),
    ]
    for nm, a, results, _ in cases:
        a = dict(a)
        a.update(NOTPHONY)
        s = Paths(P, isd, M, assume=a, results=results).go()
        R.fn(isd.name)
        bad = [r for r in s.rets if r[0] != 1]
        R.check(bool(s.rets) and not bad, "isdirty-%s" % nm, isd.loc(), "an output is considered up to date although: %s" % nm, bad[0][2] if bad else None)
    R.rule("clean-decision", "an output that is present, recorded and not older is up to date, and a generator's output regardless of its command")
    for nm, a in (("same-command", {M_: 5, L_: 5, gen: 0, newest: 0, ("samu_edge", "hash"): 1, ("samu_node", "hash"): 1}), ("generator", {M_: 5, L_: 5, gen: 1, newest: 0})):
        a.update(NOTPHONY)
        s = Paths(P, isd, M, assume=a, results=newer(0)).go()
        bad = [r for r in s.rets if r[0] != 0]
        R.check(bool(s.rets) and not bad, "isclean-%s" % nm, isd.loc(), "an up to date output is rebuilt: %s" % nm, bad[0][2] if bad else None)
    R.rule("newer", "the time comparison is strict and in the right direction")
    nw = P.fn("samu_isnewer")
    ok = False
    for i in nw.instrs():
        if i.op == "icmp" and i.d["pred"] in ("sgt", "slt"):
            src = []
            for o in i.ops:
                d = nw.defs.get(vid(o))
                base = None
                if d is not None and d.op == "load" and P.field(nw, d.ops[0]) == M_:
                    g = nw.defs.get(vid(d.ops[0]))
                    b = vid(g.d["base"]) if g is not None and g.op == "getelementptr" else vid(d.ops[0])
                    base = nw.argids.index(b) if b in nw.argids else None
                src.append(base)
            if (i.d["pred"] == "sgt" and src == [0, 1]) or (i.d["pred"] == "slt" and src == [1, 0]):
                ok = True
    R.check(ok, "isnewer", nw.loc(), "the comparison 'first is newer than second' was not found")
    R.rule("hash-fresh", "the command hash is computed before it is compared or recorded")
    for f in P.funcs.values():
        if not f.file.startswith("src/external/samurai/") or f.cname == "samu_edgehash":
            continue
        lds = [i for i in f.instrs() if i.op == "load" and P.field(f, i.ops[0]) == ("samu_edge", "hash")]
        if not lds:
            continue
        s = Paths(P, f, M, events=lambda i, s, e: "h" if callee_in(P, i, {"samu_edgehash"}) else ("ld" if i in lds else None)).go()
        R.fn(f.name)
        for i in lds:
            bad = [p for st, p in s.hits.get(i.id, []) if "h" not in st]
            R.check(not bad, "hash@%s" % f.cname, i.where(), "the command hash is used before it was computed", bad[0] if bad else None)
    R.rule("hash-covers", "the command hash covers the command and the response file content")
    h = P.fn("samu_edgehash")
    R.fn(h.name)
    lab = {"command": "c", "rspfile_content": "r"}

    def ev6(i, s, env):
        if i.op == "call":
            for o in i.ops:
                if cstr(o) in lab:
                    return lab[cstr(o)]
        if i.op == "store" and P.field(s.f, i.ops[1]) == ("samu_edge", "hash"):
            return "st"
        return None
    s = Paths(P, h, M, events=ev6).go()
    n = 0
    for iid, hs in s.hits.items():
        if h.defs[iid].op == "store":
            n += 1
            bad = [p for st, p in hs if not {"c", "r"} <= st]
            R.check(not bad, "covers", h.defs[iid].where(), "the command hash is stored without reading both the command and the response file content", bad[0] if bad else None)
    if not n:
        raise AnalysisBroken("command hash computation not found")

    # with a response file, what is hashed is not the command alone
    def origin(o):
        d = h.defs.get(vid(o)) if vid(o) is not None else None
        g = h.defs.get(vid(d.ops[0])) if d is not None and d.op == "load" and vid(d.ops[0]) is not None else d
        if g is None:
            return None
        b = g.d["base"] if g.op == "getelementptr" else o
        c = h.defs.get(vid(b)) if vid(b) is not None else None
        if c is not None and c.op == "call" and any(cstr(x) in lab for x in c.ops):
            return next(lab[cstr(x)] for x in c.ops if cstr(x) in lab)
        return None
    hashed = {vid(i.ops[0]) for i in h.instrs() if i.op == "store" and P.field(h, i.ops[1]) == ("samu_edge", "hash")}
    for _ in range(3):
        hashed |= {vid(o) for i in h.instrs() if i.id in hashed and i.op == "phi" for o, _ in i.ops}
    s = Paths(P, h, M, assume={("samu_string", "n"): NZ}, results=lambda i: [NZ] if i.op == "call" and any(cstr(x) in lab for x in i.ops) else None,
              events=lambda i, s, e: "hash" if i.op == "call" and i.id in hashed and i.ops and origin(i.ops[0]) else None).go()
    R.check(not s.hits, "covers-rsp", h.loc(), "with a response file content only one of command and content is hashed", next((x[0][1] for x in s.hits.values()), None))
    R.rule("record-order", "an output is recorded with its final time and hash")
    r = P.fn("samu_edgedone")

    def ev7(i, s, env):
        if callee_in(P, i, {"samu_nodestat"}):
            return "stat"
        if i.op == "store" and P.field(s.f, i.ops[1]) == L_:
            return "mtime"
        if i.op == "store" and P.field(s.f, i.ops[1]) == ("samu_node", "hash"):
            return "hash"
        if callee_in(P, i, {"samu_logrecord"}):
            return "rec"
        return None
    s = Paths(P, r, M, events=ev7, assume={("samu_edge", "nout"): 1}).go()
    R.fn(r.name)
    for c in calls_to(P, r, {"samu_logrecord"}):
        bad = [p for st, p in s.hits.get(c.id, []) if not {"stat", "mtime", "hash"} <= st]
        R.check(not bad, "record", c.where(), "an output is recorded before its time and hash were determined", bad[0] if bad else None)
    R.rule("inputs-scanned", "every input and output registered with an edge is linked to it")
    # an edge whose outputs are registered: gen is set for each output, use for each input
    nu = P.fn("samu_nodeuse")
    users = {c.fn.cname for c in P.callers().get(nu.name, ())}
    for need_, why in (("samu_parseedge", "inputs of a build statement"), ("samu_edgeadddeps", "recorded dependencies")):
        R.check(need_ in users or any(need_ in {x.fn.cname for x in P.callers().get(P.fn(u).name, ())} for u in users), "use@%s" % need_, nu.loc(), "%s are not linked to the edge" % why)

