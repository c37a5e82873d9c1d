"""Parts an object may lack are only used where they are known to be there (C34)."""
from rules import prop
from rules.r_index import bounds
from rules.r_saved import accessors, same
from rules.r_tables import image
from rules.r_types import EXEMPT, name
from nulltypes import NullTypes, ASSURED
from objtypes import VOID
from prog import vid, kint, AnalysisBroken


def inference(P):
    t = P.__dict__.get("_nulltypes")
    if t is None:
        t = P.__dict__["_nulltypes"] = NullTypes(P, bounds(P), accessors(P), image, same)
        t.solve()
    return t


@prop("C34")
def nulls(P, R):
    T = inference(P)
    R.rule("present", "where a value is handed to a function that needs one, it is not a part of an object that some creator of such objects leaves empty, "
           "unless it was tested, set just before, or its presence follows from a flag that was")
    for f in sorted(P.funcs.values(), key=lambda f: (f.file, f.line)):
        if not f.blocks or f.name in T.skip or f.cname in EXEMPT or f.cname.endswith("_test") or f.file.endswith("_test.c"):
            continue
        for c in f.calls():
            for o, r, el, cal in T.demands(f, c):
                if el or vid(o) in f.argids and (T.req.get((f.name, f.argids.index(vid(o)))) or 0) & ~1 == r:
                    continue
                m, e = T.value(f, o, c)
                R.fn(f.cname)
                R.check(not (m & VOID and not r & VOID), "%s:%s:missing" % (f.cname, name(P, cal)), c.where(),
                        "%s is handed a part of an object that may be missing: %s" % (name(P, cal), T.blame(f, o)))
    for k, v in sorted(ASSURED.items()):
        R.assume("%s.%s: %s" % (k + (v,)))
    R.assume("parts that may be missing: " + "; ".join("%s.%s (left empty by %s)" % (k + (", ".join(sorted(v)),)) for k, v in sorted(T.nullable.items())))
