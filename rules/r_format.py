"""Format strings (C22)."""
import re
from rules import prop
from prog import vid, kint

LIBC = {"printf": 0, "fprintf": 1, "dprintf": 1, "sprintf": 1, "snprintf": 2, "asprintf": 1, "syslog": 1, "vprintf": 0, "vfprintf": 1, "vdprintf": 1,
        "vsprintf": 1, "vsnprintf": 2, "vasprintf": 1, "scanf": 0, "fscanf": 1, "sscanf": 1, "strftime": 2}

DIR = re.compile(r"%([-+ #0']*)(\*|\d+)?(?:\.(\*|\d*))?(hh|h|ll|l|j|z|t|L|q)?([a-zA-Z%])?")


def formatters(P):
    """callee name -> operand that is a format, found by following format arguments back to parameters."""
    if hasattr(P, "_formatters"):
        return P._formatters
    P._formatters = fm = {}
    direct = dict(LIBC)
    work = True

    def k_of(c):
        return fm.get(c.callee) if c.callee in P.funcs else direct.get(c.callee or "")
    while work:
        work = False
        for f in P.funcs.values():
            for c in f.calls():
                k = k_of(c)
                if k is None or k >= len(c.ops):
                    continue
                for kind, x in origins(P, f, c.ops[k]):
                    if kind == "arg" and fm.get(f.name) is None:
                        fm[f.name] = x
                        work = True
    return fm


def objformatters(P):
    """Formatters that expand object directives themselves."""
    if not hasattr(P, "_objformatters"):
        fm = formatters(P)
        out = {f.name for f in P.funcs.values() if f.cname == "obj_vasprintf"}
        n = -1
        while n != len(out):
            n = len(out)
            for f in P.funcs.values():
                if f.name in fm and any(c.callee in out and ("arg", fm[f.name]) in origins(P, f, c.ops[fm[c.callee]]) for c in f.calls()):
                    out.add(f.name)
        P._objformatters = out
    return P._objformatters


def origins(P, f, o, seen=None, depth=0):
    """('lit', text) | ('arg', position) | ('other', what) for everything a string value may be."""
    seen = set() if seen is None else seen
    if isinstance(o, dict):
        if "str" in o:
            return [("lit", o["str"])]
        if "null" in o:
            return [("lit", None)]
        if "g" in o:
            return table(P, f, o)
    v = vid(o)
    if v is None:
        return [("other", "unknown value")]
    if v in seen or depth > 12:
        return []
    seen.add(v)
    if v in f.argids:
        return [("arg", f.argids.index(v))]
    i = f.defs[v]
    if i.op == "phi":
        return [r for x, _ in i.ops for r in origins(P, f, x, seen, depth + 1)]
    if i.op == "select":
        return origins(P, f, i.ops[1], seen, depth + 1) + origins(P, f, i.ops[2], seen, depth + 1)
    if i.op in ("bitcast", "freeze"):
        return origins(P, f, i.ops[0], seen, depth + 1)
    if i.op == "getelementptr" and all("idx" in s for s in i.steps):
        return origins(P, f, i.d["base"], seen, depth + 1)
    if i.op == "load":
        r = loaded(P, f, i.ops[0], seen, depth)
        if r is not None:
            return r
    if i.op == "call" and i.callee in P.funcs:
        g = P.funcs[i.callee]
        out = []
        for b in g.blocks:
            if b and b[-1].op == "ret" and b[-1].ops:
                for kind, x in origins(P, g, b[-1].ops[0], None, depth + 1):
                    if kind == "arg":
                        out += origins(P, f, i.ops[x], seen, depth + 1)
                    else:
                        out.append((kind, x))
        return out or [("other", "result of " + g.cname)]
    if i.op == "alloca":
        r = filled(P, f, i, seen, depth)
        if r is not None:
            return r
    return [("other", what(P, f, i))]


def filled(P, f, a, seen, depth):
    """Origins of the text in a local buffer that is only filled by copies."""
    from rules.r_index import bounds
    B = bounds(P)
    out = []

    def ours(o):
        return vid(o) is not None and B.rootalloca(f, o) == a.id
    for i in f.instrs():
        if i.op == "store" and ours(i.ops[1]):
            if kint(i.ops[0]) is None:
                return None
        elif i.op == "call":
            n = (i.callee or "").split(".")[1] if (i.callee or "").startswith("llvm.") else i.callee
            if not i.ops or not any(ours(o) for o in i.ops) or n in ("lifetime", "dbg", "memset", "strlen"):
                continue
            if n in ("memcpy", "memmove", "strncpy", "strcpy", "strcat", "strncat") and ours(i.ops[0]) and not ours(i.ops[1]):
                out += origins(P, f, i.ops[1], seen, depth + 1)
            elif ours(i.ops[0]) and i.callee not in P.funcs and LIBC.get(n) != 0:
                return None
            elif i.callee in P.funcs and formatters(P).get(i.callee) is None and any(ours(o) for k, o in enumerate(i.ops)):
                return None
    return out or None


def what(P, f, i):
    if i.op == "call":
        return "result of " + (P.funcs[i.callee].cname if i.callee in P.funcs else str(i.callee))
    if i.op == "load":
        fl = P.field(f, i.ops[0])
        return "%s.%s" % fl if fl else "a value in memory"
    if i.op == "alloca":
        return "the buffer " + (i.d.get("name") or "")
    return "a computed value"


def loaded(P, f, a, seen, depth):
    """Origins of a string loaded from a constant table or a local cell."""
    from rules.r_index import bounds
    B = bounds(P)
    g = B.rootglobal(f, a) if vid(a) is not None else (a.get("g") if isinstance(a, dict) else None)
    if g:
        gl = P.globals.get(g)
        if gl is None:
            return None
        if g in B.writtenglobals() and not gl.get("const"):
            return None
        return [("lit", x) for x in strings(gl.get("init"))] or None
    v = vid(a)
    root = B.rootalloca(f, a)
    if root is not None:
        out = []
        from prog import operands
        for i in f.instrs():
            if i.op == "store" and B.rootalloca(f, i.ops[1]) == root and i.d.get("vty") == "ptr":
                out += origins(P, f, i.ops[0], seen, depth + 1)
            elif i.op == "call" and any(B.rootalloca(f, q) == root for q in i.ops if vid(q) is not None):
                if (i.callee or "").startswith("llvm.memcpy") and B.rootalloca(f, i.ops[0]) == root and isinstance(i.ops[1], dict) and "g" in i.ops[1]:
                    gl = P.globals.get(i.ops[1]["g"])
                    if gl is None:
                        return None
                    out += [("lit", x) for x in strings(gl.get("init"))]
                elif (i.callee or "").startswith("llvm."):
                    continue
                else:
                    return None
        return out or None
    return None


def strings(v):
    if isinstance(v, dict):
        if "str" in v:
            yield v["str"]
            return
        for x in v.values():
            yield from strings(x)
    elif isinstance(v, list):
        for x in v:
            yield from strings(x)


def table(P, f, o):
    gl = P.globals.get(o["g"])
    if gl and isinstance(gl.get("init"), dict) and "str" in gl["init"]:
        return [("lit", gl["init"]["str"])]
    return [("other", "the variable " + o["g"].split("@")[0])]


def expected(fmt, objfmt):
    """[(type letters accepted, directive)] or None with a reason."""
    out = []
    for m in DIR.finditer(fmt):
        fl, w, p, ln, cv = m.groups()
        if cv is None:
            return None, "incomplete directive '%s'" % m.group(0)
        if w == "*":
            out.append(("i32", m.group(0)))
        if p == "*":
            out.append(("i32", m.group(0)))
        if objfmt and ln not in (None, "l", "ll"):
            return None, "directive %s, which the object formatter does not know," % m.group(0)
        if cv == "o" and not objfmt and not fl and not w and not p and not ln:
            out.append(("octal", m.group(0)))
            continue
        if cv == "%":
            if objfmt:
                return None, "directive %%, which the object formatter drops,"
            continue
        if cv in "diuxXo" or (cv == "c"):
            out.append(("i64" if ln in ("l", "ll", "j", "z", "t", "q") else "i32", m.group(0)))
        elif cv in "eEfFgGaA":
            out.append(("double", m.group(0)))
        elif cv == "s":
            out.append(("str", m.group(0)))
        elif cv == "p":
            out.append(("ptr", m.group(0)))
        elif cv == "n":
            return None, "directive %n"
        else:
            return None, "unknown directive '%s'" % m.group(0)
    return out, None


def chartype(P, f, o):
    v = vid(o)
    if v is not None and v not in f.argids and f.defs[v].op == "load":
        i = f.defs[v]
        fl = P.field(f, i.ops[0])
        t = P.fieldtype(*fl) if fl else None
        return t if t and t.endswith("*") else None
    return P.ditype(f, o)


def argtype(P, f, o):
    if kint(o) is not None:
        return {32: "i32", 64: "i64"}.get(o.get("w"), "int")
    if isinstance(o, dict) and ("str" in o or "null" in o or "g" in o):
        return "ptr"
    v = vid(o)
    if v is None:
        return "?"
    if v in f.argids:
        a = f.args[f.argids.index(v)]
        return a.get("ty") if isinstance(a, dict) else "?"
    return f.defs[v].ty or "?"


@prop("C22")
def formats(P, R):
    fm = formatters(P)
    R.rule("constant-format", "the format of every formatting call is text written in the program (traced through wrappers, tables and returned strings)")
    calls = []
    for f in sorted(P.funcs.values(), key=lambda f: (f.file, f.line)):
        for c in f.calls():
            if c.callee in P.funcs:
                k = fm.get(c.callee)
                va = len(P.funcs[c.callee].args)
                n = P.funcs[c.callee].cname
            else:
                n = c.callee or ""
                k = LIBC.get(n)
                va = None if n.startswith("v") or n == "strftime" or "scanf" in n else (k or 0) + 1
            if k is None or k >= len(c.ops):
                continue
            R.fn(f.name)
            og = origins(P, f, c.ops[k])
            bad = [x for kind, x in og if kind == "other"]
            R.check(not bad, "format@%s:%s" % (f.cname, n), c.where(), "the format given to %s is %s" % (n, bad[0] if bad else ""))
            if va is not None and n != "strftime":
                calls.append((f, c, n, k, va, [x for kind, x in og if kind == "lit" and x is not None]))
    R.rule("directives", "every directive of a format finds an argument of its type")
    for f, c, n, k, va, fmts in calls:
        if va > len(c.ops) or (c.callee in P.funcs and not P.funcs[c.callee].d.get("vararg", 1)):
            continue
        args = c.ops[va:]
        for fmt in fmts:
            exp, err = expected(fmt, c.callee in objformatters(P))
            key = "args@%s:%s" % (f.cname, n)
            if err:
                R.check(False, key, c.where(), "%s in the format %r" % (err, fmt))
                continue
            if len(exp) > len(args):
                R.check(False, key, c.where(), "%r needs %d arguments but gets %d" % (fmt, len(exp), len(args)))
                continue
            msg = None
            for (want, d), a in zip(exp, args):
                t = argtype(P, f, a)
                if want == "octal":
                    # an octal number, unless the argument is an object
                    if (P.ditype(f, a) or "") == "obj":
                        msg = "%s gets an object, which this formatter prints as a number" % d
                        break
                    want = "i32"
                if want in ("str", "ptr"):
                    if t not in ("ptr", "?"):
                        msg = "%s gets a number (%s)" % (d, t)
                    elif want == "str":
                        dt = (chartype(P, f, a) or "").replace("const ", "").replace("volatile ", "").replace("unsigned ", "").replace("signed ", "")
                        if dt and dt.startswith(("struct ", "union ")) or dt.startswith(("uint32_t", "int ", "obj")) and dt.endswith("*"):
                            msg = "%s gets a value of type %s" % (d, dt)
                elif t not in (want, "?", "int"):
                    msg = "%s gets a value of type %s" % (d, t)
                if msg:
                    break
            R.check(not msg, key, c.where(), msg or "")
