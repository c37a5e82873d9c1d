"""Tables of functions, methods, keyword arguments and commands (C23)."""
import re
from rules import prop
from rules.r_index import bounds
from prog import vid, kint, isnull, AnalysisBroken


# keywords that are known but deliberately accept no value
NOTYPE = {("__const.func_compiler_find_library.akw", "header_no_builtin_args"), ("__const.func_compiler_find_library.akw", "header_prefix")}


def scans(P):
    """(struct, field) -> terminating value, for tables that code walks through a pointer until a row ends them."""
    out = {}
    B = bounds(P)
    for f in P.funcs.values():
        cfg = None
        for i in f.instrs():
            if i.op != "icmp" or i.d["pred"] not in ("eq", "ne"):
                continue
            v = vid(i.ops[0])
            if v is None or v in f.argids or f.defs[v].op != "load":
                continue
            ld = f.defs[v]
            a = vid(ld.ops[0])
            if a is None or a in f.argids:
                continue
            # peel the member off, then the variable row
            fl, g = None, f.defs[a]
            rows = 0
            for _ in range(6):
                if g.op != "getelementptr":
                    break
                for s in g.steps:
                    if "f" in s and fl is None:
                        fl = (s["s"], s["f"])
                    elif "idx" in s and kint(s["idx"]) is None:
                        rows += 1
                b = vid(g.d["base"])
                if b is None or b in f.argids:
                    break
                g = f.defs[b]
            if not rows:
                continue
            if fl is None:
                t = (P.ditype(f, ld.ops[0]) or "").replace("const ", "")
                m = re.match(r"struct (\w+) \*$", t)
                if not m or m.group(1) not in P.structs:
                    continue
                fl = (m.group(1), P.structs[m.group(1)]["fields"][0][0])
            term = "null" if isnull(i.ops[1]) else kint(i.ops[1])
            if term is None:
                continue
            cfg = cfg or B.cfg(f)
            if i.bb not in cfg.num or not cfg.reaches(i.bb, i.bb):
                continue
            t = f.blocks[i.bb][-1]
            if t.op != "br" or len(t.d["succ"]) != 2 or vid(t.ops[0]) != i.id:
                continue
            ex = t.d["succ"][0 if i.d["pred"] == "eq" else 1]
            if cfg.reaches(ex, i.bb):
                continue
            out.setdefault(fl, (term, f.cname))
    return out


def image(P, f, a):
    """Rows of a local table as first set up: {row: {field number: value}}; None when it is not."""
    B = bounds(P)
    base, rows, n = None, {}, a.d.get("n")
    for i in f.instrs():
        if i.op == "call" and (i.callee or "").startswith("llvm.mem") and vid(i.ops[0]) == a.id and base is None:
            if i.callee.startswith("llvm.memcpy") and isinstance(i.ops[1], dict) and "g" in i.ops[1]:
                base = P.globals.get(i.ops[1]["g"], {}).get("init")
            elif i.callee.startswith("llvm.memset") and kint(i.ops[1]) == 0:
                base = {"zero": 1}
        elif i.op == "store" and B.rootalloca(f, i.ops[1]) == a.id:
            _, p = B.position(f, i.ops[1])
            p = B.leafpath(p, a.d.get("aty")) if p is not None else None
            if p is None:
                continue
            p = (p + [0, 0])[:2]
            rows.setdefault(p[0], {}).setdefault(p[1], i.ops[0])
    return base, rows


@prop("C23")
def tables(P, R):
    R.rule("terminated", "every table that is walked up to a terminating row has one, and no row behind it")
    sc = scans(P)
    want = {"func_impl", "args_kw", "args_norm"}
    if want - {s for s, _ in sc}:
        raise AnalysisBroken("no code walks tables of %s" % ", ".join(sorted(want - {s for s, _ in sc})))
    tabs = []
    for n, g in sorted(P.globals.items()):
        t = (g.get("dt") or P.gtype(g)).replace("const ", "")
        m = re.match(r"struct (\w+)\[(\d+)\]$", t)
        if not m or "init" not in g:
            continue
        for (s, fld), (term, where) in sc.items():
            if s != m.group(1):
                continue
            if not g.get("const") and n in bounds(P).writtenglobals():
                continue        # filled at run time
            rows = P.typed_init(g["init"], t)
            if not isinstance(rows, list):
                rows = []
            vals = [leaf(r.get(fld)) if isinstance(r, dict) else 0 for r in rows]
            tabs.append((n, n.split("@")[0], g, s, fld, term, vals, rows, tabwhere(P, n)))
    for f in sorted(P.funcs.values(), key=lambda f: (f.file, f.line)):
        for a in f.instrs():
            if a.op != "alloca":
                continue
            m = re.match(r"struct (\w+)\[(\d+)\]$", (a.d.get("dt") or "").replace("const ", ""))
            if not m:
                continue
            for (s, fld), (term, where) in sc.items():
                if s != m.group(1):
                    continue
                base, rows = image(P, f, a)
                if base is None and not rows:
                    continue
                if base is not None and not (isinstance(base, dict) and base.get("zero")) and not rows:
                    continue            # a copy of a constant table: decided there
                k = [x[0] for x in P.structs[s]["fields"]].index(fld)
                brows = P.typed_init(base, a.d["dt"].replace("const ", "")) if base is not None else []
                vals = []
                for r in range(int(m.group(2))):
                    o = rows.get(r, {}).get(k)
                    if o is not None:
                        vals.append("?" if vid(o) is not None else leaf(o))
                    elif isinstance(brows, list) and r < len(brows) and isinstance(brows[r], dict):
                        vals.append(leaf(brows[r].get(fld)))
                    else:
                        vals.append(0)
                tabs.append((f.name, "%s.%s" % (f.cname, a.d.get("name")), None, s, fld, term, vals, None, f.loc()))
                R.fn(f.name)
    for n, nm, g, s, fld, term, vals, rows, where in tabs:
        ends = [k for k, v in enumerate(vals) if v == (0 if term == "null" else term)]
        R.check(bool(ends), "terminator@" + nm, where, "the table %s has no row whose %s ends it: a walk of it does not stop" % (nm, fld))
        late = [k for k, v in enumerate(vals) if ends and k > ends[0] and v not in (0, "?", term)]
        R.check(not late, "hidden@" + nm, where, "row %s of %s lies behind the row that ends the table: it is never found" % (late[0] if late else "", nm))
    R.rule("unique", "no two rows of a table that can be found have the same name")
    for n, nm, g, s, fld, term, vals, rows, where in tabs:
        if term != "null":
            continue
        live = vals[:vals.index(0)] if 0 in vals else vals
        names = [v for v in live if isinstance(v, str) and v != "?"]
        dup = sorted({v for v in names if names.count(v) > 1})
        R.check(not dup, "unique@" + nm, where, "%s has two rows named %s" % (nm, dup[0] if dup else ""))
    R.rule("complete", "every row that can be found has a function, and every keyword a type")
    for n, nm, g, s, fld, term, vals, rows, where in tabs:
        if rows is None or s not in ("func_impl", "args_kw"):
            continue
        need = {"func_impl": "func", "args_kw": "type"}[s]
        for k, r in enumerate(rows):
            if k >= len(vals) or not vals[k]:
                break
            R.check(bool(leaf(r.get(need))) or (nm, vals[k]) in NOTYPE, "row@%s:%s" % (nm, vals[k]), where, "the row %s of %s has no %s" % (vals[k], nm, need))


def leaf(v):
    """0 for nothing, the text of a string, the number, or something true."""
    if v is None or isnull(v):
        return 0
    if isinstance(v, dict):
        if "str" in v:
            return v["str"]
        if v.get("zero") or v.get("null"):
            return 0
        k = kint(v)
        if k is not None:
            return k
        return "?"
    if isinstance(v, (int, float)):
        return v
    return "?"


def tabwhere(P, n):
    m = re.match(r"__const\.(\w+)\.", n)
    if m:
        for f in P.funcs.values():
            if f.cname == m.group(1):
                return f.loc()
    g = P.globals[n]
    return "%s:%s" % (n.split("@")[-1] if "@" in n else g.get("file", n), g.get("line", 0))


@prop("C23")
def dispatch(P, R):
    """Tables of operations per compiler and linker are complete."""
    R.rule("operations", "in the tables of compiler and linker operations, filled row by row, every operation of every row is set to a function")
    found = 0
    tabs = {}
    for f in P.funcs.values():
        for i in f.instrs():
            if i.op == "store" and isinstance(i.ops[1], dict) and "g" in i.ops[1]:
                tabs.setdefault(i.ops[1]["g"], []).append((f, i))
    for t, sts in sorted(tabs.items()):
        g = P.globals.get(t)
        m = re.match(r"struct (\w+)\[(\d+)\]$", P.gtype(g)) if g else None
        if not m or m.group(1) not in P.structs:
            continue
        size, n = P.structs[m.group(1)]["size"], int(m.group(2))
        ops = {i.ops[1].get("off", 0) % size for f, i in sts if isinstance(i.ops[0], dict) and "fn" in i.ops[0]}
        if not ops:
            continue
        nm = t.split("@")[0]
        have = {}
        for f, i in sts:
            R.fn(f.name)
            have.setdefault(i.ops[1].get("off", 0), []).append(i)
        for k in range(n):
            for o in sorted(ops):
                w = have.get(k * size + o, [])
                found += 1
                fld = P.field_at("struct " + m.group(1), o)
                R.check(bool(w) and not any(isnull(x.ops[0]) for x in w), "op@%s[%d]" % (nm, k), w[0].where() if w else sts[0][0].loc(),
                        "operation %s of row %d of %s is never set: using it calls nothing" % (".".join(map(str, fld)) if isinstance(fld, (tuple, list)) else fld or o, k, nm))
    if not found:
        raise AnalysisBroken("no tables of operations found")
