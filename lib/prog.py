"""The resolved program: functions, CFGs, SSA values, field accesses, call graph."""
import json
import re
import os
import sys
from collections import defaultdict

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import buildir
from buildir import AnalysisBroken  # noqa: F401


# large-file spellings of the same libc operation
LFS = {n + "64": n for n in "fopen open lstat stat readdir lseek fcntl fseeko ftello".split()}


class Instr:
    __slots__ = ("id", "op", "ty", "ops", "line", "d", "fn", "bb", "ix", "callee", "fptr")

    def __init__(self, d, fn, bb, ix):
        self.d = d
        self.id = d["id"]
        if d.get("callee") in LFS:
            d["callee"] = LFS[d["callee"]]
        self.op = d["op"]
        self.ty = d.get("ty")
        self.ops = d.get("ops", [])
        self.line = d.get("line", 0)
        self.fn = fn
        self.bb = bb
        self.ix = ix
        self.callee = d.get("callee")
        self.fptr = d.get("fptr")

    @property
    def steps(self):
        return self.d.get("steps", [])

    def where(self):
        return "%s:%d" % (self.d.get("infile") or self.fn.file, self.line)

    def infn(self):
        return self.d.get("infn") or self.fn.cname

    def __repr__(self):
        return "<%s %s%%%d %s %s>" % (self.fn.cname, "", self.id, self.op, self.callee or "")


class Func:
    def __init__(self, d):
        self.d = d
        self.name = d["name"]
        self.cname = d.get("cname", d["name"])
        self.file = d.get("file", "")
        self.line = d.get("line", 0)
        self.internal = d.get("internal", False)
        self.decl = d["decl"]
        self.ret = d["ret"]
        self.ditypes = d.get("ditypes", [])
        self.args = d["args"]
        self.argnames = d.get("argnames", [a["name"] for a in d["args"]])
        self.argalias = d.get("argalias", [])
        self.noreturn = d.get("noreturn", False)
        self.blocks = []
        self.defs = {}
        self.uses = None
        self.argids = [a["id"] for a in self.args]
        if not self.decl:
            for bi, b in enumerate(d["blocks"]):
                bl = []
                for i, ins in enumerate(b):
                    I = Instr(ins, self, bi, i)
                    bl.append(I)
                    self.defs[I.id] = I
                self.blocks.append(bl)
            self.succs = []
            for b in self.blocks:
                t = b[-1]
                if t.op == "br":
                    self.succs.append(list(t.d["succ"]))
                elif t.op == "switch":
                    self.succs.append([c[1] for c in t.d["cases"]] + [t.d["default"]])
                else:
                    self.succs.append([])
            self.preds = [[] for _ in self.blocks]
            for i, s in enumerate(self.succs):
                for t in s:
                    if i not in self.preds[t]:
                        self.preds[t].append(i)

    def rettype(self):
        return self.ditypes[0] if self.ditypes else self.ret

    def instrs(self):
        for b in self.blocks:
            for i in b:
                yield i

    def calls(self):
        for b in self.blocks:
            for i in b:
                if i.op == "call":
                    yield i

    def build_uses(self):
        if self.uses is None:
            self.uses = defaultdict(list)
            for i in self.instrs():
                for o in operands(i):
                    if isinstance(o, dict) and "v" in o:
                        self.uses[o["v"]].append(i)
        return self.uses

    def loc(self):
        return "%s:%d" % (self.file, self.line)

    def __repr__(self):
        return "<Func %s>" % self.cname


def operands(i):
    if i.op == "phi":
        for o, _ in i.ops:
            yield o
        return
    for o in i.ops:
        yield o
    if i.fptr is not None:
        yield i.fptr
    if "base" in i.d:
        yield i.d["base"]
    for s in i.d.get("steps", []):
        if "idx" in s:
            yield s["idx"]


def vid(o):
    return o.get("v") if isinstance(o, dict) else None


def kint(o):
    return o.get("k") if isinstance(o, dict) else None


def isnull(o):
    return isinstance(o, dict) and "null" in o


def cstr(o):
    return o.get("str") if isinstance(o, dict) else None


def fnname(o):
    return o.get("fn") if isinstance(o, dict) else None


class Program:
    def __init__(self):
        path, units = buildir.facts_path()
        self.units = units
        self.funcs = {}
        self.decls = {}
        self.globals = {}
        self.structs = {}
        self.enums = defaultdict(list)
        self.enumvals = {}
        tus = []
        for l in open(path):
            o = json.loads(l)
            if o["kind"] == "tu":
                tus.append((o["file"], []))
            else:
                tus[-1][1].append(o)
        self._link(tus)
        for n, es in self.enums.items():
            for e in es:
                for nm, v in e["vals"]:
                    self.enumvals.setdefault(nm, v)
        self.bycname = defaultdict(list)
        for f in self.funcs.values():
            self.bycname[f.cname].append(f)
        # helpers the tree gained since the baseline were inlined into their
        # callers (see irdump --mark): drop the left-over bodies
        self._drop_inlined()
        self.infer_noreturn()
        self.build_fptrs()

    # -- linking --------------------------------------------------------
    def _link(self, tus):
        """Resolve symbols across translation units: external names are shared,
        internal (static) ones are renamed when two units use the same name."""
        defs = defaultdict(list)
        for tu, objs in tus:
            for o in objs:
                if o["kind"] == "func" and not o["decl"]:
                    defs[o["name"]].append((tu, o["internal"]))
        for tu, objs in tus:
            ren = {}
            gren = {}
            for o in objs:
                if o["kind"] == "func" and not o["decl"] and o["internal"] and len(defs[o["name"]]) > 1:
                    ren[o["name"]] = o["name"] + "@" + tu
                if o["kind"] == "global" and o["internal"]:
                    gren[o["name"]] = o["name"] + "@" + tu

            def fix(x):
                if isinstance(x, dict):
                    if "fn" in x and x["fn"] in ren:
                        x["fn"] = ren[x["fn"]]
                    if "g" in x and x["g"] in gren:
                        x["g"] = gren[x["g"]]
                    if "callee" in x and x["callee"] in ren:
                        x["callee"] = ren[x["callee"]]
                    for v in x.values():
                        if isinstance(v, (dict, list)):
                            fix(v)
                elif isinstance(x, list):
                    for v in x:
                        if isinstance(v, (dict, list)):
                            fix(v)
            for o in objs:
                k = o["kind"]
                if k == "func":
                    if not o["decl"]:
                        fix(o["blocks"])
                        o["name"] = ren.get(o["name"], o["name"])
                    f = Func(o)
                    f.tu = tu
                    if f.decl:
                        self.decls.setdefault(f.name, f)
                    elif f.name not in self.funcs:
                        self.funcs[f.name] = f
                elif k == "global":
                    if ren or gren:
                        fix(o.get("init"))
                    o["name"] = gren.get(o["name"], o["name"])
                    o["tu"] = tu
                    if o["name"] not in self.globals or "init" in o:
                        self.globals[o["name"]] = o
                elif k == "struct":
                    old = self.structs.get(o["name"])
                    if old and [x[0] for x in old["fields"]] != [x[0] for x in o["fields"]]:
                        self.structs.setdefault(o["name"] + "@" + tu, o)
                    else:
                        self.structs[o["name"]] = o
                elif k == "enum":
                    if not any(e["vals"] == o["vals"] for e in self.enums[o["name"]]):
                        self.enums[o["name"]].append(o)
        for n in list(self.decls):
            if n in self.funcs:
                del self.decls[n]

    # -- lookup ---------------------------------------------------------
    def fn(self, cname, file=None):
        c = [f for f in self.bycname.get(cname, []) if file is None or f.file == file or f.file.endswith(file)]
        if not c:
            raise AnalysisBroken("anchor vanished: function %s%s" % (cname, " in " + file if file else ""))
        if len(c) > 1:
            raise AnalysisBroken("anchor ambiguous: function %s" % cname)
        return c[0]

    def enum(self, name):
        if name not in self.enumvals:
            raise AnalysisBroken("anchor vanished: enumerator %s" % name)
        return self.enumvals[name]

    def _drop_inlined(self):
        bl = os.path.join(buildir.HERE, "baseline_functions.txt")
        base = set(open(bl).read().split("\n")) if os.path.exists(bl) else None
        self.newfuncs = []
        if base is None:
            return
        used = set()

        def walk(o):
            if isinstance(o, dict):
                if "fn" in o:
                    used.add(o["fn"])
                for v in o.values():
                    walk(v)
            elif isinstance(o, list):
                for v in o:
                    walk(v)
        for f in self.funcs.values():
            for i in f.instrs():
                if i.callee and i.callee != f.name:
                    used.add(i.callee)
                for o in operands(i):
                    walk(o)
        for g in self.globals.values():
            walk(g.get("init"))
        for n in list(self.funcs):
            f = self.funcs[n]
            if f.file + ":" + f.cname not in base:
                if n not in used and n != "main":
                    del self.funcs[n]
                    self.bycname[f.cname].remove(f)
                else:
                    self.newfuncs.append(f)

    # -- noreturn -------------------------------------------------------
    def infer_noreturn(self):
        nr = {n for n, f in self.decls.items() if f.noreturn}
        nr |= {n for n, f in self.funcs.items() if f.noreturn}
        changed = True
        while changed:
            changed = False
            for n, f in self.funcs.items():
                if n in nr:
                    continue
                # can entry reach a ret?
                seen = {0}
                st = [0]
                ok = False
                while st:
                    b = st.pop()
                    dead = False
                    for i in f.blocks[b]:
                        if i.op == "call" and i.callee in nr:
                            dead = True
                            break
                        if i.op == "ret":
                            ok = True
                    if ok:
                        break
                    if dead:
                        continue
                    for s in f.succs[b]:
                        if s not in seen:
                            seen.add(s)
                            st.append(s)
                if not ok:
                    nr.add(n)
                    changed = True
        self.noret = nr

    # -- types / fields --------------------------------------------------
    def ditype(self, f, o):
        """Best effort source type of a value."""
        v = vid(o)
        if v is None:
            if isinstance(o, dict) and "g" in o and not o.get("off"):
                g = self.globals.get(o["g"])
                if g and g.get("dt"):
                    return g["dt"] + " *"
            return None
        if v in f.argids:
            k = f.argids.index(v) + 1
            if len(f.ditypes) == len(f.args) + 1 or (len(f.ditypes) == len(f.args) + 2 and f.ditypes[-1] == "void"):
                t = f.ditypes[k]
                if t == "void *" and f.argalias[k - 1:k] and f.argalias[k - 1].endswith(" *"):
                    return f.argalias[k - 1]
                return t
            return None
        i = f.defs.get(v)
        if i is None:
            return None
        if i.op == "getelementptr":
            st = i.steps
            if st and st[-1].get("dt"):
                return st[-1]["dt"] + " *"
            sty = i.d.get("sty", "")
            if not st or "idx" in st[-1]:
                bt = self.ditype(f, i.d["base"])
                if bt and len(st) <= 1:
                    if st and "n" in st[-1]:
                        b = bt[:-2] if bt.endswith(" *") else bt
                        return b.rsplit("[", 1)[0] + " *" if b.endswith("]") else None
                    return bt
                if sty.startswith("%struct."):
                    return "struct " + sty[8:] + " *"
            return None
        if i.op == "alloca":
            if i.d.get("dt"):
                return i.d["dt"] + " *"
            m = re.fullmatch(r"%struct\.(\w+)(\.\d+)?", i.d.get("aty") or "")
            return "struct " + m.group(1) + " *" if m and m.group(1) in self.structs else None
        if i.op == "load":
            fl = self.field(f, i.ops[0])
            if fl:
                t = self.fieldtype(*fl)
                if t:
                    return t
            t = self.ditype(f, i.ops[0])
            if t and t.endswith(" *"):
                return t[:-2]
            return i.d.get("dt")
        if i.d.get("dt"):
            return i.d["dt"]
        if i.op == "call" and i.callee:
            g = self.funcs.get(i.callee) or self.decls.get(i.callee)
            if g and g.ditypes:
                return g.ditypes[0]
        return None

    def fieldtype(self, s, fld):
        st = self.structs.get(s)
        if not st:
            return None
        for n, t, off in st["fields"]:
            if n == fld:
                return t
        return None

    def field(self, f, o, access=None):
        """(struct, field) accessed through pointer o, resolving offset-0 first fields."""
        t = None
        v = vid(o)
        last = None
        if v is not None and v not in f.argids:
            i = f.defs[v]
            if i.op == "getelementptr" and i.steps:
                s = i.steps[-1]
                if i.d.get("sty") == "i8" and len(i.steps) == 1 and kint(s.get("idx")) is not None:
                    # byte offset produced by SROA: resolve through the base's type
                    bt = self.ditype(f, i.d["base"])
                    if bt and bt.endswith(" *"):
                        return self.field_at(bt[:-2], kint(s["idx"]))
                    return None
                if "f" in s:
                    last = (s["s"], s["f"])
                    t = s.get("dt")
                elif "idx" in s:
                    t = self.ditype(f, o)
                    t = t[:-2] if t and t.endswith(" *") else None
            else:
                t = self.ditype(f, o)
                t = t[:-2] if t and t.endswith(" *") else None
        else:
            if isinstance(o, dict) and o.get("off"):
                g = self.globals.get(o["g"])
                gt = (g.get("dt") or "").replace("const ", "") if g else ""
                if gt.startswith("struct "):
                    st = self.structs.get(gt[7:])
                    if st:
                        for n, ft, off in st["fields"]:
                            if off == o["off"]:
                                return (gt[7:], n)
                return None
            t = self.ditype(f, o)
            t = t[:-2] if t and t.endswith(" *") else None
        depth = 0
        while t and depth < 6:
            t = t.replace("const ", "")
            if not t.startswith("struct ") or t.endswith("]") or t.endswith("*"):
                break
            st = self.structs.get(t[7:])
            if not st or not st["fields"]:
                break
            n, ft, off = st["fields"][0]
            if off != 0:
                break
            last = (t[7:], n)
            t = ft
            depth += 1
        return last

    def field_at(self, t, off, depth=0):
        t = t.replace("const ", "")
        if depth > 8:
            return None
        if t.endswith("]"):
            b, rest = t.split("[", 1)
            first, more = rest.split("]", 1)
            es = self.sizeof(b + more)
            return self.field_at(b + more, off % es, depth + 1) if es else None
        if not t.startswith("struct "):
            return None
        st = self.structs.get(t[7:])
        if not st:
            return None
        best = None
        for n, ft, o in st["fields"]:
            if o <= off:
                best = (n, ft, o)
        if not best:
            return None
        n, ft, o = best
        sub = self.field_at(ft, off - o, depth + 1)
        if sub:
            return sub
        return (t[7:], n) if o == off else None

    def sizeof(self, t):
        t = t.replace("const ", "")
        if t.endswith("]"):
            b, rest = t.split("[", 1)
            first, more = rest.split("]", 1)
            return int(first or 0) * self.sizeof(b + more) if first.lstrip("-").isdigit() else 0
        if t.startswith("struct "):
            st = self.structs.get(t[7:])
            return st["size"] if st else 0
        return {"uint8_t": 1, "int8_t": 1, "char": 1, "unsigned char": 1, "_Bool": 1, "uint16_t": 2, "int": 4, "unsigned int": 4,
                "uint32_t": 4, "int32_t": 4, "obj": 4}.get(t, 4 if t.startswith("enum ") else 8)

    # -- global initialisers ----------------------------------------------
    def typed_init(self, val, dt):
        """Turn a constant initialiser into {field: value} / [elements] using its source type."""
        dt = (dt or "").replace("const ", "")
        if isinstance(val, dict) and "arr" in val:
            if dt.endswith("]"):
                # leftmost dimension first: T[2][3] is an array of 2 T[3]
                b, rest = dt.split("[", 1)
                first, more = rest.split("]", 1)
                return [self.typed_init(e, b + more) for e in val["arr"]]
            sn = dt[7:] if dt.startswith("struct ") else val.get("struct")
            st = self.structs.get(sn)
            if st:
                fl = st["fields"]
                vals = [e for e in val["arr"]]
                # padding elements show up as undef byte arrays
                if len(vals) > len(fl):
                    vals = [e for e in vals if not (isinstance(e, dict) and "undef" in e)]
                return {"__struct__": sn, **{fl[k][0]: self.typed_init(e, fl[k][1]) for k, e in enumerate(vals) if k < len(fl)}}
            return [self.typed_init(e, val.get("struct") and "struct " + val["struct"]) for e in val["arr"]]
        if isinstance(val, dict) and "zero" in val:
            if dt.endswith("]"):
                b, rest = dt.split("[", 1)
                first, more = rest.split("]", 1)
                if first.isdigit() and int(first) < 512:
                    return [self.typed_init({"zero": 1}, b + more) for _ in range(int(first))]
            sn = dt[7:] if dt.startswith("struct ") else None
            st = self.structs.get(sn)
            if st:
                return {"__struct__": sn, **{n: self.typed_init({"zero": 1}, t) for n, t, o in st["fields"]}}
            if dt.endswith("*") or dt == "fn":
                return {"null": 1}
            return 0
        return val

    def ginit(self, name):
        g = self.globals[name]
        return self.typed_init(g.get("init"), g.get("dt") or self.gtype(g))

    def gtype(self, g):
        ty = g.get("ty", "")
        import re as _re
        m = _re.match(r"\[(\d+) x %struct\.([A-Za-z0-9_]+?)(\.\d+)?\]$", ty)
        if m:
            return "struct %s[%s]" % (m.group(2), m.group(1))
        m = _re.match(r"%struct\.([A-Za-z0-9_]+?)(\.\d+)?$", ty)
        if m:
            return "struct " + m.group(1)
        return ""

    def init_leaves(self, g):
        out = []

        def walk(v, s, fld):
            if isinstance(v, dict) and "__struct__" in v:
                for k, e in v.items():
                    if k != "__struct__":
                        walk(e, v["__struct__"], k)
            elif isinstance(v, list):
                for e in v:
                    walk(e, s, fld)
            else:
                out.append((s, fld, v))
        walk(self.typed_init(g.get("init"), g.get("dt") or self.gtype(g)), None, None)
        return out

    # -- function pointers ------------------------------------------------
    def build_fptrs(self):
        self.slot = defaultdict(set)      # (struct, field) -> function names
        self.gslot = defaultdict(set)     # global scalar fptr -> names

        for n, g in self.globals.items():
            for s, fld, v in self.init_leaves(g):
                if fnname(v):
                    if s:
                        self.slot[(s, fld)].add(v["fn"])
                    else:
                        self.gslot[n].add(v["fn"])
        for f in self.funcs.values():
            for i in f.instrs():
                if i.op == "store" and fnname(i.ops[0]):
                    fl = self.field(f, i.ops[1])
                    if fl:
                        self.slot[fl].add(i.ops[0]["fn"])
                    elif isinstance(i.ops[1], dict) and "g" in i.ops[1]:
                        self.gslot[i.ops[1]["g"]].add(i.ops[0]["fn"])
        # parameters that carry a function that is called
        # cbparam: function -> set of parameter indexes which are invoked (transitively)
        self.cbparam = defaultdict(set)
        self.fptypedefs = defaultdict(set)
        for (s, fld), fns in self.slot.items():
            t = self.fieldtype(s, fld)
            if t and not t.endswith("*"):
                self.fptypedefs[t] |= fns
        invoked = set()
        for f in self.funcs.values():
            for c in f.calls():
                if c.callee is None:
                    for s in self.sources(f, c.fptr):
                        v = vid(s)
                        if v is not None and v in f.defs and f.defs[v].op == "load":
                            fl = self.field(f, f.defs[v].ops[0])
                            if fl:
                                invoked.add(fl)
        self.invoked_fields = invoked
        for f in self.funcs.values():
            for i in f.instrs():
                if i.op == "store" and i.d.get("vty") == "ptr":
                    fl = self.field(f, i.ops[1])
                    if fl in invoked:
                        for p in self.param_sources(f, i.ops[0]):
                            self.cbparam[f.name].add(p)
        changed = True
        while changed:
            changed = False
            for f in self.funcs.values():
                for c in f.calls():
                    if c.callee is None:
                        for p in self.param_sources(f, c.fptr):
                            if p not in self.cbparam[f.name]:
                                self.cbparam[f.name].add(p)
                                changed = True
                    else:
                        for k in self.cbparam.get(c.callee, ()):
                            if k < len(c.ops):
                                for p in self.param_sources(f, c.ops[k]):
                                    if p not in self.cbparam[f.name]:
                                        self.cbparam[f.name].add(p)
                                        changed = True

    def sources(self, f, o, seen=None):
        """Non-phi/select/cast roots of a value."""
        seen = seen if seen is not None else set()
        v = vid(o)
        if v is None or v in f.argids:
            yield o
            return
        if v in seen:
            return
        seen.add(v)
        i = f.defs[v]
        if i.op == "phi":
            for x, _ in i.ops:
                yield from self.sources(f, x, seen)
        elif i.op == "select":
            yield from self.sources(f, i.ops[1], seen)
            yield from self.sources(f, i.ops[2], seen)
        elif i.op in ("bitcast", "freeze"):
            yield from self.sources(f, i.ops[0], seen)
        else:
            yield o

    def globals_used(self, f):
        out = set()
        for i in f.instrs():
            for o in operands(i):
                if isinstance(o, dict) and "g" in o and o["g"] in self.globals:
                    out.add(o["g"])
        return out

    def param_sources(self, f, o):
        for s in self.sources(f, o):
            v = vid(s)
            if v is not None and v in f.argids:
                yield f.argids.index(v)

    def fvalue_targets(self, f, o):
        """Functions a function-pointer value may denote (excluding parameters)."""
        out = set()
        for s in self.sources(f, o):
            if fnname(s):
                out.add(s["fn"])
                continue
            v = vid(s)
            if v is None:
                continue
            if v in f.argids:
                continue
            i = f.defs[v]
            if i.op == "call" and i.d.get("dt") in self.fptypedefs:
                out |= self.fptypedefs[i.d["dt"]]
            if i.op == "load":
                p = i.ops[0]
                if isinstance(p, dict) and "g" in p and p["g"] in self.gslot:
                    out |= self.gslot[p["g"]]
                else:
                    fl = self.field(f, p)
                    dt = i.d.get("dt") or self.ditype(f, s) or (self.ditype(f, p) or "")[:-2]
                    if fl:
                        out |= self.slot.get(fl, set())
                    elif dt in self.fptypedefs:
                        # a local of a function-pointer typedef filled through an out
                        # parameter: the tables of that type this function names
                        loc = set()
                        for g in self.globals_used(f):
                            for s2, f2, v2 in self.init_leaves(self.globals[g]):
                                if fnname(v2) and s2 and self.fieldtype(s2, f2) == dt:
                                    loc.add(v2["fn"])
                        out |= loc or self.fptypedefs[dt]
                    else:
                        # element of an array of function pointers
                        pv = vid(p)
                        if pv is not None and pv in f.defs and f.defs[pv].op == "getelementptr":
                            b = f.defs[pv].d["base"]
                            if isinstance(b, dict) and "g" in b:
                                out |= self.gslot.get(b["g"], set())
        return out

    def call_targets(self, c):
        """Set of function names a call instruction may transfer to, callbacks included."""
        cached = c.d.get("_tg")
        if cached is not None:
            return cached
        f = c.fn
        out = set()
        if c.callee:
            out.add(c.callee)
            for k in self.cbparam.get(c.callee, ()):
                if k < len(c.ops):
                    out |= self.fvalue_targets(f, c.ops[k])
            if c.callee in EXT_CALLBACK:
                for k in EXT_CALLBACK[c.callee]:
                    if k < len(c.ops):
                        out |= self.fvalue_targets(f, c.ops[k])
        else:
            out |= self.fvalue_targets(f, c.fptr)
        c.d["_tg"] = out
        return out

    def direct_targets(self, c):
        if c.callee:
            return {c.callee}
        return self.fvalue_targets(c.fn, c.fptr)

    def callers(self):
        if not hasattr(self, "_callers"):
            self._callers = defaultdict(list)
            for f in self.funcs.values():
                for c in f.calls():
                    for t in self.call_targets(c):
                        self._callers[t].append(c)
        return self._callers

    def reach(self, roots, stop=(), edge=None):
        """Functions reachable from roots; returns {name: (caller name, call)}."""
        seen = {r: None for r in roots}
        st = list(roots)
        while st:
            n = st.pop()
            if n in stop:
                continue
            f = self.funcs.get(n)
            if not f:
                continue
            for c in f.calls():
                if edge and not edge(c):
                    continue
                for t in self.call_targets(c):
                    if t not in seen:
                        seen[t] = (n, c)
                        st.append(t)
        return seen

    def chain(self, seen, n):
        out = []
        while n is not None:
            e = seen[n]
            if e is None:
                out.append(n)
                break
            out.append("%s (called at %s)" % (n, e[1].where()))
            n = e[0]
        return " <- ".join(out)


EXT_CALLBACK = {"qsort": [3], "bsearch": [4], "atexit": [0], "signal": [1]}
