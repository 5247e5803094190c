"""Structural rules: absolute obligations checked at every instance found in the
resolved program.  Each rule is fn(ctx) -> (diffs, instances, description)."""
import ast
import json
import os
import re
import program as P
import ref

DESIGNS = ["add", "mult", "mlp", "mlp_int8", "dlrm", "dlrm_two_rad", "npu"]
_cache = {}


def D(f, line, what):
    return ref.Diff(f["name"] if isinstance(f, dict) else f, f["file"] if isinstance(f, dict) else "", line, what)


def prog(group, progs):
    if group not in progs:
        p = P.load([group])
        r = ref.load_ref(group)
        fa, da = ref.aliases(p, r)
        if fa or da:
            ref.apply_aliases(p, fa, da)
        p.alias = (fa, da)
        progs[group] = p
    return progs[group]


def exprs(x):
    """every expression (list) node below x, outermost first"""
    if isinstance(x, list):
        if x and isinstance(x[0], str):
            yield x
        for y in x:
            yield from exprs(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from exprs(y)


def strings(x):
    return [e[1] for e in exprs(x) if e[0] == "str" and len(e) == 2]


# ------------------------------------------------------------------ processes
def processes(p):
    """(class, ctor, kind, function) of every registered process"""
    out = []
    for f in p.fns.values():
        if not f.get("ctor"):
            continue
        for e in exprs(f["body"]):
            if e[0] == "mcall" and re.match(r"create_(method|thread|cthread)_process$", e[2].rsplit("::", 1)[-1] if e[2] else e[3]):
                m = [x[1] for x in exprs(e) if x[0] == "fn"]
                if m:
                    out.append((f["cls"], f, e[3][7:-8], m[0], e[5]))
    return out


def is_wait(e):
    return e[0] in ("mcall", "call") and (e[2] if e[0] == "mcall" else e[1]).rsplit("::", 1)[-1] == "wait"


class Waits:
    """Does every path through a statement pass a wait?  Result: set of ways to
    leave: 'f' (falls through without wait), 'F' (with), 'b'/'B' break, 'c'/'C'
    continue, 'r' return; upper case after a wait."""

    def __init__(self, p, cls):
        self.p, self.cls, self.memo = p, cls, {}

    def ex(self, e):
        """expression: waits on every evaluation?"""
        if e is None:
            return False
        for x in exprs(e):
            if is_wait(x):
                return True
            if x[0] in ("mcall", "call"):
                h = self.p.fns.get(x[7] if x[0] == "mcall" else x[4])
                if h is not None and h.get("body") and self.fn(h):
                    return True
        return False

    def fn(self, h):
        if h["usr"] in self.memo:
            return self.memo[h["usr"]]
        self.memo[h["usr"]] = False
        r = self.st(h["body"])
        self.memo[h["usr"]] = not (r & {"f", "r"})
        return self.memo[h["usr"]]

    def st(self, s):
        if s is None:
            return {"f"}
        k = s["s"]
        if k == "{":
            cur, out = {"f"}, set()
            for x in s["b"]:
                r = self.st(x)
                nxt = set()
                for c in cur:
                    for y in r:
                        y2 = y.upper() if c == "F" else y
                        (nxt if y2 in "fF" else out).add(y2)
                cur = nxt
                if not cur:
                    break
            return out | cur
        if k == "if":
            pre = self.ex(s["c"])
            r = self.st(s.get("t")) | self.st(s.get("e"))
            return {y.upper() for y in r} if pre else r
        if k in ("x", "decl", "ret"):
            w = self.ex(s.get("e") if k == "x" else s.get("v") if k == "ret" else s.get("d"))
            c = "r" if k == "ret" else "f"
            return {c.upper() if w else c}
        if k == "break":
            return {"b"}
        if k == "continue":
            return {"c"}
        if k in ("for", "while", "range", "do"):
            r = self.st(s["b"])
            inf = k in ("for", "while") and (s.get("c") in (None, ["bool", True], ["int", 1, "int"]) or s.get("c", [None])[0] == "bool" and s["c"][1] is True)
            if inf:
                out = set()
                if "b" in r:
                    out.add("f")
                if "B" in r:
                    out.add("F")
                return out | (r & {"r", "R"})
            if k == "do":
                first = {("f" if y in "fcb" else "F" if y in "FCB" else y) for y in r}
                return first
            return {"f"} | (r & {"r", "R"})
        if k == "switch":
            r = self.st(s["b"])
            return {"f" if y in "bf" else "F" if y in "BF" else y for y in r} | {"f"}
        if k in ("case", "default", "try"):
            return self.st(s["b"])
        return {"f"}


def loops(s):
    """infinite loops in a body"""
    if isinstance(s, dict):
        if s.get("s") in ("while", "for") and (s.get("c") is None or s["c"][0] in ("bool", "int") and s["c"][1] in (True, 1) or s["c"][0] == "cast" and s["c"][-1] and str(s["c"][-1]).find("1") > 0):
            yield s
        else:
            for y in s.values():
                yield from loops(y)
    elif isinstance(s, list):
        for y in s:
            yield from loops(y)


SIGT = re.compile(r"sc_core::sc_(in|inout|out|signal)\b|sc_core::sc_(signal_in_if|signal_inout_if)")


def spath(e, subst=None):
    """member path of a signal expression, indexes dropped; None if not rooted at this"""
    if e[0] == "mem":
        if e[1] == ["this"] or e[1] and e[1][0] == "this":
            return e[2]
        b = spath(e[1], subst)
        return None if b is None else b + "." + e[2]
    if e[0] in ("idx",):
        return spath(e[1], subst)
    if e[0] == "op" and e[1] == "[]":
        return spath(e[3][0], subst)
    if e[0] == "mcall" and e[3] in ("at", "front", "back"):
        return spath(e[1], subst)
    if e[0] == "cast":
        return spath(e[-1], subst) if isinstance(e[-1], list) else None
    if e[0] == "un" and e[1] in ("*", "&"):
        return spath(e[2], subst)
    if e[0] == "var" and subst and e[1] in subst:
        return subst[e[1]]
    return None


def reads(p, f, seen=None):
    """signal paths read by f and the same-class helpers it calls"""
    seen = seen if seen is not None else set()
    if f["usr"] in seen:
        return {}
    seen.add(f["usr"])
    out = {}
    subst = {}

    def go(x):
        if isinstance(x, dict):
            if x.get("s") == "range":
                b = spath(x["r"]) if isinstance(x.get("r"), list) else None
                if b:
                    subst[x["n"]] = b
            if x.get("s") == "decl":
                for d in x["d"]:
                    if d.get("ref") and isinstance(d.get("i"), list):
                        b = spath(d["i"], subst)
                        if b:
                            subst[d["n"]] = b
            for y in x.values():
                go(y)
        elif isinstance(x, list):
            if x and x[0] == "mcall" and (x[3] == "read" or x[3].startswith("operator ") ) and x[2] and "sc_core::" in x[2]:
                q = spath(x[1], subst)
                if q:
                    out.setdefault(q, x[5])
            elif x and x[0] == "mcall" and x[1] and x[1][0] == "this":
                h = p.fns.get(x[7])
                if h is not None and h.get("cls") == f.get("cls"):
                    for q, l in reads(p, h, seen).items():
                        out.setdefault(q, l)
            for y in x:
                go(y)
    go(f["body"])
    return out


def sens(p, ctor):
    """process function -> set of signal paths it is sensitive to (statement order)"""
    out = {}
    cur = [None]
    subst = {}

    def go(x):
        if isinstance(x, dict):
            if x.get("s") == "range":
                b = spath(x["r"]) if isinstance(x.get("r"), list) else None
                if b:
                    subst[x["n"]] = b
            for k, y in x.items():
                go(y)
        elif isinstance(x, list):
            if x and x[0] == "mcall" and re.match(r"create_\w+_process$", x[3] or ""):
                m = [y[1] for y in exprs(x) if y[0] == "fn"]
                cur[0] = m[0] if m else None
            if x and x[0] == "op" and x[1] == "<<" and "sc_sensitive" in (x[2] or ""):
                for a in x[3]:
                    go(a)
                a = x[3][1]
                for y in [a] + list(exprs(a)):
                    q = spath(y, subst)
                    if q and cur[0]:
                        out.setdefault(cur[0], set()).add(q)
                return
            if x and x[0] == "mcall" and x[1] and x[1][0] == "this":
                h = p.fns.get(x[7])
                if h is not None and h.get("cls") == ctor.get("cls"):
                    go(h["body"])
            for y in x:
                go(y)
    go(ctor["body"])
    return out


def r_process(progs):
    diffs, n = [], 0
    for g in ["noc", "sim", "dram"] + ["design:" + d for d in DESIGNS]:
        p = prog(g, progs)
        byctor = {}
        for cls, ctor, kind, fname, line in processes(p):
            own = ctor["file"]
            if g.startswith("design:") and "/example-designs/" not in own:
                continue
            fs = [f for f in p.byname.get(fname, []) if f.get("body")]
            if not fs:
                continue
            f = fs[0]
            n += 1
            W = Waits(p, cls)
            if kind in ("thread", "cthread"):
                ls = list(loops(f["body"]))
                if not ls:
                    # a process that ends is allowed when it waits at least once
                    continue
                for l in ls:
                    r = W.st(l["b"])
                    if r & {"f", "c"}:
                        diffs.append(D(f, l["l"], "one turn of the process loop can finish without waiting for the clock"))
            else:
                if any(is_wait(e) for e in exprs(f["body"])):
                    diffs.append(D(f, f["line"], "a combinational process waits"))
                if ctor["usr"] not in byctor:
                    byctor[ctor["usr"]] = sens(p, ctor)
                have = byctor[ctor["usr"]].get(fname, set())
                for q, l in reads(p, f).items():
                    if q not in have:
                        diffs.append(D(f, l, "reads signal %s which is not in the sensitivity list of the process" % q))
    return diffs, n, "each process loop waits in every turn; each combinational process is sensitive to every signal it reads"


# ------------------------------------------------------------------ message classes
CLS = {"ReadReq": "READ_REQUEST", "WriteReq": "WRITE_REQUEST", "WriteData": "WRITE_DATA", "ReadReply": "READ_REPLY", "WriteReply": "WRITE_REPLY"}


def flit_enums(e):
    return {x[1].rsplit("::", 1)[-1] for x in exprs(e) if x[0] == "enum" and x[1].rsplit("::", 1)[-1] in CLS.values()}


def r_vcclass(progs):
    p = prog("booksim", progs)
    diffs, n = [], 0
    for f in p.fns.values():
        if not f.get("body"):
            continue
        uses = {}

        def go(x, ctx, neg):
            nonlocal n
            if isinstance(x, dict):
                if x.get("s") == "if":
                    en = flit_enums(x["c"])
                    go(x["c"], ctx, neg)
                    pos = en and any(y[0] == "bin" and y[1] == "==" for y in exprs(x["c"]))
                    go(x.get("t"), en if pos else ctx, neg)
                    go(x.get("e"), ctx, neg | en if pos else neg)
                    return
                if x.get("s") == "case":
                    en = flit_enums(x.get("v"))
                    go(x.get("b"), en or ctx, neg)
                    return
                if x.get("s") == "{" and any(isinstance(y, dict) and y.get("s") == "case" for y in x["b"]):
                    cur = ctx
                    for y in x["b"]:
                        if y.get("s") in ("case", "default"):
                            cur = flit_enums(y.get("v")) or ctx
                        go(y, cur, neg)
                    return
                for y in x.values():
                    go(y, ctx, neg)
            elif isinstance(x, list):
                if x and x[0] == "cond" and len(x) > 3:
                    en = flit_enums(x[1])
                    go(x[1], ctx, neg)
                    go(x[2], en or ctx, neg)
                    go(x[3], ctx, neg | en)
                    return
                if x and x[0] == "var" and isinstance(x[1], str):
                    m = re.match(r"g(ReadReq|WriteReq|WriteData|ReadReply|WriteReply)(Begin|End)VC$", x[1])
                    if m and f["name"] != "InitializeRoutingMap":
                        n += 1
                        uses.setdefault(m.group(1), set()).add(m.group(2))
                        if ctx and CLS[m.group(1)] not in ctx or CLS[m.group(1)] in neg and not ctx:
                            diffs.append(D(f, f["line"], "the %s range is used for class %s" % (CLS[m.group(1)], "/".join(sorted(ctx or neg)))))
                for y in x:
                    go(y, ctx, neg)
        go(f["body"], set(), set())
        for c, u in uses.items():
            if len(u) != 2:
                diffs.append(D(f, f["line"], "only the %s of the %s range is used" % (next(iter(u)).lower(), CLS[c])))
        if uses and len(uses) != 5 and re.search(r"\(Router\*|Router", "".join(q[2] for q in f["params"])):
            diffs.append(D(f, f["line"], "classes %s have no range of their own" % sorted(set(CLS) - set(uses))))
    return diffs, n, "every use of a class's VC range is under that class's condition, with both ends, for all five classes"


# ------------------------------------------------------------------ bundles
def r_bundle(progs):
    p = prog("noc", progs)
    diffs, n = [], 0
    for f in p.fns.values():
        if not re.match(r"ax(is|imm)_\w+::", f["name"]) or not f["file"].endswith("_interface.hpp"):
            continue
        for e in exprs(f["body"]):
            a = b = None
            if e[0] == "op" and e[1] in ("()", "=") and len(e[3]) == 2:
                a, b = e[3]
            elif e[0] == "asg":
                a, b = e[2], e[3]
            elif e[0] == "mcall" and e[3] in ("bind", "write") and isinstance(e[4], list) and len(e[4]) == 1:
                a, b = e[1], e[4][0]
            if a is None:
                continue
            b = next((y for y in exprs(b) if y[0] == "mem"), None)
            if a[0] == "mem" and b is not None:
                n += 1
                if a[2] != b[2]:
                    diffs.append(D(f, f["line"], "signal %s is joined with %s" % (a[2], b[2])))
        rec = p.recs.get(f["cls"] or "")
        if rec and f["name"].rsplit("::", 1)[-1] == "Reset":
            n += 1
        if rec and re.search(r"::Connect", f["name"]):
            names = {x[0] for x in rec["fields"]}
            used = {e[2] for e in exprs(f["body"]) if e[0] == "mem" and (e[3] or "").startswith(f["cls"] + "::")}
            n += 1
            for m in sorted(names - used):
                diffs.append(D(f, f["line"], "signal %s of the bundle is left unconnected" % m))
    return diffs, n, "same-named signals are joined and every signal of a bundle is connected"


# ------------------------------------------------------------------ parameter names
def gen_names():
    """names the generator writes: keys of its dictionaries plus literals it writes"""
    src = open(P.RS + "/config.py", encoding="utf-8").read()
    t = ast.parse(src)
    out, cluster = set(), set()
    for n in ast.walk(t):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Dict):
            ks = {k.value for k in n.value.keys if isinstance(k, ast.Constant)}
            if n.targets[0].id in ("radsim_knobs", "cluster_knobs"):
                out |= ks
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str) and isinstance(n.ctx, ast.Store):
            out.add(n.slice.value)
    for n in ast.walk(t):
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            m = re.match(r"(\w+) $", n.value)
            if m:
                out.add(m.group(1))
    return out


def parser_tables(p):
    """parameter name -> (type, shared) the parser stores it under"""
    f = p.byname.get("ParseRADSimKnobs", [None])[0]
    out = {}
    if f is None:
        return f, out

    def go(x, names):
        if isinstance(x, dict):
            if x.get("s") == "if":
                ns = {s for s in strings(x["c"])} if any(e[0] == "op" and e[1] == "==" or e[0] == "call" and "operator==" in str(e[1]) for e in exprs(x["c"])) else set()
                go(x.get("t"), ns or names)
                go(x.get("e"), names)
                return
            for y in x.values():
                go(y, names)
        elif isinstance(x, list):
            if x and x[0] == "mcall":
                m = re.match(r"Add(Int|Double|String)(Vector)?Knob(PerRad|Shared)$", x[3])
                if m:
                    for nm in names:
                        out.setdefault(nm, set()).add("".join(y or "" for y in m.groups()))
            for y in x:
                go(y, names)
    go(f["body"], set())
    return f, out


def r_knobs(progs):
    written = gen_names()
    f, tab = parser_tables(prog("sim", progs))
    diffs, n = [], 0
    special = {"telemetry_num_traces", "radsim_user_design_root_dir"}
    for g in ["noc", "sim", "dram"] + ["design:" + d for d in DESIGNS]:
        p = prog(g, progs)
        for h in p.fns.values():
            if g.startswith("design:") and "/example-designs/" not in h["file"]:
                continue
            for e in exprs(h["body"]):
                if e[0] == "mcall" and (e[2] or "").startswith("RADSimConfig::"):
                    m = re.match(r"(?:Get|Has)(Int|Double|String)(Vector)?Knob(PerRad|Shared)$", e[3])
                    ss = strings(e[4][:1]) if m else []
                    if m and ss:
                        n += 1
                        nm = ss[0]
                        if nm not in written and nm not in special:
                            diffs.append(D(h, e[5] if isinstance(e[5], int) else h["line"], "reads parameter '%s', which the generator never writes" % nm))
                        kind = "".join(y or "" for y in m.groups())
                        if nm in tab and kind not in tab[nm]:
                            diffs.append(D(h, h["line"], "reads parameter '%s' as %s but it is stored as %s" % (nm, kind, "/".join(sorted(tab[nm])))))
    return diffs, n, "each parameter read by name is written by the generator and stored under the type and scope it is read with (%d parser entries)" % len(tab)


TECH_FILE = re.compile(r"power/power_module\.cpp$")     # its parameters come from the technology file


def r_booksim(progs):
    p = prog("booksim", progs)
    decl = {}
    c = [f for f in p.fns.values() if f["name"] == "BookSimConfig::BookSimConfig"]
    for f in c:
        for e in exprs(f["body"]):
            if e[0] == "asg" and e[2][0] in ("idx", "op"):
                m = next((y[2] for y in exprs(e[2]) if y[0] == "mem" and y[2] in ("_int_map", "_float_map", "_str_map")), None)
                ss = strings(e[2])
                if m and ss:
                    decl.setdefault(ss[0], set()).add({"_int_map": "Int", "_float_map": "Float", "_str_map": "Str"}[m])
            if e[0] == "op" and e[1] == "=":
                m = next((y[2] for y in exprs(e[3][0]) if y[0] == "mem" and y[2] in ("_int_map", "_float_map", "_str_map")), None)
                ss = strings(e[3][0])
                if m and ss:
                    decl.setdefault(ss[0], set()).add({"_int_map": "Int", "_float_map": "Float", "_str_map": "Str"}[m])
            if e[0] == "mcall" and e[3] == "AddStrField":
                ss = strings(e[4][0])
                if ss:
                    decl.setdefault(ss[0], set()).add("Str")
    diffs, n = [], 0
    for g in ["booksim", "noc"]:
        q = prog(g, progs)
        for f in q.fns.values():
            if g == "noc" and "/booksim/" in f["file"] or TECH_FILE.search(f["file"]):
                continue
            for e in exprs(f["body"]):
                if e[0] == "mcall" and re.match(r"Get(Int|Float|Str)(Array)?$", e[3]) and re.match(r"(BookSim)?Config", e[2] or ""):
                    k = re.match(r"Get(Int|Float|Str)(Array)?$", e[3])
                    ss = strings(e[4][0]) if e[4] else []
                    if len(ss) != 1 or any(y[0] in ("op", "bin") for y in exprs(e[4][0])):
                        continue
                    n += 1
                    want = "Str" if k.group(2) else k.group(1)
                    if ss[0] not in decl:
                        diffs.append(D(f, f["line"], "reads undeclared parameter '%s'" % ss[0]))
                    elif want not in decl[ss[0]]:
                        diffs.append(D(f, f["line"], "reads parameter '%s' as %s, declared as %s" % (ss[0], want, "/".join(decl[ss[0]]))))
    return diffs, n, "each network parameter read by name is declared with that type (%d declarations)" % len(decl)


def r_stats(progs):
    p = prog("dramsim3", progs)
    decl = {}
    for f in p.fns.values():
        for e in exprs([f["body"], f.get("inits", [])]):
            if e[0] == "mcall" and e[3] in ("InitStat", "InitVecStat", "InitHistoStat"):
                ss = strings(e[4])
                if ss:
                    kind = ss[1] if e[3] == "InitStat" and len(ss) > 1 else {"InitStat": "?", "InitVecStat": "vec_" + re.sub("^vec_", "", ss[1] if len(ss) > 1 else ""), "InitHistoStat": "histo"}[e[3]]
                    decl[ss[0]] = kind
    diffs, n = [], 0
    want = {"Increment": ("counter",), "IncrementVec": ("vec_counter",), "IncrementVecBy": ("vec_counter",), "AddValue": ("histo",), "IncrementBy": ("counter",)}
    for f in p.fns.values():
        for e in exprs(f["body"]):
            if e[0] == "mcall" and e[3] in want and (e[2] or "").startswith("dramsim3::SimpleStats::"):
                ss = strings(e[4][0]) if e[4] else []
                if ss:
                    n += 1
                    if ss[0] not in decl:
                        diffs.append(D(f, f["line"], "updates undeclared statistic '%s'" % ss[0]))
                    elif decl[ss[0]] not in want[e[3]]:
                        diffs.append(D(f, f["line"], "updates statistic '%s' (%s) with %s" % (ss[0], decl[ss[0]], e[3])))
    return diffs, n, "each statistic updated is declared with the matching kind (%d declarations)" % len(decl)


# ------------------------------------------------------------------ pools
def r_pool(progs):
    p = prog("booksim", progs)
    diffs, n = [], 0
    for cls in ("Flit", "Credit"):
        rec = p.recs.get(cls)
        if not rec:
            continue
        fs = [f for f in p.methods(cls) if f["name"].rsplit("::", 1)[-1] in ("New", "Reset")]
        touched = set()

        def go(f, seen):
            for e in exprs(f["body"]):
                if e[0] == "asg" and e[2][0] == "mem":
                    touched.add(e[2][2])
                elif e[0] == "op" and e[1] == "=" and e[3][0][0] == "mem":
                    touched.add(e[3][0][2])
                elif e[0] == "mcall" and e[1] and e[1][0] == "mem" and e[3] in ("clear", "Clear", "reset", "Reset", "assign"):
                    touched.add(e[1][2])
                elif e[0] == "mcall":
                    h = p.fns.get(e[7])
                    if h is not None and h.get("cls") == cls and h["usr"] not in seen:
                        go(h, seen | {h["usr"]})
        for f in fs:
            go(f, {f["usr"]})
        for x in rec["fields"]:
            n += 1
            if x[0] not in touched:
                diffs.append(D(fs[0] if fs else cls, fs[0]["line"] if fs else 0, "field %s of a recycled %s keeps its old value" % (x[0], cls)))
    return diffs, n, "every field of a pooled class is reinitialised when an object is recycled"


# ------------------------------------------------------------------ timing tables
def r_timing(progs):
    p = prog("dramsim3", progs)
    upd = p.byname.get("dramsim3::ChannelState::UpdateTiming", [None])[0]
    tim = [f for f in p.fns.values() if f["name"] == "dramsim3::Timing::Timing"]
    if upd is None or not tim:
        return [], 0, "timing tables"
    applied = {}
    TAB = ("same_bank", "other_banks_same_bankgroup", "other_bankgroups_same_rank", "other_ranks", "same_rank")

    def en(e):
        return [x[1].rsplit("::", 1)[-1] for x in exprs(e) if x[0] == "enum" and "CommandType" in x[1]]

    def walk(x):
        if isinstance(x, dict):
            if x.get("s") == "switch":
                body = x["b"]["b"] if x["b"]["s"] == "{" else [x["b"]]
                cur, open_ = [], True
                for s in body:
                    while s is not None and s["s"] in ("case", "default"):
                        if not open_:
                            cur, open_ = [], True
                        if s["s"] == "case":
                            cur += en(s["v"])
                        s = s["b"]
                    if s is None:
                        continue
                    for e in exprs(s):
                        if e[0] == "mem" and e[2] in TAB:
                            for c in cur:
                                applied.setdefault(c, set()).add(e[2])
                    if any(y.get("s") == "break" for y in [s] if isinstance(y, dict)):
                        open_ = False
                return
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    walk(upd["body"])
    diffs, n = [], 0
    for f in tim:
        for e in exprs(f["body"]):
            tgt = None
            if e[0] == "asg":
                tgt = e[2]
            elif e[0] == "op" and e[1] == "=":
                tgt = e[3][0]
            if tgt is None or tgt[0] not in ("idx", "op"):
                continue
            t = next((y[2] for y in exprs(tgt) if y[0] == "mem" and y[2] in TAB), None)
            cs = en(tgt)
            if t and cs:
                n += 1
                if cs[0] in applied and t not in applied[cs[0]]:
                    diffs.append(D(f, f["line"], "constraints of %s are put in table %s, which is never applied for that command (applied: %s)" % (cs[0], t, ", ".join(sorted(applied[cs[0]])))))
    return diffs, n, "every constraint list is in a table that issuing that command applies"


# ------------------------------------------------------------------ determinism
BAD = re.compile(r"^(std::)?(rand|srand|random|drand48|time|clock|gettimeofday|getpid|clock_gettime)$|std::random_device|std::chrono::.*::now$")
# opted into by a configuration value ("time" as the seed), or reported only
ALLOWED = {("TrafficPattern::New", "time"), ("TrafficManager::TrafficManager", "time"), ("KNCube::InsertRandomFaults", "time"), ("Simulate", "gettimeofday")}
BENCH = re.compile(r"(_test|_driver)\.cpp$")            # stimulus of test benches is an input


def r_determinism(progs):
    diffs, n = [], 0
    for g in ["noc", "sim", "dram", "booksim", "dramsim3"] + ["design:" + d for d in DESIGNS]:
        p = prog(g, progs)
        for f in p.fns.values():
            if g.startswith("design:") and "/example-designs/" not in f["file"]:
                continue
            if g not in ("booksim",) and "/booksim/" in f["file"] or g != "dramsim3" and "DRAMsim3" in f["file"] or BENCH.search(f["file"]):
                continue
            n += 1
            key = {}
            for e in exprs([f["body"], f.get("inits", [])]):
                nm = e[1] if e[0] == "call" and isinstance(e[1], str) else e[2] if e[0] == "mcall" and isinstance(e[2], str) else e[1] if e[0] == "ctor" else ""
                if isinstance(nm, str) and BAD.search(nm):
                    s = nm.rsplit("::", 1)[-1]
                    if (f["name"], s) not in ALLOWED and f["name"].split("::")[0] not in ("ThermalCalculator",):
                        diffs.append(D(f, f["line"], "uses %s" % nm))
            for s in stmts(f["body"]):
                if s.get("s") == "range":
                    t = str(s.get("rt") or "")
                    e = s.get("r")
                    ty = etype(e)
                    if ty and re.search(r"^(const )?std::(unordered_)?(multi)?(map|set)<(const )?[\w: ]+\*", ty):
                        diffs.append(D(f, s.get("l", f["line"]), "iterates over %s, whose order depends on addresses or hashing" % ty[:60]))
    return diffs, n, "no simulated code calls a time, process or unseeded random source, or iterates in address order"


def stmts(x):
    if isinstance(x, dict):
        if "s" in x:
            yield x
        for y in x.values():
            yield from stmts(y)
    elif isinstance(x, list):
        for y in x:
            yield from stmts(y)


def etype(e):
    if not isinstance(e, list) or not e:
        return None
    if e[0] in ("mem",):
        return e[4]
    if e[0] == "var":
        return e[4] if len(e) > 4 else None
    if e[0] == "cast":
        return etype(e[-1]) if isinstance(e[-1], list) else None
    return None


# ------------------------------------------------------------------ bus layout
def layout(values):
    P0 = dict(P.FIX_ALL)
    P.FIX_ALL.update(values)
    try:
        h = P.header_template()
    finally:
        P.FIX_ALL.clear()
        P.FIX_ALL.update(P0)
    return h


def r_layout(progs):
    diffs, n = [], 0
    VS = [{}, {"AXIS_MAX_DATAW": 64, "AXI4_MAX_DATAW": 32, "AXIS_USERW": 7, "AXI4_USERW": 3, "AXIS_STRBW": 5, "AXIS_KEEPW": 9, "AXIS_DEST_FIELDW": 3, "NOC_LINKS_DEST_WIDTH": 9},
          {"AXIS_MAX_DATAW": 1024, "AXI4_MAX_DATAW": 2048, "AXIS_USERW": 130, "AXI4_USERW": 1, "AXIS_STRBW": 128, "AXIS_KEEPW": 1, "AXIS_DEST_FIELDW": 10, "NOC_LINKS_DEST_WIDTH": 30}]
    for vs in VS:
        h = layout(vs)
        if not h:
            return [], 0, "layout"
        consts, macros = {}, {}
        for m in re.finditer(r"^#define\s+(\w+)(\((\w+)[^)]*\))?\s+(.*)$", h, re.M):
            if m.group(2):
                macros[m.group(1)] = m.group(4)
            else:
                consts[m.group(1)] = m.group(4)

        def val(x, d=0):
            if d > 20:
                raise ValueError
            x = re.sub(r"[A-Za-z_]\w*", lambda k: str(val(consts[k.group(0)], d + 1)), x)
            if not re.fullmatch(r"[\d+*() -]+", x):
                raise ValueError(x)
            return eval(x, {"__builtins__": {}})       # plain integer arithmetic only
        for fam, cont in (("AXIS", ["AXIS_TLAST", "AXIS_TUSER", "AXIS_TDATA", "AXIS_TSTRB", "AXIS_TKEEP", "AXIS_TID", "AXIS_TDEST"]),
                          ("AXI4D", ["AXI4_LAST", "AXI4_USER", "AXI4_RESP", "AXI4_DATA"]), ("AXI4A", ["AXI4_LAST", "AXI4_USER", "AXI4_RESP", "AXI4_CTRL", "AXI4_ADDR"]),
                          ("DEST", ["DEST_LOCAL_NODE", "DEST_REMOTE_NODE", "DEST_RAD"])):
            width = {"AXIS_TLAST": "1", "AXIS_TUSER": "AXIS_USERW", "AXIS_TDATA": "AXIS_MAX_DATAW", "AXIS_TSTRB": "AXIS_STRBW", "AXIS_TKEEP": "AXIS_KEEPW",
                     "AXIS_TID": "AXIS_IDW", "AXIS_TDEST": "AXIS_DESTW", "AXI4_LAST": "1", "AXI4_USER": "AXI4_USERW", "AXI4_RESP": "AXI4_RESPW",
                     "AXI4_DATA": "AXI4_MAX_DATAW", "AXI4_CTRL": "AXI4_CTRLW", "AXI4_ADDR": "AXI4_ADDRW", "DEST_LOCAL_NODE": "AXIS_DEST_FIELDW",
                     "DEST_REMOTE_NODE": "AXIS_DEST_FIELDW", "DEST_RAD": "AXIS_DEST_FIELDW"}
            rs = []
            for m in cont:
                if m not in macros:
                    diffs.append(D("generate_radsim_params_header", 0, "layout macro %s is no longer generated" % m))
                    continue
                r = re.search(r"range\((.*),(.*)\)\s*$", macros[m])
                try:
                    hi, lo = val(r.group(1)), val(r.group(2))
                except (ValueError, KeyError, SyntaxError, AttributeError):
                    continue
                n += 1
                if hi - lo + 1 != val(width[m]):
                    diffs.append(D("generate_radsim_params_header", 0, "%s is %d bits wide, its field has %d" % (m, hi - lo + 1, val(width[m]))))
                for m2, h2, l2 in rs:
                    if lo <= h2 and l2 <= hi:
                        diffs.append(D("generate_radsim_params_header", 0, "%s [%d:%d] overlaps %s [%d:%d]" % (m, hi, lo, m2, h2, l2)))
                rs.append((m, hi, lo))
            top = {"AXIS": None, "AXI4D": "AXI4_PAYLOADW", "AXI4A": None, "DEST": "AXIS_DESTW"}[fam]
            if fam == "AXIS":
                rs = [x for x in rs if x[0] in ("AXIS_TLAST", "AXIS_TUSER", "AXIS_TDATA")]
                top = "AXIS_PAYLOADW"
            if top and rs and top in consts:
                n += 1
                mx = max(x[1] for x in rs) + 1
                if mx != val(top) if fam != "DEST" else mx > val(top):
                    diffs.append(D("generate_radsim_params_header", 0, "the %s fields need %d bits, their container has %d" % (fam, mx, val(top))))
    for d in diffs:
        d.file = "rad-sim/config.py"
    return diffs, n, "fields of each link layout are disjoint, as wide as their signals and exactly fill their container, for three width settings"


RULES = {"process_discipline": r_process, "vc_class": r_vcclass, "bundle_names": r_bundle, "knob_names": r_knobs, "booksim_keys": r_booksim,
         "stat_names": r_stats, "pool_reset": r_pool, "timing_tables": r_timing, "determinism": r_determinism, "bus_layout": r_layout}
MINIMUM = {"process_discipline": 60, "vc_class": 100, "bundle_names": 30, "knob_names": 30, "booksim_keys": 60, "stat_names": 10, "pool_reset": 20,
           "timing_tables": 15, "determinism": 500, "bus_layout": 20}


def run(name, progs):
    if name not in _cache:
        _cache[name] = RULES[name](progs)
    return _cache[name]


if __name__ == "__main__":
    import sys
    progs = {}
    for r in sys.argv[1:] or RULES:
        d, n, what = run(r, progs)
        print(r, n, "instances;", what)
        for x in d[:40]:
            print("   ", x.file, x.line, x.fn, x.what)
