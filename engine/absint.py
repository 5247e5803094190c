"""Gated value-numbering interpretation of one function over the whole program.

Executes the resolved syntax tree once per function with predicated state (no
path enumeration, no solver): every store location maps to an MTBDD over opaque
branch atoms; repository helpers are inlined; loops become a domain plus a
transfer function.  The summary of a function is: final value of every location
it may write, every call it makes (with guard, arguments, loop domain) and its
return value, all in canonical form.
"""
import re
import sys
import terms
from terms import *
from program import AnalysisError

sys.setrecursionlimit(100000)

SYM_RE = re.compile(r"^(AXI4|AXIS|NOC_LINKS)_\w+$")
IGN_STREAM = re.compile(r"basic_ostream|basic_ofstream|ostringstream|basic_stringstream|basic_iostream|basic_fstream")
SIGNAL = re.compile(r"^(const )?sc_core::sc_(in|out|inout|signal|in_clk|signal_t|buffer|inout_resolved)\b")
BVT = re.compile(r"^(?:const )?sc_dt::sc_(bv|lv|int|uint|bigint|biguint|signed|unsigned|int_base|uint_base|bv_base|subref|concref|proxy|bitref)")
READERS = {"front", "back", "top", "begin", "end", "find", "at", "rbegin", "rend", "data", "cbegin", "cend",
           "lower_bound", "upper_bound", "operator[]", "operator->", "operator*", "get", "c_str", "count",
           "size", "empty", "range", "to_uint", "to_int", "to_uint64", "to_int64", "to_string", "name", "value_read",
           "pos", "neg", "bit", "event", "posedge", "negedge", "length", "substr", "str", "find_first_of", "find_last_of",
           "value_changed_event", "get_id", "default_event", "posedge_event"}
COUNTS = {"num_available", "num_free", "count", "size", "length"}
PURE_CALLS = {"ceil", "floor", "log2", "log", "pow", "sqrt", "fabs", "abs", "round", "to_string", "make_pair", "make_tuple",
              "stoi", "stod", "atoi", "atof", "strlen", "strcmp", "move", "forward", "advance", "distance", "get", "tie",
              "sc_time_stamp", "numeric_limits", "max_element", "min_element", "exp", "fmod", "isspace", "tolower"}
PY_PURE = {"len", "str", "int", "float", "range", "sorted", "set", "list", "dict", "tuple", "min", "max", "abs", "round", "sum",
           "isinstance", "zip", "enumerate", "reversed", "any", "all", "type", "next", "iter", "map", "filter", "slice", "fmt",
           "hasattr", "getattr", "repr", "bool", "re.match", "re.search", "re.split", "re.findall", "os.path.join", "os.path.exists",
           "os.path.isfile", "os.path.isdir", "os.path.dirname", "os.path.basename", "os.path.splitext", "os.getcwd", "None"}
NORETURN = {"exit", "abort", "_exit", "std::exit", "std::abort"}


GETN = re.compile(r"(?:std::)?(?:__cxx11::|__1::)?get<(\d+)>$")


class Flow:
    __slots__ = ("brk", "cont")

    def __init__(self):
        self.brk = FALSE
        self.cont = FALSE


class Frame:
    def __init__(self, fn, this):
        self.fn = fn
        self.this = this
        self.vars = {}
        self.ret = BOT
        self.retg = FALSE
        self.lambdas = {}
        self.ref = False        # the caller wants the object returned by reference


class Effect:
    __slots__ = ("name", "args", "guard", "loops", "line", "fn", "obj", "seq")


class LoopRec:
    def __init__(self, d):
        self.d = d
        self.dom = None
        self.head = None


class Summary:
    def __init__(self):
        self.final = {}
        self.effects = []
        self.ret = None
        self.iters = []
        self.inlined = set()
        self.lines = {}
        self.dom = {}
        self.deadg = FALSE


def is_int(ty):
    return not any(x in ty for x in ("double", "float"))


class Interp:
    def __init__(self, prog, opaque=(), inline_only=None, maxdepth=12, ignore=()):
        self.prog = prog
        self.opaque = [re.compile(x) for x in opaque]
        self.ignore = [re.compile(x) for x in ignore]
        self.maxdepth = maxdepth
        self._opq = {}
        self._norets = {}
        self.clock, self.wseq, self.batch = 0, {}, set()

    # ------------------------------------------------------------ entry
    def run(self, fn, this=None):
        self.store = {}
        self.types = {}
        self.children = {}
        self.effects = []
        self.iters = []
        self.loops = []
        self.wlog = None
        self.stack = []
        self.dead = FALSE
        self.uid = 0
        self.lamdepth = 0
        self.fresh = {}
        self.inlined = set()
        self.born = set()
        self.lines = {}
        self.locdom = {}
        self.apn = 0
        self.cls = fn.get("cls")
        thisv = leaf(mk("thisp"))
        fr = Frame(fn, thisv)
        for i, (n, vid, t) in enumerate(fn["params"]):
            if t.startswith("const ") and t.endswith("&") and not t.endswith("&&"):
                t = t[6:-1].strip()
            p = mk("param", i, b=(t in ("bool", "const bool")), u=t.startswith("unsigned"))
            if t.endswith("&"):
                fr.vars[vid] = leaf(mk("at", p))
                self.types[mk("at", p)] = t[:-1].replace("const ", "").strip()
            else:
                l = self.newlocal(n, t)
                self.store[l] = self.boolify(leaf(p), t)
                fr.vars[vid] = leaf(l)
        self.frame = fr
        self.stack.append(fn["usr"])
        for k in fn.get("inits", []):
            if k[0] == "m" and k[2] is not None:
                loc = leaf(mk("fld", mk("at", mk("thisp")), k[1]))
                if k[3] or not self.trivial_init(k[2]):
                    v = self.ev(k[2], TRUE)
                    self.assign(loc, v, TRUE)
            elif k[0] in ("b", "d") and k[2] is not None and k[2][0] == "ctor":
                self.base_ctor(k[2], TRUE)
        self.stmt(fn["body"], TRUE, Flow())
        s = Summary()
        for loc, v in self.store.items():
            if self.is_local(loc) or loc.op == "ver":
                continue
            if v is self.init(loc):
                continue
            s.final[loc] = v
        s.effects = self.effects
        s.ret = fr.ret
        s.iters = self.iters
        s.inlined = self.inlined
        s.lines = self.lines
        s.dom = self.locdom
        s.deadg = self.dead
        return s

    def trivial_init(self, e):
        return e[0] == "ctor" and not e[2]

    def base_ctor(self, e, g):
        f = self.prog.fns.get(e[4])
        if f and self.should_inline(f):
            self.call_fn(f, self.frame.this, e[2], g)
        else:
            self.effect("ctor " + e[1], [self.ev(a, g) for a in e[2]], g, e[3])

    # ------------------------------------------------------------ helpers
    def newlocal(self, name, ty):
        self.uid += 1
        l = mk("lcl", self.uid, ty.replace("const ", "").strip(), name)
        self.types[l] = ty
        self.born.add(l)
        return l

    def is_local(self, loc):
        r = self.root(loc)
        return r.op in ("lcl", "val")

    def root(self, loc):
        while loc.op in ("fld", "idx", "rng", "w", "ver", "ent"):
            loc = loc.args[0]
        if loc.op == "at" and loc.args[0].op == "addr":
            return self.root(loc.args[0].args[0])
        return loc

    def lift(self, name, fn, *ns):
        r = apply(name, fn, ns)
        return r

    def term(self, op, *ns, b=False, u=False, pre=()):
        """lifted term construction"""
        return apply("t:" + op + ":" + ",".join(map(str, pre)) + (":b" if b else ""),
                     lambda ts: leaf(mk(op, *pre, *ts, b=b, u=u)), ns)

    def collapse(self, n):
        n = dropbot(n)
        if n.leaf is not None:
            return n.leaf
        return mk("mt", n)

    def boolify(self, n, ty="bool"):
        """canonical boolean: leaves TRUE/FALSE/BOT"""
        if ty not in ("bool", "const bool", "const bool &", "bool &"):
            if not any(t.b for t in leaves(n)):
                return n
            if any((t.op != "bot" and not t.b and not isc(t)) for t in leaves(n)):
                return n
            if not any(t.b and t.op != "c" for t in leaves(n)):
                if not any(t.op == "c" and isinstance(t.args[0], bool) for t in leaves(n)):
                    return n
            if any(t.op == "c" and not isinstance(t.args[0], bool) for t in leaves(n)):
                return n
        return self.tobool(n)

    def tobool(self, n, isint=True):
        def f(ts):
            t = ts[0]
            if t.op == "c":
                v = t.args[0]
                return TRUE if v else FALSE
            if t.op == "bot":
                return BOT
            if t.b:
                return atom(t)
            return neg(eq(t, mk("c", 0), isint))
        return apply("tobool" + ("" if isint else "p"), f, (n,))

    def effect(self, name, args, g, line, obj=False):
        for r in self.ignore:
            if r.search(name):
                return
        if g is FALSE:
            return
        e = Effect()
        e.name, e.guard, e.line, e.fn, e.obj = name, g, line, self.frame.fn["name"], obj
        e.args = restrict(g, apply("tup%d" % len(args), lambda ts: leaf(mk("args", *ts)), args)) if args else restrict(g, leaf(mk("args")))
        e.loops = tuple(self.loops)
        e.seq = len(self.effects)
        self.effects.append(e)

    # ------------------------------------------------------------ store
    def init(self, loc):
        if loc.op in ("epoch", "cnt"):
            return const(0)
        if loc.op == "lcl":
            ty = loc.args[1]
            if "std::" in ty and "iterator" not in ty or BVT.search(ty):
                return leaf(mk("ctor", ty))
            return leaf(mk("undef", loc.args[1]))
        if loc.op in ("fld", "idx", "rng"):
            r = self.root(loc)
            if r.op == "val":
                return leaf(self.subof(self.valof(loc.args[0]), loc))
        if loc.op == "val":
            return leaf(loc.args[0])
        ty = self.types.get(loc, "")
        t = mk("rd", loc, b=(ty in ("bool", "const bool")), u=ty.startswith("unsigned"))
        if t.b:
            return atom(t)
        return leaf(t)

    def valof(self, loc):
        if loc.op == "val":
            return loc.args[0]
        return self.subof(self.valof(loc.args[0]), loc)

    def subof(self, v, loc):
        """sub-value of value term v selected like location loc"""
        ty = self.types.get(loc, "")
        b, u = ty in ("bool", "const bool"), ty.startswith("unsigned")
        if v.op == "upd":
            k = "." + loc.args[1] if loc.op == "fld" else mk("sel", *loc.args[1:])
            for sk, sv in zip(v.args[1], v.args[2]):
                if sk is k or sk == k and isinstance(k, str):
                    return sv
            if all(constsel(x) for x in v.args[1]) and constsel(k):
                return self.subof(v.args[0], loc)
        if loc.op == "fld":
            if v.op == "tuple" and loc.args[1][0] == "#":
                return v.args[int(loc.args[1][1:])]
            if v.op == "pair" and loc.args[1] in ("first", "second"):
                return v.args[0 if loc.args[1] == "first" else 1]
            if v.op == "rd" and v.args[0].op == "ent" and loc.args[1] in ("first", "second"):
                m, k = v.args[0].args
                return k if loc.args[1] == "first" else mk("rd", mk("idx", m, k), b=b, u=u)
            if v.op == "rd":
                return mk("rd", mk("fld", v.args[0], loc.args[1]), b=b, u=u)
            return mk("fldof", v, loc.args[1], b=b, u=u)
        if loc.op == "idx":
            if v.op == "rd":
                return mk("rd", mk("idx", v.args[0], loc.args[1]), b=b, u=u)
            if v.op == "zero" or v.op == "ctor" and v.args[0].startswith("std::map"):
                return mk("zeroelem", v, loc.args[1])
            return mk("idxof", v, loc.args[1], b=b, u=u)
        if loc.op == "rng":
            return mk("rngof", v, *loc.args[1:])
        raise AnalysisError("subof " + loc.op)

    def lookup(self, loc, al=True):
        """N currently held, without folding children; None if untouched"""
        v = self.own(loc)
        if al:
            ws = self.later(loc)
            if ws:
                # an element written since may be this one
                if v is None:
                    v = self.init(loc)
                b = all(t.b for t in leaves(v) if t.op != "bot")
                vs = tuple(self.collapse(self.fold(t, al=False)) for t in ws)
                self.apn += 1
                return apply("ov%d" % self.apn, lambda ts: (atom if b else leaf)(mk("ov", ts[0], tuple(ws), vs, b=b, u=ts[0].u)), (v,))
        return v

    def own(self, loc):
        v = self.store.get(loc)
        if v is not None:
            return v
        if loc.op in ("fld", "idx", "rng"):
            b = self.own(loc.args[0])
            if b is None and self.root(loc).op == "lcl" and loc.args[0].op == "lcl" and loc.op != "idx":
                return None
            if loc.op == "rng" and self.children.get(loc.args[0]):
                b = self.fold(loc.args[0])
            if b is None:
                return None
            self.apn += 1
            return apply("sub%d" % self.apn, lambda ts: leaf(self.subof(ts[0], loc)), (b,))
        return None

    def fold(self, loc, al=True):
        """value of loc with pending sub-location writes folded in"""
        v = self.lookup(loc, al)
        if v is None:
            v = self.init(loc)
        ch = [c for c in self.children.get(loc, ()) if c in self.store or self.children.get(c)]
        if not ch:
            return v
        ch.sort(key=lambda c: c.dig)
        parts = []
        for c in ch:
            parts.append(self.fold(c, al=False))
        sel = tuple(("." + c.args[1]) if c.op == "fld" else mk("sel", *c.args[1:]) for c in ch)
        ty = self.types.get(loc, "")
        return apply("upd" + str([id(x) if isinstance(x, T) else x for x in sel]) + ty,
                     lambda ts: leaf(self.whole(mkupd(ts[0], sel, tuple(ts[1:])), ty)), [v] + parts)

    def members(self, ty):
        """member names of a plain aggregate type (no bases), () otherwise"""
        ty = ty[6:] if ty.startswith("const ") else ty
        if ty.startswith("std::pair<"):
            return ("first", "second")
        if ty.startswith("std::tuple<"):
            return tuple("#%d" % i for i in range(len(tmpl_args(ty))))
        r = self.prog.recs.get(ty)
        if r is None or r.get("bases"):
            return ()
        return tuple(f[0] for f in r["fields"])

    def whole(self, v, ty):
        """an object all of whose members are replaced keeps nothing of what it was"""
        if v.op != "upd" or not all(isinstance(k, str) for k in v.args[1]):
            return v
        b = v.args[0]
        if b.op in ("undef", "ctor") and not (ty and self.members(ty)):
            ty = b.args[0]
        m = self.members(ty)
        if not m or {"." + x for x in m} != set(v.args[1]):
            return v
        d = dict(zip(v.args[1], v.args[2]))
        if m == ("first", "second"):
            return mk("pair", d[".first"], d[".second"])
        if m[0] == "#0":
            return mk("tuple", *[d["." + x] for x in m])
        return mk("upd", mk("undef", ty), v.args[1], v.args[2])

    def record(self, ty, vs):
        """an object of aggregate type ty from its members' values"""
        m = self.members(ty)
        k = tuple("." + x for x in m)
        return apply("rec" + ty, lambda ts: leaf(self.whole(mkupd(mk("undef", ty), k, tuple(ts)), ty)), vs)

    def memtype(self, v, m):
        for t in leaves(v):
            if t.op == "upd" and t.args[0].op == "undef":
                for f in self.prog.recs.get(t.args[0].args[0], {}).get("fields", ()):
                    if f[0] == m:
                        return f[1]
            elif t.op == "pair" and t.args[0 if m == "first" else 1].b or t.op == "tuple" and t.args[int(m[1:])].b:
                return "bool"
        return ""

    def splits(self, loc, v):
        """members to write one by one when an aggregate built from parts is stored"""
        if loc.op in ("lcl", "rng"):
            return ()
        ms = None
        for t in leaves(v):
            if t.op == "pair":
                m = ("first", "second")
            elif t.op == "tuple":
                m = tuple("#%d" % i for i in range(len(t.args)))
            elif t.op == "upd" and t.args[0].op == "undef" and len(t.args[1]) and all(isinstance(k, str) for k in t.args[1]):
                m = self.members(t.args[0].args[0])
                if {"." + x for x in m} != set(t.args[1]):
                    continue
            else:
                continue
            if ms is not None and ms != m:
                return ()
            ms = m
        return ms or ()

    def readloc(self, loc, whole=True):
        if loc.op == "at" and loc.args[0].op == "addr":
            loc = loc.args[0].args[0]
        v = self.fold(loc) if (whole and self.children.get(loc)) else self.lookup(loc)
        if v is None:
            v = self.init(loc)
        return v

    def read(self, locn, g, whole=True):
        if locn.leaf is not None:
            if locn is BOT:
                return BOT
            return restrict(g, self.readloc(locn.leaf, whole))
        self.apn += 1
        return restrict(g, apply("rd%d" % self.apn, lambda ts: self.readloc(ts[0], whole), (locn,)))

    def put(self, loc, v, g):
        if loc.op == "at" and loc.args[0].op == "addr":
            loc = loc.args[0].args[0]
        old = self.lookup(loc)
        if old is None:
            old = self.init(loc)
        nv = ite(g, v, old)
        if loc.op == "idx":
            nv = self.mapnorm(loc, nv, old)
        if self.wlog is not None:
            self.wlog[loc] = 1
        self.clock += 1
        self.wseq[loc] = self.clock
        self.register(loc)
        # whole-object write: children take their part of the new value
        for c in list(self.children.get(loc, ())):
            self.putchildren(c, v, g)
        self.store[loc] = nv

    def mapnorm(self, loc, v, old):
        """an absent map entry reads as zero: has(m, k) ? m[k] + w : w  is  m[k] + w"""
        own = self.init(loc) if self.lookup(loc.args[0]) is None else self.lookup(loc.args[0])
        if own.leaf is None:
            return v
        r = own.leaf if own.leaf.op == "rd" and own.leaf.args[0] is loc else self.subof(own.leaf, loc)
        for a in atoms(v):
            if a.op != "has" or a.args[1] is not loc.args[1]:
                continue
            m = self.readloc(loc.args[0])
            k = mk("sel", *loc.args[1:])
            if not all(t is a.args[0] or t.op == "upd" and t.args[0] is a.args[0] and t.args[1] == (k,) for t in leaves(m)):
                continue
            hi, lo = substitute(v, a, True), substitute(v, a, False)

            def drop(ts):
                c = lin(ts[0])[1].get(r, 0) if ts[0].op != "bot" else 0
                return leaf(add(ts[0], r, -c)) if c else leaf(ts[0])
            self.apn += 1
            if apply("drop%d" % self.apn, drop, (hi,)) is lo:
                return hi
        return v

    def aliases(self, loc):
        """written locations that are loc's if their element numbers agree"""
        path = []
        x = loc
        while x.op in ("fld", "idx", "rng"):
            path.append(x)
            x = x.args[0]
            if x.op == "at" and x.args[0].op == "addr":
                x = x.args[0].args[0]
        while path and path[-1].op != "idx":
            path.pop()
        if not path:
            return ()
        x = path[-1].args[0]
        if x.op == "at" and x.args[0].op == "addr":
            x = x.args[0].args[0]
        out = []

        def go(node, i, same):
            if i < 0:
                if not same and (node in self.store or self.children.get(node)):
                    out.append(node)
                return
            if not same and node in self.store:
                out.append(node)
            p = path[i]
            for c in self.children.get(node, ()):
                if c is p or c.op == p.op and c.args[1:] == p.args[1:]:
                    go(c, i - 1, same and c is p)
                elif c.op == "idx" and p.op == "idx" and not distinct(c, p):
                    go(c, i - 1, False)
        if len(self.children.get(x, ())) > (path[-1] in self.children.get(x, ())):
            go(x, len(path) - 1, True)
        return out

    def when(self, loc):
        """time of the last write to loc or a part of it"""
        return max([self.wseq.get(loc, 0)] + [self.when(c) for c in self.children.get(loc, ())])

    def later(self, loc):
        ws = self.aliases(loc)
        if not ws:
            return ws
        t0, x = self.wseq.get(loc, 0), loc
        while x.op in ("fld", "idx", "rng"):
            x = x.args[0]
            t0 = max(t0, self.wseq.get(x, 0))
        def after(t):
            w = self.when(t)
            return w > t0 or w == t0 and w in self.batch
        return sorted((t for t in ws if after(t)), key=lambda t: t.dig)

    def putchildren(self, c, v, g):
        if c in self.store:
            self.apn += 1
            sv = apply("sub%d" % self.apn, lambda ts: leaf(self.subof(ts[0], c)), (v,))
            self.store[c] = ite(g, sv, self.store[c])
            if self.wlog is not None:
                self.wlog[c] = 1
            v2 = sv
        else:
            self.apn += 1
            v2 = apply("sub%d" % self.apn, lambda ts: leaf(self.subof(ts[0], c)), (v,))
        for d in list(self.children.get(c, ())):
            self.putchildren(d, v2, g)

    def register(self, loc):
        while loc.op in ("fld", "idx", "rng"):
            p = loc.args[0]
            if p.op == "at" and p.args[0].op == "addr":
                p = p.args[0].args[0]
            if p.op == "at" and loc.op == "fld":
                return
            s = self.children.setdefault(p, {})
            if loc in s:
                return
            s[loc] = True
            loc = p

    def assign(self, locn, v, g, line=None):
        if g is FALSE:
            return
        for loc in leaves(locn):
            if loc.op == "bot":
                continue
            if locn.leaf is not None:
                gl = g
            else:
                self.apn += 1
                gl = land(g, apply("is%d" % self.apn, lambda ts: TRUE if ts[0] is loc else FALSE, (locn,)))
            if gl is FALSE:
                continue
            ty = self.types.get(loc, "")
            ms = self.splits(loc, v)
            if ms:
                for m in ms:
                    c = mk("fld", loc, m)
                    if not self.types.get(c):
                        self.types[c] = self.memtype(v, m)
                    self.apn += 1
                    self.put(c, self.boolify(apply("sub%d" % self.apn, lambda ts: leaf(self.subof(ts[0], c)), (v,)), self.types[c]), gl)
                    if line:
                        self.lines.setdefault(c, line)
                continue
            self.put(loc, self.boolify(v, ty), gl)
            if line:
                self.lines.setdefault(loc, line)

    # ------------------------------------------------------------ types of expressions
    def ety(self, e):
        k = e[0]
        if k in ("var", "mem"):
            return e[4]
        if k == "idx":
            t = self.ety(e[1])
            if "[" in t:
                return re.sub(r"\[[^\]]*\]", "", t, count=1).strip()
            return t[:-1].strip() if t.endswith("*") else t
        if k == "mcall":
            return e[9]
        if k == "op":
            return e[9]
        if k == "call":
            return e[5]
        if k == "un" and e[1] == "*":
            t = self.ety(e[2])
            return t[:-1].strip() if t.endswith("*") else re.sub(r"\[[^\]]*\]", "", t, count=1).strip()
        if k == "un":
            return self.ety(e[2])
        if k in ("ctor", "zero", "new", "list"):
            return e[1]
        if k == "bin":
            return e[5]
        if k == "asg":
            return e[5]
        if k == "cond":
            return self.ety(e[2])
        if k == "bool":
            return "bool"
        if k == "cast":
            return e[2]
        if k == "int":
            return "int"
        if k == "float":
            return "double"
        return ""

    # ------------------------------------------------------------ lvalues
    def lv(self, e, g):
        k = e[0]
        if k == "var":
            if e[3] in ("l", "p", "b"):
                v = self.frame.vars.get(e[2])
                if v is None:
                    v = leaf(self.newlocal(e[1], e[4]))
                    self.frame.vars[e[2]] = v
                return v
            if e[3] == "sl":
                l = mk("glob", self.frame.fn["name"] + "::" + e[1])
            else:
                l = mk("glob", e[1])
            self.types.setdefault(l, e[4])
            return leaf(l)
        if k == "this":
            return self.term("at", self.frame.this)
        if k == "mem":
            if e[5]:
                base = self.apply_at(self.ev(e[1], g))
            else:
                base = self.lvt(e[1], g)
            ty, nm = e[4], e[2]

            def f(ts):
                if ts[0].op == "ent" and nm == "second":
                    l = mk("idx", *ts[0].args)
                    self.types[l] = ty
                    return leaf(l)
                if ts[0].op == "ent" and nm == "first":
                    return leaf(mk("val", ts[0].args[1]))
                l = mk("fld", ts[0], nm)
                self.types[l] = ty
                return leaf(l)
            return apply("fld:" + nm + ":" + ty, f, (base,))
        if k == "idx":
            t = self.ety(e[1])
            base = self.lvt(e[1], g) if "[" in t else self.apply_at(self.ev(e[1], g))
            return self.mkidx(base, self.ev(e[2], g), self.ety(e))
        if k == "un" and e[1] == "*":
            t = self.ety(e[2])
            if "[" in t:
                return self.mkidx(self.lvt(e[2], g), const(0), self.ety(e))
            return self.apply_at(self.ev(e[2], g))
        if k == "un" and e[1] in ("++", "--"):
            self.ev(e, g)
            return self.lv(e[2], g)
        if k == "asg":
            self.ev(e, g)
            return self.lv(e[2], g)
        if k == "cond":
            c = self.cond(e[1], g)
            return ite(restrict(g, c), self.lvt(e[2], land(g, c)), self.lvt(e[3], land(g, neg(c))))
        if k == "op":
            a = e[3]
            if e[1] == "[]":
                if BVT.search(e[8]):
                    i = self.ev(a[1], g)
                    return self.mkrng(self.lvt(a[0], g), i, i)
                return self.mkidx(self.lvt(a[0], g), self.ev(a[1], g), e[9])
            if e[1] == "()" and BVT.search(e[8]):
                return self.mkrng(self.lvt(a[0], g), self.ev(a[1], g), self.ev(a[2], g))
            if e[1] == "*":
                return self.deref(self.ev(a[0], g), e[9])
            if e[1] in ("=", "+=", "<<"):
                self.ev(e, g)
                return self.lvt(a[0], g)
            if e[1] in ("++", "--"):
                self.ev(e, g)
                return self.lvt(a[0], g)
        if k == "call" and GETN.match(e[1]) and len(e[2]) == 1:
            return self.getn(e, g)
        if k == "mcall":
            nm = e[3]
            ty = e[9]
            if nm in ("at", "operator[]"):
                return self.mkidx(self.recv(e, g), self.ev(e[4][0], g), ty)
            if nm in ("range",) and len(e[4]) == 2:
                return self.mkrng(self.recv(e, g), self.ev(e[4][0], g), self.ev(e[4][1], g))
            if nm in ("front", "back", "top") and not e[4] and e[7] not in self.prog.fns:
                base = self.recv(e, g)
                vec = re.match(r"(const )?(class )?std::(__cxx11::)?(vector|deque)<", e[8])
                tag = mk("c", 0) if nm == "front" and vec else mk("c", nm)

                def f2(ts):
                    l = mk("idx", ts[0], tag)
                    self.types[l] = ty.replace("&", "").strip()
                    return leaf(l)
                return apply("fb:" + nm + ty, f2, (base,))
            f = self.resolve(e[7], e[6], e)
            if f is not None and f["ret"].endswith("&") and self.should_inline(f):
                return self.call_fn(f, self.objptr(e[1], g), e[4], g, ref=True)
            f = f or self.prog.fns.get(e[7])
            if f is not None and f["ret"].endswith("&") and not f["ret"].startswith("const "):
                return self.ev_mcall(e, g, ref=True)
        if k == "call":
            f = self.prog.fns.get(e[4])
            if f is not None and f["ret"].endswith("&"):
                if self.should_inline(f):
                    return self.call_fn(f, None, e[2], g, ref=True)
                if not f["ret"].startswith("const "):
                    return self.ev_call(e, g, ref=True)
        return None

    def getn(self, e, g):
        """std::get<N>: a member of the pair or tuple"""
        n = int(GETN.match(e[1]).group(1))
        ot, ty = self.ety(e[2][0]), e[5].replace("&", "").strip()
        nm = ("first", "second")[n] if "std::pair<" in ot[:16] else "#%d" % n

        def f(ts):
            l = mk("fld", ts[0], nm)
            self.types[l] = ty
            return leaf(l)
        return apply("fld:" + nm + ":" + ty, f, (self.lvt(e[2][0], g),))

    def recv(self, e, g):
        """location of the object a member function is called on"""
        return self.apply_at(self.ev(e[1], g)) if e[8].endswith(("*", "*const")) else self.lvt(e[1], g)

    def lvt(self, e, g):
        """lvalue, or a temporary holding the value"""
        r = self.lv(e, g)
        if r is not None:
            return r
        v = self.ev(e, g)
        return apply("val", lambda ts: leaf(ts[0].args[0] if ts[0].op == "rd" else mk("val", ts[0])), (v,))

    def apply_at(self, p):
        return apply("at", lambda ts: leaf(ts[0].args[0] if ts[0].op == "addr" else mk("at", ts[0])), (p,))

    def mkidx(self, base, i, ty):
        ty = ty.replace("&", "").replace("const ", "").strip()

        def f(ts):
            b, k = ts
            l = mk("idx", b, k)
            self.types[l] = ty
            return leaf(l)
        return apply("idx:" + ty, f, (base, i))

    def mkrng(self, base, hi, lo):
        return apply("rng", lambda ts: leaf(mk("rng", *ts)), (base, hi, lo))

    def deref(self, v, ty):
        ty = ty.replace("&", "").replace("const ", "").strip()

        def f(ts):
            t = ts[0]
            if t.op == "find":
                l = mk("ent" if ty.startswith("std::pair<") else "idx", t.args[0], t.args[2])
            elif t.op == "itat":
                l = mk("idx", t.args[0], t.args[1])
            elif t.op == "begin":
                l = mk("idx", t.args[0], mk("c", 0))
            elif t.op == "addr":
                l = t.args[0]
            elif t.op == "sum" and any(x.op == "begin" for x in t.args[1]):
                b = [x for x in t.args[1] if x.op == "begin"][0]
                l = mk("idx", b.args[0], add(t, b, -1))
            else:
                l = mk("at", t)
            self.types.setdefault(l, ty)
            return leaf(l)
        return apply("deref:" + ty, f, (v,))

    def addr(self, locn):
        return apply("addr", lambda ts: leaf(ts[0].args[0] if ts[0].op == "at" else mk("addr", ts[0])), (locn,))

    # ------------------------------------------------------------ expressions
    def cond(self, e, g):
        return self.tobool(self.ev(e, g))

    def arith(self, op, a, b, ty):
        i = is_int(ty)
        p = ty.endswith("*")

        def f(ts):
            x, y = ts
            if op == "+":
                if x.op == "c" and isinstance(x.args[0], str) or y.op == "c" and isinstance(y.args[0], str):
                    return leaf(mk("call", "+", x, y))
                return leaf(add(x, y))
            if op == "-":
                return leaf(add(x, y, -1))
            if op == "*":
                return leaf(mul(x, y))
            if isc(x) and isc(y) and isinstance(cv(x), int) and isinstance(cv(y), int):
                u, v = cv(x), cv(y)
                if op == "/" and v:
                    return leaf(mk("c", int(u / v) if i else u / v))
                if op == "%" and v:
                    return leaf(mk("c", u - v * int(u / v)))
                if op == "<<" and 0 <= v < 64:
                    return leaf(mk("c", u << v))
                if op == ">>" and v >= 0:
                    return leaf(mk("c", u >> v))
                if op in "&|^":
                    return leaf(mk("c", {"&": u & v, "|": u | v, "^": u ^ v}[op]))
            if op == "<<" and isc(y) and isinstance(cv(y), int) and 0 <= cv(y) < 31:
                return leaf(mul(x, mk("c", 1 << cv(y))))
            if op in ("&", "|", "^"):
                if op in "&|" and x.b and y.b:
                    n = land(atom(x), atom(y)) if op == "&" else lor(atom(x), atom(y))
                    return n
                x, y = sorted((x, y), key=lambda t: t.dig)
            if op in ("/", "%") and y.op == "c" and y.args[0] == 1 and i:
                return leaf(x) if op == "/" else const(0)
            return leaf(mk("ar", op + ("" if i else "f"), x, y))
        return apply("ar" + op + ("i" if i else "f"), f, (a, b))

    def cmp(self, op, a, b, ty):
        i = is_int(ty)
        un = "unsigned" in ty
        ei = i and not ty.endswith("*")

        def f(ts):
            x, y = ts
            if op in ("==", "!=") and y.op == "c" and y.args[0] == 0 and popped(x):
                r = lt(x, mk("c", 1), True, True)      # emptiness after pops
                return r if op == "==" else neg(r)
            if op == "==":
                return eq(x, y, ei)
            if op == "!=":
                return neg(eq(x, y, ei))
            if op == "<":
                return lt(x, y, i, un)
            if op == ">":
                return lt(y, x, i, un)
            if op == "<=":
                return neg(lt(y, x, i, un))
            return neg(lt(x, y, i, un))
        return apply("cmp" + op + ("e" if ei else "i" if i else "f") + ("u" if un else ""), f, (a, b))

    def ev(self, e, g):
        if e is None:
            return leaf(mk("void"))
        if g is FALSE:
            return BOT
        k = e[0]
        m = getattr(self, "ev_" + k, None)
        if m is None:
            return leaf(mk("unk", k))
        return m(e, g)

    def ev_int(self, e, g):
        if len(e) > 2 and SYM_RE.match(e[2]):
            return leaf(mk("sym", e[2]))
        return const(e[1])

    def ev_float(self, e, g):
        v = e[1]
        return const(int(v) if v == int(v) else v) if abs(v) < 1e15 else const(v)

    def ev_str(self, e, g):
        return leaf(mk("c", e[1]))

    def ev_bool(self, e, g):
        return TRUE if e[1] else FALSE

    def ev_null(self, e, g):
        return const(0)

    def ev_this(self, e, g):
        return self.frame.this

    def ev_enum(self, e, g):
        return const(e[2])

    def ev_fn(self, e, g):
        return leaf(mk("fn", e[1]))

    def ev_fieldref(self, e, g):
        return leaf(mk("fieldref", e[1]))

    def ev_zero(self, e, g):
        if e[1] in ("bool",):
            return FALSE
        if "[" in e[1] or "::" in e[1]:
            return leaf(mk("zero", e[1]))
        return const(0)

    def ev_unk(self, e, g):
        return leaf(mk("unk", e[1]))

    def ev_var(self, e, g):
        if "[" in e[4] and "(" not in e[4]:
            return self.addr(self.lv(e, g))
        return self.read(self.lv(e, g), g)

    def ev_mem(self, e, g):
        if "[" in e[4] and "<" not in e[4]:
            return self.addr(self.lv(e, g))
        v = self.read(self.lv(e, g), g)
        return self.tobool(v) if e[4] in ("bool", "const bool") else v

    ev_idx = lambda self, e, g: self.read(self.lv(e, g), g)

    def ev_un(self, e, g):
        op = e[1]
        if op in ("++", "--", "p++", "p--"):
            l = self.lv(e[2], g)
            old = self.read(l, g)
            new = self.arith("+" if "+" in op else "-", old, const(1), "int")
            self.assign(l, new, g, e[3])
            return old if op[0] == "p" else new
        if op == "*":
            return self.read(self.lv(e, g), g)
        if op == "&":
            if e[2][0] in ("fn", "fieldref"):
                return self.ev(e[2], g)
            return self.addr(self.lvt(e[2], g))
        v = self.ev(e[2], g)
        if op == "!":
            return neg(self.tobool(v))
        if op == "-":
            return apply("neg", lambda ts: leaf(mul(ts[0], mk("c", -1))), (v,))
        if op == "+":
            return v
        return self.term("un", v, pre=(op,))

    def ev_asg(self, e, g):
        op = e[1]
        if op == "=":
            v = self.ev(e[3], g)
            l = self.lvt(e[2], g)
            v = self.boolify(v, e[5])
            self.assign(l, v, g, e[4])
            return v
        v = self.ev(e[3], g)
        l = self.lv(e[2], g)
        old = self.read(l, g)
        bop = op[:-1]
        if e[5] == "bool" and bop in ("&", "|"):
            x, y = self.tobool(old), self.tobool(v)
            new = ite(x, y, restrict(g, FALSE)) if bop == "&" else ite(x, restrict(g, TRUE), y)
        else:
            new = self.arith(bop, old, v, e[6])
        self.assign(l, new, g, e[4])
        return new

    def ev_bin(self, e, g):
        op = e[1]
        if op == "&&":
            a = self.cond(e[2], g)
            b = self.cond(e[3], land(g, a))
            return ite(a, b, restrict(g, FALSE))
        if op == "||":
            a = self.cond(e[2], g)
            b = self.cond(e[3], land(g, neg(a)))
            return ite(a, restrict(g, TRUE), b)
        if op == ",":
            self.ev(e[2], g)
            return self.ev(e[3], g)
        a = self.ev(e[2], g)
        b = self.ev(e[3], g)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.cmp(op, a, b, e[6])
        return self.arith(op, a, b, e[5])

    def ev_cond(self, e, g):
        # assert(): glibc expands to a conditional ending in __assert_fail
        for x in (e[2], e[3]):
            if isinstance(x, list) and x and x[0] == "call" and x[1] == "__assert_fail":
                return leaf(mk("void"))
        c = self.cond(e[1], g)
        a = self.ev(e[2], land(g, c))
        b = self.ev(e[3], land(g, neg(c)))
        if "bool" == self.ety(e[2]) or any(t.b for t in leaves(a)) or any(t.b for t in leaves(b)):
            a, b = self.tobool(a), self.tobool(b)
        return ite(c, a, b)

    def ev_cast(self, e, g):
        kind, ty = e[1], e[2]
        v = self.ev(e[3], g)
        if kind in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"):
            return self.tobool(v, kind[0] == "I")
        if kind == "FloatingToIntegral":
            return apply("f2i", lambda ts: leaf(ts[0]) if isc(ts[0]) and isinstance(cv(ts[0]), int) else leaf(mk("cast", "int", ts[0])), (v,))
        if kind == "IntegralToFloating":
            return apply("i2f", lambda ts: leaf(ts[0]) if isc(ts[0]) else leaf(mk("cast", "fp", ts[0])), (v,))
        if kind in ("Narrow", "IntegralCast") and re.search(r"\b(char|short)\b|int8|int16", ty):
            return apply("nar" + ty, lambda ts: leaf(ts[0]) if isc(ts[0]) else leaf(mk("cast", ty.replace("const ", ""), ts[0])), (v,))
        return v

    def ev_list(self, e, g):
        if len(e[2]) == 1 and not ("[" in e[1] or "std::" in e[1]):
            return self.ev(e[2][0], g)
        m = self.members(e[1])
        vs = [self.ev(x, g) for x in e[2]]
        if m and len(m) == len(vs):
            return self.record(e[1], vs)
        return self.term("list", *vs)

    def ev_ctor(self, e, g):
        ty, args = e[1], [a for a in e[2]]
        ty = ty[6:] if ty.startswith("const ") else ty
        if ty.startswith("std::basic_string<") and len(args) == 1 or (
                ty.startswith("std::basic_string<") and len(args) == 2 and "allocator" in str(args[1][:2])):
            return self.ev(args[0], g)
        if len(args) == 1 and (BVT.search(ty) or "iterator" in ty or ty.startswith("std::function") or ty.startswith("sc_core::sc_module_name") or ty.startswith("sc_core::sc_sensitive")):
            return self.ev(args[0], g)
        vs = [self.ev(a, g) for a in args]
        if ty.startswith("std::pair") and len(vs) == 2:
            return self.term("pair", *vs)
        if ty.startswith("std::pair") and len(vs) == 1:
            return vs[0]
        if ty.startswith("std::tuple<") and len(vs) == len(tmpl_args(ty)) > 1:
            return self.term("tuple", *vs)
        if ty.startswith("std::tuple<") and len(vs) == 1:
            return vs[0]
        if ty.startswith("std::vector") and len(vs) == 3:
            vs = vs[:2]
        f = self.prog.fns.get(e[4] if len(e) > 4 else "")
        if f is not None and not ty.startswith("std::"):
            # value object of a repository class: fields from the constructor
            return self.inline_value_ctor(f, ty, args, vs, g)
        return self.term("ctor", *vs, pre=(ty,))

    def inline_value_ctor(self, f, ty, args, vs, g):
        return leaf(mk("ctor", ty, *[self.collapse(v) for v in vs]))

    def ev_new(self, e, g):
        vs = [self.ev(a, g) for a in e[2]]
        if e[3] is not None:
            vs.append(self.ev(e[3], g))
        self.effect("new " + e[1], vs, g, e[4])
        cl = mk("cnt", e[1])
        cur = self.readloc(cl)
        d = len(self.loops)
        self.store[cl] = ite(g, self.arith("+", cur, const(1), "int"), cur)
        return restrict(g, apply("new%d%s" % (d, e[1]), lambda ts: leaf(mk("new", e[1], d, ts[0])), (cur,)))

    def ev_delete(self, e, g):
        self.effect("delete[]" if e[2] else "delete", [self.ev(e[1], g)], g, e[3])
        return leaf(mk("void"))

    def ev_throw(self, e, g):
        self.effect("throw", [], g, 0)
        self.dead = lor(self.dead, g)
        return leaf(mk("void"))

    def ev_lambda(self, e, g):
        self.uid += 1
        key = self.uid
        caps = {}
        for c in (e[3] if len(e) > 3 else []):
            if not c[2] and c[1] in self.frame.vars:        # captured by copy
                loc = self.newlocal(c[0], "")
                self.put(loc, self.read(self.frame.vars[c[1]], g), g)
                caps[c[1]] = leaf(loc)
        t = mk("lambda", key, *self.content(e, caps, g))
        t.meta = (e, self.frame, caps)
        return leaf(t)

    def content(self, e, caps, g):
        """what a function object does, on symbolic arguments from the state it is made in"""
        if self.lamdepth > 3:
            return ("deep",)
        self.lamdepth += 1
        store, children, types = dict(self.store), {k: dict(v) for k, v in self.children.items()}, dict(self.types)
        eff0, it0, wl0, dead0, born0 = len(self.effects), len(self.iters), self.wlog, self.dead, set(self.born)
        loops0 = list(self.loops)
        fresh0 = dict(self.fresh)
        old = self.frame
        fr = Frame({"name": old.fn["name"] + "::<lambda>", "usr": "lambda"}, old.this)
        fr.vars = dict(old.vars)
        fr.vars.update(caps)
        self.wlog, self.dead = {}, FALSE
        try:
            for i, (n, vid, ty) in enumerate(e[1]):
                s = mk("lp", self.lamdepth, i, b=ty in ("bool", "const bool"), u=ty.startswith("unsigned"))
                if ty.endswith("&"):
                    fr.vars[vid] = leaf(mk("at", s))
                else:
                    loc = self.newlocal(n, ty)
                    self.put(loc, atom(s) if s.b else leaf(s), TRUE)
                    fr.vars[vid] = leaf(loc)
            self.frame = fr
            self.stmt(e[2], TRUE, Flow())
            res = [restrict(TRUE, fr.ret)]
            for x in self.effects[eff0:]:
                res.append((x.name, x.args, x.guard))
            ws = []
            for loc in self.wlog:
                r = self.root(loc)
                if r in self.born and r not in born0 or loc.op == "epoch":
                    continue
                v = self.store.get(loc)
                if v is not store.get(loc):
                    ws.append((loc, v))
            ws.sort(key=lambda x: (x[0].dig, x[1].dig))
            res += ws
        except (AnalysisError, Complexity):
            res = ["?", re.sub(r"\d+", "", str(e[1:3]))]
        finally:
            self.frame = old
            self.store, self.children, self.types = store, children, types
            del self.effects[eff0:]
            del self.iters[it0:]
            self.wlog, self.dead, self.fresh = wl0, dead0, fresh0
            self.loops[:] = loops0
            self.lamdepth -= 1
        return tuple(res)

    def ev_icall(self, e, g):
        f = self.ev(e[1], g)
        args = [self.ev(a, g) for a in e[2]]
        self.effect("icall", [f] + args, g, e[3])
        return self.term("call", f, *args, pre=("icall",))

    # ------------------------------------------------------------ operators
    def ev_op(self, e, g):
        op, callee, a, line, isconst, usr, ismem, ot, ty = e[1:10]
        f = self.prog.fns.get(usr)
        if op == "=":
            if SIGNAL.match(ot):
                v = self.ev(a[1], g)
                self.sigwrite(self.lvt(a[0], g), v, g, line)
                return v
            v = self.ev(a[1], g)
            l = self.lvt(a[0], g)
            self.assign(l, v, g, line)
            return v
        if op == "[]" or (op == "()" and BVT.search(ot)):
            l = self.lv(e, g)
            v = self.read(l, g)
            return v
        if op == "()":
            if "sc_sensitive" in ot:
                if len(a) > 2:
                    x = self.ev(a[2], g)
                    self.effect("clocked", [self.read(leaf(mk("glob", "<process>")), g), x], g, line, True)
                return leaf(mk("sens"))
            if SIGNAL.match(ot) or "sc_port" in ot or "sc_export" in ot or "sc_core::" in callee:
                self.effect("bind", [self.addr(self.lvt(a[0], g)), self.addr(self.lvt(a[1], g))], g, line, True)
                return leaf(mk("void"))
            lam = self.ev(a[0], g)
            ls = [t for t in leaves(lam) if t.op != "bot"]
            if len(ls) == 1 and ls[0].op == "lambda":
                return self.call_lambda(ls[0], a[1:], g)
            args = [self.ev(x, g) for x in a[1:]]
            self.effect("call-functor", [lam] + args, g, line)
            return self.term("call", lam, *args, pre=("functor",))
        if op in ("<<", ">>") and (IGN_STREAM.search(ot) or "istream" in ot or "basic_if" in ot or "fstream" in ty or "stream" in ty):
            if op == ">>":
                return self.extract(e, g)
            # output stream: evaluate operands for their effects only
            if a[0][0] == "op":
                self.ev(a[0], g)
            self.ev(a[1], g)
            return leaf(mk("ostream"))
        if op == "<<" and "sc_sensitive" in (ot + ty):
            chain = self.ev(a[0], g) if a[0][0] == "op" else leaf(mk("sens"))
            if "sc_process_handle" in self.ety(a[1]):
                return leaf(mk("sens"))
            x = self.lv(a[1], g)
            v = self.addr(x) if x is not None else self.ev(a[1], g)
            self.effect("sensitive", [v, self.read(leaf(mk("glob", "<process>")), g)], g, line, True)
            return leaf(mk("sens"))
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.cmp(op, self.ev(a[0], g), self.ev(a[1], g), "int" if not ("double" in ot) else "double")
        if op == "*" and len(a) == 1:
            return self.read(self.lv(e, g), g)
        if op == "->":
            return self.addr(self.deref(self.ev(a[0], g), ty))
        if op in ("++", "--") :
            l = self.lvt(a[0], g)
            old = self.read(l, g)
            new = self.arith(op[0], old, const(1), "int")
            self.assign(l, new, g, line)
            return old if len(a) == 2 else new
        if op in ("+", "-") and len(a) == 2 and "iterator" in ot:
            return self.arith(op, self.ev(a[0], g), self.ev(a[1], g), "int")
        if op in ("+", "-", "*", "/", "%", "&", "|", "^") and len(a) == 2 and BVT.search(ot) and "concref" not in ot:
            return self.arith(op, self.ev(a[0], g), self.ev(a[1], g), "int")
        if op == "!" and len(a) == 1:
            return neg(self.tobool(self.ev(a[0], g)))
        if op in ("+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="):
            l = self.lvt(a[0], g)
            old = self.read(l, g)
            v = self.ev(a[1], g)
            if f is not None and self.should_inline(f):
                pass
            if "basic_string" in ot:
                new = self.term("call", old, v, pre=("+",))
            else:
                new = self.arith(op[:-1], old, v, "int")
            self.assign(l, new, g, line)
            return new
        if f is not None and self.should_inline(f):
            if f.get("cls") and not f.get("static"):
                return self.call_fn(f, self.addr(self.lvt(a[0], g)), a[1:], g)
            return self.call_fn(f, None, a, g)
        args = [self.ev(x, g) for x in a]
        if op in ("+",) and len(args) == 2:
            return self.term("call", *args, pre=("+",))
        return self.term("call", *args, pre=("operator" + op,), b=(ty == "bool"))

    def extract(self, e, g):
        a = e[3]
        if a[0][0] == "op" and a[0][1] == ">>":
            self.extract(a[0], g)
            base = a[0]
            while base[0] == "op":
                base = base[3][0]
        else:
            base = a[0]
        l = self.lvt(base, g)
        old = self.read(l, g)
        self.assign(l, self.term("mut", old, pre=(">>",)), g)
        self.assign(self.lvt(a[1], g), self.term("m", old, pre=(">>",)), g)
        return self.term("m", old, pre=("good",))

    # ------------------------------------------------------------ signals
    def sigread(self, locn, g, isb, uns=False):
        ep = self.read(leaf(mk("epoch")), g)
        return restrict(g, apply("sr%d%d" % (isb, uns), lambda ts: (atom if isb else leaf)(mk("sr", ts[0], ts[1], b=isb, u=uns)), (locn, ep)))

    def sigwrite(self, locn, v, g, line):
        isb = [False]

        def f(ts):
            ty = self.types.get(ts[0], "")
            w = mk("w", ts[0])
            self.types[w] = "bool" if "<bool>" in ty else ""
            return leaf(w)
        self.assign(apply("w%d" % self.apn, f, (locn,)), v, g, line)
        self.apn += 1

    # ------------------------------------------------------------ method calls
    def objptr(self, obj, g):
        if obj is None:
            return self.frame.this
        if obj[0] == "this":
            return self.frame.this
        t = self.ety(obj)
        if t.endswith("*") or t.endswith("*const") or t.endswith("* const"):
            return self.ev(obj, g)
        return self.addr(self.lvt(obj, g))

    def ev_mcall(self, e, g, ref=False):
        _, obj, callee, name, args, line, flags, usr, ot, ty = e[:10]
        ot_ = ot
        f = self.resolve(usr, flags, e)
        if f is not None:
            if self.should_inline(f):
                return self.call_fn(f, self.objptr(obj, g), args, g)
        repo = usr in self.prog.fns or callee.rsplit("::", 1)[0] in self.prog.recs
        isptr = ot.endswith("*") or ot.endswith("*const")
        isb = ty in ("bool", "const bool &", "const bool")
        if not repo:
            return self.ext_mcall(e, g)
        # opaque repository method
        h = f or self.prog.fns.get(usr)
        if h is not None and h["ret"] in ("bool &", "bool&"):
            isb = False
        p = self.objptr(obj, g)
        avs = [self.argval(a, g) for a in args]
        ver = apply("ver", lambda ts: leaf(mk("ver", ts[0].args[0] if ts[0].op == "addr" else mk("at", ts[0]))), (p,))
        short = callee
        if "c" in flags or self.query(f or self.prog.fns.get(usr)):
            vv = self.read_ver(ver, g)
            r = restrict(g, self.term("m", vv, *avs, pre=(short,), b=isb, u=ty.startswith("unsigned")))
            return self.refres(f or self.prog.fns.get(usr), r, g, ref)
        self.effect("call " + short, [p] + avs, g, line, True)
        vv = self.read_ver(ver, g)
        self.assign(ver, self.term("mut", vv, *avs, pre=(short,)), g)
        if f is None:
            f = self.prog.fns.get(usr)
        if f is not None and not f.get("ctor"):
            self.havoc(f, p, short, avs, g)
        self.outargs(short, args, usr, g)
        r = restrict(g, self.term("res", vv, *avs, pre=(short,), b=isb, u=ty.startswith("unsigned")))
        return self.refres(f, r, g, ref)

    def query(self, f):
        """f only computes a value: transitively it writes nothing but its own locals (it may stop the program)"""
        c = self.prog.__dict__.setdefault("_query", {})
        if f is None or f.get("ctor") or f["ret"] in ("void", "") or f["ret"].endswith(("&", "*")) or f.get("lang") == "py":
            return False
        if f["usr"] in c:
            return c[f["usr"]]
        c[f["usr"]] = False          # recursion: not a query
        loc = set()
        if "fstream" in repr(f["body"]):
            return False
        for n, vid, ty in f["params"]:
            if not ty.endswith(("&", "*")):
                loc.add(vid)

        def decls(x):
            if isinstance(x, dict):
                if x.get("s") == "decl":
                    for d in x["d"]:
                        if d.get("id") is not None and not d.get("ref") and not d.get("st") and not d["t"].endswith(("&", "*")):
                            loc.add(d["id"])
                for y in x.values():
                    decls(y)
            elif isinstance(x, list):
                for y in x:
                    decls(y)
        decls(f["body"])

        def own(e):
            while isinstance(e, list) and e:
                if e[0] == "var":
                    return e[2] in loc
                if e[0] == "mem" and not e[5]:
                    e = e[1]
                elif e[0] == "idx" and not self.ety(e[1]).endswith("*"):
                    e = e[1]
                elif e[0] == "op" and e[1] in ("[]", "()", "<<", ">>", "="):
                    e = e[3][0]
                elif e[0] in ("cast",):
                    e = e[3]
                else:
                    return False
            return False

        def ok(x):
            if isinstance(x, dict):
                return x.get("s") not in ("try", "asm") and all(ok(y) for y in x.values())
            if not isinstance(x, list):
                return True
            if x and isinstance(x[0], str):
                k = x[0]
                if k == "asg" and not own(x[2]):
                    return False
                if k == "un" and x[1] in ("++", "--", "p++", "p--") and not own(x[2]):
                    return False
                if k in ("new", "delete", "lambda", "icall", "unk"):
                    return False
                if k == "op" and x[1] in ("<<", ">>") and IGN_STREAM.search(x[8]) and x[1] == "<<":
                    pass
                elif k == "op" and (x[1] in ("=", "++", "--", ">>") or x[1].endswith("=") and x[1] not in ("==", "!=", "<=", ">=")):
                    if not x[3] or not own(x[3][0]):
                        return False
                elif k == "op" and x[1] not in ("[]", "==", "!=", "<=", ">=", "<", ">", "+", "-", "*", "/", "%", "&", "|", "^", "!", "~", "->", ",", "()", "<<"):
                    return False
                elif k == "op" and x[1] == "()" and not BVT.search(x[8]):
                    return False
                elif k == "op" and x[1] == "<<" and "ostream" not in x[8] and not BVT.search(x[8]):
                    return False
                if k == "mcall":
                    h = self.prog.fns.get(x[7])
                    if h is not None:
                        if "v" in x[6] and "c" not in x[6] or not self.query(h) and "c" not in x[6]:
                            return False
                    elif "c" not in x[6] and x[3] not in READERS and not own(x[1]):
                        return False
                    elif x[3] in ("read",) or SIGNAL.match(x[8]):
                        return False
                if k == "call":
                    h = self.prog.fns.get(x[4])
                    sh = x[1].split("::")[-1].split("<")[0]
                    if h is not None:
                        if not self.query(h):
                            return False
                    elif sh not in PURE_CALLS and sh not in ("exit", "abort", "min", "max", "__assert_fail"):
                        return False
            return all(ok(y) for y in x)
        r = ok(f["body"])
        c[f["usr"]] = r
        return r

    def timed(self, f, seen=None):
        """the value of query f depends on simulation time"""
        seen = set() if seen is None else seen
        if f["usr"] in seen:
            return False
        seen.add(f["usr"])

        def go(x):
            if isinstance(x, dict):
                return any(go(y) for y in x.values())
            if not isinstance(x, list):
                return False
            if x and x[0] in ("call", "mcall"):
                if x[0] == "call" and x[1].split("::")[-1] == "sc_time_stamp":
                    return True
                h = self.prog.fns.get(x[4] if x[0] == "call" else x[7])
                if h is not None and self.timed(h, seen):
                    return True
            return any(go(y) for y in x)
        return go(f["body"])

    def modset(self, f, seen=None):
        """fields of its own object a method may write, through calls on this"""
        k = f["usr"]
        c = self.prog.__dict__.setdefault("_modset", {})
        if k in c:
            return c[k]
        if seen is None:
            seen = set()
        if k in seen:
            return set()
        seen.add(k)
        out = set()

        def target(e):
            while isinstance(e, list) and e:
                if e[0] == "mem":
                    if e[1] == ["this"]:
                        out.add((e[2], e[4]))
                        return
                    if e[5]:
                        return
                    e = e[1]
                elif e[0] == "idx":
                    if self.ety(e[1]).endswith("*"):
                        return
                    e = e[1]
                elif e[0] == "op" and e[1] in ("[]", "()", "<<", ">>", "="):
                    e = e[3][0]
                elif e[0] == "mcall":
                    if e[8].endswith("*"):
                        return
                    e = e[1]
                else:
                    return

        def go(x):
            if isinstance(x, dict):
                for y in x.values():
                    go(y)
                return
            if not isinstance(x, list):
                return
            if x and isinstance(x[0], str):
                if x[0] == "asg":
                    target(x[2])
                elif x[0] == "un" and x[1] in ("++", "--", "p++", "p--"):
                    target(x[2])
                elif x[0] == "op" and len(x) > 5 and not x[5] and x[1] not in ("[]", "()") and x[3]:
                    target(x[3][0])
                elif x[0] == "op" and x[1] == ">>" and len(x[3]) > 1:
                    target(x[3][1])
                elif x[0] == "mcall":
                    if x[1] in (["this"], None):
                        h = self.prog.fns.get(x[7])
                        if h:
                            out.update(self.modset(h, seen))
                    elif "c" not in x[6] and not x[8].endswith("*") and x[3] not in READERS:
                        target(x[1])
            for y in x:
                go(y)
        go(f["body"])
        if len(seen) == 1 or True:
            c[k] = out
        return out

    def havoc(self, f, p, name, avs, g):
        """an opaque non-const method may change the fields of its object"""
        for nm, ty in sorted(self.modset(f)):
            def mkloc(ts):
                l = mk("fld", ts[0].args[0] if ts[0].op == "addr" else mk("at", ts[0]), nm)
                self.types.setdefault(l, ty)
                return leaf(l)
            loc = apply("hvl:" + nm + ty, mkloc, (p,))
            old = self.read(loc, g, False)
            b = ty in ("bool", "const bool")
            if SIGNAL.match(ty):
                continue
            self.assign(loc, self.term("hv", old, *avs, pre=(name,), b=b, u=ty.startswith("unsigned")), g)

    def read_ver(self, ver, g):
        def f(ts):
            v = self.store.get(ts[0])
            return v if v is not None else leaf(mk("rd", ts[0].args[0]))
        self.apn += 1
        return restrict(g, apply("rv%d" % self.apn, f, (ver,)))

    def sizeof(self, cvv):
        """element count of a container value; pushes and pops are counted"""
        def f(ts):
            t, k = ts[0], 0
            while t.op == "mut" and t.args[0] in ("push_back", "push_front", "pop_front", "pop_back"):
                k += 1 if t.args[0].startswith("push") else -1
                t = t.args[1]
            if t.op == "ctor" and (t.args[0] in ("empty",) or len(t.args) == 1 and "std::" in t.args[0]):
                return const(k)
            b = mk("m", "size", t, u=True)
            return leaf(add(b, mk("c", k)))
        return apply("size", f, (cvv,))

    def argval(self, a, g):
        """argument of an opaque call"""
        return self.ev(a, g)

    def outargs(self, name, args, usr, g):
        f = self.prog.fns.get(usr)
        if not f:
            return
        for i, (p, a) in enumerate(zip(f["params"], args)):
            if p[2].endswith("&") and not p[2].startswith("const"):
                l = self.lv(a, g)
                if l is not None:
                    old = self.read(l, g)
                    self.assign(l, self.term("out", old, pre=(name, i)), g)

    def ext_mcall(self, e, g):
        _, obj, callee, name, args, line, flags, usr, ot, ty = e[:10]
        isb = ty in ("bool", "const bool &", "const bool")
        isptr = ot.endswith("*") or ot.endswith("*const")
        if name == "wait" and callee.startswith("sc_core"):
            self.effect("wait", [self.ev(a, g) for a in args], g, line)
            ep = leaf(mk("epoch"))
            n = const(1)
            if len(args) == 1 and self.ety(args[0]) in ("int",) :
                n = self.ev(args[0], g)
            self.assign(ep, self.arith("+", self.read(ep, g), n, "int"), g)
            return leaf(mk("void"))
        if name == "operator()" and "sc_sensitive" in callee:
            if len(args) > 1:
                self.effect("clocked", [self.read(leaf(mk("glob", "<process>")), g), self.ev(args[1], g)], g, line, True)
            return leaf(mk("void"))
        if callee.startswith("sc_core::") and name in ("set_actions", "dont_initialize"):
            return leaf(mk("void"))
        if name in ("reset_signal_is", "async_reset_signal_is", "declare_thread_process", "next_trigger"):
            vs = []
            for a in args:
                x = self.lv(a, g)
                vs.append(self.addr(x) if x is not None else self.ev(a, g))
            self.effect(name, [self.read(leaf(mk("glob", "<process>")), g)] + vs, g, line, True)
            return leaf(mk("void"))
        if name in ("create_method_process", "create_cthread_process", "create_thread_process", "declare_method_process", "declare_cthread_process"):
            vs = [self.ev(a, g) for a in args]
            self.effect(name, vs, g, line, True)
            self.assign(leaf(mk("glob", "<process>")), self.term("proc", *vs), g)
            return leaf(mk("void"))
        # signals and ports
        base_t = ot
        if not isptr and SIGNAL.match(base_t):
            l = self.lvt(obj, g)
            if name == "read" or "k" in flags:
                return self.sigread(l, g, isb or "<bool>" in base_t, "<unsigned" in base_t)
            if name == "write":
                self.sigwrite(l, self.ev(args[0], g), g, line)
                return leaf(mk("void"))
            if name in ("bind",):
                self.effect("bind", [self.addr(l), self.addr(self.lvt(args[0], g))], g, line, True)
                return leaf(mk("void"))
            if name in ("pos", "neg", "value_changed", "posedge", "negedge"):
                return self.term("edge", self.addr(l), pre=(name,))
        if IGN_STREAM.search(ot):
            return leaf(mk("ostream"))
        if "k" in flags:
            if isb and BVT.search(ot):
                return self.tobool(self.ev(obj, g))
            v = self.ev(obj, g)
            return self.tobool(v) if isb else v
        if name == "range" and len(args) == 2 or name in ("at", "front", "back", "top") and "std::" in ot:
            return self.read(self.lv(e, g), g)
        l = self.lvt(obj, g) if not isptr else self.apply_at(self.ev(obj, g))
        cvv = self.read(l, g)
        avs = [self.ev(a, g) for a in args]
        if name in ("emplace_back", "emplace_front", "emplace") and "<" in ot:
            avs = self.emplaced(ot, name, args, avs)
        if name == "size" or name == "length":
            return restrict(g, self.sizeof(cvv))
        if name == "empty":
            sz = self.sizeof(cvv)
            return restrict(g, self.cmp("<", sz, const(1), "unsigned long"))
        if name in ("begin", "cbegin"):
            return restrict(g, self.term("begin", l, cvv))
        if name in ("end", "cend"):
            return restrict(g, self.term("end", l, cvv))
        if name == "find" and not re.match(r"(const )?(std::(__cxx11::)?)?(basic_string|string)\b", ot):
            return restrict(g, apply("find", lambda ts: leaf(mk("find", *ts)), [l, cvv] + avs[:1]))
        if name == "count" and len(avs) == 1 and re.search(r"\b(map|set|unordered_map|unordered_set)<", ot):
            return restrict(g, apply("count", lambda ts: ite(atom(mk("has", *ts, b=True)), const(1), const(0)), [cvv] + avs))
        if "c" in flags or name in READERS:
            return restrict(g, self.term("m", cvv, *avs, pre=(name,), b=isb, u=ty.startswith("unsigned") or name in COUNTS))
        # external mutator
        alias = {"push": "push_back", "pop": "pop_front" if "queue" in ot else "pop_back", "emplace_back": "push_back",
                 "emplace": "insert", "push_front": "push_front"}
        nm = alias.get(name, name)
        if name == "assign" and len(avs) == 2 and "vector" in ot:
            self.assign(l, self.term("ctor", *avs, pre=("vecfill",)), g, line)
            return leaf(mk("void"))
        if name == "clear":
            self.assign(l, leaf(mk("ctor", "empty")), g, line)
            return leaf(mk("void"))
        if name == "insert" and "map" in ot and len(avs) == 1:
            self.effect("m:insert", [self.addr(l)] + avs, g, line)
        self.effect("m:" + nm, [self.addr(l)] + avs, g, line, True)
        self.assign(l, self.term("mut", cvv, *avs, pre=(nm,)), g, line)
        return restrict(g, self.term("res", cvv, *avs, pre=(nm,), b=isb))

    def emplaced(self, ot, name, args, avs):
        """the element that emplace(args...) builds"""
        ta = tmpl_args(ot[:-1].strip() if ot.endswith("&") else ot)
        pre, kv = [], len(ta) > 1 and re.search(r"\bmap<", ot)
        if name == "emplace" and re.search(r"\b(vector|deque|list)<", ot):
            pre, avs, args = avs[:1], avs[1:], args[1:]
        if kv or ta and ta[0].startswith("std::pair<"):
            if len(avs) == 2:
                avs = [self.term("pair", *avs)]
        elif ta and ta[0].startswith("std::tuple<"):
            if len(avs) > 1:
                avs = [self.term("tuple", *avs)]
        elif ta and (len(avs) != 1 or ta[0] in self.prog.recs and re.sub(r"const |&", "", self.ety(args[0])).strip() != ta[0]):
            avs = [self.inline_value_ctor(None, ta[0], args, avs, None)]
        return pre + avs

    # ------------------------------------------------------------ functions
    def resolve(self, usr, flags, e):
        f = self.prog.fns.get(usr)
        if "v" in flags:
            # virtual: devirtualise only if exactly one implementation exists
            cands = [h for h in self.prog.fns.values() if usr in h.get("ov", ())]
            todo = list(cands)
            while todo:
                h = todo.pop()
                for h2 in self.prog.fns.values():
                    if h["usr"] in h2.get("ov", ()) and h2 not in cands:
                        cands.append(h2)
                        todo.append(h2)
            if f is not None and cands:
                return None
            if f is None:
                return cands[0] if len(cands) == 1 else None
        return f

    def should_inline(self, f):
        n = f["name"]
        r = self._opq.get(n)
        if r is None:
            r = any(p.search(n) for p in self.opaque)
            self._opq[n] = r
        if r:
            return False
        if f["usr"] in self.stack or len(self.stack) > self.maxdepth:
            return False
        return True

    def bind(self, f, this, args, g):
        fr = Frame(f, this)
        for i, (n, vid, t) in enumerate(f["params"]):
            a = args[i] if i < len(args) else None
            if t.endswith("&"):
                l = self.lv(a, g) if a is not None else None
                if l is None:
                    v = self.ev(a, g)
                    loc = self.newlocal(n, t[:-1].strip())
                    self.put(loc, v, g)
                    l = leaf(loc)
                fr.vars[vid] = l
            else:
                v = self.ev(a, g)
                loc = self.newlocal(n, t)
                self.put(loc, self.boolify(v, t), g)
                fr.vars[vid] = leaf(loc)
        return fr

    def refres(self, f, r, g, ref):
        """what an opaque call returned; through a reference, the object it names"""
        if f is None or not f["ret"].endswith("&") or f["ret"].startswith("const "):
            return r
        l = self.apply_at(r)
        if ref:
            return l
        v = self.read(l, g)
        return self.tobool(v) if f["ret"] in ("bool &", "bool&") else v

    def call_fn(self, f, this, args, g, ref=False):
        fr = self.bind(f, this, args, g)
        fr.ref = ref
        self.inlined.add(f["name"])
        old = self.frame
        self.frame = fr
        self.stack.append(f["usr"])
        try:
            if f.get("ctor"):
                pass
            self.stmt(f["body"], g, Flow())
        finally:
            self.stack.pop()
            self.frame = old
        if f["ret"] == "void":
            return leaf(mk("void"))
        if ref:
            return restrict(g, fr.ret)
        return self.boolify(restrict(g, fr.ret), f["ret"])

    def noreturn(self, f):
        """does every call of f end the program or throw? (straight-line bodies)"""
        r = self._norets.get(f["usr"])
        if r is None:
            self._norets[f["usr"]] = False
            for x in (f["body"] or {}).get("b") or []:
                e = x.get("e") if x is not None and x["s"] == "x" else None
                while e is not None and e[0] == "cast":
                    e = e[2] if isinstance(e[2], list) else None
                if e is None:
                    if x is not None and x["s"] in ("decl", "nop"):
                        continue
                    break
                if e[0] == "throw":
                    r = True
                elif e[0] == "call":
                    h = self.prog.fns.get(e[4])
                    r = self.noreturn(h) if h is not None else e[1].split("::")[-1] in ("exit", "abort", "_exit")
                if r:
                    break
            r = self._norets[f["usr"]] = bool(r)
        return r

    def call_lambda(self, t, args, g):
        e, ofr, caps = t.meta
        fr = Frame({"name": ofr.fn["name"] + "::<lambda>", "usr": "lambda"}, ofr.this)
        fr.vars = dict(ofr.vars)
        fr.vars.update(caps)
        old = self.frame
        vals = []
        for i, (n, vid, ty) in enumerate(e[1]):
            if ty.endswith("&"):
                vals.append((vid, self.lvt(args[i], g)))
            else:
                loc = self.newlocal(n, ty)
                self.put(loc, self.ev(args[i], g), g)
                vals.append((vid, leaf(loc)))
        fr.vars.update(vals)
        self.frame = fr
        try:
            self.stmt(e[2], g, Flow())
        finally:
            self.frame = old
        return restrict(g, fr.ret)

    def ev_call(self, e, g, ref=False):
        _, name, args, line, usr, ty = e[:6]
        short = name.split("::")[-1]
        short = short.split("<")[0]
        f = self.prog.fns.get(usr)
        if name == "__assert_fail":
            return leaf(mk("void"))
        if f is not None and self.should_inline(f):
            return self.call_fn(f, None, args, g)
        if short == "wait" and name.startswith("sc_core"):
            self.effect("wait", [self.ev(a, g) for a in args], g, line)
            ep = leaf(mk("epoch"))
            self.assign(ep, self.arith("+", self.read(ep, g), const(1), "int"), g)
            return leaf(mk("void"))
        if f is None and short in ("exit", "abort", "_exit"):
            self.effect("exit", [self.ev(a, g) for a in args], g, line)
            self.dead = lor(self.dead, g)
            return leaf(mk("void"))
        if f is None and short in ("min", "max") and len(args) == 2:
            x, y = self.ev(args[0], g), self.ev(args[1], g)
            c = self.cmp("<", y, x, ty)
            return ite(c, y, x) if short == "min" else ite(self.cmp("<", x, y, ty), y, x)
        if f is None and short in ("move", "forward") and len(args) == 1:
            return self.ev(args[0], g)
        if f is None and short == "make_pair":
            return self.term("pair", *[self.ev(a, g) for a in args])
        if f is None and short == "make_tuple":
            return self.term("tuple", *[self.ev(a, g) for a in args])
        if f is None and GETN.match(name) and len(args) == 1:
            v = self.read(self.getn(e, g), g)
            return self.tobool(v) if ty.replace("&", "").strip() in ("bool", "const bool") else v
        if f is None and short == "swap" and len(args) == 2:
            a, b = self.lvt(args[0], g), self.lvt(args[1], g)
            x, y = self.read(a, g), self.read(b, g)
            self.assign(a, y, g, line)
            self.assign(b, x, g, line)
            return leaf(mk("void"))
        if f is None and short == "getline" and len(args) >= 2:
            l = self.lvt(args[0], g)
            old = self.read(l, g)
            rest = [self.ev(a, g) for a in args[2:]]
            self.assign(l, self.term("mut", old, *rest, pre=("getline",)), g)
            self.assign(self.lvt(args[1], g), self.term("m", old, *rest, pre=("getline",)), g)
            return self.term("m", old, *rest, pre=("getline-ok",))
        avs = [self.ev(a, g) for a in args]
        if name == "cat":
            return restrict(g, apply("cat", lambda ts: leaf(cat(ts)), avs))
        if f is not None and self.query(f):
            ep = [self.read(leaf(mk("epoch")), g)] if self.timed(f) else []
            return restrict(g, self.term("q", *(avs + ep), pre=(name,), b=(ty == "bool"), u=ty.startswith("unsigned")))
        if f is not None:
            self.effect("call " + name, avs, g, line)
            if self.noreturn(f):
                self.dead = lor(self.dead, g)
                return leaf(mk("void"))
            ver = mk("ver", mk("glob", name))
            vv = self.read_ver(leaf(ver), g)
            r = restrict(g, self.term("res", vv, *avs, pre=(name,), b=(ty == "bool" and not f["ret"].endswith("&")), u=ty.startswith("unsigned")))
            self.assign(leaf(ver), self.term("mut", vv, *avs, pre=(name,)), g)
            self.outargs(name, args, usr, g)
            return self.refres(f, r, g, ref)
        if name == "print" and not usr:
            return leaf(mk("void"))
        if short not in PURE_CALLS and name not in PY_PURE and not name.startswith(("comp:", "kw:", "py:", "None", "caught:")):
            self.effect("call " + name, avs, g, line)
            if short in ("rand", "random", "drand48"):
                ver = mk("ver", mk("glob", name))
                vv = self.read_ver(leaf(ver), g)
                self.assign(leaf(ver), self.term("mut", vv, pre=(name,)), g)
                return restrict(g, self.term("res", vv, pre=(name,)))
        return restrict(g, self.term("call", *avs, pre=(short,), b=(ty == "bool")))

    # ------------------------------------------------------------ statements
    def stmt(self, s, g, fl):
        if s is None or g is FALSE:
            return g
        return getattr(self, "st_" + {"{": "block"}.get(s["s"], s["s"]))(s, g, fl)

    def st_block(self, s, g, fl):
        b = s["b"]
        i = 0
        for x in b:
            if g is FALSE:
                break
            g = self.stmt(x, g, fl)
        return g

    def expr_stmt(self, e, g):
        d0, self.dead = self.dead, FALSE
        self.ev(e, g)
        if self.dead is not FALSE:
            g = land(g, neg(self.dead))
        self.dead = lor(d0, self.dead)
        return g

    def st_x(self, s, g, fl):
        return self.expr_stmt(s["e"], g)

    def st_nop(self, s, g, fl):
        return g

    def st_unk(self, s, g, fl):
        return g

    def st_decl(self, s, g, fl):
        d0, self.dead = self.dead, FALSE
        for d in s["d"]:
            t = d["t"]
            if d.get("st"):
                continue
            if d.get("ref") and d["i"] is not None:
                l = self.lv(d["i"], g)
                if l is not None:
                    self.frame.vars[d["id"]] = l
                    continue
                t = t.rstrip("&").strip()
            loc = self.newlocal(d["n"], t)
            self.frame.vars[d["id"]] = leaf(loc)
            if d["i"] is not None:
                if self.trivial_init(d["i"]):
                    self.store[loc] = leaf(mk("ctor", loc.args[1] if not loc.args[1].startswith("std::") else "empty"))
                    if self.wlog is not None:
                        self.wlog[loc] = 1
                    continue
                v = self.boolify(self.ev(d["i"], g), t)
                self.store[loc] = v
                if self.wlog is not None:
                    self.wlog[loc] = 1
            else:
                # a fresh declaration holds no earlier value
                self.store.pop(loc, None)
        if self.dead is not FALSE:
            g = land(g, neg(self.dead))
        self.dead = lor(d0, self.dead)
        return g

    def st_if(self, s, g, fl):
        d0, self.dead = self.dead, FALSE
        c = self.cond(s["c"], g)
        if self.dead is not FALSE:
            g = land(g, neg(self.dead))
        self.dead = lor(d0, self.dead)
        a = self.stmt(s["t"], land(g, c), fl)
        b = land(g, neg(c))
        if s.get("e") is not None:
            b = self.stmt(s["e"], b, fl)
        return lor(a, b)

    def st_break(self, s, g, fl):
        fl.brk = lor(fl.brk, g)
        return FALSE

    def st_continue(self, s, g, fl):
        fl.cont = lor(fl.cont, g)
        return FALSE

    def st_ret(self, s, g, fl):
        fr = self.frame
        if s["v"] is not None:
            g0 = g
            d0, self.dead = self.dead, FALSE
            ret = fr.fn.get("ret", "")
            if fr.ref:
                v = self.lvt(s["v"], g)
            else:
                v = self.boolify(self.ev(s["v"], g), ret)
            if self.dead is not FALSE:
                g = land(g, neg(self.dead))
            self.dead = lor(d0, self.dead)
            fr.ret = ite(g, v, fr.ret)
        fr.retg = lor(fr.retg, g)
        return FALSE

    def st_try(self, s, g, fl):
        return self.stmt(s["b"], g, fl)

    def st_case(self, s, g, fl):
        return self.stmt(s["b"], g, fl)

    st_default = st_case

    def st_switch(self, s, g, fl):
        v = self.ev(s["c"], g)
        body = s["b"]["b"] if s["b"]["s"] == "{" else [s["b"]]
        items = []
        labels = []
        for x in body:
            labs = []
            while x is not None and x["s"] in ("case", "default"):
                if x["s"] == "case":
                    labs.append(x["v"])
                    labels.append(x["v"])
                else:
                    labs.append(None)
                x = x["b"]
            items.append((labs, x))
        matches = {}
        anym = restrict(g, FALSE)
        for l in labels:
            m = self.tobool(self.cmp("==", v, self.ev(l, g), "int"))
            matches[id(l)] = m
            anym = ite(anym, restrict(g, TRUE), m)
        f2 = Flow()
        cur = FALSE
        hasdef = any(None in labs for labs, _ in items)
        for labs, x in items:
            for l in labs:
                m = neg(anym) if l is None else matches[id(l)]
                cur = lor(cur, land(g, m))
            if x is not None:
                cur = self.stmt(x, cur, f2)
        out = lor(cur, f2.brk)
        if not hasdef:
            out = lor(out, land(g, neg(anym)))
        fl.cont = lor(fl.cont, f2.cont)
        return out

    # ------------------------------------------------------------ loops
    def assigned_in(self, s, vid):
        """is local variable vid written (or its address taken) in statement/expression s?"""
        if isinstance(s, dict):
            return any(self.assigned_in(x, vid) for x in s.values())
        if isinstance(s, list):
            if s and s[0] == "asg" and self.isvar(s[2], vid):
                return True
            if s and s[0] == "un" and s[1] in ("++", "--", "p++", "p--", "&") and self.isvar(s[2], vid):
                return True
            if s and s[0] == "op" and s[1] in ("++", "--", "+=", "-=", "=") and s[3] and self.isvar(s[3][0], vid):
                return True
            return any(self.assigned_in(x, vid) for x in s)
        return False

    def isvar(self, e, vid):
        return isinstance(e, list) and e and e[0] == "var" and e[2] == vid and e[3] in ("l", "p")

    def has_continue(self, s):
        if isinstance(s, dict):
            if s.get("s") == "continue":
                return True
            if s.get("s") in ("for", "while", "do", "range"):
                return False
            return any(self.has_continue(x) for x in s.values())
        if isinstance(s, list):
            return any(self.has_continue(x) for x in s)
        return False

    def induction(self, inc, cond, body):
        """(vid, var expr, +1/-1, strict bound expr or None, extra conditions)"""
        if inc is None or cond is None:
            return None
        step, v = None, None
        if inc[0] == "un" and inc[1] in ("++", "p++"):
            step, v = 1, inc[2]
        elif inc[0] == "un" and inc[1] in ("--", "p--"):
            step, v = -1, inc[2]
        elif inc[0] == "op" and inc[1] in ("++",):
            step, v = 1, inc[3][0]
        elif inc[0] == "asg" and inc[1] in ("+=", "-=") and inc[3][0] == "int":
            step, v = inc[3][1] * (1 if inc[1] == "+=" else -1), inc[2]
        elif inc[0] == "asg" and inc[1] == "=" and inc[3][0] == "bin" and inc[3][1] in "+-" and inc[3][3][0] == "int" and inc[2][:3] == inc[3][2][:3]:
            step, v = inc[3][3][1] * (1 if inc[3][1] == "+" else -1), inc[2]
        if v is None or v[0] != "var" or v[3] not in ("l", "p") or not step:
            return None
        vid = v[2]
        if self.assigned_in(body, vid):
            return None
        conj = []

        def split(c):
            if c[0] == "bin" and c[1] == "&&":
                split(c[2])
                split(c[3])
            else:
                conj.append(c)
        split(cond)
        for c in conj:
            if c[0] in ("bin", "op") and c[1] in ("<", ">", "<=", ">=", "!="):
                l, r = (c[2], c[3]) if c[0] == "bin" else (c[3][0], c[3][1])
                op = c[1]
                if self.strip(r, vid) and not self.strip(l, vid):
                    l, r = r, l
                    op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
                if self.strip(l, vid) and not self.mentions(r, vid):
                    if step > 0 and op in ("<", "<=", "!=") or step < 0 and op in (">", ">=", "!="):
                        rest = [x for x in conj if x is not c]
                        return vid, v, step, op, r, rest
        return None

    def strip(self, e, vid):
        while isinstance(e, list) and e and e[0] == "cast":
            e = e[3]
        return self.isvar(e, vid)

    def mentions(self, e, vid):
        if isinstance(e, list):
            if e and e[0] == "var" and e[2] == vid and e[3] in ("l", "p"):
                return True
            return any(self.mentions(x, vid) for x in e)
        if isinstance(e, dict):
            return any(self.mentions(x, vid) for x in e.values())
        return False

    def st_for(self, s, g, fl):
        g = self.stmt(s["i"], g, fl)
        if s["n"] is None:
            return self.plain_loop(s["c"], s["b"], g, s["l"])
        return self.loop(s["c"], s["n"], s["b"], g, s["l"])

    def st_while(self, s, g, fl):
        return self.plain_loop(s["c"], s["b"], g, s["l"])

    def plain_loop(self, c, body, g, line):
        """while loop; a counter stepped once per turn at the top level of the body is an induction variable"""
        if c is not None and body is not None and body["s"] == "{" and body["b"]:
            for i in range(len(body["b"]) - 1, -1, -1):
                x = body["b"][i]
                if x is None or x["s"] != "x":
                    continue
                rest = {"s": "{", "b": body["b"][:i] + body["b"][i + 1:], "l": body["l"]}
                ind = self.induction(x["e"], c, rest)
                if ind and not self.has_continue(body["b"][:i]) and not self.mentions(body["b"][i + 1:], ind[0]):
                    return self.loop(c, x["e"], rest, g, line)
        return self.loop(c, None, body, g, line)

    def st_do(self, s, g, fl):
        return self.loop(s["c"], None, s["b"], g, s["l"], post=True)

    def st_range(self, s, g, fl):
        r = s["r"]
        if r[0] == "list" and "[" in r[1] and len(r[2]) <= 16 and not s.get("bind"):
            # the elements are written out: one turn after the other
            out = FALSE
            for x in r[2]:
                if s["t"].endswith("&") and self.lv(x, g) is not None:
                    self.frame.vars[s["id"]] = self.lv(x, g)
                else:
                    l = self.newlocal(s["n"], s["t"].rstrip("&").strip())
                    self.store[l] = self.boolify(self.ev(x, g), s["t"])
                    self.frame.vars[s["id"]] = leaf(l)
                f2 = Flow()
                g = self.stmt(s["b"], g, f2)
                g = lor(g, f2.cont)
                out = lor(out, f2.brk)
                if g is FALSE:
                    break
            return lor(g, out)
        cont = self.lvt(s["r"], g)
        t = self.ety(s["r"])
        m = re.search(r"\[(\d+)\]", t)
        if m and "<" not in t:
            hi = const(int(m.group(1)))
        else:
            hi = self.sizeof(self.read(cont, g))
        return self.loop(None, None, s["b"], g, s["l"], rng=(s, cont, hi))

    def loop(self, cond, inc, body, g, line, post=False, rng=None):
        d = len(self.loops) + 1
        ind = None
        ivar = None
        if rng is None and not post:
            ind = self.induction(inc, cond, body)
        rec = LoopRec(d)
        rec.line = line
        entry = dict(self.store)
        if ind:
            vid, v, step, op, bound, extra = ind
            iloc = self.frame.vars.get(vid)
            if iloc is None or iloc.leaf is None or iloc.leaf.op != "lcl":
                ind = None
            else:
                iloc = iloc.leaf
                init = self.readloc(iloc)
        H = {}
        named, order, retied = {}, {}, 0
        mixed = {}
        for attempt in range(18):
            # state at the head of an arbitrary iteration
            self.store = dict(entry)
            ch0 = {k: dict(v) for k, v in self.children.items()}
            eff0, iters0, born0, fresh0, uid0 = len(self.effects), len(self.iters), set(self.born), dict(self.fresh), self.uid
            wl0, self.wlog = self.wlog, {}
            fr = self.frame
            ret0, retg0 = fr.ret, fr.retg
            fr.ret, fr.retg = BOT, FALSE
            dead0, self.dead = self.dead, FALSE
            self.loops.append(rec)
            self.clock += 1
            for loc, sym in H.items():
                self.store[loc] = sym
                self.wseq[loc] = self.clock
            for loc in mixed:           # what an earlier turn may have put there
                self.store.pop(loc, None)
            gb = g
            if ind:
                b = self.collapse(self.ev(bound, g))
                i0 = self.collapse(restrict(g, init))
                if step > 0:
                    lo, hi = i0, b
                    if op == "<=":
                        hi = add(b, mk("c", 1))
                else:
                    hi = add(i0, mk("c", 1))
                    lo = b if op == ">=" else add(b, mk("c", 1))
                if i0.op == "begin" and b.op == "end":
                    sz = self.collapse(self.sizeof(leaf(i0.args[1])))
                    it = mk("iota", d, mk("c", 0), sz, *([step] if abs(step) != 1 else []))
                    ivar = mk("itat", i0.args[0], it)
                else:
                    it = mk("iota", d, lo, hi, *([step] if abs(step) != 1 else []), u=True)
                    ivar = it
                self.store[iloc] = leaf(ivar)
                cg = TRUE
                for x in extra:
                    cg = land(cg, self.cond(x, g)) if cg is not TRUE else self.cond(x, g)
                head = ("for", it)
                gb = land(g, cg)
            elif rng is not None:
                s, cont, hin = rng
                h = self.collapse(restrict(g, hin))
                it = mk("iota", d, mk("c", 0), h, u=True)
                el = apply("elem%d" % self.apn, lambda ts: leaf(mk("idx", ts[0], it)), (cont,))
                self.apn += 1
                et = s["t"].replace("&", "").replace("const ", "").strip()
                for t in leaves(el):
                    self.types.setdefault(t, et)
                if s["t"].endswith("&"):
                    fr.vars[s["id"]] = el
                else:
                    l = self.newlocal(s["n"], s["t"])
                    self.store[l] = self.read(el, g)
                    fr.vars[s["id"]] = leaf(l)
                cg = TRUE
                head = ("for", it)
                for bn, be in s.get("bind", []) or []:
                    pass
            elif post:
                cg = TRUE
                head = ("do",)
            else:
                cg = self.cond(cond, g) if cond is not None else TRUE
                gb = land(g, cg)
                head = ("while",)
            f2 = Flow()
            g1 = self.stmt(body, gb, f2)
            g1 = lor(g1, f2.cont)
            pc = None
            if post:
                pc = self.cond(cond, g1)
            if inc is not None and not ind:
                self.expr_stmt(inc, g1)
            lret, lretg = fr.ret, fr.retg
            fr.ret, fr.retg = ret0, retg0
            dead1 = self.dead
            self.dead = dead0
            self.loops.pop()
            wl = self.wlog
            self.wlog = wl0
            # locations carried around the loop
            newH = {}
            its = None
            ordinal = {}
            for loc in wl:
                if self.root(loc) in self.born and self.root(loc) not in born0:
                    continue
                if ind and loc is iloc:
                    continue
                if self.depends(loc, d) or loc.op == "cnt":
                    continue
                newH[loc] = None
            stale = {t for loc in wl if loc.op in ("fld", "idx") for t in self.aliases(loc) if t in entry and t not in mixed and t not in newH}
            mixed.update(dict.fromkeys(stale))
            if all(l in H for l in newH) and not stale:
                rank = self.ties(H, gb, named)
                if rank is None or retied > 3:
                    break
                retied += 1
                order = rank
            # carried symbols, named by what they start from so that the name of
            # the variable holding the value does not matter
            H2 = {}
            for loc in sorted(newH, key=lambda l: (order.get(l, ""), self.root(l).args[0] if self.root(l).op == "lcl" else 0, l.dig)):
                iv = entry.get(loc)
                if iv is None:
                    iv = self.init(loc)
                ty = self.types.get(loc, "")
                if loc.op not in ("ver", "epoch") and self.root(loc).op != "val":
                    b = ty == "bool" if self.root(loc).op == "lcl" else ty in ("bool",) or all(t.b for t in leaves(iv) if t.op != "bot")
                    k = ("b" if b else "u" if ty.startswith("unsigned") else "v", iv.dig)
                    n = ordinal.get(k, 0)
                    ordinal[k] = n + 1
                    sym = mk("lv", d, "%s %s%s" % (k[0], iv.dig[:10], "#%d" % n if n else ""), b=b, u=ty.startswith("unsigned"))
                    sym.meta = loc
                    named[loc] = k
                else:
                    b = ty in ("bool",) or all(t.b for t in leaves(iv) if t.op != "bot")
                    sym = mk("lv", d, loc, b=b, u=ty.startswith("unsigned"))
                H2[loc] = atom(sym) if sym.b else leaf(sym)
            H2.update({l: v for l, v in H.items() if l not in H2})
            H = H2
            # undo and retry
            del self.effects[eff0:]
            del self.iters[iters0:]
            self.fresh = fresh0
            self.children = ch0
        else:
            raise AnalysisError("loop did not stabilise at line %s in %s" % (line, self.frame.fn["name"]))
        brk = lor(f2.brk, lretg)
        if dead1 is not FALSE:          # a turn that terminates leaves nothing behind
            gb = land(gb, neg(dead1))
        trans = {}
        gt = gb
        if head[0] != "for":            # a turn the test refuses changes nothing but what the test itself does
            gt = land(g, neg(dead1)) if dead1 is not FALSE else g
        for loc, sym in H.items():
            v = self.store.get(loc, sym)
            trans[loc] = only(gt, v)
        if head[0] == "for":
            go = land(gb, neg(brk)) if brk is not FALSE else TRUE
            rec.head = mk("dom", head[1], only(g, cg) if cg is not TRUE else TRUE, only(gb, brk) if brk is not FALSE else FALSE)
        else:
            go = land(cg, neg(brk))
            rec.head = mk("dom", "loop", only(gt, land(go, pc) if pc is not None else go))
        infinite = head[0] != "for" and rec.head.args[1] is TRUE
        body_store = self.store
        self.store = dict(entry)
        # element-wise writes stay, keyed by the loop's index
        self.clock += 1
        self.batch.add(self.clock)
        for loc, v in body_store.items():
            if loc in H or entry.get(loc) is v:
                continue
            if self.root(loc) in self.born and self.root(loc) not in born0:
                continue
            if ind and loc is iloc:
                continue
            self.store[loc] = v
            self.locdom[loc] = rec.head
            self.wseq[loc] = self.clock
            self.register(loc)
            if self.wlog is not None:
                self.wlog[loc] = 1
        if infinite:
            ent = {}
            for loc in trans:
                ev = entry.get(loc)
                if ev is not None and loc.op != "ver":
                    ent[loc] = restrict(g, ev)
            turn = dict(trans)
            # elements picked by what the turn itself works on
            for loc, v in body_store.items():
                if loc not in H and entry.get(loc) is not v and loc.op not in ("ver", "cnt") and (self.root(loc) not in self.born or self.root(loc) in born0):
                    turn[loc] = only(gt, v)
            self.iters.append((rec, turn, gb, ent, dict(H)))
        symof = {(v.leaf if v.leaf is not None else v.var): loc for loc, v in H.items()}
        deps = {}

        def dep(loc):
            r = deps.get(loc)
            if r is None:
                r = set(t for t in subterms(trans[loc]) if isinstance(t, T) and t in symof)
                deps[loc] = r
            return r
        exitdeps = set(t for t in subterms(rec.head) if isinstance(t, T) and t in symof)
        if infinite and f2.brk is FALSE:
            self.store = dict(entry)
            return FALSE
        for loc, sym in H.items():
            t = trans[loc]
            symt = sym.leaf if sym.leaf is not None else sym.var
            cur = entry.get(loc)
            if cur is None:
                cur = self.init(loc)
            if t is only(gt, sym):
                continue
            ls = [x for x in leaves(t) if x.op != "bot"]
            val = None
            # flag set to one constant on some iteration
            flag = self.flag(t, symt, gb, d)
            if flag is not None and head[0] == "for":
                K, c = flag
                ex = atom(mk("exists", head[1], only(gb, c), b=True))
                val = ite(ex, leaf(K) if not isinstance(K, N) else K, cur)
            if val is None:
                val = self.tally(t, symt, rec, dead1, d, restrict(g, cur))
            if val is None:
                sl, todo = set(), [symt] + list(exitdeps)
                while todo:
                    x = todo.pop()
                    if x in sl:
                        continue
                    sl.add(x)
                    todo.extend(dep(symof[x]))
                sls = sorted(sl, key=lambda x: x.dig)
                # what the others hold after the last turn no longer matters
                lp = mk("slice", rec.head, tuple(sls), tuple(trans[symof[x]] if x is symt or go is FALSE else only(go, trans[symof[x]]) for x in sls),
                        tuple(restrict(g, entry.get(symof[x], self.init(symof[x]))) for x in sls if x is not symt))
                bb = symt.b
                val = apply("after%d%d" % (id(lp), id(symt)), lambda ts: (atom if bb else leaf)(mk("after", symt, ts[0], lp, b=bb, u=symt.u)), (restrict(g, cur),))
            self.put(loc, val, g)
        if ind:
            b2 = mk("afteri", rec.head) if brk is not FALSE or cg is not TRUE else None
            self.put(iloc, leaf(b2) if b2 is not None else leaf(self.hi_of(ivar, op, step)), g)
        gout = g
        if lretg is not FALSE:
            ex = atom(mk("exists", rec.head.args[0] if head[0] == "for" else rec.head, only(gb, lretg), b=True))
            gr = land(g, ex)
            rv = lret
            ls = [t for t in leaves(rv) if t.op != "bot"]
            if len(ls) == 1 and not self.depends(ls[0], d):
                rvv = leaf(ls[0])
            elif all(t in (TT, FF) for t in ls) and ls:
                rvv = atom(mk("witness", rec.head, only(lretg, rv), b=True))
            elif ls:
                rvv = leaf(mk("witness", rec.head, only(lretg, rv)))
            else:
                rvv = None              # a bare return
            if rvv is not None:
                fr.ret = ite(gr, rvv, fr.ret)
            fr.retg = lor(fr.retg, gr)
            gout = land(g, neg(ex))
        if infinite:
            if f2.brk is FALSE:
                return FALSE
        return gout

    def hi_of(self, ivar, op, step):
        it = ivar if ivar.op == "iota" else ivar.args[1]
        if ivar.op == "itat":
            return mk("enditer", ivar.args[0], it)
        if step > 0:
            return it.args[2]
        return add(it.args[1], mk("c", 1), -1)

    def tally(self, t, symt, rec, dead, d, cur):
        """a value that grows by the same amount in every turn of a counted loop"""
        h = rec.head
        if symt.b or dead is not FALSE or h.args[0] is None or not isinstance(h.args[0], T) or h.args[0].op != "iota" or h.args[1] is not TRUE or h.args[2] is not FALSE:
            return None
        it = h.args[0]
        if len(it.args) > 3:
            return None
        k, m = lin(add(it.args[2], it.args[1], -1))
        if not isinstance(k, int) or k < 0 or any(c < 0 or not x.u for x, c in m.items()):
            return None
        n = unlin(k, m)
        for x in leaves(t):
            if x.op == "bot":
                continue
            k, m = lin(x)
            if m.get(symt) != 1 or self.depends(add(x, symt, -1), d):
                return None
        if any(self.depends(a, d) for a in atoms(t)):
            return None
        return apply("tally%d%d" % (id(symt), id(n)), lambda ts: leaf(add(ts[1], mul(n, add(ts[0], symt, -1)))), (t, cur))

    def flag(self, t, symt, gb, d):
        """t == (c ? K : symt) with K loop-invariant and c not carried: (K, c)"""
        if symt.b:
            t1 = restrict(gb, t)
            on = substitute(t1, symt, False)    # when still false
            if substitute(t1, symt, True) is restrict(gb, TRUE):
                if not self.carried(on, d):
                    return TT, land(gb, ite(gb, on, FALSE))
            off = substitute(t1, symt, True)
            if substitute(t1, symt, False) is restrict(gb, FALSE):
                if not self.carried(off, d):
                    return FF, land(gb, ite(gb, neg(off), FALSE))
            return None
        ls = [x for x in leaves(t) if x.op != "bot" and x is not symt]
        if len(ls) != 1 or self.depends(ls[0], d):
            return None
        K = ls[0]
        c = apply("isk%d" % id(K), lambda ts: TRUE if ts[0] is K else FALSE, (t,))
        c = ite(gb, c, FALSE)
        if self.carried(c, d):
            return None
        return K, c

    def carried(self, n, d):
        return any(isinstance(t, T) and t.op == "lv" and t.args[0] >= d for t in subterms(n))

    def depends(self, x, d):
        """does x mention this loop's index or carried values?"""
        for t in subterms(x):
            if isinstance(t, T) and t.op in ("iota", "lv") and t.args[0] == d:
                return True
        return False

    def ties(self, H, gb, named):
        """carried values that start equal: an order that depends on how each
        one changes, or None when the present order is that one"""
        groups = {}
        for loc, k in named.items():
            if loc in H:
                groups.setdefault(k, []).append(loc)
        out, mis = {}, False
        for k, ls in groups.items():
            if len(ls) < 2:
                continue
            syms = {}
            for l in ls:
                v = H[l]
                syms[v.leaf if v.leaf is not None else v.var] = l
            keys = {}
            for l in ls:
                keys[l] = self.neutral(restrict(gb, self.store.get(l, H[l])), l, syms, named, H)
            cur = [syms[x] for x in sorted(syms, key=lambda x: int(x.args[1].partition("#")[2] or 0))]
            want = sorted(cur, key=lambda l: keys[l])
            if [keys[l] for l in want] != [keys[l] for l in cur]:
                mis = True
            out.update(keys)
        return out if mis else None

    def neutral(self, n, self_loc, syms, named, H):
        """digest of a value in which the tied symbols are told apart only as
        'this one' and 'another one'"""
        memo = {}
        tied = {}
        for l in named:
            if l in H:
                v = H[l]
                tied[v.leaf if v.leaf is not None else v.var] = named[l]

        def go(y):
            if isinstance(y, tuple):
                return "(" + ",".join(go(x) for x in y) + ")"
            if not isinstance(y, (T, N)):
                return str(y)
            r = memo.get(y)
            if r is not None:
                return r
            if isinstance(y, T):
                if y in tied:
                    r = "self" if syms.get(y) is self_loc else "tied" + tied[y][1] if y not in syms else "other"
                elif not y.args or y.op == "lcl":
                    r = y.dig
                else:
                    r = terms._d(y.op + "|" + "|".join(go(a) for a in y.args))
            elif y.leaf is not None:
                r = go(y.leaf)
            else:
                r = terms._d("|".join(sorted({go(a) for a in atoms(y)})) + "=" + "|".join(sorted({go(a) for a in leaves(y)})))
            memo[y] = r
            return r
        return go(n)

    def shape(self, loc):
        if loc.op == "lcl":
            return loc.args[1]
        return self.shape(loc.args[0]) + "." + (loc.args[1] if loc.op == "fld" else "[" + ",".join(show(a) for a in loc.args[1:]) + "]")


def cat(ts):
    """text concatenation, flattened, neighbouring literals joined"""
    out = []
    for t in ts:
        for x in (t.args if t.op == "cat" else (t,)):
            if x.op == "c" and not isinstance(x.args[0], str) and not isinstance(x.args[0], bool):
                x = mk("c", str(x.args[0]))
            if out and x.op == "c" and isinstance(x.args[0], str) and out[-1].op == "c" and isinstance(out[-1].args[0], str):
                out[-1] = mk("c", out[-1].args[0] + x.args[0])
            elif x.op == "c" and x.args[0] == "":
                continue
            else:
                out.append(x)
    return out[0] if len(out) == 1 and out[0].op == "c" else mk("cat", *out) if out else mk("c", "")


def popped(x):
    """a container's size less the elements popped since"""
    k, m = lin(x)
    if len(m) != 1 or not isinstance(k, int) or k >= 0:
        return False
    (t, c), = m.items()
    return c == 1 and t.op == "m" and t.args[0] == "size"


def tmpl_args(ty):
    """top-level template arguments of a type spelling"""
    i = ty.index("<") + 1
    out, d, cur = [], 0, ""
    for c in ty[i:]:
        if c in "<([":
            d += 1
        elif c in ">)]":
            d -= 1
            if d < 0:
                break
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    return out + [cur.strip()] if cur.strip() or out else []


def distinct(a, b):
    """element locations of one array that cannot be the same element"""
    x, y = a.args[1], b.args[1]
    if a.op != "idx" or b.op != "idx":
        return True
    if x.op == "c" and y.op == "c":
        return x is not y
    if "c" in (x.op, y.op) and isinstance((x if x.op == "c" else y).args[0], str):
        return False
    k, m = lin(add(x, y, -1)) if x.op != "c" or not isinstance(x.args[0], str) else (0, {1: 1})
    return not m and k != 0


def constsel(k):
    return isinstance(k, str) or all(a.op in ("c", "sym") for a in k.args) and len(k.args) == 1


def mkupd(v, sel, vals):
    """v with parts replaced; nested replacements of distinct fixed parts merge"""
    d = list(zip(sel, vals))
    while v.op == "upd" and all(constsel(k) for k in v.args[1]) and all(constsel(k) for k, _ in d):
        have = {k if isinstance(k, str) else id(k) for k, _ in d}
        d += [(k, x) for k, x in zip(v.args[1], v.args[2]) if (k if isinstance(k, str) else id(k)) not in have]
        v = v.args[0]
    d.sort(key=lambda kx: kx[0] if isinstance(kx[0], str) else kx[0].dig)
    return mk("upd", v, tuple(k for k, _ in d), tuple(x for _, x in d))


def dropbot(n, memo=None):
    """n with every BOT region absorbed by the defined side"""
    if memo is None:
        memo = {}
    if n.leaf is not None:
        return n
    r = memo.get(n.id)
    if r is None:
        h, l = dropbot(n.hi, memo), dropbot(n.lo, memo)
        r = l if h is BOT else h if l is BOT else ite(atom(n.var), h, l)
        memo[n.id] = r
    return r


def only(g, n):
    """n as it is where g holds, whatever g itself says"""
    return dropbot(restrict(g, n))


def substitute(n, v, val):
    if n.leaf is not None:
        return n
    if n.var is v:
        return substitute(n.hi if val else n.lo, v, val)
    return ite(atom(n.var), substitute(n.hi, v, val), substitute(n.lo, v, val))
