"""Interned terms and multi-terminal decision diagrams over opaque atoms.

A value is an MTBDD (class N) whose leaves are terms (class T) and whose inner
nodes test atoms (terms of boolean type).  Diagrams are reduced, ordered by the
structural digest of the atom, and aware that equalities of one term with
different constants exclude each other, so two values are equal exactly when
they are the same object/digest, however the source spelled the control flow.
"""
import math
import hashlib

_T = {}


def _d(s):
    return hashlib.md5(s.encode()).hexdigest()[:20]


class T:
    __slots__ = ("op", "args", "dig", "b", "u", "meta")

    def __repr__(self):
        return show(self)


def _key(a):
    if isinstance(a, (T, N)):
        return a.dig
    if isinstance(a, tuple):
        return "(" + ",".join(_key(x) for x in a) + ")"
    return type(a).__name__[0] + ":" + str(a)


def _ikey(a):
    if isinstance(a, (T, N)):
        return id(a)
    if isinstance(a, tuple):
        return tuple(_ikey(x) for x in a)
    return (type(a).__name__, a)


def mk(op, *args, b=False, u=False):
    k = (op,) + tuple(_ikey(a) for a in args)
    t = _T.get(k)
    if t is None:
        t = T()
        t.op, t.args, t.b, t.u = op, args, b, u
        t.meta = None
        if op == "lcl":          # locals: identity is private, digest is by type only
            t.dig = _d("lcl|" + str(args[1]))
        elif op == "lambda":     # likewise: what the function does, not which one it is
            t.dig = _d("lambda|" + "|".join(_key(a) for a in args[1:]))
        else:
            t.dig = _d(op + "|" + "|".join(_key(a) for a in args))
        _T[k] = t
    else:
        if b:
            t.b = True
        if u:
            t.u = True
    return t


_N = {}


class N:
    __slots__ = ("leaf", "var", "hi", "lo", "dig", "id", "vk")
    cnt = 0

    def __repr__(self):
        return showN(self)


def _newN():
    n = N()
    N.cnt += 1
    n.id = N.cnt
    return n


def leaf(t):
    k = ("l", id(t))
    n = _N.get(k)
    if n is None:
        n = _newN()
        n.leaf, n.var, n.hi, n.lo = t, None, None, None
        n.dig = _d("L" + t.dig)
        n.vk = None
        _N[k] = n
    return n


def const(v):
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    return leaf(mk("c", v))


TT = mk("c", True, b=True)
FF = mk("c", False, b=True)
TRUE, FALSE = leaf(TT), leaf(FF)
BOT = leaf(mk("bot"))


def vkey(v):
    if v.op == "eqc":
        c = v.args[1]
        return (v.args[0].dig, 0, str(c).rjust(24))
    if v.op == "iv":
        return (v.args[0].dig, 1, "%032d" % (v.args[1] + 10 ** 30))
    return (v.dig, 2, "")


def reset():
    """forget every interned term and diagram except the constants"""
    for t in (_T, _N, _af, _ap, _it, _hb):
        t.clear()
    for t in (TT, FF, BOT.leaf):
        _T[(t.op,) + tuple(_ikey(a) for a in t.args)] = t
    for n in (TRUE, FALSE, BOT):
        _N[("l", id(n.leaf))] = n


class Complexity(Exception):
    pass


LIMIT = [5000000]


def node(v, hi, lo):
    if hi is lo:
        return lo
    if v.op == "eqc":
        if _allfalse(lo, v.args[0]) is hi:
            return lo
    elif v.op == "iv":
        if _below(hi, v.args[0]) is lo:
            return hi
    k = (id(v), hi.id, lo.id)
    n = _N.get(k)
    if n is None:
        if len(_N) > LIMIT[0]:
            raise Complexity("diagram too large")
        n = _newN()
        n.leaf, n.var, n.hi, n.lo = None, v, hi, lo
        n.dig = _d("N" + v.dig + hi.dig + lo.dig)
        n.vk = vkey(v)
        _N[k] = n
    return n


_af = {}


def _allfalse(n, t):
    """n with every (t == constant) atom false"""
    while n.leaf is None and n.var.op == "eqc" and n.var.args[0] is t:
        n = n.lo
    if n.leaf is not None or n.vk[0] > t.dig:
        return n
    k = (n.id, id(t))
    r = _af.get(k)
    if r is None:
        r = node(n.var, _allfalse(n.hi, t), _allfalse(n.lo, t))
        _af[k] = r
    return r


def _below(n, t):
    """n with t under every threshold tested"""
    while n.leaf is None and n.var.op == "iv" and n.var.args[0] is t:
        n = n.lo
    if n.leaf is not None or n.vk[0] > t.dig:
        return n
    k = (n.id, id(t), "iv")
    r = _af.get(k)
    if r is None:
        r = node(n.var, _below(n.hi, t), _below(n.lo, t))
        _af[k] = r
    return r


def atom(t):
    if t is TT:
        return TRUE
    if t is FF:
        return FALSE
    if t.op == "not":
        return neg(atom(t.args[0]))
    return node(t, TRUE, FALSE)


def _cof(n, v):
    """(n with v true, n with v false); v is at or before n's variable"""
    if n.leaf is not None:
        return n, n
    if n.var is v:
        return n.hi, n.lo
    if v.op == "eqc" and n.var.op == "eqc" and n.var.args[0] is v.args[0]:
        return _allfalse(n, v.args[0]), n
    if v.op == "iv" and n.var.op == "iv" and n.var.args[0] is v.args[0]:
        return n, _below(n, v.args[0])
    return n, n


_ap = {}


def apply(name, fn, ns):
    """Pointwise fn over leaf terms; fn(list of T) -> N.  BOT is absorbing."""
    ns = tuple(ns)
    for n in ns:
        if n is BOT:
            return BOT
    if all(n.leaf is not None for n in ns):
        r = fn([n.leaf for n in ns])
        return r
    k = (name,) + tuple(n.id for n in ns)
    r = _ap.get(k)
    if r is not None:
        return r
    v, vk = None, None
    for n in ns:
        if n.leaf is None and (vk is None or n.vk < vk):
            v, vk = n.var, n.vk
    his, los = [], []
    for n in ns:
        h, l = _cof(n, v)
        his.append(h)
        los.append(l)
    hi = apply(name, fn, his)
    lo = apply(name, fn, los)
    r = ite(atom(v), hi, lo)
    _ap[k] = r
    return r


_it = {}


def ite(c, a, b):
    """c has leaves TRUE/FALSE/BOT"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c is BOT:
        return BOT
    if a is b:
        return a
    if a is TRUE and b is FALSE and not _hasbot(c):
        return c
    k = (c.id, a.id, b.id)
    r = _it.get(k)
    if r is not None:
        return r
    v, vk = c.var, c.vk
    for n in (a, b):
        if n.leaf is None and n.vk < vk:
            v, vk = n.var, n.vk
    ch, cl = _cof(c, v)
    ah, al = _cof(a, v)
    bh, bl = _cof(b, v)
    r = node(v, ite(ch, ah, bh), ite(cl, al, bl))
    _it[k] = r
    return r


_hb = {}


def _hasbot(n):
    if n.leaf is not None:
        return n is BOT
    r = _hb.get(n.id)
    if r is None:
        r = _hasbot(n.hi) or _hasbot(n.lo)
        _hb[n.id] = r
    return r


def neg(n):
    return ite(n, FALSE, TRUE)


def land(a, b):
    """a and b; b may be BOT where a is false"""
    return ite(a, b, FALSE)


def lor(a, b):
    return ite(a, TRUE, b)


def restrict(g, v):
    return ite(g, v, BOT)


def leaves(n, seen=None, out=None):
    if out is None:
        out, seen = [], set()
    if n.id in seen:
        return out
    seen.add(n.id)
    if n.leaf is not None:
        out.append(n.leaf)
    else:
        leaves(n.hi, seen, out)
        leaves(n.lo, seen, out)
    return out


def atoms(n, seen=None, out=None):
    if out is None:
        out, seen = [], set()
    if n.id in seen or n.leaf is not None:
        return out
    seen.add(n.id)
    out.append(n.var)
    atoms(n.hi, seen, out)
    atoms(n.lo, seen, out)
    return out


def subterms(x, seen=None):
    """all terms below a T or N"""
    if seen is None:
        seen = {}
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, tuple):
            stack.extend(y)
            continue
        if not isinstance(y, (T, N)) or id(y) in seen:
            continue
        seen[id(y)] = y
        if isinstance(y, T):
            stack.extend(y.args)
        elif y.leaf is not None:
            stack.append(y.leaf)
        else:
            stack.extend((y.var, y.hi, y.lo))
    return seen.values()


def implies(a, b):
    return land(a, neg(b)) is FALSE


# ---------------------------------------------------------------- arithmetic
def isc(t):
    return t.op == "c" and not isinstance(t.args[0], (str,))


def cv(t):
    v = t.args[0]
    return int(v) if isinstance(v, bool) else v


def lin(t):
    """term -> (const, {term: coef})"""
    if isc(t):
        return cv(t), {}
    if t.op == "sum":
        return t.args[0], dict(zip(t.args[1], t.args[2]))
    return 0, {t: 1}


def unlin(k, m, u=False):
    m = {t: c for t, c in m.items() if c != 0}
    if not m:
        return mk("c", k)
    if k == 0 and len(m) == 1:
        (t, c), = m.items()
        if c == 1:
            return t
    ts = sorted(m, key=lambda t: (t.dig, id(t)))
    return mk("sum", k, tuple(ts), tuple(m[t] for t in ts), u=u)


def add(a, b, s=1):
    k1, m1 = lin(a)
    k2, m2 = lin(b)
    m = dict(m1)
    for t, c in m2.items():
        m[t] = m.get(t, 0) + s * c
    return unlin(k1 + s * k2, m)


def mul(a, b):
    if isc(a) or isc(b):
        if isc(b):
            a, b = b, a
        c = cv(a)
        k, m = lin(b)
        return unlin(k * c, {t: x * c for t, x in m.items()})
    fs = []
    for x in (a, b):
        fs.extend(x.args if x.op == "mul" else (x,))
    return mk("mul", *sorted(fs, key=lambda t: t.dig))


def eq(a, b, isint=True):
    """-> N boolean"""
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if x.op == "end" and y.op == "find" and x.args[0] is y.args[0]:
            return neg(atom(mk("has", y.args[1], y.args[2], b=True)))
    if a.b and b.b and not (isc(a) or isc(b)):
        x, y = atom(a), atom(b)
        return ite(x, y, neg(y))
    for x, y in ((a, b), (b, a)):
        if isc(y) and x.b:
            return atom(x) if cv(y) else neg(atom(x))
        if isc(y) and cv(y) == 0 and x.op == "m" and x.args[0] == "count":
            return neg(atom(mk("has", x.args[1], x.args[2], b=True)))
        if isc(y) and cv(y) == 0 and x.op == "addr":
            return FALSE
    if isc(a) and isc(b):
        return const(cv(a) == cv(b))
    if a.op == "c" and b.op == "c":
        return const(a.args[0] == b.args[0])
    if a.op == "c" and not isc(a):
        a, b = b, a
    if b.op == "c" and not isc(b):
        return atom(mk("eqc", a, b.args[0], b=True))
    d = add(a, b, -1)
    k, m = lin(d)
    if not m:
        return const(k == 0)
    if isint and len(m) == 1 and isinstance(k, int) and all(isinstance(c, int) for c in m.values()):
        x, g, s = _prim(m)
        if k % g:
            return FALSE
        c = -k // g * s
        return ite(_iv(x, c + 1), FALSE, _iv(x, c))
    if len(m) == 1:
        (t, c), = m.items()
        if isinstance(k, int) and isinstance(c, int) and k % c == 0:
            return atom(mk("eqc", t, -k // c, b=True))
        return atom(mk("eqc", t, -k / c, b=True))
    ts = sorted(m, key=lambda t: t.dig)
    if m[ts[0]] < 0:
        d = unlin(-k, {t: -c for t, c in m.items()})
    return atom(mk("eq0", d, b=True))


def _prim(m):
    """{term: coefficient} -> (primitive term, content, sign)"""
    g = 0
    for c in m.values():
        g = math.gcd(g, abs(c))
    s = 1 if m[min(m, key=lambda t: (t.dig, id(t)))] > 0 else -1
    return unlin(0, {t: c // g * s for t, c in m.items()}), g, s


def _iv(x, c, uns=False):
    """x >= c for an integer x"""
    m = lin(x)[1]
    if c <= 0 and (all(t.u for t in m) or uns and len(m) == 1) and all(k > 0 for k in m.values()):
        return TRUE
    return atom(mk("iv", x, c, b=True))


def ge0(d, isint, uns=False):
    """d >= 0 -> N"""
    k, m = lin(d)
    if not m:
        return const(k >= 0)
    if isint and isinstance(k, int) and all(isinstance(c, int) for c in m.values()):
        x, g, s = _prim(m)
        if s > 0:
            return _iv(x, -(k // g), uns)
        return neg(_iv(x, k // g + 1, uns))
    ts = sorted(m, key=lambda t: t.dig)
    if m[ts[0]] < 0:      # -x + k >= 0  <=> !(x - k > 0)
        return neg(atom(mk("gt0", unlin(-k, {t: -c for t, c in m.items()}), b=True)))
    return atom(mk("ge0", d, b=True))


def lt(a, b, isint, uns=False):
    """a < b"""
    if isint:
        return neg(ge0(add(a, b, -1), True, uns))
    k, m = lin(add(b, a, -1))
    if not m:
        return const(k > 0)
    ts = sorted(m, key=lambda t: t.dig)
    d = unlin(k, m)
    if m[ts[0]] < 0:      # d > 0 <=> !( -d >= 0 )
        return neg(atom(mk("ge0", unlin(-k, {t: -c for t, c in m.items()}), b=True)))
    return atom(mk("gt0", d, b=True))


# ---------------------------------------------------------------- printing
def show(t, depth=7):
    if isinstance(t, N):
        return showN(t, depth)
    if isinstance(t, tuple):
        return ", ".join(show(x, depth) for x in t)
    if not isinstance(t, T):
        return str(t)
    if depth <= 0:
        return "<" + t.dig[:6] + ">"
    d = depth - 1
    o, a = t.op, t.args
    if o == "c":
        return '"%s"' % a[0] if isinstance(a[0], str) else str(a[0]).lower() if isinstance(a[0], bool) else str(a[0])
    if o == "bot":
        return "-"
    if o == "rd":
        return show(a[0], depth)
    if o == "thisp":
        return "this"
    if o == "param":
        return "arg%s" % a[0]
    if o == "glob":
        return a[0]
    if o == "at":
        if a[0].op == "thisp":
            return "this"
        return "*" + show(a[0], d)
    if o == "fld":
        if a[0].op == "at":
            p = show(a[0].args[0], d)
            return a[1] if p == "this" else p + "->" + a[1]
        return show(a[0], d) + "." + a[1]
    if o in ("idx", "idxof"):
        return show(a[0], d) + "[" + show(a[1], d) + "]"
    if o == "fldof":
        return show(a[0], d) + "." + a[1]
    if o in ("rng", "rngof"):
        return "%s(%s:%s)" % (show(a[0], d), show(a[1], d), show(a[2], d))
    if o == "eqc":
        return "%s == %s" % (show(a[0], d), a[1])
    if o == "iv":
        return "%s >= %s" % (show(a[0], d), a[1])
    if o in ("eq0", "ge0", "gt0"):
        return "%s %s 0" % (show(a[0], d), {"eq0": "==", "ge0": ">=", "gt0": ">"}[o])
    if o == "sum":
        r = ""
        for x, c in zip(a[1], a[2]):
            s = show(x, d)
            r += (" + " if c > 0 else " - ") if r else ("" if c > 0 else "-")
            r += s if abs(c) == 1 else "%s*%s" % (abs(c), s)
        if a[0]:
            r += (" + " if a[0] > 0 else " - ") + str(abs(a[0]))
        return "(" + r + ")"
    if o == "mul":
        return "(" + "*".join(show(x, d) for x in a) + ")"
    if o == "m":
        return "%s.%s(%s)" % (show(a[1], d), a[0], ", ".join(show(x, d) for x in a[2:]))
    if o == "mut":
        return "%s{.%s(%s)}" % (show(a[1], d), a[0], ", ".join(show(x, d) for x in a[2:]))
    if o == "call":
        return "%s(%s)" % (a[0], ", ".join(show(x, d) for x in a[1:]))
    if o == "sym":
        return "#" + a[0]
    if o == "iota":
        return "i%d[%s..%s)" % (a[0], show(a[1], d), show(a[2], d))
    if o == "lv":
        return "loop%d.%s" % (a[0], show(a[1], depth) if isinstance(a[1], T) else show(t.meta, depth) if t.meta is not None and t.meta.op != "lcl" else a[1])
    if o == "lambda":
        return "lambda(%s)" % ", ".join(show(x, depth) if isinstance(x, T) else showN(x) if isinstance(x, N) else str(x) for x in a[1:])
    if o == "lcl":
        return "local:" + str(a[1])
    return "%s(%s)" % (o, ", ".join(show(x, d) for x in a))


def cubes(n, limit=24):
    out = []

    def go(n, path):
        if len(out) > limit:
            return
        if n.leaf is not None:
            if n is not BOT and n is not FALSE:
                out.append((path, n.leaf))
            return
        go(n.hi, path + [(n.var, True)])
        go(n.lo, path + [(n.var, False)])
    go(n, [])
    return out


def literals(path, depth):
    """the literals of a path; thresholds on one integer are joined"""
    lo, hi, out = {}, {}, []
    for a, v in path:
        if a.op == "iv":
            x, c = a.args
            if v:
                lo[x] = c
            else:
                hi.setdefault(x, c - 1)
    done = set()
    for a, v in path:
        if a.op != "iv":
            out.append(("" if v else "!") + "(" + show(a, depth) + ")")
        elif a.args[0] not in done:
            x = a.args[0]
            done.add(x)
            s = show(x, depth)
            if x in lo and x in hi:
                out.append("(%s == %s)" % (s, lo[x]) if lo[x] == hi[x] else "(%s <= %s <= %s)" % (lo[x], s, hi[x]))
            else:
                out.append("(%s >= %s)" % (s, lo[x]) if x in lo else "(%s <= %s)" % (s, hi[x]))
    return out


def showN(n, depth=7):
    if n.leaf is not None:
        return show(n.leaf, depth)
    r = []
    for path, lf in cubes(n, 12)[:12]:
        c = " && ".join(literals(path, depth - 1))
        r.append((c + " => " + show(lf, depth - 1)) if lf is not TT else c)
    return "{" + " | ".join(r) + "}"
