"""Effect contracts: a function's summary as named, canonical items.

summary(prog, fn, opaque) -> {key: Item}.  Items are what callers can observe:
values left in fields and through pointers, calls made (per receiver, in path
order), the return value, what one turn of a process loop does, and when the
function terminates the program.
"""
import re
import terms
from terms import *
import absint

IGN = [r"^(operator<<|std::operator<<)", r"basic_ostream", r"^wait-ignored$", r"^call std::basic_ostream"]


class Item:
    __slots__ = ("key", "dig", "text", "line", "kind", "name", "root")

    def __init__(self, kind, name, dig, text, line, root=""):
        self.kind, self.name, self.dig, self.text, self.line, self.root = kind, name, dig, text, line, root


def rootname(loc):
    """outermost field or global a location belongs to"""
    r = ""
    while isinstance(loc, T):
        if loc.op == "fld":
            r = loc.args[1]
        elif loc.op == "glob":
            return r or loc.args[0]
        if loc.op in ("fld", "idx", "rng", "w", "ver", "at", "rd", "addr", "ent"):
            loc = loc.args[0]
        else:
            break
    return r


WIRING = ("sensitive", "bind", "clocked")


def localobj(t):
    while isinstance(t, T) and t.op in ("addr", "fld", "idx", "rng", "w", "ent"):
        t = t.args[0]
    return isinstance(t, T) and t.op in ("lcl", "val")


def short(s, n=420):
    return s if len(s) <= n else s[:n] + " ..."


def loop_key(loops):
    return tuple(l.head.dig if l.head is not None else "open" for l in loops)


def slots(effs, live):
    """k-th call along every path, independent of how branches spell it"""
    out = []
    for e in effs:
        cur = e.args
        for i in range(len(out)):
            if cur is BOT:
                break
            # where slot i is empty it takes cur; elsewhere cur moves on
            filled = isfilled(out[i])
            nxt = ite(filled, cur, BOT)
            out[i] = ite(filled, out[i], cur)
            cur = nxt
        if cur is not BOT:
            out.append(cur)
    return out


_fl = {}


def isfilled(n):
    if n.leaf is not None:
        return FALSE if n is BOT else TRUE
    r = _fl.get(n)
    if r is None:
        r = ite(atom(n.var), isfilled(n.hi), isfilled(n.lo))
        _fl[n] = r
    return r


def first_obj(e):
    """receiver when it is the same on every path"""
    if not e.obj:
        return None
    ls = [t for t in leaves(e.args) if t.op != "bot"]
    objs = {t.args[0] for t in ls if t.op == "args" and t.args}
    return objs.pop() if len(objs) == 1 else None


def hvonly(v):
    return all(t.op in ("hv", "bot") for t in leaves(v)) and not atoms(v)


def items(s, fieldset=None):
    """Summary -> {key: Item}"""
    _fl.clear()
    out = {}
    live = neg(s.deadg) if s.deadg is not FALSE else TRUE

    def put(kind, name, kdig, n, line, root="", dom=None):
        k = kind + "|" + kdig
        dig = n.dig if dom is None else terms._d(n.dig + dom.dig)
        out[k] = Item(kind, name, dig, short(show(n)), line, root)
    for loc, v in s.final.items():
        if loc.op in ("epoch",) or loc.op == "glob" and loc.args[0].startswith("<"):
            continue
        v = restrict(live, v)
        if v is BOT or hvonly(v):
            continue
        if v.leaf is not None and v.leaf.op == "rd" and v.leaf.args[0] is loc:
            continue
        put("leaves", show(loc), loc.dig, v, s.lines.get(loc, 0), rootname(loc), s.dom.get(loc))
    groups = {}
    for e in s.effects:
        if e.name.startswith("m:"):
            continue
        o = first_obj(e)
        if o is not None and localobj(o) and "::" not in e.name and e.name not in WIRING:
            continue
        lk = loop_key(e.loops)
        hd = tuple(l.head for l in e.loops)
        k = (e.name, o.dig if o is not None else "", lk)
        groups.setdefault(k, (o, hd, []))[2].append(e)
    for (nm, _, lk), (o, hd, es) in groups.items():
        sl = slots(es, live)
        for i, n in enumerate(sl):
            nmx = nm + (" on " + show(o) if o is not None and o.op not in ("c", "thisp") else "")
            if hd:
                nmx += " in loop " + short("; ".join(show(h.args[0]) if isinstance(h, T) and isinstance(h.args[0], T) else "" for h in hd), 120)
            put("calls", nmx + ("" if i == 0 else " (call %d)" % (i + 1)),
                terms._d(nm + "|" + (o.dig if o is not None else "") + "|" + ",".join(lk) + "|" + str(i)), n, es[min(i, len(es) - 1)].line, rootname(o) if o is not None else "")
    if s.ret is not None and s.ret is not BOT and not (s.ret.leaf is not None and s.ret.leaf.op == "void"):
        put("returns", "value", "ret", s.ret, 0)
    if s.deadg is not FALSE:
        put("terminates", "when", "dead", s.deadg, 0)
    for i, (rec, trans, gb, ent, H) in enumerate(s.iters):
        put("loop", "head %d" % i, "head%d" % i, leaf(rec.head), rec.line)
        for loc, v in trans.items():
            if loc.op in ("ver",):
                continue
            if loc in H and restrict(gb, H[loc]) is v or hvonly(v):
                continue
            if loc not in H and v.leaf is not None and v.leaf.op == "rd" and v.leaf.args[0] is loc:
                continue
            put("each turn leaves", show(loc), "it%d" % i + loc.dig, v, s.lines.get(loc, 0), rootname(loc))
        for loc, v in ent.items():
            if loc.op in ("epoch", "lcl") or hvonly(v):
                continue
            put("reset leaves", show(loc), "rs%d" % i + loc.dig, v, s.lines.get(loc, 0), rootname(loc))
    return out


def compute(prog, fn, opaque=(), ignore=()):
    terms.reset()
    it = absint.Interp(prog, opaque=opaque, ignore=list(ignore) + IGN)
    s = it.run(fn)
    return items(s), s
