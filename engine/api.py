"""Which repository functions are kept as named calls (the cut points).

A function is a cut point when it is part of a class's interface: virtual, or
called from another class or file, and doing more than returning an expression.
Everything else is expanded in its callers, so extracting or folding a private
helper does not change a summary.
"""


def trivial(f):
    b = f["body"]["b"] if f.get("body") else []
    if len(b) == 0:
        return True
    if len(b) == 1 and b[0]["s"] == "ret":
        return True
    if len(b) == 1 and b[0]["s"] == "x" and b[0]["e"][0] in ("asg",):
        return True
    return False


def callees(f, refs=True):
    out = set()

    def go(x):
        if isinstance(x, dict):
            for y in x.values():
                go(y)
        elif isinstance(x, list):
            if x and x[0] == "mcall":
                out.add(x[7])
            elif x and x[0] == "call":
                out.add(x[4])
            elif x and x[0] == "op" and len(x) > 6:
                out.add(x[6])
            elif x and x[0] == "ctor" and len(x) > 4:
                out.add(x[4])
            elif x and x[0] == "fn" and refs:
                out.add(x[2])
            for y in x:
                go(y)
    go(f["body"])
    go(f.get("inits", []))
    return out


def cuts(prog):
    out = set()
    for f in prog.fns.values():
        if f.get("virtual") and not trivial(f):
            out.add(f["name"])
        for c in callees(f):
            h = prog.fns.get(c)
            if h is None or trivial(h) or h is f:
                continue
            if h.get("cls"):
                if h["cls"] != f.get("cls") and h["cls"] not in prog.bases(f.get("cls") or ""):
                    out.add(h["name"])
            elif h["file"] != f["file"]:
                out.add(h["name"])
    return out


def roots(prog, cut):
    """cut points plus everything no repository function calls by name"""
    called = set()
    for f in prog.fns.values():
        called |= callees(f, False)
    return [f for f in prog.fns.values() if f["name"] in cut or f["usr"] not in called or f.get("ctor")]
