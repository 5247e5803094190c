"""Blind-spot search: one small change at a time in the type-checked tree.

mutate.py GROUP [FN-REGEX] [PER-FUNCTION] : changes one construct of a function
(drops a statement, negates a test, shifts a constant, swaps an operator, an
operand, a field or a variable), recomputes the summaries of the functions the
contract lists for it, and prints the changes no summary notices.  A survivor is
either a change that alters nothing observable or a blind spot."""
import os
import random
import re
import sys
import time
import multiprocessing as mp
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ["PYTHONHASHSEED"] = "0"
sys.path[:0] = [HERE + "/engine", HERE + "/spec"]
import program as P
import ref
import api
import props
import terms

SWAP = {"+": "-", "-": "+", "*": "+", "/": "*", "%": "/", "<": "<=", "<=": "<", ">": ">=", ">=": ">", "==": "!=", "!=": "==", "&&": "||", "||": "&&",
        "&": "|", "|": "&", "<<": ">>", ">>": "<<", "^": "&", "+=": "-=", "-=": "+=", "++": "--", "--": "++", "*=": "+=", "=": "+="}
LOGGY = re.compile(r"SimLog|sim_log|std::cout|std::cerr|\bcout\b|\bcerr\b|printf|__assert_fail|ostream|fflush")


def loggy(s):
    return bool(LOGGY.search(repr(s)))


def mutants(f, prog):
    """[(line, what, undoable edit)]"""
    out = []
    varsof = {}

    for i, (n, vid, t) in enumerate(f["params"]):
        varsof.setdefault(t, []).append(["var", n, vid, "p", t])
    line = [f["line"]]

    def edit(c, i, new):
        def do():
            old = c[i]
            c[i] = new
            return lambda: c.__setitem__(i, old)
        return do

    def expr(e, cont, key):
        if not isinstance(e, list) or not e:
            return
        k = e[0]
        if isinstance(k, str):
            if k == "int":
                out.append((line[0], "constant %s+1" % e[1], edit(cont, key, ["int", e[1] + 1 if isinstance(e[1], int) else 7])))
            elif k == "bool":
                out.append((line[0], "!%s" % e[1], edit(e, 1, not e[1])))
            elif k == "str":
                out.append((line[0], "text %r" % str(e[1])[:20], edit(e, 1, str(e[1]) + "x")))
            elif k == "enum":
                out.append((line[0], "enum %s" % e[1], edit(cont, key, ["enum", e[1] + "_x", (e[2] if len(e) > 2 and isinstance(e[2], int) else 0) + 1])))
            elif k in ("bin", "asg", "un") and e[1] in SWAP and not (k == "un" and e[1] in "*&"):
                out.append((line[0], "%s -> %s" % (e[1], SWAP[e[1]]), edit(e, 1, SWAP[e[1]])))
            elif k == "un" and e[1] == "!":
                out.append((line[0], "! dropped", edit(cont, key, e[2])))
            elif k == "op" and e[1] in SWAP and e[1] != "=" and len(e[3]) == 2:
                out.append((line[0], "op %s -> %s" % (e[1], SWAP[e[1]]), edit(e, 1, SWAP[e[1]])))
            elif k == "var" and len(e) > 4 and "_handle" not in e[1]:
                c = [v for v in varsof.get(e[4], []) if v[2] != e[2]]
                if c:
                    out.append((line[0], "%s -> %s" % (e[1], c[0][1]), edit(cont, key, c[0])))
            elif k == "mem":
                cls = str(e[3]).rsplit("::", 1)[0]
                r = prog.recs.get(cls)
                if r:
                    c = [x[0] for x in r["fields"] if x[1] == e[4] and x[0] != e[2]]
                    if c:
                        def do(e=e, n=c[0], cls=cls):
                            o2, o3 = e[2], e[3]
                            e[2], e[3] = n, cls + "::" + n

                            def undo():
                                e[2], e[3] = o2, o3
                            return undo
                        out.append((line[0], "field %s -> %s" % (e[2], c[0]), do))
            elif k == "cond":
                out.append((line[0], "?: swapped", edit(cont, key, ["cond", e[1], e[3], e[2]] + e[4:])))
            if k in ("call", "mcall"):
                a = e[2] if k == "call" else e[4]
                if isinstance(a, list) and len(a) >= 2 and repr(a[0]) != repr(a[1]) and a[0][0] == a[1][0]:
                    out.append((line[0], "args 1,2 of %s swapped" % e[1 if k == "call" else 3], edit(e, 2 if k == "call" else 4, [a[1], a[0]] + a[2:])))
            if k == "lambda":
                if isinstance(e[2], dict):
                    stmt(e[2])
                return
        for i, y in enumerate(e):
            if isinstance(y, list):
                expr(y, e, i)

    def stmt(s):
        if not isinstance(s, dict):
            return
        if isinstance(s.get("l"), int):
            line[0] = s["l"]
        k = s["s"]
        mark = {t: len(v) for t, v in varsof.items()}
        if k == "{":
            for i, x in enumerate(s["b"]):
                if x is None:
                    continue
                if x["s"] in ("x", "break", "continue") or x["s"] == "ret" and x["v"] is None or x["s"] in ("if", "for", "while", "range", "do", "switch"):
                    if not (x["s"] == "x" and loggy(x)):
                        out.append((x.get("l", line[0]) if isinstance(x.get("l"), int) else line[0], "dropped: %s" % x["s"], edit(s["b"], i, {"s": "nop", "l": x.get("l")})))
        if k == "x" and loggy(s):
            return
        if k == "if":
            out.append((line[0], "test negated", edit(s, "c", ["un", "!", s["c"], "bool"])))
            if s.get("e") is not None:
                out.append((line[0], "else dropped", edit(s, "e", None)))
        for kk in sorted(s, key=lambda x: {"i": 0, "d": 0}.get(x, 1)):
            y = s[kk]
            if kk in ("l", "s"):
                continue
            if isinstance(y, dict):
                stmt(y)
            elif isinstance(y, list) and y and isinstance(y[0], dict) and "s" in y[0]:
                for x in y:
                    stmt(x)
            elif k == "decl" and kk == "d":
                for d in y:
                    if isinstance(d.get("i"), list):
                        expr(d["i"], d, "i")
                    varsof.setdefault(d["t"], []).append(["var", d["n"], d["id"], "l", d["t"]])
            elif isinstance(y, list):
                expr(y, s, kk)
        if k != "decl":
            for t in varsof:
                del varsof[t][mark.get(t, 0):]
    for i in f.get("inits") or []:
        if isinstance(i, list) and isinstance(i[-1], list):
            expr(i[-1], i, len(i) - 1)
    stmt(f["body"])
    return out


ctx = {}


def work(job):
    fi, idx = job
    prog, fl, users, R, want = (ctx[k] for k in ("prog", "fl", "users", "R", "want"))
    f = fl[fi]
    m = mutants(f, prog)[idx]
    undo = m[2]()
    for k in ("_query", "_modset", "_timed"):
        prog.__dict__.pop(k, None)
    res = []
    try:
        for k in users[fi]:
            r = ref._one(k)
            if r[1] is None:
                return fi, idx, m[:2], "unsupported " + str(r[2])[:100]
            old = R["fns"][k]["items"]
            for kk in set(old) | set(r[1]):
                n = r[1].get(kk)
                if n is not None and kk in old and n[0] == old[kk][0]:
                    continue
                kind, name = (n[1], n[2]) if n is not None else (old[kk][1], old[kk][2])
                if want[k] is None or any(re.search(p, kind + " " + name[:160]) for p in want[k]):
                    return fi, idx, m[:2], "caught"
                res.append(kind + " " + name)
    except Exception as e:
        return fi, idx, m[:2], "error %r" % e
    finally:
        undo()
    return fi, idx, m[:2], "outside " + "; ".join(res)[:100] if res else "survives"


def main():
    g, fre = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "."
    per = int(sys.argv[3]) if len(sys.argv) > 3 else 12
    sys.setrecursionlimit(100000)
    prog = P.load([g])
    R = ref.load_ref(g)
    byk = {}
    for f in prog.fns.values():
        byk.setdefault(ref.fkey(f), f)
    ref._ctx.update(prog=prog, opq=ref.cut_res(R["cuts"]), byk=byk)
    want = {}
    for p in props.PROPS:
        for k, v in ref.selected(R, [s[1:] for s in p["sel"] if s[0] == g]).items():
            if k in want and (want[k] is None or v is None):
                want[k] = None
            else:
                want[k] = None if v is None else want.get(k, []) + v
    scope = ref.SCOPE.get(g) or "^rad-sim/example-designs/%s/" % g[7:]
    fl, users = [], []
    for k, f in sorted(byk.items()):
        if not re.search(scope, f["file"]) or not re.search(fre, f["name"]):
            continue
        us = [k] if k in want else sorted((u for u in want if f["name"] in R["fns"][u]["inl"]), key=lambda u: len(R["fns"][u]["items"]))[:3]
        if not us:
            print("UNCOVERED", f["file"], k)
            continue
        fl.append(f)
        users.append(us)
    ctx.update(prog=prog, fl=fl, users=users, R=R, want=want)
    jobs = []
    rnd = random.Random(1)
    for fi, f in enumerate(fl):
        n = len(mutants(f, prog))
        jobs += [(fi, i) for i in (range(n) if n <= per else rnd.sample(range(n), per))]
    rnd.shuffle(jobs)
    t = time.time()
    cnt = {}
    out = []
    with mp.get_context("fork").Pool(8, maxtasksperchild=200) as pool:
        for fi, idx, m, r in pool.imap_unordered(work, jobs):
            cnt[r.split()[0]] = cnt.get(r.split()[0], 0) + 1
            if r != "caught":
                out.append("%s:%s %-28s %s | %s" % (fl[fi]["file"], m[0], m[1], ref.fkey(fl[fi])[:60], r))
    print("\n".join(sorted(out)))
    print(g, len(fl), "functions", len(jobs), "changes", cnt, "%.0fs" % (time.time() - t))


if __name__ == "__main__":
    if os.environ.get("MUTSEED") is None:
        os.environ["MUTSEED"] = "1"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    main()
