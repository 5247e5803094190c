"""Reference summaries: generation, storage and comparison.

contracts/<group>.json holds, for every analysed function, the canonical items
of its summary as reviewed on the reference tree.  A check recomputes the items
from the current source and compares digests.
"""
import json
import multiprocessing as mp
import os
import re
import sys
import time
import program as P
import api
import contract
import terms

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIR = HERE + "/contracts"

# private helpers kept as named calls because their callers are too large otherwise
EXTRA_CUTS = {
    "booksim": [r"^IQRouter::_\w+$", r"^EventRouter::_\w+$", r"^TrafficManager::_\w+$", r"^BatchTrafficManager::_\w+$",
                r"^TrafficManager::(Display|Update|Write)\w+$",
                r"^dor_next_(torus|mesh)$", r"^flatfly_\w+$", r"^dragonfly_\w+$", r"^find_(distance|ran_intm|phy_distance)$"],
    "dramsim3": [r"^dramsim3::Controller::(ScheduleTransaction|IssueCommand)$"],
}
# files whose functions a group's reference covers
SCOPE = {"noc": "^rad-sim/sim/noc/[^/]*$", "sim": "^rad-sim/sim/[^/]*$", "dram": "^rad-sim/sim/dram/[^/]*$",
         "booksim": "^rad-sim/sim/noc/booksim/", "dramsim3": "^rad-sim/sim/dram/DRAMsim3/src/"}
# calls that only report (never part of a property unless the property asks)
REPORT = [r"SimLog|sim_log|\bSimLog\b|^call (std::)?(printf|fprintf|puts|fflush|assert)$", r"^call fmt::"]


def pkey(t):
    return t.replace("const ", "").replace("&", "").replace(" ", "")


def fkey(f):
    return "%s(%s)" % (f["name"], ",".join(pkey(p[2]) for p in f["params"]))


def path(group):
    return "%s/%s.json" % (DIR, group.replace(":", "_"))


def load_ref(group):
    with open(path(group)) as fh:
        return json.load(fh)


def cut_res(names):
    return ["^(?:%s)$" % "|".join(re.escape(n) for n in sorted(names))] if names else []


_ctx = {}


def _one(k):
    prog, opq, byk = _ctx["prog"], _ctx["opq"], _ctx["byk"]
    f = byk[k]
    t = time.time()
    try:
        its, s = contract.compute(prog, f, opq, REPORT)
    except (terms.Complexity, P.AnalysisError, RecursionError, MemoryError) as e:
        return k, None, "%s: %s" % (type(e).__name__, e), time.time() - t
    except Exception as e:      # an unsupported construct: reported, never ignored
        return k, None, "%s: %s" % (type(e).__name__, e), time.time() - t
    return k, {kk: (i.dig, i.kind, i.name, i.text, i.line, i.root) for kk, i in its.items()}, sorted(s.inlined), time.time() - t


def summarise(prog, keys, opq, byk, jobs=8):
    _ctx.update(prog=prog, opq=opq, byk=byk)
    keys = list(keys)
    if len(keys) < 12:
        return [_one(k) for k in keys]
    with mp.get_context("fork").Pool(jobs) as pool:
        return pool.map(_one, keys, chunksize=max(1, min(8, len(keys) // 32)))


def fields_of(prog):
    return {c: {f[0]: f[1] for f in r["fields"]} for c, r in prog.recs.items() if not r["file"].startswith("/")}


def generate(group):
    prog = P.load([group])
    cut = api.cuts(prog)
    scope = SCOPE.get(group.split(":")[0] if group not in SCOPE else group, "")
    if group.startswith("design:"):
        scope = "^rad-sim/example-designs/%s/" % group[7:]
    extra = [re.compile(x) for x in EXTRA_CUTS.get(group, [])]
    for n in prog.byname:
        if any(x.search(n) for x in extra):
            cut.add(n)
    if group != "sim":
        cut |= {f["name"] for f in prog.fns.values() if re.search(r"^rad-sim/sim/radsim_(config|utils)\.cpp$", f["file"])}
    if group.startswith("py:"):
        cut |= {f["name"] for f in prog.fns.values() if not api.trivial(f)}
    rs = [f for f in api.roots(prog, cut) if re.search(scope, f["file"])]
    byk = {}
    for f in rs:
        byk.setdefault(fkey(f), f)
    res = summarise(prog, byk, cut_res(cut), byk)
    fns, bad, globs = {}, [], set()
    for k, its, info, dt in res:
        if its is None:
            bad.append((k, info))
            continue
        f = byk[k]
        globs |= {v[5] for v in its.values() if v[5]}
        fns[k] = {"file": f["file"], "inl": info, "items": {kk: [v[0], v[1], v[2][:160], v[3]] for kk, v in sorted(its.items())}}
    ref = {"cuts": sorted(cut), "fields": fields_of(prog), "names": sorted(prog.byname), "fns": fns, "globals": sorted(globs),
           "sigs": {f["name"]: [f["ret"]] + [p[2] for p in f["params"]] for f in prog.fns.values()}}
    os.makedirs(DIR, exist_ok=True)
    with open(path(group), "w") as fh:
        json.dump(ref, fh, indent=0, sort_keys=True)
        fh.write("\n")
    return len(fns), sum(len(v["items"]) for v in fns.values()), bad



# ------------------------------------------------------------------ aliases
def aliases(prog, ref):
    """renamed functions and fields: exactly one name gone, one new of the same type"""
    fa, da = {}, {}
    now = set(prog.byname)
    gone = {}
    for n in set(ref["names"]) - now:
        cls = n.rsplit("::", 1)[0] if "::" in n else ""
        gone.setdefault((cls, tuple(map(pkey, ref["sigs"].get(n, [])))), []).append(n)
    new = {}
    old = set(ref["names"])
    for n in now - old:
        f = prog.byname[n][0]
        cls = n.rsplit("::", 1)[0] if "::" in n else ""
        new.setdefault((cls, tuple(map(pkey, [f["ret"]] + [p[2] for p in f["params"]]))), []).append(n)
    for k, g in gone.items():
        c = new.get(k, [])
        if len(g) == 1 and len(c) == 1:
            fa[c[0]] = g[0]
    for cls, fs in ref["fields"].items():
        if cls not in prog.recs:
            continue
        cur = {f[0]: f[1] for f in prog.recs[cls]["fields"]}
        lost = {}
        for n, t in fs.items():
            if n not in cur:
                lost.setdefault(t, []).append(n)
        for t, ns in lost.items():
            c = [n for n in cur if n not in fs and cur[n] == t]
            if len(ns) == 1 and len(c) == 1:
                da[cls + "::" + c[0]] = ns[0]
    return fa, da


def apply_aliases(prog, fa, da):
    def go(x):
        if isinstance(x, dict):
            for y in x.values():
                go(y)
        elif isinstance(x, list):
            if len(x) > 3 and x[0] == "mem" and x[3] in da:
                x[2] = da[x[3]]
            elif len(x) > 1 and x[0] in ("fn", "call") and x[1] in fa:
                x[1] = fa[x[1]]
            elif len(x) > 3 and x[0] == "mcall" and x[2] in fa:
                x[2] = fa[x[2]]
                x[3] = x[2].rsplit("::", 1)[-1]
            for y in x:
                go(y)
    for f in prog.fns.values():
        go(f["body"])
        go(f.get("inits", []))
        for k in f.get("inits", []):
            if k[0] == "m" and (f.get("cls") or "") + "::" + k[1] in da:
                k[1] = da[f["cls"] + "::" + k[1]]
    for n, o in fa.items():
        for f in prog.byname[n]:
            f["name"] = o
        prog.byname[o] = prog.byname.pop(n)


# ------------------------------------------------------------------ comparison
class Diff:
    def __init__(self, fn, file, line, what):
        self.fn, self.file, self.line, self.what = fn, file, line, what


def selected(ref, sel):
    """sel: list of (file regex, key regex, item regex or None)"""
    out = {}
    for k, v in ref["fns"].items():
        for s in sel:
            fr, kr = s[0], s[1]
            if re.search(fr, v["file"]) and re.search(kr, k):
                ir = s[2] if len(s) > 2 else None
                if k in out and out[k] is None:
                    continue
                out[k] = None if ir is None else (out.get(k) or []) + [ir]
    return out


def files_of(group, sel):
    ref = load_ref(group)
    return {ref["fns"][k]["file"] for k in selected(ref, sel)}


def known_root(ref, r):
    """state that exists in the reference; new private state is not compared"""
    if not r:
        return True
    if "_kr" not in ref:
        ref["_kr"] = {n for fs in ref["fields"].values() for n in fs} | set(ref["globals"])
    return r in ref["_kr"]


def compare(group, sel, progs):
    """-> (diffs, stats)"""
    ref = load_ref(group)
    want = selected(ref, sel)
    if group not in progs:
        prog = P.load([group])
        fa, da = aliases(prog, ref)
        if fa or da:
            apply_aliases(prog, fa, da)
        progs[group] = prog
        prog.alias = (fa, da)
    prog = progs[group]
    byk = {}
    for f in prog.fns.values():
        byk.setdefault(fkey(f), f)
    diffs = []
    have = [k for k in want if k in byk]
    for k in want:
        if k not in byk:
            diffs.append(Diff(k, ref["fns"][k]["file"], 0, "the function no longer exists with this signature"))
    res = summarise(prog, have, cut_res(ref["cuts"]), byk)
    nitems = 0
    und = []
    for k, its, info, dt in res:
        f = byk[k]
        if its is None:
            und.append((k, info))
            continue
        r = ref["fns"][k]["items"]
        pats = want[k]

        def rel(kind, name):
            return pats is None or any(re.search(p, kind + " " + name) for p in pats)
        for kk, (dig, kind, name, text) in r.items():
            if not rel(kind, name):
                continue
            nitems += 1
            n = its.get(kk)
            if n is None:
                diffs.append(Diff(k, f["file"], f["line"], "no longer %s %s\n    required: %s" % (kind, name, text)))
            elif n[0] != dig:
                diffs.append(Diff(k, f["file"], n[4] or f["line"], "%s %s differs\n    required: %s\n    found:    %s" % (kind, name, text, n[3])))
        for kk, n in its.items():
            if kk not in r and rel(n[1], n[2][:160]) and known_root(ref, n[5]):
                diffs.append(Diff(k, f["file"], n[4] or f["line"], "additionally %s %s\n    found: %s" % (n[1], n[2][:160], n[3])))
    return diffs, {"functions": len(want), "items": nitems, "undecided": und, "names": sorted(want), "inlined": len({x for r_ in res if r_[1] is not None for x in r_[2]})}


if __name__ == "__main__":
    for g in sys.argv[1:]:
        t = time.time()
        n, m, bad = generate(g)
        print(g, n, "functions", m, "items", "%.0fs" % (time.time() - t), os.path.getsize(path(g)) // 1024, "KB", "unsupported:", bad[:6])
