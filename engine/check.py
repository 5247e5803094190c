"""check.py PROPERTY... : decide properties on the current source of /repo.

exit 0 held, 1 violated (VIOLATION lines), 2 the analysis gave no answer."""
import json
import os
import re
import sys
import time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + "/engine")
sys.path.insert(0, HERE + "/spec")
import program as P
import ref
import rules
import props

for _p in props.PROPS:
    _p["rules"] = [r for r in _p["rules"] if r in rules.RULES]
BY = {p["id"]: p for p in props.PROPS}
KNOWN = HERE + "/known_findings.json"
RULE = ("the canonical effects of each selected function (writes, calls with arguments, returned values, exits, loop structure, each with its "
        "path condition, computed by abstract interpretation over the type-checked tree) equal the effects its contract requires")


def known(pid):
    with open(KNOWN) as fh:
        return [k for k in json.load(fh)["findings"] if k["property"] == pid]


def check(pid, progs):
    p = BY[pid]
    t0 = time.time()
    groups = []
    for s in p["sel"]:
        if s[0] not in groups:
            groups.append(s[0])
    diffs, und, cov = [], [], {}
    nfn = nit = ninl = 0
    samples = []
    for g in groups:
        d, st = ref.compare(g, [s[1:] for s in p["sel"] if s[0] == g], progs)
        diffs += d
        und += [(g, k, why) for k, why in st["undecided"]]
        nfn += st["functions"]
        nit += st["items"]
        ninl += st["inlined"]
        cov[g] = {"functions": st["functions"], "obligations": st["items"]}
        if st["functions"] == 0:
            und.append((g, "-", "selection matches no function"))
        samples += st["names"][:3]
    rcov = {}
    robl = 0
    for r in p["rules"]:
        rd, n, what = rules.run(r, progs)
        diffs += rd
        rcov[r] = {"instances": n, "rule": what}
        robl += n
        if n < rules.MINIMUM[r] and not p["sel"]:
            und.append((r, "-", "rule found %d instances, fewer than the %d it needs to be meaningful" % (n, rules.MINIMUM[r])))
    kn, viol = [], []
    ks = known(pid)
    for d in diffs:
        hit = [k for k in ks if re.search(k["where"], "%s %s" % (d.file, d.fn)) and re.search(k["what"], d.what)]
        (kn if hit else viol).append((d, hit))
    os.makedirs(HERE + "/evidence/replay", exist_ok=True)
    for k in ks:
        if any(k in h for _, h in kn):
            print("KNOWN-FINDING: property=%s %s" % (pid, k["summary"]))
    seen = set()
    for i, (d, _) in enumerate(viol):
        path = "%s/evidence/replay/%s_%d.txt" % (HERE, pid, i)
        txt = "%s:%d in %s\n  %s\n" % (d.file, d.line, d.fn, d.what)
        with open(path, "w") as fh:
            fh.write("property %s: %s\n%s" % (pid, p["title"], txt))
        if len(seen) < 12:
            print(txt.rstrip()[:1500])
            print("VIOLATION property=%s replay=%s" % (pid, path))
        seen.add(d.fn)
    for u in und:
        print("UNDECIDED property=%s %s %s: %s" % ((pid,) + u))
    files = sorted({f for g in groups for f in ref.files_of(g, [s[1:] for s in p["sel"] if s[0] == g])})
    ev = {"property": pid, "tier": os.environ.get("VERIF_TIER", "quick"), "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
          "coverage": {"explanation": RULE + ("; and the structural rules listed under 'structural' hold at every instance" if p["rules"] else ""),
                       "functions": nfn, "obligations": nit + robl, "discharged": max(0, nit + robl - len(diffs)),
                       "helpers_expanded": ninl, "per_group": cov, "structural": rcov, "files": files, "undecided": len(und), "samples": samples},
          "assumptions": ["the clang 18 front end gives the types and resolved calls the build uses",
                          "calls listed as interface cut points behave as their own contracts say", "no out-of-bounds or aliasing writes between distinct named objects"],
          "wall_s": round(time.time() - t0, 1), "violations": len(viol)}
    with open("%s/evidence/%s.json" % (HERE, pid), "w") as fh:
        json.dump(ev, fh, indent=1)
    if viol:
        return 1
    if und:
        return 2
    print("HELD property=%s functions=%d obligations=%d rules=%s %.0fs" % (pid, nfn, nit + robl, ",".join("%s:%d" % (r, v["instances"]) for r, v in rcov.items()) or "-", time.time() - t0))
    return 0


def main():
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    progs = {}
    worst = 0
    for pid in ([x for x in sys.argv[1:] if not x.startswith("-")] or list(BY)):
        try:
            rc = check(pid, progs)
        except P.AnalysisError as e:
            print("NO-ANSWER property=%s %s" % (pid, str(e)[:2000]))
            rc = 2
        worst = {(0, 0): 0}.get((worst, rc), 1 if 1 in (worst, rc) else 2)
    sys.exit(worst)


if __name__ == "__main__":
    main()
