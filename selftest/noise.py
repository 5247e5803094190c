"""Comment lines on top of every source file and a statement that does nothing
at the start of every function: no check may change its answer."""
import os
import re
import shutil
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CL = os.environ.get("NOISE_DIR") or "/tmp/rf_noise_%d" % os.getpid()
os.environ["PYTHONHASHSEED"] = "0"
sys.path[:0] = [HERE + "/engine", HERE + "/spec"]


def main():
    import program as P
    groups = sorted({s[0] for p in __import__("props").PROPS for s in p["sel"]})
    at = {}
    for g in groups:
        if g.startswith("py:"):
            continue
        p = P.load([g])
        for f in p.fns.values():
            if f.get("body") and not f["file"].startswith("/"):
                at.setdefault(f["file"], set()).add(f["body"]["l"])
    subprocess.run(["git", "clone", "-q", "--shared", "/repo", CL], check=True)
    n = 0
    for f, ls in at.items():
        p = CL + "/" + f
        t = open(p, encoding="utf-8", errors="surrogateescape").read().split("\n")
        for l in sorted(ls, reverse=True):
            s = t[l - 1]
            if s.rstrip().endswith("{"):
                t[l - 1] = s.rstrip() + " { int nop_ = 0; (void)nop_; }"
                t.insert(l, "")
                n += 1
        t.insert(0, "// noise\n//")
        open(p, "w", encoding="utf-8", errors="surrogateescape").write("\n".join(t))
    print("%d files, %d functions" % (len(at), n))
    if "NOISE_DIR" in os.environ:
        return
    os.environ["RADREPO"] = CL
    for m in ("program", "ref", "rules", "contract", "api"):
        sys.modules.pop(m, None)
    r = subprocess.run([sys.executable, HERE + "/engine/check.py"], env=dict(os.environ, RADREPO=CL), capture_output=True, text=True)
    print("\n".join(l for l in r.stdout.split("\n") if "HELD" not in l)[:6000], r.stderr[-500:])
    shutil.rmtree(CL, ignore_errors=True)


main()
