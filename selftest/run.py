"""Behaviour-preserving edits the checks must stay quiet on.

run.py [NAME-REGEX...]: applies each edit of the edits*.py files to a scratch
clone of /repo and compares the contracts of the affected groups."""
import importlib
import glob
import os
import re
import subprocess
import sys
import multiprocessing as mp
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "/tmp/rf_selftest_%d" % os.getpid()
os.environ["PYTHONHASHSEED"] = "0"
sys.path[:0] = [HERE + "/engine", HERE + "/spec", HERE + "/selftest"]


def one(job):
    name, groups, file, subs = job
    cl = BASE + "_" + name
    os.environ["RADREPO"] = cl
    subprocess.run(["git", "clone", "-q", "--shared", "/repo", cl], check=True)
    out = []
    try:
        import program as P
        import ref
        import rules
        files = {}
        for s in subs:
            al = s[-1] == "*"
            s = s[:-1] if al else s
            f, a, b = s if len(s) == 3 else (file, s[0], s[1])
            t = files.get(f)
            if t is None:
                t = open(cl + "/" + f, encoding="utf-8", errors="surrogateescape").read()
            if t.count(a) != 1 and not (al and t.count(a)):
                return ["%s: EDIT DOES NOT APPLY (%d matches) %r" % (name, t.count(a), a[:60])]
            files[f] = t.replace(a, b)
        for f, t in files.items():
            open(cl + "/" + f, "w", encoding="utf-8", errors="surrogateescape").write(t)
        progs = {}
        rules._cache.clear()
        try:
            for g in groups.split():
                sel = [(".", ".")] if g.startswith("py") else [(re.escape(os.path.basename(f)), ".") for f in files] + [(r"\.hpp$", ".")]
                d, st = ref.compare(g, sel, progs)
                out.append("%-34s %-10s %s functions=%d %s" % (name, g, "ok" if not d and not st["undecided"] else "ALARM", st["functions"], st["undecided"] or ""))
                for x in d[:3]:
                    out.append("    %s:%d %s\n        %s" % (x.file, x.line, x.fn, x.what[:420]))
        except P.AnalysisError as e:
            out.append("%-34s ERROR %s" % (name, str(e)[:800]))
    except Exception as e:
        out.append("%s: %r" % (name, e))
    finally:
        subprocess.run(["rm", "-rf", cl])
    return out


if __name__ == "__main__":
    E = []
    for m in sorted(glob.glob(HERE + "/selftest/edits*.py")):
        E += importlib.import_module(os.path.basename(m)[:-3]).EDITS
    E = [e for e in E if not sys.argv[1:] or any(re.search(a, e[0]) for a in sys.argv[1:])]
    procs = []
    import concurrent.futures as cf

    def sub(e):
        r = subprocess.run([sys.executable, "-c", "import sys;sys.path[:0]=%r;import run;run.BASE=%r;print(chr(10).join(run.one(eval(sys.stdin.read()))))" % ([HERE + "/selftest", HERE + "/engine", HERE + "/spec"], BASE)],
                           input=repr(e), capture_output=True, text=True)
        return r.stdout + (r.stderr[-600:] if r.returncode else "")
    with cf.ThreadPoolExecutor(3) as ex:
        for o in ex.map(sub, E):
            print(o, end="", flush=True)
