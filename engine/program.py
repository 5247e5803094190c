"""Loads the resolved program of /repo: runs radx on the requested translation
units (in parallel) and indexes functions, records, enums and globals."""
import ast
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RADREPO", "/repo")
RS = REPO + "/rad-sim"
SIM = RS + "/sim"
BS = SIM + "/noc/booksim"
DR = SIM + "/dram/DRAMsim3"
RADX = VERIF + "/.build/radx"
CLANG_RES = "/usr/lib/llvm-18/lib/clang/18"


class AnalysisError(Exception):
    """the analysis could not be carried out (never a violation)"""


def ensure_radx():
    subprocess.run([VERIF + "/radx/build.sh"], check=True)


def group(name):
    """named sets of translation units: (source, include dirs)"""
    inc_sim = [SIM, SIM + "/noc", BS, BS + "/routers", BS + "/allocators", BS + "/arbiters",
               BS + "/networks", BS + "/power", SIM + "/dram", DR, DR + "/src",
               DR + "/ext/headers", DR + "/ext/fmt/include", VERIF + "/fixtures"]
    inc_bs = [BS, SIM + "/noc", SIM, BS + "/routers", BS + "/allocators", BS + "/arbiters", BS + "/networks", BS + "/power"]
    lib = [SIM + "/" + x for x in ("radsim_config.cpp", "radsim_utils.cpp") if os.path.exists(SIM + "/" + x)]
    if name == "noc":
        return [(f, inc_sim) for f in sorted(glob.glob(SIM + "/noc/*.cpp")) + lib]
    if name == "sim":
        return [(f, inc_sim) for f in sorted(glob.glob(SIM + "/*.cpp")) if not f.endswith("/main.cpp")]
    if name == "dram":
        return [(f, inc_sim) for f in sorted(glob.glob(SIM + "/dram/*.cpp")) + lib]
    if name == "booksim":
        fs = []
        for d in ("", "/allocators", "/arbiters", "/networks", "/power", "/routers"):
            fs += sorted(glob.glob(BS + d + "/*.cpp"))
        return [(f, inc_bs) for f in fs]
    if name == "dramsim3":
        return [(f, [DR + "/src", DR + "/ext/headers", DR + "/ext/fmt/include"])
                for f in sorted(glob.glob(DR + "/src/*.cc")) if os.path.basename(f) not in ("main.cc", "cpu.cc", "thermal.cc", "thermal_replay.cc")]
    if name.startswith("design:"):
        d = RS + "/example-designs/" + name[7:]
        inc = inc_sim + [d, d + "/modules"]
        return [(f, inc) for f in sorted(glob.glob(d + "/*.cpp") + glob.glob(d + "/modules/*.cpp")) + lib]
    raise AnalysisError("unknown unit group " + name)


DESIGNS = ["add", "mult", "mlp", "mlp_int8", "dlrm", "dlrm_two_rad"]
# Distinct widths, so that a layout macro used in place of another one changes the result.
FIX_ALL = {"NOC_LINKS_PAYLOAD_WIDTH": 166, "NOC_LINKS_VCID_WIDTH": 3, "NOC_LINKS_PACKETID_WIDTH": 32,
           "NOC_LINKS_TYPEID_WIDTH": 4, "NOC_LINKS_DEST_WIDTH": 21, "NOC_LINKS_DEST_INTERFACE_WIDTH": 5,
           "AXIS_MAX_DATAW": 512, "AXI4_MAX_DATAW": 480, "AXIS_USERW": 75, "AXI4_USERW": 61,
           "AXIS_STRBW": 9, "AXIS_KEEPW": 10, "AXIS_DEST_FIELDW": 7, "AXI4_IDW": 8, "AXI4_NODE_ADDRW": 6}
REF_HEADER = VERIF + "/contracts/radsim_defines.hpp"      # used where the generator's text cannot be read off its syntax


PYGROUPS = {"py:config": ["rad-sim/config.py"],
            "py:scripts": ["rad-sim/scripts/generate_port_mappings.py", "rad-sim/scripts/generate_wrapper.py",
                           "rad-sim/scripts/verilog_parser.py", "rad-sim/scripts/minilexer.py"],
            "py:tools": ["scripts/plot.py", "scripts/visualize_placement.py"]}


def header_template():
    """The text config.py writes to radsim_defines.hpp, with every computed part
    replaced by the value in FIX_ALL for the macro being defined.  Read off the
    syntax tree of the generator; nothing is executed."""
    src = open(RS + "/config.py", encoding="utf-8").read()
    tree = ast.parse(src)
    fn = [n for n in tree.body if isinstance(n, ast.FunctionDef) and n.name == "generate_radsim_params_header"]
    if not fn:
        return None
    out = ""
    cond = {id(n) for i in ast.walk(fn[0]) if isinstance(i, ast.If) for n in ast.walk(i)}
    calls = sorted([n for n in ast.walk(fn[0]) if isinstance(n, ast.Call) and id(n) not in cond
                    and (isinstance(n.func, ast.Attribute) and n.func.attr in ("write", "append") and len(n.args) == 1
                         or isinstance(n.func, ast.Name) and n.func.id == "print" and any(k.arg == "file" for k in n.keywords))],
                   key=lambda n: (n.lineno, n.col_offset))

    def flat(e):
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return flat(e.left) + flat(e.right)
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            return [e.value]
        if isinstance(e, ast.JoinedStr):
            r = []
            for v in e.values:
                r += [v.value] if isinstance(v, ast.Constant) else [None]
            return r
        fmt = None
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod):
            fmt, cut = e.left, r"%[sdi]"
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "format":
            fmt, cut = e.func.value, r"\{\w*\}"
        if fmt is not None and isinstance(fmt, ast.Constant) and isinstance(fmt.value, str):
            r = []
            for x in re.split(cut, fmt.value):
                r += [x, None]
            return r[:-1]
        return [None]
    for c in calls:
        parts = flat(c.args[0]) if c.args else []
        if isinstance(c.func, ast.Name):
            parts.append("\n")
        line = ""
        for p in parts:
            if p is not None:
                line += p
            else:
                m = re.search(r"#define\s+(\w+)[^\n]*$", (out + line).split("\n")[-1])
                nm = m.group(1) if m else ""
                line += "/x" if nm == "RADSIM_ROOT_DIR" else str(FIX_ALL.get(nm, 8))
        out += line
    with open(REF_HEADER) as fh:
        need = re.findall(r"^#define (\w+)", fh.read(), re.M)
    have = set(re.findall(r"^#define\s+(\w+)", out, re.M))
    if not set(need) <= have:
        return None
    return out


def reference_header():
    """the recorded text with the current FIX_ALL values"""
    with open(REF_HEADER) as fh:
        return re.sub(r"@(\w+)@", lambda m: str(FIX_ALL.get(m.group(1), 8)), fh.read())


INC_HEADER = SIM + "/radsim_defines.hpp"


class Program:
    def __init__(self):
        self.fns = {}       # usr -> fn
        self.byname = {}    # qualified name -> [fn]
        self.recs = {}
        self.enums = {}
        self.vars = {}
        self.units = []
        self.subs = None

    def add(self, o, unit):
        k = o["k"]
        if k == "fn":
            if o["usr"] in self.fns:
                return
            o["unit"] = unit
            o["file"] = rel(o["file"])
            if "/ext/" in o["file"]:
                return
            self.fns[o["usr"]] = o
            self.byname.setdefault(o["name"], []).append(o)
        elif k == "rec":
            o["file"] = rel(o["file"])
            self.recs.setdefault(o["name"], o)
        elif k == "enum":
            self.enums.setdefault(o["name"], o)
        elif k == "var":
            self.vars.setdefault(o["name"], o)

    def fn(self, name, nparams=None, quiet=False):
        c = self.byname.get(name, [])
        if nparams is not None:
            c = [f for f in c if len(f["params"]) == nparams]
        if not c:
            if quiet:
                return None
            raise AnalysisError("anchor function %s not found" % name)
        return c[0]

    def methods(self, cls):
        return [f for f in self.fns.values() if f.get("cls") == cls]

    def bases(self, cls):
        out, todo = [], [cls]
        while todo:
            c = todo.pop()
            for b in self.recs.get(c, {}).get("bases", []):
                if b not in out:
                    out.append(b)
                    todo.append(b)
        return out

    def subclasses(self, cls):
        if self.subs is None:
            self.subs = {}
            for n in self.recs:
                for b in self.bases(n):
                    self.subs.setdefault(b, []).append(n)
        return self.subs.get(cls, [])

    def field_type(self, cls, f):
        for c in [cls] + self.bases(cls):
            for n, t, *_ in self.recs.get(c, {}).get("fields", []):
                if n == f:
                    return t
        return None


def rel(p):
    p = os.path.normpath(p)
    return p[len(REPO) + 1:] if p.startswith(REPO + "/") else p


def load(groups, jobs=8):
    prog = Program()
    for g in groups:
        if g.startswith("py:"):
            import pyx
            for f in PYGROUPS[g]:
                if os.path.exists(REPO + "/" + f):
                    pyx.load_file(prog, REPO + "/" + f, f, {})
    groups = [g for g in groups if not g.startswith("py:")]
    if not groups:
        return prog
    ensure_radx()
    units = []
    for g in groups:
        units += group(g)
    tmp = tempfile.mkdtemp(prefix="radx_")
    try:
        hdrs = [header_template() or reference_header(), reference_header()]
        vfss = []
        for k, h in enumerate(hdrs):
            hp = "%s/radsim_defines_%d.hpp" % (tmp, k)
            with open(hp, "w") as fh:
                fh.write(h)
            vfss.append("%s/vfs%d.yaml" % (tmp, k))
            with open(vfss[k], "w") as fh:
                json.dump({"version": 0, "roots": [{"name": INC_HEADER, "type": "file", "external-contents": hp}]}, fh)

        def one(i, k=0):
            src, incs = units[i]
            out = "%s/%d.json" % (tmp, i)
            cmd = [RADX, REPO, out, src, "--", "-std=c++17", "-w", "-resource-dir", CLANG_RES, "-UNDEBUG"]
            cmd += ["-ivfsoverlay", vfss[k]]
            cmd += ["-I" + x for x in incs]
            if "ram" in src or "example-designs" in src:
                cmd += ["-DFMT_HEADER_ONLY=1"]
            p = subprocess.run(cmd, capture_output=True, text=True, cwd=tmp)
            if p.returncode != 0 and k == 0:
                return one(i, 1)
            return (i, p.returncode, p.stderr, out)
        with ThreadPoolExecutor(jobs) as ex:
            res = list(ex.map(one, range(len(units))))
        for i, rc, err, out in res:
            if rc != 0:
                raise AnalysisError("cannot parse %s: %s" % (units[i][0], err[-800:]))
            with open(out) as f:
                for line in f:
                    prog.add(json.loads(line), rel(units[i][0]))
            prog.units.append(rel(units[i][0]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return prog
