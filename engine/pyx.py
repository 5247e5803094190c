"""Python front end: the repository's scripts as the same trees radx emits.

Object parameters are references, `+` chains holding text become n-ary
concatenations, files are ordered text values, comprehensions are closed terms
over their iterables.
"""
import ast
import re

PURE = {"split", "strip", "rstrip", "lstrip", "format", "lower", "upper", "startswith", "endswith", "replace", "join", "keys",
        "values", "items", "get", "groups", "group", "match", "search", "exists", "is_dir", "isnumeric", "isdigit", "copy",
        "index", "count", "find", "end", "start", "splitlines", "encode", "decode", "splitext", "basename", "dirname", "isfile", "isdir"}
PURE_FN = {"len", "str", "int", "float", "range", "sorted", "set", "list", "dict", "tuple", "min", "max", "abs", "round", "sum",
           "isinstance", "zip", "enumerate", "reversed", "any", "all", "type", "next", "iter", "map", "filter", "ceil", "floor",
           "log2", "log", "comp", "cat", "fmt", "hasattr", "getattr", "id", "repr", "bool"}
EFFECTIVE = {"append": "push_back", "extend": "extend", "add": "insert", "pop": "pop", "update": "update", "insert": "insert",
             "remove": "remove", "clear": "clear", "setdefault": "setdefault", "sort": "sort", "reverse": "reverse"}


class Tr:
    def __init__(self, file, modname, funcs, consts):
        self.file, self.mod, self.funcs, self.consts = file, modname, funcs, consts

    # ------------------------------------------------------------ functions
    def fn(self, node, cls=None):
        self.cls = cls
        self.locals = {}
        self.glob = {n for s in ast.walk(node) if isinstance(s, ast.Global) for n in s.names}
        args = [a.arg for a in node.args.args] + [a.arg for a in node.args.kwonlyargs]
        if cls and args and args[0] == "self":
            args = args[1:]
        bound = set()
        for s in ast.walk(node):
            if isinstance(s, ast.Name) and isinstance(s.ctx, (ast.Store, ast.Del)):
                bound.add(s.id)
            elif isinstance(s, ast.ExceptHandler) and s.name:
                bound.add(s.name)
        for a in args:
            self.locals[a] = len(self.locals) + 1
        for n in sorted(bound - self.glob):
            self.locals.setdefault(n, len(self.locals) + 1)
        self.params = set(args)
        nm = (cls + "::" if cls else "") + node.name
        ps = [[a, self.locals[a], "py" if a in bound else "py &"] for a in args]
        return {"k": "fn", "name": self.mod + "." + nm, "usr": "py:" + self.mod + "." + nm, "file": self.file, "line": node.lineno,
                "params": ps, "ret": "py", "cls": (self.mod + "." + cls) if cls else None, "body": self.block(node.body, node.lineno),
                "defaults": [self.E(d) for d in node.args.defaults]}

    def module(self, tree):
        self.cls = None
        self.locals, self.params, self.glob = {}, set(), set()
        body = [s for s in tree.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef))]
        return {"k": "fn", "name": self.mod + ".<module>", "usr": "py:" + self.mod + ".<module>", "file": self.file, "line": 1,
                "params": [], "ret": "py", "cls": None, "body": self.block(body, 1)}

    # ------------------------------------------------------------ expressions
    def name(self, n):
        if n in self.locals:
            return ["var", n, self.locals[n], "p" if n in self.params else "l", "py"]
        return ["var", self.mod + "." + n, 0, "g", "py"]

    def isstr(self, e):
        if isinstance(e, ast.Constant):
            return isinstance(e.value, str)
        if isinstance(e, ast.JoinedStr):
            return True
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Mod)):
            return self.isstr(e.left) or isinstance(e.op, ast.Add) and self.isstr(e.right)
        if isinstance(e, ast.Call):
            f = e.func
            return isinstance(f, ast.Name) and f.id == "str" or isinstance(f, ast.Attribute) and f.attr in ("format", "join", "strip")
        return False

    def cat(self, parts):
        return ["call", "cat", parts, 0, "", "str"]

    def pieces(self, e):
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add) and self.isstr(e):
            return self.pieces(e.left) + self.pieces(e.right)
        if isinstance(e, ast.JoinedStr):
            out = []
            for v in e.values:
                if isinstance(v, ast.Constant):
                    out.append(["str", v.value])
                elif v.format_spec is not None or v.conversion not in (-1, 115):
                    out.append(["call", "fmt", [self.E(v.value), ["str", ast.unparse(v)[-12:]]], 0, "", "str"])
                else:
                    out += self.pieces(v.value)
            return out
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "str" and len(e.args) == 1:
            return self.pieces(e.args[0])
        if (isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "format" and isinstance(e.func.value, ast.Constant)
                and isinstance(e.func.value.value, str) and not e.keywords):
            out, k = [], 0
            for p in re.split(r"(\{\d*\})", e.func.value.value):
                m = re.fullmatch(r"\{(\d*)\}", p)
                if m:
                    i = int(m.group(1)) if m.group(1) else k
                    k += 1
                    if i < len(e.args):
                        out += self.pieces(e.args[i])
                elif p:
                    out.append(["str", p])
            return out
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            return [["str", e.value]]
        return [self.E(e)]

    def E(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return ["call", "py:" + type(e).__name__ + ":" + ast.unparse(e)[:80], [], e.lineno, "", "py"]
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if v is None:
            return ["call", "None", [], 0, "", "py"]
        if isinstance(v, bool):
            return ["bool", v]
        if isinstance(v, int):
            return ["int", v]
        if isinstance(v, float):
            return ["float", v]
        if isinstance(v, bytes):
            return ["str", repr(v)]
        return ["str", v] if isinstance(v, str) else ["call", repr(v), [], 0, "", "py"]

    def e_JoinedStr(self, e):
        return self.cat(self.pieces(e))

    def e_Name(self, e):
        if e.id == "self" and self.cls:
            return ["this"]
        if e.id not in self.locals and e.id in self.consts:
            return self.E(self.consts[e.id])
        return self.name(e.id)

    def e_Attribute(self, e):
        if isinstance(e.value, ast.Name) and e.value.id == "self" and self.cls:
            return ["mem", ["this"], e.attr, self.mod + "." + self.cls + "::" + e.attr, "py", True]
        return ["mem", self.E(e.value), e.attr, "py::" + e.attr, "py", False]

    def e_Subscript(self, e):
        if isinstance(e.slice, ast.Slice):
            a = [self.E(x) if x is not None else ["null"] for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            return ["call", "slice", [self.E(e.value)] + a, e.lineno, "", "py"]
        return ["op", "[]", "py", [self.E(e.value), self.E(e.slice)], e.lineno, False, "", True, "py", "py"]

    def e_BinOp(self, e):
        o = type(e.op).__name__
        if o == "Add" and self.isstr(e):
            return self.cat(self.pieces(e))
        if o == "Mod" and self.isstr(e.left):
            return ["call", "fmt", [self.E(e.left), self.E(e.right)], e.lineno, "", "str"]
        t = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "FloorDiv": "/", "Mod": "%", "LShift": "<<", "RShift": ">>",
             "BitAnd": "&", "BitOr": "|", "BitXor": "^"}.get(o)
        if t is None:
            return ["call", "py" + o, [self.E(e.left), self.E(e.right)], e.lineno, "", "py"]
        return ["bin", t, self.E(e.left), self.E(e.right), e.lineno, "double" if o == "Div" else "int", "int"]

    def e_UnaryOp(self, e):
        o = {"Not": "!", "USub": "-", "UAdd": "+", "Invert": "~"}[type(e.op).__name__]
        return ["un", o, self.E(e.operand), e.lineno]

    def e_BoolOp(self, e):
        o = "&&" if isinstance(e.op, ast.And) else "||"
        r = self.E(e.values[0])
        for v in e.values[1:]:
            r = ["bin", o, r, self.E(v), e.lineno, "bool", "bool"]
        return r

    def e_Compare(self, e):
        l, r = e.left, None
        for op, c in zip(e.ops, e.comparators):
            x = self.cmp(op, l, c, e.lineno)
            r = x if r is None else ["bin", "&&", r, x, e.lineno, "bool", "bool"]
            l = c
        return r

    def cmp(self, op, l, c, line):
        n = type(op).__name__
        if n in ("In", "NotIn"):
            if isinstance(c, (ast.Tuple, ast.List, ast.Set)):
                r = None
                for x in c.elts:
                    y = ["bin", "==", self.E(l), self.E(x), line, "bool", "py"]
                    r = y if r is None else ["bin", "||", r, y, line, "bool", "bool"]
                r = r or ["bool", False]
            else:
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "keys" and not c.args:
                    c = c.func.value
                r = ["cast", "IntegralToBoolean", "bool", ["mcall", self.E(c), "py::count", "count", [self.E(l)], line, "c", "", "std::map<py>", "py"]]
            return ["un", "!", r, line] if n == "NotIn" else r
        o = {"Eq": "==", "NotEq": "!=", "Lt": "<", "Gt": ">", "LtE": "<=", "GtE": ">=", "Is": "==", "IsNot": "!="}[n]
        return ["bin", o, self.E(l), self.E(c), line, "bool", "int"]

    def e_IfExp(self, e):
        return ["cond", self.E(e.test), self.E(e.body), self.E(e.orelse)]

    def e_List(self, e):
        return ["call", "list", [self.E(x) for x in e.elts], 0, "", "py"] if e.elts else ["ctor", "std::vector<py>", [], 0, ""]

    e_Set = e_List

    def e_Tuple(self, e):
        if len(e.elts) == 2:
            return ["call", "std::make_pair", [self.E(x) for x in e.elts], 0, "", "py"]
        return ["call", "tuple", [self.E(x) for x in e.elts], 0, "", "py"]

    def e_Dict(self, e):
        if not e.keys:
            return ["ctor", "std::map<py>", [], 0, ""]
        a = []
        for k, v in zip(e.keys, e.values):
            a += [self.E(k) if k is not None else ["str", "**"], self.E(v)]
        return ["call", "dict", a, 0, "", "py"]

    def comp(self, e):
        names = {}
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.setdefault(n.id, "_b%d" % len(names))
        free = []

        class R(ast.NodeTransformer):
            def visit_Name(s, n):
                if n.id in names:
                    return ast.copy_location(ast.Name(names[n.id], n.ctx), n)
                if n.id in self.locals:
                    if n.id not in free:
                        free.append(n.id)
                    return ast.copy_location(ast.Name("_f%d" % free.index(n.id), n.ctx), n)
                return n
        import copy
        t = ast.unparse(R().visit(copy.deepcopy(e)))
        return ["call", "comp:" + t, [self.name(n) for n in free], e.lineno, "", "py"]

    e_ListComp = e_SetComp = e_GeneratorExp = e_DictComp = comp

    def e_Starred(self, e):
        return ["call", "*", [self.E(e.value)], 0, "", "py"]

    def e_Call(self, e):
        line = e.lineno
        f = e.func
        args = [self.E(a) for a in e.args]
        kws = {k.arg: self.E(k.value) for k in e.keywords}
        if isinstance(f, ast.Name):
            n = f.id
            if n == "super":
                return ["this"]
            if n in ("exit", "quit"):
                return ["call", "exit", args, line, "", "void"]
            if n == "str" and len(e.args) == 1:
                p = self.pieces(e.args[0])
                return p[0] if len(p) == 1 else self.cat(p)
            if n == "len" and len(args) == 1:
                return ["mcall", args[0], "py::size", "size", [], line, "c", "", "std::vector<py>", "unsigned int"]
            if n in ("set", "list", "dict") and not args and not kws:
                return ["ctor", "std::map<py>" if n == "dict" else "std::vector<py>", [], 0, ""]
            if n in self.funcs and n not in self.locals:
                return ["call", self.funcs[n][0], self.mapargs(self.funcs[n][1], args, kws), line, "py:" + self.funcs[n][0], "py"]
            kv = [["call", "kw:" + k, [v], 0, "", "py"] for k, v in sorted(kws.items(), key=lambda x: str(x[0]))]
            return ["call", n, args + kv, line, "", "bool" if n in ("isinstance", "any", "all") else "py"]
        if isinstance(f, ast.Attribute):
            kv = [["call", "kw:" + k, [v], 0, "", "py"] for k, v in sorted(kws.items(), key=lambda x: str(x[0]))]
            n = f.attr
            if isinstance(f.value, ast.Name) and f.value.id == "self" and self.cls:
                return ["mcall", ["this"], self.mod + "." + self.cls + "::" + n, n, args + kv, line, "", "py:" + self.mod + "." + self.cls + "::" + n, "py", "py"]
            if n == "format" and self.isstr(e):
                return self.cat(self.pieces(e))
            if isinstance(f.value, ast.Name) and f.value.id in ("os", "re", "math", "sys", "yaml", "shutil", "subprocess", "vlog", "ast", "plt", "np", "json", "io", "argparse", "random", "time", "csv", "pd"):
                q = f.value.id + "." + n
                if q in ("sys.exit",):
                    return ["call", "exit", args, line, "", "void"]
                if q in self.funcs:
                    return ["call", self.funcs[q][0], args + kv, line, "py:" + self.funcs[q][0], "py"]
                if q in ("math.ceil", "math.floor", "math.log2", "math.log", "math.sqrt", "math.pow"):
                    return ["call", n, args, line, "", "py"]
                return ["call", q, args + kv, line, "", "bool" if n in ("exists", "isfile", "isdir") else "py"]
            if n == "write" and len(args) == 1:
                obj = ["mem", self.E(f.value), "<text>", "py::<text>", "py", True]
                return ["asg", "=", obj, ["call", "cat", [obj] + self.pieces(e.args[0]), line, "", "str"], line, "py", "py"]
            if n in EFFECTIVE:
                return ["mcall", self.E(f.value), "py::" + n, EFFECTIVE[n], args + kv, line, "", "", "std::vector<py>", "py"]
            if n == "get" and len(args) >= 1:
                return ["mcall", self.E(f.value), "py::get", "get", args, line, "c", "", "std::map<py>", "py"]
            fl = "c" if n in PURE or True else ""
            b = n in ("startswith", "endswith", "exists", "is_dir", "isnumeric", "isdigit")
            return ["mcall", self.E(f.value), "py::" + n, n if n not in ("find", "end", "count") else "py_" + n, args + kv, line, fl, "", "py", "bool" if b else "py"]
        return ["icall", self.E(f), args, line]

    def mapargs(self, params, args, kws):
        names, defaults = params
        out = list(args)
        for i in range(len(args), len(names)):
            if names[i] in kws:
                out.append(kws[names[i]])
            else:
                d = i - (len(names) - len(defaults))
                out.append(self.E(defaults[d]) if 0 <= d < len(defaults) else ["null"])
        return out

    # ------------------------------------------------------------ statements
    def block(self, body, line):
        out = []
        for s in body:
            r = self.S(s)
            if r is not None:
                out += r if isinstance(r, list) else [r]
        return {"s": "{", "b": out, "l": line}

    def assign(self, t, v, line):
        if isinstance(t, (ast.Tuple, ast.List)):
            out = []
            two = len(t.elts) == 2
            for i, x in enumerate(t.elts):
                p = ["mem", v, "first" if i == 0 else "second", "py", "py", False] if two else \
                    ["op", "[]", "py", [v, ["int", i]], line, False, "", True, "py", "py"]
                out += self.assign(x, p, line)
            return out
        return [{"s": "x", "e": ["asg", "=", self.E(t), v, line, "py", "py"], "l": line}]

    def S(self, s):
        l = s.lineno
        n = type(s).__name__
        if n == "Expr":
            if isinstance(s.value, ast.Constant):
                return None
            if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
                return {"s": "x", "e": ["call", "yield", [self.E(s.value.value)], l, "", "py"], "l": l}
            return {"s": "x", "e": self.E(s.value), "l": l}
        if n == "Assign":
            out = []
            v = self.E(s.value)
            if len(s.targets) == 1 and isinstance(s.targets[0], (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)):
                tmp = []
                for x in s.value.elts:
                    nm = "__t%d" % (len(self.locals) + 1)
                    self.locals[nm] = len(self.locals) + 1
                    tmp.append(self.name(nm))
                    out.append({"s": "x", "e": ["asg", "=", self.name(nm), self.E(x), l, "py", "py"], "l": l})
                for t, x in zip(s.targets[0].elts, tmp):
                    out += self.assign(t, x, l)
                return out
            for t in s.targets:
                if isinstance(t, (ast.Tuple, ast.List)):
                    nm = "__t%d" % (len(self.locals) + 1)
                    self.locals[nm] = len(self.locals) + 1
                    out.append({"s": "x", "e": ["asg", "=", self.name(nm), v, l, "py", "py"], "l": l})
                    out += self.assign(t, self.name(nm), l)
                else:
                    out += self.assign(t, v, l)
            return out
        if n == "AnnAssign":
            return self.assign(s.target, self.E(s.value), l) if s.value is not None else None
        if n == "AugAssign":
            import copy
            t = copy.deepcopy(s.target)
            for x in ast.walk(t):
                if hasattr(x, "ctx"):
                    x.ctx = ast.Load()
            b = ast.copy_location(ast.BinOp(t, s.op, s.value), s)
            if isinstance(s.op, ast.Add) and self.isstr(s.value):
                return self.assign(s.target, self.cat([self.E(t)] + self.pieces(s.value)), l)
            return self.assign(s.target, self.E(b), l)
        if n == "If":
            return {"s": "if", "c": self.E(s.test), "t": self.block(s.body, l), "e": self.block(s.orelse, l) if s.orelse else None, "l": l}
        if n == "While":
            return {"s": "while", "c": None if isinstance(s.test, ast.Constant) and s.test.value is True else self.E(s.test), "b": self.block(s.body, l), "l": l}
        if n == "For":
            return self.For(s)
        if n == "Break":
            return {"s": "break", "l": l}
        if n == "Continue":
            return {"s": "continue", "l": l}
        if n == "Return":
            return {"s": "ret", "v": self.E(s.value) if s.value is not None else ["call", "None", [], 0, "", "py"], "l": l}
        if n == "Raise":
            return {"s": "x", "e": ["call", "exit", [["str", "raise " + (ast.unparse(s.exc.func) if isinstance(s.exc, ast.Call) else "")]], l, "", "void"], "l": l}
        if n == "With":
            out = []
            for i in s.items:
                v = self.E(i.context_expr)
                if i.optional_vars is not None:
                    out += self.assign(i.optional_vars, v, l)
                else:
                    out.append({"s": "x", "e": v, "l": l})
            return out + self.block(s.body, l)["b"]
        if n == "Try":
            out = list(self.block(s.body, l)["b"])
            for h in s.handlers:
                out.append({"s": "if", "c": ["call", "caught:" + (ast.unparse(h.type) if h.type else ""), [], l, "", "bool"],
                            "t": self.block(h.body, l), "e": None, "l": l})
            return out + self.block(s.orelse, l)["b"] + self.block(s.finalbody, l)["b"]
        if n == "Delete":
            return [{"s": "x", "e": ["call", "del", [self.E(t)], l, "", "py"], "l": l} for t in s.targets]
        if n in ("Pass", "Import", "ImportFrom", "Global", "FunctionDef", "ClassDef", "Assert"):
            return None
        return {"s": "x", "e": ["call", "py:" + n + ":" + ast.unparse(s)[:60], [], l, "", "py"], "l": l}

    def tmp(self):
        nm = "__t%d" % (len(self.locals) + 1)
        self.locals[nm] = len(self.locals) + 1
        return nm

    def For(self, s):
        l = s.lineno
        it = s.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("range", "enumerate") and not it.keywords:
            if it.func.id == "range" and isinstance(s.target, ast.Name):
                a = [self.E(x) for x in it.args]
                lo, hi = (["int", 0], a[0]) if len(a) == 1 else (a[0], a[1])
                step = a[2][1] if len(a) == 3 and a[2][0] == "int" else 1
                if len(a) == 3 and a[2][0] == "un":
                    step = -1
                v = self.name(s.target.id)
                # the loop variable is private to the loop
                nm = self.tmp()
                iv = ["var", nm, self.locals[nm], "l", "int"]
                body = self.block(s.body, l)
                body["b"].insert(0, {"s": "x", "e": ["asg", "=", v, iv, l, "int", "int"], "l": l})
                return {"s": "for", "i": {"s": "x", "e": ["asg", "=", iv, lo, l, "int", "int"], "l": l},
                        "c": ["bin", "<" if step > 0 else ">", iv, hi, l, "bool", "int"],
                        "n": ["asg", "+=", iv, ["int", step], l, "int", "int"], "b": body, "l": l}
            if it.func.id == "enumerate":
                nm = self.tmp()
                iv = ["var", nm, self.locals[nm], "l", "int"]
                c = self.E(it.args[0])
                body = self.block(s.body, l)
                el = ["op", "[]", "py", [c, iv], l, False, "", True, "py", "py"]
                pre = self.assign(s.target.elts[0], iv, l) + self.assign(s.target.elts[1], el, l)
                body["b"] = pre + body["b"]
                return {"s": "for", "i": {"s": "x", "e": ["asg", "=", iv, ["int", 0], l, "int", "int"], "l": l},
                        "c": ["bin", "<", iv, ["mcall", c, "py::size", "size", [], l, "c", "", "std::vector<py>", "unsigned int"], l, "bool", "int"],
                        "n": ["asg", "+=", iv, ["int", 1], l, "int", "int"], "b": body, "l": l}
        nm = self.tmp()
        body = self.block(s.body, l)
        ev = ["var", nm, self.locals[nm], "l", "py"]
        body["b"] = self.assign(s.target, ev, l) + body["b"]
        c = self.E(it)
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "keys" and not it.args:
            c = self.E(it.func.value)
        return {"s": "range", "n": nm, "id": self.locals[nm], "t": "py &", "r": c, "b": body, "l": l}


def load_file(prog, path, rel, known):
    src = open(path, encoding="utf-8").read()
    import os
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tree = ast.parse(src)
    mod = os.path.splitext(os.path.basename(rel))[0]
    funcs = dict(known)
    consts = {}
    writes = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            writes[n.id] = writes.get(n.id, 0) + 1
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            funcs[n.name] = (mod + "." + n.name, ([a.arg for a in n.args.args], n.args.defaults))
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Constant) and writes[n.targets[0].id] == 1:
            consts[n.targets[0].id] = n.value
    tr = Tr(rel, mod, funcs, consts)
    fns = [tr.module(tree)]
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            fns.append(tr.fn(n))
        elif isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef):
                    fns.append(tr.fn(m, n.name))
            prog.recs.setdefault(mod + "." + n.name, {"name": mod + "." + n.name, "bases": [], "fields": [], "methods": [], "file": rel})
    for f in fns:
        f["virtual"] = f["const"] = f["static"] = False
        f["unit"] = rel
        f["py"] = True
        prog.fns[f["usr"]] = f
        prog.byname.setdefault(f["name"], []).append(f)
    prog.units.append(rel)
