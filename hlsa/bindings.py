"""The public interface, read from the binding tables."""
import os
import re
from .model import Fn, AnalysisBroken


def walk(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from walk(v)
    elif isinstance(x, list):
        for v in x:
            yield from walk(v)


def strip(x):
    while isinstance(x, dict):
        if x.get("k") in ("Cast", "Temp", "Paren", "Bind", "Cleanups") and isinstance(x.get("e"), dict):
            x = x["e"]
        elif x.get("k") == "Ctor" and len(x.get("args", ())) == 1 and x.get("copy"):
            x = x["args"][0]
        else:
            break
    return x


class Bound:
    def __init__(self, scope, name, fn, kw, node, tu, extra=None):
        self.scope = scope      # "" or the class name
        self.name = name
        self.fn = fn
        self.kw = kw
        self.node = node
        self.tu = tu
        self.extra = extra

    @property
    def full(self):
        return (self.scope + "." if self.scope else "") + self.name

    def arity(self):
        return len(self.fn.d["params"]) if self.fn is not None else len(self.extra or ())

    def key(self):
        return "%s/%d" % (self.full, self.arity())

    def loc(self):
        return self.tu.where(self.node.get("l"))


def string_of(x):
    x = strip(x)
    return x.get("v") if isinstance(x, dict) and x.get("k") == "Str" else None


def target(prog, x, tu):
    """function object designated by an argument of def()"""
    x = strip(x)
    if x.get("k") == "Lambda":
        return Fn(x["fn"], tu)
    for y in walk(x):
        if y.get("k") == "Lambda":
            return Fn(y["fn"], tu)
        if y.get("k") == "Ref" and isinstance(y.get("f"), str):
            return prog.fns.get(y["f"])
        if y.get("k") in ("MemPtr", "Member") and isinstance(y.get("f"), str):
            return prog.fns.get(y["f"])
    return None


def kwname(x):
    """name in  "name"_a  (possibly with a default)"""
    for y in walk(x):
        if y.get("name") == 'operator""_a' or "operator\"\"" in str(y.get("q", "")):
            for z in walk(y):
                if z.get("k") == "Str":
                    return z.get("v")
    for y in walk(x):
        if y.get("k") == "Ctor" and "pybind11::arg" in str(y.get("q", "")):
            for z in walk(y):
                if z.get("k") == "Str":
                    return z.get("v")
    return None


def python(prog):
    """everything the Python module defines, in order of definition"""
    if hasattr(prog, "_pybind"):
        return prog._pybind
    out = []
    tops = [f for f in prog.fns.values() if f.name.startswith("pybind11_init_")]
    if not tops:
        raise AnalysisBroken("no Python module definition found")
    classes = {}
    for f in tops:
        for x in walk(f.d.get("body")):
            if x.get("k") == "Ctor" and str(x.get("clsq", "")) == "pybind11::class_":
                nm = [y.get("v") for a in x["args"] for y in walk(a) if y.get("k") == "Str"]
                if nm:
                    classes[x["cls"]] = nm[0]
        for x in walk(f.d.get("body")):
            if x.get("k") != "MCall" or x.get("name") != "def":
                continue
            scope = ""
            if x.get("clsq") == "pybind11::class_":
                scope = classes.get(x["cls"], x["cls"])
            elif x.get("clsq") != "pybind11::module_":
                continue
            a = x["args"]
            nm = string_of(a[0]) if a else None
            kw = [k for k in (kwname(y) for y in a[1:]) if k is not None]
            if nm is not None:
                out.append(Bound(scope, nm, target(prog, a[1], f.tu), kw, x, f.tu))
            else:
                # py::init<...>(): the constructor of the bound class with those parameter types
                ty = f.tu.types[strip(a[0])["t"]] if isinstance(strip(a[0]).get("t"), int) else {}
                out.append(Bound(scope, "__init__", None, kw, x, f.tu, extra=[ty.get("s")] + kw))
    out.reverse()
    prog._pybind = out
    return out


def python_entries(prog):
    """{name/arity: Fn} of the functions and methods callable from Python, unit test hook excluded"""
    r = {}
    for b in python(prog):
        if b.name.startswith("_") and not b.name.startswith("__"):
            continue
        if b.fn is not None:
            r["py:" + b.key()] = b.fn
    # constructors of bound classes
    for b in python(prog):
        if b.name == "__init__":
            cls = re.search(r"class_<([^<>]*)", b.node["cls"])
            if not cls:
                continue
            n = cls.group(1).strip()
            for f in prog.fns.values():
                if f.clsq == n and f.d.get("ctor") and len(f.d["params"]) == 2:
                    r["py:%s.__init__/2" % b.scope] = f
    return r


REXPORTS = re.compile(r"_humanleague_(\w+)$")


def r_entries(prog):
    """{r:name/arity: Fn}: what each registered native routine runs"""
    r = {}
    for f in prog.fns.values():
        m = REXPORTS.match(f.name)
        if not m or m.group(1) == "unitTest":
            continue
        cand = [x for x in walk(f.d.get("body")) if x.get("k") == "Call" and x.get("repo") and x.get("f") in prog.fns
                and "rcpp_api" in prog.fns[x["f"]].loc()]
        if cand:
            g = prog.fns[cand[0]["f"]]
            r["r:%s/%d" % (m.group(1), len(g.d["params"]))] = g
    return r


def r_tables(root):
    """textual tables of the R side: registration (C) and wrappers (R)"""
    init = open(os.path.join(root, "src/humanleague_init.c")).read() if os.path.exists(os.path.join(root, "src/humanleague_init.c")) else ""
    reg = {m.group(1): (m.group(2), int(m.group(3)))
           for m in re.finditer(r'\{\s*"(\w+)"\s*,\s*\(DL_FUNC\)\s*&\s*(\w+)\s*,\s*(-?\d+)\s*\}', init)}
    rw = open(os.path.join(root, "R/RcppExports.R")).read() if os.path.exists(os.path.join(root, "R/RcppExports.R")) else ""
    rw = re.sub(r"(?m)^\s*#.*$", "", rw)
    calls = {}
    for m in re.finditer(r"(\w+)\s*<-\s*function\(([^)]*)\)\s*\{\s*(?:invisible\()?\.Call\(\s*`?([\w']+)`?\s*((?:,[^()]*)?)\)", rw):
        params = [p.split("=")[0].strip() for p in m.group(2).split(",") if p.strip()]
        args = [a.strip() for a in m.group(4).split(",") if a.strip() and not re.match(r"\s*PACKAGE\s*=", a)]
        calls[m.group(1)] = (params, m.group(3), args)
    ns = open(os.path.join(root, "NAMESPACE")).read() if os.path.exists(os.path.join(root, "NAMESPACE")) else ""
    exports = re.findall(r"""export\(\s*["']?(\w+)["']?\s*\)""", ns)
    return reg, calls, exports
