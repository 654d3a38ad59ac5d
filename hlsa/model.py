"""Program model: runs the extractor over every translation unit of the build in both
configurations (Python module, R package) and indexes the type-checked program."""
import glob
import hashlib
import json
import os
import subprocess
import sys
import sysconfig
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HLSA_REPO", "/repo")
INST = os.path.join(VERIF, "extract", "inst.cpp")
BUILD = os.path.join(VERIF, "build")


class AnalysisBroken(Exception):
    """an anchor the analysis needs is missing or the source could not be parsed: no verdict"""


def build_extractor():
    src = os.path.join(VERIF, "extract", "hlextract.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "hlextract-" + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = exe + ".tmp%d" % os.getpid()
    libs = glob.glob("/usr/lib/llvm-18/lib/libclang-cpp.so*") + glob.glob("/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18*")
    if not libs:
        raise AnalysisBroken("libclang-cpp 18 not found")
    cmd = ["clang++", "-O0", "-std=c++17", "-fno-rtti", "-I/usr/lib/llvm-18/include", src, "-o", tmp, libs[0],
           "-L/usr/lib/llvm-18/lib", "-lLLVM-18"]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise AnalysisBroken("extractor does not build: " + p.stderr[-2000:])
    os.replace(tmp, exe)
    return exe


def first_existing(pats):
    for p in pats:
        g = sorted(glob.glob(p))
        if g:
            return g[0]
    return None


def configs(root=None):
    src = os.path.join(root or REPO, "src")
    pyb = first_existing(["/opt/vp/venv/lib/python3*/site-packages/pybind11/include",
                          "/usr/lib/python3/dist-packages/pybind11/include"])
    pyh = first_existing(["/usr/include/python3.1[0-9]"])
    rh = first_existing(["/usr/share/R/include"])
    rcpp = first_existing(["/usr/lib/R/site-library/Rcpp/include", "/usr/local/lib/R/site-library/Rcpp/include",
                           "/usr/lib/R/library/Rcpp/include"])
    cpps = sorted(os.path.basename(f) for f in glob.glob(src + "/*.cpp"))
    ronly = {"RcppExports.cpp", "rcpp_api.cpp"}
    if not (pyb and pyh and rh and rcpp):
        raise AnalysisBroken("pybind11 / Python / R / Rcpp headers not found")
    py = ["-x", "c++", "-fno-strict-overflow", "-DNDEBUG", "-DPYTHON_MODULE", "-I" + src, "-I" + pyb, "-I" + pyh, "-std=c++20"]
    r = ["-x", "c++", "-std=gnu++17", "-DNDEBUG", "-I" + src, "-I" + rh, "-I" + rcpp]
    return {
        # last: header-only parts nothing in the build instantiates (optional, may not compile against a changed tree)
        "py": [(os.path.join(src, f), py) for f in cpps if f not in ronly] + [(INST, py)],
        "r": [(os.path.join(src, f), r) for f in cpps if f != "module.cpp"],
    }


def srchash(root=None):
    h = hashlib.sha256((root or REPO).encode() + open(INST, "rb").read())
    for f in sorted(glob.glob((root or REPO) + "/src/*")):
        if os.path.isfile(f):
            h.update(os.path.basename(f).encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()[:20]


def extract(exe, root, file, flags, out):
    cmd = [exe, root, out, file, "--", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"] + flags
    p = subprocess.run(cmd, capture_output=True, text=True, cwd="/tmp")
    if p.returncode:
        raise AnalysisBroken("cannot parse %s:\n%s" % (file, p.stderr[-3000:]))
    return out


class Fn:
    __slots__ = ("d", "tu", "key", "q", "name", "cls", "clsq")

    def __init__(self, d, tu):
        self.d = d
        self.tu = tu
        self.key = d["f"]
        self.q = d["q"]
        self.name = d["name"]
        self.cls = d.get("cls")
        self.clsq = d.get("clsq")

    def loc(self):
        return self.tu.where(self.d.get("l"))

    def __repr__(self):
        return "<%s>" % self.q


class TU:
    def __init__(self, d, file, root=None):
        self.file = file
        self.root = root or REPO
        self.types = d["types"]
        self.files = d["files"]
        self.d = d

    def where(self, l):
        if not l:
            return "?"
        f = self.files[l[0]]
        if f.startswith(self.root + "/"):
            f = f[len(self.root) + 1:]
        return "%s:%d" % (f, l[1])

    def type(self, i):
        return self.types[i]


class Program:
    def __init__(self, config, root=None):
        self.config = config
        self.root = root or REPO
        self.tus = []
        self.fns = {}
        self.byq = {}
        self.records = {}
        self.globals = {}

    def add(self, d, file):
        tu = TU(d, file, self.root)
        self.tus.append(tu)
        for fd in d["functions"]:
            f = Fn(fd, tu)
            if f.key not in self.fns:
                self.fns[f.key] = f
                self.byq.setdefault(f.q, []).append(f)
        for r in d["records"]:
            r["tu"] = tu
            self.records.setdefault(r["r"], r)
        for g in d["globals"]:
            g["tu"] = tu
            if g.get("repo"):
                k = g["q"] + ("" if not g.get("static") else "@%s" % tu.where(g["l"]).split(":")[0])
                if k not in self.globals or ("init" in g and "init" not in self.globals[k]):
                    self.globals[k] = g

    def find(self, q, pred=None, required=True):
        """functions by qualified name"""
        r = [f for f in self.byq.get(q, []) if pred is None or pred(f)]
        if required and not r:
            raise AnalysisBroken("anchor function %s not found (%s build)" % (q, self.config))
        return r

    def methods(self, clsq, name, cls=None, required=True):
        r = [f for f in self.fns.values() if f.clsq == clsq and f.name == name and (cls is None or f.cls == cls)]
        if required and not r:
            raise AnalysisBroken("anchor method %s::%s not found (%s build)" % (clsq, name, self.config))
        return r


def calls(d):
    """keys of the functions named in a function body (calls, constructions, references, lambdas included)"""
    out = set()
    st = [d.get("body"), d.get("inits")]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            f = x.get("f")
            if isinstance(f, str) and x.get("k") in ("Call", "MCall", "Ctor", "Ref"):
                out.add(f)
            st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)
    return out


def callgraph(prog):
    if not hasattr(prog, "_cg"):
        prog._cg = {k: {c for c in calls(f.d) if c in prog.fns} for k, f in prog.fns.items()}
    return prog._cg


def reach(prog, keys):
    g = callgraph(prog)
    seen, st = set(), list(keys)
    while st:
        k = st.pop()
        if k in seen:
            continue
        seen.add(k)
        st.extend(g.get(k, ()))
    return seen


def has_loop(d):
    st = [d.get("body")]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if x.get("k") in ("For", "While", "Do", "RangeFor", "Goto"):
                return True
            st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)
    return False


def kernels(prog):
    """functions callers treat as uninterpreted functions of their arguments: recursive functions, free functions that
    lead to one, and scalar numerical kernels (only numbers in and out, with a loop)"""
    if hasattr(prog, "_kern"):
        return prog._kern
    g = callgraph(prog)
    rec = {k for k in prog.fns if k in reach(prog, g[k])}
    out = set()
    for k, f in prog.fns.items():
        if "unittest" in f.q:
            continue
        if k in rec or (not f.clsq and not f.q.startswith("hl::") and g[k] & rec):
            out.add(k)
        elif not f.clsq and has_loop(f.d):
            T = f.tu.types
            ok = T[f.d["ret"]]["k"] in ("float",) and f.d["params"]
            for p in f.d["params"]:
                ty = T[p["t"]]
                if ty["k"] in ("ref", "ptr"):
                    ty = T[ty["to"]]
                ok = ok and ty["k"] in ("int", "float")
            if ok:
                out.add(k)
    prog._kern = out
    return out


def set_kernels(prog, names):
    """kernels of a program given the names of the reference's: those, and whatever else is recursive or a scalar
    numerical kernel"""
    g = callgraph(prog)
    rec = {k for k in prog.fns if k in reach(prog, g[k])}
    base = kernels(prog)
    prog._kern = {k for k in base if k in rec or prog.fns[k].q in names or not (g[k] & rec)}


_cache = {}


def load(config, root=None):
    """the program as the given build configuration compiles it, from the sources under root"""
    root = root or REPO
    if (config, root) in _cache:
        return _cache[config, root]
    exe = build_extractor()
    cfgs = configs(root)
    h = srchash(root)
    outdir = os.path.join(BUILD, "ast", os.path.basename(exe) + "-" + h)
    os.makedirs(outdir, exist_ok=True)
    jobs = []
    for f, flags in cfgs[config]:
        out = os.path.join(outdir, config + "_" + os.path.basename(f) + ".json")
        if not os.path.exists(out):
            jobs.append((f, flags, out))

    def run(j):
        f, flags, out = j
        tmp = out + ".tmp%d" % os.getpid()
        try:
            extract(exe, root + "/", f, flags, tmp)
        except AnalysisBroken:
            if f != INST:
                raise
            with open(tmp, "w") as o:
                o.write(json.dumps({"types": [], "files": [], "functions": [], "records": [], "globals": []}))
        os.replace(tmp, out)
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        list(ex.map(run, jobs))
    p = Program(config, "/repo")
    for f, flags in cfgs[config]:
        out = os.path.join(outdir, config + "_" + os.path.basename(f) + ".json")
        # the same text wherever the tree lies
        p.add(json.loads(open(out).read().replace(root + "/", "/repo/") if root != "/repo" else open(out).read()), f)
    if not p.fns:
        raise AnalysisBroken("no functions found")
    _cache[config, root] = p
    # keep the cache small
    base = os.path.join(BUILD, "ast")
    try:
        ds = sorted((os.path.getmtime(os.path.join(base, d)), d) for d in os.listdir(base))
        import shutil
        for _, d in ds[:-12]:
            shutil.rmtree(os.path.join(base, d), ignore_errors=True)
    except OSError:
        pass
    return p
