"""Units of analysis, summaries of the current tree and of the reviewed reference, and verdicts."""
import hashlib
import json
import multiprocessing as mp
import os
import re
import sys
import threading
import time
import traceback
from . import align, model, cases, late, terms as t
from .bindings import python_entries, r_entries
from .model import AnalysisBroken, reach
from .summary import summarise

REF = os.path.join(model.VERIF, "ref")
RAW = ("NDArray", "Index", "MappedIndex", "FixedIndex", "TransposedIndex", "Sobol")
# functions kept uninterpreted while another is analysed (each is analysed on its own)
CUTS = (
    (re.compile(r"^(hl::qisi|qisi|QISI::)"), ("IPF<",)),
    (re.compile(r"^(hl::integerise|integerise|Integeriser::)"), ("QISI::",)),
    (re.compile(r"^Sobol::"), ("nlopt_sobol_",)),
    (re.compile(r"^nlopt_sobol_create"), ("sobol_init",)),
)


def digest(fn):
    """digest of a function's code without positions and numbering"""
    if isinstance(fn.d.get("_dg"), str):
        return fn.d["_dg"]
    ids = {}
    T = fn.tu.types

    def norm(x, key=None):
        if isinstance(x, dict):
            return [[k, norm(v, k)] for k, v in sorted(x.items()) if k not in ("l", "le", "_dg")]
        if isinstance(x, list):
            return [norm(v, key) for v in x]
        if key == "id":
            return ids.setdefault(x, len(ids))
        if key in ("t", "ret", "to", "base") and isinstance(x, int) and 0 <= x < len(T):
            return T[x].get("s") if T[x] else x
        if isinstance(x, str) and "lambda at " in x:
            return re.sub(r":\d+:\d+", "", x)
        if key in ("pt", "ta") and isinstance(x, int) and 0 <= x < len(T):
            return T[x].get("s") if T[x] else x
        return x
    s = json.dumps(norm(fn.d))
    s = re.sub(r"@/[^\"]*", "", s)
    fn.d["_dg"] = hashlib.sha256(s.encode()).hexdigest()[:16]
    return fn.d["_dg"]


class World:
    """current tree and reference in one build configuration"""

    def __init__(self, cfg):
        self.cfg = cfg
        self.ref = model.load(cfg, REF)
        self.cur = model.load(cfg)
        align.align(self.ref, self.cur)
        names = {self.ref.fns[k].q for k in model.kernels(self.ref)}
        model.set_kernels(self.cur, names)
        self._changed = None

    def entries(self, prog):
        return python_entries(prog) if self.cfg == "py" else r_entries(prog)

    def find(self, prog, unit):
        """the function a unit name designates"""
        if unit.startswith(("py:", "r:")):
            return self.entries(prog).get(unit)
        if unit.startswith("key:"):
            return prog.fns.get(unit[4:])
        r = prog.byq.get(unit, [])
        return r[0] if r else None

    def cuts(self, prog, unit, fn):
        names = [fn.q]
        if unit.startswith(("py:qisi", "r:qisi")):
            names.append("qisi")
        if unit.startswith(("py:integerise/1", "r:integerise")):
            names.append("integerise")
        subs = [x for rx, xs in CUTS if any(rx.match(n) for n in names) for x in xs]
        return {f.q for f in prog.fns.values() if any(f.q.startswith(x) for x in subs) and f.key != fn.key}

    def units(self, prog):
        """repository functions the public interface can reach"""
        keys = set()
        for n, f in self.entries(prog).items():
            keys |= reach(prog, [k for k in model.calls(f.d) if k in prog.fns])
            if f.key in prog.fns:
                keys.add(f.key)
        # special members run without being named
        cls = {prog.fns[k].cls for k in keys if prog.fns[k].cls}
        for k, f in prog.fns.items():
            if f.cls in cls and (f.d.get("ctor") or f.name.startswith("~") or f.name.startswith("operator")):
                keys.add(k)
        return {k for k in keys if "unittest" not in prog.fns[k].q}

    def layout(self, prog, cls):
        r = prog.records.get(cls)
        if r is None:
            return None
        return tuple((f["n"], r["tu"].types[f["t"]].get("s")) for f in r.get("fields", ()))

    def samelayout(self, cls):
        return cls is None or self.layout(self.ref, cls) == self.layout(self.cur, cls)

    def rawunit(self, fn):
        return fn.clsq is not None and fn.clsq.split("<")[0] in RAW

    def changed(self):
        """functions whose code differs from the reference, appeared or disappeared"""
        if self._changed is None:
            r = {}
            for k, f in self.cur.fns.items():
                if "unittest" in f.q or "/Test" in f.loc():
                    continue
                g = self.ref.fns.get(k)
                if g is None:
                    r[k] = "new"
                elif digest(g) != digest(f):
                    r[k] = "changed"
            for k in self.ref.fns:
                if k not in self.cur.fns and "unittest" not in self.ref.fns[k].q:
                    r[k] = "gone"
            gl = []
            for k, g in self.cur.globals.items():
                h = self.ref.globals.get(k)
                a, b = json.dumps(strip_l(g.get("init"))), json.dumps(strip_l(h.get("init"))) if h else None
                if a != b:
                    gl.append(k)
            self.chglobals = gl
            self._changed = r
        return self._changed

    def samerecords(self):
        if not hasattr(self, "_sr"):
            def lay(p):
                return {k: (self.layout(p, k), json.dumps(strip_l([f.get("init") for f in r.get("fields", ())])))
                        for k, r in p.records.items()}
            self._sr = lay(self.ref) == lay(self.cur)
        return self._sr

    def summarise(self, which, unit, fn):
        prog = self.ref if which == "ref" else self.cur
        prims = set() if self.rawunit(fn) else None
        return summarise(prog, fn, opaque=self.cuts(prog, unit, fn), prims=prims)

    def sites(self, fn):
        """changed functions a unit reaches: where a difference comes from"""
        ch = self.changed()
        out = []
        keys = reach(self.cur, [fn.key]) if fn.key in self.cur.fns else set()
        body = model.calls(fn.d)
        for k in list(body):
            if k in self.cur.fns:
                keys |= reach(self.cur, [k])
        keys.add(fn.key)
        for k in keys:
            if k in ch and k in self.cur.fns:
                f = self.cur.fns[k]
                out.append("%s (%s)" % (f.loc(), f.q))
        return sorted(set(out))


def strip_l(x):
    if isinstance(x, dict):
        return {k: strip_l(v) for k, v in x.items() if k not in ("l", "le", "t", "id")}
    if isinstance(x, list):
        return [strip_l(v) for v in x]
    return x


class V:
    """outcome of one obligation"""

    def __init__(self, rule, subject, ok, detail="", loc=""):
        self.rule, self.subject, self.ok, self.detail, self.loc = rule, subject, ok, detail, loc

    def j(self):
        return {"rule": self.rule, "subject": self.subject,
                "verdict": {True: "holds", False: "violated", None: "undecided"}[self.ok],
                "detail": self.detail, "where": self.loc}


_units = {}


class Unit:
    """a unit with both summaries, computed on demand (once per process and pass)"""

    def __new__(cls, world, name):
        k = (id(world), name)
        if k not in _units:
            _units[k] = super().__new__(cls)
        return _units[k]

    def __init__(self, world, name):
        if hasattr(self, "w"):
            return
        self.w, self.name = world, name
        self.rf = world.find(world.ref, name)
        self.cf = world.find(world.cur, name)
        self._r = self._c = None

    def untouched(self):
        """no function this unit reaches differs from the reference"""
        if self.rf is None or self.cf is None or digest(self.rf) != digest(self.cf):
            return False
        ch = self.w.changed()
        if not ch and not self.w.chglobals:
            return True
        if self.w.chglobals or not self.w.samerecords():
            return False
        keys = reach(self.w.cur, model.calls(self.cf.d)) | {self.cf.key}
        return not (keys & set(ch)) and not any(v == "gone" for v in ch.values())

    @property
    def ref(self):
        if self._r is None and self.rf is not None:
            if self.untouched():
                # the same code: one analysis serves both
                self._r = self.cur
            else:
                self._r = self.w.summarise("ref", self.name, self.rf)
        return self._r

    @property
    def cur(self):
        if self._c is None and self.cf is not None:
            self._c = self.w.summarise("cur", self.name, self.cf)
        return self._c

    def undecided(self):
        """why the current summary cannot be trusted to be exact where the reference is"""
        if self.cf is None:
            return "no function for %s" % self.name
        c = self.cur
        if c.failed:
            return c.failed
        if self.ref is not None and not self.ref.failed:
            a = {k[0] for k in self.ref.unknown}
        else:
            a = set()
        extra = sorted("%s at %s" % k for k in c.unknown if k[0] not in a)
        return "; ".join(extra[:3]) if extra else None

    def where(self):
        s = self.w.sites(self.cf) if self.cf is not None else []
        return "; ".join(s[:6]) if s else (self.cf.loc() if self.cf else self.name)


def diffpath(a, b, path="", depth=0):
    """first place where two terms differ"""
    if a is b or depth > 40:
        return None
    if isinstance(a, t.T) and isinstance(b, t.T):
        if a.op == b.op and len(a.args) == len(b.args) and a.op not in ("poly",):
            bad = [(i, x, y) for i, (x, y) in enumerate(zip(a.args, b.args)) if x is not y and x != y]
            if len(bad) >= 1:
                i, x, y = bad[0]
                r = diffpath(x, y, path + "/%s.%d" % (a.op, i), depth + 1)
                if r:
                    return r
        return path, t.show(a, 4)[:200], t.show(b, 4)[:200]
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x is not y and x != y:
                r = diffpath(x, y, path + "/%d" % i, depth + 1)
                if r:
                    return r
    return path, str(a)[:200], str(b)[:200]


def same(u, rule, what, a, b):
    """obligation: term b of the current tree equals term a of the reference"""
    subj = "%s: %s" % (u.name, what)
    if a is None and b is None:
        return V(rule, subj, True, "absent in both")
    if a is not None and b is not None and equal(a, b):
        return V(rule, subj, True, t.show(b, 3)[:160])
    if a is not None and b is not None and u.ref is not None and not u.ref.failed:
        ctx = noerror(u.ref)
        if alike(a, b, ctx):
            return V(rule, subj, True, "equal wherever no error is raised")
    why = u.undecided()
    if why:
        return V(rule, subj, None, why, u.where())
    d = diffpath(a, b) if a is not None and b is not None else ("", str(a)[:100], str(b)[:100])
    return V(rule, subj, False, "differs at %s: reference %s, found %s" % d, u.where())


def noerror(s):
    """what holds of the inputs for which a function returns"""
    try:
        f = t.not_(s.throwcond())
    except t.TooBig:
        return ()
    return () if f is t.TRUE else f.args[0] if f.op == "and" else (f,)


def alike(a, b, ctx):
    """equal wherever ctx holds, possibly after restating both"""
    if ctx and cases.samevalue(a, b, ctx):
        return True
    try:
        x, y = late.both(*late.merged(ctx, a, b))
    except t.TooBig:
        return False
    if x is a and y is b:
        return False
    return equal(x, y) or bool(ctx) and cases.samevalue(x, y, ctx)


def equal(a, b):
    if a is b:
        return True
    if t.isbool(a) and t.isbool(b):
        try:
            if t.equiv(a, b):
                return True
            x, y = t.inctx(a), t.inctx(b)
            if (x is not a or y is not b) and t.equiv(x, y):
                return True
        except t.TooBig:
            pass
    return cases.samevalue(a, b)


_work = {}


def _decide(jobs):
    """verdicts of jobs that share their analyses"""
    def once():
        return [_work[name](*args) for name, args in jobs]
    res = once()
    if any(v.ok is False for r in res for v in r) and any(not u.untouched() for u in _units.values()):
        # facts learnt late (sizes, lengths) simplify what was built before them: decide on a second pass
        _units.clear()
        res = once()
    return res


def _run(jobs):
    """one worker: [[verdict]] in the order of jobs"""
    out = []

    def go():
        try:
            out.append([[v.j() for v in r] for r in _decide(jobs)])
        except AnalysisBroken as e:
            out.append(e)
        except BaseException:
            out.append(e_internal())
    _units.clear()
    th = threading.Thread(target=go)
    th.daemon = True
    th.start()
    th.join(TIMEOUT)
    why = "time limit reached" if not out else None
    if out and isinstance(out[0], list):
        return out[0]
    if out:
        why = "analysis: %s" % str(out[0])[-600:]
    if len(jobs) > 1 and out:       # one of them failed: decide them one by one
        return [_run([j])[0] for j in jobs]
    return [[V(name, str(args), None, why).j()] for name, args in jobs]


def e_internal():
    return "internal: " + traceback.format_exc()[-600:]


def groups(named):
    """jobs about the same unit share its analysis, and so a process"""
    g = {}
    for i, (nm, args) in enumerate(named):
        key = i
        if len(args) >= 2 and isinstance(args[1], str) and args[0] in ("py", "r"):
            key = (args[0], args[1])
        g.setdefault(key, []).append(i)
    return list(g.values())


TIMEOUT = int(os.environ.get("HLSA_TIMEOUT", "400"))


def run_jobs(jobs):
    """jobs: list of (function, args); each returns verdicts; evaluated in parallel processes"""
    sys.setrecursionlimit(100000)
    threading.stack_size(512 * 1024 * 1024)
    named = []
    for i, (f, args) in enumerate(jobs):
        nm = "%s#%d" % (f.__name__, i)
        _work[nm] = f
        named.append((nm, args))
    return [v for r in run_named(named) for v in r]


def run_named(named):
    ctx = mp.get_context("fork")
    gs = groups(named)
    n = min(len(gs), max(1, min(8, os.cpu_count() or 4)))
    out = [[] for _ in named]
    with ctx.Pool(max(n, 1), maxtasksperchild=1) as pool:
        for g, r in zip(gs, pool.imap(_run, [[named[i] for i in g] for g in gs], chunksize=1)):
            for i, v in zip(g, r):
                out[i] = v
    return out
