"""Summaries: what a function returns, throws and leaves behind, as terms over its inputs."""
import time
import traceback
from . import terms as t
from .terms import mk, TRUE, FALSE, or_
from .interp import Interp, ext
from .model import AnalysisBroken


class Throw:
    __slots__ = ("cond", "type", "bases", "loc", "stack", "why")

    def __init__(self, e):
        self.cond = e.pc
        ty = e.d.get("type")
        self.type = ty.args[0] if ty is not None and hasattr(ty, "args") else str(ty)
        self.bases = tuple(e.d.get("bases") or ())
        self.loc = e.loc
        self.stack = e.stack
        self.why = e.d.get("why")

    def family(self):
        b = self.bases or (self.type,)
        return b[0]


class Summary:
    def __init__(self, fn):
        self.fn = fn
        self.ret = None
        self.out = {}
        self.throws = []
        self.events = []
        self.unknown = {}
        self.failed = None
        self.secs = 0.0
        self.analysed = set()
        self.loops = {}

    @property
    def ok(self):
        return self.failed is None

    def throwcond(self, *families):
        c = [x.cond for x in self.throws if not families or x.family() in families]
        return or_(*c) if c else FALSE


LOCAL = ("H", "L", "T", "F", "N")


def reachable(roots, load, keep=lambda r: False):
    """rename the objects created by the function in order of first reference; returns renamed values and contents"""
    names, contents, queue = {}, [], []

    def visit(v):
        m = {}
        for x in order(v):
            if x.op == "ref" and x.args[0][0] in LOCAL:
                root = x.args[0]
                if root not in names:
                    names[root] = ("O", len(names))
                    queue.append(root)
                m[x] = mk("ref", names[root], x.args[1])
        return t.subst(v, m) if m else v
    out = [visit(v) if v is not None else None for v in roots]
    while queue:
        root = queue.pop(0)
        if len(contents) > 60:
            break
        contents.append(visit(load(mk("ref", root, ()))))
    return out, contents


def order(v):
    """subterms in a canonical (structural) order"""
    seen, stack, res = set(), [v], []
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(reversed(x))
            continue
        if not isinstance(x, t.T) or x in seen:
            continue
        seen.add(x)
        res.append(x)
        if x.op == "ref":
            stack.extend(a for a in reversed(x.args[1]) if isinstance(a, t.T))
            if len(x.args[0]) > 1 and isinstance(x.args[0][1], t.T):
                stack.append(x.args[0][1])
            continue
        if x.op == "poly":
            for mono, c in x.args[0]:
                for a, e in mono:
                    stack.append(a)
            continue
        stack.extend(reversed(x.args))
    return res


def summarise(prog, fn, opaque=(), prims=None, kern=True, setup=None, args=None, keepevents=True):
    s = Summary(fn)
    t0 = time.time()
    I = Interp(prog, opaque=opaque, prims=prims, kern=kern)
    try:
        st, v = I.run(fn, args=args)
        cells = {}
        for (root, path), x in sorted(st.c.items(), key=lambda kv: str(kv[0])):
            if root[0] in ("I", "G", "P"):
                p = path[:I.fields(path)]
                if x is I.base(root, p) and len(p) == len(path):
                    continue
                cells[(root, path)] = x
        keys = list(cells)
        vals, heap = reachable([v] + [cells[k] for k in keys], lambda r: I.load(st, r))
        s.ret = vals[0]
        for k, x in zip(keys, vals[1:]):
            s.out[k] = x
        for i, x in enumerate(heap):
            s.out[(("O", i), ())] = x
        s.exitpc = st.pc
    except (AnalysisBroken, RecursionError, TypeError, AttributeError, KeyError, IndexError, ValueError, AssertionError, t.TooBig) as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        s.failed = "%s: %s @ %s" % (type(ex).__name__, str(ex)[:200],
                                    "; ".join("%s:%d" % (f.filename.split("/")[-1], f.lineno) for f in tb[-3:]))
    s.throws = [Throw(e) for e in I.events if e.kind == "Throw"]
    s.events = I.events if keepevents else []
    s.unknown = dict(I.unknown)
    s.analysed = set(I.analysed)
    s.loops = dict(I.loops_seen)
    s.interp = I
    s.secs = time.time() - t0
    return s
