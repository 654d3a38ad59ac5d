"""Forward evaluator over the type-checked syntax tree.

Every function is evaluated once, in program order, over terms: the state maps storage locations to
terms, branches are joined with gated `ite` terms, loops are replaced by what they compute (closed
forms for induction variables, families for element-wise updates, sums, quantifiers, recurrences).
No path is enumerated and no formula is handed to a solver.
"""
import hashlib
import struct
from fractions import Fraction
import re
from . import terms as t
from .terms import (mk, num, ZERO, ONE, TRUE, FALSE, NULL, add, sub, mul, and_, or_, not_, atom, ite, cmp,
                    le0, is_const, const, select, size_of, sizes_of, ssize_of, cellt, subst, freeset, nonneg)
from .model import AnalysisBroken, kernels

TOP = ("T",)


def ref(root, *path):
    return mk("ref", root, tuple(path))


def ext(r, *steps):
    """lvalue designated by a step from lvalue r"""
    if r.op == "ite":
        return ite(r.args[0], ext(r.args[1], *steps), ext(r.args[2], *steps))
    if r.op == "ptr":
        r = deref(r)
    if r.op == "ref":
        root = r.args[0]
        if root[0] == "V" and root[1].op == "mpair" and not r.args[1] and steps:
            # element of a map reached through an iterator
            o, k = root[1].args
            if steps[0] == "second":
                return ext(o, mk("mkey", k), *steps[1:])
            if steps[0] == "first":
                return mk("ref", ("V", k), tuple(steps[1:]))
        return mk("ref", root, r.args[1] + tuple(steps))
    return mk("ref", ("P", r), tuple(steps))


def deref(p):
    """lvalue a pointer points to"""
    if p.op == "ite":
        return ite(p.args[0], deref(p.args[1]), deref(p.args[2]))
    if p.op == "ptr":
        return ext(p.args[0], p.args[1])
    if p.op == "ref":
        return p
    if p.op == "at":        # array of pointers: the array of what they point to
        return mk("ref", ("P", p.args[0]), (p.args[1],))
    return mk("ref", ("P", p), ())


def addrof(r):
    """pointer to lvalue r"""
    if r.op == "ite":
        return ite(r.args[0], addrof(r.args[1]), addrof(r.args[2]))
    if r.op == "ref" and r.args[1] and isinstance(r.args[1][-1], t.T) and r.args[1][-1].op != "str":
        return mk("ptr", mk("ref", r.args[0], r.args[1][:-1]), r.args[1][-1])
    return r


def padd(p, d):
    if p.op == "ptr":
        return mk("ptr", p.args[0], add(p.args[1], d))
    if p.op == "ite":
        return ite(p.args[0], padd(p.args[1], d), padd(p.args[2], d))
    if p.op == "ref":
        return mk("ptr", p, d)
    if p.op == "at":        # as in deref
        return mk("ptr", mk("ref", ("P", p.args[0]), (p.args[1],)), d)
    return mk("ptr", mk("ref", ("P", p), ()), d)


def psub(a, b):
    if a.op == "ptr" and b.op == "ptr" and a.args[0] is b.args[0]:
        return sub(a.args[1], b.args[1])
    return mk("call", "ptrdiff", a, b)


class St:
    __slots__ = ("c", "pc")

    def __init__(self, c=None, pc=TRUE):
        self.c = c if c is not None else {}
        self.pc = pc

    def copy(self):
        return St(dict(self.c), self.pc)


class Flow:
    __slots__ = ("norm", "brk", "cont", "ret")

    def __init__(self, norm=None):
        self.norm = norm
        self.brk = []
        self.cont = []
        self.ret = []

    def dead(self):
        return self.norm is None and not self.brk and not self.cont and not self.ret

    def take(self, o):
        self.brk += o.brk
        self.cont += o.cont
        self.ret += o.ret


class Frame:
    __slots__ = ("fn", "id", "env", "this", "tu", "parent", "depth", "retref", "tmp")

    def __init__(self, fn, fid, tu, parent=None):
        self.fn = fn
        self.id = fid
        self.env = {}
        self.this = None
        self.tu = tu
        self.parent = parent
        self.depth = parent.depth + 1 if parent else 0
        self.retref = False
        self.tmp = []


class Event:
    __slots__ = ("kind", "pc", "loc", "stack", "d", "loops", "bad")

    def __init__(self, kind, pc, loc, stack, d):
        self.kind = kind
        self.pc = pc
        self.loc = loc
        self.stack = stack
        self.d = d
        self.loops = []

    def cond(self):
        """condition quantified over the enclosing loops (innermost first)"""
        return self.pc

    def __repr__(self):
        return "%s@%s[%s] %s" % (self.kind, self.loc, t.show(self.pc, 5), self.d)


def conj(f):
    return set(f.args[0]) if f.op == "and" else ({f} if f is not TRUE else set())


def split_pc(p, q):
    """(common, rest of p, rest of q)"""
    a, b = conj(p), conj(q)
    c = a & b
    return and_(*c), and_(*(a - c)), and_(*(b - c))


class Unmodelled(AnalysisBroken):
    pass


class Interp:
    def __init__(self, prog, opaque=(), prims=None, maxdepth=40, kern=True):
        from . import lib
        self.prog = prog
        self.lib = lib.Lib(self)
        self.opaque = set(opaque)
        self.kern = kernels(prog) if kern else set()
        self.prims = lib.PRIM_CLASSES if prims is None else prims
        self.events = []
        self.shares = set()
        self.trial = 0
        self.stack = []
        self.callstack = []
        self.maxdepth = maxdepth
        self.unknown = {}
        self.ctypes = {}
        self.fids = {}
        self.closures = {}
        self.handlers = []
        self.assumes = []
        self.statics = {}
        self.analysed = set()
        self.loops_seen = {}
        self.loop_list = []
        self.loopmods = {}
        self.loopshape = {}
        self.St = St
        self.ref = ref

    def trial_generic(self, v):
        """inside a trial pass lists must not grow element by element"""
        return self.trial > 0

    # ------------------------------------------------------------ events
    def where(self, fr, node):
        return fr.tu.where(node.get("l")) if node is not None else "?"

    def event(self, kind, st, fr, node, **d):
        if self.trial:
            return None
        e = Event(kind, st.pc, self.where(fr, node), tuple(f.q for f in self.callstack), d)
        self.events.append(e)
        return e

    def unk(self, what, fr, node):
        key = (what, self.where(fr, node))
        self.unknown[key] = self.unknown.get(key, 0) + 1

    # ------------------------------------------------------------ storage
    def fields(self, path):
        n = 0
        for s in path:
            if not isinstance(s, str) or s == "#":
                break
            n += 1
        return n

    def base(self, root, fp):
        if root[0] == "P":
            v = mk("pointee", root[1])
            for f in fp:
                v = t.get(v, f)
            return v
        v = mk("in", root)
        for f in fp:
            v = t.get(v, f)
        return v

    def cellfor(self, st, root, path):
        n = self.fields(path)
        for i in range(n, -1, -1):
            if (root, path[:i]) in st.c:
                return i
        return None

    def load(self, st, r):
        if r.op == "ite":
            return ite(r.args[0], self.load(st, r.args[1]), self.load(st, r.args[2]))
        if r.op == "ptr":
            r = deref(r)
        if r.op != "ref":
            return mk("pointee", r)
        root, path = r.args
        if root[0] == "V":          # a value standing for an object (prvalue)
            v = root[1]
            if v.op == "mpair":
                v = mk("pair", v.args[1], self.load(st, ext(v.args[0], mk("mkey", v.args[1]))))
            return self.walk(v, path)
        i = self.cellfor(st, root, path)
        if i is None:
            n = self.fields(path)
            subs = [k for k in st.c if k[0] == root and len(k[1]) > n and k[1][:n] == path[:n]]
            if subs:
                v = self.assemble(st, root, path[:n], subs)
            else:
                v = self.base(root, path[:n])
            return self.walk(v, path[n:])
        v = st.c[(root, path[:i])]
        n = self.fields(path)
        if i < n or True:
            # sub-cells may refine the cell (never both in practice)
            return self.walk(v, path[i:])

    def follow(self, r, e, st, fr):
        """a member of reference type designates what it was bound to"""
        if self.ty(fr, e["t"])["k"] == "ptr":
            return r
        if r.op == "ref":
            v = self.load(st, r) if self.cellfor(st, *r.args) is not None else None
            if v is not None and self.isrefterm(v) and v is not r:
                return v
        elif r.op == "ite":
            a, b = self.follow(r.args[1], e, st, fr), self.follow(r.args[2], e, st, fr)
            return ite(r.args[0], a, b)
        return r

    def assemble(self, st, root, fp, subs):
        names = {}
        for k in subs:
            names.setdefault(k[1][len(fp)], []).append(k)
        out = {}
        for nme, ks in names.items():
            p = fp + (nme,)
            if (root, p) in st.c:
                out[nme] = st.c[(root, p)]
            else:
                out[nme] = self.assemble(st, root, p, ks)
        b = self.base(root, fp) if root[0] in ("I", "P", "G") else mk("obj")
        return mk("rec", b, tuple(sorted(out.items())))

    def walk(self, v, steps):
        i = 0
        while i < len(steps):
            s = steps[i]
            if s == "#":
                if i + 1 < len(steps):
                    v = select(v, cellt(sizes_of(v), steps[i + 1]))
                    i += 2
                    continue
                v = mk("flatseq", v)
                i += 1
                continue
            if isinstance(s, str):
                v = t.get(v, s)
            else:
                v = select(v, s)
            i += 1
        return v

    def update(self, v, steps, x):
        if not steps:
            return x
        s = steps[0]
        if s == "#":
            if len(steps) == 1:
                return mk("unflat", v, x)
            key = cellt(sizes_of(v), steps[1])
            return t.store(v, key, self.update(select(v, key), steps[2:], x))
        if isinstance(s, str):
            return t.setf(v, s, self.update(t.get(v, s), steps[1:], x))
        if s.op == "str" and not len(steps) > 1:
            return t.setf(v, "[" + s.args[0] + "]", x)
        return t.store(v, s, self.update(select(v, s), steps[1:], x))

    def put(self, st, r, v):
        if v.op == "rec" and v.args[0].op == "obj" and v.args[1] and r.op == "ref" and \
                self.fields(r.args[1]) == len(r.args[1]) and r.args[0][0] != "V":
            # objects are kept field by field
            root, path = r.args
            if self.cellfor(st, root, path) in (None, len(path)):
                for k in [k for k in st.c if k[0] == root and k[1][:len(path)] == path]:
                    del st.c[k]
                for f, x in v.args[1]:
                    self.put(st, mk("ref", root, path + (f,)), x)
                return
        if r.op == "ite":
            c, a, b = r.args
            oa, ob = self.load(st, a), self.load(st, b)
            self.put(st, a, ite(c, v, oa))
            ob = self.load(st, b)
            self.put(st, b, ite(c, ob, v))
            return
        if r.op == "ptr":
            r = deref(r)
        if r.op != "ref":
            r = mk("ref", ("P", r), ())
        root, path = r.args
        if root[0] == "V":
            return
        n = self.fields(path)
        i = self.cellfor(st, root, path)
        if i is None:
            if n == len(path):
                for k in [k for k in st.c if k[0] == root and k[1][:n] == path]:
                    del st.c[k]
                st.c[(root, path)] = v
                return
            st.c[(root, path[:n])] = self.update(self.base(root, path[:n]), path[n:], v)
            return
        if i == n and n == len(path):
            for k in [k for k in st.c if k[0] == root and len(k[1]) > n and k[1][:n] == path]:
                del st.c[k]
            st.c[(root, path)] = v
            return
        st.c[(root, path[:i])] = self.update(st.c[(root, path[:i])], path[i:], v)

    def through(self, st, r, v):
        """storage of somebody else a store reaches through an array that does not own its storage"""
        if r.op == "ite":
            return self.through(st, r.args[1], v) or self.through(st, r.args[2], v)
        if r.op == "ptr":
            r = r.args[0]
        if r.op != "ref" or r.args[0][0] == "V":
            return None
        root, path = r.args
        if "#" in path:
            return t.view_of(self.load(st, mk("ref", root, path[:path.index("#")])))
        if root in self.shares and path:
            # an R vector is a handle: the elements belong to whatever it was made from
            return t.base_of(self.load(st, ref(root)))
        return t.view_of(self.load(st, r)) if v.op == "filled" else None

    def write(self, st, fr, node, r, v):
        w = self.through(st, r, v)
        self.put(st, r, v)
        self.event("Write", st, fr, node, ref=r, val=v, **({"through": w} if w is not None else {}))

    def temp(self, st, fr, node, v, tag=""):
        """materialise a value"""
        root = ("T", fr.id, self.nid(node), tag)
        for k in [k for k in st.c if k[0] == root]:
            del st.c[k]
        st.c[(root, ())] = v
        return ref(root)

    def nid(self, node):
        return id(node)

    # ------------------------------------------------------------ joins
    def merge(self, sts):
        sts = [s for s in sts if s is not None and s.pc is not FALSE]
        if not sts:
            return None
        r = sts[0]
        for s in sts[1:]:
            r = self.merge2(r, s)
        return r

    def merge2(self, a, b):
        common, ra, rb = split_pc(a.pc, b.pc)
        c = ra
        if ra is TRUE:
            c = not_(rb)
        elif rb is not TRUE and len(conj(rb)) < len(conj(ra)):
            c = not_(rb)
        pc = and_(common, or_(ra, rb))
        if a.c is b.c or c is TRUE:
            return St(a.c, pc)
        out = {}
        ra, rb = {k[0] for k in a.c}, {k[0] for k in b.c}
        for k in a.c:
            va = a.c[k]
            if k in b.c:
                vb = b.c[k]
                out[k] = va if va is vb else ite(c, va, vb)
            elif k[0][0] in ("I", "G", "P") or k[0] in rb:
                vb = self.load(b, ref(k[0], *k[1]))
                out[k] = va if va is vb else ite(c, va, vb)
            else:
                # object exists in one branch only, or is exploded differently
                out[k] = va
        for k in b.c:
            if k not in a.c:
                if k[0][0] in ("I", "G", "P") or k[0] in ra:
                    va = self.load(a, ref(k[0], *k[1]))
                    out[k] = va if va is b.c[k] else ite(c, va, b.c[k])
                else:
                    out[k] = b.c[k]
        return St(out, pc)

    def mergeval(self, items):
        """items: [(state, value)] -> (state, value)"""
        items = [(s, v) for s, v in items if s is not None and s.pc is not FALSE]
        if not items:
            return None, None
        s, v = items[0]
        for s2, v2 in items[1:]:
            common, ra, rb = split_pc(s.pc, s2.pc)
            c = ra
            if ra is TRUE:
                c = not_(rb)
            elif rb is not TRUE and len(conj(rb)) < len(conj(ra)):
                c = not_(rb)
            m = self.merge2(s, s2)
            if v is not None and v2 is not None:
                v = v if v is v2 else ite(c, v, v2)
            s = m
        return s, v

    # ------------------------------------------------------------ types
    def ty(self, fr, i):
        return fr.tu.types[i]

    def isref(self, ty):
        return ty["k"] in ("ref", "rref")

    def strip(self, fr, ty):
        while ty["k"] in ("ref", "rref"):
            ty = fr.tu.types[ty["to"]]
        return ty

    def isrepo(self, ty):
        """class of the analysed repository that is not modelled as a primitive"""
        return ty["k"] == "rec" and ty["r"] in self.prog.records and ty["q"] not in self.prims

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        if e is None:
            return None
        if "cv" in e and e["k"] not in ("Ref",):
            ty = self.ty(fr, e["t"])
            if ty["k"] == "bool":
                return TRUE if e["cv"] not in ("0",) else FALSE
            return num(int(e["cv"]))
        if "cf" in e and e["k"] not in ("Ref",):
            return self.fconst(e["cf"])
        m = getattr(self, "ev_" + e["k"], None)
        if m is None:
            self.unk("expr " + e["k"] + " " + str(e.get("cls", "")), fr, e)
            return mk("unknown", e["k"], self.where(fr, e))
        return m(e, st, fr)

    def fconst(self, s):
        if s in ("NaN", "nan", "-NaN"):
            return mk("nan")
        if s in ("+Inf", "Inf", "inf"):
            return mk("inf")
        if s in ("-Inf", "-inf"):
            return mk("ninf")
        from fractions import Fraction
        return num(Fraction(s))

    def ev_Temp(self, e, st, fr):
        return self.ev(e["e"], st, fr)

    def ev_Int(self, e, st, fr):
        return num(int(e["v"]))

    def ev_Float(self, e, st, fr):
        return self.fconst(e["v"])

    def ev_Bool(self, e, st, fr):
        return TRUE if e["v"] else FALSE

    def ev_Str(self, e, st, fr):
        return mk("str", e.get("v", ""))

    def ev_Null(self, e, st, fr):
        return NULL

    def ev_SizeOf(self, e, st, fr):
        return num(int(e["cv"])) if "cv" in e else mk("unknown", "sizeof", self.where(fr, e))

    def ev_Const(self, e, st, fr):
        return num(int(e["cv"])) if str(e.get("cv", "")).lstrip("-").isdigit() else mk("unknown", "const", self.where(fr, e))

    def ev_Zero(self, e, st, fr):
        return self.zero(self.ty(fr, e["t"]), fr)

    def zero(self, ty, fr):
        if ty["k"] == "bool":
            return FALSE
        if ty["k"] in ("int", "float"):
            return ZERO
        if ty["k"] == "ptr":
            return NULL
        if ty["k"] == "arr":
            return mk("vec", num(ty.get("n", 0)), self.zero(fr.tu.types[ty["to"]], fr))
        return mk("zero", ty["s"])

    def ev_This(self, e, st, fr):
        return fr.this

    def ev_Ref(self, e, st, fr):
        dk = e.get("dk")
        if dk == "func":
            return mk("fn", e["f"], e["q"])
        if dk == "enum" or ("cv" in e and dk in ("global", "static", "local", "param")):
            ty = self.ty(fr, e["t"])
            if "cv" in e:
                if ty["k"] == "bool":
                    return TRUE if e["cv"] != "0" else FALSE
                return num(int(e["cv"]))
        if "cf" in e:
            return self.fconst(e["cf"])
        r = self.lv(e, st, fr)
        return self.load(st, r)

    def ev_Member(self, e, st, fr):
        if "lv" not in e:
            b = self.ev(e["b"], st, fr)
            return t.get(b, e["n"])
        return self.load(st, self.lv(e, st, fr))

    def ev_Sub(self, e, st, fr):
        return self.load(st, self.lv(e, st, fr))

    def ev_Cond(self, e, st, fr):
        return self.cond(e, st, fr, self.ev)

    def cond(self, e, st, fr, f):
        c = atom(self.ev(e["c"], st, fr))
        if c is TRUE:
            return f(e["a"], st, fr)
        if c is FALSE:
            return f(e["b"], st, fr)
        s1, s2 = st.copy(), st.copy()
        s1.pc = and_(st.pc, c)
        s2.pc = and_(st.pc, not_(c))
        d1, d2 = self.deadmark(), None
        a = self.ev_or_throw(f, e["a"], s1, fr)
        b = self.ev_or_throw(f, e["b"], s2, fr)
        if a is None:
            self.assume(not_(c))
            st.c = s2.c
            return b
        if b is None:
            self.assume(c)
            st.c = s1.c
            return a
        m = self.merge([s1, s2])
        if m is not None:
            st.c = m.c
        return ite(c, a, b)

    def ev_or_throw(self, f, e, st, fr):
        x = e
        while x["k"] in ("Cast", "Temp"):
            x = x["e"]
        if x["k"] == "Throw":
            self.ev(x, st, fr)
            return None
        return f(e, st, fr)

    def deadmark(self):
        return None

    def assume(self, f):
        if not self.trial:
            self.assumes.append(f)

    def ev_Un(self, e, st, fr):
        op = e["op"]
        if op == "*":
            return self.load(st, deref(self.ev(e["e"], st, fr)))
        if op == "&":
            return self.addr(e, st, fr)
        if op in ("++", "--"):
            r = self.lv(e["e"], st, fr)
            old = self.load(st, r)
            d = ONE if op == "++" else num(-1)
            ty = self.ty(fr, e["e"]["t"])
            new = padd(old, d) if ty["k"] == "ptr" else add(old, d)
            self.write(st, fr, e, r, new)
            return old if e.get("post") else new
        v = self.ev(e["e"], st, fr)
        if op == "!":
            return not_(atom(v))
        if op == "-":
            return t.neg(v)
        if op == "+":
            return v
        if op == "~":
            return mk("bnot", t._num(v))
        if op in ("__extension__", "__real"):
            return v
        self.unk("unary " + op, fr, e)
        return mk("call", "un" + op, v)

    def addr(self, e, st, fr):
        x = e["e"]
        if x["k"] == "Ref" and x.get("dk") == "func":
            return mk("fn", x["f"], x["q"])
        if x["k"] == "Ref" and x.get("dk") == "other":
            return mk("fnref", x.get("n"))
        return addrof(self.lv(x, st, fr))

    def unsigned_fix(self, node, v, fr):
        """operand of an unsigned comparison that was converted from a signed value"""
        x = node
        while x["k"] in ("Cast", "Temp"):
            if x.get("ck") == "IntegralCast":
                a, b = self.ty(fr, x["t"]), self.ty(fr, x["e"]["t"])
                if a["k"] == "int" and b["k"] == "int" and not a["signed"] and b["signed"]:
                    return t.u64(v)
            x = x["e"]
        return v

    def ev_Bin(self, e, st, fr):
        op = e["op"]
        if op == "=":
            v = self.ev(e["b"], st, fr)
            r = self.lv(e["a"], st, fr)
            v = self.coerce(v, self.ty(fr, e["a"]["t"]))
            self.write(st, fr, e, r, v)
            return v
        if op == ",":
            self.ev(e["a"], st, fr)
            return self.ev(e["b"], st, fr)
        if op in ("&&", "||"):
            a = atom(self.ev(e["a"], st, fr))
            if op == "&&" and a is FALSE or op == "||" and a is TRUE:
                return a
            s2 = st.copy()
            g = a if op == "&&" else not_(a)
            s2.pc = and_(st.pc, g)
            keep = dict(s2.c)
            b = atom(self.ev(e["b"], s2, fr))
            if any(s2.c.get(k) is not v for k, v in keep.items()) or len(s2.c) != len(keep):
                s1 = st.copy()
                s1.pc = and_(st.pc, not_(g))
                m = self.merge([s2, s1])
                if m is not None:
                    st.c = m.c
            return and_(a, b) if op == "&&" else or_(a, b)
        a = self.ev(e["a"], st, fr)
        b = self.ev(e["b"], st, fr)
        return self.binop(op, a, b, e, fr)

    def binop(self, op, a, b, e, fr):
        ta, tb = self.ty(fr, e["a"]["t"]), self.ty(fr, e["b"]["t"])
        if op in ("<", "<=", ">", ">=", "==", "!="):
            if ta["k"] == "int" and not ta.get("signed", True) and op not in ("==", "!="):
                a = self.unsigned_fix(e["a"], a, fr)
                b = self.unsigned_fix(e["b"], b, fr)
                if op == ">=" and is_const(b) and const(b) == 0:
                    return TRUE
                if op == "<" and is_const(b) and const(b) == 0:
                    return FALSE
            if ta["k"] == "bool" or tb["k"] == "bool":
                if t.isbool(a) and t.isbool(b) and op in ("==", "!="):
                    x = or_(and_(a, b), and_(not_(a), not_(b)))
                    return x if op == "==" else not_(x)
            return self.compare(op, a, b, ta["k"] == "float")
        if ta["k"] == "ptr" or tb["k"] == "ptr":
            if op == "+":
                return padd(a, b) if ta["k"] == "ptr" else padd(b, a)
            if op == "-":
                return psub(a, b) if tb["k"] == "ptr" else padd(a, t.neg(b))
        return self.arith(op, a, b, self.ty(fr, e["t"]))

    def compare(self, op, a, b, fl):
        for x, y in ((a, b), (b, a)):
            if x.op == "nan" or y.op == "nan":
                return TRUE if op == "!=" else FALSE
            if x.op in ("inf", "ninf"):
                break
        if a.op == "ite" and (a.args[1].op in ("ptr", "null", "ref") or a.args[2].op in ("ptr", "null", "ref")):
            return ite(a.args[0], self.compare(op, a.args[1], b, fl), self.compare(op, a.args[2], b, fl))
        if b.op == "ite" and (b.args[1].op in ("ptr", "null", "ref") or b.args[2].op in ("ptr", "null", "ref")):
            return ite(b.args[0], self.compare(op, a, b.args[1], fl), self.compare(op, a, b.args[2], fl))
        return cmp(op, a, b, fl)

    def arith(self, op, a, b, ty):
        fl = ty["k"] == "float"
        for x in (a, b):
            if x.op in ("nan",):
                return x
        if fl and ty.get("bits", 64) < 64 and op in ("+", "-", "*", "/"):
            return self.tofloat(self.arith(op, a, b, dict(ty, bits=64)), ty)
        if op == "+":
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            return t.rdiv(a, b) if fl else t.idiv(a, b)
        if op == "%":
            return t.imod(a, b)
        if op in ("<<", ">>", "&", "|", "^"):
            if t.isbool(a) and t.isbool(b) and op in ("&", "|"):
                return and_(a, b) if op == "&" else or_(a, b)
            return self.bits(op, a, b)
        raise Unmodelled("operator " + op)

    def bits(self, op, a, b):
        return t.bits(op, a, b)

    def coerce(self, v, ty):
        """store into a location of this type"""
        if ty["k"] == "bool":
            return atom(v)
        if ty["k"] == "int" and t.isbool(v):
            return t._num(v)
        return v

    def ev_CAssign(self, e, st, fr):
        op = e["op"][:-1]
        b = self.ev(e["b"], st, fr)
        r = self.lv(e["a"], st, fr)
        a = self.load(st, r)
        ty = self.ty(fr, e["a"]["t"])
        ct = self.ty(fr, e["ct"])
        if ty["k"] == "ptr":
            v = padd(a, b if op == "+" else t.neg(b))
        else:
            v = self.arith(op, a, b, ct)
            if ct["k"] == "float" and ty["k"] == "int":
                v = self.f2i(v, ty)
            elif ct["k"] == "int" and ty["k"] == "int" and ct.get("bits", 64) > ty.get("bits", 64):
                v = self.trunc(t._num(v), ty.get("bits", 64), ty.get("signed", True))
            v = self.tofloat(v, ty)
            if ty["k"] == "bool":
                v = atom(v)
        self.write(st, fr, e, r, v)
        return v

    def tofloat(self, v, ty):
        """a value of single precision"""
        if ty.get("k") != "float" or ty.get("bits", 64) >= 64 or v.op == "tofloat":
            return v
        if is_const(v):
            try:
                x = struct.unpack("f", struct.pack("f", float(const(v))))[0]
                return num(Fraction(x)) if x == x and abs(x) != float("inf") else mk("tofloat", v)
            except OverflowError:
                return mk("tofloat", v)
        if v.op == "ite":
            return ite(v.args[0], self.tofloat(v.args[1], ty), self.tofloat(v.args[2], ty))
        if v.op in ("nan", "inf", "ninf"):
            return v
        return mk("tofloat", v)

    def f2i(self, v, ty):
        v = t._num(v)
        if is_const(v):
            return num(int(const(v)))
        if v.op == "ite":
            return ite(v.args[0], self.f2i(v.args[1], ty), self.f2i(v.args[2], ty))
        return mk("f2i", num(ty.get("bits", 0)), v)

    def ev_Cast(self, e, st, fr):
        ck = e["ck"]
        x = e["e"]
        if ck == "LValueToRValue":
            v = self.load(st, self.lv(x, st, fr))
            ty = self.ty(fr, e["t"])
            if ty["k"] == "int" and not ty.get("signed", True) and v.op not in ("n", "poly", "b2i"):
                nonneg(v)
            return v
        if ck in ("NoOp", "UserDefinedConversion", "ConstructorConversion", "BitCast", "LValueBitCast",
                  "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "FunctionToPointerDecay"):
            if "lv" in x and "lv" in e:
                return self.load(st, self.lv(x, st, fr))
            if ck == "FunctionToPointerDecay":
                return self.ev(x, st, fr)
            return self.ev(x, st, fr)
        if ck == "ToVoid":
            self.ev(x, st, fr)
            return None
        if ck == "ArrayToPointerDecay":
            if x["k"] == "Str":
                return self.ev(x, st, fr)
            return mk("ptr", self.lv(x, st, fr), ZERO)
        if ck == "NullToPointer":
            return NULL
        v = self.ev(x, st, fr)
        if v is None:
            return None
        ty, fy = self.ty(fr, e["t"]), self.ty(fr, x["t"])
        if ck in ("IntegralToBoolean", "FloatingToBoolean"):
            return atom(v) if t.isbool(v) else not_(cmp("==", v, ZERO, ck[0] == "F"))
        if ck in ("PointerToBoolean", "MemberPointerToBoolean"):
            return not_(self.compare("==", v, NULL, False))
        if ck == "IntegralCast":
            v = t._num(v)
            if ty["k"] == "int" and fy["k"] == "int":
                a, b = ty.get("bits", 64), fy.get("bits", 64)
                if a < b:
                    return self.trunc(v, a, ty.get("signed", True))
            return v
        if ck == "IntegralToFloating":
            return self.tofloat(t._num(v), ty)
        if ck == "FloatingToIntegral":
            return self.f2i(v, ty)
        if ck == "FloatingCast":
            return self.tofloat(v, ty) if ty.get("bits", 64) < fy.get("bits", 64) else v
        if ck in ("PointerToIntegral", "IntegralToPointer"):
            return mk("call", ck, v)
        if ck in ("Dynamic", "AtomicToNonAtomic", "NonAtomicToAtomic", "BuiltinFnToFnPtr"):
            return v
        self.unk("cast " + ck, fr, e)
        return v

    def trunc(self, v, bits, signed):
        if is_const(v):
            x = int(const(v)) & ((1 << bits) - 1)
            if signed and x >> (bits - 1):
                x -= 1 << bits
            return num(x)
        if v.op == "trunc" and const(v.args[0]) <= bits:
            return v
        if v.op == "bits" or (v.op == "mod" and is_const(v.args[1]) and const(v.args[1]) <= 2 ** (bits - 1)):
            if v.op == "mod":
                return v
        if v.op == "ite":
            return ite(v.args[0], self.trunc(v.args[1], bits, signed), self.trunc(v.args[2], bits, signed))
        r = mk("trunc", num(bits), mk("sg", signed), v)
        if not signed:
            nonneg(r)
        return r

    def digest_of(self, e):
        def strip(x):
            if isinstance(x, dict):
                return {k: strip(v) for k, v in x.items() if k not in ("l", "le", "t", "id")}
            return [strip(v) for v in x] if isinstance(x, list) else x
        return hashlib.sha1(repr(strip(e)).encode()).hexdigest()

    def ev_InitList(self, e, st, fr):
        ty = self.ty(fr, e["t"])
        vals = [self.ev(x, st, fr) for x in e["e"]]
        if ty["k"] == "arr":
            n = ty.get("n", len(vals))
            if n > 64:
                return mk("table", ty.get("s"), n, self.digest_of(e))
            z = self.zero(fr.tu.types[ty["to"]], fr)
            return mk("list", tuple(vals + [z] * (n - len(vals))))
        if ty["k"] == "rec":
            if ty["q"].startswith("std::initializer_list"):
                return mk("list", tuple(vals))
            r = self.prog.records.get(ty["r"])
            if r:
                fs = [f["n"] for f in r["fields"]]
                return mk("rec", mk("obj"), tuple(sorted(zip(fs, vals))))
            if not vals:
                return mk("zero", ty["s"])
            if ty["q"] in ("std::array",):
                return vals[0]
            return mk("list", tuple(vals))
        if len(vals) == 1:
            return vals[0]
        if not vals:
            return self.zero(ty, fr)
        return mk("list", tuple(vals))

    def ev_Throw(self, e, st, fr):
        if "e" in e and e["e"]:
            ty = self.ty(fr, e["tt"])
            bases = e.get("bases", [])
            name = ty["s"]
        else:
            name, bases = "rethrow", []
        self.throw(st, fr, e, name, tuple(bases))
        return None

    def throw(self, st, fr, node, name, bases, cond=TRUE, why=None):
        """the exception is raised under cond"""
        pc = and_(st.pc, cond)
        if pc is FALSE:
            return
        for h in reversed(self.handlers):
            for i, (types, lst) in enumerate(h):
                if types is None or any(b in types for b in bases):
                    s = st.copy()
                    s.pc = pc
                    lst.append(s)
                    return
        ev = self.event("Throw", st, fr, node, type=mk("str", name), bases=bases, why=why)
        if ev is not None:
            ev.pc = pc

    def ev_New(self, e, st, fr):
        root = ("H", fr.id, self.nid(e))
        at = self.ty(fr, e["at"])
        if e.get("array"):
            n = self.ev(e["size"], st, fr)
            init = e.get("init")
            st.c[(root, ())] = mk("newarr", n)
            t.LEN[mk("newarr", n)] = n
            self.event("New", st, fr, e, size=n, array=True)
            return mk("ptr", ref(root), ZERO)
        self.event("New", st, fr, e, size=ONE, array=False)
        if e.get("init") is not None:
            self.init_into(ref(root), e["init"], at, st, fr)
        return ref(root)

    def ev_Delete(self, e, st, fr):
        v = self.ev(e["e"], st, fr)
        self.event("Delete", st, fr, e, ptr=v, array=bool(e.get("array")))
        return None

    def ev_Lambda(self, e, st, fr):
        cid = (fr.id, self.nid(e))
        caps = {}
        vals = []
        for c in e["caps"]:
            if c.get("this"):
                continue
            if c.get("byref"):
                caps[c["id"]] = fr.env.get(c["id"])
                if caps[c["id"]] is None:
                    caps[c["id"]] = self.var(c["id"], fr, c)
            else:
                src = fr.env.get(c["id"])
                v = self.ev(c["init"], st, fr) if c.get("init") else (self.load(st, src) if src is not None else mk("unknown", c["n"]))
                root = ("L", cid, c["id"])
                st.c[(root, ())] = v
                caps[c["id"]] = ref(root)
        fns = [e["fn"]] if "fn" in e else e.get("fns", [])
        self.closures[cid] = (e, fns, caps, fr.this, fr.tu, fr)
        return mk("closure", cid)

    def ev_UnknownExpr(self, e, st, fr):
        self.unk("expr " + e["cls"], fr, e)
        return mk("unknown", e["cls"], self.where(fr, e))

    def ev_ArrayCopy(self, e, st, fr):
        self.unk("array copy", fr, e)
        return mk("unknown", "ArrayCopy")

    # ------------------------------------------------------------ lvalues
    def var(self, did, fr, e):
        root = ("L", fr.id, did)
        r = ref(root)
        fr.env[did] = r
        return r

    def lv(self, e, st, fr):
        k = e["k"]
        if k == "Ref":
            dk = e.get("dk")
            if dk in ("local", "param", "binding"):
                r = fr.env.get(e["id"])
                f = fr
                while r is None and f.parent is not None and f.fn is None:
                    f = f.parent
                    r = f.env.get(e["id"])
                if r is None:
                    r = self.var(e["id"], fr, e)
                return r
            if dk == "static":
                r = fr.env.get(e["id"])
                return r if r is not None else self.static(e, st, fr)
            if dk == "global":
                return self.glob(e, st, fr)
            if dk == "func":
                return mk("fn", e["f"], e["q"])
            self.unk("ref " + str(dk), fr, e)
            return ref(("X", e.get("n")))
        if k == "Temp":
            x = e["e"]
            if "lv" in x:
                return self.lv(x, st, fr)
            ty = self.ty(fr, x["t"])
            return self.materialise(x, ty, st, fr)
        if k == "Member":
            b = self.ev(e["b"], st, fr) if e.get("arrow") else self.lvx(e["b"], st, fr)
            if e.get("arrow"):
                b = deref(b)
            r = ext(b, e["n"])
            ty = self.ty(fr, e["t"])
            if ty and ty["k"] == "arr" and ty.get("n"):
                v = self.load(st, r)
                if v not in t.LEN and v.op in ("in", "get", "undef", "pointee", "at"):
                    t.LEN[v] = num(ty["n"])
            return self.follow(r, e, st, fr)
        if k == "Sub":
            b = self.ev(e["b"], st, fr)
            i = self.ev(e["i"], st, fr)
            bt = self.ty(fr, e["b"]["t"])
            if bt["k"] != "ptr" and self.ty(fr, e["i"]["t"])["k"] == "ptr":
                b, i = i, b
            self.access(st, fr, e, b, i)
            return deref(padd(b, i))
        if k == "Un":
            if e["op"] == "*":
                return deref(self.ev(e["e"], st, fr))
            if e["op"] in ("++", "--"):
                self.ev(e, st, fr)
                return self.lv(e["e"], st, fr)
        if k == "Bin":
            if e["op"] == "=":
                self.ev(e, st, fr)
                return self.lv(e["a"], st, fr)
            if e["op"] == ",":
                self.ev(e["a"], st, fr)
                return self.lv(e["b"], st, fr)
        if k == "CAssign":
            self.ev(e, st, fr)
            return self.lv(e["a"], st, fr)
        if k == "Cond":
            return self.cond(e, st, fr, self.lvx)
        if k == "Cast":
            if e["ck"] == "Dynamic":
                return deref(self.ev(e["e"], st, fr))
            if e["ck"] == "UserDefinedConversion":
                return self.lvx(e["e"], st, fr)
            return self.lvx(e["e"], st, fr)
        if k in ("MCall", "Call", "ICall"):
            v = self.ev_call(e, st, fr)
            if v is None:
                return ref(("X", "void"))
            if "lv" in e:
                if v.op in ("ref", "ptr", "ite") and self.isrefterm(v):
                    return deref(v) if v.op == "ptr" else v
                return ref(("V", v))
            return self.temp(st, fr, e, v)
        if k == "This":
            return fr.this
        if k == "Str":
            return ref(("V", mk("str", e.get("v", ""))))
        if k == "Throw":
            self.ev(e, st, fr)
            return ref(("X", "throw"))
        if k == "InitList" and len(e["e"]) == 1 and "lv" in e["e"][0]:
            return self.lv(e["e"][0], st, fr)
        self.unk("lvalue " + k, fr, e)
        return self.temp(st, fr, e, self.ev(e, st, fr))

    def isrefterm(self, v):
        if v.op in ("ref", "ptr"):
            return True
        if v.op == "ite":
            return self.isrefterm(v.args[1]) and self.isrefterm(v.args[2])
        return False

    def lvx(self, e, st, fr):
        """location of e, materialising a temporary for a prvalue"""
        if "lv" in e or e["k"] == "Temp":
            return self.lv(e, st, fr)
        return self.materialise(e, self.ty(fr, e["t"]), st, fr)

    def materialise(self, e, ty, st, fr):
        root = ("T", fr.id, self.nid(e), "")
        for kk in [kk for kk in st.c if kk[0] == root]:
            del st.c[kk]
        self.init_into(ref(root), e, ty, st, fr)
        return ref(root)

    def init_into(self, r, e, ty, st, fr):
        """initialise location r of type ty from expression e"""
        x = e
        while x["k"] in ("Temp",) or (x["k"] == "Cast" and x.get("ck") in ("NoOp", "ConstructorConversion") and "lv" not in x):
            x = x["e"]
        if self.isrepo(ty) and x["k"] == "Ctor":
            if (x.get("copy") or x.get("move")) and x.get("elide"):
                return self.init_into(r, x["args"][0], ty, st, fr)
            self.construct(r, x, ty, st, fr)
            return
        if x["k"] == "InitList" and self.isrepo(ty):
            rec = self.prog.records[ty["r"]]
            for f, a in zip(rec["fields"], x["e"]):
                self.init_into(ext(r, f["n"]), a, self.ty(fr, a["t"]), st, fr)
            return
        v = self.ev(e, st, fr)
        if v is not None:
            self.put(st, r, self.coerce(v, ty))

    def access(self, st, fr, node, b, i):
        """an element access through a pointer or container reference"""
        if self.trial:
            return
        self.event("Access", st, fr, node, base=b, key=i)

    def static(self, e, st, fr):
        for g in fr.tu.d["globals"]:
            if g["id"] == e["id"]:
                return self.globvar(g, ("G", "static", g["n"], fr.tu.where(g["l"]).split(":")[0]), st, fr.tu)
        self.unk("static " + e["n"], fr, e)
        return ref(("G", e["n"]))

    def glob(self, e, st, fr):
        for g in fr.tu.d["globals"]:
            if g["id"] == e["id"]:
                g2 = self.prog.globals.get(g["q"])
                tu = fr.tu
                if g2 is not None and "init" not in g:
                    g, tu = g2, g2["tu"]
                return self.globvar(g, ("G", g["q"]), st, tu)
        return ref(("G", e.get("q", e["n"])))

    def globvar(self, g, root, st, tu):
        if (root, ()) not in st.c and root not in self.statics:
            ty = tu.types[g["t"]]
            base = ty
            while base["k"] == "arr":
                base = tu.types[base["to"]]
            big = ty["k"] == "arr" and ty.get("n", 0) > 64
            if "init" in g and (ty.get("const") or g.get("constexpr") or base.get("const")) and not big:
                fr = Frame(None, ("glob", root), tu)
                self.statics[root] = None
                st2 = St({}, TRUE)
                self.trial += 1
                v = self.ev(g["init"], st2, fr)
                self.trial -= 1
                self.statics[root] = v
            else:
                self.statics[root] = None
        v = self.statics.get(root)
        if v is not None:
            return ref(("V", v))
        return ref(root)

    # ------------------------------------------------------------ calls
    def ev_MCall(self, e, st, fr):
        return self.rv(e, self.ev_call(e, st, fr), st)

    ev_Call = ev_MCall

    def ev_ICall(self, e, st, fr):
        return self.rv(e, self.ev_call(e, st, fr), st)

    def rv(self, e, v, st):
        if v is not None and "lv" in e:
            if self.isrefterm(v):
                return self.load(st, v)
        return v

    def ev_Ctor(self, e, st, fr):
        ty = self.ty(fr, e["t"])
        if self.isrepo(ty):
            if (e.get("copy") or e.get("move")):
                return self.ev(e["args"][0], st, fr)
            root = ("T", fr.id, self.nid(e), "c")
            for kk in [kk for kk in st.c if kk[0] == root]:
                del st.c[kk]
            self.construct(ref(root), e, ty, st, fr)
            return self.load(st, ref(root))
        return self.lib.ctor(e, ty, st, fr)

    def construct(self, r, e, ty, st, fr):
        """run constructor e with this = r"""
        fn = self.prog.fns.get(e["f"])
        if fn is None:
            # implicitly defined
            if e.get("copy") or e.get("move"):
                self.put(st, r, self.ev(e["args"][0], st, fr))
                return
            rec = self.prog.records[ty["r"]]
            self.default_fields(r, rec, st, fr)
            return
        args = self.args(fn, e["args"], e["pt"], st, fr)
        self.call_fn(fn, r, args, st, fr, e)

    def default_fields(self, r, rec, st, fr):
        tu = rec["tu"]
        f2 = Frame(None, fr.id, tu, fr)
        f2.this = r
        for f in rec["fields"]:
            if "init" in f:
                self.init_into(ext(r, f["n"]), f["init"], tu.types[f["t"]], st, f2)
            else:
                self.default_init(ext(r, f["n"]), tu.types[f["t"]], tu, st)

    def default_init(self, r, ty, tu, st):
        if ty["k"] in ("int", "float", "bool", "ptr", "arr"):
            st.c.setdefault((r.args[0], r.args[1]), mk("undef", r.args[0][-1] if False else r.args[1]))
            if ty["k"] == "arr":
                u = mk("undef", r.args[1])
                t.LEN[u] = num(ty.get("n", 0))
                self.put(st, r, u)
        elif ty["k"] == "rec":
            v = self.lib.default_value(ty)
            if v is not None:
                self.put(st, r, v)

    def args(self, fn, nodes, pts, st, fr):
        """argument terms: references for reference parameters, values otherwise"""
        out = []
        for i, a in enumerate(nodes):
            pt = self.ty(fr, pts[i]) if i < len(pts) else None
            if pt is not None and self.isref(pt):
                out.append(self.lvx(a, st, fr))
            else:
                ty = pt if pt is not None else self.ty(fr, a["t"])
                if self.isrepo(ty):
                    out.append(self.materialise(a, ty, st, fr))
                else:
                    v = self.ev(a, st, fr)
                    out.append(self.coerce(v, ty) if v is not None else NULL)
        return out

    def ev_call(self, e, st, fr):
        k = e["k"]
        if k == "ICall":
            return self.icall(e, st, fr)
        q = e.get("q", "")
        obj = None
        if k == "MCall":
            r = self.lib.method(e, st, fr)
            if r is not self.lib.NOTMINE:
                return r
            if e["obj"] is None:
                obj = fr.this
            elif e.get("arrow"):
                obj = deref(self.ev(e["obj"], st, fr))
            else:
                ot = self.strip(fr, self.ty(fr, e["obj"]["t"]))
                if ot["k"] == "ptr":
                    obj = deref(self.ev(e["obj"], st, fr))
                else:
                    obj = self.lvx(e["obj"], st, fr)
            v = self.maybe_closure(e, obj, st, fr)
            if v is not self.lib.NOTMINE:
                return v
        else:
            r = self.lib.function(e, st, fr)
            if r is not self.lib.NOTMINE:
                return r
        fn = self.resolve(e, obj, st, fr)
        if fn is not None:
            args = self.args(fn, e["args"], e["pt"], st, fr)
            return self.call_fn(fn, obj, args, st, fr, e)
        return self.extern(e, obj, st, fr)

    def maybe_closure(self, e, obj, st, fr):
        if e.get("name") != "operator()":
            return self.lib.NOTMINE
        v = self.load(st, obj)
        if v.op != "closure":
            return self.lib.NOTMINE
        return self.call_closure(v, e["args"], e["pt"], st, fr, e)

    def icall(self, e, st, fr):
        v = self.ev(e["callee"], st, fr)
        if v is not None and v.op == "ref":
            v = self.load(st, v)
        if v is not None and v.op == "closure":
            cl = self.closures[v.args[0]]
            pts = [p["t"] for p in cl[1][0]["params"]]
            return self.call_closure(v, e["args"], None, st, fr, e)
        if v is not None and v.op == "fn":
            fn = self.prog.fns.get(v.args[0])
            if fn is not None:
                pts = [self.retype(fn.tu, p["t"], fr) for p in fn.d["params"]]
                args = []
                for i, a in enumerate(e["args"]):
                    pt = fn.tu.types[fn.d["params"][i]["t"]]
                    args.append(self.lvx(a, st, fr) if self.isref(pt) else self.ev(a, st, fr))
                return self.call_fn(fn, None, args, st, fr, e)
            return mk("call", v.args[1], *[self.ev(a, st, fr) for a in e["args"]])
        vals = [self.ev(a, st, fr) for a in e["args"]]
        return mk("call", "indirect", v if v is not None else NULL, *[x for x in vals if x is not None])

    def retype(self, tu, i, fr):
        return i

    def call_closure(self, cv, nodes, pts, st, fr, e):
        node, fns, caps, this, tu, dfr = self.closures[cv.args[0]]
        fd = None
        if len(fns) == 1:
            fd = fns[0]
        else:
            for f in fns:
                if f["f"] == e.get("f"):
                    fd = f
        if fd is None:
            self.unk("closure call", fr, e)
            return mk("unknown", "closure")
        args = []
        for i, a in enumerate(nodes):
            pt = tu.types[fd["params"][i]["t"]]
            if self.isref(pt):
                args.append(self.lvx(a, st, fr))
            else:
                args.append(self.ev(a, st, fr))
        return self.run_closure(cv, fd, args, st, fr, e)

    def apply(self, f, argrefs, st, fr, e):
        """call a callable value with lvalue arguments"""
        if f.op == "ref":
            f = self.load(st, f)
        if f.op == "closure":
            node, fns, caps, this, tu, dfr = self.closures[f.args[0]]
            if not fns:
                self.unk("generic closure not instantiated", fr, e)
                return mk("unknown", "closure")
            fd = fns[0]
            args = []
            for p, a in zip(fd["params"], argrefs):
                pt = tu.types[p["t"]]
                args.append(a if self.isref(pt) else self.load(st, a))
            v = self.run_closure(f, fd, args, st, fr, e)
            rt = tu.types[fd["ret"]]
            if v is not None and self.isref(rt) and self.isrefterm(v):
                v = self.load(st, v)
            return v
        if f.op == "fn":
            fn = self.prog.fns.get(f.args[0])
            if fn is not None:
                args = []
                for p, a in zip(fn.d["params"], argrefs):
                    args.append(a if self.isref(fn.tu.types[p["t"]]) else self.load(st, a))
                v = self.call_fn(fn, None, args, st, fr, e)
                if v is not None and self.isref(fn.tu.types[fn.d["ret"]]):
                    v = self.load(st, v)
                return v
            return self.lib.pure(f.args[1], [self.load(st, a) for a in argrefs])
        if f.op == "functor":
            a = [self.load(st, x) for x in argrefs]
            return self.lib.functor(f.args[0], a, f.args[1])
        self.unk("apply " + t.show(f), fr, e)
        return mk("call", "apply", f, *[self.load(st, a) for a in argrefs])

    def run_closure(self, cv, fd, args, st, fr, e):
        node, fns, caps, this, tu, dfr = self.closures[cv.args[0]]
        fid = self.fid(fr, e)
        f2 = Frame(None, fid, tu, dfr)
        f2.depth = fr.depth + 1
        f2.env = dict(dfr.env)
        f2.env.update(caps)
        f2.this = this
        return self.run_body(fd, f2, args, st, fr, e)

    def fid(self, fr, e):
        key = (fr.id, self.nid(e))
        r = self.fids.get(key)
        if r is None:
            r = len(self.fids) + 1
            self.fids[key] = r
        return r

    def resolve(self, e, obj, st, fr):
        fn = self.prog.fns.get(e["f"])
        if fn is None:
            return None
        if e.get("virt") and obj is not None:
            pass
        return fn

    def call_fn(self, fn, obj, args, st, fr, e):
        if fn.q in self.opaque or fn.key in self.kern or fn in self.callstack or fr.depth > self.maxdepth or self.opaque_fn(fn):
            return self.summary(fn, obj, args, st, fr, e)
        self.analysed.add(fn.key)
        f2 = Frame(fn, self.fid(fr, e), fn.tu, fr)
        f2.this = obj
        self.callstack.append(fn)
        ev = self.event("Call", st, fr, e, q=mk("str", fn.q), args=tuple(a for a in args if a is not None), obj=obj if obj is not None else NULL)
        try:
            v = self.run_body(fn.d, f2, args, st, fr, e)
        finally:
            self.callstack.pop()
        if ev is not None and v is not None:
            ev.d["ret"] = v
        return v

    def opaque_fn(self, fn):
        rt = fn.tu.types[fn.d["ret"]]
        return rt["k"] == "rec" and rt["q"] in ("std::basic_string", "std::string")

    def mods(self, fn):
        """what a function may modify through its parameters: {(parameter index or "this", field path)};
        None if it cannot be told apart (everything it can reach is then assumed modified)"""
        cache = self.prog.__dict__.setdefault("_mods", {})
        if fn.key in cache:
            return cache[fn.key]
        cache[fn.key] = cur = frozenset()
        for _ in range(8):
            new = self.mods1(fn)
            if new is None:
                cache[fn.key] = None
                return None
            new |= cur
            if new == cur:
                return cur
            cache[fn.key] = cur = new
        cache[fn.key] = None
        return None

    def mods1(self, fn):
        I = Interp(self.prog, opaque=self.opaque - {fn.q}, prims=self.prims, maxdepth=self.maxdepth)
        try:
            st, _ = I.run(fn)
        except (AnalysisBroken, RecursionError, TypeError, AttributeError, KeyError, IndexError):
            return None
        names = {"p%d" % i: i for i, p in enumerate(fn.d["params"])}
        names["this"] = "this"
        out = set()
        for (root, path), v in st.c.items():
            if root[0] == "I":
                nm = root[1][1:] if root[1].startswith("*") else root[1]
                p = tuple(path[:self.fields(path)])
                if v is I.base(root, p):
                    continue
                if nm not in names:
                    return None
                out.add((names[nm], p))
            elif root[0] == "P":
                x = root[1]
                while x.op == "get":
                    x = x.args[0]
                if x.op == "in" and x.args[0][0] == "I" and x.args[0][1] in names:
                    out.add((names[x.args[0][1]], ("*", root[1]) + tuple(path[:self.fields(path)])))
                else:
                    return None
            elif root[0] == "G":
                return None
        return frozenset(out)

    def isa(self, ty, tu, q):
        return ty is not None and ty.get("k") == "rec" and ty.get("q") == q

    def havoc_mods(self, st, fr, e, ms, fn, args, obj, vals):
        for i, p in sorted(ms, key=str):
            a = obj if i == "this" else args[i]
            if a is None:
                continue
            if a.op == "ptr":
                a = a.args[0]
            if p and p[0] == "*":       # through a pointer held by the argument
                x, fs = p[1], []
                while x.op == "get":
                    fs.append(x.args[1])
                    x = x.args[0]
                m = self.load(st, ext(a, *reversed(fs)))
                if fs and fs[0] == "ref":
                    mm = self.load(st, ext(a, *reversed(fs[1:])))
                    r = mm.args[0] if mm.op == "midx" else mk("ref", ("P", mk("get", mm, "ref")), ())
                else:
                    r = deref(m)
                tgt = ext(r, *p[2:])
                tag = (fn.q, i, "*") + p[2:]
            else:
                tgt = ext(a, *p)
                tag = (fn.q, i) + p
            if tgt.op != "ref":
                self.unk("havoc through alternative references", fr, e)
                continue
            old = self.load(st, tgt)
            new = mk("out", tag, vals)
            self.keepshape(new, old)
            for k in [k for k in st.c if k[0] == tgt.args[0] and k[1][:len(tgt.args[1])] == tgt.args[1] and len(k[1]) > len(tgt.args[1])]:
                del st.c[k]
            self.write(st, fr, e, tgt, new)
            self.event("Havoc", st, fr, e, ref=tgt)

    def summary(self, fn, obj, args, st, fr, e):
        """call of a function kept uninterpreted: results are functions of the argument values"""
        rt = fn.tu.types[fn.d["ret"]]
        if rt["k"] == "rec" and rt["q"] in ("std::basic_string", "std::string"):
            return mk("string")
        vals = []
        outs = []
        for i, (p, a) in enumerate(zip(fn.d["params"], args)):
            pt = fn.tu.types[p["t"]]
            if self.isref(pt):
                to = fn.tu.types[pt["to"]]
                v = self.snap(st, a, True)
                vals.append(v)
                if not to.get("const"):
                    outs.append((i, a, to))
            elif pt["k"] == "ptr":
                vals.append(self.snap(st, a, False))
                if not fn.tu.types[pt["to"]].get("const"):
                    outs.append((i, a, fn.tu.types[pt["to"]]))
            else:
                if self.isrepo(pt):
                    vals.append(self.snap(st, a, True))
                else:
                    vals.append(self.snap(st, a, False) if a is not None else NULL)
        if obj is not None and not fn.d.get("ctor"):    # nothing is there before construction
            vals.append(self.snap(st, obj, True))
        vals = tuple(vals)
        self.event("OpaqueCall", st, fr, e, q=mk("str", fn.q), vals=vals)
        ms = self.mods(fn)
        if ms is not None:
            self.havoc_mods(st, fr, e, ms, fn, args, obj, vals)
            outs = []
        for i, a, ty in outs:
            self.havoc(st, fr, e, a, ty, fn.tu, (fn.q, i), vals)
        if obj is not None and not fn.d.get("const") and ms is None:
            self.havoc(st, fr, e, obj, None, fn.tu, (fn.q, "this"), vals)
        if rt["k"] == "void":
            return None
        r = mk("call", fn.q, *vals)
        if rt["k"] == "bool":
            return atom(r)
        if self.isref(rt):
            return ref(("V", r))
        if rt["k"] == "int" and not rt.get("signed", True):
            nonneg(r)
        return r

    def havoc(self, st, fr, e, a, ty, tu, tag, vals):
        if a.op == "ptr":
            a = a.args[0]
        if a.op == "ite":
            self.unk("havoc through alternative references", fr, e)
            return
        v = self.load(st, a)
        if v.op == "midx":          # a mapped index writes the index it maps
            p = ext(v.args[0], "pos")
            old = self.load(st, p)
            new = mk("out", tag, vals)
            t.IDXV.add(new)
            t.LEN[new] = size_of(old)
            self.write(st, fr, e, p, new)
            return
        if a.op == "ref":
            subs = [k for k in st.c if k[0] == a.args[0] and k[1][:len(a.args[1])] == a.args[1] and len(k[1]) > len(a.args[1])]
            if subs:
                for k in subs:
                    old = st.c[k]
                    if k[1] and k[1][-1] == "S" and old.op != "mu":
                        continue
                    new = mk("out", tag + (k[1],), vals)
                    self.keepshape(new, old)
                    st.c[k] = new
                self.event("Havoc", st, fr, e, ref=a)
                return
        new = mk("out", tag, vals)
        self.keepshape(new, v)
        self.write(st, fr, e, a, new)

    def keepshape(self, new, old):
        if t.is_idx(old):
            t.IDXV.add(new)
            t.LEN[new] = size_of(old)

    def snap(self, st, a, isref):
        """value of an argument with references resolved"""
        if a is None:
            return NULL
        v = self.load(st, a) if isref else a
        return self.resolve_refs(st, v)

    def resolve_refs(self, st, v, depth=0):
        if depth > 6:
            return v
        refs = {}
        for x in t.subterms(v):
            if x.op == "midx":
                r = x.args[0]
                refs[x] = mk("midxv", self.load(st, ext(r, "S")), self.load(st, ext(r, "pos")), x.args[1])
            elif x.op == "view":
                c = x
                while c.op == "view":
                    c = c.args[0]
                refs[x] = c
        if v.op == "ptr":
            return mk("ptrv", self.load(st, v.args[0]), v.args[1])
        if v.op == "ref":
            return mk("refv", self.load(st, v))
        if not refs:
            return v
        return subst(v, refs)

    def extern(self, e, obj, st, fr):
        """function outside the repository without a model"""
        q = e.get("q", "?")
        if "(anonymous class)" in q and re.search(r"::operator .*\(\*\)", q):
            # a closure used as a plain function
            return mk("fnptr", mk("str", q))
        vals, outs = [], []
        if obj is not None:
            vals.append(self.snap(st, obj, True))
        for i, a in enumerate(e["args"]):
            pt = self.ty(fr, e["pt"][i]) if i < len(e["pt"]) else None
            if pt is not None and self.isref(pt) and "lv" in a:
                r = self.lv(a, st, fr)
                vals.append(self.snap(st, r, True))
                if pt["k"] == "ref" and not self.ty(fr, pt["to"]).get("const"):
                    outs.append((i, r))
            else:
                v = self.ev(a, st, fr)
                vals.append(self.snap(st, v, False) if v is not None else NULL)
        self.unk("extern " + q, fr, e)
        vals = tuple(vals)
        self.event("Extern", st, fr, e, q=mk("str", q), vals=vals)
        for i, r in outs:
            self.havoc(st, fr, e, r, None, fr.tu, (q, i), vals)
        if obj is not None and not e.get("cm"):
            old = self.load(st, obj)
            self.put(st, obj, mk("out", (q, "this"), vals))
        ty = self.ty(fr, e["t"])
        if ty["k"] == "void":
            return None
        r = mk("call", q, *vals)
        if ty["k"] == "bool":
            return atom(r)
        if "lv" in e:
            return ref(("V", r))
        return r

    def run_body(self, d, f2, args, st, fr, e):
        f2.retref = self.isref(f2.tu.types[d["ret"]])
        roots = []
        for p, a in zip(d["params"], args):
            pt = f2.tu.types[p["t"]]
            if self.isref(pt):
                f2.env[p["id"]] = a
            else:
                root = ("L", f2.id, p["id"])
                if pt.get("q") in ("Rcpp::Vector", "Rcpp::Matrix"):
                    self.shares.add(root)
                for kk in [kk for kk in st.c if kk[0] == root]:
                    del st.c[kk]
                if self.isrepo(pt):
                    self.copy_obj(st, a, ref(root))
                else:
                    st.c[(root, ())] = a
                f2.env[p["id"]] = ref(root)
        if d.get("ctor"):
            self.ctor_inits(d, f2, st)
        fl = self.exec(d["body"], st.copy(), f2) if d.get("body") else Flow(st.copy())
        rets = list(fl.ret)
        if fl.norm is not None:
            rets.append((fl.norm, None))
        if not rets:
            # never returns
            st.pc = FALSE
            st.c = dict(st.c)
            return None if self.tyk(f2, d["ret"]) == "void" else mk("bottom")
        if any(v is not None for _, v in rets):
            rets = [(s, v) for s, v in rets if v is not None] + [(s, mk("undef", "noreturn")) for s, v in rets if v is None]
        s, v = self.mergeval(rets)
        if s is None:
            st.pc = FALSE
            return None if self.tyk(f2, d["ret"]) == "void" else mk("bottom")
        # throws do not strengthen the path condition
        self.leave(st, s, f2, v, fr, e)
        return v

    def tyk(self, fr, i):
        return fr.tu.types[i]["k"]

    def leave(self, st, s, f2, v, fr, e):
        keep = set()
        dead = [k for k in s.c if k[0][0] in ("L", "T") and k[0][1] == f2.id]
        if v is not None:
            for x in t.subterms(v):
                if x.op == "ref" and x.args[0][0] in ("L", "T") and x.args[0][1] == f2.id:
                    keep.add(x.args[0])
                    self.event("Dangling", s, fr, e, ref=x)
        for k in dead:
            if k[0] not in keep:
                del s.c[k]
        st.c = s.c
        st.pc = s.pc

    def copy_obj(self, st, src, dst):
        if src.op == "ref":
            root, path = src.args
            subs = [k for k in st.c if k[0] == root and k[1][:len(path)] == path]
            if subs:
                for k in subs:
                    st.c[(dst.args[0], dst.args[1] + k[1][len(path):])] = st.c[k]
                return
        self.put(st, dst, self.load(st, src) if self.isrefterm(src) else src)

    def ctor_inits(self, d, fr, st):
        rec = self.prog.records.get(d.get("cls"))
        done = set()
        for i in d.get("inits", []):
            if "field" in i:
                done.add(i["field"])
                r = ext(fr.this, i["field"])
                ft = fr.tu.types[i["ft"]]
                if self.isref(ft):
                    # reference member: the field designates the referenced object
                    self.put(st, r, self.lvx(i["e"], st, fr))
                    continue
                e = i["e"]
                if e is None:
                    continue
                self.init_into(r, e, ft, st, fr)
            elif "base" in i:
                e = i["e"]
                if e["k"] == "Ctor":
                    fn = self.prog.fns.get(e["f"])
                    if fn is not None:
                        args = self.args(fn, e["args"], e["pt"], st, fr)
                        self.call_fn(fn, fr.this, args, st, fr, e)
                    else:
                        bt = fr.tu.types[i["base"]]
                        if bt["q"] in self.prims:
                            self.lib.base_ctor(fr.this, e, bt, st, fr)
                        elif bt["r"] in self.prog.records:
                            self.default_fields(fr.this, self.prog.records[bt["r"]], st, fr)
            elif i.get("deleg"):
                self.construct(fr.this, i["e"], fr.tu.types[i["e"]["t"]], st, fr)
        if rec is not None:
            for f in rec["fields"]:
                if f["n"] not in done and not any(k[0] == fr.this.args[0] and k[1][:len(fr.this.args[1]) + 1] == fr.this.args[1] + (f["n"],) for k in st.c):
                    self.default_init(ext(fr.this, f["n"]), rec["tu"].types[f["t"]], rec["tu"], st)

    # ------------------------------------------------------------ statements
    def exec(self, s, st, fr):
        if s is None:
            return Flow(st)
        if st is None or st.pc is FALSE:
            return Flow(None)
        m = getattr(self, "ex_" + s["k"], None)
        if m is None:
            self.unk("stmt " + s["k"] + " " + str(s.get("cls", "")), fr, s)
            return Flow(st)
        return m(s, st, fr)

    def ex_Null(self, s, st, fr):
        return Flow(st)

    def ex_Expr(self, s, st, fr):
        self.ev(s["e"], st, fr)
        x = s["e"]
        while x["k"] in ("Cast", "Temp"):
            x = x["e"]
        if x["k"] == "Throw":
            return Flow(None)
        if x.get("noret"):
            self.event("NoReturn", st, fr, s, q=mk("str", x.get("q", "")))
            return Flow(None)
        if st.pc is FALSE:
            return Flow(None)
        return Flow(st)

    def ex_Block(self, s, st, fr):
        out = Flow()
        decls = []
        cur = st
        for x in s["b"]:
            if cur is None:
                break
            if x is not None and x["k"] == "Decl":
                decls += [d["id"] for d in x["d"]]
            f = self.exec(x, cur, fr)
            out.take(f)
            cur = f.norm
        out.norm = cur
        if decls:
            for sx in [out.norm] + out.brk + out.cont:
                if sx is not None:
                    self.kill(sx, fr, decls, s)
        return out

    def kill(self, st, fr, decls, node):
        roots = {("L", fr.id, d) for d in decls}
        gone = [k for k in st.c if k[0] in roots]
        for k in gone:
            del st.c[k]
        if self.trial:
            return
        # views that outlive the storage they look at
        for k, v in st.c.items():
            if v.op in ("n", "b"):
                continue
            for x in t.subterms(v):
                if x.op == "view" and x.args[1].op == "ref" and x.args[1].args[0] in roots:
                    e = self.event("Dangling", st, fr, node, ref=x.args[1], cell=mk("str", str(k[1] or k[0][-1])))
                    break

    def ex_Decl(self, s, st, fr):
        for d in s["d"]:
            self.decl(d, st, fr)
            if st.pc is FALSE:
                return Flow(None)
        return Flow(st)

    def decl(self, d, st, fr, init=None):
        ty = fr.tu.types[d["t"]]
        if d.get("static"):
            g = {"id": d["id"], "n": d["n"], "q": d["n"], "t": d["t"], "l": d["l"]}
            if "init" in d:
                g["init"] = d["init"]
            fr.env[d["id"]] = self.globvar(g, ("G", "static", d["n"], fr.tu.where(d["l"]).split(":")[0]), st, fr.tu)
            self.event("Static", st, fr, d, name=mk("str", d["n"]), const=bool(ty.get("const") or d.get("constexpr")))
            return
        root = ("L", fr.id, d["id"])
        for k in [k for k in st.c if k[0] == root]:
            del st.c[k]
        if self.isref(ty):
            if "init" in d:
                r = self.lvx(d["init"], st, fr)
                to = fr.tu.types[ty["to"]] if "to" in ty else {}
                if to.get("q") in ("Rcpp::Vector", "Rcpp::Matrix") and self.handle(d["init"], to, fr):
                    self.shares.add(root)
                if r.op == "ref" and r.args[0][0] == "T":
                    # lifetime extended temporary becomes a local object
                    old = r.args[0]
                    for k in [k for k in st.c if k[0] == old]:
                        st.c[(root, k[1])] = st.c.pop(k)
                    r = mk("ref", root, r.args[1])
                fr.env[d["id"]] = r
                if r.op == "ref" and r.args[0][0] == "T":
                    pass
            for b in d.get("bindings", []):
                self.binding(b, fr.env[d["id"]], st, fr)
            return
        r = ref(root)
        fr.env[d["id"]] = r
        if ty.get("q") in ("Rcpp::Vector", "Rcpp::Matrix") and d.get("init") is not None and self.handle(d["init"], ty, fr):
            self.shares.add(root)
        if "init" in d and d["init"] is not None:
            self.init_into(r, d["init"], ty, st, fr)
        else:
            self.default_init(r, ty, fr.tu, st)
        for b in d.get("bindings", []):
            self.binding(b, r, st, fr)

    def handle(self, x, ty, fr):
        """an R vector initialised from x shares the elements of x"""
        while True:
            if x["k"] in ("Cast", "Temp", "Paren", "Bind") and "e" in x:
                x = x["e"]
            elif x["k"] == "Ctor" and len(x.get("args") or ()) == 1 and self.ty(fr, x["t"]).get("q") in ("Rcpp::Vector", "Rcpp::Matrix"):
                x = x["args"][0]
            else:
                break
        if x["k"] == "Call" and str(x.get("q", "")).startswith("Rcpp::clone"):
            return False
        if "t" in x:
            st_ = self.strip(fr, self.ty(fr, x["t"]))
            if st_.get("q") in ("Rcpp::Vector", "Rcpp::Matrix") and re.sub("const ", "", st_.get("s", "")) != re.sub("const ", "", ty.get("s", "")):
                return False
        return True

    def binding(self, b, r, st, fr):
        """structured binding"""
        n = None
        v = self.load(st, r)
        hv = b.get("hv")
        if hv is not None and "init" in hv:
            x = hv["init"]
            # std::get<N>(pair)
            while x["k"] in ("Cast", "Temp"):
                x = x["e"]
            ta = x.get("ta") or []
            idx = None
            for a in ta:
                if isinstance(a, str) and a.isdigit():
                    idx = int(a)
            if idx is not None:
                fr.env[b["id"]] = ext(r, ("first", "second")[idx] if idx < 2 else "get%d" % idx)
                if hv.get("id") is not None:
                    fr.env[hv["id"]] = fr.env[b["id"]]
                return
        if "e" in b:
            x = b["e"]
            if x["k"] == "Member":
                fr.env[b["id"]] = ext(r, x["n"])
                return
            if x["k"] == "Ref" and hv is not None:
                pass
        self.unk("binding " + b["n"], fr, {"l": None})
        fr.env[b["id"]] = ext(r, b["n"])

    def ex_Return(self, s, st, fr):
        f = Flow()
        v = None
        if s["e"] is not None:
            if fr.retref:
                v = self.lvx(s["e"], st, fr)
            else:
                ty = self.ty(fr, s["e"]["t"])
                x = s["e"]
                if self.isrepo(ty):
                    v = self.ev(x, st, fr)
                else:
                    v = self.ev(x, st, fr)
                    if v is not None:
                        v = self.coerce(v, ty)
        if st.pc is FALSE:
            return f
        f.ret.append((st, v))
        return f

    def ex_Break(self, s, st, fr):
        f = Flow()
        f.brk.append(st)
        return f

    def ex_Continue(self, s, st, fr):
        f = Flow()
        f.cont.append(st)
        return f

    def ex_If(self, s, st, fr):
        if s.get("init"):
            f0 = self.exec(s["init"], st, fr)
            st = f0.norm
        if s.get("cv"):
            self.exec(s["cv"], st, fr)
        c = atom(self.ev(s["c"], st, fr))
        if st.pc is FALSE:
            return Flow(None)
        return self.branch(c, st, lambda x: self.exec(s["then"], x, fr), lambda x: self.exec(s["else"], x, fr))

    def branch(self, c, st, fthen, felse):
        if c is TRUE:
            return fthen(st)
        if c is FALSE:
            return felse(st)
        s1, s2 = st.copy(), st.copy()
        p1, p2 = and_(st.pc, c), and_(st.pc, not_(c))
        s1.pc, s2.pc = p1, p2
        f1, f2 = fthen(s1), felse(s2)
        if p1 is FALSE:
            f1 = Flow(None)
        if p2 is FALSE:
            f2 = Flow(None)
        if f1.dead() and p1 is not FALSE:
            self.assume(or_(not_(st.pc), not_(c)))
            self.relax(f2, p2, st.pc)
        elif f2.dead() and p2 is not FALSE:
            self.assume(or_(not_(st.pc), c))
            self.relax(f1, p1, st.pc)
        out = Flow()
        out.take(f1)
        out.take(f2)
        out.norm = self.merge([f1.norm, f2.norm])
        return out

    def relax(self, f, old, new):
        """the other branch cannot complete: drop the branch condition from path conditions"""
        _, ro, rn = split_pc(old, new)
        extra = conj(ro)

        def fix(s):
            if s is not None:
                c = conj(s.pc)
                s.pc = and_(*((c - extra) | conj(rn)))
        fix(f.norm)
        for s in f.brk + f.cont:
            fix(s)
        for s, v in f.ret:
            fix(s)

    def ex_Switch(self, s, st, fr):
        v = self.ev(s["c"], st, fr)
        body = s["body"]["b"] if s["body"]["k"] == "Block" else [s["body"]]
        # flatten case labels
        labels, items = [], []
        for x in body:
            vals = []
            while x is not None and x["k"] in ("Case", "Default"):
                vals.append(None if x["k"] == "Default" else self.ev(x["v"], st, fr))
                x = x["body"]
            items.append((vals, x))
        allv = [y for vs, _ in items for y in vs if y is not None]
        out = Flow()
        cur = None
        rest = st.copy()
        for vs, x in items:
            if vs:
                cs = []
                for y in vs:
                    if y is None:
                        cs.append(and_(*[not_(cmp("==", v, z, False)) for z in allv]))
                    else:
                        cs.append(cmp("==", v, y, False))
                c = or_(*cs)
                n = st.copy()
                n.pc = and_(st.pc, c)
                cur = self.merge([cur, n]) if n.pc is not FALSE else cur
            if cur is None:
                continue
            f = self.exec(x, cur, fr)
            out.cont += f.cont
            out.ret += f.ret
            out.brk += f.brk
            cur = f.norm
        ends = [cur] + out.brk
        out.brk = []
        if not any(y is None for vs, _ in items for y in vs):
            n = st.copy()
            n.pc = and_(st.pc, *[not_(cmp("==", v, z, False)) for z in allv])
            ends.append(n)
        out.norm = self.merge(ends)
        return out

    def ex_Try(self, s, st, fr):
        hs = []
        for h in s["h"]:
            if "t" in h:
                ty = self.strip(fr, fr.tu.types[h["t"]])
                hs.append(({ty.get("q", ty["s"])}, []))
            else:
                hs.append((None, []))
        self.handlers.append(hs)
        f = self.exec(s["body"], st.copy(), fr)
        self.handlers.pop()
        outs = [f.norm]
        for h, (types, lst) in zip(s["h"], hs):
            m = self.merge(lst)
            if m is None:
                continue
            # the handler runs exactly when one of the throws happened
            if "var" in h:
                fr.env[h["var"]["id"]] = ref(("X", "exception"))
            thrown = m.pc
            pc = st.pc
            f2 = self.exec(h["body"], m, fr)
            for sx in [f.norm] + f.brk + f.cont + [x for x, _ in f.ret]:
                if sx is not None:
                    sx.pc = and_(sx.pc, not_(thrown))
            f.take(f2)
            outs.append(f2.norm)
        f.norm = self.merge(outs)
        return f

    # ------------------------------------------------------------ loops
    def ex_For(self, s, st, fr):
        cur = st
        decls = []
        if s["init"] is not None:
            f = self.exec(s["init"], cur, fr)
            cur = f.norm
            if s["init"]["k"] == "Decl":
                decls = [d["id"] for d in s["init"]["d"]]
        if cur is None:
            return Flow(None)

        def cond(x):
            if s["c"] is None:
                return TRUE
            return atom(self.ev(s["c"], x, fr))

        def inc(x):
            if s["inc"] is not None:
                self.ev(s["inc"], x, fr)
        out = self.loop(cur, fr, s, cond, lambda x: self.exec(s["body"], x, fr), inc, [("L", fr.id, d) for d in decls])
        for sx in [out.norm] + [x for x, _ in out.ret]:
            if sx is not None:
                self.kill(sx, fr, decls, s)
        return out

    def ex_While(self, s, st, fr):
        return self.loop(st, fr, s, lambda x: atom(self.ev(s["c"], x, fr)),
                         lambda x: self.exec(s["body"], x, fr), lambda x: None)

    def ex_Do(self, s, st, fr):
        # when the condition already holds on entry a do loop is a while loop
        probe = st.copy()
        self.trial += 1
        c = atom(self.ev(s["c"], probe, fr))
        same_state = all(probe.c.get(k) is v for k, v in st.c.items())
        self.trial -= 1
        if c is TRUE and same_state:
            return self.ex_While(s, st, fr)
        f = self.exec(s["body"], st, fr)
        out = Flow()
        out.ret += f.ret
        n = self.merge([f.norm] + f.cont)
        ends = list(f.brk)
        if n is not None:
            f2 = self.ex_While(s, n, fr)
            out.ret += f2.ret
            ends.append(f2.norm)
        out.norm = self.merge(ends)
        return out

    def ex_RangeFor(self, s, st, fr):
        if s.get("init"):
            st = self.exec(s["init"], st, fr).norm
        R = self.lvx(s["range"], st, fr)
        rt = self.strip(fr, self.ty(fr, s["range"]["t"]))
        idx = ref(("L", fr.id, ("rf", self.nid(s))))
        self.put(st, idx, ZERO)
        kind = self.lib.range_kind(rt)
        d = s["var"]
        vt = fr.tu.types[d["t"]]

        def n(x):
            v = self.load(x, R)
            if kind == "nd":
                return ssize_of(sizes_of(v))
            if kind == "map":
                return self.lib.mapsize(v)
            if rt["k"] == "arr":
                return num(rt.get("n", 0))
            return size_of(v)

        def cond(x):
            return cmp("<", self.load(x, idx), n(x), False)

        def elem(x):
            k = self.load(x, idx)
            if kind == "nd":
                return ext(R, "#", k)
            if kind == "map":
                return ext(R, mk("nth", k))
            return ext(R, k)

        def body(x):
            r = elem(x)
            if self.isref(vt):
                fr.env[d["id"]] = r
                loc = r
            else:
                root = ("L", fr.id, d["id"])
                for k in [k for k in x.c if k[0] == root]:
                    del x.c[k]
                v = self.load(x, r)
                et = vt
                x.c[(root, ())] = self.convert(v, s.get("vinit"), fr)
                fr.env[d["id"]] = ref(root)
                loc = ref(root)
            for b in d.get("bindings", []):
                self.binding(b, loc, x, fr)
            return self.exec(s["body"], x, fr)

        def inc(x):
            self.put(x, idx, add(self.load(x, idx), ONE))
        out = self.loop(st, fr, s, cond, body, inc, [idx.args[0]])
        for sx in [out.norm] + [x for x, _ in out.ret]:
            if sx is not None:
                sx.c.pop((idx.args[0], ()), None)
                self.kill(sx, fr, [d["id"]], s)
        return out

    def convert(self, v, node, fr):
        """apply the arithmetic conversions of an initialiser to an element value"""
        chain = []
        x = node
        while x is not None and x["k"] in ("Cast", "Temp"):
            if x["k"] == "Cast":
                chain.append(x)
            x = x["e"]
        for c in reversed(chain):
            if c["ck"] == "FloatingToIntegral":
                v = self.f2i(v, self.ty(fr, c["t"]))
            elif c["ck"] == "IntegralCast":
                a, b = self.ty(fr, c["t"]), self.ty(fr, c["e"]["t"])
                if a["k"] == "int" and b["k"] == "int" and a["bits"] < b["bits"]:
                    v = self.trunc(v, a["bits"], a["signed"])
        return v

    def loop(self, st, fr, node, cond, body, inc, dead=()):
        from .loops import Loop
        return Loop(self, st, fr, node, cond, body, inc, dead).run()

    def symloop(self, st, fr, node, n, body):
        """for k in [0, n): body(state, k) -- body returns None or a Flow"""
        idx = ref(("L", fr.id, ("sl", self.nid(node), len(self.callstack))))
        self.put(st, idx, ZERO)

        def b(x):
            f = body(x, self.load(x, idx))
            return f if isinstance(f, Flow) else Flow(x)

        def inc(x):
            self.put(x, idx, add(self.load(x, idx), ONE))
        out = self.loop(st, fr, node, lambda x: cmp("<", self.load(x, idx), n, False), b, inc, [idx.args[0]])
        for sx in [out.norm] + [x for x, _ in out.ret]:
            if sx is not None:
                sx.c.pop((idx.args[0], ()), None)
        if out.norm is not None:
            st.c, st.pc = out.norm.c, out.norm.pc
        else:
            st.pc = FALSE
        return out

    # ------------------------------------------------------------ entry
    def run(self, fn, setup=None, this=None, args=None, st=None):
        """evaluate function fn on symbolic inputs; returns (final state, returned value, frame)"""
        st = st if st is not None else St({}, TRUE)
        fr0 = Frame(None, ("top", fn.key), fn.tu)
        if args is None:
            args = [self.symarg(fn, p, st) for p in fn.d["params"]]
        if this is None and fn.cls and not fn.d.get("static"):
            this = ref(("I", "this"))
        self.callstack.append(fn)
        self.analysed.add(fn.key)
        f2 = Frame(fn, ("f", fn.key), fn.tu, fr0)
        f2.this = this
        v = self.run_body(fn.d, f2, args, st, fr0, fn.d)
        self.callstack.pop()
        if v is not None and f2.retref and self.isrefterm(v):
            v = self.load(st, v)
        return st, v

    def symarg(self, fn, p, st):
        ty = fn.tu.types[p["t"]]
        name = "p%d" % fn.d["params"].index(p)
        if self.isref(ty):
            return ref(("I", name))
        if ty["k"] == "ptr":
            to = fn.tu.types[ty["to"]]
            return mk("ptr", ref(("I", "*" + name)), ZERO) if to["k"] in ("int", "float") else ref(("I", "*" + name))
        v = mk("in", ("I", name))
        if ty["k"] == "bool":
            return atom(v)
        if ty["k"] == "int" and not ty.get("signed", True):
            nonneg(v)
        return v
