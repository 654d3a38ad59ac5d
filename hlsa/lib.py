"""Models of what the analysed code is written on: the standard library, pybind11, Rcpp and -- where their own
contract is checked separately -- the repository's array, index and Sobol classes."""
from . import terms as t
from .terms import (mk, num, ZERO, ONE, TRUE, FALSE, NULL, add, sub, mul, and_, or_, not_, atom, ite, cmp, le0,
                    is_const, const, select, size_of, sizes_of, ssize_of, ssize, cellt, subst, nonneg, binder, exists)

PRIM_CLASSES = {"NDArray", "Index", "TransposedIndex", "MappedIndex", "FixedIndex", "Sobol"}
SEQ = {"std::vector", "std::array", "std::deque", "std::initializer_list", "std::span"}
MAPS = {"std::map", "std::unordered_map"}
SETS = {"std::set", "std::unordered_set"}
ITERS = {"__gnu_cxx::__normal_iterator", "std::reverse_iterator"}

NAN = mk("nan")

MATH = {"fabs", "abs", "sqrt", "log", "exp", "lgamma", "tgamma", "erf", "erfc", "round", "floor", "ceil", "pow", "lround",
        "llround", "trunc", "fmod", "atan", "cbrt", "hypot", "log10", "log2", "log1p", "expm1", "nearbyint", "rint", "fma"}


def mapkey(k):
    return mk("mkey", k)


class Lib:
    NOTMINE = object()

    def __init__(self, I):
        self.I = I

    # ---------------------------------------------------------------- object of a method call
    def obj(self, e, st, fr):
        I = self.I
        if e.get("obj") is None:
            return fr.this
        if e.get("arrow"):
            from .interp import deref
            return deref(I.ev(e["obj"], st, fr))
        ot = I.strip(fr, I.ty(fr, e["obj"]["t"]))
        if ot["k"] == "ptr":
            from .interp import deref
            return deref(I.ev(e["obj"], st, fr))
        x = e["obj"]
        while x["k"] in ("Temp", "Bind", "Paren") or (x["k"] == "Cast" and x.get("ck") == "NoOp"):
            x = x["e"]
        if x["k"] == "MCall" and x.get("name") in ("operator[]", "attr", "operator()") and ot.get("k") == "rec" and \
                ("accessor" in ot.get("q", "") or "proxy" in ot.get("q", "").lower()):
            # an accessor designates the element it was made for
            v = I.ev(x, st, fr)
            if v is not None and v.op in ("ref", "ite"):
                return v
        return I.lvx(e["obj"], st, fr)

    def vals(self, e, st, fr, skip=0):
        return [self.I.ev(a, st, fr) for a in e["args"][skip:]]

    def method(self, e, st, fr):
        I = self.I
        c, n = e.get("clsq") or "", e.get("name")
        if c in I.prims:
            m = getattr(self, "m_" + c, None)
            if m is not None:
                return m(e, n, st, fr)
        if c in SEQ:
            return self.m_seq(e, n, st, fr)
        if c in MAPS or c in SETS:
            return self.m_map(e, n, st, fr, c)
        if c in ITERS:
            return self.m_iter(e, n, st, fr)
        if c in ("std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator"):
            return self.m_mapiter(e, n, st, fr)
        if c.startswith("pybind11::"):
            return self.m_py(e, n, c, st, fr)
        if c.startswith("Rcpp::"):
            return self.m_r(e, n, c, st, fr)
        if c == "std::pair" and n == "operator=":
            return self.assign(e, st, fr)
        if c == "std::pair" and n == "swap":
            return self.swap(e, st, fr)
        if c in ("std::basic_string", "std::basic_ostream", "std::basic_stringstream", "std::basic_ostringstream"):
            if n in ("operator<<",):
                return self.obj(e, st, fr)
            for a in e["args"]:
                pass
            return mk("string") if c == "std::basic_string" else mk("stream")
        if c == "std::numeric_limits":
            return self.limits(e, n, st, fr)
        if n == "operator=" and c in I.prims:
            return self.assign(e, st, fr)
        if n == "operator=" and (e.get("cm") is None or True) and e.get("f") not in I.prog.fns and len(e["args"]) == 1 and c:
            return self.assign(e, st, fr)
        if c == "std::unique_ptr":
            return self.m_unique(e, n, st, fr)
        return self.NOTMINE

    def m_unique(self, e, n, st, fr):
        o = self.obj(e, st, fr)
        from .interp import deref
        if n in ("operator*", "operator->", "get"):
            v = self.I.load(st, o)
            return deref(v) if n == "operator*" else v
        if n == "reset":
            v = self.I.ev(e["args"][0], st, fr) if e["args"] else NULL
            self.I.write(st, fr, e, o, v)
            return None
        if n == "operator bool":
            return not_(self.I.compare("==", self.I.load(st, o), NULL, False))
        return self.NOTMINE

    def assign(self, e, st, fr):
        I = self.I
        o = self.obj(e, st, fr)
        a = e["args"][0]
        v = I.snap(st, I.lvx(a, st, fr), True) if "lv" in a else I.ev(a, st, fr)
        if "lv" in a:
            v = I.load(st, I.lvx(a, st, fr))
        I.write(st, fr, e, o, v)
        return o

    def swap(self, e, st, fr):
        I = self.I
        a, b = self.obj(e, st, fr), I.lvx(e["args"][0], st, fr)
        self.doswap(e, a, b, st, fr)
        return None

    def doswap(self, e, a, b, st, fr):
        I = self.I
        va, vb = I.load(st, a), I.load(st, b)
        I.write(st, fr, e, a, vb)
        I.write(st, fr, e, b, va)

    # ---------------------------------------------------------------- sequences
    def m_seq(self, e, n, st, fr):
        from .interp import ext
        I = self.I
        o = self.obj(e, st, fr)
        ptr = lambda k: mk("ptr", o, k)
        if n in ("operator[]", "at"):
            k = I.ev(e["args"][0], st, fr)
            if n == "at":
                I.throw(st, fr, e, "std::out_of_range", ("std::out_of_range", "std::logic_error", "std::exception"),
                        not_(cmp("<", k, size_of(I.load(st, o)), False)), why="at")
            I.access(st, fr, e, o, k)
            return ext(o, k)
        v = I.load(st, o) if n not in ("begin", "cbegin", "data", "clear", "reserve", "assign", "operator=") else None
        if n == "size":
            return size_of(v)
        if n == "empty":
            return cmp("==", size_of(v), ZERO, False)
        if n in ("begin", "cbegin", "data"):
            return ptr(ZERO)
        if n in ("end", "cend"):
            return ptr(size_of(v))
        if n in ("rbegin", "crbegin"):
            return mk("rptr", o, sub(size_of(v), ONE))
        if n in ("rend", "crend"):
            return mk("rptr", o, num(-1))
        if n == "front":
            return ext(o, ZERO)
        if n == "back":
            I.access(st, fr, e, o, sub(size_of(v), ONE))
            return ext(o, sub(size_of(v), ONE))
        if n in ("push_back", "emplace_back"):
            if len(e["args"]) == 1:
                x = self.elem(e["args"][0], st, fr)
            elif not e["args"]:
                x = self.defelem(e, fr)
            else:
                x = None
            if x is None:
                x = self.emplace(e, st, fr)
            v = I.load(st, o)
            nv = mk("app", v, x)
            if v.op == "list" and len(v.args[0]) < 32 and not I.trial_generic(v):
                nv = mk("list", v.args[0] + (x,))
            I.write(st, fr, e, o, nv)
            return ext(o, size_of(v)) if n == "emplace_back" else None
        if n == "pop_back":
            I.write(st, fr, e, o, self.popped(v))
            return None
        if n in ("reserve", "shrink_to_fit"):
            self.vals(e, st, fr)
            return None
        if n == "clear":
            I.write(st, fr, e, o, mk("list", ()))
            return None
        if n == "resize":
            a = self.vals(e, st, fr)
            d = a[1] if len(a) > 1 else self.defelem(e, fr)
            size = size_of(v)
            if size is ZERO:
                nv = mk("vec", a[0], d)
            elif size is a[0]:
                nv = v
            else:
                nv = mk("vresize", v, a[0], d)
                t.LEN[nv] = a[0]
            I.write(st, fr, e, o, nv)
            return None
        if n == "assign":
            if len(e["args"]) == 2:
                a = self.vals(e, st, fr)
                if a[0].op in ("ptr", "ref", "mapit"):
                    nv = self.range_value(a[0], a[1], st)
                else:
                    nv = mk("vec", a[0], a[1])
            else:
                nv = I.ev(e["args"][0], st, fr)
            I.write(st, fr, e, o, nv)
            return None
        if n == "operator=":
            return self.assign(e, st, fr)
        if n == "swap":
            return self.swap(e, st, fr)
        if n == "fill":
            x = I.ev(e["args"][0], st, fr)
            I.write(st, fr, e, o, mk("vec", size_of(v), x))
            return None
        if n in ("insert", "emplace", "erase"):
            a = self.vals(e, st, fr)
            if n == "insert" and a[0].op == "ptr" and a[0].args[1] is size_of(v) and len(a) == 3:
                from .loops import concat
                I.write(st, fr, e, o, concat(v, self.range_value(a[1], a[2], st)))
                return a[0]
            I.unk("vector::" + n, fr, e)
            I.write(st, fr, e, o, mk("call", "vector::" + n, v, *a))
            return a[0]
        if n in ("capacity", "max_size"):
            return nonneg(mk("call", n, v))
        return self.NOTMINE

    def elem(self, a, st, fr):
        """element value from an argument of push_back and the like"""
        I = self.I
        ty = I.strip(fr, I.ty(fr, a["t"]))
        r = I.lvx(a, st, fr)
        v = I.load(st, r)
        return v

    def popped(self, v):
        if v.op == "app":
            return v.args[0]
        if v.op == "list" and v.args[0]:
            return mk("list", v.args[0][:-1])
        if v.op == "ite":
            return ite(v.args[0], self.popped(v.args[1]), self.popped(v.args[2]))
        nv = mk("sub", v, ZERO, sub(size_of(v), ONE))
        return nv

    def defelem(self, e, fr):
        """value of a value-initialised element of the container type of a member call"""
        I = self.I
        ot = I.strip(fr, I.ty(fr, e["obj"]["t"])) if e.get("obj") else None
        if ot is not None and ot["k"] == "ptr":
            ot = fr.tu.types[ot["to"]]
        return self.deftype(self.elemtype(ot, fr), fr)

    def elemtype(self, ty, fr):
        if ty is None or not ty.get("args"):
            return None
        a = ty["args"][0]
        return fr.tu.types[a] if isinstance(a, int) else None

    def deftype(self, ty, fr):
        if ty is None:
            return mk("zero", "?")
        if ty["k"] == "rec":
            v = self.default_value(ty)
            if v is not None:
                return v
            if ty["q"] == "std::pair":
                a = [fr.tu.types[x] for x in ty["args"][:2]]
                return mk("pair", self.deftype(a[0], fr), self.deftype(a[1], fr))
            return mk("zero", ty["s"])
        return self.I.zero(ty, fr)

    def emplace(self, e, st, fr):
        I = self.I
        ot = I.strip(fr, I.ty(fr, e["obj"]["t"])) if e.get("obj") else None
        et = self.elemtype(ot, fr)
        a = []
        for x in e["args"]:
            a.append(I.load(st, I.lvx(x, st, fr)) if "lv" in x else I.ev(x, st, fr))
        if et is not None and et["k"] == "rec":
            if et["q"] == "std::pair" and len(a) == 2:
                return mk("pair", *a)
            if et["q"] == "MappedIndex" and "MappedIndex" in I.prims and len(a) == 2:
                return self.mapped(I.lvx(e["args"][0], st, fr), a[1])
            if et["q"] == "NDArray" and "NDArray" in I.prims and len(a) == 1:
                return self.newarray(a[0], e, st, fr)
            if et["q"] == "std::vector":
                return self.vec_from(a, None)
        if not a:
            return self.deftype(et, fr)
        I.unk("emplace", fr, e)
        return mk("call", "emplace", *a)

    def vec_from(self, a, et):
        if len(a) == 1:
            return mk("vec", a[0], ZERO)
        return mk("vec", a[0], a[1])

    def range_value(self, b, e, st):
        """sequence of the elements in [b, e)"""
        I = self.I
        if b.op == "ref":
            b = mk("ptr", b, ZERO)
        if e.op == "ref":
            e = mk("ptr", e, ZERO)
        if b.op == "ptr" and e.op == "ptr" and b.args[0] is e.args[0]:
            c = I.load(st, b.args[0])
            n = sub(e.args[1], b.args[1])
            return self.subseq(c, b.args[1], n)
        return mk("call", "range", b, e)

    def subseq(self, c, off, n):
        if off is ZERO and n is size_of(c):
            return c
        if n is ZERO:
            return mk("list", ())
        if off is ZERO and c.op == "flatseq" and n is ssize(c.args[0]):
            return c
        if c.op == "vec":
            return mk("vec", n, c.args[1])
        return mk("sub", c, off, n)

    # ---------------------------------------------------------------- maps
    def mapsize(self, v):
        if v.op == "mapempty":
            return ZERO
        return t.length(v)

    def has(self, m, k):
        if m.op == "mapempty":
            return FALSE
        if m.op == "mput":
            b, k2, v = m.args
            if k2 is k:
                return TRUE
            if t.distinct(k2, k):
                return self.has(b, k)
        if m.op == "ite":
            return ite(m.args[0], self.has(m.args[1], k), self.has(m.args[2], k))
        return mk("has", m, k)

    def mput(self, m, k, v):
        return t.store(m, mapkey(k), v)

    def m_map(self, e, n, st, fr, c):
        from .interp import ext
        I = self.I
        o = self.obj(e, st, fr)
        isset = c in SETS
        m = I.load(st, o)
        if n == "operator[]":
            k = self.elem(e["args"][0], st, fr)
            h = self.has(m, k)
            if h is not TRUE:
                # default element is created when absent
                ty = I.strip(fr, I.ty(fr, e["obj"]["t"]))
                d = self.deftype(fr.tu.types[ty["args"][1]] if ty.get("args") and len(ty["args"]) > 1 else None, fr)
                I.put(st, o, ite(h, m, self.mput(m, k, d)))
            return ext(o, mapkey(k))
        if n == "at":
            k = self.elem(e["args"][0], st, fr)
            I.throw(st, fr, e, "std::out_of_range", ("std::out_of_range", "std::logic_error", "std::exception"),
                    not_(self.has(m, k)), why="at")
            return ext(o, mapkey(k))
        if n in ("find", "count", "contains"):
            k = self.elem(e["args"][0], st, fr)
            h = self.has(m, k)
            if n == "find":
                return mk("mapit", o, k, h)
            return h if n == "contains" else ite(h, ONE, ZERO)
        if n in ("end", "cend"):
            return mk("mapend")
        if n in ("begin", "cbegin"):
            return mk("mapnth", o, ZERO)
        if n == "size":
            return self.mapsize(m)
        if n == "empty":
            return cmp("==", self.mapsize(m), ZERO, False)
        if n == "clear":
            I.write(st, fr, e, o, mk("mapempty"))
            return None
        if n in ("insert", "emplace", "try_emplace", "insert_or_assign"):
            if isset:
                k, v = self.elem(e["args"][0], st, fr), ONE
            elif len(e["args"]) == 1:
                p = self.elem(e["args"][0], st, fr)
                k, v = t.get(p, "first"), t.get(p, "second")
            else:
                k, v = self.elem(e["args"][0], st, fr), self.elem(e["args"][1], st, fr)
            m = I.load(st, o)
            h = self.has(m, k)
            if n == "insert_or_assign":
                h2 = FALSE
            else:
                h2 = h
            I.write(st, fr, e, o, ite(h2, m, self.mput(m, k, v)))
            return mk("pair", mk("mapit", o, k, TRUE), not_(h))
        if n == "erase":
            k = self.elem(e["args"][0], st, fr)
            I.write(st, fr, e, o, mk("mapdel", m, k))
            return None
        if n == "operator=":
            return self.assign(e, st, fr)
        return self.NOTMINE

    def m_mapiter(self, e, n, st, fr):
        from .interp import ext
        I = self.I
        o = self.obj(e, st, fr)
        v = I.load(st, o)
        if n in ("operator*", "operator->"):
            if v.op == "mapit":
                I.event("MapDeref", st, fr, e, has=v.args[2])
                # the element as a pair whose second component is the stored value
                return mk("ref", ("M", v.args[0], v.args[1]), ()) if False else self.melem(v)
            if v.op == "mapnth":
                return ext(v.args[0], mk("nth", v.args[1]))
        if n in ("operator++", "operator--"):
            if v.op == "mapnth":
                nv = mk("mapnth", v.args[0], add(v.args[1], ONE))
                I.write(st, fr, e, o, nv)
                return o if not e["args"] else v
        if n == "operator=":
            return self.assign(e, st, fr)
        return self.NOTMINE

    def melem(self, v):
        # (key, reference to the stored value); field steps select
        return mk("ref", ("V", mk("mpair", v.args[0], v.args[1])), ())

    def m_iter(self, e, n, st, fr):
        from .interp import deref, padd, psub, ext
        I = self.I
        o = self.obj(e, st, fr)
        v = I.load(st, o)
        if n in ("operator*", "operator->"):
            return deref(v)
        if n == "operator[]":
            return deref(padd(v, I.ev(e["args"][0], st, fr)))
        if n in ("operator++", "operator--"):
            nv = padd(v, ONE if n == "operator++" else num(-1))
            I.write(st, fr, e, o, nv)
            return v if e["args"] else o
        if n in ("operator+", "operator-"):
            x = I.ev(e["args"][0], st, fr)
            if x.op == "ptr":
                return psub(v, x)
            return padd(v, x if n == "operator+" else t.neg(x))
        if n in ("operator+=", "operator-="):
            x = I.ev(e["args"][0], st, fr)
            I.write(st, fr, e, o, padd(v, x if n == "operator+=" else t.neg(x)))
            return o
        if n == "operator=":
            return self.assign(e, st, fr)
        if n == "base":
            return v
        return self.NOTMINE

    # ---------------------------------------------------------------- arrays and indices
    def newarray(self, S, e, st, fr):
        self.badsizes(S, e, st, fr)
        return mk("resized", NULL, t.rep(S))

    def badsizes(self, S, e, st, fr):
        if self.goodsizes(S):
            return
        self.I.throw(st, fr, e, "std::runtime_error", ("std::runtime_error", "std::exception"), mk("atom", mk("badsizes", t.rep(S))),
                     why=mk("badsizes", t.rep(S)))

    def goodsizes(self, S):
        S = t.rep(S)
        if S.op == "sizes" or S in GOOD:
            return True
        if S.op == "fam":          # sizes of some of the dimensions of an array
            n, body, bv = S.args[0].args[0], S.args[1], S.args[2]
            if body.op == "at" and self.goodsizes(body.args[0]):
                return n in GOOD or False
        if S.op == "ite":
            return self.goodsizes(S.args[1]) and self.goodsizes(S.args[2])
        if S.op == "freesizes":
            return False
        return False

    def m_NDArray(self, e, n, st, fr):
        from .interp import ext
        I = self.I
        if n == "copy":
            src, dst = I.lvx(e["args"][0], st, fr), I.lvx(e["args"][1], st, fr)
            v = self.plain(I.load(st, src))
            I.write(st, fr, e, dst, v)
            return None
        o = self.obj(e, st, fr)
        if n == "operator[]":
            k = self.index(e["args"][0], st, fr)
            I.access(st, fr, e, o, k)
            return ext(o, k)
        if n == "operator=":
            return self.assign(e, st, fr)
        if n in ("rawData", "begin"):
            return mk("ptr", ext(o, "#"), ZERO)
        v = I.load(st, o)
        S = sizes_of(v)
        if n == "end":
            return mk("ptr", ext(o, "#"), ssize_of(S))
        if n == "storageSize":
            return ssize_of(S)
        if n == "sizes":
            return mk("ref", ("V", S), ())
        if n == "dim":
            return size_of(S)
        if n == "size":
            return select(S, I.ev(e["args"][0], st, fr))
        if n == "assign":
            x = I.ev(e["args"][0], st, fr)
            I.write(st, fr, e, o, mk("filled", mk("resized", NULL, S), x))
            return None
        if n == "resize":
            S2 = self.elem(e["args"][0], st, fr)
            self.badsizes(S2, e, st, fr)
            nv = mk("resized", NULL, t.rep(S2))
            I.write(st, fr, e, o, nv)
            return None
        if n == "release":
            I.event("Release", st, fr, e, ref=o)
            return None
        return self.NOTMINE

    def plain(self, v):
        """contents of a view"""
        while v.op == "view":
            v = v.args[0]
        return v

    def index(self, a, st, fr):
        """index vector designated by an argument of NDArray::operator[]"""
        I = self.I
        x = a
        v = I.load(st, I.lvx(x, st, fr)) if "lv" in x or x["k"] in ("Temp",) else I.ev(x, st, fr)
        return self.key(v, st)

    def key(self, v, st):
        from .interp import ext
        if v.op == "midxp":       # pointers into an index
            r, dims = v.args
            pos = self.I.load(st, ext(r, "pos"))
            return projt(pos, dims)
        if v.op == "rec" and v.args[0].op == "obj":
            d = dict(v.args[1])
            if "pos" in d:
                return d["pos"]
            if "m" in d:
                m = d["m"]
                return projt(self.I.load(st, ext(m.args[0], "pos")), m.args[1])
        if v.op == "freep":
            return v.args[0]
        t.IDXV.add(v) if v.op in ("in", "get", "call", "out") else None
        return v

    def newindex(self, r, S, st, kind="cell"):
        I = self.I
        S = t.rep(S)
        for k in [k for k in st.c if k[0] == r.args[0] and k[1][:len(r.args[1])] == r.args[1]]:
            del st.c[k]
        p = mk("cell", S, ZERO) if kind == "cell" else mk("tcell", S, ZERO)
        st.c[(r.args[0], r.args[1] + ("pos",))] = p
        st.c[(r.args[0], r.args[1] + ("S",))] = S

    def endof(self, pos, S):
        return t.endt(pos)

    def m_Index(self, e, n, st, fr):
        from .interp import ext
        I = self.I
        o = self.obj(e, st, fr)
        P, SS = ext(o, "pos"), ext(o, "S")
        if n == "operator[]":
            k = I.ev(e["args"][0], st, fr)
            I.access(st, fr, e, P, k)
            return ext(P, k)
        pos, S = I.load(st, P), I.load(st, SS)
        if n == "operator++":
            I.write(st, fr, e, P, self.succ(e, pos, S, o))
            return P
        if n == "end":
            return self.endof(pos, S)
        if n == "sizes":
            return mk("ref", ("V", S), ())
        if n == "size":
            return size_of(S)
        if n == "reset":
            I.write(st, fr, e, P, mk("cell", t.rep(S), ZERO))
            return None
        if n.startswith("operator "):
            return P
        return self.NOTMINE

    m_TransposedIndex = m_Index

    def succ(self, e, pos, S, o):
        col = e.get("clsq") == "TransposedIndex"
        S = t.rep(S)
        if pos.op == "cell" and not col and t.same(pos.args[0], S):
            return cellt(S, add(pos.args[1], ONE))
        if pos.op == "tcell" and col and t.same(pos.args[0], S):
            return mk("tcell", S, add(pos.args[1], ONE))
        if pos.op == "cell" and col and pos.args[1] is ZERO:
            return mk("tcell", S, ONE)
        r = mk("succ", mk("kind", "col" if col else "row") if False else ("col" if col else "row"), pos, S)
        t.IDXV.add(r)
        t.LEN[r] = size_of(S)
        return r

    def mapped(self, r, dims):
        from .interp import ext
        return mk("rec", mk("obj"), (("m", mk("midx", r, dims)), ("n", ZERO)))

    def m_MappedIndex(self, e, n, st, fr):
        from .interp import ext
        from .loops import mcell
        I = self.I
        o = self.obj(e, st, fr)
        m = I.load(st, ext(o, "m"))
        if m.op == "ite":
            I.unk("alternative mapped indices", fr, e)
        if m.op != "midx":
            mm = mk("midx", mk("ref", ("P", mk("get", m, "ref")), ()), t.get(m, "dims"))
            m = mm
        r, dims = m.args
        P = ext(r, "pos")
        if n == "operator[]":
            k = I.ev(e["args"][0], st, fr)
            return ext(P, select(dims, k))
        if n.startswith("operator const"):
            return mk("ref", ("V", mk("midxp", r, dims)), ())
        cnt = I.load(st, ext(o, "n"))
        S = I.load(st, ext(r, "S"))
        PS = t.projsizes(S, dims)
        if n == "end":
            if cnt is ZERO:
                return FALSE
            return le0(sub(ssize_of(PS), cnt))
        if n == "operator++":
            pos = I.load(st, P)
            if pos.op == "mcell" and pos.args[1] is dims and pos.args[2].op == "cell" and pos.args[2].args[0] is PS:
                nv = mcell(pos.args[0], dims, S, add(pos.args[2].args[1], ONE))
            else:
                nv = mk("succ", "map", pos, S, dims)
                t.IDXV.add(nv)
                t.LEN[nv] = size_of(S)
            I.write(st, fr, e, P, nv)
            I.write(st, fr, e, ext(o, "n"), add(cnt, ONE))
            return o
        return self.NOTMINE

    def m_FixedIndex(self, e, n, st, fr):
        from .interp import ext
        I = self.I
        o = self.obj(e, st, fr)
        S, F, cnt = I.load(st, ext(o, "S")), I.load(st, ext(o, "F")), I.load(st, ext(o, "n"))
        FS = mk("freesizes", t.rep(S), F)
        if n == "sizes":
            return mk("ref", ("V", FS), ())
        if n == "end":
            return FALSE if cnt is ZERO else le0(sub(ssize_of(FS), cnt))
        if n == "operator++":
            I.write(st, fr, e, ext(o, "n"), add(cnt, ONE))
            return o
        free = cellt(FS, cnt)
        if n == "free":
            return mk("ref", ("V", mk("freep", free)), ())
        if n == "operator[]":
            return mk("ref", ("V", select(free, I.ev(e["args"][0], st, fr))), ())
        if n.startswith("operator const"):
            v = mk("rec", mk("obj"), (("S", t.rep(S)), ("pos", mk("fcell", t.rep(S), F, free))))
            return mk("ref", ("V", v), ())
        return self.NOTMINE

    def m_Sobol(self, e, n, st, fr):
        from .interp import ext
        I = self.I
        o = self.obj(e, st, fr)
        s = I.load(st, ext(o, "s"))
        d = I.load(st, ext(o, "d"))
        if n == "buf":
            nx = mk("sobnext", s)
            I.throw(st, fr, e, "std::out_of_range", ("std::out_of_range", "std::logic_error", "std::exception"),
                    mk("atom", mk("sobdone", s)), why="sobdone")
            I.write(st, fr, e, ext(o, "s"), nx)
            v = mk("sobval", nx)
            t.LEN[v] = d
            return mk("ref", ("V", v), ())
        if n == "operator()":
            I.write(st, fr, e, ext(o, "s"), mk("sobnext1", s))
            return nonneg(mk("sobval1", s))
        if n == "skip":
            k = I.ev(e["args"][0], st, fr)
            I.write(st, fr, e, ext(o, "s"), mk("sobskip", s, k))
            return None
        if n == "reset":
            k = I.ev(e["args"][0], st, fr) if e["args"] else ZERO
            ns = mk("sob", d)
            I.write(st, fr, e, ext(o, "s"), ns if k is ZERO else ite(cmp(">", k, ZERO, False), mk("sobskip", ns, k), ns))
            return None
        if n == "dim":
            return d
        if n == "min":
            return ZERO
        if n == "max":
            return num(2 ** 32 - 1)
        return self.NOTMINE

    # ---------------------------------------------------------------- free functions
    def function(self, e, st, fr):
        I = self.I
        q = e.get("q", "")
        n = e.get("name") or q.split("::")[-1]
        if e.get("f") in I.prog.fns:
            g = I.prog.fns[e["f"]]
            if g.clsq == "NDArray" and "NDArray" in I.prims and n == "copy" and len(e["args"]) == 2:
                src, dst = I.lvx(e["args"][0], st, fr), I.lvx(e["args"][1], st, fr)
                v = self.plain(I.load(st, src))
                I.write(st, fr, e, dst, v)
                return None
            if q.startswith("operator%") or n == "operator%":
                return mk("string")
            return self.NOTMINE
        if n.startswith("operator"):
            return self.operator(e, n, st, fr)
        if q.startswith("std::numeric_limits"):
            return self.limits(e, n, st, fr)
        if n in MATH and (q.startswith("std::") or "::" not in q or q.startswith("__")):
            a = self.vals(e, st, fr)
            return self.pure(n, a)
        if n in ("isnan", "__builtin_isnan", "__isnan"):
            return t.isnan(I.ev(e["args"][0], st, fr))
        if n in ("isfinite", "__builtin_isfinite"):
            return t.isfin(I.ev(e["args"][0], st, fr))
        if n in ("isinf",):
            v = I.ev(e["args"][0], st, fr)
            return and_(not_(t.isfin(v)), not_(t.isnan(v)))
        if q in ("std::countr_zero", "std::countr_one"):
            v = I.ev(e["args"][0], st, fr)
            return nonneg(mk("call", "ctz", v if n == "countr_zero" else mk("bnot", v)))
        if q.startswith("std::") or q.startswith("__gnu_cxx::"):
            m = getattr(self, "f_" + n, None)
            if m is not None:
                return m(e, st, fr)
        if q.startswith("pybind11::"):
            return self.f_py(e, q, n, st, fr)
        if q.startswith("Rcpp::"):
            return self.f_r(e, q, n, st, fr)
        if n in ("malloc", "calloc"):
            a = self.vals(e, st, fr)
            root = ("H", fr.id, I.nid(e))
            size = a[0] if n == "malloc" else mul(a[0], a[1])
            I.event("Malloc", st, fr, e, size=size)
            v = mk("mem", "malloc", size)
            if n == "calloc":
                v = binder("upd", [t.nonneg(t.fresh())], v, t._num(a[0]), ZERO, ZERO) if a[0] is not ONE else mk("mem", n, *a)
            st.c[(root, ())] = v
            return mk("ptr", mk("ref", root, ()), ZERO) if False else mk("ref", root, ())
        if n == "free":
            v = I.ev(e["args"][0], st, fr)
            I.event("Free", st, fr, e, ptr=v)
            return None
        if n in ("__builtin_ctz", "__builtin_ctzl", "__builtin_ctzll", "__builtin_ctzg"):
            return nonneg(mk("call", "ctz", I.ev(e["args"][0], st, fr)))
        return self.NOTMINE

    def pure(self, n, a):
        n = n.split("::")[-1]
        a = [t._num(x) for x in a]
        if n in ("fabs", "abs", "llabs", "labs"):
            if a[0].op in ("nan",):
                return a[0]
            return t.fabs(a[0])
        if a and all(x.op == "nan" for x in a):
            return a[0]
        if n == "pow" and is_const(a[1]) and const(a[1]) == 2:
            return mul(a[0], a[0])
        if n == "sqrt" and is_const(a[0]) and const(a[0]) >= 0:
            import math
            c = const(a[0])
            r = (math.isqrt(c.numerator), math.isqrt(c.denominator))
            if r[0] ** 2 == c.numerator and r[1] ** 2 == c.denominator:
                from fractions import Fraction
                return num(Fraction(*r))
        if n in ("lround", "llround"):
            return mk("f2i", num(64), mk("call", "round", a[0]))
        r = mk("call", n, *a)
        if n in ("sqrt", "exp"):
            nonneg(r)
        return r

    def functor(self, name, a, ty):
        I = self.I
        fl = ty is not None and ty.get("k") == "float"
        op = {"std::multiplies": "*", "std::plus": "+", "std::minus": "-", "std::divides": "/", "std::modulus": "%"}.get(name)
        if op:
            return I.arith(op, a[0], a[1], {"k": "float" if fl else "int"})
        op = {"std::less": "<", "std::greater": ">", "std::less_equal": "<=", "std::greater_equal": ">=",
              "std::equal_to": "==", "std::not_equal_to": "!="}.get(name)
        if op:
            return cmp(op, a[0], a[1], fl)
        if name == "std::negate":
            return t.neg(a[0])
        return mk("call", name, *a)

    def operator(self, e, n, st, fr):
        from .interp import padd, psub
        I = self.I
        q = e.get("q", "")
        if n == 'operator""s' or n == 'operator""sv':
            return mk("string")
        if n == 'operator""_a':
            v = I.ev(e["args"][0], st, fr)
            return mk("argname", v)
        if n == "operator<<" or n == "operator>>":
            for a in e["args"]:
                pass
            return mk("stream")
        if n in ("operator+", "operator%") and self.isstring(e, fr):
            return mk("string")
        if n in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>=", "operator-", "operator+"):
            a = [I.load(st, I.lvx(x, st, fr)) if "lv" in x or x["k"] == "Temp" else I.ev(x, st, fr) for x in e["args"]]
            if len(a) == 2:
                x, y = a
                if self.isstring(e, fr) and n in ("operator==", "operator!="):
                    r = TRUE if x is y else mk("atom", mk("streq", x, y))
                    return r if n == "operator==" else not_(r)
                if x.op in ("ptr", "ref", "rptr") or y.op in ("ptr", "ref", "rptr"):
                    if n == "operator-":
                        return psub(x, y)
                    if n == "operator+":
                        return padd(x, y) if x.op == "ptr" else padd(y, x)
                    return I.compare(n[8:], x, y, False)
                if x.op in ("mapit", "mapend", "mapnth") or y.op in ("mapit", "mapend", "mapnth"):
                    return self.cmp_mapit(n[8:], x, y, st)
                if n in ("operator==", "operator!="):
                    r = self.seqeq(x, y, self.isfloatseq(e, fr))
                    return r if n == "operator==" else not_(r)
            return mk("call", q, *a)
        return self.NOTMINE

    def isstring(self, e, fr):
        for a in e["args"]:
            ty = self.I.strip(fr, self.I.ty(fr, a["t"]))
            if ty["k"] == "rec" and ty["q"] in ("std::basic_string", "std::string", "std::basic_string_view"):
                return True
        return False

    def isfloatseq(self, e, fr):
        ty = self.I.strip(fr, self.I.ty(fr, e["args"][0]["t"]))
        et = self.elemtype(ty, fr) if ty["k"] == "rec" else None
        return et is not None and et["k"] == "float"

    def seqeq(self, x, y, fl):
        """two sequences have the same length and elements"""
        nx, ny = size_of(x), size_of(y)
        k = t.fresh()
        nonneg(k)
        return and_(cmp("==", nx, ny, False),
                    t.forall(mk("range", nx), k, cmp("==", select(x, k), select(y, k), fl)))

    def cmp_mapit(self, op, x, y, st):
        if x.op == "mapnth" or y.op == "mapnth":
            if y.op == "mapnth":
                x, y = y, x
            n = self.mapsize(self.I.load(st, x.args[0]))
            if y.op == "mapend":
                r = cmp(">=", x.args[1], n, False)
                return r if op == "==" else not_(r)
            return mk("atom", mk("ptreq", x, y))
        return cmp(op, x, y, False)

    def limits(self, e, n, st, fr):
        I = self.I
        ty = I.ty(fr, e["t"])
        if n in ("max", "min", "lowest"):
            if ty["k"] == "int":
                b, s = ty["bits"], ty["signed"]
                hi = 2 ** (b - 1) - 1 if s else 2 ** b - 1
                return num(hi if n == "max" else (-(2 ** (b - 1)) if s else 0))
            c = {"max": "dblmax", "lowest": "dblmax", "min": "dblmin"}[n]
            x = nonneg(mk("dbl", c))
            return t.neg(x) if n == "lowest" else x
        if n == "quiet_NaN" or n == "signaling_NaN":
            return NAN
        if n == "infinity":
            return mk("inf")
        if n == "epsilon":
            from fractions import Fraction
            return num(Fraction(1, 2 ** 52))
        return self.NOTMINE

    # ---------------------------------------------------------------- algorithms
    def f_move(self, e, st, fr):
        I = self.I
        if len(e["args"]) == 1:
            return I.lvx(e["args"][0], st, fr)
        return self.f_copy(e, st, fr)

    f_forward = f_move

    def f_as_const(self, e, st, fr):
        return self.I.lvx(e["args"][0], st, fr)

    def f_addressof(self, e, st, fr):
        from .interp import addrof
        return addrof(self.I.lvx(e["args"][0], st, fr))

    def f_swap(self, e, st, fr):
        I = self.I
        a, b = I.lvx(e["args"][0], st, fr), I.lvx(e["args"][1], st, fr)
        self.doswap(e, a, b, st, fr)
        return None

    def f_exchange(self, e, st, fr):
        I = self.I
        a = I.lvx(e["args"][0], st, fr)
        v = I.ev(e["args"][1], st, fr)
        old = I.load(st, a)
        I.write(st, fr, e, a, v)
        return old

    def f_make_pair(self, e, st, fr):
        a = [self.elem(x, st, fr) for x in e["args"]]
        return mk("pair", a[0], a[1])

    def f_get(self, e, st, fr):
        from .interp import ext
        I = self.I
        ta = [a for a in (e.get("ta") or []) if isinstance(a, str) and a.isdigit()]
        r = I.lvx(e["args"][0], st, fr)
        if ta:
            i = int(ta[0])
            return ext(r, ("first", "second")[i] if i < 2 else "get%d" % i)
        return self.NOTMINE

    def f_to_string(self, e, st, fr):
        return mk("string")

    def f_min(self, e, st, fr):
        return self.minmax(e, st, fr, False)

    def f_max(self, e, st, fr):
        return self.minmax(e, st, fr, True)

    def minmax(self, e, st, fr, mx):
        I = self.I
        if len(e["args"]) == 1:
            v = I.ev(e["args"][0], st, fr)
            if v.op == "list" and v.args[0]:
                r = v.args[0][0]
                fl = True
                for x in v.args[0][1:]:
                    r = ite(cmp("<", r, x, fl), x, r) if mx else ite(cmp("<", x, r, fl), x, r)
                return r
            return self.NOTMINE
        if len(e["args"]) != 2:
            return self.NOTMINE
        ty = I.strip(fr, I.ty(fr, e["args"][0]["t"]))
        fl = ty["k"] == "float"
        a, b = [I.load(st, I.lvx(x, st, fr)) for x in e["args"]]
        # min(a, b) is b < a ? b : a ; max(a, b) is a < b ? b : a
        return ite(cmp("<", a, b, fl), b, a) if mx else ite(cmp("<", b, a, fl), b, a)

    def f_clamp(self, e, st, fr):
        I = self.I
        ty = I.strip(fr, I.ty(fr, e["args"][0]["t"]))
        fl = ty["k"] == "float"
        v, lo, hi = [I.load(st, I.lvx(x, st, fr)) for x in e["args"]]
        return ite(cmp("<", v, lo, fl), lo, ite(cmp("<", hi, v, fl), hi, v))

    def two(self, e, st, fr):
        """range [first, last) -> (base reference, offset, count)"""
        I = self.I
        b, x = I.ev(e["args"][0], st, fr), I.ev(e["args"][1], st, fr)
        return self.rng(b, x)

    def rng(self, b, x):
        if b.op == "ref":
            b = mk("ptr", b, ZERO)
        if x.op == "ref":
            x = mk("ptr", x, ZERO)
        if b.op == "ptr" and x.op == "ptr":
            if b.args[0] is x.args[0]:
                return b.args[0], b.args[1], sub(x.args[1], b.args[1])
        return None

    def elemref(self, r, off, k):
        from .interp import ext
        return ext(r, add(off, k))

    def callable_type(self, e, fr):
        return self.I.ty(fr, e["t"])

    def fnval(self, a, st, fr):
        return self.I.ev(a, st, fr)

    def tmpref(self, v):
        return mk("ref", ("V", v), ())

    def f_accumulate(self, e, st, fr):
        I = self.I
        R = self.two(e, st, fr)
        init = I.ev(e["args"][2], st, fr)
        f = self.fnval(e["args"][3], st, fr) if len(e["args"]) > 3 else None
        ty = I.ty(fr, e["t"])
        if R is None:
            I.unk("accumulate range", fr, e)
            return mk("call", "accumulate", init)
        r, off, n = R
        acc = mk("ref", ("L", fr.id, ("acc", I.nid(e))), ())
        I.put(st, acc, I.coerce(t._num(init) if t.isbool(init) else init, ty))
        c = I.load(st, r)
        et = self.rangetype(e["args"][0], fr)

        def body(x, k):
            v = I.load(x, self.elemref(r, off, k))
            a = I.load(x, acc)
            if f is None:
                nv = add(a, v)
            else:
                nv = I.apply(f, [self.tmpref(a), self.tmpref(v)], x, fr, e)
            I.put(x, acc, self.narrowed(nv, ty, et))
            return None
        I.symloop(st, fr, e, n, body)
        v = I.load(st, acc)
        st.c.pop((acc.args[0], ()), None)
        return v

    f_reduce = f_accumulate

    def rangetype(self, a, fr):
        """type of the elements an iterator or a pointer leads to"""
        ty = self.I.strip(fr, self.I.ty(fr, a["t"]))
        if ty["k"] == "ptr":
            return self.I.strip(fr, fr.tu.types[ty["to"]])
        if ty["k"] == "rec" and ty.get("args"):
            x = ty["args"][0]
            if isinstance(x, int):
                y = fr.tu.types[x]
                if y["k"] == "ptr":
                    y = fr.tu.types[y["to"]]
                return self.I.strip(fr, y)
        return None

    def rangefloat(self, a, fr):
        y = self.rangetype(a, fr)
        return y is not None and y["k"] == "float"

    def narrowed(self, v, ty, et):
        """what a variable of type ty keeps of a result computed with elements of type et"""
        if ty["k"] == "int" and et is not None:
            if et["k"] == "float":
                return self.I.f2i(v, ty)
            if et["k"] == "int" and et.get("bits", 64) > ty.get("bits", 64):
                return self.I.trunc(v, ty.get("bits", 64), ty.get("signed", True))
        return self.I.tofloat(v, ty)

    def f_inner_product(self, e, st, fr):
        I = self.I
        R = self.two(e, st, fr)
        b = I.ev(e["args"][2], st, fr)
        init = I.ev(e["args"][3], st, fr)
        if R is None or b.op not in ("ptr", "ref") or len(e["args"]) > 4:
            return self.NOTMINE
        b = b if b.op == "ptr" else mk("ptr", b, ZERO)
        ty = I.ty(fr, e["t"])
        et, eb = self.rangetype(e["args"][0], fr), self.rangetype(e["args"][2], fr)
        wide = eb if et is None or eb is not None and eb["k"] == "float" else et
        probe = mk("call", "probe")
        if self.narrowed(probe, ty, wide) is not probe:
            acc = mk("ref", ("L", fr.id, ("acc", I.nid(e))), ())
            I.put(st, acc, init)

            def body(s, k):
                x = mul(I.load(s, self.elemref(R[0], R[1], k)), I.load(s, self.elemref(b.args[0], b.args[1], k)))
                I.put(s, acc, self.narrowed(add(I.load(s, acc), x), ty, wide))
                return None
            I.symloop(st, fr, e, R[2], body)
            v = I.load(st, acc)
            st.c.pop((acc.args[0], ()), None)
            return v
        k = t.fresh()
        nonneg(k)
        x = mul(I.load(st, self.elemref(R[0], R[1], k)), I.load(st, self.elemref(b.args[0], b.args[1], k)))
        from .loops import nn
        return add(init, t.ksum(nn(R[2]), k, x))

    def f_copy(self, e, st, fr):
        return self.xcopy(e, st, fr, None)

    def f_copy_n(self, e, st, fr):
        I = self.I
        b = I.ev(e["args"][0], st, fr)
        n = I.ev(e["args"][1], st, fr)
        d = I.ev(e["args"][2], st, fr)
        b = b if b.op == "ptr" else mk("ptr", b, ZERO)
        return self.docopy(e, (b.args[0], b.args[1], n), d, st, fr, None)

    def f_transform(self, e, st, fr):
        I = self.I
        if len(e["args"]) == 4:
            return self.xcopy(e, st, fr, self.fnval(e["args"][3], st, fr))
        R = self.two(e, st, fr)
        b = I.ev(e["args"][2], st, fr)
        d = I.ev(e["args"][3], st, fr)
        f = self.fnval(e["args"][4], st, fr)
        b = b if b.op == "ptr" else mk("ptr", b, ZERO)
        return self.docopy(e, R, d, st, fr, f, b)

    def xcopy(self, e, st, fr, f):
        I = self.I
        R = self.two(e, st, fr)
        d = I.ev(e["args"][2], st, fr)
        return self.docopy(e, R, d, st, fr, f)

    def docopy(self, e, R, d, st, fr, f, second=None):
        from .interp import padd
        I = self.I
        if d.op == "ref":
            d = mk("ptr", d, ZERO)
        if R is None:
            I.unk("copy range", fr, e)
            return d
        r, off, n = R
        if d.op == "backins":
            c = d.args[0]

            def body(x, k):
                v = self.copyval(e, r, off, k, f, second, x, fr)
                I.put(x, c, mk("app", I.load(x, c), v))
            I.symloop(st, fr, e, n, body)
            return d
        if d.op != "ptr":
            I.unk("copy destination", fr, e)
            return d

        def body(x, k):
            v = self.copyval(e, r, off, k, f, second, x, fr)
            I.write(x, fr, e, self.elemref(d.args[0], d.args[1], k), v)
        I.event("CopyTo", st, fr, e, dst=d, n=n, src=mk("ptr", r, off), cap=size_of(I.load(st, d.args[0])))
        I.symloop(st, fr, e, n, body)
        return padd(d, n)

    def copyval(self, e, r, off, k, f, second, x, fr):
        I = self.I
        src = self.elemref(r, off, k)
        if f is None:
            return I.load(x, src)
        args = [src]
        if second is not None:
            args.append(self.elemref(second.args[0], second.args[1], k))
        return I.apply(f, args, x, fr, e)

    def f_back_inserter(self, e, st, fr):
        return mk("backins", self.I.lvx(e["args"][0], st, fr))

    def f_fill(self, e, st, fr):
        I = self.I
        R = self.two(e, st, fr)
        v = self.elem(e["args"][2], st, fr)
        if R is None:
            I.unk("fill range", fr, e)
            return None
        r, off, n = R
        I.symloop(st, fr, e, n, lambda x, k: I.write(x, fr, e, self.elemref(r, off, k), v))
        return None

    def f_fill_n(self, e, st, fr):
        I = self.I
        b, n = I.ev(e["args"][0], st, fr), I.ev(e["args"][1], st, fr)
        v = self.elem(e["args"][2], st, fr)
        b = b if b.op == "ptr" else mk("ptr", b, ZERO)
        I.symloop(st, fr, e, n, lambda x, k: I.write(x, fr, e, self.elemref(b.args[0], b.args[1], k), v))
        return None

    def f_iota(self, e, st, fr):
        I = self.I
        r, off, n = self.two(e, st, fr)
        v = I.ev(e["args"][2], st, fr)
        I.symloop(st, fr, e, n, lambda x, k: I.write(x, fr, e, self.elemref(r, off, k), add(v, k)))
        return None

    def f_for_each(self, e, st, fr):
        I = self.I
        r, off, n = self.two(e, st, fr)
        f = self.fnval(e["args"][2], st, fr)

        def body(x, k):
            I.apply(f, [self.elemref(r, off, k)], x, fr, e)
        I.symloop(st, fr, e, n, body)
        return f

    def search(self, e, st, fr, pred):
        """first k in the range with pred(ref_k), as (base, offset, count, formula over fresh k, k)"""
        I = self.I
        R = self.two(e, st, fr)
        if R is None:
            I.unk("search range", fr, e)
            return None
        r, off, n = R
        k = t.fresh()
        nonneg(k)
        f = atom(pred(self.elemref(r, off, k)))
        from .loops import nn
        return r, off, nn(n), f, k

    def f_find(self, e, st, fr):
        return self.finder(e, st, fr, self.eqpred(e, st, fr))

    def eqpred(self, e, st, fr):
        I = self.I
        v = self.elem(e["args"][2], st, fr)
        fl = self.rangefloat(e["args"][0], fr)
        return lambda r: cmp("==", I.load(st, r), v, fl)

    def fpred(self, e, st, fr, neg=False):
        I = self.I
        f = self.fnval(e["args"][2], st, fr)

        def p(r):
            I.trial += 0
            v = atom(I.apply(f, [r], st, fr, e))
            return not_(v) if neg else v
        return p

    def finder(self, e, st, fr, pred):
        s = self.search(e, st, fr, pred)
        if s is None:
            self.I.unk("range of a search", fr, e)
            return mk("call", "find")
        r, off, n, f, k = s
        if f is FALSE:
            return mk("ptr", r, add(off, n))
        return mk("ptr", r, add(off, binder("first", [k], n, f)))

    def f_find_if(self, e, st, fr):
        return self.finder(e, st, fr, self.fpred(e, st, fr))

    def f_find_if_not(self, e, st, fr):
        return self.finder(e, st, fr, self.fpred(e, st, fr, True))

    def quant(self, e, st, fr, pred):
        s = self.search(e, st, fr, pred)
        if s is None:
            self.I.unk("range of a search", fr, e)
            return mk("atom", mk("call", "quant"))
        r, off, n, f, k = s
        return exists(mk("range", n), k, f)

    def f_any_of(self, e, st, fr):
        return self.quant(e, st, fr, self.fpred(e, st, fr))

    def f_none_of(self, e, st, fr):
        return not_(self.quant(e, st, fr, self.fpred(e, st, fr)))

    def f_all_of(self, e, st, fr):
        return not_(self.quant(e, st, fr, self.fpred(e, st, fr, True)))

    def f_count(self, e, st, fr):
        return self.counter(e, st, fr, self.eqpred(e, st, fr))

    def f_count_if(self, e, st, fr):
        return self.counter(e, st, fr, self.fpred(e, st, fr))

    def counter(self, e, st, fr, pred):
        s = self.search(e, st, fr, pred)
        if s is None:
            self.I.unk("range of a search", fr, e)
            return mk("call", "count")
        r, off, n, f, k = s
        return nonneg(t.ksum(n, k, ite(f, ONE, ZERO)))

    def f_equal(self, e, st, fr):
        """with or without an end of the second range, with or without a predicate"""
        I = self.I
        R = self.two(e, st, fr)
        b = I.ev(e["args"][2], st, fr)
        R2, pred = None, None
        for x in e["args"][3:]:
            if "lambda" in str(I.ty(fr, x["t"]).get("s")) or x is e["args"][-1] and len(e["args"]) == 5 or I.ty(fr, x["t"])["k"] == "fn":
                pred = self.fnval(x, st, fr)
            else:
                R2 = self.rng(b if b.op == "ptr" else mk("ptr", b, ZERO), I.ev(x, st, fr))
        if R is None or (len(e["args"]) > 3 and R2 is None and pred is None):
            I.unk("std::equal", fr, e)
            return mk("atom", mk("call", "equal", b))
        r, off, n = R
        b = b if b.op == "ptr" else mk("ptr", b, ZERO)
        fl = self.rangefloat(e["args"][0], fr)
        k = t.fresh()
        nonneg(k)
        from .loops import nn
        x, y = self.elemref(r, off, k), self.elemref(b.args[0], b.args[1], k)
        f = cmp("==", I.load(st, x), I.load(st, y), fl) if pred is None else atom(I.apply(pred, [x, y], st, fr, e))
        f = t.forall(mk("range", nn(n)), k, f)
        return f if R2 is None else and_(cmp("==", n, R2[2], False), f)

    def f_max_element(self, e, st, fr):
        return self.opt(e, st, fr, True)

    def f_min_element(self, e, st, fr):
        return self.opt(e, st, fr, False)

    def opt(self, e, st, fr, mx):
        I = self.I
        R = self.two(e, st, fr)
        if R is None:
            return self.NOTMINE
        r, off, n = R
        fl = self.rangefloat(e["args"][0], fr)
        best = mk("ref", ("L", fr.id, ("best", I.nid(e))), ())
        I.put(st, best, ZERO)
        cust = self.fnval(e["args"][2], st, fr) if len(e["args"]) > 2 else None

        def body(x, k):
            b = I.load(x, best)
            rb, rk = self.elemref(r, off, b), self.elemref(r, off, k)
            vb, vk = I.load(x, rb), I.load(x, rk)
            if cust is not None:
                c = atom(I.apply(cust, [rb, rk] if mx else [rk, rb], x, fr, e))
            else:
                c = cmp("<", vb, vk, fl) if mx else cmp("<", vk, vb, fl)
            I.put(x, best, ite(c, k, b))
        I.symloop(st, fr, e, n, body)
        b = I.load(st, best)
        st.c.pop((best.args[0], ()), None)
        return mk("ptr", r, add(off, b))

    def f_distance(self, e, st, fr):
        from .interp import psub
        I = self.I
        a, b = I.ev(e["args"][0], st, fr), I.ev(e["args"][1], st, fr)
        a = a if a.op != "ref" else mk("ptr", a, ZERO)
        b = b if b.op != "ref" else mk("ptr", b, ZERO)
        return psub(b, a)

    def f_next(self, e, st, fr):
        from .interp import padd
        a = self.vals(e, st, fr)
        return padd(a[0], a[1] if len(a) > 1 else ONE)

    def f_prev(self, e, st, fr):
        from .interp import padd
        a = self.vals(e, st, fr)
        return padd(a[0], t.neg(a[1] if len(a) > 1 else ONE))

    def f_advance(self, e, st, fr):
        from .interp import padd
        I = self.I
        r = I.lvx(e["args"][0], st, fr)
        I.write(st, fr, e, r, padd(I.load(st, r), I.ev(e["args"][1], st, fr)))
        return None

    def f_begin(self, e, st, fr):
        return mk("ptr", self.I.lvx(e["args"][0], st, fr), ZERO)

    def f_end(self, e, st, fr):
        r = self.I.lvx(e["args"][0], st, fr)
        return mk("ptr", r, size_of(self.I.load(st, r)))

    f_cbegin, f_cend = f_begin, f_end

    def f_size(self, e, st, fr):
        r = self.I.lvx(e["args"][0], st, fr)
        return size_of(self.I.load(st, r))

    def f_signbit(self, e, st, fr):
        return mk("atom", mk("call", "signbit", self.I.ev(e["args"][0], st, fr)))

    def f_sort(self, e, st, fr):
        I = self.I
        R = self.two(e, st, fr)
        v = I.load(st, R[0])
        nv = mk("sorted", v, R[1], R[2])
        I.write(st, fr, e, R[0], nv)
        return None

    def f_call_once(self, e, st, fr):
        return None

    # ---------------------------------------------------------------- construction
    def default_value(self, ty):
        q = ty.get("q")
        if q == "std::vector" or q in ("std::deque",):
            return mk("list", ())
        if q in MAPS or q in SETS:
            return mk("mapempty")
        if q in ("std::basic_string",):
            return mk("string")
        if q == "NDArray" and "NDArray" in self.I.prims:
            return mk("resized", NULL, mk("list", ()))
        if q == "std::unique_ptr":
            return NULL
        return None

    def range_kind(self, ty):
        q = ty.get("q")
        if q == "NDArray":
            return "nd"
        if q in MAPS or q in SETS:
            return "map"
        return "seq"

    def iscopy(self, e):
        return e.get("copy") or e.get("move")

    def ctor(self, e, ty, st, fr):
        I = self.I
        q = ty.get("q", "")
        a = e["args"]
        if self.iscopy(e) and a:
            x = a[0]
            if not ("lv" in x or x["k"] == "Temp"):
                return I.ev(x, st, fr)
            lv = I.lvx(x, st, fr)
            v = I.load(st, lv)
            if e.get("move") and x["k"] != "Temp" and q == "std::vector":
                I.write(st, fr, e, lv, mk("list", ()))      # what is moved from is left empty
            return v
        if q in I.prims:
            return self.prim_ctor(e, q, ty, st, fr)
        # trailing allocators and comparators do not matter
        a = [x for x in a if not self.isalloc(x, fr)]
        if q in SEQ:
            et = self.elemtype(ty, fr)
            if not a:
                return mk("list", ())
            v = [I.load(st, I.lvx(x, st, fr)) if "lv" in x or x["k"] == "Temp" else I.ev(x, st, fr) for x in a]
            if len(v) == 1:
                if e.get("stdlist") or v[0].op in ("list",) or I.strip(fr, I.ty(fr, a[0]["t"])).get("q") == "std::initializer_list":
                    return v[0]
                ak = I.strip(fr, I.ty(fr, a[0]["t"]))
                if ak["k"] in ("int", "bool", "float"):
                    return mk("vec", v[0], self.deftype(et, fr))
                return v[0]
            if v[0].op in ("ptr", "ref"):
                return self.range_value(v[0], v[1], st)
            return mk("vec", v[0], v[1])
        if q in MAPS or q in SETS:
            if not a:
                return mk("mapempty")
            v = I.ev(a[0], st, fr)
            if v.op == "list":
                m = mk("mapempty")
                for p in v.args[0]:
                    m = self.mput(m, t.get(p, "first"), t.get(p, "second"))
                return m
            return v
        if q == "std::pair":
            if not a:
                return self.deftype(ty, fr)
            v = [I.load(st, I.lvx(x, st, fr)) if "lv" in x or x["k"] == "Temp" else I.ev(x, st, fr) for x in a]
            if len(v) == 1:
                return v[0]
            return mk("pair", v[0], v[1])
        if q.startswith("std::multiplies") or q in ("std::plus", "std::minus", "std::less", "std::greater", "std::equal_to",
                                                     "std::not_equal_to", "std::divides", "std::negate", "std::less_equal", "std::greater_equal"):
            et = self.elemtype(ty, fr)
            return FUNCTOR(q, et)
        if q in ("std::basic_string", "std::basic_string_view"):
            if len(a) >= 1 and a[0]["k"] in ("Str",):
                return mk("str", a[0].get("v", ""))
            v = [I.ev(x, st, fr) for x in a[:1]]
            if v and v[0] is not None and v[0].op == "str":
                return v[0]
            return mk("string")
        if q in ITERS:
            return I.ev(a[0], st, fr) if a else NULL
        if q in ("std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator"):
            return I.ev(a[0], st, fr) if a else NULL
        if q.startswith("pybind11::"):
            return self.c_py(e, ty, q, a, st, fr)
        if q.startswith("Rcpp::"):
            return self.c_r(e, ty, q, a, st, fr)
        if q.startswith("std::allocator"):
            return mk("alloc")
        if q == "std::unique_ptr":
            return I.ev(a[0], st, fr) if a else NULL
        if q == "std::function":
            return I.ev(a[0], st, fr)
        if q.startswith("std::") and (q.endswith("_error") or q in ("std::exception", "std::bad_alloc", "std::out_of_range",
                                                                    "std::invalid_argument")):
            return mk("exception")
        v = []
        for x in a:
            y = I.ev(x, st, fr)
            if y is not None:
                v.append(y)
        I.unk("ctor " + q, fr, e)
        return mk("call", "ctor " + q, *v)

    def isalloc(self, x, fr):
        ty = self.I.strip(fr, self.I.ty(fr, x["t"]))
        return ty["k"] == "rec" and ty["q"] == "std::allocator"

    def prim_ctor(self, e, q, ty, st, fr):
        I = self.I
        a = e["args"]
        root = ("T", fr.id, I.nid(e), "p")
        r = mk("ref", root, ())
        for k in [k for k in st.c if k[0] == root]:
            del st.c[k]
        if q == "NDArray":
            if not a:
                return mk("resized", NULL, mk("list", ()))
            S = self.elem(a[0], st, fr)
            if len(a) == 1:
                return self.newarray(S, e, st, fr)
            p = I.ev(a[1], st, fr)
            self.badsizes(S, e, st, fr)
            return self.viewof(S, p, e, st, fr)
        if q in ("Index", "TransposedIndex"):
            S = self.elem(a[0], st, fr)
            kind = "cell" if q == "Index" else "tcell"
            return mk("rec", mk("obj"), (("S", t.rep(S)), ("pos", mk(kind, t.rep(S), ZERO))))
        if q == "MappedIndex":
            idx = I.lvx(a[0], st, fr)
            dims = self.elem(a[1], st, fr)
            return self.mapped(idx, dims)
        if q == "FixedIndex":
            S, F = self.elem(a[0], st, fr), self.elem(a[1], st, fr)
            return mk("rec", mk("obj"), (("F", F), ("S", t.rep(S)), ("n", ZERO)))
        if q == "Sobol":
            d = I.ev(a[0], st, fr)
            k = I.ev(a[1], st, fr) if len(a) > 1 else ZERO
            I.throw(st, fr, e, "std::range_error", ("std::range_error", "std::runtime_error", "std::exception"),
                    or_(cmp("<", d, ONE, False), cmp(">", d, num(1111), False)), why="sobdim")
            s = mk("sob", d)
            return mk("rec", mk("obj"), (("d", d), ("s", ite(cmp(">", k, ZERO, False), mk("sobskip", s, k), s))))
        I.unk("prim ctor " + q, fr, e)
        return mk("call", "ctor " + q)

    def viewof(self, S, p, e, st, fr):
        """array looking at storage it does not own"""
        I = self.I
        S = t.rep(S)
        if p.op == "ref":
            p = mk("ptr", p, ZERO)
        I.event("View", st, fr, e, ptr=p, sizes=S)
        if p.op != "ptr":
            v = mk("call", "storage", p)
            t.SIZES[v] = S
            return mk("view", v, p)
        c = I.load(st, p.args[0])
        if c.op == "flatseq" and p.args[1] is ZERO and sizes_of(c.args[0]) is S:
            return mk("view", self.plain(c.args[0]), p.args[0])
        iv = t.fresh()
        t.IDXV.add(iv)
        t.LEN[iv] = size_of(S)
        body = select(c, add(p.args[1], t.post(S, iv)))
        return mk("view", t.ndfam(S, body, iv), p.args[0])

    def base_ctor(self, this, e, bt, st, fr):
        v = self.ctor(e, bt, st, fr)
        self.I.put(st, this, v)

    # ---------------------------------------------------------------- pybind11
    def pyshape(self, v):
        return t.get(v, "shape")

    def bufname(self, e, v, fr):
        """storage of an array: row-major contents only if the type guarantees a C-contiguous array"""
        if t.get(v, "buf").op != "get":
            return "buf"
        x = e.get("obj") or {}
        while x.get("k") in ("Cast", "Paren", "Temp") and "e" in x:
            x = x["e"]
        I = self.I
        ty = I.strip(fr, I.ty(fr, x["t"])) if "t" in x else None
        if ty and "array_t<" in ty.get("s", ""):
            import re
            m = re.search(r"array_t<[^<>]*?,\s*(\d+)>", ty["s"])
            if m and int(m.group(1)) & 1:
                return "buf"
        return "rawbuf"

    def m_py(self, e, n, c, st, fr):
        from .interp import ext, addrof
        I = self.I
        o = self.obj(e, st, fr)
        short = c.split("::")[-1]
        if n in ("request",):
            v = I.load(st, o)
            S = self.pyshape(v)
            return mk("rec", mk("bufinfo", v), (("itemsize", mk("call", "itemsize", v)), ("ndim", size_of(S)),
                                                ("ptr", mk("ptr", ext(o, self.bufname(e, v, fr)), ZERO)), ("shape", S), ("size", ssize_of(S))))
        if short == "arg" and n == "operator=":
            return mk("kw", I.load(st, o), self.elem(e["args"][0], st, fr))
        if short in ("array_t", "array", "buffer", "array_proxy"):
            v = I.load(st, o)
            S = self.pyshape(v)
            buf = self.bufname(e, v, fr)
            if n == "ndim":
                return size_of(S)
            if n == "size":
                return ssize_of(S)
            if n == "shape":
                if e["args"]:
                    return select(S, I.ev(e["args"][0], st, fr))
                return mk("ptr", ext(o, "shape"), ZERO)
            if n in ("data", "mutable_data"):
                if e["args"]:
                    return mk("ptr", ext(o, buf), I.ev(e["args"][0], st, fr))
                return mk("ptr", ext(o, buf), ZERO)
            if n == "at":
                return ext(o, buf, I.ev(e["args"][0], st, fr))
        if n == "size":
            v = I.load(st, o)
            return size_of(v)
        if n == "empty":
            return cmp("==", size_of(I.load(st, o)), ZERO, False)
        if n == "cast":
            v = I.load(st, o)
            return mk("pycast", I.ty(fr, e["t"])["s"], v)
        if n == "operator[]":
            k = self.elem(e["args"][0], st, fr)
            return ext(o, k) if k.op != "str" else ext(o, "[%s]" % k.args[0])
        if n == "operator=":
            a = e["args"][0]
            v = I.load(st, I.lvx(a, st, fr)) if "lv" in a or a["k"] == "Temp" else I.ev(a, st, fr)
            I.write(st, fr, e, o, v)
            return o
        if n in ("insert", "append"):
            a = [self.elem(x, st, fr) for x in e["args"]]
            v = I.load(st, o)
            if n == "append" or a[0] is size_of(v):
                nv = mk("app", v, a[-1])
            else:
                # python list.insert appends when the position is not before the end
                nv = mk("pyinsert", v, a[0], a[1])
            I.write(st, fr, e, o, nv)
            return None
        if n in ("operator pybind11::object", "operator object") or n.startswith("operator "):
            return I.load(st, o)
        if n == "ptr":
            return mk("call", "pyptr", I.load(st, o))
        return self.NOTMINE

    def f_py(self, e, q, n, st, fr):
        I = self.I
        if n == "make_tuple":
            return mk("list", tuple(self.elem(x, st, fr) for x in e["args"]))
        if n in ("cast", "reinterpret_borrow", "reinterpret_steal"):
            return self.elem(e["args"][0], st, fr)
        if n == "len":
            return size_of(self.elem(e["args"][0], st, fr))
        return self.NOTMINE

    def c_py(self, e, ty, q, a, st, fr):
        I = self.I
        short = q.split("::")[-1]
        if short in ("array_t", "array"):
            v = [I.ev(x, st, fr) if not ("lv" in x or x["k"] == "Temp") else I.load(st, I.lvx(x, st, fr)) for x in a]
            v = [x for x in v if x is not None]
            if not v:
                return mk("pyarr", mk("list", (ZERO,)), NULL)
            S = v[0]
            if S.op == "shapeof":
                S = S.args[0]
            elif a and I.strip(fr, I.ty(fr, a[0]["t"]))["k"] == "int":
                S = mk("list", (S,))
            buf = mk("newbuf", S)
            t.LEN[buf] = ssize_of(S)
            k = next((i for i, x in enumerate(v) if i and x.op in ("ptr", "ref") and self.ispointer(a[i], fr)), 1) if len(v) == len(a) else 1
            if len(v) > 2 and k == 2:
                # explicit strides: the contents are those of the storage in another order
                return mk("rec", mk("obj"), (("buf", mk("call", "strided", v[1], I.load(st, v[2].args[0] if v[2].op == "ptr" else v[2]))), ("shape", S)))
            if len(v) > 1 and v[1].op in ("ptr", "ref"):
                p = v[1] if v[1].op == "ptr" else mk("ptr", v[1], ZERO)
                if len(v) > 2 and v[2] is not NULL:
                    # with a base object the array refers to the storage and does not copy it
                    r = p.args[0].args[0] if p.args[0].op == "ref" else None
                    I.event("Shared", st, fr, e, ref=p.args[0], local=bool(r and r[0] in ("L", "T")))
                c = I.load(st, p.args[0])
                n = ssize_of(S)
                if c.op == "flatseq":
                    A = self.plain(c.args[0])
                    if p.args[1] is ZERO and (sizes_of(A) is t.rep(S)):
                        return mk("rec", mk("obj"), (("buf", mk("flatseq", A)), ("shape", S)))
                buf = self.subseq(c, p.args[1], n)
            return mk("rec", mk("obj"), (("buf", buf), ("shape", S)))
        if short == "any_container":
            v = I.load(st, I.lvx(a[0], st, fr)) if "lv" in a[0] or a[0]["k"] == "Temp" else I.ev(a[0], st, fr)
            if len(a) == 2:
                v2 = I.ev(a[1], st, fr)
                return mk("shapeof", self.range_value(v, v2, st))
            return mk("shapeof", v) if v is not None else mk("shapeof", mk("list", ()))
        if short == "dict":
            ents = []
            for x in a:
                v = self.elem(x, st, fr)
                ents.append(v)
            r = mk("rec", mk("pydict"), tuple(sorted(((self.argn(k), self.argv(k)) for k in ents), key=lambda p: p[0])))
            return r
        if short == "list":
            if not a:
                return mk("list", ())
            return mk("vec", I.ev(a[0], st, fr), mk("pynone"))
        if short in ("tuple", "object", "str", "int_", "float_", "bool_"):
            return self.elem(a[0], st, fr) if a else mk("list", ())
        if short == "handle":
            return self.elem(a[0], st, fr) if a else NULL
        if short == "arg_v":
            v = [self.elem(x, st, fr) for x in a]
            return mk("kw", *v)
        return mk("call", "ctor " + q, *[x for x in (I.ev(y, st, fr) for y in a) if x is not None])

    def ispointer(self, x, fr):
        try:
            return self.I.strip(fr, self.I.ty(fr, x["t"]))["k"] == "ptr"
        except (KeyError, TypeError):
            return False

    def argn(self, k):
        if k.op == "kw" and k.args[0].op in ("argname", "str"):
            s = k.args[0]
            s = s.args[0] if s.op == "argname" else s
            return "[" + s.args[0] + "]"
        return "[?]"

    def argv(self, k):
        return k.args[1] if k.op == "kw" else k

    # ---------------------------------------------------------------- Rcpp
    def m_r(self, e, n, c, st, fr):
        from .interp import ext
        I = self.I
        o = self.obj(e, st, fr)
        if n == "size" or n == "length":
            return size_of(I.load(st, o))
        if n in ("nrow", "ncol", "rows", "cols"):
            return nonneg(mk("call", "n" + n[1:4], I.load(st, o)))
        if n in ("begin", "cbegin"):
            return mk("ptr", o, ZERO)
        if n in ("end", "cend"):
            return mk("ptr", o, size_of(I.load(st, o)))
        if n == "operator[]":
            k = self.elem(e["args"][0], st, fr)
            if k.op != "str":
                I.access(st, fr, e, o, k)
            return ext(o, k)
        if n == "operator()":
            a = [self.elem(x, st, fr) for x in e["args"]]
            if len(a) == 1:
                return ext(o, a[0])
            return ext(o, mk("pair", *a))
        if n == "attr":
            k = self.elem(e["args"][0], st, fr)
            nm = k.args[0] if k.op == "str" else "?"
            return ext(o, "@" + nm)
        if n == "hasAttribute":
            k = self.elem(e["args"][0], st, fr)
            nm = k.args[0] if k.op == "str" else "?"
            v = I.load(st, o)
            return mk("atom", mk("hasattr", nm, v))
        if n == "operator=":
            a = e["args"][0]
            v = I.load(st, I.lvx(a, st, fr)) if "lv" in a or a["k"] == "Temp" else I.ev(a, st, fr)
            I.write(st, fr, e, o, v)
            return o
        if n.startswith("operator "):
            return I.load(st, o) if True else None
        if n in ("push_back",):
            x = self.elem(e["args"][0], st, fr)
            I.write(st, fr, e, o, mk("app", I.load(st, o), x))
            return None
        return self.NOTMINE

    def f_r(self, e, q, n, st, fr):
        I = self.I
        if n == "as":
            return self.elem(e["args"][0], st, fr)
        if n in ("wrap", "clone"):
            return self.elem(e["args"][0], st, fr)
        return self.NOTMINE

    def c_r(self, e, ty, q, a, st, fr):
        I = self.I
        v = [self.elem(x, st, fr) for x in a]
        if not v:
            return mk("rlist") if "Vector" in q else mk("list", ())
        at = I.strip(fr, I.ty(fr, a[0]["t"]))
        if q in ("Rcpp::Vector", "Rcpp::Matrix"):
            if at["k"] == "int" and len(v) == 1:
                return mk("vec", v[0], ZERO)
            if at["k"] == "int" and len(v) == 2:
                r = mk("rmatrix", v[0], v[1])
                return r
            if at.get("q") == "Rcpp::Dimension":
                r = mk("vec", ssize_of(v[0]), ZERO)
                return t.setf(r, "@dim", v[0]) if False else mk("rarr", v[0])
            return v[0]
        if q == "Rcpp::Dimension":
            return v[0]
        if len(v) == 1:
            return v[0]
        return mk("call", "ctor " + q, *v)


def FUNCTOR(q, et):
    return mk("functor", q, None) if et is None else functor_of(q, et)


_functypes = {}


class _TY(dict):
    def __hash__(self):
        return hash(self.get("k"))

    def __eq__(self, o):
        return isinstance(o, dict) and self.get("k") == o.get("k")


def functor_of(q, et):
    return mk("functor", q, _TY(k=et["k"]))


GOOD = set()


def projt(idx, dims):
    return t.projt(idx, dims)
