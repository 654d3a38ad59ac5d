"""Value numbering domain: hash-consed terms with normal forms.

Arithmetic is kept as polynomials (rational coefficients, integer exponents, so quotients are
monomials with negative exponents), booleans as flattened and/or/not over comparison atoms that are
themselves normalised.  Formulas are compared by enumerating the finitely many ordering regions of
the quantities they compare (`equiv`, `implies`); nothing is handed to a solver.
"""
from fractions import Fraction
import itertools


class T:
    __slots__ = ("op", "args", "id", "_fv", "_d")

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        raise TypeError("terms are interned")


_intern = {}
_next = [0]


def mk(op, *args):
    key = (op,) + args
    t = _intern.get(key)
    if t is None:
        t = T.__new__(T)
        t.op = op
        t.args = args
        t.id = _next[0]
        t._fv = None
        t._d = None
        _next[0] += 1
        _intern[key] = t
    return t


TRUE = mk("b", True)
FALSE = mk("b", False)
NULL = mk("null")
UNDEF = mk("undef")
NONNEG = set()      # atoms (terms) known to be >= 0


def nonneg(t):
    NONNEG.add(t)
    return t


# ------------------------------------------------------------------ numbers
def num(x):
    return mk("n", Fraction(x))


ZERO, ONE = num(0), num(1)


def const(t):
    return t.args[0] if t.op == "n" else None


def is_const(t):
    return t.op == "n"


def topoly(t):
    """dict mono -> coef, mono = tuple((atom, exp)...)"""
    if t.op == "n":
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == "poly":
        return dict(t.args[0])
    return {((t, 1),): Fraction(1)}


def frompoly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = sorted(p.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    return mk("poly", tuple(items))


def numeric_ok(t):
    return t.op not in BOOLOPS


def _num(t):
    if t.op in BOOLOPS:
        if t is TRUE:
            return ONE
        if t is FALSE:
            return ZERO
        return mk("b2i", t)
    return t


def add(*ts):
    r = {}
    for t in ts:
        for m, c in topoly(_num(t)).items():
            r[m] = r.get(m, 0) + c
    return frompoly(r)


def neg(t):
    return frompoly({m: -c for m, c in topoly(_num(t)).items()})


def sub(a, b):
    return add(a, neg(b))


def _mulmono(a, b):
    d = {}
    for x, e in a + b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e != 0), key=lambda xe: xe[0].id))


def mul(a, b):
    a, b = _num(a), _num(b)
    r = {}
    for m1, c1 in topoly(a).items():
        for m2, c2 in topoly(b).items():
            m = _mulmono(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return frompoly(r)


def rdiv(a, b):
    """real division"""
    a, b = _num(a), _num(b)
    pb = topoly(b)
    if len(pb) == 1:
        (m, c), = pb.items()
        inv = frompoly({tuple((x, -e) for x, e in m): 1 / c})
        return mul(a, inv)
    if not pb:
        return mk("fdiv0", a)
    return mul(a, mk("inv", b))


def idiv(a, b):
    a, b = _num(a), _num(b)
    if is_const(a) and is_const(b) and const(b) != 0:
        q = abs(const(a)) // abs(const(b))
        return num(q if (const(a) >= 0) == (const(b) > 0) else -q)
    if b is ONE:
        return a
    # products of dimensions, none of which is zero where this is evaluated
    if a.op == "prod" and b is subst(a.args[1], {a.args[2]: ZERO}):
        n, body, bv = a.args
        k = fresh(bv)
        return binder("prod", [k], sub(n, ONE), subst(body, {bv: add(k, ONE)}))
    if a.op == "poly" and b.op in ("at", "get", "in") and all(dict(m).get(b, 0) >= 1 for m, c in a.args[0]):
        return frompoly({tuple((x, e - 1 if x is b else e) for x, e in m if x is not b or e > 1): c for m, c in a.args[0]})
    t = mk("idiv", a, b)
    if a in NONNEG and (b in NONNEG or (is_const(b) and const(b) > 0)):
        NONNEG.add(t)
    return t


def imod(a, b):
    if is_const(a) and is_const(b) and const(b) != 0:
        q = abs(const(a)) % abs(const(b))
        return num(q if const(a) >= 0 else -q)
    return mk("mod", a, b)


# ------------------------------------------------------------------ booleans
BOOLOPS = {"b", "not", "and", "or", "le", "eq", "flt", "fle", "feq", "atom", "isnan", "isfin",
           "exists", "has", "end"}


def isbool(t):
    return t.op in BOOLOPS


def atom(t):
    if isbool(t):
        return t
    if t.op == "n":
        return FALSE if const(t) == 0 else TRUE
    if t.op == "b2i":
        return t.args[0]
    if t.op == "ite":
        return ite(t.args[0], atom(t.args[1]), atom(t.args[2]))
    return mk("atom", t)


def not_(f):
    f = atom(f)
    if f is TRUE:
        return FALSE
    if f is FALSE:
        return TRUE
    if f.op == "not":
        return f.args[0]
    if f.op == "and":
        return or_(*[not_(x) for x in f.args[0]])
    if f.op == "or":
        return and_(*[not_(x) for x in f.args[0]])
    if f.op == "le":
        return le0(sub(ONE, f.args[0]))
    return mk("not", f)


def _flat(op, fs):
    out = []
    for f in fs:
        f = atom(f)
        if f.op == op:
            out.extend(f.args[0])
        else:
            out.append(f)
    return out


COMPARISONS = {"le", "eq", "flt", "fle", "feq"}


def _negp(p):
    return frompoly({m: -c for m, c in topoly(p).items()})


def _merge(fs):
    """a disjunction in which comparisons of the same quantity were put together; None: nothing to do, TRUE: always"""
    by = {}
    for f in fs:
        g = f.args[0] if f.op == "not" else f
        if g.op in COMPARISONS:
            p = topoly(g.args[0])
            key = frozenset(m for m in p if m)
            by.setdefault((g.op[0] == "f", key), []).append((f, g, p))
    out = None
    for (fl, key), xs in by.items():
        if len(xs) < 2:
            continue
        r = _merge_fl(xs) if fl else _merge_int(xs)
        if r is None:
            continue
        if r is TRUE:
            return TRUE
        if out is None:
            out = dict.fromkeys(fs)
        for f, _, _ in xs:
            out.pop(f, None)
        for f in r:
            out[f] = None
    return out


def _merge_fl(xs):
    have = {f for f, _, _ in xs}
    changed = False
    for f, g, p in xs:
        a = g.args[0]
        for q in (a, _negp(a)):
            lt, le = mk("flt", q), mk("fle", q)
            e = next((mk("feq", z) for z in (q, _negp(q)) if mk("feq", z) in have or mk("not", mk("feq", z)) in have), None)
            nlt, nle = mk("not", lt), mk("not", le)
            if le in have and nlt in have:
                return TRUE
            if e is not None and e in have:
                if lt in have:
                    have -= {lt, e}
                    have.add(le)
                    changed = True
                elif nle in have:
                    have -= {nle, e}
                    have.add(nlt)
                    changed = True
                elif le in have or nlt in have:
                    have.discard(e)
                    changed = True
            ne = mk("not", e) if e is not None else None
            if ne is not None and ne in have:
                if le in have or nlt in have:
                    return TRUE
                if lt in have or nle in have:
                    have -= {lt, nle}
                    changed = True
            if le in have and lt in have:
                have.discard(lt)
                changed = True
            if nlt in have and nle in have:
                have.discard(nle)
                changed = True
    return sorted(have, key=lambda t: t.id) if changed else None


def _merge_int(xs):
    """x <= a or x >= b or x == c (with whole a, b and c)"""
    groups = {}
    for f, g, p in xs:
        k = p.get((), Fraction(0))
        q = {m: c for m, c in p.items() if m}
        m0 = min(q, key=lambda m: tuple((a.id, e) for a, e in m))
        sg = 1 if q[m0] > 0 else -1
        groups.setdefault(frompoly({m: c * sg for m, c in q.items()}), []).append((f, g, k * sg, sg))
    res, changed = [], False
    for x, ys in groups.items():
        # no equalities that other multiples of x take part in
        up = [-k for f, g, k, sg in ys if g.op == "le" and sg > 0]           # x <= a
        dn = [-k for f, g, k, sg in ys if g.op == "le" and sg < 0]           # x >= b
        eqs = [-k for f, g, k, sg in ys if f.op == "eq"]
        nes = [-k for f, g, k, sg in ys if f.op == "not"]
        if any(v.denominator != 1 for v in up + dn + eqs + nes) or len(ys) < 2:
            res.extend(f for f, _, _, _ in ys)
            continue
        a, b = max(up, default=None), min(dn, default=None)
        if nes:
            if len(set(nes)) > 1 or nes[0] in eqs or (a is not None and nes[0] <= a) or (b is not None and nes[0] >= b):
                return TRUE
            res.append(next(f for f, g, k, sg in ys if f.op == "not"))
            changed = True
            continue
        left = sorted(set(eqs))
        more = True
        while more:
            more = False
            for e in left:
                if (a is not None and e <= a) or (b is not None and e >= b):
                    left.remove(e)
                    more = True
                    break
                if a is not None and e == a + 1:
                    a = e
                    left.remove(e)
                    more = True
                    break
                if b is not None and e == b - 1:
                    b = e
                    left.remove(e)
                    more = True
                    break
        if a is not None and b is not None and b <= a + 1:
            return TRUE
        new = []
        if a is not None:
            new.append(le0(sub(x, num(a))))
        if b is not None:
            new.append(le0(sub(num(b), x)))
        new += [eq0(sub(x, num(e))) for e in left]
        if set(new) != {f for f, _, _, _ in ys}:
            changed = True
            res.extend(new)
        else:
            res.extend(f for f, _, _, _ in ys)
    return res if changed else None


def _settle(f, true, depth=0):
    """the condition f where every condition in true holds"""
    if f in true:
        return TRUE
    if not_raw(f) in true:
        return FALSE
    if f.op in ("and", "or") and depth < 4:
        xs = [_settle(x, true, depth + 1) for x in f.args[0]]
        if any(x is not y for x, y in zip(xs, f.args[0])):
            return and_(*xs) if f.op == "and" else or_(*xs)
    return f


def and_(*fs):
    s = {}
    for f in _flat("and", fs):
        if f is FALSE:
            return FALSE
        if f is TRUE:
            continue
        s[f] = True
    for f in s:
        if not_raw(f) in s:
            return FALSE
    m = _merge([not_raw(f) for f in s if f.op != "or"]) if len(s) > 1 else None
    if m is TRUE:
        return FALSE
    if m is not None:
        return and_(*([not_raw(f) for f in m] + [f for f in s if f.op == "or"]))
    # absorption: a & (a | b) -> a ;  a & (!a | b) -> a & b
    res = {}
    changed = False
    for f in s:
        if f.op == "or":
            if any(x in s for x in f.args[0] if x is not f):
                changed = True
                continue
            kept = [x for x in f.args[0] if not_raw(x) not in s]
            if len(kept) != len(f.args[0]):
                changed = True
                res[or_(*kept)] = True
                continue
            if any(x.op == "and" for x in f.args[0]):
                g = _settle(f, s.keys() - {f})
                if g is not f:
                    changed = True
                    res[g] = True
                    continue
        res[f] = True
    if changed:
        return and_(*res)
    s = res
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    return mk("and", tuple(sorted(s, key=lambda t: t.id)))


def not_raw(f):
    if f.op == "not":
        return f.args[0]
    if f.op == "le":
        return le0(sub(ONE, f.args[0]))
    if f.op in ("and", "or"):
        return not_(f)
    if f is TRUE:
        return FALSE
    if f is FALSE:
        return TRUE
    return mk("not", f)


def or_(*fs):
    s = {}
    for f in _flat("or", fs):
        if f is TRUE:
            return TRUE
        if f is FALSE:
            continue
        s[f] = True
    for f in s:
        if not_raw(f) in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s))
    m = _merge(s)
    if m is TRUE:
        return TRUE
    if m is not None:
        return or_(*m)
    # factor common conjuncts
    sets = [set(f.args[0]) if f.op == "and" else {f} for f in s]
    common = set.intersection(*sets)
    if common:
        rest = [and_(*(x - common)) for x in sets]
        return and_(*(list(common) + [or_(*rest)]))
    res = {}
    changed = False
    for f in s:
        if f.op == "and":
            if any(x in s for x in f.args[0]):
                changed = True
                continue
            kept = [x for x in f.args[0] if not_raw(x) not in s]
            if len(kept) != len(f.args[0]):
                changed = True
                res[and_(*kept)] = True
                continue
            if any(x.op == "or" for x in f.args[0]):
                g = _settle(f, {not_raw(x) for x in s if x is not f})
                if g is not f:
                    changed = True
                    res[g] = True
                    continue
        res[f] = True
    if changed:
        return or_(*res)
    # (a&r) | (!a&r) pairs sharing all but one literal
    lst = list(res)
    for i in range(len(lst)):
        for j in range(i + 1, len(lst)):
            a, b = lst[i], lst[j]
            if a.op == "and" and b.op == "and":
                A, B = set(a.args[0]), set(b.args[0])
                if len(A) == len(B):
                    da, db = A - B, B - A
                    if len(da) == 1 and len(db) == 1 and not_raw(next(iter(da))) is next(iter(db)):
                        m = and_(*(A & B))
                        return or_(m, *[x for k, x in enumerate(lst) if k not in (i, j)])
    return mk("or", tuple(sorted(res, key=lambda t: t.id)))


def _lift(t, f):
    """lift one ite out of a polynomial compared with zero"""
    t = _num(t)
    if t.op == "ite":
        c, a, b = t.args
        return or_(and_(c, f(a)), and_(not_(c), f(b)))
    if t.op == "b2i":
        return or_(and_(t.args[0], f(ONE)), and_(not_(t.args[0]), f(ZERO)))
    if t.op == "poly":
        for m, c in t.args[0]:
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ("ite", "b2i"):
                x = m[0][0]
                rest = frompoly({m2: c2 for m2, c2 in t.args[0] if m2 != m})
                if x.op == "b2i":
                    cc, a, b = x.args[0], ONE, ZERO
                else:
                    cc, a, b = x.args
                return or_(and_(cc, f(add(rest, mul(num(c), a)))),
                           and_(not_(cc), f(add(rest, mul(num(c), b)))))
    return None


def le0(t):
    """integer t <= 0"""
    t = _num(t)
    if is_const(t):
        return TRUE if const(t) <= 0 else FALSE
    l = _lift(t, le0)
    if l is not None:
        return l
    p = topoly(t)
    k = p.pop((), Fraction(0))
    # gcd normalise
    import math
    dens = 1
    for c in p.values():
        dens = dens * c.denominator // math.gcd(dens, c.denominator)
    g = 0
    for c in p.values():
        g = math.gcd(g, int(c * dens))
    scale = Fraction(dens, g) if g else Fraction(1)
    k2 = k * scale
    # integer: sum <= -k2  -> sum + ceil(k2) <= 0
    k2 = Fraction(-((-k2).__floor__()))
    q = {m: c * scale for m, c in p.items()}
    r = _search_ran_out(q, k2)
    if r is not None:
        return r
    if all(c > 0 for c in q.values()) and all(mono_nonneg(m) for m in q) and k2 > 0:
        return FALSE
    if all(c < 0 for c in q.values()) and all(mono_nonneg(m) for m in q) and k2 <= 0:
        return TRUE
    q[()] = k2
    return mk("le", frompoly(q))


def _search_ran_out(q, k):
    """n - first(n, P) <= 0 says that no position satisfies P; first(n, P) - n + 1 <= 0 that one does"""
    for m, c in q.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "first" and abs(c) == 1:
            f = m[0][0]
            n, body, bv = f.args
            if n is INFINITE:
                continue
            d = {x: y for x, y in q.items() if x != m}
            if k:
                d[()] = k
            if c == -1 and frompoly(d) is n:
                return not_(_mkexists(mk("range", n), body, bv))
            if c == 1 and neg(frompoly(d)) is sub(n, ONE):
                return _mkexists(mk("range", n), body, bv)
    return None


def mono_nonneg(m):
    return all(a in NONNEG or e % 2 == 0 for a, e in m)


def eq0(t, fl=False):
    t = _num(t)
    if is_const(t):
        return TRUE if const(t) == 0 else FALSE
    l = _lift(t, lambda x: eq0(x, fl))
    if l is not None:
        return l
    p = topoly(t)
    # sign normalise on the first (lowest id) non-constant monomial
    ms = sorted((m for m in p if m), key=lambda m: tuple((a.id, e) for a, e in m))
    c = p[ms[0]]
    q = {m: x / c for m, x in p.items()}
    if not fl:
        for sg in (1, -1):
            r = _search_ran_out({m: sg * x for m, x in q.items() if m}, sg * q.get((), 0))
            if r is not None and r.op == "not":
                return r
    if not fl and all(x > 0 for x in q.values()) and all(mono_nonneg(m) for m in q) and q.get((), 0) > 0:
        return FALSE
    return mk("feq" if fl else "eq", frompoly(q))


def _fl_norm(t, op):
    t = _num(t)
    if is_const(t):
        c = const(t)
        return TRUE if (c < 0 if op == "flt" else c <= 0) else FALSE
    l = _lift(t, lambda x: _fl_norm(x, op))
    if l is not None:
        return l
    p = topoly(t)
    ms = sorted((m for m in p if m), key=lambda m: tuple((a.id, e) for a, e in m))
    c = abs(p[ms[0]])
    return mk(op, frompoly({m: x / c for m, x in p.items()}))


def flt0(t):
    return _fl_norm(t, "flt")


def fle0(t):
    return _fl_norm(t, "fle")


def cmp(op, a, b, fl):
    a, b = _num(a), _num(b)
    if a.op == "ptr" and b.op == "ptr" and op in ("==", "!="):
        if a.args[0] is b.args[0]:
            r = eq0(sub(a.args[1], b.args[1]))
        else:
            r = mk("atom", mk("ptreq", *sorted((a, b), key=lambda t: t.id)))
        return r if op == "==" else not_(r)
    if a.op == "ptr" and b.op == "ptr" and a.args[0] is b.args[0]:
        return cmp(op, a.args[1], b.args[1], False)
    if a.op == "mapit" and b.op == "mapend" or b.op == "mapit" and a.op == "mapend":
        it = a if a.op == "mapit" else b
        r = not_(it.args[2])
        return r if op == "==" else not_(r)
    if a.op in ("mapit", "mapend", "null", "ref", "heap", "ptr") or b.op in ("mapit", "mapend", "null", "ref", "heap", "ptr"):
        if op in ("==", "!="):
            if a is b:
                r = TRUE
            elif {a.op, b.op} == {"null", "ref"} or {a.op, b.op} == {"null", "ptr"}:
                r = FALSE
            else:
                x, y = sorted((a, b), key=lambda t: t.id)
                r = mk("atom", mk("ptreq", x, y))
            return r if op == "==" else not_(r)
        return mk("atom", mk("ptrcmp", op, a, b))
    if not fl and (a.op == "u64" or b.op == "u64") and op not in ("==", "!="):
        if a.op == "u64" and b.op != "u64":
            v, inside = a.args[0], op in ("<", "<=")
            r = and_(cmp(">=", v, ZERO, False), cmp(op if inside else {">": "<=", ">=": "<"}[op], v, b, False))
            return r if inside else not_(r)
        if b.op == "u64" and a.op != "u64":
            return cmp({"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op], b, a, False)
    d = sub(a, b)
    if fl:
        if op == "<":
            return flt0(d)
        if op == ">":
            return flt0(neg(d))
        if op == "<=":
            return fle0(d)
        if op == ">=":
            return fle0(neg(d))
        if op == "==":
            return eq0(d, True)
        if op == "!=":
            return not_(eq0(d, True))
    if op == "<":
        return le0(add(d, ONE))
    if op == "<=":
        return le0(d)
    if op == ">":
        return le0(add(neg(d), ONE))
    if op == ">=":
        return le0(neg(d))
    if op == "==":
        return eq0(d)
    if op == "!=":
        return not_(eq0(d))
    raise ValueError(op)


def ite(c, a, b):
    c = atom(c)
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if isbool(a) or isbool(b):
        a, b = atom(a), atom(b)
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == "not":
        return ite(c.args[0], b, a)
    # the larger of zero and what is never negative
    if a is ZERO and c.op == "le" and c.args[0] is b and (b in NONNEG or (
            b.op == "poly" and all(v > 0 and mono_nonneg(m) for m, v in topoly(b).items()))):
        return b
    # nested on same condition
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if b.op == "ite" and b.args[1] is a:       # c?a:(d?a:x) -> (c|d)?a:x
        return ite(or_(c, b.args[0]), a, b.args[2])
    if a.op == "ite" and a.args[2] is b:       # c?(d?x:b):b -> (c&d)?x:b
        return ite(and_(c, a.args[0]), a.args[1], b)
    if b.op == "ite" and b.args[2] is a:       # c?a:(d?x:a) -> (c|!d)?a:x
        return ite(or_(c, not_(b.args[0])), a, b.args[1])
    if a.op == "ite" and a.args[1] is b:       # c?(d?b:x):b -> (c&!d)?x:b
        return ite(and_(c, not_(a.args[0])), a.args[2], b)
    if c.op == "le" and _turned(c.args[0]):
        return ite_(not_(c), b, a)
    return ite_(c, a, b)


def _turned(p):
    """one of p <= 0 and its negation is the one conditions are written with"""
    m = min((m for m, _ in (p.args[0] if p.op == "poly" else (((( p, 1),), 1),)) if m), key=lambda m: tuple((a.id, e) for a, e in m))
    return p.op == "poly" and dict(p.args[0])[m] < 0


def ite_(c, a, b):
    if c.op == "or":
        # of a condition and its negation, the conjunction
        nc = not_(c)
        if nc.op == "and":
            return ite_(nc, b, a)
    if a.op == "rec" and b.op == "rec" and a.args[0] is b.args[0]:
        fa, fb = dict(a.args[1]), dict(b.args[1])
        names = sorted(set(fa) | set(fb))
        return mk("rec", a.args[0], tuple(
            (n, ite(c, fa.get(n) or get(a.args[0], n), fb.get(n) or get(b.args[0], n))) for n in names))
    if a.op == "pair" and b.op == "pair":
        return mk("pair", ite(c, a.args[0], b.args[0]), ite(c, a.args[1], b.args[1]))
    if a.op == b.op == "wr" and a.args[1] is b.args[1]:
        # the same place is written either way
        x = a.args[0] if a.args[0] is b.args[0] else ite(c, a.args[0], b.args[0])
        if x.op != "ite":
            return store(x, a.args[1], ite(c, a.args[2], b.args[2]))
    return mk("ite", c, a, b)


# ------------------------------------------------------------------ bit operations
def bits(op, a, b, depth=0):
    a, b = _num(a), _num(b)
    if is_const(a) and is_const(b) and const(a).denominator == 1 and const(b).denominator == 1:
        x, y = int(const(a)), int(const(b))
        if op == "<<" and 0 <= y < 64:
            return num(x << y)
        if op == ">>" and 0 <= y < 64:
            return num(x >> y)
        if op == "&":
            return num(x & y)
        if op == "|":
            return num(x | y)
        if op == "^":
            return num(x ^ y)
    if op in ("&", "|", "^"):
        fs = [x.args[0] if x.op == "b2i" else FALSE if x is ZERO else TRUE if x is ONE else None for x in (a, b)]
        if None not in fs:
            f, g = fs
            return _num(and_(f, g) if op == "&" else or_(f, g) if op == "|" else or_(and_(f, not_(g)), and_(not_(f), g)))
    if op in ("<<", ">>") and (b is ZERO or a is ZERO):
        return a
    if op == "<<" and is_const(b) and 0 <= const(b) < 64:
        return mul(a, num(2 ** int(const(b))))
    if op == ">>" and is_const(b):
        return idiv(a, num(2 ** int(const(b))))
    if depth < 3:
        for x in (a, b):
            c = _iteof(x)
            if c is not None:
                return ite(c, bits(op, given(a, c, True), given(b, c, True), depth + 1),
                           bits(op, given(a, c, False), given(b, c, False), depth + 1))
    if op in ("&", "|", "^"):
        xs = []
        for x in (a, b):
            while x.op == "bits" and x.args[0] == op:
                xs.append(x.args[2])
                x = x.args[1]
            xs.append(x)
        if op == "^":
            ys = []
            for x in xs:
                if x in ys:
                    ys.remove(x)
                elif x is not ZERO:
                    ys.append(x)
        else:
            ys = list(dict.fromkeys(xs))
            if op == "&" and ZERO in ys:
                return ZERO
            if op == "|":
                ys = [x for x in ys if x is not ZERO]
        if not ys:
            return ZERO
        ys.sort(key=lambda x: x.id)
        r = ys[0]
        for x in ys[1:]:
            r = nonneg(mk("bits", op, r, x))
        return r
    return nonneg(mk("bits", op, a, b))


def _iteof(x):
    if x.op == "ite":
        return x.args[0]
    if x.op == "poly":
        for m, _ in x.args[0]:
            for a, _ in m:
                if a.op == "ite":
                    return a.args[0]
    return None


def given(x, c, yes):
    """x where the condition of its outermost choices is known"""
    if x.op == "ite":
        if x.args[0] is c:
            return given(x.args[1 if yes else 2], c, yes)
        return x
    if x.op == "poly":
        m = {a: a.args[1 if yes else 2] for mono, _ in x.args[0] for a, _ in mono if a.op == "ite" and a.args[0] is c}
        return subst(x, m) if m else x
    return x


# ------------------------------------------------------------------ functions
def fabs(x):
    x = _num(x)
    if is_const(x):
        return num(abs(const(x)))
    if x.op == "abs":
        return x
    if x.op == "poly":
        ms = x.args[0]
        # canonical sign
        first = sorted((m for m, c in ms if m), key=lambda m: tuple((a.id, e) for a, e in m))
        if dict(ms)[first[0]] < 0:
            x = neg(x)
    return nonneg(mk("abs", x))


def fmax2(a, b):
    return mk("max", *sorted((a, b), key=lambda t: t.id)) if a is not b else a


def fmin2(a, b):
    return mk("min", *sorted((a, b), key=lambda t: t.id)) if a is not b else a


def call(q, *args):
    if q == "sqrt" and len(args) == 1:
        return mk("call", q, args[0])
    return mk("call", q, *args)


# ------------------------------------------------------------------ containers
# sequences : vec(n, v) | fam(range(n), body, bv) | list((..)) | wr | app | concat | fseq | iter | in ...
# arrays    : ndfam(S, body, iv) | filled(A, v) | resized(A, S) | wr(A, idx, v) | accum | mupd | iter | in ...
# indices   : cell(S, k) (k-th index of an array of shape S, row major) | tcell | mcell | fcell | proj | wrv
IDXOPS = {"cell", "tcell", "mcell", "fcell", "proj", "wrv", "setall"}
SIZES = {}        # array term -> its sizes (for terms that do not carry them)
LEN = {}          # sequence term -> its length
EQV = {}          # equalities established by checks: term -> representative


def rep(t):
    while t in EQV:
        t = EQV[t]
    return t


def same(a, b):
    return rep(a) is rep(b)


def get(base, name):
    if base.op == "rec":
        for n, v in base.args[1]:
            if n == name:
                return v
        return get(base.args[0], name)
    if base.op == "pair" and name in ("first", "second"):
        return base.args[0 if name == "first" else 1]
    if base.op == "ite":
        return ite(base.args[0], get(base.args[1], name), get(base.args[2], name))
    return mk("get", base, name)


def setf(base, name, v):
    if base.op == "pair" and name in ("first", "second"):
        return mk("pair", v, base.args[1]) if name == "first" else mk("pair", base.args[0], v)
    if base.op == "rec":
        d = dict(base.args[1])
        d[name] = v
        return mk("rec", base.args[0], tuple(sorted(d.items())))
    return mk("rec", base, ((name, v),))


def is_idx(k):
    return k.op in IDXOPS or k in IDXV


IDXV = set()      # opaque terms that are index vectors


def distinct(a, b):
    """keys certainly different"""
    if a is b:
        return False
    if is_idx(a) or is_idx(b):
        return False
    if a.op == "str" and b.op == "str":
        return True
    if not numeric_ok(a) or not numeric_ok(b):
        return False
    d = sub(a, b)
    return is_const(d) and const(d) != 0


def certainly_lt(a, b):
    d = sub(a, b)
    return le0(add(d, ONE)) is TRUE


def select(base, key):
    o = base.op
    if key.op == "mkey":
        return mget(base, key.args[0])
    if o in ("view", "recast"):
        return select(base.args[0], key)
    if o == "wr":
        b, k, v = base.args
        if k is key:
            return v
        if distinct(k, key):
            return select(b, key)
        return mk("at", base, key)
    if o == "filled":
        return base.args[1]
    if o == "vec":
        return base.args[1]
    if o == "list":
        if is_const(key) and 0 <= const(key) < len(base.args[0]):
            return base.args[0][int(const(key))]
        if len(base.args[0]) == 1:
            return base.args[0][0]
        return mk("at", base, key)
    if o == "fam":
        dom, body, bv = base.args
        return subst(body, {bv: key})
    if o == "ndfam":
        S, body, iv = base.args
        return subst(body, {iv: key})
    if o == "app":
        b, v = base.args
        n = size_of(b)
        if key is n:
            return v
        if distinct(key, n):
            return select(b, key)
        return mk("at", base, key)
    if o == "ite":
        return ite(base.args[0], select(base.args[1], key), select(base.args[2], key))
    if o == "sub":             # contiguous part of another container
        c, off, n = base.args
        return select(c, add(off, key))
    if o == "flatseq":         # the elements of an array in storage order
        return select(base.args[0], cellt(sizes_of(base.args[0]), key))
    if o == "upd":             # elements off .. off+n-1 overwritten: upd(base, n, off, val(bv), bv)
        b, n, off, val, bv = base.args
        if certainly_lt(key, off) or le0(sub(add(off, n), key)) is TRUE:
            return select(b, key)
        if le0(sub(off, key)) is TRUE and certainly_lt(key, add(off, n)):
            return subst(val, {bv: key})
        if off is ZERO and LEN.get(b) is n:         # all of it
            return subst(val, {bv: key})
        return mk("at", base, key)
    if o == "ndupd":           # the first n elements (in storage order) overwritten
        b, n, val, iv = base.args
        p = post(sizes_of(b), key)
        if le0(sub(n, p)) is TRUE:
            return select(b, key)
        if certainly_lt(p, n):
            return subst(val, {iv: key})
        return mk("at", base, key)
    if o == "proj":            # projected index vector
        return select(base.args[0], select(base.args[1], key))
    if o == "wrv":
        b, k, v = base.args
        if k is key:
            return v
        if distinct(k, key):
            return select(b, key)
        return mk("at", base, key)
    if o == "setall":
        return base.args[1]
    if o == "cell" and base.args[1] is ZERO:
        return ZERO
    if o == "freesizes" or o == "projsizes":
        pass
    if o == "ndidx":
        pass
    t = mk("at", base, key)
    if o in ("sizes", "cell", "tcell"):
        NONNEG.add(t)
    return t


def cellt(S, k):
    """k-th index (row major) of shape S"""
    S = rep(S)
    if k.op == "pos" and k.args[0] is S:
        return k.args[1]
    return mk("cell", S, k)


def post(S, idx):
    S = rep(S)
    if idx.op == "cell" and idx.args[0] is S:
        return idx.args[1]
    return nonneg(mk("pos", S, idx))


def endt(pos):
    """has an index run past the last position"""
    if pos.op in ("cell", "tcell"):
        return le0(sub(ssize_of(pos.args[0]), pos.args[1])) if pos.args[1] is not ZERO else FALSE
    if pos.op in ("wrv", "mcell", "upd"):
        return endt(pos.args[0])
    if pos.op == "ite":
        return ite(pos.args[0], endt(pos.args[1]), endt(pos.args[2]))
    return mk("end", pos)


def tposr(S, idx):
    S = rep(S)
    if idx.op == "tcell" and idx.args[0] is S:
        return idx.args[1]
    return nonneg(mk("tpos", S, idx))


def projt(idx, dims):
    """coordinates dims of an index vector"""
    if idx.op == "mcell" and idx.args[1] is dims:
        return idx.args[2]
    if idx.op == "ite":
        return ite(idx.args[0], projt(idx.args[1], dims), projt(idx.args[2], dims))
    return mk("proj", idx, dims)


def projsizes(S, dims):
    """sizes of the dimensions dims"""
    k = fresh()
    nonneg(k)
    return rep(fam(mk("range", size_of(dims)), k, select(rep(S), select(dims, k))))


def mget(m, k):
    if m.op == "mput":
        b, k2, v = m.args
        if k2 is k:
            return v
        if distinct(k2, k):
            return mget(b, k)
    if m.op == "ite":
        return ite(m.args[0], mget(m.args[1], k), mget(m.args[2], k))
    return mk("mget", m, k)


def hask(m, k):
    if m.op == "mapempty":
        return FALSE
    if m.op == "mput":
        b, k2, v = m.args
        if k2 is k:
            return TRUE
        if distinct(k2, k):
            return hask(b, k)
    if m.op == "ite":
        return ite(m.args[0], hask(m.args[1], k), hask(m.args[2], k))
    return mk("has", m, k)


def store(base, key, v):
    o = base.op
    if key.op == "mkey":
        if o == "ite":
            return ite(base.args[0], store(base.args[1], key, v), store(base.args[2], key, v))
        if o == "mput" and base.args[1] is key.args[0]:
            return mk("mput", base.args[0], key.args[0], v)
        return mk("mput", base, key.args[0], v)
    if o == "wr":
        b, k, old = base.args
        if k is key:
            return store(b, key, v)
        if distinct(k, key) and k.id > key.id:
            return mk("wr", store(b, key, v), k, old)
    if o in ("cell", "tcell", "mcell", "fcell", "setall", "wrv") or base in IDXV:
        if o == "wrv" and base.args[1] is key:
            base = base.args[0]
        if select(base, key) is v:
            return base
        return mk("wrv", base, key, v)
    if o == "list" and is_const(key) and 0 <= const(key) < len(base.args[0]):
        l = list(base.args[0])
        l[int(const(key))] = v
        return mk("list", tuple(l))
    if o == "vec" and is_const(base.args[0]) and is_const(key) and const(base.args[0]) <= 16 and 0 <= const(key) < const(base.args[0]):
        l = [base.args[1]] * int(const(base.args[0]))
        l[int(const(key))] = v
        return mk("list", tuple(l))
    if o == "app" and distinct(key, size_of(base.args[0])):
        return mk("app", store(base.args[0], key, v), base.args[1])
    if o == "app" and key is size_of(base.args[0]):
        return mk("app", base.args[0], v)
    if o == "ite":
        return ite(base.args[0], store(base.args[1], key, v), store(base.args[2], key, v))
    if select(base, key) is v:
        return base
    return mk("wr", base, key, v)


VIEWOF = {}


def base_of(v):
    """the value stores into parts of v started from"""
    for _ in range(10000):
        o = v.op
        if o in ("wr", "upd", "accum", "ndupd", "tupd", "mupd", "mupdn", "cupd", "setall", "rec", "filled"):
            v = v.args[0]
        elif o == "iter":
            v = v.args[1][v.args[0]]
        elif o == "ite":
            a, b = base_of(v.args[1]), base_of(v.args[2])
            return a if derives(a) else b
        else:
            break
    return v


def derives(v):
    while v.op in ("get", "select", "pycast", "pointee", "field") and isinstance(v.args[0], T):
        v = v.args[0]
    return v.op == "in"


def view_of(v):
    """the storage an array value lies in, if that belongs to somebody else"""
    for _ in range(10000):
        o = v.op
        if o == "view":
            return v.args[1]
        if o in ("wr", "upd", "accum", "ndupd", "tupd", "mupd", "mupdn", "cupd", "setall", "unflat"):
            v = v.args[0]
        elif o == "iter":
            v = v.args[1][v.args[0]]
        elif o == "ite":
            return view_of(v.args[1]) or view_of(v.args[2])
        else:
            break
    return VIEWOF.get(v)


def length(t):
    return nonneg(mk("len", t))


def size_of(v):
    """number of elements of a sequence"""
    if v in LEN:
        return LEN[v]
    o = v.op
    if o in ("vec", "fam"):
        d = v.args[0]
        if d.op == "range":
            return d.args[0]
        return d
    if o == "list":
        return num(len(v.args[0]))
    if o in ("wr", "filled", "setall", "wrv", "view", "recast", "upd", "accum", "sorted", "ndupd", "tupd", "mupdn", "cupd", "mupd"):
        return size_of(v.args[0])
    if o == "app":
        return add(size_of(v.args[0]), ONE)
    if o == "concat":
        return add(size_of(v.args[0]), size_of(v.args[1]))
    if o == "fseq":
        k = fresh(v.args[3])
        return nonneg(ksum(v.args[0], k, subst(ite(v.args[1], ONE, ZERO), {v.args[3]: k})))
    if o == "ite":
        a, b = size_of(v.args[1]), size_of(v.args[2])
        return a if a is b else ite(v.args[0], a, b)
    if o == "sub":
        return v.args[2]
    if o in ("cell", "tcell", "mcell", "fcell"):
        return size_of(v.args[0])
    if o == "proj":
        return size_of(v.args[1])
    if o == "projsizes":
        return size_of(v.args[1])
    if o == "flatseq":
        return ssize(v.args[0])
    if o == "freesizes":
        return nonneg(sub(size_of(v.args[0]), size_of(v.args[1])))
    if o == "at" and v.args[0].op in ("wr", "upd"):
        # element of a list one of whose elements was overwritten: sizes as long as both agree
        b = v.args[0].args[0]
        if v.args[0].op == "wr":
            x, y = size_of(v.args[0].args[2]), size_of(select(b, v.args[0].args[1]))
            if x is y:
                return size_of(select(b, v.args[1]))
    if o == "at" and v.args[0] in ELEMONLY:
        return size_of(select(ELEMONLY[v.args[0]], v.args[1]))
    return length(v)


def sizes_of(a):
    """sizes vector of an array value"""
    if a in SIZES:
        return rep(SIZES[a])
    o = a.op
    if o in ("wr", "filled", "accum", "mupd", "view", "recast", "ndupd", "tupd", "mupdn", "cupd"):
        return sizes_of(a.args[0])
    if o == "ndfam":
        return rep(a.args[0])
    if o == "resized":
        return rep(a.args[1])
    if o == "ite":
        x, y = sizes_of(a.args[1]), sizes_of(a.args[2])
        return x if x is y else ite(a.args[0], x, y)
    if o == "at" and a.args[0].op in ("wr",):
        b, k, v = a.args[0].args
        if sizes_of(v) is sizes_of(select(b, k)):
            return sizes_of(select(b, a.args[1]))
    if o == "at" and a.args[0] in ELEMONLY:
        return sizes_of(select(ELEMONLY[a.args[0]], a.args[1]))
    if o == "slice":
        return mk("freesizes", sizes_of(a.args[0]), a.args[1])
    return rep(mk("sizes", a))


ELEMONLY = {}     # list-of-arrays term -> earlier value with the same element sizes


def ssize_of(S):
    """product of sizes"""
    S = rep(S)
    if S.op == "list":
        r = ONE
        for x in S.args[0]:
            r = mul(r, x)
        return r
    return nonneg(mk("ssize", S))


def ssize(a):
    return ssize_of(sizes_of(a))


def ndfam(S, body, iv):
    """array of shape S whose element at index iv is body"""
    return binder("ndfam", [iv], rep(S), body)


# ------------------------------------------------------------------ substitution
def children(t):
    out = []

    def walk(x):
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                walk(y)
    for a in t.args:
        walk(a)
    return out


BINDERS = {"exists", "fam", "ndfam", "sum", "prod", "first", "upd", "accum", "mupd", "fseq", "iter", "argopt", "opt", "ndupd", "tupd", "mupdn", "cupd"}


def bound(t):
    x = t.args[-1]
    return x if isinstance(x, tuple) else (x,)


def freeset(t):
    """free loop variables, loop-state variables and bound variables of t"""
    if t._fv is None:
        s = set()
        if t.op in ("k", "mu", "bv"):
            s.add(t)
        else:
            for c in children(t):
                s |= freeset(c)
            if t.op in BINDERS:
                s -= set(bound(t))
        t._fv = frozenset(s)
    return t._fv


def contains(t, x):
    if t is x:
        return True
    seen = set()
    st = [t]
    while st:
        y = st.pop()
        if y is x:
            return True
        if y in seen:
            continue
        seen.add(y)
        st.extend(children(y))
    return False


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        y = st.pop()
        if y in seen:
            continue
        seen.add(y)
        yield y
        st.extend(children(y))


def rebuild(op, args):
    f = REBUILD.get(op)
    if f is not None:
        return f(*args)
    return mk(op, *args)


def _poly(ms):
    r = ZERO
    for m, c in ms:
        p = num(c)
        for a, e in m:
            if e > 0:
                for _ in range(e):
                    p = mul(p, a)
            else:
                for _ in range(-e):
                    p = rdiv(p, a)
        r = add(r, p)
    return r


def _register(old, new, m, memo):
    if new.op == "n" or new is old:
        return
    if old in NONNEG:
        NONNEG.add(new)
    if old in IDXV and not new.op in IDXOPS:
        IDXV.add(new)
    if old in SIZES and new not in SIZES and new.op == old.op:
        SIZES[new] = subst(SIZES[old], m, memo)
    if old in LEN and new not in LEN and new.op == old.op:
        LEN[new] = subst(LEN[old], m, memo)
    if old in ELEMONLY and new not in ELEMONLY and new.op == old.op:
        ELEMONLY[new] = subst(ELEMONLY[old], m, memo)


_fresh = [0]


def fresh(like=None):
    _fresh[0] += 1
    v = mk("k", "~%d" % _fresh[0])
    if like is not None:
        if like in NONNEG:
            NONNEG.add(v)
        if like in IDXV:
            IDXV.add(v)
    return v


def subst(t, m, memo=None):
    if not m:
        return t
    if memo is None:
        memo = {}
        closed = all(not any(x.op == "bv" for x in freeset(v)) for v in m.values()) and \
            not any(x.op == "bv" for x in m)
        varonly = all(x.op in ("k", "mu", "bv") for x in m)
        memo[None] = (closed, frozenset(m) if varonly else None)
    return _subst(t, m, memo)


def _subst(t, m, memo):
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if not t.args:
        return t
    closed, vs = memo[None]
    if vs is not None and not (freeset(t) & vs):
        return t
    ren = None
    m1, memo1, args = m, memo, t.args
    if t.op in BINDERS:
        bvs = bound(t)
        ren = {b: fresh(b) for b in bvs}
        m1 = {x: v for x, v in m.items() if x not in ren}
        m1.update(ren)
        memo1 = {None: (closed, None if vs is None else frozenset(m1))}

    def walk(x):
        if isinstance(x, T):
            return _subst(x, m1, memo1)
        if isinstance(x, tuple):
            return tuple(walk(y) for y in x)
        return x
    na = tuple(walk(a) for a in args)
    if na == t.args:
        r = t
    elif t.op in BINDERS:
        if ren is None:
            bvs = bound(t)
        else:
            bvs = tuple(ren.values())
        r = rebinder(t.op, na, bvs)
    else:
        r = rebuild(t.op, na)
    memo[t] = r
    if r is not t:
        _register(t, r, m, memo)
    return r


def rebinder(op, args, bvs):
    """rebuild a binding term whose bound variables are currently bvs"""
    istuple = isinstance(args[-1], tuple)
    body = args[:-1]
    base = 0
    for a in _flatten(body):
        base = max(base, height(a))
    if any(b.op != "bv" or b.args[0] != base + i for i, b in enumerate(bvs)):
        ren = {b: canon_bv(base + i, b) for i, b in enumerate(bvs)}
        memo = {None: (True, frozenset(ren))}

        def walk(x):
            if isinstance(x, T):
                return _subst(x, ren, memo)
            if isinstance(x, tuple):
                return tuple(walk(y) for y in x)
            return x
        body = tuple(walk(a) for a in body)
        bvs = tuple(ren[b] for b in bvs)
    f = REBIND.get(op)
    if f is not None:
        return f(*body, bvs if istuple else bvs[0])
    return mk(op, *body, bvs if istuple else bvs[0])


def _flatten(x):
    if isinstance(x, T):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            yield from _flatten(y)


_height = {}


def height(t):
    """nesting depth of binders inside t"""
    h = _height.get(t)
    if h is None:
        h = 0
        for c in children(t):
            h = max(h, height(c))
        if t.op in BINDERS:
            h += len(bound(t))
        _height[t] = h
    return h


def canon_bv(i, like):
    # bound variables that range over index vectors are kept apart from numbers
    b = mk("bv", i, "i") if like in IDXV or is_idx(like) else mk("bv", i)
    if like in NONNEG:
        NONNEG.add(b)
    if like in IDXV:
        IDXV.add(b)
    return b


SCOPE = {"iter": (2,), "prod": (1,), "fseq": (1, 2), "accum": (2, 3), "sum": (1,), "exists": (1,), "fam": (1,), "first": (1,),
         "upd": (3,), "ndupd": (2,), "tupd": (2,), "mupd": (4,), "mupdn": (5,), "cupd": (4,), "ndfam": (1,)}


def binder(op, vars_, *args, seq=False):
    """build a binding term from terms over loop variables vars_"""
    sc = SCOPE.get(op)
    if sc is not None:
        out = set()
        for i, a in enumerate(args):
            if i not in sc:
                for x in _flatten(a):
                    out |= freeset(x)
        cap = [v for v in vars_ if v in out]
        if cap:         # the bound variable also occurs outside the scope of the binder
            ren = {v: fresh(v) for v in cap}
            for v, w in ren.items():
                if v in NONNEG:
                    nonneg(w)

            def walk(x):
                return tuple(walk(y) for y in x) if isinstance(x, tuple) else (subst(x, ren) if isinstance(x, T) else x)
            args = tuple(walk(a) if i in sc else a for i, a in enumerate(args))
            vars_ = [ren.get(v, v) for v in vars_]
    return rebinder(op, tuple(args) + ((tuple(vars_) if seq else vars_[0]),), tuple(vars_))


def exists(dom, k, body):
    body = atom(body)
    if body is FALSE:
        return FALSE
    if k not in freeset(body):
        ne = nonempty(dom)
        return and_(ne, body)
    if body.op == "or":
        return or_(*[exists(dom, k, b) for b in body.args[0]])
    if body.op == "and":
        inv = [b for b in body.args[0] if k not in freeset(b)]
        if inv:
            var = [b for b in body.args[0] if k in freeset(b)]
            return and_(*(inv + [exists(dom, k, and_(*var))]))
    return binder("exists", [k], dom, body)


def forall(dom, k, body):
    return not_(exists(dom, k, not_(body)))


def nonempty(dom):
    return positive(dom.args[0])


def positive(n):
    if n.op == "ssize":
        return TRUE            # arrays have no empty dimension (contract of NDArray)
    if n.op == "first":        # first(N, e, bv) > 0
        N, e, bv = n.args
        return and_(not_(subst(e, {bv: ZERO})), positive(N))
    if n is INFINITE:
        return TRUE
    return le0(sub(ONE, n))


INFINITE = mk("infinite")


def ksum(n, k, body):
    """sum of body for k in [0, n)"""
    return binder("sum", [k], n, body)


def _mksum(n, body, bv):
    if body is ZERO or n is ZERO:
        return ZERO
    if n is not INFINITE and descending(body, bv):
        k = fresh(bv)
        return ksum(n, k, subst(body, {bv: sub(sub(n, ONE), k)}))
    if body.op == "at" and body.args[1] is bv and body.args[0].op == "accum" and bv not in freeset(body.args[0]):
        # a total after additions to elements: the total before, and what was added
        base, times, key, val, v = body.args[0].args
        if not is_idx(key) and size_of(base) is n:
            k, j = nonneg(fresh(bv)), nonneg(fresh(v))
            return add(ksum(n, k, select(base, k)), ksum(times, j, subst(val, {v: j})))
    c, rest = peel(n)
    if c:
        k = fresh(bv)
        out = ksum(rest, k, subst(body, {bv: add(k, num(c))}))
        for i in range(c):
            out = add(out, subst(body, {bv: num(i)}))
        return out
    p = topoly(_num(body))
    inv, var = {}, {}
    for m, c in p.items():
        if any(bv in freeset(a) for a, e in m):
            var[m] = c
        else:
            inv[m] = c
    out = ZERO
    if inv:
        out = mul(n, frompoly(inv))
        if not var:
            return out
    for m, c in var.items():
        # constants and invariant factors out of the sum
        mi = tuple((a, e) for a, e in m if bv not in freeset(a))
        mv = tuple((a, e) for a, e in m if bv in freeset(a))
        k = fresh(bv)
        b = frompoly({mv: Fraction(1)})
        t = mk("sum", n, b, bv) if b is body else binder("sum", [k], n, subst(b, {bv: k})) \
            if b is not body else mk("sum", n, b, bv)
        out = add(out, mul(frompoly({mi: c}) if mi else num(c), t))
    return out


def isnan(x):
    x = _num(x)
    if is_const(x):
        return FALSE
    return mk("isnan", x)


def isfin(x):
    x = _num(x)
    if is_const(x):
        return TRUE
    return mk("isfin", x)


def u64(v):
    """conversion of a possibly negative value to an unsigned type"""
    v = _num(v)
    if v in NONNEG or le0(neg(v)) is TRUE:
        return v
    return nonneg(mk("u64", v))


def fam(dom, k, body):
    return binder("fam", [k], dom, body)


def _mkfam(dom, body, bv):
    if bv not in freeset(body):
        return mk("vec", dom.args[0], body)
    # eta: the elements of a container of the same length are that container
    if body.op == "at" and body.args[1] is bv and bv not in freeset(body.args[0]) and \
            size_of(body.args[0]) is dom.args[0]:
        return body.args[0]
    return mk("fam", dom, body, bv)


def _mkndfam(S, body, iv):
    S = rep(S)
    if body.op == "at" and body.args[1] is iv and iv not in freeset(body.args[0]) and sizes_of(body.args[0]) is S:
        return body.args[0]
    if iv not in freeset(body):
        return mk("filled", mk("resized", NULL, S), body)
    return mk("ndfam", S, body, iv)


def _mkexists(dom, body, bv):
    if body is FALSE:
        return FALSE
    cs = body.args[0] if body.op == "and" else (body,)
    if bv not in freeset(body) or body.op == "or" or any(bv not in freeset(c) for c in cs):
        k = fresh(bv)
        return exists(dom, k, subst(body, {bv: k}))
    if dom.op == "range":
        # one point
        for c in cs:
            if c.op == "eq":
                s = solved(c.args[0], bv)
                if s is not None:
                    n = dom.args[0]
                    rest = [subst(x, {bv: s}) for x in cs if x is not c]
                    up = TRUE if n is INFINITE else le0(add(sub(s, n), ONE))
                    return and_(le0(neg(s)), up, *rest)
    return mk("exists", dom, body, bv)


def solved(p, v):
    """x such that p = 0 iff v = x (integer coefficients)"""
    c, rest = None, {}
    for m, x in topoly(p).items():
        if len(m) == 1 and m[0] == (v, 1):
            c = x
        elif any(v in freeset(a) for a, e in m):
            return None
        else:
            rest[m] = x
    if c is None or abs(c) != 1 or any(x.denominator != 1 for x in rest.values()):
        return None
    return frompoly({m: -x / c for m, x in rest.items()})


REBUILD = {
    "poly": _poly, "le": lambda x: le0(x), "eq": lambda x: eq0(x), "feq": lambda x: eq0(x, True),
    "flt": lambda x: flt0(x), "fle": lambda x: fle0(x), "not": lambda x: not_(x),
    "and": lambda xs: and_(*xs), "or": lambda xs: or_(*xs), "ite": lambda c, a, b: ite(c, a, b),
    "atom": lambda x: atom(x), "at": lambda b, k: select(b, k), "get": lambda b, n: get(b, n),
    "wr": lambda b, k, v: store(b, k, v), "wrv": lambda b, k, v: store(b, k, v),
    "len": lambda x: size_of(x), "sizes": lambda x: sizes_of(x), "ssize": lambda x: ssize_of(x),
    "abs": lambda x: fabs(x), "max": lambda a, b: fmax2(a, b), "min": lambda a, b: fmin2(a, b),
    "idiv": lambda a, b: idiv(a, b), "mod": lambda a, b: imod(a, b), "b2i": lambda f: _num(f),
    "inv": lambda x: rdiv(ONE, x), "cell": lambda S, k: cellt(S, k), "pos": lambda S, i: post(S, i),
    "tpos": lambda S, i: tposr(S, i), "proj": lambda i, d: projt(i, d),
    "mget": lambda m, k: mget(m, k), "has": lambda m, k: hask(m, k),
    "mput": lambda m, k, v: store(m, mk("mkey", k), v),
    "isnan": lambda x: isnan(x), "isfin": lambda x: isfin(x),
    "vec": lambda n, v: mk("vec", n, v),
    "rec": lambda b, fs: mk("rec", b, fs),
    "bits": lambda op, a, b: bits(op, a, b), "u64": lambda x: u64(x), "end": lambda x: endt(x),
}


def _mkupd(base, n, off, val, bv):
    if n is ZERO:
        return base
    if off is ZERO and n is size_of(base):
        return _mkfam(mk("range", n), val, bv)
    return mk("upd", base, n, off, val, bv)


def _mkndupd(base, n, val, iv):
    if n is ZERO:
        return base
    S = sizes_of(base)
    if n is ssize_of(S):
        return _mkndfam(S, val, iv)
    return mk("ndupd", base, n, val, iv)


def _mkiter(i, inits, steps, n, bvs):
    if n is ZERO:
        return inits[i]
    return mk("iter", i, inits, steps, n, bvs)


PEEL = [False]


def peel(n):
    """constant part of a count whose remainder cannot be negative"""
    if not PEEL[0] or n.op != "poly":
        return 0, n
    c = int(topoly(n).get((), 0))
    rest = sub(n, num(c))
    if 1 <= c <= 3 and all(x > 0 and mono_nonneg(m) for m, x in topoly(rest).items()):
        return c, rest
    return 0, n


def descending(body, bv):
    """the loop variable only occurs counted down"""
    sign = set()
    seen = set()
    stack = [body]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x is bv:
            return False
        if bv not in freeset(x):
            continue
        if x.op in ("le", "eq") and x.args[0].op == "poly":        # written with either sign, see _turned
            stack.extend(a for m, _ in x.args[0].args[0] for a, _ in m if a is not bv)
            continue
        if x.op == "poly":
            for m, c in x.args[0]:
                if m == ((bv, 1),):
                    if c > 0:
                        return False
                    sign.add(c)
                else:
                    stack.extend(a for a, e in m)
            continue
        stack.extend(children(x))
    return bool(sign)


def _mkprod(n, body, bv):
    if n is ZERO:
        return ONE
    if descending(body, bv):
        k = fresh(bv)
        return binder("prod", [k], n, subst(body, {bv: sub(sub(n, ONE), k)}))
    c, rest = peel(n)
    if c:
        k = fresh(bv)
        out = binder("prod", [k], rest, subst(body, {bv: add(k, num(c))}))
        for i in range(c):
            out = mul(out, subst(body, {bv: num(i)}))
        return out
    return mk("prod", n, body, bv)


def _mkaccum(base, n, key, val, bv):
    if n is ZERO:
        return base
    return mk("accum", base, n, key, val, bv)


def _mkfseq(n, cond, val, bv):
    if n is ZERO:
        return mk("list", ())
    if cond is TRUE:
        return _mkfam(mk("range", n), val, bv)
    return mk("fseq", n, cond, val, bv)


def _mkfirst(n, e, bv):
    if n is INFINITE and e.op == "le":
        # counting up to a limit
        p = topoly(e.args[0])
        if p.get(((bv, 1),)) == -1 and not any(bv in freeset(a) for m in p if m != ((bv, 1),) for a, _ in m):
            c = frompoly({m: x for m, x in p.items() if m != ((bv, 1),)})
            return ite(le0(c), ZERO, c)
    return mk("first", n, e, bv)


REBIND = {"first": _mkfirst, "upd": _mkupd, "ndupd": _mkndupd, "iter": _mkiter, "prod": _mkprod, "accum": _mkaccum, "fseq": _mkfseq,
          "fam": _mkfam, "ndfam": _mkndfam, "exists": _mkexists, "sum": _mksum}


# ------------------------------------------------------------------ deciding formulas
def _atoms(f, acc):
    if f.op in ("and", "or"):
        for x in f.args[0]:
            _atoms(x, acc)
    elif f.op == "not":
        _atoms(f.args[0], acc)
    elif f.op != "b":
        acc[f] = True


def _direction(t):
    """poly -> (direction, sign*scale, const): t = s*dir + k"""
    p = topoly(t)
    k = p.pop((), Fraction(0))
    ms = sorted(p, key=lambda m: tuple((a.id, e) for a, e in m))
    s = p[ms[0]]
    d = frompoly({m: c / s for m, c in p.items()})
    return d, s, k


class TooBig(Exception):
    pass


NANV, INF, NINF = "nan", "inf", "-inf"


def _val(s, d, k):
    if d == NANV:
        return NANV
    if d in (INF, NINF):
        pos = (d == INF) == (s > 0)
        return INF if pos else NINF
    return s * d + k


def _holds(op, v):
    if v == NANV:
        return False
    if op in ("le", "fle"):
        return v == NINF or (v != INF and v <= 0)
    if op == "flt":
        return v == NINF or (v != INF and v < 0)
    if op in ("eq", "feq"):
        return v == 0
    raise ValueError


def _unify(atoms):
    """group exists-atoms with equivalent bodies"""
    rep = {}
    ex = [a for a in atoms if a.op == "exists"]
    for i, a in enumerate(ex):
        if a in rep:
            continue
        rep[a] = a
        for b in ex[i + 1:]:
            if b not in rep and a.args[0] is b.args[0]:
                bb = subst(b.args[1], {b.args[2]: a.args[2]}) if a.args[2] is not b.args[2] else b.args[1]
                try:
                    if equiv(a.args[1], bb):
                        rep[b] = a
                except TooBig:
                    pass
    return rep


def regions(fs, nan=True, limit=300000):
    """yield assignments (functions formula->bool) covering every region"""
    acc = {}
    for f in fs:
        _atoms(f, acc)
    rep = _unify(acc)
    dirs = {}
    plain = []
    for a in acc:
        if a.op in ("le", "eq", "flt", "fle", "feq"):
            d, s, k = _direction(a.args[0])
            e = dirs.setdefault(d, {"int": True, "bps": set(), "atoms": []})
            if a.op in ("flt", "fle", "feq"):
                e["int"] = False
            e["bps"].add(-k / s)
            e["atoms"].append((a, s, k))
        elif a.op in ("isnan", "isfin"):
            d, s, k = _direction(a.args[0]) if not is_const(a.args[0]) else (a.args[0], 1, 0)
            e = dirs.setdefault(d, {"int": False, "bps": set(), "atoms": []})
            e["int"] = False
            e["bps"].add(Fraction(0))
            e["atoms"].append((a, s, k))
        else:
            r = rep.get(a, a)
            if r not in plain:
                plain.append(r)
    choices = []
    for d, e in dirs.items():
        bps = sorted(e["bps"])
        if e["int"]:
            vs = set()
            for b in bps:
                f = Fraction(b.__floor__())
                vs |= {f - 1, f, f + 1, f + 2} if b != f else {f - 1, f, f + 1}
            if d in NONNEG or all(mono_nonneg(m) and c > 0 for m, c in topoly(d).items()):
                vs = {v for v in vs if v >= 0} or {Fraction(0)}
            vs = sorted(vs)
        else:
            vs = set(bps)
            vs |= {bps[0] - 1, bps[-1] + 1}
            for x, y in zip(bps, bps[1:]):
                vs.add((x + y) / 2)
            if d.op == "abs" or d in NONNEG:
                vs = {v for v in vs if v >= 0} or {Fraction(0)}
            vs = sorted(vs)
            if nan:
                vs = vs + [NANV, INF] + ([] if (d.op == "abs" or d in NONNEG) else [NINF])
        # merge values with identical atom outcomes
        seen = {}
        for v in vs:
            sig = []
            for a, s, k in e["atoms"]:
                w = _val(s, v, k)
                if a.op == "isnan":
                    sig.append(w == NANV)
                elif a.op == "isfin":
                    sig.append(w not in (NANV, INF, NINF))
                else:
                    sig.append(_holds(a.op, w))
            seen.setdefault(tuple(sig), v)
        choices.append(([a for a, s, k in e["atoms"]], list(seen)))
    for p in plain:
        choices.append(([p], [(True,), (False,)]))
    total = 1
    for _, o in choices:
        total *= len(o)
        if total > limit:
            raise TooBig()
    for combo in itertools.product(*[o for _, o in choices]):
        env = {}
        for (ats, _), sig in zip(choices, combo):
            for a, v in zip(ats, sig):
                env[a] = v
        for a, r in rep.items():
            env[a] = env[r]
        yield env


def evalf(f, env):
    if f is TRUE:
        return True
    if f is FALSE:
        return False
    if f.op == "and":
        return all(evalf(x, env) for x in f.args[0])
    if f.op == "or":
        return any(evalf(x, env) for x in f.args[0])
    if f.op == "not":
        return not evalf(f.args[0], env)
    return env[f]


def _eqpair(e):
    """x == y between two quantities: (kept, replaced)"""
    if e.op != "eq":
        return None
    q = topoly(e.args[0])
    if len(q) != 2 or sorted(q.values()) != [-1, 1]:
        return None
    xs = []
    for m in q:
        if len(m) != 1 or m[0][1] != 1:
            return None
        xs.append(m[0][0])
    a, b = sorted(xs, key=lambda x: x.id)
    if contains(a, b) or contains(b, a) and b.op != "len":
        return None
    return a, b


def inctx(f, depth=0):
    """restate each part of a condition under the equalities that hold where the part matters"""
    f = atom(f)
    if depth > 6:
        return f
    if f.op == "not":
        return not_(inctx(f.args[0], depth + 1))
    if f.op not in ("or", "and"):
        return f
    parts = list(f.args[0])
    done = set()
    for _ in range(8):
        todo = None
        for i, x in enumerate(parts):
            e = x if f.op == "and" else not_(x)
            if e in done:
                continue
            p = _eqpair(e)
            if p:
                todo = i, e, p
                break
        if todo is None:
            break
        i, e, (a, b) = todo
        done.add(e)
        parts = [x if j == i else subst(x, {b: a}) for j, x in enumerate(parts)]
    parts = [inctx(x, depth + 1) for x in parts]
    return and_(*parts) if f.op == "and" else or_(*parts)


def implies(f, g, nan=True):
    f, g = atom(f), atom(g)
    if f is g or f is FALSE or g is TRUE:
        return True
    try:
        for env in regions([f, g], nan):
            if evalf(f, env) and not evalf(g, env):
                return False
    except TooBig:
        return False
    return True


def equiv(f, g, nan=True):
    f, g = atom(f), atom(g)
    if f is g:
        return True
    try:
        for env in regions([f, g], nan):
            if evalf(f, env) != evalf(g, env):
                return False
    except TooBig:
        return False
    return True


def sat(f, nan=True):
    f = atom(f)
    try:
        return any(evalf(f, env) for env in regions([f], nan))
    except TooBig:
        return True


# ------------------------------------------------------------------ printing
def show(t, depth=6):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, depth) for x in t) + ")"
        return str(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    o, a = t.op, t.args
    if o == "n":
        return str(a[0]) if a[0].denominator < 1000 else "%g" % float(a[0])
    if o == "b":
        return "true" if a[0] else "false"
    if o == "poly":
        parts = []
        for m, c in a[0]:
            s = "*".join((show(x, d) + ("" if e == 1 else "^%d" % e)) for x, e in m)
            parts.append((("%s" % show(num(c)) + ("*" if s else "")) if c != 1 or not s else "") + s)
        return "(" + " + ".join(parts) + ")"
    if o == "le":
        return show(a[0], d) + "<=0"
    if o in ("eq", "feq"):
        return show(a[0], d) + "==0"
    if o == "flt":
        return show(a[0], d) + "<0"
    if o == "fle":
        return show(a[0], d) + "<=.0"
    if o == "not":
        return "!" + show(a[0], d)
    if o in ("and", "or"):
        return "(" + (" & " if o == "and" else " | ").join(show(x, d) for x in a[0]) + ")"
    if o == "ite":
        return "(%s ? %s : %s)" % tuple(show(x, d) for x in a)
    if o == "at":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    if o == "get":
        return "%s.%s" % (show(a[0], d), a[1])
    if o == "in":
        return a[0] if isinstance(a[0], str) else show(a[0], d)
    if o == "k":
        return "k%s" % a[0]
    if o == "bv":
        return "_%d" % a[0]
    if o == "mu":
        return "mu%s<%s>" % (a[0], a[1] if isinstance(a[1], str) else show(a[1], d))
    if o == "wr":
        return "%s{%s:=%s}" % tuple(show(x, d) for x in a)
    if not a:
        return o
    return o + "(" + ", ".join(show(x, d) for x in a) + ")"
