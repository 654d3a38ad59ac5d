"""Restatements made only when two terms are not equal as they stand: loops that leave where they would have stopped,
quantifiers whose first element cannot matter, containers found equal element by element."""
import time
from . import cases, terms as t
from .terms import T, mk, binder, fresh, subst, sub, add, ONE, ZERO, FALSE, TRUE, is_const, const, and_, not_, le0, ite

ROUNDS = 4
SECONDS = 15


def clamp(n):
    """one less, where there is one"""
    return t.num(max(0, int(const(n)) - 1)) if is_const(n) else ite(le0(sub(n, ONE)), ZERO, sub(n, ONE))


def many(n):
    return const(n) >= 1 if is_const(n) else t.positive(n) is TRUE


def opened(y):
    """body of a quantifier or search over numbers, as a function"""
    bv = y.args[-1]
    body = y.args[1]
    return lambda x: subst(body, {bv: x})


def counter(bv):
    k = fresh(bv)
    return t.nonneg(k)


def search(n, f):
    k = t.nonneg(fresh())
    return binder("first", [k], n, f(k))


def searches(xs):
    return {y for x in xs for y in t.subterms(x) if y.op == "first" and not t.freeset(y)}


def rules(y, firsts):
    if y.op == "exists" and y.args[0].op == "range" and y.args[0].args[0] is not t.INFINITE:
        n, f = y.args[0].args[0], opened(y)
        if f(ZERO) is FALSE and n is not ZERO:
            k = counter(y.args[-1])
            return t.exists(mk("range", clamp(n)), k, f(add(k, ONE)))
        if many(n):
            for z in firsts:
                if z.args[0] is clamp(n):
                    k = counter(y.args[-1])
                    if opened(z)(k) is f(k):
                        return f(z)
    if y.op == "first" and y.args[0] is not t.INFINITE and many(y.args[0]):
        n, f = y.args[0], opened(y)
        if f(ZERO) is FALSE:
            return add(ONE, search(clamp(n), lambda k: f(add(k, ONE))))
    if y.op == "ite":
        c, a, b = y.args
        if c.op == "not":
            c, a, b = c.args[0], b, a
        if c.op == "exists" and c.args[0].op == "range" and many(c.args[0].args[0]):
            # left early, or run to the end: the same where the last turn is the first that qualifies
            n, f = c.args[0].args[0], opened(c)
            F, G = search(n, f), search(clamp(n), f)
            a = subst(a, {F: G})
            b = subst(b, {F: n, G: sub(n, ONE)})
            b = cases.fixed(b, not_(f(sub(n, ONE))))
            if subst(a, {G: sub(n, ONE)}) is b:
                return a
    return None


def rewrite(x, f, memo):
    """a term with every part restated by f, innermost first; bound variables are opened on the way"""
    r = memo.get(x)
    if r is not None:
        return r
    if not x.args:
        return x
    if time.time() > memo["until"]:
        raise t.TooBig()
    args = x.args
    ren = None
    if x.op in t.BINDERS:
        ren = {b: fresh(b) for b in t.bound(x)}

        def opn(y):
            return subst(y, ren) if isinstance(y, T) else tuple(opn(z) for z in y) if isinstance(y, tuple) else y
        args = tuple(opn(y) for y in args)

    def walk(y):
        return rewrite(y, f, memo) if isinstance(y, T) else tuple(walk(z) for z in y) if isinstance(y, tuple) else y
    na = tuple(walk(y) for y in args)
    if na == args:
        r = x
    elif ren is not None:
        r = t.rebinder(x.op, na, tuple(ren.values()))
    else:
        r = t.rebuild(x.op, na)
    r2 = f(r)
    if r2 is not None:
        r = r2
    memo[x] = r
    return r


def everywhere(x, f):
    return rewrite(x, f, {"until": time.time() + SECONDS})


def restated(x, firsts=()):
    if not any(y.op in ("exists", "first") for y in t.subterms(x)):
        return x
    for _ in range(ROUNDS):
        y = everywhere(x, lambda z: rules(z, firsts) if z.op in ("exists", "first", "ite") else None)
        if y is x:
            break
        x = y
    return x


def both(a, b):
    """two terms restated alike"""
    x, y = restated(a), restated(b)
    fs = searches([x, y])
    if fs:
        x, y = restated(x, fs), restated(y, fs)
    return x, y


def elementwise(ctx, xs):
    """containers that hold the same elements wherever ctx holds"""
    eqs = {}

    def rep(n):
        for _ in range(8):
            if n not in eqs:
                break
            n = eqs[n]
        return n
    for c in ctx:
        p = t._eqpair(c)
        if p:
            eqs[p[1]] = p[0]
    m, at = {}, {}
    for c in ctx:
        if c.op != "not" or c.args[0].op != "exists" or c.args[0].args[0].op != "range":
            continue
        e = c.args[0]
        n, k = e.args[0].args[0], counter(e.args[-1])
        body = opened(e)(k)
        for d in (body.args[0] if body.op == "or" else (body,)):
            if d.op != "not" or d.args[0].op != "eq":
                continue
            p = t.topoly(d.args[0].args[0])
            for mono, co in p.items():
                if len(mono) == 1 and mono[0][1] == 1 and abs(co) == 1 and mono[0][0].op == "at" and mono[0][0].args[1] is k \
                        and k not in t.freeset(mono[0][0].args[0]):
                    v = mono[0][0].args[0]
                    if rep(t.size_of(v)) is not rep(n):
                        continue
                    other = t.frompoly({z: -w / co for z, w in p.items() if z != mono})
                    lens = {n} | {z for z in list(eqs) + list(eqs.values()) if rep(z) is rep(n)}
                    for l in lens:
                        w = t.fam(mk("range", l), k, other)
                        if w is not v and not t.contains(v, w) and w not in m and v not in m and w not in m.values():
                            m[w] = v
                    # one element of what is equal element by element
                    if other.op == "mget" and other.args[1] is k and k not in t.freeset(other.args[0]) and not t.freeset(other.args[0]):
                        at[other.args[0]] = v
    return m, at


def conditions(x):
    return {y.args[0] for y in t.subterms(x) if y.op == "ite" and not t.freeset(y.args[0])}


def aligned(ctx, a, b):
    """the choices of one term made under the conditions of the other that are the same wherever ctx holds"""
    if not ctx:
        return b
    A, B = conditions(a), conditions(b)
    m = {}
    C = cases.Cases()
    for d in B - A:
        near = C.near(ctx, d)
        if near is TRUE:
            continue
        for c in A - B:
            same = None
            if t.equiv(and_(near, c), and_(near, d)):
                same = lambda y, c=c: ite(c, y.args[1], y.args[2])
            elif t.equiv(and_(near, not_(c)), and_(near, d)):
                same = lambda y, c=c: ite(c, y.args[2], y.args[1])
            if same is not None:
                m[d] = same
                break
    if not m:
        return b
    return everywhere(b, lambda y: m[y.args[0]](y) if y.op == "ite" and y.args[0] in m else None)


def merged(ctx, a, b):
    """two terms with what ctx says is the same written the same"""
    m, at = elementwise(ctx, (a, b))
    if m:
        a, b = subst(a, m), subst(b, m)
    b = aligned(ctx, a, b)
    if at:
        f = lambda y: t.select(at[y.args[0]], y.args[1]) if y.op == "mget" and y.args[0] in at else None
        a, b = everywhere(a, f), everywhere(b, f)
    return a, b
