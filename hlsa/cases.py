"""Equality of values by cases: two terms that choose between alternatives in different orders, or under conditions
written differently, are equal if they are under every way their conditions can come out."""
import time
from . import terms as t
from .terms import T, TRUE, FALSE, and_, not_, implies, le0, sub, add, ZERO, ONE

LIMIT = 2000
SECONDS = 8          # for one comparison
TOTAL = [60.0]       # for all comparisons of one process


class Out(Exception):
    pass


class Cases:
    def __init__(self):
        self.n = 0
        self.until = time.time() + SECONDS
        self.keys = {}
        self.seen = {}

    def key(self, c):
        r = self.keys.get(c)
        if r is None:
            acc = {}
            t._atoms(c, acc)
            s = set()
            for a in acc:
                if a.op in t.COMPARISONS:
                    s.update(x for m in t.topoly(a.args[0]) for x, _ in m)
                elif a.op in ("isnan", "isfin"):
                    s.update(x for m in t.topoly(t._num(a.args[0])) for x, _ in m)
                else:
                    s.add(a)
            r = self.keys[c] = frozenset(s)
        return r

    def near(self, ctx, c):
        k = self.key(c)
        return and_(*[x for x in ctx if self.key(x) & k])

    def decide(self, ctx, c):
        """what a condition comes out as in a case, if that is known"""
        f = self.near(ctx, c)
        if implies(f, c):
            return True
        if f is not TRUE and implies(f, not_(c)):
            return False
        return None

    def reduce(self, x, ctx):
        while x.op == "ite":
            r = self.decide(ctx, x.args[0])
            if r is None:
                return x
            x = x.args[1 if r else 2]
        if x.op == "poly" and ctx:
            m = {}
            for mono, _ in x.args[0]:
                for a, _ in mono:
                    if a.op == "ite" and a not in m:
                        r = self.decide(ctx, a.args[0])
                        if r is not None:
                            m[a] = a.args[1 if r else 2]
            if m:
                return self.reduce(t.subst(x, m), ctx)
        return x

    def choice(self, x):
        if x.op == "ite":
            return x.args[0]
        if x.op == "poly":
            for mono, _ in x.args[0]:
                for a, _ in mono:
                    if a.op == "ite":
                        return a.args[0]
        return None

    def split(self, c, ctx):
        """a part of a condition not decided yet"""
        while c.op == "not":
            c = c.args[0]
        if c.op in ("and", "or"):
            for x in c.args[0]:
                r = self.split(x, ctx)
                if r is not None:
                    return r
            return None
        return c if self.decide(ctx, c) is None else None

    def eq(self, a, b, ctx):
        if a is b:
            return True
        k = (a, b, ctx)
        r = self.seen.get(k)
        if r is None:
            self.n += 1
            if self.n > LIMIT or time.time() > self.until:
                raise Out()
            r = self.seen[k] = self.eq1(a, b, ctx)
        return r

    def eq1(self, a, b, ctx):
        if t.isbool(a) or t.isbool(b):
            if not (t.isbool(a) and t.isbool(b)):
                return False
            f = and_(self.near(ctx, a), self.near(ctx, b))
            try:
                if t.equiv(and_(f, a), and_(f, b)):
                    return True
                x, y = t.inctx(and_(f, a)), t.inctx(and_(f, b))
                if t.equiv(x, y):
                    return True
            except t.TooBig:
                pass
            return self.inside(a, b, ctx)
        a, b = self.reduce(a, ctx), self.reduce(b, ctx)
        if a is b:
            return True
        c = self.choice(a)
        if c is None:
            c = self.choice(b)
        if c is not None:
            c = self.split(c, ctx) or c
            if c in ctx or not_(c) in ctx:
                return False
            for d in (c, not_(c)):
                if not t.sat(and_(self.near(ctx, d), d)):
                    continue
                x, y = a, b
                p = t._eqpair(d)
                if p:
                    x, y = t.subst(a, {p[1]: p[0]}), t.subst(b, {p[1]: p[0]})
                if not self.eq(x, y, ctx + (d,)):
                    return False
            return True
        return self.inside(a, b, ctx)

    def inside(self, a, b, ctx):
        if a.op != b.op or len(a.args) != len(b.args) or a.op in ("in", "bv", "n", "b", "str", "ref"):
            return False
        if a.op == "poly":
            p, q = dict(a.args[0]), dict(b.args[0])
            dp = {m: c for m, c in p.items() if q.get(m) != c}
            dq = {m: c for m, c in q.items() if p.get(m) != c}
            if len(dp) != len(dq) or len(dp) > 3:
                return False
            left = list(dq.items())
            for m, c in dp.items():
                hit = next((i for i, (n, d) in enumerate(left) if c == d and self.mono(m, n, ctx)), None)
                if hit is None:
                    return False
                left.pop(hit)
            return True
        if a.op in ("and", "or"):
            A, B = [x for x in a.args[0] if x not in b.args[0]], [x for x in b.args[0] if x not in a.args[0]]
            if len(A) != len(B):
                return False
            for x in A:
                hit = next((i for i, y in enumerate(B) if self.eq(x, y, ctx)), None)
                if hit is None:
                    return False
                B.pop(hit)
            return True
        if a.op in t.BINDERS:
            va, vb = a.args[-1], b.args[-1]
            va, vb = (va if isinstance(va, tuple) else (va,)), (vb if isinstance(vb, tuple) else (vb,))
            if len(va) != len(vb):
                return False
            ma, mb = {}, {}
            for x, y in zip(va, vb):
                z = t.fresh(x)
                if x in t.NONNEG and y in t.NONNEG:
                    t.nonneg(z)
                ma[x], mb[y] = z, z
            sc = t.SCOPE.get(a.op)
            for i, (x, y) in enumerate(zip(a.args[:-1], b.args[:-1])):
                if sc is None or i in sc:
                    x, y = self.ren(x, ma), self.ren(y, mb)
                if not self.eqs(x, y, ctx):
                    return False
            return True
        return all(self.eqs(x, y, ctx) for x, y in zip(a.args, b.args))

    def ren(self, x, m):
        if isinstance(x, T):
            return t.subst(x, m)
        if isinstance(x, tuple):
            return tuple(self.ren(y, m) for y in x)
        return x

    def eqs(self, x, y, ctx):
        if isinstance(x, T) and isinstance(y, T):
            return self.eq(x, y, ctx)
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(self.eqs(p, q, ctx) for p, q in zip(x, y))
        return x == y

    def mono(self, m, n, ctx):
        m, n = list(m), list(n)
        left = [z for z in n if z not in m]
        for a, e in [z for z in m if z not in n]:
            hit = next((i for i, (b, f) in enumerate(left) if e == f and self.eq(a, b, ctx)), None)
            if hit is None:
                return False
            left.pop(hit)
        return not left


def chosen(x):
    """the choices a term makes anywhere inside, on conditions of the whole term"""
    return {y for y in t.subterms(x) if y.op == "ite" and not t.freeset(y.args[0])}


def fixed(x, c):
    """a term restated for the cases in which a condition holds"""
    known = {}
    for _ in range(8):
        m = {}
        for y in chosen(x):
            d = y.args[0]
            if d not in known:
                known[d] = 1 if d is c or implies(c, d) else 2 if not_(d) is c or implies(c, not_(d)) else 0
            if known[d]:
                m[y] = y.args[known[d]]
        if not m:
            break
        x = t.subst(x, m)       # what replaces a choice may contain others
    return x


def bycases(a, b, ctx, depth=3):
    """equal in every case of the choices made deep inside only one of the terms"""
    if Cases().eq(a, b, ctx):
        return True
    if depth == 0:
        return False
    A, B = {y.args[0] for y in chosen(a)}, {y.args[0] for y in chosen(b)}
    cs = set()
    for c in A ^ B:
        while c.op in ("not", "and", "or"):
            c = c.args[0] if c.op == "not" else c.args[0][0]
        cs.add(not_(c) if not_(c) in cs else c)
    cs = [c for c in cs if c not in ctx and not_(c) not in ctx]
    if not cs or len(cs) > 3:
        return False
    c = min(cs, key=t.height)
    for d in (c, not_(c)):
        if t.sat(and_(*(ctx + (d,)))) and not bycases(fixed(a, d), fixed(b, d), tuple(fixed(x, d) for x in ctx) + (d,), depth - 1):
            return False
    return True


def samevalue(a, b, ctx=()):
    """ctx: what holds wherever the values matter"""
    if TOTAL[0] <= 0:
        return False
    t0 = time.time()
    try:
        return bycases(a, b, ctx)
    except (Out, t.TooBig):
        return False
    finally:
        TOTAL[0] -= time.time() - t0
