"""Loops as values: what a loop leaves in each location it modifies.

The body is evaluated once on symbolic loop-state (`mu`) terms; the recurrences this yields are solved where
they have a closed form (counters, index positions, sums, products, quantifiers, element-wise and accumulating
updates, appends) and otherwise kept as canonical recurrences (`iter`).  The number of iterations is read off the
header condition; early exits become `first`/`exists` terms over the iteration number.
"""
from . import terms as t
from .terms import (mk, num, ZERO, ONE, TRUE, FALSE, add, sub, mul, and_, or_, not_, atom, ite, cmp,
                    le0, is_const, const, select, size_of, sizes_of, ssize_of, cellt, subst, freeset, nonneg,
                    contains, topoly, frompoly, INFINITE, binder, exists, size_of)

UNROLL = 16
_mu = [0]


def newmu(init, noshape, noelem=False):
    _mu[0] += 1
    m = mk("mu", _mu[0], "m")
    if init is None:
        return m
    w = t.view_of(init)
    if w is not None:
        t.VIEWOF[m] = w
    if t.is_idx(init):
        t.IDXV.add(m)
        t.LEN[m] = size_of(init)
        return m
    if t.isbool(init):
        return mk("atom", m)
    if init.op not in ("n", "poly", "null", "undef") and not noshape:
        t.LEN[m] = size_of(init)
        if not t.is_idx(init):
            t.SIZES[m] = sizes_of(init)
            if not noelem:
                t.ELEMONLY[m] = init
    return m


def sameelems(v, m):
    """v is m with some elements overwritten by values of the same shape"""
    for _ in range(200):
        if v is m:
            return True
        if v.op == "ite":
            return sameelems(v.args[1], m) and sameelems(v.args[2], m)
        if v.op != "wr":
            return False
        b, k, x = v.args
        if x.op not in ("n", "poly") and not t.isbool(x):
            y = select(b, k)
            if size_of(x) is not size_of(y) or sizes_of(x) is not sizes_of(y):
                return False
        v = b
    return False


def muvar(m):
    return m.args[0] if m.op == "atom" else m


def affine(p, k):
    """p = c*k + r with constant c, r free of k -> (c, r)"""
    if k not in freeset(p):
        return (0, p)
    if p is k:
        return (1, ZERO)
    if p.op != "poly":
        return None
    c = None
    rest = {}
    for m, x in p.args[0]:
        if len(m) == 1 and m[0] == (k, 1):
            c = x
        elif any(k in freeset(a) for a, e in m):
            return None
        else:
            rest[m] = x
    if c is None:
        return None
    return (c, frompoly(rest))


def nn(n):
    if n is INFINITE or n in t.NONNEG or (is_const(n) and const(n) >= 0) or le0(t.neg(n)) is TRUE:
        return n
    if n.op in ("first", "ssize", "len"):
        return n
    if n.op == "min":
        return n
    return ite(le0(n), ZERO, n)


def lt(a, b):
    if b is INFINITE:
        return TRUE
    return le0(add(sub(a, b), ONE))


class Loop:
    def __init__(self, I, st, fr, node, cond, body, inc, dead=()):
        self.I, self.st, self.fr, self.node, self.dead = I, st, fr, node, set(dead)
        self.cond, self.body, self.inc = cond, body, inc

    # -------------------------------------------------------------- helpers
    def trial_pass(self, vals):
        """one iteration on a state in which the modified cells hold vals"""
        I = self.I
        I.trial += 1
        nh = [[len(l) for _, l in h] for h in I.handlers]
        try:
            x = I.St(dict(self.st.c), TRUE)
            x.c.update(vals)
            c = atom(self.cond(x))
            head = x.copy()
            if c is FALSE:
                return head, c, None, [], []
            fl = self.body(x)
            n = I.merge([fl.norm] + fl.cont)
            if n is not None:
                self.inc(n)
            return head, c, n, fl.brk, fl.ret
        finally:
            for h, ls in zip(I.handlers, nh):
                for (ty, l), q in zip(h, ls):
                    del l[q:]
            I.trial -= 1

    def value(self, s, key):
        return s.c[key] if key in s.c else self.I.load(s, self.I.ref(key[0], *key[1]))

    def modified(self, before, states):
        I = self.I
        out = set()
        for s in states:
            if s is None:
                continue
            for key, v in s.c.items():
                old = before.get(key)
                if old is v:
                    continue
                if old is None:
                    if key[0][0] in ("I", "G", "P", "H"):
                        base = I.load(self.st, I.ref(key[0], *key[1]))
                        if base is v:
                            continue
                        # written through a longer path than the entry state has
                        pre = next((p for p in (key[1][:i] for i in range(len(key[1]))) if (key[0], p) in self.st.c), None)
                        if pre is not None:
                            key = (key[0], pre)
                        out.add(key)
                    continue
                out.add(key)
            for key in before:
                if key not in s.c and key[0][0] not in ("T",):
                    pass
        return out

    # -------------------------------------------------------------- main
    def run(self):
        from .interp import Flow, St
        I, fr, node = self.I, self.fr, self.node
        entry = self.st
        lid = (fr.id, I.nid(node))
        where = I.where(fr, node)
        # value of the condition on entry
        head, c, n, brk, ret = self.trial_pass({})
        if c is FALSE:
            out = entry.copy()
            self.cond(out)
            return Flow(out)
        if n is None:
            return self.once()
        M = set(I.loopmods.get(lid, ())) | self.modified(entry.c, [head, n] + brk + [s for s, _ in ret])
        noshape, noelem = (set(x) for x in I.loopshape.get(lid, ((), ())))
        for _ in range(25):
            init = {key: self.value(entry, key) for key in M}
            vals, mus, offs = {}, {}, {}
            for key in M:
                v = init[key]
                if v.op == "ptr":
                    m = newmu(v.args[1], True)
                    vals[key] = mk("ptr", v.args[0], m)
                    mus[key] = m
                    offs[key] = v.args[0]
                else:
                    m = newmu(v, key in noshape, key in noelem)
                    vals[key] = m
                    mus[key] = muvar(m)
            head, c, n, brk, ret = self.trial_pass(vals)
            if n is None:
                # cannot complete an iteration in the general state
                return self.once()
            base = dict(entry.c)
            base.update(vals)
            more = self.modified(base, [head, n] + brk + [s for s, _ in ret]) - M
            if more:
                M |= more
                for key in more:
                    init[key] = self.value(entry, key)
                    mus[key] = muvar(newmu(init[key], True))
                nxt = {key: self.value(n, key) for key in M}
                self.why = ("more", more)
                continue
            nxt = {key: self.value(n, key) for key in M}
            bad = set()
            for key in M:
                m = mus[key]
                if key in offs:
                    v = nxt[key]
                    if not (v.op == "ptr" and v.args[0] is offs[key]):
                        I.unk("pointer changes object in loop", fr, node)
                    continue
                if m in t.SIZES and key not in noshape:
                    v = nxt[key]
                    if v is not m and not self.sameshape(v, m, init[key]):
                        bad.add(key)
                    elif v is not m and m in t.ELEMONLY and not sameelems(v, m):
                        bad.add(key)
                        noelem.add(key)
            if bad:
                noshape |= bad - noelem
                self.why = ("bad", bad)
                continue
            break
        else:
            I.unk("loop state does not stabilise %s" % (self.why,), fr, node)
        I.loopmods[lid] = set(M)
        I.loopshape[lid] = set(noshape), set(noelem)
        # raw recurrences (pointers as offsets)
        rec = {}
        for key in M:
            v, i0 = nxt[key], init[key]
            if key in offs:
                v = v.args[1] if v.op == "ptr" else mk("unknown", "ptr")
                i0 = i0.args[1]
            rec[key] = (i0, v)
        self.k = k = t.fresh()
        nonneg(k)
        self.at = {}
        order = [key for key in M if rec[key][1] is mus[key] or rec[key][1] is mk("atom", mus[key])]
        for key in order:           # not modified after all
            self.at[key] = (lambda v: (lambda kk: v))(rec[key][0])
        self.mus, self.offs, self.rec = mus, offs, rec
        self.inductions([key for key in M if key not in self.at])
        # header condition and exits in terms of k and the remaining loop state
        cond_k = self.tok(c)
        N, rest, how = self.domain(cond_k)
        if N is not None and is_const(N) and N is not INFINITE and const(N) <= UNROLL and rest is TRUE:
            return self.unroll(int(const(N)))
        if N is None:
            N = INFINITE
        self.solve([key for key in M if key not in self.at])
        self.record(where, N, how, rest)
        eh = not_(self.tok(rest))
        if brk and not ret:
            # left at the end of an iteration: as if the header asked before the next one
            tail = [s for s in brk if self.complete(s, n, M)]
            if len(tail) == len(brk):
                p = or_(*[self.tok(s.pc) for s in tail])
                eh = or_(eh, and_(t.positive(k), subst(p, {k: sub(k, ONE)})))
                brk = []
        if eh is TRUE and N is INFINITE:
            pass
        exits = [("b", self.tok(s.pc), s, None) for s in brk] + [("r", self.tok(s.pc), s, v) for s, v in ret]
        E = or_(eh, *[p for _, p, _, _ in exits])
        n0 = nn(N)
        if E is FALSE:
            kend = n0
        else:
            kend = binder("first", [k], n0, E)
        out = Flow()
        # ---- states
        norm = []
        if not (N is INFINITE and eh is FALSE):
            s = self.state_at(kend)
            if s is not None:
                norm.append((s, None))
        else:
            I.event("Diverge", entry, fr, node, N=N)
        dom = mk("range", n0)
        conds = []
        bnd = {muvar(v): v for v in ()}
        for kind, p, s, v in exits:
            if len(exits) == 1 and eh is FALSE:
                pc = exists(dom, k, p)
            else:
                pc = and_(lt(kend, n0), subst(p, {k: kend}), not_(subst(eh, {k: kend})))
            conds.append(pc)
            x = self.exit_state(s, kend)
            x.pc = and_(entry.pc, pc)
            if kind == "b":
                norm.append((x, pc))
            else:
                out.ret.append((x, self.sub_at(v, kend) if v is not None else None))
        left = not_(or_(*conds)) if conds else TRUE
        sts = []
        for x, pc in norm:
            if pc is None:
                x.pc = and_(entry.pc, left)
            sts.append(x)
        # ---- recorded pass
        if not I.trial:
            self.recorded(k, n0, E, eh, kend)
        out.norm = I.merge(sts)
        return out

    def sameshape(self, v, m, init):
        a = size_of(v) is t.LEN.get(m)
        b = sizes_of(v) is t.rep(t.SIZES[m])
        return a and b

    def complete(self, s, n, M):
        """a state that leaves the loop is the one the iteration would end in"""
        for key in M:
            if key[0] in self.dead:
                continue
            a, b = self.value(s, key), self.value(n, key)
            if a is b:
                continue
            if t.isbool(a) and t.isbool(b) and and_(s.pc, a) is and_(s.pc, b):
                continue
            return False
        return True

    # -------------------------------------------------------------- pieces
    def once(self):
        """the body never falls through: the loop is a conditional"""
        from .interp import Flow
        I = self.I
        st = self.st
        c = atom(self.cond(st))
        out = Flow()

        def then(s):
            f = self.body(s)
            g = Flow()
            g.ret = f.ret
            n = I.merge([f.norm] + f.cont)
            if n is not None:
                self.inc(n)
            g.norm = I.merge([n] + f.brk)
            return g
        return I.branch(c, st, then, lambda s: Flow(s))

    def unroll(self, n):
        from .interp import Flow
        I = self.I
        cur = self.st
        out = Flow()
        ends = []
        for i in range(n + 1):
            if cur is None:
                break
            c = atom(self.cond(cur))
            if c is FALSE:
                ends.append(cur)
                cur = None
                break
            if c is not TRUE:
                e = cur.copy()
                e.pc = and_(cur.pc, not_(c))
                ends.append(e)
                cur.pc = and_(cur.pc, c)
            f = self.body(cur)
            out.ret += f.ret
            ends += f.brk
            cur = I.merge([f.norm] + f.cont)
            if cur is not None:
                self.inc(cur)
        if cur is not None:
            ends.append(cur)
        out.norm = I.merge(ends)
        return out

    def inductions(self, keys):
        k = self.k
        mine = self.mine = set(self.mus.values())
        changed = True
        todo = list(keys)
        while changed:
            changed = False
            for key in list(todo):
                i0, v = self.rec[key]
                m = self.mus[key]
                v = self.tok(v)
                free = set(x for x in freeset(v) if x in mine)
                if not free <= {m}:
                    continue
                f = None
                if t.isbool(i0) or v.op in t.BOOLOPS:
                    continue
                if v.op == "succ" and v.args[1] is m:
                    f = self.succ(i0, v)
                elif m in freeset(v):
                    a = affine(v, m)
                    if a is not None and a[0] == 1 and k not in freeset(a[1]):
                        step = a[1]
                        f = (lambda i0, step: lambda kk: add(i0, mul(step, kk)))(i0, step)
                        if step is ONE and (i0 in t.NONNEG or is_const(i0) and const(i0) >= 0):
                            pass
                if f is not None:
                    self.at[key] = f
                    todo.remove(key)
                    changed = True

    def succ(self, i0, v):
        """position of an index after k increments"""
        kind, _, S = v.args[0], v.args[1], v.args[2]
        if m_in(v, v.args[1], skip=1):
            return None
        if kind == "row" and i0.op == "cell" and t.same(i0.args[0], S):
            return lambda kk: cellt(S, add(i0.args[1], kk))
        if kind == "col" and i0.op == "tcell" and t.same(i0.args[0], S):
            return lambda kk: mk("tcell", t.rep(S), add(i0.args[1], kk))
        if kind == "map":
            dims = v.args[3]
            if not zero_on(i0, dims):
                return None
            return lambda kk: mcell(i0, dims, S, kk)
        return None

    def tok(self, v):
        """replace solved loop state by its value at iteration k"""
        if v is None:
            return None
        return self.sub_at(v, self.k)

    def sub_at(self, v, kk):
        m = {}
        for key, f in self.at.items():
            if self.mus[key] in freeset(v):
                x = f(kk)
                m[self.mus[key]] = x
        if kk is not self.k and self.k in freeset(v):
            m[self.k] = kk
        return sub_mu(v, m)

    def domain(self, c):
        """(number of iterations, remaining condition, description)"""
        k = self.k
        cs = list(c.args[0]) if c.op == "and" else [c]
        N = None
        rest = []
        how = None
        for f in cs:
            if f is TRUE:
                continue
            n = self.bound(f)
            if n is None:
                rest.append(f)
            else:
                how = f
                N = n if N is None else t.fmin2(N, n)
        if N is None:
            # a limit chosen between several
            fs = [f for f in rest if k in freeset(f) and not any(x in self.mine for x in freeset(f))]
            n = self.chosen(and_(*fs)) if fs else None
            if n is not None:
                return n, and_(*[f for f in rest if f not in fs]), fs[0]
        return N, and_(*rest), how

    def chosen(self, f, depth=0):
        if f is FALSE:
            return ZERO
        if f.op in ("le", "not"):
            return self.bound(f)
        if depth > 4 or f.op not in ("and", "or"):
            return None
        acc = {}
        t._atoms(f, acc)
        for c in acc:
            if self.k in freeset(c):
                continue
            a, b = (self.chosen(subst(f, {c: x}), depth + 1) for x in (TRUE, FALSE))
            return None if a is None or b is None else ite(c, a, b)
        return None

    def bound(self, f):
        k = self.k
        if any(x in self.mine for x in freeset(f)) or k not in freeset(f):
            return None
        if f.op == "le":
            a = affine(f.args[0], k)
            if a is None or a[0] <= 0:
                return None
            c, r = a
            if c == 1:
                return sub(ONE, r)
            q = t.neg(r)
            if all(x.denominator == 1 for x in topoly(q).values()):
                return add(t.idiv(q, num(c)), ONE)
            return None
        if f.op == "not" and f.args[0].op in ("eq",):
            a = affine(f.args[0].args[0], k)
            if a is None or abs(a[0]) != 1:
                return None
            n = t.neg(a[1]) if a[0] == 1 else a[1]
            return n
        if f.op == "flt" or f.op == "fle":
            return None
        return None

    # -------------------------------------------------------------- solving recurrences
    def solve(self, keys):
        # strongly connected components, dependencies first
        recs = {key: self.tok(self.rec[key][1]) for key in keys}
        bymu = {self.mus[key]: key for key in keys}
        dep = {key: [bymu[x] for x in mus_in_order(recs[key]) if x in bymu] for key in keys}
        for comp in sccs(keys, dep):
            for key in comp:
                recs[key] = self.tok(recs[key])
            todo = list(comp)
            if len(comp) == 1:
                key = comp[0]
                f = self.classify(self.mus[key], self.rec[key][0], recs[key])
                if f is not None:
                    self.at[key] = f
                    todo = []
            if not todo:
                continue
            # cells of the component solvable although they look at each other do not exist: keep a recurrence
            fs = {key: self.bundle(key, comp, recs, dep) for key in todo}
            for key in todo:
                self.at[key] = fs[key]

    def bundle(self, root, comp, recs, dep):
        order = []

        def visit(x):
            if x in order or x not in comp:
                return
            order.append(x)
            for y in [self.bykey(mm, comp) for mm in mus_in_order(recs[x])]:
                if y is not None:
                    visit(y)
        visit(root)
        mus = [self.mus[x] for x in order]
        inits = tuple(self.rec[x][0] for x in order)
        steps = tuple(recs[x] for x in order)
        i0 = self.rec[root][0]
        mu = self.mus[root]
        k = self.k

        isb = t.isbool(i0) or t.isbool(steps[0])

        def f(kk):
            r = binder("iter", mus + [k], 0, inits, steps, kk, seq=True)
            if r.op == "iter":
                if mu in t.SIZES and r not in t.SIZES:
                    t.SIZES[r] = t.SIZES[mu]
                    if mu in t.ELEMONLY:
                        t.ELEMONLY[r] = i0
                if mu in t.LEN and r not in t.LEN:
                    t.LEN[r] = t.LEN[mu]
                if mu in t.IDXV:
                    t.IDXV.add(r)
            return atom(r) if isb else r
        return f

    def bykey(self, mu, comp):
        for x in comp:
            if self.mus[x] is mu:
                return x
        return None

    def classify(self, mu, i0, v):
        """v is the value after iteration k in terms of k and mu (its value before); -> function of k or None"""
        k = self.k
        free = freeset(v)
        if any(x in self.mine and x is not mu for x in free):
            return None
        if t.isbool(i0) or t.isbool(v):
            i0, v = atom(i0), atom(v)
            a, b = sub_mu(v, {mu: TRUE}), sub_mu(v, {mu: FALSE})
            if a is b:
                return self.memoryless(i0, a)
            if b is FALSE:
                return lambda kk: and_(i0, t.forall(mk("range", kk), k, a))
            if a is TRUE:
                return lambda kk: or_(i0, exists(mk("range", kk), k, b))
            return None
        if mu not in free:
            return self.memoryless(i0, v)
        # constants assigned under a condition
        if v.op == "ite" and mu not in freeset(v.args[0]):
            c, a, b = v.args
            if b is mu and mu not in freeset(a) and k not in freeset(a):
                return lambda kk: ite(exists(mk("range", kk), k, c), a, i0)
            if a is mu and mu not in freeset(b) and k not in freeset(b):
                return lambda kk: ite(exists(mk("range", kk), k, not_(c)), b, i0)
        r = self.elementwise(mu, i0, v)
        if r is not None:
            return r
        d = delta(v, mu)
        if d is not None:
            return lambda kk: add(i0, t.ksum(kk, k, d))
        d = ratio(v, mu)
        if d is not None:
            return lambda kk: mul(i0, binder("prod", [k], kk, d))
        # a product divided by its leading factors, one after the other
        if v.op == "idiv" and v.args[0] is mu and i0.op == "prod":
            n, body, bv = i0.args
            if v.args[1] is subst(body, {bv: k}):
                def f(kk):
                    j = t.fresh(bv)
                    return binder("prod", [j], sub(n, kk), subst(body, {bv: add(j, kk)}))
                return f
        if v.op == "pyinsert" and v.args[0] is mu and v.args[1] is add(size_of(i0), k):
            v = mk("app", mu, v.args[2])        # inserted at the end
        d = appended(v, mu)
        if d is not None:
            g, x = d
            if g is TRUE:
                def f(kk):
                    return concat(i0, t.fam(mk("range", kk), k, x))
            else:
                def f(kk):
                    return concat(i0, binder("fseq", [k], kk, g, x))
            return f
        return None

    def memoryless(self, i0, v):
        k = self.k

        def f(kk):
            if is_const(kk):
                return i0 if const(kk) == 0 else subst(v, {k: num(const(kk) - 1)})
            last = subst(v, {k: sub(kk, ONE)})
            pos = t.positive(kk)
            return ite(pos, last, i0)
        return f

    def elementwise(self, mu, i0, v):
        """mu{key(k) := val(k)}"""
        k = self.k
        # the loop updates every element of a family independently
        if v.op in ("fam", "ndfam") :
            dom, body, bv = v.args
            x = t.fresh(bv)
            body = subst(body, {bv: x})
            el = mk("at", mu, x)
            if k in freeset(dom) or mu in freeset(dom):
                return None
            n = dom.args[0] if v.op == "fam" else None
            if v.op == "fam" and size_of(i0) is not n:
                return None
            if v.op == "ndfam" and sizes_of(i0) is not dom:
                return None
            e0 = select(i0, x)
            nu = newmu(e0, False)
            nv = muvar(nu)
            b2 = t.subst(body, {el: nu})
            if mu in freeset(b2):
                return None
            f = self.classify(nv, e0, b2)
            if f is None:
                f = lambda kk: binder("iter", [nv, k], 0, (e0,), (b2,), kk, seq=True)
            if v.op == "fam":
                return lambda kk: t.fam(dom, x, f(kk))
            return lambda kk: t.ndfam(dom, f(kk), x)
        if v.op == "mupd" and v.args[0] is mu:
            return self.nested(mu, i0, v)
        w = decompose(v, mu)
        if w is None:
            return None
        g, key, val = w
        if mu in freeset(key) or mu in freeset(g):
            return None
        if k not in freeset(key):
            # always the same element
            e0 = select(i0, key)
            nu = newmu(e0, False)
            nv = muvar(nu)
            v2 = ite(g, t.subst(val, {mk("at", mu, key): nu, select(mu, key): nu}), nu)
            if mu in freeset(v2):
                return None
            f = self.classify(nv, e0, v2)
            if f is None:
                f = lambda kk: binder("iter", [nv, k], 0, (e0,), (v2,), kk, seq=True)
            return lambda kk: t.store(i0, key, f(kk)) if not is_const(kk) or const(kk) else i0
        if t.is_idx(key):
            S = None
            if key.op == "cell" and k not in freeset(key.args[0]):
                a = affine(key.args[1], k)
                if a is not None and a[0] == 1:
                    S = key.args[0]
            if S is not None and t.same(S, sizes_of(i0)):
                off = a[1]
                v2 = self.own(val, mu, i0, key)
                if v2 is not None:
                    if off is ZERO:
                        iv = t.fresh()
                        t.IDXV.add(iv)
                        t.LEN[iv] = size_of(S)
                        gg = ite(g, v2, select(i0, key)) if g is not TRUE else v2
                        body = subst(gg, {k: t.post(S, iv)})
                        return lambda kk: binder("ndupd", [iv], i0, kk, body)
            if key.op == "tcell" and k not in freeset(key.args[0]) and t.same(key.args[0], sizes_of(i0)):
                a = affine(key.args[1], k)
                S = key.args[0]
                if a is not None and a[0] == 1 and a[1] is ZERO:
                    v2 = self.own(val, mu, i0, key)
                    if v2 is not None:
                        iv = t.fresh()
                        t.IDXV.add(iv)
                        t.LEN[iv] = size_of(S)
                        gg = ite(g, v2, select(i0, key)) if g is not TRUE else v2
                        body = subst(gg, {k: t.tposr(S, iv)})

                        def f(kk):
                            if kk is ssize_of(S):
                                return t.ndfam(S, body, iv)
                            return binder("tupd", [iv], i0, kk, body)
                        return f
            if key.op == "mcell" and k not in freeset(key.args[0]) and k not in freeset(key.args[1]):
                p0, dims, sub_i = key.args
                PS = sub_i.args[0] if sub_i.op == "cell" else None
                if PS is not None and sub_i.args[1] is k:
                    v2 = self.own(val, mu, i0, key)
                    if v2 is not None:
                        iv = t.fresh()
                        t.IDXV.add(iv)
                        t.LEN[iv] = size_of(PS)
                        gg = ite(g, v2, select(i0, key)) if g is not TRUE else v2
                        body = subst(gg, {k: t.post(PS, iv)})

                        def f(kk):
                            if kk is ssize_of(PS):
                                return binder("mupd", [iv], i0, p0, dims, PS, body)
                            return binder("mupdn", [iv], i0, kk, p0, dims, PS, body)
                        return f
        else:
            a = affine(key, k)
            if a is not None and abs(a[0]) == 1:
                c, off = a
                v2 = self.own(val, mu, i0, key)
                if v2 is not None:
                    b = t.fresh()
                    nonneg(b)
                    gg = ite(g, v2, select(i0, key)) if g is not TRUE else v2
                    if c == 1:
                        body = subst(gg, {k: sub(b, off)})
                        return lambda kk: binder("upd", [b], i0, kk, off, body)
                    body = subst(gg, {k: sub(off, b)})
                    return lambda kk: binder("upd", [b], i0, kk, add(sub(off, kk), ONE), body)
        # accumulation
        cur = select(mu, key)
        d = delta(val, cur)
        if d is not None and mu not in freeset(d):
            if g is not TRUE:
                d = ite(g, d, ZERO)
            return lambda kk: binder("accum", [k], i0, kk, key, d)
        # nested complementary mapped loops are handled on the mupd term
        return None

    def nested(self, mu, i0, v):
        """loop over the complementary coordinates around an update of the coordinates dims"""
        k = self.k
        _, p0, dims, PS, body, bv = v.args
        if p0.op != "mcell" or p0.args[2].op != "cell" or p0.args[2].args[1] is not k:
            return None
        q, inv, sub_i = p0.args
        PS2 = sub_i.args[0]
        S = sizes_of(i0)
        if any(k in freeset(x) for x in (q, inv, PS2, dims, PS)) or q is not cellt(S, ZERO):
            return None
        if not complementary(dims, inv) or t.projsizes(S, dims) is not PS or t.projsizes(S, inv) is not PS2:
            return None
        iv, x = t.fresh(), t.fresh()
        for y, s_ in ((iv, S), (x, PS)):
            t.IDXV.add(y)
            t.LEN[y] = size_of(s_)
        body = subst(body, {bv: x})
        key = mk("mcell", p0, dims, x)
        b2 = subst(body, {key: iv})
        b2 = subst(b2, {p0: mk("oncoord", iv, inv)})
        b2 = subst(b2, {x: t.projt(iv, dims), k: t.post(PS2, t.projt(iv, inv))})
        own = select(mu, iv)
        b2 = subst(b2, {own: select(i0, iv)})
        if mu in freeset(b2):
            return None

        def f(kk):
            if kk is ssize_of(PS2):
                return t.ndfam(S, b2, iv)
            return binder("cupd", [iv], i0, kk, inv, dims, b2)
        return f

    def own(self, val, mu, i0, key):
        """val refers to mu only at the element being written"""
        if mu not in freeset(val):
            return val
        cur = select(mu, key)
        v2 = subst(val, {cur: select(i0, key)})
        if mu in freeset(v2):
            return None
        return v2

    # -------------------------------------------------------------- leaving
    def cells_at(self, kk):
        out = {}
        for key, f in self.at.items():
            v = f(kk)
            if key in self.offs:
                v = mk("ptr", self.offs[key], v)
            out[key] = v
        return out

    def state_at(self, kk):
        """state when the header condition is evaluated for the last time"""
        from .interp import St
        I = self.I
        x = St(dict(self.st.c), self.st.pc)
        x.c.update(self.cells_at(kk))
        I.trial += 1
        try:
            self.cond(x)
        finally:
            I.trial -= 1
        return x

    def exit_state(self, s, kk):
        from .interp import St
        m = {}
        for key, f in self.at.items():
            m[self.mus[key]] = f(kk)
        m[self.k] = kk
        out = {}
        for key, v in s.c.items():
            out[key] = sub_mu(v, m)
        return St(out, TRUE)

    def recorded(self, k, n0, E, eh, kend):
        """evaluate one general iteration with events recorded"""
        from .interp import St
        I = self.I
        start = len(I.events)
        na = len(I.assumes)
        x = St(dict(self.st.c), TRUE)
        x.c.update(self.cells_at(k))
        self.cond(x)
        x.pc = TRUE
        fl = self.body(x)
        n = I.merge([fl.norm] + fl.cont)
        if n is not None:
            self.inc(n)
        dom = mk("range", n0 if E is FALSE else (kend if (eh is not FALSE) else n0))
        for e in I.events[start:]:
            e.loops.append((k, dom, e.pc))
            if e.kind in ("Throw",):
                e.pc = and_(self.st.pc, exists(dom, k, e.pc))
            else:
                e.pc = and_(self.st.pc, e.pc)
        for i in range(na, len(I.assumes)):
            I.assumes[i] = t.forall(dom, k, I.assumes[i])

    def record(self, where, N, how, rest):
        I = self.I
        I.loops_seen[where] = (N, rest, self)
        if not I.trial:
            I.loop_list.append((where, N, rest))


def m_in(v, m, skip):
    return any(contains(x, m) for i, x in enumerate(v.args) if i != skip and isinstance(x, t.T))


def sub_mu(v, m):
    """substitute loop state; boolean loop state occurs as atom(mu)"""
    if not m:
        return v
    mm = {}
    for a, b in m.items():
        if a.op == "mu" and t.isbool(b):
            mm[mk("atom", a)] = b
            mm[a] = t._num(b) if False else b
        else:
            mm[a] = b
    return subst(v, mm)


def mus_in_order(v):
    out = []
    seen = set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.op == "mu":
            out.append(x)
            return
        if not any(y.op == "mu" for y in freeset(x)):
            return
        for c in t.children(x):
            go(c)
    go(v)
    return out


def sccs(nodes, dep):
    index, low, stack, on, out = {}, {}, [], set(), []
    cnt = [0]

    def visit(v):
        index[v] = low[v] = cnt[0]
        cnt[0] += 1
        stack.append(v)
        on.add(v)
        for w in dep[v]:
            if w not in index:
                visit(w)
                low[v] = min(low[v], low[w])
            elif w in on:
                low[v] = min(low[v], index[w])
        if low[v] == index[v]:
            c = []
            while True:
                w = stack.pop()
                on.discard(w)
                c.append(w)
                if w == v:
                    break
            out.append(c)
    for v in nodes:
        if v not in index:
            visit(v)
    return out


def delta(v, mu):
    """v - mu when that does not depend on mu"""
    if v is mu:
        return ZERO
    if v.op == "ite":
        if contains(v.args[0], mu):
            return None
        a, b = delta(v.args[1], mu), delta(v.args[2], mu)
        if a is None or b is None:
            return None
        return ite(v.args[0], a, b)
    if not (v.op == "poly" or v is mu):
        return None
    d = sub(v, mu)
    return None if contains(d, mu) else d


def ratio(v, mu):
    if v is mu:
        return ONE
    if v.op == "ite":
        if contains(v.args[0], mu):
            return None
        a, b = ratio(v.args[1], mu), ratio(v.args[2], mu)
        if a is None or b is None:
            return None
        return ite(v.args[0], a, b)
    if v.op != "poly":
        return None
    q = {}
    for m, c in v.args[0]:
        d = dict(m)
        if d.get(mu) != 1:
            return None
        del d[mu]
        q[tuple(sorted(d.items(), key=lambda xe: xe[0].id))] = c
    r = frompoly(q)
    return None if contains(r, mu) else r


def appended(v, mu):
    if v.op == "app" and v.args[0] is mu and not contains(v.args[1], mu):
        return TRUE, v.args[1]
    if v.op == "ite" and not contains(v.args[0], mu):
        c, a, b = v.args
        if b is mu and a.op == "app" and a.args[0] is mu and not contains(a.args[1], mu):
            return c, a.args[1]
        if a is mu and b.op == "app" and b.args[0] is mu and not contains(b.args[1], mu):
            return not_(c), b.args[1]
    return None


def decompose(v, mu):
    """v = guard ? mu{key := val} : mu"""
    if v.op in ("wr", "wrv") and v.args[0] is mu:
        return TRUE, v.args[1], v.args[2]
    if v.op == "ite":
        c, a, b = v.args
        if b is mu:
            w = decompose(a, mu)
            return None if w is None else (and_(c, w[0]), w[1], w[2])
        if a is mu:
            w = decompose(b, mu)
            return None if w is None else (and_(not_(c), w[0]), w[1], w[2])
        x, y = decompose(a, mu), decompose(b, mu)
        if x is not None and y is not None and x[1] is y[1]:
            cur = select(mu, x[1])
            va = ite(x[0], x[2], cur)
            vb = ite(y[0], y[2], cur)
            return TRUE, x[1], ite(c, va, vb)
    if v.op == "mupd" and v.args[0] is mu:
        return None
    return None


def concat(a, b):
    if a.op == "list" and not a.args[0]:
        return b
    if b.op == "list" and not b.args[0]:
        return a
    n = size_of(a)
    if n is ZERO:
        return b
    return mk("concat", a, b)


def mcell(p0, dims, S, kk):
    """position p0 with the coordinates dims replaced by the kk-th index of the sizes they span"""
    PS = t.projsizes(S, dims)
    if is_const(kk) and const(kk) == 0:
        return p0
    if kk is ssize_of(PS):
        return p0
    return mk("mcell", p0, dims, cellt(PS, kk))


def zero_on(p, dims):
    """the coordinates dims of position p are certainly zero"""
    if p.op == "cell":
        return p.args[1] is ZERO
    if p.op == "mcell":
        return complementary(p.args[1], dims) and zero_on(p.args[0], dims)
    return False


def complement_of(dims, n):
    """the indices below n that do not occur in dims, in increasing order"""
    k, j = t.fresh(), t.fresh()
    nonneg(k)
    nonneg(j)
    c = not_(exists(mk("range", size_of(dims)), j, cmp("==", select(dims, j), k, False)))
    return binder("fseq", [k], n, c, k)


def complementary(a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == "fseq" and complement_of(y, x.args[0]) is x:
            return True
    return False
