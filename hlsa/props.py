"""Obligations of each property: what is analysed and what has to be true of it."""
import re
from . import late, model, terms as t
from .engine import V, Unit, World, same, equal, RAW, digest
from .terms import mk, or_, FALSE, TRUE

_worlds = {}


def world(cfg):
    if cfg not in _worlds:
        _worlds[cfg] = World(cfg)
    return _worlds[cfg]


# ------------------------------------------------------------------ projections
def parts(s):
    """named parts of what a function returns"""
    r = {}
    v = s.ret
    if v is None:
        return r
    if v.op == "list" and len(v.args[0]) == 2 and v.args[0][0].op == "rec" and v.args[0][1].op == "rec" \
            and v.args[0][1].args[0].op == "pydict":
        for k, x in v.args[0][0].args[1]:
            r["result." + k] = x
        for k, x in v.args[0][1].args[1]:
            r["stats." + k[1:-1]] = x
    elif v.op == "rec" and v.args[0].op == "rlist":
        for k, x in v.args[1]:
            r["list." + k[1:-1]] = x
    elif named(v) is not None:
        r.update(named(v))
    else:
        r["ret"] = v
    return r


def named(v):
    """a list filled element by element under constant names"""
    r = {}
    while v.op in ("wr", "wrv") and v.args[1].op == "str":
        r.setdefault("list." + v.args[1].args[0], v.args[2])
        v = v.args[0]
    return r if r and v.op == "rlist" else None


def opaque_names(v):
    """functions a term leaves uninterpreted"""
    out = set()
    if v is None:
        return out
    for x in t.subterms(v):
        if x.op == "call":
            out.add(x.args[0])
        elif x.op == "out":
            out.add(x.args[0][0])
    return out


def repo_opaque(w, v):
    return {q for q in opaque_names(v) if q in w.ref.byq or q in w.cur.byq}


def kernel_mismatch(u, a, b):
    """the two terms leave different repository functions uninterpreted: no comparison"""
    x, y = repo_opaque(u.w, a), repo_opaque(u.w, b)
    if x == y:
        return None
    d = sorted(x ^ y)
    # a function both versions have is comparable; one that appeared or vanished is not
    d = [q for q in d if not (q in u.w.ref.byq and q in u.w.cur.byq)]
    return "uninterpreted functions differ: " + ", ".join(d) if d else None


# what holds of every object of a class between calls: established by its constructors, kept by its operations
LENGTHS = {"Index": ("m_dim", ("m_idx", "m_sizes")), "TransposedIndex": ("m_dim", ("m_idx", "m_sizes")),
           "MappedIndex": ("m_dim", ("m_sizes", "m_mappedIndex")), "FixedIndex": ("m_freeDim", ("m_freeSizes", "m_freeIndex")),
           "NDArray": ("m_dim", ("m_sizes", "m_offsets"))}
NOTEMPTY = ("Index", "TransposedIndex")


def invariants(u):
    """substitution expressing what holds on entry of a member function of a primitive class"""
    f = u.rf
    c = (f.clsq or "").split("<")[0] if f is not None else ""
    if c not in LENGTHS:
        return {}
    m = {}
    this = lambda n: t.get(mk("in", ("I", "this")), n)
    one = lambda: t.add(t.ONE, t.nonneg(t.fresh()))
    if f.d.get("ctor"):
        if c in NOTEMPTY or c == "FixedIndex":        # precondition (asserted): at least one dimension
            m[t.length(mk("in", ("I", "p0")))] = one()
        return m
    d, vs = LENGTHS[c]
    n = one() if c in NOTEMPTY else this(d)
    for v in vs:
        m[t.length(this(v))] = n
    if c in NOTEMPTY:
        m[this(d)] = n
    return m


def under(m, x):
    """a term restated under what a substitution expresses"""
    t.PEEL[0] = True
    try:
        return t.subst(x, m)
    finally:
        t.PEEL[0] = False


def cmp_term(u, rule, what, a, b):
    v = same(u, rule, what, a, b)
    if v.ok is False and a is not None and b is not None:
        m = invariants(u)
        if m and equal(under(m, a), under(m, b)):
            return V(rule, v.subject, True, "equal for every object satisfying the invariants of its class")
    if v.ok is False and a is not None and b is not None:
        m = kernel_mismatch(u, a, b)
        if m:
            return V(rule, v.subject, None, m, v.loc)
    return v


def kernels_of(w, names, seen):
    """verdicts on the uninterpreted functions themselves"""
    out = []
    todo = sorted(names)
    while todo:
        q = todo.pop()
        if q in seen:
            continue
        seen.add(q)
        for f in w.ref.byq.get(q, []):
            vs, more = whole(w, "key:" + f.key, "kernel")
            out += vs
            todo += sorted(more - seen)
    return out


def whole(w, name, rule, throws=True):
    """a function as a whole equals the reference: value, effects, errors"""
    u = Unit(w, name)
    title = u.rf.q if u.rf is not None else name
    if u.rf is None:
        return [], set()
    if u.cf is None:
        return [V(rule, title, None, "function not present any more; callers are compared without it")], set()
    if u.untouched() and u.rf.clsq is None and False:
        return [V(rule, title, True, "code as reviewed")], set()
    u.name = title
    u.unit = name
    r, c = summ(u, name)
    if r is None or c is None or r.failed or c.failed:
        if u.untouched():
            return [V(rule, title, True, "code as reviewed (no normal form: %s)" % ((r and r.failed) or "")[:80])], set()
        return [V(rule, title, None, (c and c.failed) or (r and r.failed) or "no summary", u.where())], set()
    lay = [k for k in {u.rf.cls} if k and not w.samelayout(k)]
    vs = []
    names = set()
    if r.ret is not None or c.ret is not None:
        vs.append(cmp_term(u, rule, "returned value", r.ret, c.ret))
        names |= opaque_names(r.ret)
    for k in sorted(set(r.out) | set(c.out), key=str):
        a, b = r.out.get(k), c.out.get(k)
        if a is None or b is None:
            # untouched on one side
            I = (c if a is None else r).interp
            if k[0][0] in ("I", "P", "G"):
                base = I.base(k[0], k[1])
                a = base if a is None else a
                b = base if b is None else b
        vs.append(cmp_term(u, rule, "effect on %s" % cellname(k), a, b))
        names |= opaque_names(a)
    if throws:
        vs += throw_equiv(u, r, c, rule)
    if lay:
        vs = [v if v.ok is not False else V(v.rule, v.subject, None, "representation of %s changed" % lay[0], v.loc) for v in vs]
    return vs, {q for q in names if q in w.ref.byq}


def summ(u, name):
    nm, u.name = u.name, name
    try:
        c = u.cur
        r = u.ref
    finally:
        u.name = nm
    return r, c


def cellname(k):
    root, path = k
    if root[0] == "I":
        return ".".join([str(root[1])] + [str(p) for p in path])
    if root[0] == "P":
        return "*(%s)%s" % (t.show(root[1], 3)[:40], "".join("." + str(p) for p in path))
    return str(root[:2]) + "".join("." + str(p) for p in path)


def implies(a, b):
    try:
        if t.implies(a, b):
            return True
        x, y = t.inctx(a), t.inctx(b)
        if (x is not a or y is not b) and t.implies(x, y):
            return True
        # the equalities of the premise hold in the conclusion, too
        for e in (x.args[0] if x.op == "and" else (x,)):
            p = t._eqpair(e)
            if p:
                y = t.subst(y, {p[1]: p[0]})
        return t.implies(x, y) or t.implies(x, relevant(x, y))
    except t.TooBig:
        return None


def relevant(a, f):
    """the alternatives of f that speak about what a speaks about"""
    if f.op != "or":
        return f
    acc = {}
    t._atoms(a, acc)
    out = []
    for d in f.args[0]:
        m = {}
        t._atoms(d, m)
        if any(k in acc for k in m):
            out.append(d)
    return or_(*out) if out else FALSE


def covered(throws, x, all_, conds=()):
    """a throw's condition, where no earlier one applied, is among the conditions all_"""
    if x.cond is FALSE:
        return True
    ok = implies(x.cond, all_)
    if ok:
        return True
    before = []
    for y in throws:
        if y is x:
            break
        before.append(y.cond)
    # only the alternatives that speak about the same quantities can matter
    near = [c for c in before if t._eqpair(t.not_(c)) is not None and any(t.contains(x.cond, z) for z in t._eqpair(t.not_(c)))]
    if near:
        ok2 = implies(t.and_(x.cond, *[t.not_(c) for c in near]), all_)
        if ok2:
            return True
        ok = None if ok2 is None else ok
    # restated, where no earlier error applied
    try:
        ctx = t.not_(or_(*before)) if before else TRUE
        ctx = ctx.args[0] if ctx.op == "and" else (ctx,)
        a, b = late.both(*late.merged(ctx, x.cond, all_))
        if a is x.cond and b is all_:
            return ok
        if implies(a, b):
            return True
        for c in conds:
            p, q = late.both(*late.merged(ctx, x.cond, c))
            if p is q or implies(p, q):
                return True
    except t.TooBig:
        pass
    return ok


def alike_errors(r, c):
    """every error of one version is one of the other"""
    if not r.throws or not c.throws:
        return False
    a, b = r.throwcond(), c.throwcond()
    rs, cs = {x.cond for x in r.throws}, {x.cond for x in c.throws}
    return all(x.cond in cs or covered(r.throws, x, b, cs) for x in r.throws) and \
        all(x.cond in rs or covered(c.throws, x, a, rs) for x in c.throws)


def throw_equiv(u, r, c, rule):
    a, b = r.throwcond(), c.throwcond()
    subj = "%s: error condition" % u.name
    if a is b or equal(a, b):
        return [V(rule, subj, True, "%d error sites" % len(c.throws))]
    if alike_errors(r, c):
        return [V(rule, subj, True, "%d error sites, each covered" % len(c.throws))]
    inv = invariants(u)
    if inv and equal(under(inv, a), under(inv, b)):
        return [V(rule, subj, True, "equal for every object satisfying the invariants of its class")]
    why = u.undecided()
    if why:
        return [V(rule, subj, None, why, u.where())]
    m = kernel_mismatch(u, a, b)
    if m:
        return [V(rule, subj, None, m, u.where())]
    return [V(rule, subj, False, "raises under different conditions: reference %s, found %s" % (t.show(a, 4)[:200], t.show(b, 4)[:200]), u.where())]


# ------------------------------------------------------------------ entry obligations
def entry_same(cfg, name, rule, what, kernels=True, seen=None):
    """the named parts of what an entry point returns equal the reference's"""
    w = world(cfg)
    u = Unit(w, name)
    if u.rf is None:
        return []
    if u.cf is None:
        return [V(rule, name, None, "entry point not found")]
    r, c = u.ref, u.cur
    if r.failed or c.failed:
        return [V(rule, name, None, c.failed or r.failed, u.where())]
    pr, pc = parts(r), parts(c)
    vs = []
    names = set()
    for k in pr:
        if not any(re.fullmatch(x, k) for x in what):
            continue
        vs.append(cmp_term(u, rule, k, pr[k], pc.get(k)))
        names |= opaque_names(pr[k])
    if any(x == "heap" for x in what):
        for k in sorted(set(r.out) | set(c.out), key=str):
            vs.append(cmp_term(u, rule, cellname(k), r.out.get(k), c.out.get(k)))
            names |= opaque_names(r.out.get(k))
    if not vs:
        vs.append(V(rule, name, None, "nothing to compare"))
    if kernels:
        vs += kernels_of(w, {q for q in names if q in w.ref.byq}, set())
    return vs


MSG = {}


def message(prog_root, loc):
    """text of the statement at a location of the reference, to tell checks apart"""
    if loc not in MSG:
        f, l = loc.rsplit(":", 1)
        try:
            ls = open("%s/%s" % (prog_root, f)).read().split("\n")
            MSG[loc] = " ".join(ls[int(l) - 1:int(l) + 1])
        except OSError:
            MSG[loc] = ""
    return MSG[loc]


CLASSES = (
    ("C07", r"seed dimensions|invalid number of skips|seed|skips"),
    ("C06", r"not finite, or is too large|negative value in marginal|marginal sum mismatch|partial sum mismatch"),
    ("C05", r"differ in size|too small or differs|dimension mismatch|is repeated|redefined to|more than 1 dimension|"
            r"size not defined|cannot convert multidimensional"),
    ("C19", r"is not an integer|total population"),
    ("C18", r"no frequencies|invalid frequency|population cannot be negative"),
    ("C13", r"negative counts"),
)


def classify(throw):
    m = message(model.VERIF + "/ref", throw.loc)
    for c, rx in CLASSES:
        if re.search(rx, m):
            return c
    if throw.why is not None:
        if str(throw.why.op if hasattr(throw.why, "op") else throw.why).startswith("badsizes"):
            return "C12"
        if "sobdim" in str(throw.why):
            return "C15"
        if "sobdone" in str(throw.why):
            return "C17"
    return "other"


def reject(cfg, name, cls, extra=False):
    """every input the reference rejects for reasons of this class is rejected; with extra: nothing else is rejected"""
    w = world(cfg)
    u = Unit(w, name)
    rule = "rejects"
    if u.rf is None:
        return []
    if u.cf is None:
        return [V(rule, name, None, "entry point not found")]
    r, c = u.ref, u.cur
    if r.failed or c.failed:
        return [V(rule, name, None, c.failed or r.failed, u.where())]
    vs = []
    allc, allr = c.throwcond(), r.throwcond()
    cur = {x.cond for x in c.throws}
    for x in r.throws:
        if classify(x) not in cls:
            continue
        subj = "%s: input rejected at %s" % (name, x.loc)
        if x.cond in cur:
            vs.append(V(rule, subj, True, t.show(x.cond, 4)[:160]))
            continue
        ok = covered(r.throws, x, allc, cur)
        if ok:
            vs.append(V(rule, subj, True, t.show(x.cond, 4)[:160]))
            continue
        why = u.undecided() or kernel_mismatch(u, x.cond, allc) or ("condition too large" if ok is None else None)
        vs.append(V(rule, subj, None if why else False,
                    why or "no error is raised when %s (%s)" % (t.show(x.cond, 5)[:300], message(model.VERIF + "/ref", x.loc).strip()[:120]), u.where()))
    ref = {x.cond for x in r.throws}
    for x in c.throws:
        subj = "%s: error raised at %s" % (name, x.loc)
        if x.cond in ref or x.cond is FALSE:
            continue
        if attribute(u, name, x) not in cls:
            continue
        ok = covered(c.throws, x, allr, ref)
        if ok:
            vs.append(V("accepts", subj, True, "only for inputs that are to be rejected"))
            continue
        why = u.undecided() or kernel_mismatch(u, allr, x.cond) or ("condition too large" if ok is None else None)
        vs.append(V("accepts", subj, None if why else False,
                    why or "valid input rejected when %s" % t.show(x.cond, 5)[:300], u.where()))
    if not any(v.rule == "accepts" for v in vs):
        vs.append(V("accepts", "%s: nothing else is rejected" % name, True, "%d error sites" % len(c.throws)))
    return vs


def attribute(u, name, x):
    """property a new error condition speaks about, by the inputs it depends on"""
    base = name.split(":")[1]
    ps = {"ipf/3": ("C07", "C05", "C06"), "qis/3": ("C05", "C06", "C07"), "qis/2": ("C05", "C06"),
          "qisi/4": ("C07", "C05", "C06", "C07"), "qisi/3": ("C07", "C05", "C06")}.get(base)
    if base.startswith("integerise/1") or base == "integerise/1":
        return "C19"
    if base in ("integerise/2", "prob2IntFreq/2"):
        return "C18"
    if base.startswith("flatten"):
        return "C13"
    if ps is None:
        return "other"
    used = set()
    for y in t.subterms(x.cond):
        if y.op in ("in",) and y.args[0][0] == "I":
            used.add(y.args[0][1])
        if y.op == "ref" and y.args[0][0] == "I":
            used.add(y.args[0][1])
    cl = {ps[int(p[1:])] for p in used if re.fullmatch(r"p\d+", p) and int(p[1:]) < len(ps)}
    for c in ("C07", "C06", "C05"):
        if c in cl:
            return c if c != "C06" or depends_on_values(x.cond) else "C05"
    return "C05"


def depends_on_values(f):
    return any(y.op == "sum" for y in t.subterms(f)) or any(y.op == "get" and y.args[1] == "buf" for y in t.subterms(f))


# ------------------------------------------------------------------ contracts of the primitive classes
def prim_keys(cfg, entries=None, classes=RAW):
    w = world(cfg)
    if entries is None:
        keys = {k for k, f in w.ref.fns.items()}
    else:
        keys = set()
        E = w.entries(w.ref)
        for n in entries:
            f = E.get(n)
            if f is None:
                f = w.find(w.ref, n)
            if f is None:
                continue
            keys |= model.reach(w.ref, [k for k in model.calls(f.d) if k in w.ref.fns]) | ({f.key} if f.key in w.ref.fns else set())
    return sorted(k for k in keys if k in w.ref.fns and (w.ref.fns[k].clsq or "").split("<")[0] in classes and "unittest" not in w.ref.fns[k].q
                  and not private(w.ref, k))


def private(prog, k):
    """a member only its own class can call: part of the members that call it, not a contract of its own"""
    if not hasattr(prog, "_private"):
        prog._private = {(n.split("<")[0], m["n"]) for n, r in prog.records.items() for m in r.get("methods") or () if m.get("access") == 2}
        prog._private -= {(n.split("<")[0], m["n"]) for n, r in prog.records.items() for m in r.get("methods") or () if m.get("access") != 2}
    f = prog.fns[k]
    return ((f.cls or "").split("<")[0], f.name) in prog._private


def contracts(cfg, keys, rule="contract"):
    w = world(cfg)
    out = []
    seen = set()
    for k in keys:
        vs, more = whole(w, "key:" + k, rule)
        out += vs
        out += kernels_of(w, more, seen)
    return out


def functions(cfg, rx, rule="function"):
    """every repository function whose qualified name matches, as a whole"""
    w = world(cfg)
    return sorted(k for k, f in w.ref.fns.items() if re.search(rx, f.q) and "unittest" not in f.q and "/Test" not in f.loc())


def chunks(xs, n):
    return [xs[i::n] for i in range(n) if xs[i::n]]


def prim_jobs(cfg, entries, classes=RAW, n=6):
    return [(contracts, (cfg, c)) for c in chunks(prim_keys(cfg, entries, classes), n)]


def fn_jobs(cfg, rx, n=6, rule="function"):
    return [(contracts, (cfg, c, rule)) for c in chunks(functions(cfg, rx), n)]
