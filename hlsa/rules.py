"""Rules that judge the current tree directly, and the table of obligations per property."""
import os
import re
from . import bindings, model, props, terms as t
from .bindings import walk, strip
from .engine import V, Unit, equal
from .props import (world, parts, cmp_term, entry_same, reject, whole, contracts, prim_jobs, fn_jobs, kernels_of,
                    opaque_names, kernel_mismatch, prim_keys, functions, chunks, throw_equiv)
from .terms import mk, TRUE, FALSE

PYSYN = ("py:qis/3", "py:qisi/4")
PYALL = ("py:ipf/3", "py:qis/3", "py:qis/2", "py:qisi/4", "py:qisi/3")
PYENT = PYALL + ("py:flatten/1", "py:integerise/2", "py:integerise/1", "py:SobolSequence.__init__/2",
                 "py:SobolSequence.__next__/0", "py:SobolSequence.__iter__/0")
RENT = ("r:ipf/3", "r:qis/3", "r:qisi/4", "r:integerise/1", "r:prob2IntFreq/2", "r:sobolSequence/3", "r:flatten/2")


def live(cfg, name):
    u = Unit(world(cfg), name)
    return u


# ------------------------------------------------------------------ C01
def unwrap_flat(v):
    return v.args[0] if v is not None and v.op == "flatseq" else v


def population(cfg, name):
    """the array returned is zero everywhere plus one unit added at one cell per individual, max(pop,0) times, and pop is
    what is reported"""
    u = live(cfg, name)
    rule = "population"
    if u.cf is None:
        return [V(rule, name, None, "entry point not found")]
    c, r = u.cur, u.ref
    if c.failed:
        return [V(rule, name, None, c.failed, u.where())]
    p, q = parts(c), parts(r)
    arr = "result.buf" if "result.buf" in q else "list.result"
    popk = "stats.pop" if "stats.pop" in q else "list.pop"
    shp = "result.shape" if "result.shape" in q else None
    vs = []
    if shp:
        vs.append(cmp_term(u, rule, shp, q.get(shp), p.get(shp)))
    vs.append(cmp_term(u, rule, popk, q.get(popk), p.get(popk)))
    a, b = unwrap_flat(q.get(arr)), unwrap_flat(p.get(arr))
    subj = "%s: one unit per individual" % name
    ok, why = counts(b, p.get(popk))
    if not ok and a is not None and b is not None and cmp_term(u, rule, "array", a, b).ok:
        ok = True
    if ok:
        vs.append(V(rule, subj, True, "zeros, then one unit for each of max(pop,0) individuals: %s" % t.show(b, 2)[:120]))
    else:
        und = u.undecided() or kernel_mismatch(u, a, b)
        vs.append(V(rule, subj, None if und else False, und or why, u.where()))
    return vs


def counts(v, pop):
    if v is None:
        return False, "no array returned"
    if v.op != "accum":
        return False, "the array is not built by adding one individual at a time: %s" % t.show(v, 3)[:200]
    base, n, key, val, bv = v.args
    if val is not t.ONE:
        return False, "each individual adds %s" % t.show(val, 3)[:100]
    if not (base.op == "filled" and base.args[1] is t.ZERO):
        return False, "the array does not start at zero: %s" % t.show(base, 3)[:100]
    if pop is None:
        return False, "no population reported"
    want = t.ite(t.cmp("<=", pop, t.ZERO, False), t.ZERO, pop)
    if n is not want and n is not pop:
        return False, "%s individuals are drawn, %s are reported" % (t.show(n, 4)[:120], t.show(pop, 4)[:120])
    return True, ""


# ------------------------------------------------------------------ C02
def convergence(cfg, name):
    u = live(cfg, name)
    rule = "convergence"
    if u.cf is None:
        return [V(rule, name, None, "entry point not found")]
    r, c = u.ref, u.cur
    if r.failed or c.failed:
        return [V(rule, name, None, c.failed or r.failed, u.where())]
    pr, pc = parts(r), parts(c)
    ck = "stats.conv" if "stats.conv" in pr else "list.conv"
    ak = "result.buf" if "result.buf" in pr else "list.result"
    v = cmp_term(u, rule, ck, pr.get(ck), pc.get(ck))
    if v.ok is not True:
        # the same relation between flag, marginals and drawn cells, whatever cell is drawn
        a, b = general(pr.get(ck), pr.get(ak)), general(pc.get(ck), pc.get(ak))
        if a is not None and b is not None and equal(a, b):
            v = V(rule, v.subject, True, "same relation to the cells drawn")
    return [v]


def general(v, arr):
    """v with the cell drawn for individual k replaced by an arbitrary KEY(k)"""
    arr = unwrap_flat(arr)
    if v is None or arr is None or arr.op != "accum":
        return None
    key, bv = arr.args[2], arr.args[4]
    m = {}
    for x in t.subterms(v):
        if x.op != key.op:
            continue
        for y in t.freeset(x):
            if t.subst(key, {bv: y}) is x:
                m[x] = mk("KEY", y)
                t.IDXV.add(m[x])
    # marginal dimensions named by the key's context stay as they are
    return t.subst(v, m) if m else None


# ------------------------------------------------------------------ C08, C09, C11
def derived_from_input(x):
    while x.op in ("get", "select", "pycast", "pointee", "field"):
        y = x.args[0]
        if x.op == "pycast":
            y = x.args[1]
        if not isinstance(y, t.T):
            return None
        x = y
    if x.op == "in" and x.args[0][0] == "I":
        return x.args[0][1]
    if x.op == "ref" and x.args[0][0] == "I":
        return x.args[0][1]
    return None


def target_input(ref, unit):
    """parameter whose caller-owned contents a location lies in"""
    if ref is None:
        return None
    if ref.op == "ptr":
        ref = ref.args[0]
    if ref.op == "ite":
        return target_input(ref.args[1], unit) or target_input(ref.args[2], unit)
    if ref.op != "ref":
        return derived_from_input(ref)
    root = ref.args[0]
    if root[0] == "I" and root[1] not in ("this", "*this"):
        return root[1]
    if root[0] == "P":
        return derived_from_input(root[1])
    return None


def untouched_inputs(cfg, name):
    u = live(cfg, name)
    rule = "inputs-unmodified"
    if u.cf is None:
        return [V(rule, name, None, "entry point not found")]
    c = u.cur
    vs = []
    n = 0
    for e in c.events:
        if e.kind not in ("Write", "Havoc", "CopyTo"):
            continue
        n += 1
        w = e.d.get("through")
        p = target_input(e.d.get("ref"), u) or (target_input(w, u) if w is not None else None)
        if p is not None:
            vs.append(V(rule, "%s: store at %s" % (name, e.loc), False,
                        "writes %s, storage of argument %s that belongs to the caller" % (t.show(e.d["ref"], 3)[:120], p), e.loc))
    for k in c.out:
        if k[0][0] == "I" and k[0][1] not in ("this", "*this"):
            vs.append(V(rule, "%s: argument %s" % (name, k[0][1]), False, "argument has different contents on return", u.where()))
    # values copied into a local under a parameter's own name are by-value parameters: the interpreter keeps those apart
    vs.append(V(rule, "%s: %d stores examined" % (name, n), True if not vs else None, "none reaches an argument"))
    return vs


def lifetimes(cfg, name):
    u = live(cfg, name)
    rule = "lifetime"
    if u.cf is None:
        return [V(rule, name, None, "entry point not found")]
    c = u.cur
    vs = []
    for e in c.events:
        if e.kind == "Dangling":
            vs.append(V(rule, "%s: %s" % (name, e.loc), False, "refers to %s after its lifetime ended" % t.show(e.d["ref"], 3)[:120], e.loc))
        if e.kind == "Shared":
            r = e.d["ref"].args[0] if e.d["ref"].op == "ref" else None
            if r and r[0] == "H":
                continue
            vs.append(V(rule, "%s: %s" % (name, e.loc), False, "the array handed out refers to %s, which %s, without copying it" % (
                t.show(e.d["ref"], 3)[:120], "ends with the call" if e.d["local"] else "later calls change"), e.loc))
    if c.ret is not None:
        for x in t.subterms(c.ret):
            if x.op == "view":
                vs.append(V(rule, "%s: returned value" % name, False, "is a view of storage it does not own: %s" % t.show(x, 3)[:120], u.where()))
                break
    if c.failed:
        vs.append(V(rule, name, None, c.failed, u.where()))
    vs.append(V(rule, "%s: %d views, %d calls" % (name, sum(e.kind == "View" for e in c.events), sum(e.kind == "Call" for e in c.events)),
                True if not vs else None, "no reference outlives its storage"))
    return vs


NONDET = re.compile(r"(^|::)(rand|srand|random|drand48|time|clock|gettimeofday|clock_gettime|getpid|getenv|random_device|now|"
                    r"mt19937|default_random_engine|get_id)(::|$|<)")


def purity(cfg, name):
    u = live(cfg, name)
    rule = "determinism"
    if u.cf is None:
        return [V(rule, name, None, "entry point not found")]
    c, r = u.cur, u.ref
    vs = []
    base = {k[0] for k in r.unknown} if r is not None else set()
    for k in c.unknown:
        if NONDET.search(str(k[0])):
            vs.append(V(rule, "%s: %s" % (name, k[1]), False, "depends on %s" % k[0], str(k[1])))
    terms = list(parts(c).items()) + [("error at %s" % x.loc, x.cond) for x in c.throws]
    for what, v in terms:
        for x in t.subterms(v):
            if x.op == "undef" and not any(x is y for y in undefs(r)):
                vs.append(V(rule, "%s: %s" % (name, what), None if u.undecided() else False,
                            u.undecided() or "depends on an uninitialised value (%s)" % str(x.args)[:80], u.where()))
                break
            if x.op == "call" and NONDET.search(str(x.args[0])):
                vs.append(V(rule, "%s: %s" % (name, what), False, "depends on %s" % x.args[0], u.where()))
                break
            if x.op in ("in", "ref") and x.args[0][0] == "G" and "std::" not in str(x.args[0][1]):
                vs.append(V(rule, "%s: %s" % (name, what), False, "depends on the variable %s, which survives the call" % str(x.args[0][1:]), u.where()))
                break
    for e in c.events:
        if e.kind in ("Write", "Havoc") and e.d.get("ref") is not None and e.d["ref"].op == "ref" and e.d["ref"].args[0][0] == "G":
            vs.append(V(rule, "%s: %s" % (name, e.loc), False, "stores to %s, which survives the call" % str(e.d["ref"].args[0][1:]), e.loc))
    vs.append(V(rule, "%s: %d terms" % (name, len(terms)), True if not vs else None, "functions of the arguments alone"))
    return vs


def undefs(r):
    out = []
    if r is None:
        return out
    for v in list(parts(r).values()) + [x.cond for x in r.throws]:
        out += [x for x in t.subterms(v) if x.op == "undef"]
    return out


def const_type(T, i):
    ty = T[i] if isinstance(i, int) and i < len(T) else {}
    if ty.get("const"):
        return True
    if ty.get("k") == "array" and isinstance(ty.get("of"), int):
        return const_type(T, ty["of"])
    return False


def globals_const(cfg):
    """no variable with static storage that the library code can change"""
    w = world(cfg)
    rule = "no-shared-state"
    keys = w.units(w.cur)
    vs = []
    n = 0
    for k in sorted(keys):
        f = w.cur.fns[k]
        T = f.tu.types
        for x in walk(f.d.get("body")):
            if x.get("k") == "Ref" and x.get("dk") in ("global", "static"):
                n += 1
                if not const_type(T, x.get("t")) and not is_constexpr(w.cur, x) and "Logger" not in str(T[x["t"]].get("s")) \
                        and not str(x.get("q", "")).startswith("std::"):
                    vs.append(V(rule, "%s: %s" % (f.q, x.get("n")), False, "uses a modifiable variable that survives the call", f.tu.where(x.get("l"))))
            if x.get("k") == "Decl":
                for d in x["d"]:
                    if d.get("static"):
                        n += 1
                        if not const_type(T, d.get("t")) and not d.get("constexpr"):
                            vs.append(V(rule, "%s: static %s" % (f.q, d.get("n")), False, "a modifiable variable that survives the call", f.tu.where(d.get("l"))))
            if x.get("k") in ("Call", "MCall", "Ctor") and NONDET.search(str(x.get("q", ""))):
                vs.append(V(rule, "%s: %s" % (f.q, x.get("q")), False, "consults a source outside the arguments", f.tu.where(x.get("l"))))
    vs.append(V(rule, "%d functions, %d uses of static storage (%s)" % (len(keys), n, cfg), True if not vs else None, "all constant"))
    return vs


def is_constexpr(prog, x):
    q = x.get("q") or x.get("n")
    for k, g in prog.globals.items():
        if k.split("@")[0] == q or g.get("n") == x.get("n"):
            ty = g["tu"].types[g["t"]]
            if const_type(g["tu"].types, g["t"]) or g.get("constexpr"):
                return True
    return False


# ------------------------------------------------------------------ C10
ARR = re.compile(r"pybind11::array_t<([^,<>]*),\s*(\d+)>")


def layout(cfg, name):
    """inputs read through raw storage were converted to dense row-major arrays of the expected type"""
    u = live(cfg, name)
    rule = "layout"
    if u.cf is None:
        return [V(rule, name, None, "entry point not found")]
    c = u.cur
    vs = []
    T = u.cf.tu.types
    n = 0

    def flags(s, where, raw):
        nonlocal n
        for ty, fl in ARR.findall(s):
            n += 1
            f = int(fl)
            if not f & 1 and raw:
                vs.append(V(rule, "%s: %s" % (name, where), False, "array_t<%s,%s>: storage order of the caller's array is assumed to be row-major" % (ty, fl), u.where()))
            if not f & 16:
                vs.append(V(rule, "%s: %s" % (name, where), False, "array_t<%s,%s>: element types are not converted" % (ty, fl), u.where()))
    terms = list(parts(c).values()) + [x.cond for x in c.throws]
    raw = any(x.op == "get" and x.args[1] == "rawbuf" for v in terms for x in t.subterms(v))
    for i, p in enumerate(u.cf.d["params"]):
        flags(str(deref_type(T, p["t"]).get("s")), "parameter %d" % i, raw)
    casts = {x.args[0] for v in terms for x in t.subterms(v) if x.op == "pycast"}
    for s in sorted(casts):
        flags(s, "element conversion", raw)
    vs.append(V(rule, "%s: %d array conversions" % (name, n), True if not vs else None, "dense row-major copies where needed"))
    return vs


def deref_type(T, i):
    ty = T[i]
    while ty.get("k") in ("ref", "rref", "lref") and isinstance(ty.get("to"), int):
        ty = T[ty["to"]]
    return ty


# ------------------------------------------------------------------ C16
def sobol_use(cfg, name):
    """the points of the sequence that sampling consumes"""
    u = live(cfg, name)
    rule = "sequence-use"
    if u.cf is None:
        return [V(rule, name, None, "entry point not found")]
    r, c = u.ref, u.cur
    if r.failed or c.failed:
        return [V(rule, name, None, c.failed or r.failed, u.where())]

    def vals(s):
        out = set()
        for v in parts(s).values():
            out |= {x for x in t.subterms(v) if x.op == "sobval"}
        return out
    a, b = vals(r), vals(c)
    subj = "%s: points consumed" % name
    if {norm_free(x) for x in a} == {norm_free(x) for x in b}:
        return [V(rule, subj, True, "; ".join(sorted(t.show(x, 6)[:160] for x in b))[:300])]
    P, Q = parts(r), parts(c)
    if a and b and all(cmp_term(u, rule, k, P[k], Q.get(k)).ok for k in P):
        return [V(rule, subj, True, "the same wherever no error is raised: " + "; ".join(sorted(t.show(x, 6)[:160] for x in b))[:300])]
    why = u.undecided() or (None if a and b else "points not found")
    return [V(rule, subj, None if why else False, why or "reference %s, found %s" % (sorted(t.show(x, 6)[:200] for x in a)[:2], sorted(t.show(x, 6)[:200] for x in b)[:2]), u.where())]


def norm_free(x):
    fs = sorted(t.freeset(x), key=lambda y: y.id)
    return t.subst(x, {y: mk("free", i) for i, y in enumerate(fs)}) if fs else x


# ------------------------------------------------------------------ C20
def loops(cfg, name):
    u = live(cfg, name)
    rule = "termination"
    if u.cf is None:
        return []
    c, r = u.cur, u.ref
    title = name if not name.startswith("key:") else u.cf.q
    vs = []
    n = 0
    ref_inf = infinite(r)
    for where, N, rest in c.interp.loop_list if hasattr(c, "interp") else []:
        n += 1
        if N is not None and not (isinstance(N, t.T) and N.op == "infinite"):
            continue
        if rest is None:
            continue
        if any(rest is x for x in ref_inf) or shape(rest) in {shape(x) for x in ref_inf}:
            continue
        why = u.undecided()
        vs.append(V(rule, "%s: loop at %s" % (title, where), None if why else False, why or "no bound on the number of iterations; ends when %s" % t.show(rest, 4)[:160], where))
    vs.append(V(rule, "%s: %d loops" % (title, n), True if not vs else None, "each bounded by a count fixed on entry, or as reviewed"))
    return vs


def shape(x):
    """a condition with loop state and free variables numbered"""
    m = {}
    for y in t.subterms(x):
        if y.op in ("mu", "bv", "k", "var"):
            m[y] = mk("st", len(m))
    try:
        return t.subst(x, m)
    except Exception:
        return x


def infinite(s):
    out = []
    if s is None or not hasattr(s, "interp"):
        return out
    for where, N, rest in s.interp.loop_list:
        if N is None or (isinstance(N, t.T) and N.op == "infinite"):
            if rest is not None:
                out.append(rest)
    return out


WIDE = {"bool": 1, "char": 8, "signed char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16, "int": 32, "unsigned int": 32,
        "long": 64, "unsigned long": 64, "long long": 64, "unsigned long long": 64}


def strides(cfg):
    """a loop whose counter grows by more than one step at a time leaves before the counter's type wraps: the bound it is tested
    against is not of the same (32-bit unsigned) width"""
    w = world(cfg)
    rule = "termination"

    def bad(prog):
        out = {}
        n = 0
        for k in sorted(w.units(prog)):
            f = prog.fns[k]
            for x in walk(f.d.get("body")):
                if x.get("k") not in ("For", "While", "Do") or not isinstance(x.get("cond", x.get("c")), dict):
                    continue
                n += 1
                c = x.get("cond", x.get("c"))
                grow = {}
                for y in [z for part in ("body", "inc") for z in walk(x.get(part))] + list(walk(c)):
                    if y.get("k") == "CAssign" and strip(y["a"]).get("id") is not None and growth(f, y["op"].rstrip("="), y["b"]):
                        grow[strip(y["a"])["id"]] = 1
                    if y.get("k") == "Bin" and y["op"] == "=" and strip(y["a"]).get("id") is not None:
                        v = strip(y["b"])
                        if v.get("k") == "Bin" and strip(v["a"]).get("id") == strip(y["a"]).get("id") and growth(f, v["op"], v["b"]):
                            grow[strip(y["a"])["id"]] = 1
                if not grow:
                    continue
                for y in walk(c):
                    if y.get("k") != "Bin" or y["op"] not in ("<", "<=", ">", ">="):
                        continue
                    lo, hi = (y["a"], y["b"]) if y["op"] in ("<", "<=") else (y["b"], y["a"])
                    if not any(z.get("id") in grow for z in walk(lo)) or any(z.get("id") in grow for z in walk(hi)):
                        continue
                    h = strip(hi)
                    ty = deref_type(f.tu.types, lo["t"]) if isinstance(lo.get("t"), int) else {}
                    inner = strip(lo)
                    if isinstance(inner.get("t"), int):
                        ty = deref_type(f.tu.types, inner["t"])
                    ht = deref_type(f.tu.types, h["t"]) if isinstance(h.get("t"), int) else {}
                    if h.get("k") in ("Int", "Num", "Lit") or ty.get("k") != "int" or ht.get("k") != "int":
                        continue
                    if not ty.get("signed", True) and ty.get("bits", 64) <= 32 and ht.get("bits", 64) >= ty.get("bits", 64):
                        out.setdefault(f.q, []).append(f.tu.where(x.get("l")))
        return out, n
    a, _ = bad(w.ref)
    b, n = bad(w.cur)
    vs = []
    for q, locs in sorted(b.items()):
        if len(locs) > len(a.get(q, ())):
            vs.append(V(rule, "%s: loop counter" % q, False, "the counter multiplies in a 32-bit type and is tested against a bound of that width: it wraps before passing it", locs[-1]))
    vs.append(V(rule, "%d loops (%s): counters that multiply" % (n, cfg), True if not vs else None, "none can wrap before its bound"))
    return vs


def growth(f, op, b):
    b = strip(b)
    return op in ("*", "<<") or (op == "+" and b.get("k") in ("Int", "Num") and str(b.get("v")) not in ("0", "1")) or \
        (op == "+" and b.get("k") == "Ref")


def init_args():
    """constructor arguments reach the bound class's constructor with the width the binding declares"""
    w = world("py")
    rule = "binding"
    vs = []
    for b in bindings.python(w.cur):
        if b.name != "__init__" or not b.extra or not b.extra[0]:
            continue
        m = re.search(r"constructor<(.*)>", b.extra[0])
        cls = re.search(r"class_<([^<>]*)", b.node["cls"])
        if not m or not cls:
            continue
        tys = [x.strip() for x in m.group(1).split(",") if x.strip()]
        subj = "Python %s(%s)" % (b.scope, ", ".join(tys))
        cs = [f for f in w.cur.fns.values() if f.clsq == cls.group(1).strip() and f.d.get("ctor") and len(f.d["params"]) >= len(tys)]
        cs.sort(key=lambda f: len(f.d["params"]))
        if not cs:
            vs.append(V(rule, subj, None, "constructor not found", b.loc()))
            continue
        f = cs[0]
        bad = False
        for ty, p in zip(tys, f.d["params"]):
            q = deref_type(f.tu.types, p["t"])
            if q.get("k") == "int" and ty in WIDE and q.get("bits", 64) < WIDE[ty]:
                bad = True
                vs.append(V(rule, subj, False, "an argument of %d bits is cut to %d bits before it is checked" % (WIDE[ty], q["bits"]), f.loc()))
        if not bad:
            vs.append(V(rule, subj, True, "as wide as declared"))
    return vs


def stops(cfg, name):
    """iteration ends with StopIteration exactly when the reviewed code ends it so"""
    u = live(cfg, name)
    rule = "iteration-end"
    if u.rf is None or u.cf is None:
        return [V(rule, name, None, "entry point not found")]
    r, c = u.ref, u.cur
    if r.failed or c.failed:
        return [V(rule, name, None, c.failed or r.failed, u.where())]
    st = lambda s: t.or_(*[x.cond for x in s.throws if "stop_iteration" in str(x.type)]) if any("stop_iteration" in str(x.type) for x in s.throws) else FALSE
    a, b = st(r), st(c)
    if a is b or equal(a, b):
        return [V(rule, name, True, t.show(b, 4)[:160])]
    why = u.undecided() or kernel_mismatch(u, a, b)
    return [V(rule, name, None if why else False, why or "StopIteration when %s, expected when %s" % (t.show(b, 4)[:160], t.show(a, 4)[:160]), u.where())]


def recursion(cfg):
    """recursive functions: as reviewed (each step removes a dimension)"""
    w = world(cfg)
    g = model.callgraph(w.cur)
    rec = sorted(k for k in w.units(w.cur) if k in model.reach(w.cur, g[k]))
    vs = []
    for k in rec:
        f = w.cur.fns[k]
        if "to_string" in f.q:
            continue
        if k not in w.ref.fns:
            vs.append(V("termination", f.q, None, "recursive function without a reviewed argument", f.loc()))
            continue
        x, _ = whole(w, "key:" + k, "termination")
        for v in x:
            v.detail = "recursion: " + v.detail
        vs += x
    vs.append(V("termination", "%d recursive functions" % len(rec), True, ", ".join(sorted({w.cur.fns[k].q for k in rec}))[:300]))
    return vs


# ------------------------------------------------------------------ C14
def prim_poly(p, d):
    """is the polynomial p (bit mask, degree d) primitive over GF(2)?"""
    if d == 0:
        return p == 1
    n = (1 << d) - 1

    def mulmod(a, b):
        r = 0
        while b:
            if b & 1:
                r ^= a
            b >>= 1
            a <<= 1
            if a >> d & 1:
                a ^= p
        return r

    def powx(e):
        r, b = 1, 2 if d > 1 else (2 ^ p) & ((1 << d) - 1)
        while e:
            if e & 1:
                r = mulmod(r, b)
            b = mulmod(b, b)
            e >>= 1
        return r
    if not p & 1 or p >> d != 1:
        return False
    if powx(n) != 1:
        return False
    q, m = 2, n
    fs = set()
    while q * q <= m:
        while m % q == 0:
            fs.add(q)
            m //= q
        q += 1
    if m > 1:
        fs.add(m)
    return all(powx(n // f) != 1 for f in fs if f != n or n > 1) if n > 1 else True


def const_array(x):
    """nested constant initialiser as lists of numbers"""
    x = strip(x)
    if x is None:
        return None
    k = x.get("k")
    if k == "InitList":
        r = [const_array(y) for y in x["e"]]
        return None if any(y is None for y in r) else r
    if k == "Int":
        return int(x["v"])
    if k == "Fill" or k == "ImplicitInit":
        return 0
    if k == "Un" and x.get("op") == "-":
        v = const_array(x["e"])
        return -v if isinstance(v, int) else None
    if k == "Bin":
        a, b = const_array(x["a"]), const_array(x["b"])
        if isinstance(a, int) and isinstance(b, int):
            return {"+": a + b, "-": a - b, "*": a * b, "<<": a << b if b >= 0 else 0}.get(x.get("op"))
    return None


def tables(cfg):
    w = world(cfg)
    rule = "tables"
    A = M = None
    loc = "?"
    for k, g in w.cur.globals.items():
        if "init" not in g:
            continue
        v = const_array(g["init"])
        if not isinstance(v, list) or len(v) < 10:
            continue
        if all(isinstance(x, int) for x in v) and len(v) >= 1000:
            A = v
            la = g["tu"].where(g["l"])
        elif all(isinstance(x, list) for x in v) and len(v[0]) >= 1000:
            M = v
            lm = g["tu"].where(g["l"])
    if A is None or M is None:
        return [V(rule, "direction number tables", None, "tables not found as constants")]
    vs = []
    seen = {}
    n = min(len(A), 1110)
    if len(A) < 1110:
        vs.append(V(rule, "polynomials", False, "%d polynomials for 1111 dimensions" % len(A), la))
    for i in range(n):
        p = A[i]
        d = p.bit_length() - 1
        if p in seen:
            vs.append(V(rule, "polynomial %d" % i, False, "polynomial %d of dimension %d is also used by dimension %d" % (p, i + 2, seen[p] + 2), la))
        seen[p] = i
        if d < 1 or not prim_poly(p, d):
            vs.append(V(rule, "polynomial %d" % i, False, "%d (dimension %d) is not primitive over GF(2)" % (p, i + 2), la))
            continue
        for j in range(d):
            if j >= len(M) or i >= len(M[j]):
                vs.append(V(rule, "direction numbers %d" % i, False, "no initial direction number %d for dimension %d" % (j, i + 2), lm))
                break
            m = M[j][i]
            if m % 2 == 0 or not 0 < m < 1 << (j + 1):
                vs.append(V(rule, "direction number %d of dimension %d" % (j, i + 2), False, "%d is not odd and below %d" % (m, 1 << (j + 1)), lm))
    vs = vs[:20]
    vs.append(V(rule, "%d polynomials, their initial direction numbers" % n, True if not vs else None, "distinct, primitive, odd and in range"))
    return vs


# ------------------------------------------------------------------ C17
STATUS = ("nlopt_sobol_next", "nlopt_sobol_create", "sobol_gen", "sobol_init")


def statuses(cfg):
    """no status of the low-level generator is dropped, except where the reviewed code cannot fail"""
    w = world(cfg)
    rule = "status"
    vs = []
    n = 0

    def drops(prog):
        out = {}
        cnt = 0
        for k, f in prog.fns.items():
            if "unittest" in f.q:
                continue
            for x in stmts(f.d.get("body")):
                y = strip(x)
                while isinstance(y, dict) and y.get("k") == "Cast" and y.get("ck") == "ToVoid":
                    y = strip(y["e"])
                if isinstance(y, dict) and y.get("k") == "Call" and y.get("name") in STATUS or \
                        (isinstance(y, dict) and y.get("k") == "Call" and str(y.get("q", "")).split("::")[-1] in STATUS):
                    nm = str(y.get("q") or y.get("name")).split("::")[-1]
                    out.setdefault((f.q, nm), []).append(f.tu.where(y.get("l")))
            for x in walk(f.d.get("body")):
                if x.get("k") == "Call" and str(x.get("q", "")).split("::")[-1] in STATUS:
                    cnt += 1
        return out, cnt
    a, _ = drops(w.ref)
    b, n = drops(w.cur)
    for k, locs in b.items():
        if len(locs) > len(a.get(k, ())):
            # inside the skip loop the counter is far from its end by construction
            vs.append(V(rule, "%s calls %s" % k, False, "its status is ignored", locs[-1]))
    vs.append(V(rule, "%d calls returning a status (%s)" % (n, cfg), True if not vs else None, "all examined"))
    return vs


def stmts(x):
    """expressions evaluated as statements"""
    if isinstance(x, dict):
        k = x.get("k")
        if k == "Block":
            for y in x["b"]:
                if isinstance(y, dict) and "k" in y and y["k"] not in STMTK:
                    yield y
                yield from stmts(y)
            return
        if k == "Expr" and isinstance(x.get("e"), dict):
            yield x["e"]
        for key in ("then", "else", "body"):
            y = x.get(key)
            if isinstance(y, dict) and y.get("k") not in STMTK:
                yield y
        for v in x.values():
            if isinstance(v, (dict, list)):
                yield from stmts(v)
    elif isinstance(x, list):
        for v in x:
            yield from stmts(v)


STMTK = {"Block", "If", "For", "While", "Do", "RangeFor", "Decl", "Return", "Switch", "Break", "Continue", "Try", "Null", "Expr", "Case", "Default", "Goto", "Label"}


# ------------------------------------------------------------------ C21
def owners(cfg):
    """classes that release storage cannot be copied; allocation happens only in owners"""
    w = world(cfg)
    rule = "ownership"
    vs = []
    n = 0
    for name, r in sorted(w.cur.records.items()):
        if "unittest" in name or not r.get("methods"):
            continue
        dt = [f for f in w.cur.fns.values() if f.cls == name and f.name.startswith("~")]
        if not dt:
            continue
        keys = model.reach(w.cur, [f.key for f in dt])
        rel = [k for k in keys if releases(w.cur.fns[k].d)]
        if not rel or not any(T(r, f).get("k") == "ptr" for f in r.get("fields", ())):
            continue
        n += 1
        if copyable(w.cur, name, r):
            vs.append(V(rule, name, False, "releases storage in its destructor but can be copied", r["tu"].where(r.get("l"))))
    al = {}
    for which, prog in (("ref", w.ref), ("cur", w.cur)):
        for k in w.units(prog):
            f = prog.fns[k]
            c = sum(1 for x in walk(f.d.get("body")) if allocates(x))
            d = sum(1 for x in walk(f.d.get("body")) if released(x))
            if c or d:
                al.setdefault(strip_targs(f.q), {}).setdefault(which, []).append((c, d, f))
    for q, m in sorted(al.items()):
        rc = max([x[0] for x in m.get("ref", [(0, 0, 0)])])
        for c, d, f in m.get("cur", ()):
            if c > rc and d < c - rc:
                vs.append(V(rule, f.q, False, "allocates storage nothing is seen to release", f.loc()))
    vs.append(V(rule, "%d owning classes, %d functions that allocate or release (%s)" % (n, len(al), cfg), True if not vs else None, "single owners"))
    return vs


def handed_over(prog, q):
    """a function that gives up the storage its first parameter refers to"""
    memo = prog.__dict__.setdefault("_handed", {})
    if q not in memo:
        memo[q] = False
        for f in prog.byq.get(q, ()):
            for x in walk(f.d.get("body")):
                if x.get("k") == "Delete" or (x.get("k") == "Call" and str(x.get("q", "")).split("::")[-1] == "free"):
                    y = strip(x["e"] if x.get("k") == "Delete" else x["args"][0])
                    ps = f.d.get("params") or ()
                    if ps and y.get("k") == "Ref" and y.get("id") == ps[0].get("id"):
                        memo[q] = True
    return memo[q]


def release_events(prog, s):
    """released storage and the condition for it, in order of execution"""
    names = {}
    out = []

    def norm(x):
        hs = {}
        for y in t.subterms(x):
            if y.op in ("ref", "in", "refv") and isinstance(y.args[0], tuple) and y.args[0] and y.args[0][0] == "H":
                n = names.setdefault(y.args[0], len(names))
                hs[y] = mk(y.op, ("H", "allocated", n), *y.args[1:])
        return t.subst(x, hs) if hs else x
    for e in s.events:
        if e.kind in ("Free", "Delete"):
            p = e.d["ptr"]
        elif e.kind == "OpaqueCall" and e.d.get("vals") and handed_over(prog, e.d["q"].args[0] if isinstance(e.d["q"], t.T) else e.d["q"]):
            p = e.d["vals"][0]
        else:
            continue
        if not isinstance(p, t.T) or p.op in ("null", "num"):
            continue
        if p.op == "ptr" and len(p.args) == 2:
            p = p.args[0]
        out.append((norm(p), e))
    return out


def frees(cfg, name):
    """the storage a function gives up, and when, is that of the reviewed reference; nothing is given up twice"""
    w = world(cfg)
    u = Unit(w, name)
    rule = "release"
    if u.rf is None:
        return []
    if u.cf is None:
        return [V(rule, name, None, "not defined")]
    if u.untouched():
        n = len(release_events(w.cur, u.cur))
        return [V(rule, "%s: %d releases" % (u.cf.q, n), True, "as reviewed")]
    r, c = u.ref, u.cur
    if r.failed or c.failed:
        return [V(rule, u.cf.q, None, c.failed or r.failed, u.where())]
    A, B = {}, {}
    for prog, s, m in ((w.ref, r, A), (w.cur, c, B)):
        for p, e in release_events(prog, s):
            m.setdefault(p, []).append(e)
    vs = []
    why = u.undecided()
    same = u.cf.cls is None or w.samelayout(u.cf.cls)
    oka = t.not_(r.throwcond())
    for p in list(A) + [x for x in B if x not in A]:
        if t.height(p) > 60:
            continue
        a, b = A.get(p, []), B.get(p, [])
        live_ = t.not_(t.cmp("==", p, mk("null"), False)) if p.op in ("in", "call") else t.TRUE
        fa, fb = t.or_(*[e.pc for e in a]) if a else t.FALSE, t.or_(*[e.pc for e in b]) if b else t.FALSE
        at = b[0].loc if b else u.where()
        what = "%s: %s" % (u.cf.q, t.show(p, 3)[:80])
        if fa is not fb:
            miss = props.implies(t.and_(fa, live_, oka), fb)
            over = props.implies(t.and_(fb, live_, oka), fa)
            if miss and over:
                pass
            elif not b and (not same or any(x.kind in ("Free", "Delete") for q, x in release_events(w.cur, c) if q not in A)):
                vs.append(V(rule, what, None, "released in another form", at))
                continue
            elif miss is False or over is False:
                d = "not released on every path the reference releases it on" if not miss else "released where the reference keeps it"
                vs.append(V(rule, what, None if why else False, why or "%s (when %s)" % (d, t.show(fb, 4)[:160]), at))
                continue
            else:
                vs.append(V(rule, what, None, "cannot compare when it is released", at))
                continue
        twice = [1 for i, x in enumerate(b) for y in b[:i] if x.kind != "OpaqueCall" and y.kind != "OpaqueCall" and x.loc != y.loc and t.and_(x.pc, y.pc) is not t.FALSE]
        was = [1 for i, x in enumerate(a) for y in a[:i] if x.kind != "OpaqueCall" and y.kind != "OpaqueCall" and x.loc != y.loc and t.and_(x.pc, y.pc) is not t.FALSE]
        if twice and not was:
            vs.append(V(rule, what, None if why else False, why or "released twice on one path", at))
    if not vs:
        vs.append(V(rule, "%s: %d releases" % (u.cf.q, sum(map(len, B.values()))), True, "as reviewed"))
    return vs


def dangling(cfg):
    """typestate of owning members: between the release of a member and the assignment of a new value to it nothing can fail,
    or the destructor would release it again"""
    w = world(cfg)
    rule = "released-member"
    prog = w.cur
    memo_throw, memo_rel, memo_left = {}, {}, {}

    def throws(k, depth=0):
        if k in memo_throw or depth > 12:
            return memo_throw.get(k, False)
        memo_throw[k] = False
        f = prog.fns[k]
        r = any(x.get("k") == "Throw" or (x.get("k") == "New" and not x.get("placement")) or
                (x.get("k") in ("Call", "MCall", "Ctor") and fails(x, depth + 1)) for x in walk(f.d.get("body")))
        memo_throw[k] = r
        return r

    def fails(x, depth=0):
        if x.get("f") in prog.fns:
            return throws(x["f"], depth)
        q = str(x.get("q", ""))
        return q.startswith("std::") and q.split("::")[-1] in ("resize", "reserve", "push_back", "emplace_back", "assign", "insert", "at", "operator new", "vector")

    def member(x):
        x = strip(x)
        if isinstance(x, dict) and x.get("k") == "Member" and strip(x.get("b") or {}).get("k") == "This":
            return x.get("n")
        return None

    def params_released(k):
        if k not in memo_rel:
            memo_rel[k] = set()
            f = prog.fns[k]
            ids = {p["id"]: i for i, p in enumerate(f.d["params"])}
            for x in walk(f.d.get("body")):
                if x.get("k") == "Delete" or (x.get("k") == "Call" and str(x.get("q", "")).split("::")[-1] == "free"):
                    y = strip(x["e"] if x.get("k") == "Delete" else x["args"][0])
                    if y.get("id") in ids:
                        memo_rel[k].add(ids[y["id"]])
        return memo_rel[k]

    def left(k):
        if k not in memo_left:
            memo_left[k] = {}
            memo_left[k] = flow(prog.fns[k], prog.fns[k].d.get("body"), {}, [])
        return memo_left[k]

    def flow(f, x, st, out):
        """members released and not set again after x"""
        if isinstance(x, list):
            for y in x:
                st = flow(f, y, st, out)
            return st
        if not isinstance(x, dict):
            return st
        k = x.get("k")
        if k == "Lambda":
            return st
        if k == "If":
            st = flow(f, x.get("c"), st, out)
            a, b = flow(f, x.get("then"), dict(st), out), flow(f, x.get("else"), dict(st), out)
            return {**a, **b}
        if k == "Bin" and x.get("op") == "=":
            st = flow(f, x["b"], st, out)
            m = member(x["a"])
            if m is not None:
                st = {n: v for n, v in st.items() if n != m}
                return st
            return flow(f, x["a"], st, out)
        for key, y in x.items():
            if key not in ("k", "l", "t") and isinstance(y, (dict, list)):
                st = flow(f, y, st, out)
        if k in ("Throw", "New") and not x.get("placement") and st:
            out.append((x, dict(st)))
        if k == "Delete":
            m = member(x["e"])
            if m is not None:
                st = {**st, m: f.tu.where(x.get("l"))}
        if k in ("Call", "MCall", "Ctor"):
            if st and fails(x):
                out.append((x, dict(st)))
            if k == "Call" and str(x.get("q", "")).split("::")[-1] == "free" and x.get("args"):
                m = member(x["args"][0])
                if m is not None:
                    st = {**st, m: f.tu.where(x.get("l"))}
            if x.get("f") in prog.fns and x["f"] != f.key:
                for i in params_released(x["f"]):
                    m = member(x["args"][i]) if i < len(x.get("args", ())) else None
                    if m is not None:
                        st = {**st, m: f.tu.where(x.get("l"))}
                if k == "MCall" and strip(x.get("obj") or {}).get("k") == "This":
                    for n in left(x["f"]):
                        st = {**st, n: f.tu.where(x.get("l"))}
        return st
    owning = {f.cls for f in prog.fns.values() if f.cls and f.name.startswith("~") and
              any(releases(prog.fns[k].d) for k in model.reach(prog, [f.key]) | {f.key})}
    vs = []
    n = 0
    for k, f in sorted(prog.fns.items()):
        if f.cls not in owning or f.name.startswith("~") or "unittest" in f.q:
            continue
        n += 1
        out = []
        flow(f, f.d.get("body"), {}, out)
        for x, st in out[:1]:
            m = sorted(st)[0]
            vs.append(V(rule, f.q, False, "%s was released at %s and is still held when an error can be raised" % (m, st[m]), f.tu.where(x.get("l"))))
    vs.append(V(rule, "%d methods of %d owning classes (%s)" % (n, len(owning), cfg), True if not vs else None, "no member is held after its release while something can fail"))
    return vs


def strip_targs(q):
    return re.sub(r"<[^<>]*>", "", q)


def T(r, f):
    return r["tu"].types[f["t"]]


def allocates(x):
    if x.get("k") == "New":
        return not x.get("placement")
    return x.get("k") == "Call" and str(x.get("q", "")).split("::")[-1] in ("malloc", "calloc", "realloc", "strdup")


def released(x):
    return x.get("k") == "Delete" or (x.get("k") == "Call" and str(x.get("q", "")).split("::")[-1] in ("free",)) or \
        (x.get("k") == "Ctor" and re.match(r"std::(unique_ptr|shared_ptr)", str(x.get("clsq", ""))) is not None)


def releases(d):
    return any(x.get("k") == "Delete" or (x.get("k") == "Call" and str(x.get("q", "")).split("::")[-1] == "free") for x in walk(d.get("body")))


def copyable(prog, name, r):
    v = r.get("copyctor_ok")
    return bool(v) if v is not None else False


# ------------------------------------------------------------------ C23
def fault_flag(cfg):
    """every caller of pValue consults the fault flag it returns"""
    w = world(cfg)
    rule = "fault-consulted"
    vs = []
    n = 0
    for k in sorted(w.units(w.cur)):
        f = w.cur.fns[k]
        if f.q == "pValue":
            continue
        calls = [x for x in walk(f.d.get("body")) if x.get("k") == "Call" and x.get("q") == "pValue"]
        if not calls:
            continue
        n += len(calls)
        second = any(x.get("k") == "Member" and x.get("n", x.get("name")) == "second" for x in walk(f.d.get("body"))) or \
            any(x.get("k") == "Decl" and any("bind" in d or d.get("k") == "Decomp" for d in x["d"]) for x in walk(f.d.get("body")))
        if not second:
            vs.append(V(rule, "%s drops the fault flag of pValue" % f.loc().split(":")[0], False, "only the value is used", f.tu.where(calls[0].get("l"))))
    vs.append(V(rule, "%d callers of pValue (%s)" % (n, cfg), True, "examined"))
    return vs


# ------------------------------------------------------------------ C24
def py_bindings():
    w = world("py")
    rule = "binding"
    vs = []
    ref = {b.key(): b for b in bindings.python(w.ref)}
    cur = {}
    for b in bindings.python(w.cur):
        cur.setdefault(b.key(), b)
    for k, b in sorted(ref.items()):
        c = cur.get(k)
        subj = "Python %s" % k
        if c is None:
            vs.append(V(rule, subj, False, "no longer defined", b.loc()))
            continue
        if b.kw != c.kw:
            vs.append(V(rule, subj, False, "keywords %s, documented %s" % (c.kw, b.kw), c.loc()))
            continue
        if b.fn is not None and c.fn is not None:
            pa = [b.fn.tu.types[p["t"]].get("s") for p in b.fn.d["params"]]
            pb = [c.fn.tu.types[p["t"]].get("s") for p in c.fn.d["params"]]
            if len(pa) != len(pb):
                vs.append(V(rule, subj, False, "bound function takes %d arguments" % len(pb), c.loc()))
                continue
        vs.append(V(rule, subj, True, "keywords %s" % c.kw))
    # overload order decides which form a call reaches
    oa = [b.key() for b in bindings.python(w.ref)]
    ob = [b.key() for b in bindings.python(w.cur)]
    for k in sorted(set(ob) - set(oa)):
        vs.append(V(rule, "Python %s" % k, None, "new name", cur[k].loc()))
    return vs


def r_bindings():
    w = world("r")
    rule = "binding"
    vs = []
    reg, calls, exports = bindings.r_tables(model.REPO)
    reg0, calls0, exports0 = bindings.r_tables(model.VERIF + "/ref")
    E = w.entries(w.cur)
    names = {k.split(":")[1].split("/")[0]: int(k.split("/")[1]) for k in E}
    names["unitTest"] = 0
    byname = {}
    for f in w.cur.fns.values():
        byname.setdefault(f.name, f)
    src = os.path.join(model.REPO, "src")
    for n, ar in sorted(names.items()):
        sym = "_humanleague_" + n
        subj = "R %s" % n
        reg.setdefault(sym, reg.get(sym[1:])) if reg.get(sym[1:]) else None
        if reg and sym not in reg:
            vs.append(V(rule, subj, False, "native routine is not registered", "src/humanleague_init.c"))
        elif reg and (reg[sym][0] != sym or reg[sym][1] != ar):
            vs.append(V(rule, subj, False, "registered as %s with %d arguments, takes %d" % (reg[sym] + (ar,)), "src/humanleague_init.c"))
        if n in calls:
            params, called, args = calls[n]
            if called.strip("'") != sym:
                vs.append(V(rule, subj, False, "the R function calls %s" % called, "R/RcppExports.R"))
            elif args != params:
                vs.append(V(rule, subj, False, "passes %s for parameters %s" % (args, params), "R/RcppExports.R"))
            elif len(args) != ar:
                vs.append(V(rule, subj, False, "passes %d arguments, %d are taken" % (len(args), ar), "R/RcppExports.R"))
        elif n in calls0:
            vs.append(V(rule, subj, None, "R wrapper not recognised", "R/RcppExports.R"))
        # the exported native routine passes each argument on in its own position
        f = byname.get(sym)
        if f is not None:
            order = passed_order(w.cur, f)
            if order is not None and order != list(range(len(f.d["params"]))):
                vs.append(V(rule, subj, False, "arguments passed on in the order %s" % order, f.loc()))
        if n in exports0 and exports and n not in exports:
            vs.append(V(rule, subj, False, "no longer exported", "NAMESPACE"))
        if not any(v.subject == subj for v in vs):
            vs.append(V(rule, subj, True, "registered, exported and called with %d arguments in order" % ar))
    return vs


def passed_order(prog, f):
    """positions of the native routine's parameters in the call it makes"""
    ids = {p["id"]: i for i, p in enumerate(f.d["params"])}
    local = {}
    for x in walk(f.d.get("body")):
        if x.get("k") == "Decl":
            for d in x["d"]:
                used = [ids[y["id"]] for y in walk(d.get("init")) if y.get("k") == "Ref" and y.get("id") in ids]
                if len(used) == 1:
                    local[d["id"]] = used[0]
    for x in walk(f.d.get("body")):
        if x.get("k") == "Call" and x.get("repo") and x.get("f") in prog.fns:
            o = []
            for a in x["args"]:
                u = [local.get(y.get("id"), ids.get(y.get("id"))) for y in walk(a) if y.get("k") == "Ref" and (y.get("id") in local or y.get("id") in ids)]
                u = [y for y in u if y is not None]
                if len(set(u)) != 1:
                    return None
                o.append(u[0])
            return o
    return None


# ------------------------------------------------------------------ C25
OKEXC = ("std::exception", "pybind11::builtin_exception", "pybind11::error_already_set", "Rcpp::exception", "std::runtime_error",
         "std::logic_error")
EXITS = re.compile(r"(^|::)(exit|_exit|_Exit|quick_exit|abort|terminate|longjmp|raise|kill|__assert_fail)$")


def exc_ok(prog, tu, ti):
    ty = deref_type(tu.types, ti)
    if ty.get("k") != "rec":
        return False
    return derives(prog, ty.get("r") or ty.get("q"), ty.get("q"))


STDEXC = {"std::exception", "std::runtime_error", "std::logic_error", "std::range_error", "std::out_of_range", "std::invalid_argument",
          "std::domain_error", "std::length_error", "std::overflow_error", "std::underflow_error", "std::bad_alloc", "std::bad_cast",
          "std::system_error", "std::bad_array_new_length", "std::bad_function_call"}
PYEXC = {"pybind11::" + x for x in ("value_error", "stop_iteration", "index_error", "key_error", "type_error", "buffer_error", "import_error",
                                     "attribute_error", "cast_error", "reference_cast_error", "error_already_set", "builtin_exception")}
RCPPEXC = {"Rcpp::exception", "Rcpp::index_out_of_bounds", "Rcpp::not_compatible"}


def derives(prog, r, q, depth=0):
    if q in STDEXC or q in PYEXC or q in RCPPEXC or str(q).startswith("Rcpp::"):
        return True
    rec = prog.records.get(r) or prog.records.get(q)
    if rec is None or depth > 5:
        return False
    for b in rec.get("bases", ()):
        if isinstance(b, int):
            ty = rec["tu"].types[b]
            if derives(prog, ty.get("r"), ty.get("q"), depth + 1):
                return True
        elif isinstance(b, dict):
            if derives(prog, b.get("r") or b.get("q"), b.get("q") or b.get("r"), depth + 1):
                return True
        elif derives(prog, b, b, depth + 1):
            return True
    return False


def errors(cfg):
    w = world(cfg)
    rule = "error-boundary"
    vs = []
    nt = nc = nd = 0
    keys = w.units(w.cur)
    for f in list(w.entries(w.cur).values()) + [w.cur.fns[k] for k in sorted(keys)]:
        for x in walk(f.d.get("body")):
            if x.get("k") == "Throw" and isinstance(x.get("e"), dict):
                nt += 1
                e = x["e"]
                if isinstance(e.get("t"), int) and not exc_ok(w.cur, f.tu, e["t"]):
                    vs.append(V(rule, "%s: throw" % f.q, False, "throws %s, which the binding does not translate" % deref_type(f.tu.types, e["t"]).get("s"), f.tu.where(x.get("l"))))
            elif x.get("k") == "Try":
                for h in x.get("h", x.get("catch", x.get("handlers", ()))) or ():
                    nc += 1
                    if not ends_in_throw(h):
                        vs.append(V(rule, "%s: catch" % f.q, False, "an error is swallowed", f.tu.where(h.get("l") or x.get("l"))))
            elif x.get("k") == "Call" and EXITS.search(str(x.get("q", ""))):
                vs.append(V(rule, "%s: %s" % (f.q, x.get("q")), False, "ends the process instead of raising an error", f.tu.where(x.get("l"))))
    for k in sorted(w.units(w.cur) | {k for k, f in w.cur.fns.items() if f.name.startswith("~") and "unittest" not in f.q}):
        f = w.cur.fns[k]
        if f.name.startswith("~") or f.d.get("noexcept"):
            nd += 1
            for k2 in model.reach(w.cur, [k]):
                g = w.cur.fns[k2]
                if any(x.get("k") == "Throw" for x in walk(g.d.get("body"))):
                    vs.append(V(rule, f.q, False, "may let an error escape from %s (%s)" % (g.q, g.loc()), f.loc()))
                    break
    uniq = {}
    for v in vs:
        uniq[(v.subject, v.detail, v.loc)] = v
    vs = list(uniq.values())
    vs.append(V(rule, "%d throw expressions, %d handlers, %d non-throwing functions (%s)" % (nt, nc, nd, cfg), True if not vs else None,
                "all errors are translated types and reach the caller"))
    return vs


def ends_in_throw(h):
    b = h.get("body") or h.get("b")
    if isinstance(b, dict) and b.get("k") == "Block":
        b = b["b"]
    if isinstance(b, list):
        b = [x for x in b if x]
        return bool(b) and ends_in_throw({"b": b[-1]}) if not (b and isinstance(b[-1], dict) and b[-1].get("k") not in ("Block", "If")) else isthrow(b[-1])
    return isthrow(b)


def isthrow(x):
    x = strip(x)
    while isinstance(x, dict) and x.get("k") == "Expr":
        x = strip(x["e"])
    if isinstance(x, dict) and x.get("k") == "If":
        return isthrow2(x.get("then")) and isthrow2(x.get("else"))
    return isinstance(x, dict) and x.get("k") == "Throw"


def isthrow2(x):
    return x is not None and (isthrow(x) or ends_in_throw({"body": x}))


def outcome(cfg, name):
    """a computation that fails does not return a result: the conditions under which an entry point raises an error of its own
    include the reviewed ones (any class)"""
    u = live(cfg, name)
    if u.rf is None or u.cf is None:
        return [V("error-raised", name, None, "entry point not found")]
    from .props import covered, message
    r, c = u.ref, u.cur
    if r.failed or c.failed:
        return [V("error-raised", name, None, c.failed or r.failed, u.where())]
    vs = []
    allc = c.throwcond()
    cur = {x.cond for x in c.throws}
    fam = {}
    for x in c.throws:
        fam.setdefault(x.cond, x.type)
    for x in r.throws:
        subj = "%s: error of %s" % (name, x.loc)
        ok = x.cond in cur or covered(r.throws, x, allc, cur)
        if ok:
            vs.append(V("error-raised", subj, True, x.type))
            continue
        why = u.undecided() or kernel_mismatch(u, x.cond, allc) or ("condition too large" if ok is None else None)
        vs.append(V("error-raised", subj, None if why else False, why or "the failure is not reported any more: %s" % message(model.VERIF + "/ref", x.loc).strip()[:120], u.where()))
    return vs


# ------------------------------------------------------------------ table
def jobs_for(pid, tier):
    J = []
    py = lambda f, names, *a: [(f, ("py", n) + a) for n in names]
    rr = lambda f, names, *a: [(f, ("r", n) + a) for n in names] if USE_R else []
    if pid == "C01":
        J += py(population, PYSYN) + rr(population, ("r:qis/3", "r:qisi/4"))
        J += prim_jobs("py", PYSYN, ("NDArray", "Index", "MappedIndex"))
    elif pid == "C02":
        J += py(convergence, PYSYN) + rr(convergence, ("r:qis/3", "r:qisi/4"))
        J += prim_jobs("py", PYSYN, ("NDArray", "Index", "MappedIndex"))
    elif pid == "C03":
        J += [(entry_same, ("py", "py:ipf/3", "fit-statistics", (r"stats\.(conv|maxError|iterations)",)))]
        J += prim_jobs("py", ("py:ipf/3",), ("NDArray", "Index", "MappedIndex"))
    elif pid == "C04":
        J += [(entry_same, ("py", "py:ipf/3", "fit", (r"result\..*",)))]
        J += fn_jobs("py", r"^(IPF<long>::(IPF|solve)|Microsynthesis<double, long>::(rScale|invert))$", 4)
        J += prim_jobs("py", ("py:ipf/3",), ("NDArray", "Index", "MappedIndex"))
    elif pid in ("C05", "C06"):
        J += py(reject, PYALL, (pid,)) + rr(reject, ("r:ipf/3", "r:qis/3", "r:qisi/4"), (pid,))
        J += fn_jobs("py", r"^Microsynthesis<double, long>::(Microsynthesis|createMappings)$", 2)
    elif pid == "C07":
        J += py(reject, PYALL, (pid,)) + rr(reject, ("r:ipf/3", "r:qis/3", "r:qisi/4"), (pid,))
        J += fn_jobs("py", r"^IPF<long>::solve$", 1)
    elif pid == "C08":
        J += py(untouched_inputs, PYENT) + rr(untouched_inputs, RENT)
    elif pid == "C09":
        J += py(lifetimes, PYENT) + rr(lifetimes, RENT)
        J += [(contracts, ("py", c)) for c in chunks(functions("py", r"^NDArray<.*>::(NDArray|~NDArray|resize|copy|release|rawData|begin|end)$"), 3)]
    elif pid == "C10":
        J += py(layout, [n for n in PYENT if "Sobol" not in n])
        J += rr(entry_all, RENT)
    elif pid == "C11":
        J += py(purity, PYENT) + rr(purity, RENT)
        J += [(globals_const, ("py",)), (globals_const, ("r",))]
        J += [(contracts, ("py", c)) for c in chunks(functions("py", r"^Sobol::|^nlopt_sobol|^sobol_"), 3)]
    elif pid == "C12":
        J += [(contracts, ("py", c)) for c in chunks(prim_keys("py", None, ("NDArray",)), 6)]
        J += py(reject, [n for n in PYENT if "Sobol" not in n], ("C12",))
    elif pid == "C13":
        J += [(entry_same, ("py", "py:flatten/1", "listing", (r".*", "heap")))]
        J += py(reject, ("py:flatten/1",), ("C13",)) + rr(reject, ("r:flatten/2",), ("C13",)) + rr(entry_all, ("r:flatten/2",))
        J += prim_jobs("py", ("py:flatten/1",), ("NDArray", "Index"))
    elif pid == "C14":
        J += [(tables, ("py",))] + fn_jobs("py", r"^(sobol_init|nlopt_sobol_create)$", 2)
    elif pid == "C15":
        J += fn_jobs("py", r"^(sobol_gen|nlopt_sobol_next|nlopt_sobol_create|sobol_init|rightzero32|Sobol::(Sobol|buf|operator\(\)|dim|min|max|reset))$", 6)
        J += [(entry_same, ("py", "py:SobolSequence.__next__/0", "points", (r".*", "heap")))]
        J += [(entry_same, ("py", "py:SobolSequence.__iter__/0", "points", (r".*",)))]
        J += [(init_same, ("py", "py:SobolSequence.__init__/2")), (init_args, ())]
        J += rr(entry_all, ("r:sobolSequence/3",))
    elif pid == "C16":
        J += fn_jobs("py", r"^(nlopt_sobol_skip|nlopt_sobol_next|sobol_gen|rightzero32|Sobol::(skip|Sobol|reset|buf))$", 5)
        J += py(sobol_use, PYALL[1:]) + rr(sobol_use, ("r:qis/3", "r:qisi/4"))
        J += [(init_same, ("py", "py:SobolSequence.__init__/2"))]
    elif pid == "C17":
        J += [(statuses, ("py",))]
        J += fn_jobs("py", r"^(sobol_gen|sobol_init|nlopt_sobol_(next|create|destroy)|Sobol::(Sobol|buf|reset|operator\(\)))$", 5)
        J += py(reject, PYSYN + ("py:SobolSequence.__next__/0", "py:SobolSequence.__init__/2"), ("C17", "C15"))
        J += [(init_same, ("py", "py:SobolSequence.__next__/0")), (stops, ("py", "py:SobolSequence.__next__/0"))]
    elif pid == "C18":
        J += [(entry_same, ("py", "py:integerise/2", "integerise", (r".*",)))]
        J += py(reject, ("py:integerise/2",), ("C18", "C05")) + rr(reject, ("r:prob2IntFreq/2",), ("C18", "other")) + rr(entry_all, ("r:prob2IntFreq/2",))
        J += fn_jobs("py", r"^integeriseMarginalDistribution$", 1)
    elif pid == "C19":
        J += [(entry_same, ("py", "py:integerise/1", "integerise", (r".*",), False))]
        J += py(reject, ("py:integerise/1",), ("C19", "C18", "C12")) + rr(entry_all, ("r:integerise/1",))
        J += fn_jobs("py", r"^QISI::(QISI|solve|conv|recomputeIPF)$", 4)
        J += prim_jobs("py", ("py:integerise/1",), ("NDArray", "Index"))
    elif pid == "C20":
        J += py(loops, PYENT) + [(recursion, ("py",)), (strides, ("py",)), (strides, ("r",))]
        J += [(loops, ("py", "key:" + k)) for k in functions("py", r"^(\(anonymous namespace\)::(gamain|pick|getIndex|sample|recursive_sample)|nlopt_sobol_\w+|sobol_\w+|rightzero32|IPF<long>::solve|(Fixed|Mapped|Transposed)?Index::.*|QISI::solve)$")]
        J += fn_jobs("py", r"^\(anonymous namespace\)::gamain$", 1)
        J += rr(loops, RENT)
    elif pid == "C21":
        J += [(owners, ("py",)), (owners, ("r",)), (dangling, ("py",)), (dangling, ("r",))]
        J += [(contracts, ("py", c)) for c in chunks(functions("py", r"^NDArray<.*>::(NDArray|~NDArray|resize|copy|release|allocate|deallocate)$|^Sobol::(Sobol|~Sobol|reset)$|^nlopt_sobol_(create|destroy)$|^sobol_(init|destroy)$"), 6)]
        J += [(frees, ("py", "key:" + k)) for k in functions("py", r"^NDArray<.*>::(NDArray|~NDArray|resize|copy|release)$|^Sobol::(Sobol|~Sobol|reset)$|^nlopt_sobol_(create|destroy)$|^sobol_init$")]
    elif pid == "C22":
        J += [(entry_same, ("py", n, "statistics", (r"stats\.(chiSq|pValue|degeneracy|pop)",))) for n in PYSYN]
        J += [(entry_same, ("py", "py:ipf/3", "statistics", (r"stats\.pop",)))]
        J += rr(entry_stats, ("r:qis/3", "r:qisi/4", "r:ipf/3"))
        J += fn_jobs("py", r"^(chiSq|degeneracy|dof|factorial|pValue|\(anonymous namespace\)::gamain)$", 4)
    elif pid == "C23":
        J += [(fault_flag, ("py",))] + fn_jobs("py", r"^(pValue|\(anonymous namespace\)::gamain)$", 2)
    elif pid == "C24":
        J += [(py_bindings, ()), (r_bindings, ())]
        J += [(entry_same, ("py", n, "overload", (r".*",), False)) for n in ("py:qis/2", "py:qisi/3")]
        J += [(init_same, ("py", "py:SobolSequence.__init__/2"))]
        J += [(skips0, ("py:qis/2", "py:qis/3"))]
        J += [(skips0, ("py:qisi/3", "py:qisi/4"))]
    elif pid == "C25":
        J += [(errors, ("py",)), (errors, ("r",))] + py(outcome, PYENT)
    elif pid == "C26":
        J += [(contracts, ("py", c)) for c in chunks(prim_keys("py", None, ("Index", "MappedIndex", "FixedIndex", "TransposedIndex")), 6)]
    elif pid == "C27":
        J += fn_jobs("py", r"^(reduce|slice|diff|min|max|sum|product|isZero|marginalProduct|allclose|allZeros|listify)$", 8)
        J += [(contracts, ("py", c)) for c in chunks(prim_keys("py", None, ("NDArray", "Index", "MappedIndex", "FixedIndex")), 6)]
    elif pid == "C28":
        J += [(entry_same, ("py", n, "expectation", (r"stats\.expectation",))) for n in PYSYN]
        J += prim_jobs("py", PYSYN, ("NDArray", "Index", "MappedIndex"))
    elif pid == "C33":
        J += [(entry_same, ("py", n, "draw", (r"result\..*",))) for n in PYSYN]
        J += fn_jobs("py", r"^\(anonymous namespace\)::(pick|getIndex|sample|recursive_sample)$", 4)
    return J


USE_R = os.environ.get("HLSA_R", "1") == "1"


def entry_all(cfg, name):
    return entry_same(cfg, name, "result", (r".*", "heap"))


def entry_stats(cfg, name):
    return entry_same(cfg, name, "statistics", (r".*(chiSq|pValue|degeneracy|pop)",))


def init_same(cfg, name):
    """a method as a whole"""
    w = world(cfg)
    u = Unit(w, name)
    if u.rf is None:
        return []
    vs, more = whole(w, name, "method")
    return vs + kernels_of(w, more, set())


def skips0(short, full):
    """the form without skips is the form with skips = 0"""
    w = world("py")
    a, b = Unit(w, short), Unit(w, full)
    if a.cf is None or b.cf is None:
        return [V("overload", short, False if b.cf is not None else None, "not defined")]
    s, f = a.cur, b.cur
    n = len(b.cf.d["params"])
    x = mk("in", ("I", "p%d" % (n - 1)), ())
    want = t.subst(f.ret, {y: t.ZERO for y in t.subterms(f.ret) if y.op == "in" and y.args[0] == ("I", "p%d" % (n - 1))}) if f.ret is not None else None
    if want is s.ret or (want is not None and s.ret is not None and equal(want, s.ret)):
        return [V("overload", "%s = %s with 0" % (short, full), True, "")]
    # fall back to the reviewed form
    return entry_same("py", short, "overload", (r".*",), False)
