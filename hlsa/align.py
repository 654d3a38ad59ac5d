"""Names that only the implementation sees: before the current tree is compared with the reviewed one, data members and
functions that were merely given another name get their reviewed name back (renaming one for one never changes what
a program does, so a wrong guess can at most make a comparison fail)."""
import re


def nodes(x):
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            yield y
            st.extend(y.values())
        elif isinstance(y, list):
            st.extend(y)


def plain(x):
    """code without positions and numbering"""
    if isinstance(x, dict):
        return tuple((k, plain(v)) for k, v in sorted(x.items()) if k not in ("l", "le", "t", "id", "pt", "ta", "_dg", "ret"))
    if isinstance(x, list):
        return tuple(plain(v) for v in x)
    return x


def members(ref, cur):
    ren = {}
    for k, r in ref.records.items():
        c = cur.records.get(k)
        if c is None:
            continue
        ty = lambda q, f: str(q["tu"].types[f["t"]].get("s"))
        a = [(f["n"], ty(r, f)) for f in r.get("fields", ())]
        b = [(f["n"], ty(c, f)) for f in c.get("fields", ())]
        an, bn = {n for n, _ in a}, {n for n, _ in b}
        gone, new = [x for x in a if x[0] not in bn], [x for x in b if x[0] not in an]
        if not gone or len(gone) != len(new):
            continue
        for s in {x[1] for x in gone}:
            g, n = [x[0] for x in gone if x[1] == s], [x[0] for x in new if x[1] == s]
            if len(g) == len(n):
                for old, nw in zip(g, n):
                    ren[k, nw] = old
    if not ren:
        return
    # instantiations whose layout was not recorded are renamed as the others
    gen = {}
    for (k, nw), old in ren.items():
        gen.setdefault((k.split("<")[0], nw), set()).add(old)
    gen = {k: next(iter(v)) for k, v in gen.items() if len(v) == 1}

    def renamed(cls, n):
        if (cls, n) in ren or not isinstance(cls, str):
            return ren.get((cls, n))
        return gen.get((cls.split("<")[0], n)) if "<" in cls and cls not in cur.records else None
    for k, c in cur.records.items():
        for f in c.get("fields", ()):
            if (k, f["n"]) in ren:
                f["n"] = ren[k, f["n"]]
    def fix(d, cls):
        for x in nodes(d):
            if x.get("k") == "Member" and renamed(x.get("cls"), x.get("n")):
                old = renamed(x["cls"], x["n"])
                if isinstance(x.get("q"), str) and x["q"].endswith("::" + x["n"]):
                    x["q"] = x["q"][:-len(x["n"])] + old
                x["n"] = old
            if isinstance(x.get("field"), str) and renamed(cls, x["field"]):
                x["field"] = renamed(cls, x["field"])
    for d, cls in bodies(cur):
        fix(d, cls)


def bodies(prog):
    for tu in prog.tus:
        for fd in tu.d["functions"]:
            yield fd, fd.get("cls")
        for r in tu.d["records"]:
            for f in r.get("fields", ()):
                yield f, r["r"]
        for g in tu.d["globals"]:
            yield {k: v for k, v in g.items() if k != "tu"}, None


def shape(key, name):
    """a function's linkage name without its name, and without the file an internal one lies in"""
    return re.sub(r"@.*$", "@", key.replace("%d%s" % (len(name), name), "\0"))


def functions(ref, cur):
    gone = {k: f for k, f in ref.fns.items() if k not in cur.fns and "unittest" not in f.q}
    new = {k: f for k, f in cur.fns.items() if k not in ref.fns and "unittest" not in f.q}
    if not gone or not new:
        return
    A, B = {}, {}
    for k, f in gone.items():
        A.setdefault((shape(k, f.name), f.clsq), []).append(f)
    for k, f in new.items():
        B.setdefault((shape(k, f.name), f.clsq), []).append(f)
    pairs = []
    for s, fs in A.items():
        gs = B.get(s, [])
        if len(fs) == 1 and len(gs) == 1:
            pairs.append((fs[0], gs[0]))
            continue
        for f in fs:
            same = [g for g in gs if plain(g.d.get("body")) == plain(f.d.get("body"))]
            if len(same) == 1 and sum(plain(f.d.get("body")) == plain(h.d.get("body")) for h in fs) == 1:
                pairs.append((f, same[0]))
    if not pairs:
        return
    m = {g.key: f for f, g in pairs}

    def fix(d):
        for x in nodes(d):
            f = m.get(x.get("f")) if isinstance(x.get("f"), str) else None
            if f is None and isinstance(x.get("fn"), str):
                f2 = m.get(x["fn"])
                if f2 is not None:
                    x["fn"] = f2.key
            if f is None:
                continue
            x["f"] = f.key
            for key, v in (("q", f.q), ("name", f.name)):
                if key in x:
                    x[key] = v
            if x.get("k") == "Ref" and "n" in x:
                x["n"] = f.name
    for d, _ in bodies(cur):
        fix(d)
    for r in cur.records.values():
        for mth in r.get("methods", ()):
            f = m.get(mth.get("f"))
            if f is not None:
                mth["f"], mth["n"] = f.key, f.name
    fns = {}
    byq = {}
    for k, fn in cur.fns.items():
        f = m.get(k)
        if f is not None:
            fn.key, fn.q, fn.name = f.key, f.q, f.name
        fns[fn.key] = fn
        byq.setdefault(fn.q, []).append(fn)
    cur.fns, cur.byq = fns, byq


def align(ref, cur):
    if getattr(cur, "_aligned", False) or ref is cur:
        return
    cur._aligned = True
    members(ref, cur)
    functions(ref, cur)
