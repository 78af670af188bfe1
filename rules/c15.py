"""C15 composite systems collect every part. The makers of binary systems and of a composite of four subsystems (interactions <0,2> and <3,1,0>) are interpreted on interactions about which nothing is known;
union: which capabilities the object made has, as a boolean function of those of the parts; evolve: for every pattern of parts having the capability, the calls that actWithU and addContribution make: each part
that has it exactly once, over all slices of its own axes, with the time arguments handed on and state and derivative sliced alike; master: applicability is the conjunction; rates, averages: for configurations
of numbers of entries, the elements of the result; freq: the highest frequency for assignments of frequencies to the parts in which each one is the largest in turn."""
from sa.q import *
from sa.val import *
from sa import val as V
from rules import comp, elem

FLOOR = {"union": 6, "evolve": 100, "master": 12, "averages": 60, "freq": 8}
ASSUME = ["the composite of four subsystems with interactions of two and of three of them, in this order, stands for composites of any number of parts: the loops over parts are over type lists",
          "fullRange<V>(a) visits every slice of a along V once (C11)", "partialTrace<V>(rho,f) sums f over the slices of rho along V (C12)"]


def check(ctx):
    for what in ("binary", "composite"):
        S = None
        try:
            S = comp.System(ctx, what)
        except Exception as x:
            ctx.ob("part:" + what, "the maker of the %s system could be interpreted" % what, None, "", str(x)[:300])
            continue
        ctx.part(union, S)
        ctx.part(evolve, S, "Exact", "actWithU_v")
        ctx.part(evolve, S, "Hamiltonian", "addContribution_v")
        ctx.part(master, S)
        ctx.part(averages, S, "Averaged")
        ctx.part(averages, S, "Liouvillean")
        ctx.part(freq, S)


def union(ctx, S):
    I = S.I
    if I.deep or I.result is None:
        return ctx.ob("union:" + S.what, "the maker could be interpreted", None, S.maker, "")
    atoms = {}

    def norm(x):
        """decisions on parts are made, those on capabilities become atoms"""
        r = base(x)
        if r is not None:
            return r
        if x.op in ("eq0", "nonnull"):
            c = S.cap(comp.simp(unp(x.a[0])))
            if c is not None:
                a = mk("ite", atoms.setdefault(c, typed(mk("has", c[0], c[1]), "bool")), TRUE, FALSE)
                return a if x.op == "nonnull" else V.bnot(a)
        return None
    base = S.decide()
    r = V.subst(I.result, norm)
    for k in ("Exact", "Hamiltonian", "Liouvillean"):
        seen, bad = {}, []

        def leaf(x):
            if x in seen:
                return seen[x]
            if x.op == "ite":
                v = V.ite(mk("ite", x.a[0], TRUE, FALSE), leaf(x.a[1]), leaf(x.a[2]))
            elif x.op == "ptr" and x.a[0] in I.rootcls and I.rootcls[x.a[0]] is not None:
                m = elem.Made(ctx, S.prog, S.maker, I, x.a[0], base)
                v = TRUE if m.derives("structure::" + k) else FALSE
            else:
                bad.append(show(x)[:120])
                v = FALSE
            seen[x] = v
            return v
        got = leaf(r)
        want = FALSE
        for i in range(len(S.parts)):
            want = V.bor(want, mk("ite", typed(mk("has", k, i), "bool"), TRUE, FALSE))
        strange = [x for x in subnodes(got) if x.op not in ("has", "ite", "true", "false")]
        d = ""
        if got is not want:
            for i, p in enumerate(S.parts):
                h = mk("ite", typed(mk("has", k, i), "bool"), TRUE, FALSE)
                if V.band(h, V.bnot(got)) is not FALSE:
                    d += "%s alone can go unnoticed; " % p.name
            d = d or "offered though no part has it"
        ctx.ob("union:%s:%s" % (S.what, k), "the %s system offers %s exactly when one of its parts does" % (S.what, k), None if bad or strange else got is want, S.maker, d or str(bad[:2]))


def tag(c):
    return ",".join("-" if x is None else str(x) for x in c)


def evolve(ctx, S, kind, name):
    n = len(S.parts)
    for pat in comp.confs(n, (None, 1), 64):
        if all(x is None for x in pat):
            continue
        for rest in ("", "+"):
            conf = comp.conf(S, **{kind: pat})
            if rest:
                conf = comp.full(S, conf, kind)
            m = S.obj(conf)
            key = "evolve:%s:%s:%s%s" % (S.what, name, tag(pat), rest)
            desc = "%s of a %s system reaches exactly the parts having it (%s%s), each over all slices of its own axes" % (name[:-2], S.what, tag(pat), ", and everything else" if rest else "")
            f = m.method(name) if m else None
            if f is None:
                ctx.ob(key, desc, None, S.maker, "no such function in the object made")
                continue
            want = [i for i in range(n) if pat[i] is not None]
            cs, why = comp.calls(S.run(m, f, conf), name)
            if cs is not None:
                ok, det = judge(S, cs, kind, want, name, f)
            else:
                # it may depend on what the parts say about master equations
                ok, det = True, ""
                for aim in (True, False):
                    cs, w = comp.calls(S.run(m, f, dict(conf, aim=aim)), name)
                    o, d = judge(S, cs, kind, want, name, f) if cs is not None else (None, w)
                    if o is not True and ok is not False:
                        ok, det = o, d
            ctx.ob(key, desc, ok, f, det)


def judge(S, cs, kind, want, name, f):
    """states at positions 1 (and 2), times handed on"""
    got = [c[1] for c in cs]
    if sorted(got) != sorted(want) or any(c[0] != kind for c in cs):
        return False, "reaches parts %s instead of %s" % ([S.parts[i].name for i in got], [S.parts[i].name for i in want])
    st = [1] if name in ("actWithU_v", "actWithJ_v") else [1, 2]
    und = None
    for k, i, args, loops in cs:
        p = S.parts[i]
        ss = [comp.span(args[j], loops, S.rank) for j in st]
        if None in ss:
            und = "%s: state argument %s" % (p.name, [show(args[j])[:100] for j in st])
            continue
        for j, (ax, what, full) in zip(st, ss):
            if ax != p.axes and not (len(ax) == S.rank and sorted(ax) == sorted(p.axes) and ax == p.axes):
                return False, "%s acts on axes %s instead of %s" % (p.name, ax, p.axes)
            if what is not mk("p", j):
                if what.op == "p":
                    return False, "%s: slice of argument %s in place of argument %d" % (p.name, what.a[0], j)
                und = "%s: slice of %s" % (p.name, show(what)[:80])
            if not full:
                return False, "%s: not all slices are visited" % p.name
        # every slice index the same
        idxs = {show(comp.slices(args[j])[2]) if False else comp.slices(args[j])[2] for j in st if comp.slices(args[j])}
        if len(idxs) > 1:
            return False, "%s: different slices of state and derivative" % p.name
        for j, a in enumerate(args):
            if j not in st and unp(a) is not mk("p", j):
                if opaque(a):
                    und = "argument %d is %s" % (j, show(a)[:80])
                else:
                    return False, "%s: argument %d is %s instead of the one given" % (p.name, j, show(a)[:100])
    return (None if und else True), und or ""


def opaque(a):
    return any(x.op in ("unk", "undef", "while", "fold", "opaque") for x in subnodes(a))


def master(ctx, S):
    n = len(S.parts)
    for pat in comp.special(n):
        pat = [None if x is None else 1 for x in pat]
        if all(x is None for x in pat):
            continue
        conf = comp.conf(S, Exact=pat)
        m = S.obj(conf)
        f = m.method("applicableInMaster_v") if m else None
        key, desc = "master:%s:%s" % (S.what, tag(pat)), "a %s system is fit for a master equation exactly when the exact parts of all its parts are (%s)" % (S.what, tag(pat))
        if f is None:
            ctx.ob(key, desc, None, S.maker, "no such function")
            continue
        I = S.run(m, f, conf)
        want = TRUE
        for i in range(n):
            if pat[i] is not None:
                want = V.band(want, mk("ite", typed(mk("aim", num(i)), "bool"), TRUE, FALSE))
        got = tobool(elem.value(I)) if not I.deep and I.result is not None else None
        strange = got is None or any(x.op not in ("aim", "ite", "true", "false", "poly") for x in subnodes(got))
        ctx.ob(key, desc, got is want if not strange else None, f, show(got)[:200] if got is not None else "")


def result(I):
    """elements of the array returned"""
    v, name = I.result, None
    while v.op == "lref":
        name = I.locval((v.a[0], v.a[1]))
        v = I.read((v.a[0], v.a[1]))
    base, up = v, {}
    chain = []
    while base.op == "upd":
        chain.append((base.a[1], base.a[2]))
        base = base.a[0]
    for st, x in reversed(chain):
        if st[0] != "[" or len(st) != 2 or const_int(cn(st[1])) is None:
            return None, None
        up[const_int(cn(st[1]))] = unp(x)
    size = None
    if base.op == "ctor" and len(base.a) > 1:
        size = const_int(cn(base.a[1]))
    elif name is not None and const_int(cn(base)) is not None:
        # filled with a number after its construction
        last = None
        for e in walk(I.tr):
            if isinstance(e, Eff) and e.kind == "ctor" and e.name == "blitz::Array" and e.args:
                last = const_int(cn(e.args[0]))
            elif isinstance(e, Eff) and e.kind == "w" and e.obj is name:
                size = last
                break
    if base.op == "tuple":
        up = {**{i: unp(x) for i, x in enumerate(base.a)}, **up}
        size = len(base.a)
    return up, size


def averages(ctx, S, kind, prefix="averages"):
    n = len(S.parts)
    cap = 64 if S.what == "binary" else 24
    for pat in comp.confs(n, (None, 0, 1, 2), cap, comp.special(n)):
        if kind == "Liouvillean" and all(x is None for x in pat):
            continue
        conf = comp.conf(S, **{kind: pat})
        if sum(x or 0 for x in pat) % 2:
            conf = comp.full(S, conf, kind)
        m = S.obj(conf)
        cls = "Base" if kind == "Averaged" else "Liouvillean"
        f = m.method("average_v", lambda f: str(f.cls).split("<")[0].endswith("::" + cls)) if m else None
        key = "%s:%s:%s:%s" % (prefix, S.what, kind, tag(pat))
        what = "averages" if kind == "Averaged" else "jump rates"
        desc = "the %s of a %s system are those of its parts, each once and over the slices of its own axes (%s)" % (what, S.what, tag(pat))
        if f is None:
            ctx.ob(key, desc, None, S.maker, "no such function")
            continue
        I = S.run(m, f, conf)
        es, how = comp.straight(I) if not I.deep else (None, "too deep")
        up, size = result(I) if how in ("end", "return") else (None, None)
        if up is None:
            ctx.ob(key, desc, None, f, how)
            continue
        N = sum(x or 0 for x in pat)
        ok, det = True, ""
        if how == "end" or how == "return":
            seen = {}
            for i, v in sorted(up.items()):
                if v.op != "avg":
                    if opaque(v):
                        ok, det = None, "element %d is %s" % (i, show(v)[:100])
                    elif ok:
                        ok, det = False, "element %d is %s" % (i, show(v)[:100])
                    continue
                k, p, j, t, ldo = v.a[0], v.a[1], const_int(v.a[2]), v.a[3], v.a[4]
                seen.setdefault((p, j), []).append(i)
                ax = ldo.a[0] if ldo.op == "slice" else tuple(range(S.rank)) if ldo is mk("p", 1) else None
                src = ldo.a[1] if ldo.op == "slice" else ldo
                if k != kind or ax is None or unp(src) is not mk("p", 1):
                    ok, det = None, "element %d is %s" % (i, show(v)[:100])
                elif tuple(ax) != S.parts[p].axes:
                    ok, det = False, "%s is averaged over axes %s instead of %s" % (S.parts[p].name, ax, S.parts[p].axes)
                elif unp(t) is not mk("p", 0):
                    ok, det = False, "%s is averaged at time %s" % (S.parts[p].name, show(t)[:80])
            want = {(p, j) for p in range(n) for j in range(pat[p] or 0)}
            if ok is not None and (set(seen) != want or any(len(x) > 1 for x in seen.values())):
                ok, det = False, "entries (part, number) %s instead of %s" % (sorted(seen), sorted(want))
            if ok and (size is not None and size != N or sorted(up) != list(range(N))):
                ok, det = False, "%s elements for %d entries" % (size, N)
            if ok and size is None and N:
                ok, det = None, "size of the result"
        ctx.ob(key, desc, ok, f, det)


def freq(ctx, S, rule="freq"):
    n = len(S.parts)
    pat = [1] * n
    cs = [[2 * n if i == j else i + 1 for i in range(n)] for j in range(n)] + [[n - i for i in range(n)], [0] * n]
    for c in cs:
        conf = comp.conf(S, freq=c, Averaged=pat)
        m = S.obj(conf)
        f = m.method("highestFrequency_v") if m else None
        key, desc = "%s:%s:%s" % (rule, S.what, tag(c)), "the highest frequency of a %s system is the largest over its parts (%s)" % (S.what, tag(c))
        if f is None:
            ctx.ob(key, desc, None, S.maker, "no such function")
            continue
        I = S.run(m, f, conf)
        v = cn(elem.value(I)) if not I.deep and I.result is not None else None
        x = None
        if v is not None:
            x = fold(v)
        big = [S.parts[i].name for i in range(n) if c[i] == max(c)]
        ctx.ob(key, desc, None if x is None else x == max(c), f, "gives %s, the largest is that of %s" % (x if x is not None else show(v)[:160] if v is not None else None, big))


def fold(v):
    if const_int(v) is not None:
        return const_int(v)
    u = unp(v)
    if u.op in ("max", "min"):
        a, b = (fold(cn(x)) for x in u.a[:2])
        return None if a is None or b is None else (max if u.op == "max" else min)(a, b)
    return None
