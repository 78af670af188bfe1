"""C16 numbering of decay channels and expectation values in composite systems. The order of the parts is read off the function that streams the key; in that order the entries of the averages and rates, the ranges
handed to post-processing and streaming, and the target of every jump and superoperator index are computed for configurations of numbers of entries per part (none, zero, one, two ...), each function interpreted
with these numbers and this index; the part reached, the local index, the axes and the times must be those of the consecutive numbering."""
from sa.q import *
from sa.val import *
from sa import val as V
from rules import comp, elem, c15

FLOOR = {"key": 20, "number": 20, "order": 60, "range": 60, "jump": 100}
ASSUME = c15.ASSUME


def check(ctx):
    for what in ("binary", "composite"):
        try:
            S = comp.System(ctx, what)
        except Exception as x:
            ctx.ob("part:" + what, "the maker of the %s system could be interpreted" % what, None, "", str(x)[:300])
            continue
        for kind in ("Averaged", "Liouvillean"):
            ctx.part(numbering, S, kind)
        ctx.part(ranges, S, "process_v")
        ctx.part(ranges, S, "stream_v")
        ctx.part(jumps, S, "actWithJ_v")
        ctx.part(jumps, S, "actWithSuperoperator_v")


def pick(m, kind, name):
    cls = "Base" if kind == "Averaged" else "Liouvillean"
    return m.method(name, lambda f: str(f.cls).split("<")[0].endswith("::" + cls)) if m else None


def keyorder(ctx, S, kind):
    """the parts in the order of the key, all of them having entries"""
    n = len(S.parts)
    conf = comp.conf(S, **{kind: [1] * n})
    m = S.obj(conf)
    f = pick(m, kind, "streamKey_v")
    if f is None:
        return None
    cs, why = comp.calls(S.run(m, f, conf), "streamKey_v")
    if cs is None or sorted(c[1] for c in cs) != list(range(n)):
        return None
    return [c[1] for c in cs]


def numbering(ctx, S, kind):
    n = len(S.parts)
    order = keyorder(ctx, S, kind)
    cap = 64 if S.what == "binary" else 24
    for pat in comp.confs(n, (None, 0, 1, 2), cap, comp.special(n)):
        if kind == "Liouvillean" and all(x is None for x in pat):
            continue
        conf = comp.conf(S, **{kind: pat})
        if sum(x or 0 for x in pat) % 2:
            conf = comp.full(S, conf, kind)
        m = S.obj(conf)
        tg = "%s:%s:%s" % (S.what, kind, c15.tag(pat))
        # key
        f = pick(m, kind, "streamKey_v")
        if f is not None:
            cs, why = comp.calls(S.run(m, f, conf), "streamKey_v")
            ok, det = None, why
            if cs is not None:
                got = [c[1] for c in cs]
                want = [i for i in range(n) if pat[i] is not None]
                ok = sorted(got) == sorted(want) and all(c[0] == kind for c in cs)
                det = "key of parts %s instead of %s" % (got, want)
                if ok and order is not None:
                    ok = got == [i for i in order if i in want]
                    det = "order of parts %s" % got
                if ok:
                    # one running number through all of them, on the same stream
                    for k, c in enumerate(cs):
                        a = [unp(x) for x in c[2]]
                        if len(a) < 2 or any(c15.opaque(x) for x in a):
                            ok = None
                            continue
                        src = [mk("p", 1)] if k == 0 else None
                        if k == 0 and a[1] is not mk("p", 1) or k and not (a[1].op == "argout" and "streamKey_v" in str(a[1].a[0])):
                            ok, det = False, "the running number of %s is %s" % (S.parts[c[1]].name, show(a[1])[:80])
            ctx.ob("key:" + tg, "the key of a %s system lists the entries of its parts, each once (%s)" % (S.what, c15.tag(pat)), ok, f, det)
        # number
        f = pick(m, kind, "nAvr_v")
        if f is not None:
            I = S.run(m, f, conf)
            v = const_int(cn(elem.value(I))) if not I.deep and I.result is not None else None
            N = sum(x or 0 for x in pat)
            ctx.ob("number:" + tg, "a %s system has as many entries as its parts together (%s)" % (S.what, c15.tag(pat)), None if v is None else v == N, f, "%s instead of %d" % (v, N))
        # order of the values
        f = pick(m, kind, "average_v")
        if f is not None and order is not None:
            I = S.run(m, f, conf)
            es, how = comp.straight(I) if not I.deep else (None, "too deep")
            up, size = c15.result(I) if how in ("end", "return") else (None, None)
            want = [(p, j) for p in order for j in range(pat[p] or 0)]
            ok, det = None, how
            if up is not None:
                got = [(up[i].a[1], const_int(up[i].a[2])) if up[i].op == "avg" else None for i in sorted(up)]
                if None in got:
                    ok, det = (None if any(c15.opaque(x) for x in up.values()) else False), "%s" % [show(x)[:60] for x in up.values()]
                else:
                    ok = sorted(up) == list(range(len(want))) and got == want
                    det = "entries (part, number) %s instead of %s" % (got, want)
            ctx.ob("order:" + tg, "the values of a %s system come in the order of its key (%s)" % (S.what, c15.tag(pat)), ok, f, det)


def extent(a):
    """(first, last) of a range of the array of averages, whole array: None"""
    a = unp(a)
    while a.op == "call" and str(a.a[0]) == "blitz::Array::copy" and len(a.a) == 3:
        a = unp(a.a[2])
    if a.op == "elem" and len(a.a) == 2:
        r = unp(a.a[1])
        if r.op == "ctor" and str(r.a[0]) == "blitz::Range":
            k = [const_int(cn(x)) for x in r.a[1:3]]
            st = const_int(cn(r.a[3])) if len(r.a) > 3 else 1
            if None not in k and st == 1:
                base = unp(a.a[0])
                while base.op == "upd":
                    base = unp(base.a[0])
                return k[0], k[1], base
    return None


def processed(v, name):
    """the value has been through post-processing by this part"""
    ns = list(subnodes(v))
    return any(x.op == "argout" and "process_v" in str(x.a[0]) for x in ns) and any(x.op == "g" and x.a[0] == name for x in ns)


def ranges(ctx, S, name):
    n = len(S.parts)
    order = keyorder(ctx, S, "Averaged")
    if order is None:
        return ctx.ob("range:%s:%s" % (S.what, name), "the order of the key is known", None, S.maker, "")
    cap = 64 if S.what == "binary" else 24
    for pat in comp.confs(n, (None, 0, 1, 2, 3), cap, comp.special(n)):
        conf = comp.conf(S, Averaged=pat)
        if sum(x or 0 for x in pat) % 2:
            conf = comp.full(S, conf, "Averaged")
        m = S.obj(conf)
        f = pick(m, "Averaged", name)
        if f is None:
            continue
        key = "range:%s:%s:%s" % (S.what, name, c15.tag(pat))
        desc = "%s of a %s system hands every part its own columns (%s)" % (name[:-2], S.what, c15.tag(pat))
        I = S.run(m, f, conf)
        cs, why = comp.calls(I, name)
        if cs is None:
            ctx.ob(key, desc, None, f, why)
            continue
        want, l = {}, 0
        for p in order:
            if pat[p]:
                want[p] = (l, l + pat[p] - 1)
                l += pat[p]
        got, ok, det = [], True, ""
        for k, p, args, loops in cs:
            if k != "Averaged" or loops:
                ok, det = None, "call in a loop"
                break
            x = extent(args[0])
            if x is None:
                ok, det = None, "argument %s" % show(args[0])[:120]
                break
            if not pat[p] and x[1] < x[0]:
                continue
            got.append((p, x[0], x[1]))
            if x[2] is not mk("p", 0):
                ok, det = None, "columns of %s" % show(x[2])[:80]
                break
        if ok:
            if name == "process_v":
                ok = sorted(got) == sorted((p, a, b) for p, (a, b) in want.items())
            else:
                ok = got == [(p,) + want[p] for p in order if p in want]
            det = "(part, first, last column) %s instead of %s" % (got, [(p,) + want[p] for p in order if p in want])
        if ok and name == "process_v":
            # the results end up in the array given
            v = I.read((("p", 0), ()))
            ups = []
            while v.op == "upd":
                ups.append((v.a[1], v.a[2]))
                v = v.a[0]
            for p in want:
                name_ = "Averaged of part %d" % p
                if not any(processed(u[1], name_) for u in ups):
                    touched = [u for u in ups if extent(mk("elem", mk("p", 0), *u[0][1:])) is None] if all(u[0][0] == "[" for u in ups) else [1]
                    over = [u for u in ups if u[0][0] == "[" and extent(mk("elem", mk("p", 0), *u[0][1:])) and not (extent(mk("elem", mk("p", 0), *u[0][1:]))[0] > want[p][1] or extent(mk("elem", mk("p", 0), *u[0][1:]))[1] < want[p][0])]
                    ok, det = (None if touched or over or v is not mk("p", 0) else False), "the post-processed columns of %s do not end up in the array" % S.parts[p].name
                    break
        ctx.ob(key, desc, ok, f, det)


def jumps(ctx, S, name):
    n = len(S.parts)
    order = keyorder(ctx, S, "Liouvillean")
    if order is None:
        return ctx.ob("jump:%s:%s" % (S.what, name), "the order of the key is known", None, S.maker, "")
    cap = 64 if S.what == "binary" else 16
    pos = 2 if name == "actWithJ_v" else 3
    for pat in comp.confs(n, (None, 0, 1, 2), cap, comp.special(n)):
        conf = comp.conf(S, Liouvillean=pat)
        if sum(x or 0 for x in pat) % 2:
            conf = comp.full(S, conf, "Liouvillean")
        m = S.obj(conf)
        f = m.method(name) if m else None
        if f is None or all(x is None for x in pat):
            continue
        targets = [(p, j) for p in order for j in range(pat[p] or 0)]
        for k, (p, j) in enumerate(targets):
            key = "jump:%s:%s:%s:%d" % (S.what, name, c15.tag(pat), k)
            desc = "number %d in %s of a %s system reaches the right part with its local number (%s)" % (k, name[:-2], S.what, c15.tag(pat))
            args = [None] * len(f.params)
            args[pos] = num(k)
            I = S.run(m, f, conf, args=args)
            cs, why = comp.calls(I, name)
            if cs is None:
                ctx.ob(key, desc, None, f, why)
                continue
            if len(cs) != 1 or cs[0][1] != p:
                ctx.ob(key, desc, False, f, "reaches %s instead of %s" % ([S.parts[c[1]].name for c in cs] or "no part", S.parts[p].name))
                continue
            _, _, a, loops = cs[0]
            loc = const_int(cn(a[pos])) if pos < len(a) else None
            if loc is None:
                ctx.ob(key, desc, None, f, "local number %s" % show(a[pos])[:80])
                continue
            if loc != j:
                ctx.ob(key, desc, False, f, "%s with local number %d instead of %d" % (S.parts[p].name, loc, j))
                continue
            ok, det = on_slices(S, S.parts[p], a, loops, name)
            ctx.ob(key, desc, ok, f, det)


def on_slices(S, part, a, loops, name):
    st = [1] if name == "actWithJ_v" else [1, 2]
    rank = S.rank if name == "actWithJ_v" else 2 * S.rank
    want = part.axes if name == "actWithJ_v" else part.axes + tuple(x + S.rank for x in part.axes)
    for j in st:
        s = comp.span(a[j], loops, rank)
        if s is None:
            return None, "state argument %s" % show(a[j])[:100]
        ax, what, full = s
        if ax != want:
            return False, "%s acts on axes %s instead of %s" % (part.name, ax, want)
        if what is not mk("p", j):
            return (False if what.op == "p" else None), "slice of %s in place of argument %d" % (show(what)[:60], j)
        if not full:
            return False, "not all slices are visited"
    idxs = {comp.slices(a[j])[2] for j in st if comp.slices(a[j])}
    if len(idxs) > 1:
        return False, "different slices of the state and its derivative"
    if unp(a[0]) is not mk("p", 0):
        return (None if c15.opaque(a[0]) else False), "time argument %s" % show(a[0])[:80]
    return True, ""
