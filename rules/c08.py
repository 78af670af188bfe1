"""C08 ensembles. cover: advancing, storing and restoring an ensemble are interpreted with the members as symbols, and the loops found are laid out for every ensemble size from 1 to 5 (trip counts and
member indices are affine in the size, so this decides all sizes): every member is visited exactly once, with the very interval given. mean: the average (generic and of wave functions) and the reported
step are linear combinations of the members, whose coefficients are computed symbolically: each member once, divided by the number of members. make: the factory is interpreted; as many members as
asked for, the random stream number of member i is the given one plus i with the same seed, and nothing else of a member depends on i, nor does it share its state array with another.
out: what is streamed is the average at the common time, by the streamer that also writes the key."""
from fractions import Fraction
from sa.q import *
from sa.val import *
from sa import val as V
from rules.c02 import fields

NS = "cppqedutils::trajectory::Ensemble::"
FLOOR = {"cover": 3, "mean": 3, "make": 5, "out": 2}
ASSUME = ["members are of a type with its own step/stateIO/averaged, whose behaviour is decided by C01, C04 and C06", "std::vector and std::accumulate have their standard meaning"]
SIZES = (2, 3, 4, 5, 1)


def check(ctx):
    toy = ctx.program(["w_ens.cc"])
    tr = ctx.program(["w_traj.cc"])
    ctx.part(cover, toy)
    ctx.part(means, toy)
    ctx.part(outs_, toy)
    ctx.part(wavefunctions, tr)
    ctx.part(make, tr)


def members(n):
    """the container of the members mentioned in a value: the one location whose elements are used"""
    return {x.a[0] for x in subnodes(n) if x.op == "elem"}


def container(prog, fn="toyDtDid"):
    rec = None
    for tu in prog.tus:
        for r in tu.recs.values():
            if r.get("q", "").startswith("cppqedutils::trajectory::Ensemble") and "ToySingle" in str(r.get("full", r.get("n", ""))):
                rec = r
    return rec


def at(n, size):
    """value with every container size set"""
    def f(x):
        if x.op == "size":
            return num(size)
        return None
    return f


def member_index(obj):
    """(container, constant index) of a location value"""
    o = unp(obj)
    if o is not None and o.op == "elem" and len(o.a) == 2:
        return o.a[0], const_int(cn(o.a[1]))
    return None


def base(c):
    """container behind loop-carried versions"""
    while c.op == "lc":
        c = c.a[2]
    return c


def cover(ctx, prog):
    def rule(key, fname, call, desc, argrule):
        f = ctx.need(prog.find(name=fname), fname)[0]
        I = ctx.interp(prog, f, inline=lambda g: g.q not in ("cppqedutils::advance",))
        calls = [e for e in effs(I.tr, "call") if e.name == call]
        if I.deep or not calls:
            # nothing of the kind at all: only definite when nothing else happens to the members
            other = [e for e in effs(I.tr) if e.kind in ("call", "apply", "io")]
            ctx.ob(key, desc, None if I.deep or other else False, f, "no %s of a member" % call)
            return
        for n in SIZES:
            L, how = unroll(I.tr, at(None, n))
            L = [u for u in L if u.kind == "call" and u.name == call]
            if how == "unknown":
                ctx.ob(key, desc, None, f, "loop structure not understood for %d members" % n)
                return
            seen = []
            for u in L:
                m = member_index(u.args[0] if call == "cppqedutils::advance" else u.obj)
                if m is None or m[1] is None:
                    ctx.ob(key, desc, None, f, "member not recognised: %s" % show(u.obj if u.obj is not None else u.args[0])[:120])
                    return
                seen.append(m[1])
                bad = argrule(u)
                if bad:
                    ctx.ob(key, desc, False, f, bad)
                    return
            if sorted(seen) != list(range(n)):
                ctx.ob(key, desc, False, f, "of %d members those visited are %s" % (n, seen))
                return
        ctx.ob(key, desc, True, f)

    def interval(u):
        d = cn(u.args[1])
        if d is P(mk("p", 1)):
            return None
        return None if any(x.op in ("unk", "fold", "while") for x in subnodes(d)) else "the interval handed on is %s" % show(d)[:150]

    rule("cover:advance", "toyAdvance", "cppqedutils::advance", "every member is advanced exactly once, by the interval given", interval)
    rule("cover:load", "toyLoad", "ToySingle::stateIO", "every member is restored exactly once", lambda u: None)
    rule("cover:save", "toySave", "ToySingle::stateIO", "every member is stored exactly once", lambda u: None)
    # the order in which members are stored is the order in which they are restored
    seqs = []
    for fname in ("toyLoad", "toySave"):
        f = prog.find(name=fname)[0]
        I = ctx.interp(prog, f)
        L, how = unroll(I.tr, at(None, 4))
        seqs.append([member_index(u.obj) for u in L if u.kind == "call" and u.name == "ToySingle::stateIO"] if how != "unknown" else None)
    s = [[m and m[1] for m in x] if x is not None else None for x in seqs]
    ctx.ob("cover:order", "members are restored in the order in which they were stored", None if None in s or any(None in x for x in s) else s[0] == s[1], f, "restored %s, stored %s" % tuple(s))


def linear(v, call):
    """{member index: coefficient} of a value linear in call(member); None when not of that form"""
    v = cn(v)
    if v.op != "poly":
        return None
    out = {}
    for m, c in v.a:
        if len(m) != 1 or m[0][1] != 1 or c[1] != 0:
            return None
        a = m[0][0]
        if a.op != "call" or a.a[0] != call:
            return None
        k = member_index(a.a[2])
        if k is None or k[1] is None:
            return None
        out[k[1]] = out.get(k[1], 0) + Fraction(c[0])
    return out


def means(ctx, prog):
    for key, fname, call, desc in (("mean:generic", "toyAveraged", "ToySingle::averaged", "the average is the sum over all members divided by their number"),
                                   ("mean:step", "toyDtDid", "ToySingle::getDtDid", "the step reported is the average over the members")):
        f = ctx.need(prog.find(name=fname), fname)[0]
        I = ctx.interp(prog, f)
        judge_mean(ctx, key, desc, f, I.result, lambda v, n: linear(expand(v, at(None, n)), call), I.deep)


def judge_mean(ctx, key, desc, f, res, lin, deep):
    if deep or res is None:
        ctx.ob(key, desc, None, f, "analysis incomplete")
        return
    for n in SIZES:
        L = lin(res, n)
        if L is None:
            v = res
            stale = isinstance(v, N) and unp(cn(v)).op == "fld" and base0(unp(cn(v))) in (mk("p", 0), mk("this"))
            ctx.ob(key, desc, False if stale else None, f, "not a recognisable combination of the members: %s" % (show(v)[:200] if isinstance(v, N) else v))
            return
        L = {k: c for k, c in L.items() if c != 0}
        if L != {k: Fraction(1, n) for k in range(n)}:
            ctx.ob(key, desc, False, f, "for %d members the coefficients are %s" % (n, {k: str(c) for k, c in sorted(L.items())}))
            return
    ctx.ob(key, desc, True, f)


def outs_(ctx, prog):
    f = ctx.need(prog.find(name="toyStream"), "toyStream")[0]
    I = ctx.interp(prog, f)
    c = list(effs(I.tr, "call", "ToyStreamer::operator()"))
    if len(c) != 1 or I.deep:
        ctx.ob("out:stream", "the average at the members' time is streamed once", False if not c and not I.deep and not list(effs(I.tr, "apply")) else None, f, "%d calls of the streamer" % len(c))
    else:
        t, a, os, pr = c[0].args
        tm = member_index(t.a[2]) if t.op == "call" and t.a[0] == "ToySingle::getTime" else member_index(unp(cn(t)).a[2]) if unp(cn(t)).op == "call" else None
        ctx.ob("out:time", "the time streamed is the time of the members", True if tm is not None and "getTime" in show(t) else None if opaque(t) else False, f, show(t)[:200])
        judge_mean(ctx, "out:average", "what is streamed is the average over all members", f, a, lambda v, n: linear(expand(v, at(None, n)), "ToySingle::averaged"), False)
        ctx.ob("out:precision", "the precision is handed on", cn(pr) is P(mk("p", 2)) or (None if opaque(pr) else False), f, show(pr))
    f = ctx.need(prog.find(name="toyTime"), "toyTime")[0]
    I = ctx.interp(prog, f)
    r = unp(cn(I.result)) if isinstance(I.result, N) else None
    ok = r is not None and r.op == "call" and r.a[0] == "ToySingle::getTime" and member_index(r.a[2]) is not None and member_index(r.a[2])[1] == 0
    if not ok and r is not None and not I.deep:
        m = r.op == "call" and r.a[0] == "ToySingle::getTime" and member_index(r.a[2])
        if not m:
            ok = None if opaque(r) or r.op == "call" else False
        elif m[1] is None:
            o = unp(r.a[2])
            ok = inside(o.a[1])
        else:
            ok = False if m[1] != 0 else True
    ctx.ob("out:gettime", "the time of the ensemble is that of a member that exists in every ensemble", ok, f, show(r)[:200] if r is not None else "")
    f = ctx.need(prog.find(name="toyKey"), "toyKey")[0]
    I = ctx.interp(prog, f)
    c = list(effs(I.tr, "call", "ToyStreamer::streamKey"))
    ctx.ob("out:key", "the key is written by the same streamer, once", True if len(c) == 1 and const_int(c[0].args[1]) == 3 else None if I.deep or not c else False, f,
           "%s" % [(show(e.obj)[:60], [show(a)[:40] for a in e.args]) for e in c])


def inside(ix):
    for n in SIZES:
        k = const_int(cn(V.subst(ix, at(None, n))))
        if k is None:
            return None
        if not 0 <= k < n:
            return False
    return True


def opaque(v):
    return any(x.op in ("unk", "fold", "while", "opaque") for x in subnodes(v))


QD = "quantumdata::"


def wavefunctions(ctx, prog):
    """rho as a combination of dyads of the members' state vectors, by the meaning of the operations used on it"""
    fs = [f for f in prog.find(q="cppqedutils::trajectory::AverageTrajectories::_") if "MCWF" in (f.cls or "")]
    f = ctx.need(fs, "AverageTrajectories<MCWF>")[0]
    stop = ("addTo", "operator=", "operator+=", "operator/=", "operator*=", "operator-=", "dyad")
    I = ctx.interp(prog, f, inline=lambda g: not (g.q.startswith(QD) and g.name in stop and "StateVector" not in "" and g.q != QD + "ArrayBase::getArray"))
    desc = "the ensemble average is the sum of the members' dyads divided by their number"
    key = "mean:wavefunctions"
    if I.deep:
        ctx.ob(key, desc, None, f, "analysis incomplete")
        return
    rho = mk("p", 0)

    def isrho(n):
        n = unp(n)
        while n is not None and n.op in ("lc", "argout", "upd"):
            return False
        return n is rho

    def psi(v):
        """index of the member whose state vector this is"""
        for x in subnodes(v):
            m = member_index(x) if x.op == "elem" else None
            if m is not None:
                return m[1] if m[1] is not None else "?"
        return None

    for n in SIZES:
        L, how = unroll(I.tr, at(None, n))
        if how == "unknown":
            ctx.ob(key, desc, None, f, "structure not understood for %d members" % n)
            return
        st = {"old": Fraction(1)}
        for u in L:
            nm = u.name.split("::")[-1]
            tgt = None
            if u.kind == "call" and nm == "addTo":
                k = psi(u.obj)
                if k is None or k == "?":
                    ctx.ob(key, desc, None, f, "unrecognised member in %s" % show(u.obj)[:100])
                    return
                w = Fraction(1)
                if len(u.args) > 1:
                    w = cn(u.args[1])
                    w = w.a[0][1] if w.op == "poly" and len(w.a) == 1 and not w.a[0][0] else (0, 0) if w is ZERO else None
                    if w is None or w[1] != 0:
                        ctx.ob(key, desc, None, f, "unrecognised weight %s" % show(u.args[1])[:100])
                        return
                    w = Fraction(w[0])
                st[k] = st.get(k, 0) + w
            elif (u.kind == "call" and nm == "operator=" or u.kind == "w" and u.name == "=") and u.obj is not None and isrho(u.obj):
                k = psi(u.args[0])
                z = const_int(cn(u.args[0]))
                if k is not None and k != "?":
                    st = {k: Fraction(1)}
                elif z == 0:
                    st = {}
                else:
                    ctx.ob(key, desc, None, f, "unrecognised assignment %s" % show(u.args[0])[:100])
                    return
            elif u.kind == "call" and u.obj is not None and isrho(u.obj) and nm in ("operator/=", "operator*="):
                c = cn(u.args[0])
                c = c.a[0][1] if c.op == "poly" and len(c.a) == 1 and not c.a[0][0] else None
                if c is None or c[1] != 0 or c[0] == 0:
                    ctx.ob(key, desc, None, f, "unrecognised factor %s" % show(u.args[0])[:100])
                    return
                c = Fraction(c[0]) if nm == "operator*=" else 1 / Fraction(c[0])
                st = {k: x * c for k, x in st.items()}
            elif u.kind in ("call", "apply", "io") and (u.obj is not None and isrho(u.obj) or any(isrho(a) for a in u.args if isinstance(a, N))):
                ctx.ob(key, desc, None, f, "unrecognised operation %s on the average" % u.name)
                return
            elif u.kind == "w" and u.obj is not None and any(x is rho for x in subnodes(u.obj)):
                ctx.ob(key, desc, None, f, "unrecognised write %s" % show(u.obj)[:100])
                return
        st = {k: c for k, c in st.items() if c != 0}
        if st != {k: Fraction(1, n) for k in range(n)}:
            ctx.ob(key, desc, False, f, "for %d members the weights of the dyads are %s" % (n, {k: str(c) for k, c in sorted(st.items(), key=str)}))
            return
    ctx.ob(key, desc, True, f)


def make(ctx, prog):
    f = ctx.need(prog.find(q="quantumtrajectory::mcwf::makeEnsemble"), "makeEnsemble")[0]
    I = ctx.interp(prog, f)
    if I.deep:
        ctx.ob("make:streams", "members have different random streams", None, f, "analysis incomplete")
        return
    p2 = mk("p", 2)
    isn = lambda x, name: x.op == "fld" and x.a[0] is p2 and x.a[1].endswith("::" + name)
    ctors = [e for e in effs(I.tr, "ctor") if e.name.endswith("pcg64")]
    if not ctors:
        ctx.ob("make:streams", "members have different random streams", None, f, "no construction of an engine found")
        return
    loop = [l for l in walk(I.tr) if isinstance(l, Loop) and any(e is c for c in ctors for e in walk(l.body))]
    if not loop:
        ctx.ob("make:count", "as many members are made as asked for", None, f, "no loop around the engines")
        return
    loop = loop[0]
    N0 = 4

    def fs(n):
        def g(x):
            if isn(x, "nTraj"):
                return num(n)
            return None
        return g
    # count
    ok, det = True, ""
    pushes = [e for e in walk(loop.body) if isinstance(e, Eff) and e.kind == "call" and e.name.split("::")[-1] in ("push_back", "emplace_back")]
    for n in SIZES:
        t = const_int(cn(V.subst(loop.trip, fs(n)))) if loop.trip is not None else None
        if t is None:
            ok, det = None, "number of members not understood: %s" % (show(loop.trip)[:200] if loop.trip is not None else "")
            break
        if t != n:
            ok, det = False, "%d members made when %d were asked for" % (t, n)
            break
    ctx.ob("make:count", "as many members are made as asked for", ok, f, det)
    lvl = unp(loop.idx).a[0]
    # the pushed value
    pv = pushed(I, loop)
    ctx.ob("make:once", "each round adds one member", (len(ctors) == 1) or None, f, "%d engine constructions in a round" % len(ctors))
    e = ctors[-1]
    at_k = lambda v, k: cn(V.subst(v, lambda x: num(k) if x.op == "idx" and x.a[0] == lvl else None))
    lost = any(opaque(a) for a in e.args)
    pairs = [tuple(at_k(a, k) for a in e.args) for k in range(N0)]
    if lost:
        ctx.ob("make:streams", "members have pairwise different random streams", None, f, "arguments of the engine not understood: %s" % [show(a)[:150] for a in e.args])
    else:
        streams = [x[1] for x in pairs] if len(e.args) > 1 else [None] * N0
        ctx.ob("make:streams", "members have pairwise different random streams", len(set(streams)) == N0 and all(is_const(sub(a, b)) for a in streams for b in streams), f, "the streams are %s" % [show(s) if s is not None else None for s in streams])
        sd = P(next((x for x in subnodes(e.args[0]) if isn(x, "seed")), mk("unk", "seed")))
        ctx.ob("make:seed", "all members use the seed given", all(x[0] is sd for x in pairs), f, "the seeds are %s" % [show(x[0]) for x in pairs])
        st = next((x for x in subnodes(e.args[1]) if isn(x, "prngStream")), None) if len(e.args) > 1 else None
        ctx.ob("make:first", "the first member uses the stream given", st is not None and pairs[0][1] is P(st), f, show(pairs[0][1]) if len(e.args) > 1 else "no stream")
    # everything else the member is made from
    bad, und = [], []
    for x in walk(loop.body):
        if isinstance(x, Eff) and x.kind == "w" and x.name == "init":
            for a in x.args:
                if not isinstance(a, N):
                    continue
                nm = show(x.obj)
                b = strip_engine(a, e)
                if any(y.op in ("idx", "lc") and y.a[0] == lvl for y in subnodes(b)) and not any(s in nm for s in ("engine", "prngStream")):
                    dep = [y for y in subnodes(b) if y.op in ("idx", "lc") and y.a[0] == lvl]
                    dep = [y for y in dep if y.op == "idx" or base0(y.a[2]) is p2]
                    if not dep or "prngStream" in show(b):
                        continue
                    bad.append("%s = %s" % (nm[-60:], show(b)[:120]))
    ctx.ob("make:same", "nothing but the random stream depends on the member's number", not bad, f, "; ".join(bad[:3]))
    # no sharing of the state between members
    cp = [x for x in walk(loop.body) if isinstance(x, Eff) and x.kind == "call" and x.name == "blitz::Array::copy" and "p(1)" in show(x.obj)]
    refs = [x for x in walk(loop.body) if isinstance(x, Eff) and x.kind == "w" and x.name == "init" and x.obj is not None and show(x.obj).endswith("arrayLow_)")
            and any(isinstance(a, N) and a.op == "lref" and a.a[0] == ("p", 1) or isinstance(a, N) and unp(a) is not None and unp(a).op == "fld" and base0(unp(a)) is mk("p", 1) for a in x.args)]
    ctx.ob("make:state", "every member has its own copy of the initial state", False if refs else True if cp else None, f, "the state array of a member is that of the argument" if refs else "")


def base0(n):
    while n.op in ("fld", "elem"):
        n = n.a[0]
    return n


def strip_engine(v, e):
    return V.subst(v, lambda x: mk("unk", "engine") if x.op == "ctor" and x.a[0].endswith("pcg64") else None)


def pushed(I, loop):
    return None
