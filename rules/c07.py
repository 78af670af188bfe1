"""C07 master-equation step, decided in the free algebra of matrices with conjugation and transposition (array handles that share storage are tracked, so that transposing a view does not move data).
rhs: the right-hand side handed to the integrator is interpreted on a symbolic density operator: it starts from zero, is H·rho plus its Hermitian conjugate with the times given, adds for every decay channel
below the system's number of channels exactly one superoperator term, or J·rho·J† where there is none, and leaves its argument alone. exact: with an exact part the state becomes U·rho·U† with the time
reached and the origin of the interaction picture, before that origin is moved. herm: what is finally stored is X+X† of that state, renormalised. help: doubling the real part and renormalising do
what the above takes them for, elementwise for every matrix size up to 4."""
from fractions import Fraction
from sa.q import *
from sa.val import *
from sa import val as V
from sa import interp as IN
from rules import mx

FLOOR = {"rhs": 8, "exact": 2, "herm": 2, "help": 3}
ASSUME = ["the integrator changes only the time and the array it is given, through the right-hand side", "slices of the left half of the axes of a density operator are its columns (decided by C11)"]
ST = "quantumtrajectory::Master::step"


def check(ctx):
    prog = ctx.program(["w_traj.cc"])
    ctx.part(steps, prog)
    ctx.part(helpers)
    ctx.part(renorm, prog)


def atoms_of(prog, ctx, f):
    """the capability atoms tested: nonnull(field) by the type of the field"""
    E = mx.Env()
    I = ctx.interp(prog, f, inline=E.inline, post=E.post, views=True)
    out = {}
    for x in I.read((("this",), ())), :
        pass
    seen = set()
    trees = [I.tr] + [l["tr"] for l in E.lams]
    for t in trees:
        for e in walk(t):
            if isinstance(e, If):
                for c in subnodes(e.cond):
                    if c.op == "nonnull":
                        seen.add(c)
    return I, seen


def steps(ctx, prog):
    f = ctx.need(prog.find(q=ST), "Master::step")[0]
    I0, seen = atoms_of(prog, ctx, f)
    role = {}
    for c in seen:
        n = show(c)
        for k in ("ex_", "ha_", "li_", "av_"):
            if "::" + k in n:
                role[k[:2]] = c
    for ex in (True, False):
        for ha in (True, False):
            for li in (True, False):
                assume = {role["av"]: TRUE} if "av" in role else {}
                for k, b in (("ex", ex), ("ha", ha), ("li", li)):
                    if k in role:
                        assume[role[k]] = TRUE if b else FALSE
                ctx.part(one, prog, f, assume, ex, ha, li, set(role))


def one(ctx, prog, f, assume, ex, ha, li, roles):
    tag = "".join(n if b else "-" for n, b in (("E", ex), ("H", ha), ("L", li)))
    E = mx.Env()
    I = ctx.interp(prog, f, inline=E.inline, post=E.post, views=True, assume=assume)
    if I.deep or len(E.lams) != 1:
        ctx.ob("rhs:" + tag, "the step integrates one right-hand side", None, f, "%d integrations found" % len(E.lams))
        return
    L = E.lams[0]
    rhs(ctx, prog, f, L, I, tag, ha, li)
    # the state before and after smoothing
    t0 = next((k for k in I.allw if k[0] == ("this",) and k[1] and k[1][-1][1].endswith("::t0_")), None)
    arr = I.deref(L["y"])
    fin = I.read(arr)
    u = unp(cn(fin))
    key = "herm:" + tag
    if u.op != "M" or u.a[0] != "renorm":
        try:
            mx.nf(cn(fin))
            ctx.ob(key, "the state stored at the end is renormalised", False, f, "it is %s" % mx.showw(mx.nf(cn(fin)))[:300])
        except mx.NotLinear as x:
            ctx.ob(key, "the state stored at the end is renormalised", None, f, str(x))
        return
    try:
        base = mx.nf(cn(u.a[1]))
    except mx.NotLinear as x:
        ctx.ob(key, "the state stored at the end is Hermitian", None, f, str(x))
        return
    herm = mx.dagger(base) == base
    ctx.ob(key, "the state stored at the end is made Hermitian before it is renormalised", herm, f, mx.showw(base)[:400])
    # exact part
    tau = P(typed(mk("ev", "t", 1), "double"))
    org = origin(I, L, f)
    ev = (mx.sym("ev", num(1)), False, False)
    want = {(ev,): num(1)}
    if ex:
        us = {l[0] for w in base for l in w if l[0].a[0] == "U"}
        okt = all(x.a[1] is tau and (org is None or x.a[2] is org) for x in us)
        if us and not okt:
            ctx.ob("exact:time:" + tag, "the exact propagation is over the time since the origin of the interaction picture", False, f, "; ".join(mx.showw({((x, False, False),): num(1)}) for x in us))
        U = next(iter(us)) if us else None
        if U is None:
            ctx.ob("exact:" + tag, "the exact part acts on the state from both sides", False, f, mx.showw(base))
            return
        want = {((U, False, False), ev, (U, True, True)): num(1)}
        ctx.ob("exact:time:" + tag, "the exact propagation is over the time since the origin of the interaction picture", okt, f)
    full = mx.plus(want, mx.dagger(want))
    ok = base == full or proportional(base, full)
    ctx.ob("exact:" + tag, "before smoothing the state is %s" % ("U·rho·U†" if ex else "what the integrator returned"), ok, f, "smoothed state: %s" % mx.showw(base)[:500])
    # the origin of the interaction picture after the step
    org_l = origin_loc(I, L)
    if org_l is not None:
        v = cn(I.read(org_l))
        ctx.ob("exact:origin:" + tag, "the origin of the interaction picture moves to the time reached", True if v is cn(I.read(L["t"])) else (None if any(x.op in ("unk", "fold") for x in subnodes(v)) else False), f, show(v)[:200])


def proportional(a, b):
    if set(a) != set(b):
        return False
    r = None
    for w in a:
        q = V.div(a[w], b[w])
        if not is_const(q) or q is ZERO or V.const_int(q) is not None and V.const_int(q) < 0:
            return False
        if r is not None and q is not r:
            return False
        r = q
    return True


def origin(I, L, f):
    l = origin_loc(I, L)
    return None if l is None else P(typed(field(l), "double"))


def field(l):
    n = mk("this")
    for s in l[1]:
        n = mk("fld", n, s[1])
    return n


def origin_loc(I, L):
    """the member read as origin in the right-hand side's Hamiltonian or in the exact part, else the time-like member set to the time reached"""
    t = I.deref(L["t"])
    for k in sorted(I.allw, key=str):
        if k[0] == ("this",) and k != t and k[1] and len(k[1]) == 1:
            v = I.read(k)
            if v.op == "poly" and V.all_real(v) and "double" in str(V.TYPES.get(v.id, "double")) and cn(v) is cn(I.read(t)):
                return k
    for k in sorted(I.allw, key=str):
        if k[0] == ("this",) and k[1] and k[1][-1][1].endswith("::t0_"):
            return k
    return None


def rhs(ctx, prog, f, L, I, tag, ha, li):
    ctx.ob("rhs:arg:" + tag, "the right-hand side leaves the state it is evaluated on alone", True if cn(L["rho"]) is P(mx.sym("rho")) else (None if lost(L["rho"]) else False), f, show(L["rho"])[:200])
    rho = (mx.sym("rho"), False, False)
    org = origin(I, L, f)
    loops = [x for x in walk(L["tr"]) if isinstance(x, Loop) and x.idx is not None and any(k[0][0] == L["root"] for k in x.car.values())]
    start = L["d"]
    if loops:
        lp = loops[0]
        l, v0, v1 = next(v for v in lp.car.values() if v[0][0] == L["root"])
        start = v0
    try:
        got = mx.nf(cn(start))
    except mx.NotLinear as x:
        ctx.ob("rhs:ham:" + tag, "the Hamiltonian part is H·rho plus its Hermitian conjugate, starting from zero", None, f, str(x))
        got = None
    if got is not None:
        hs = {l[0] for w in got for l in w if l[0].a[0] == "H"}
        if ha:
            bad = [h for h in hs if h.a[1] is not L["tau"] or (org is not None and h.a[2] is not org)]
            H = next(iter(hs), None)
            if H is None:
                ctx.ob("rhs:ham:" + tag, "the Hamiltonian part is H·rho plus its Hermitian conjugate, starting from zero", False, f, mx.showw(got)[:300])
            else:
                w = {((H, False, False), rho): num(1)}
                want = mx.plus(w, mx.dagger(w))
                # rho is Hermitian: either order of conjugation is the same operator
                ok = herm(got) == herm(want)
                ctx.ob("rhs:ham:" + tag, "the Hamiltonian part is H·rho plus its Hermitian conjugate, starting from zero", ok and not bad, f,
                       "it is %s%s" % (mx.showw(got)[:300], "; with times %s" % [show(a)[:60] for h in bad for a in h.a[1:]] if bad else ""))
        else:
            ctx.ob("rhs:ham:" + tag, "without a Hamiltonian the right-hand side starts from zero", got == {}, f, mx.showw(got)[:300])
    if not li:
        ctx.ob("rhs:jump:" + tag, "without decay channels nothing is added", True if not loops or const_int(cn(lp.trip)) == 0 or cn(L["d"]) is cn(start) else (False if got is not None and not lost(L["d"]) else None), f, "")
        return
    if not loops:
        ctx.ob("rhs:jump:" + tag, "every decay channel contributes", None if lost(L["d"]) else False, f, "no loop over the channels: %s" % show(L["d"])[:200])
        return
    tr = unp(cn(lp.trip)) if lp.trip is not None else None
    isn = tr is not None and tr.op == "call" and tr.a[0].endswith("::nAvr_v")
    who = {c for c in subnodes(lp.trip) if c.op == "fld" and str(c.a[1]).split("::")[-1] in ("ex_", "ha_", "li_", "av_", "qs_")} if isn else set()
    if who and not any(str(c.a[1]).endswith("::li_") for c in who):
        isn = False
    ctx.ob("rhs:count:" + tag, "as many channels are treated as the system has", isn or (None if lp.trip is None else False), f, show(lp.trip)[:200] if lp.trip is not None else "")
    a = next(k for k, v in lp.car.items() if v[0][0] == L["root"])
    idx = cn(lp.idx)
    res = {}
    for caught in (False, True):
        cond = [x for x in subnodes(v1) if x.op == "caught"]

        def g(x):
            if x.op == "ite" and x.a[0].op == "caught":
                return V.subst(x.a[1] if caught else x.a[2], g)
            return None
        v = V.subst(cn(v1), lambda x: None)
        v = decide(v1, caught)
        inc = sub(cn(v), P(a))
        if a not in set(subnodes(v)) and not lost(v):
            res[caught] = None
            continue
        if caught:
            inc = cn(V.subst(inc, lambda x: ZERO if x.op == "M" and x.a[0] == "S" else None))
        try:
            res[caught] = mx.nf(inc)
        except mx.NotLinear as x:
            res[caught] = str(x)
        if not cond:
            break
    for caught, r in res.items():
        nm = "rhs:%s:%s" % ("jump" if caught else "super", tag)
        d = "a channel without superoperator contributes J·rho·J†, once" if caught else "a channel contributes its superoperator term, once"
        if r is None:
            ctx.ob(nm, d, False, f, "what was accumulated before is overwritten")
            continue
        if isinstance(r, str):
            ctx.ob(nm, d, None, f, r)
            continue
        if not caught:
            ok = len(r) == 1 and list(r.values())[0] is num(1)
            if ok:
                w = next(iter(r))
                n = w[0][0]
                if len(w) == 1 and n.a[0] == "S":
                    ok = n.a[1] is L["tau"] and cn(n.a[2]) is P(mx.sym("rho")) and n.a[3] is idx
                else:
                    ok = isjump(r, rho, L["tau"], idx)
            ctx.ob(nm, d, ok, f, "it contributes %s" % mx.showw(r)[:300])
        else:
            ctx.ob(nm, d, isjump(r, rho, L["tau"], idx), f, "it contributes %s" % mx.showw(r)[:300])
    # nothing after the loop
    fin = unp(cn(L["d"]))
    ctx.ob("rhs:rest:" + tag, "nothing else is added", True if fin.op == "fold" and fin.a[2] is a or fin.op == "sum" or fin.op == "poly" else None, f, show(fin)[:100])


def isjump(r, rho, tau, idx):
    if len(r) != 1 or list(r.values())[0] is not num(1):
        return False
    w = next(iter(r))
    return len(w) == 3 and herml(w[1]) == herml(rho) and w[0][0].a[0] == "J" and w[0][1:] == (False, False) and w[2] == (w[0][0], True, True) and w[0][0].a[1] is tau and w[0][0].a[2] is idx


def herml(l):
    n, c, t = l
    if n.a[0] == "rho" and c and t:
        return (n, False, False)
    return l


def herm(d):
    """words with the symbolic rho taken as Hermitian"""
    out = {}
    for w, k in d.items():
        w = tuple(herml(l) for l in w)
        out[w] = add(out.get(w, ZERO), k)
    return {w: k for w, k in out.items() if k is not ZERO}


def decide(v, caught):
    if not isinstance(v, N):
        return v
    if v.op == "ite":
        c = v.a[0]
        if any(x.op == "caught" for x in subnodes(c)):
            return decide(v.a[1] if caught else v.a[2], caught)
    return v


def lost(v):
    return any(x.op in ("unk", "fold", "while", "undef") for x in subnodes(v))


def helpers(ctx):
    prog = ctx.program(["CPPQEDutils/CMatrix.cc"])
    f = ctx.need(prog.find(q=mx.TWICE), "calculateTwoTimesRealPartOfSelf")[0]
    for n in (1, 2, 3, 4):
        I = ctx.interp(prog, f, model=dims(n), unroll=64)
        key = "help:twice:%d" % n
        bad, und = [], []
        for i in range(n):
            for j in range(n):
                v = cn(I.read((("p", 0), (("[", num(i), num(j)),)), "std::complex<double>"))
                m = lambda a, b: P(typed(mk("elem", mk("p", 0), num(a), num(b)), "std::complex<double>"))
                want = add(m(i, j), V.conj(m(j, i)))
                if creal(v) is not creal(want):
                    (und if lost(v) else bad).append("element (%d,%d) becomes %s" % (i, j, show(v)[:150]))
        ctx.ob(key, "doubling the real part gives the matrix plus its Hermitian conjugate (size %d)" % n, False if bad else None if und or I.deep else True, f, "; ".join((bad + und)[:3]))


def creal(v):
    """2*real(x) written as x + conj(x)"""
    def g(x):
        if x.op == "poly":
            out = ZERO
            for m, c in x.a:
                t = V._poly({(): c})
                for at, e in m:
                    if at.op in ("real", "re") and e == 1:
                        y = P(at.a[0]) if at.a[0].op != "poly" else at.a[0]
                        t = mul(t, mul(num(Fraction(1, 2)), add(y, V.conj(y))))
                    else:
                        t = mul(t, V.ipow(P(at), e))
                out = add(out, t)
            return out
        return None
    return g(v) or v


def dims(n):
    def model(I, callee, objloc, args, line, t):
        q = callee["q"]
        if q.split("::")[-1] in ("extent", "rows", "columns", "cols") and "Array" in q:
            return num(n)
        return None
    return model


def renorm(ctx, prog):
    fs = ctx.need([f for f in prog.find(q="quantumdata::DensityOperator::renorm")], "DensityOperator::renorm")
    f = fs[0]
    I = ctx.interp(prog, f, inline=lambda g: g.name != "norm")
    arr = (("this",), ((".", "quantumdata::ArrayBase::arrayLow_"),))
    a = P(typed(mk("fld", mk("this"), "quantumdata::ArrayBase::arrayLow_"), "std::complex<double>"))
    v = cn(I.read(arr))
    nrm = next((e.ret for e in effs(I.tr, "call") if e.name.endswith("::norm")), None)
    if nrm is None:
        ctx.ob("help:renorm", "renormalising divides by the trace", None, f, show(v)[:200])
    else:
        ctx.eq("help:renorm", "renormalising divides by the trace", v, div(a, P(nrm)), f)
    f = ctx.need(prog.find(q="quantumdata::DensityOperator::norm"), "norm")[0]
    I = ctx.interp(prog, f)
    s = show(I.result) if isinstance(I.result, N) else ""
    ctx.ob("help:norm", "the norm is the real part of the sum of the diagonal", istrace(I.result), f, s[:300])


def istrace(v):
    if not isinstance(v, N):
        return None
    v = cn(v)
    S = {x for x in subnodes(v) if x.op == "sum" and len(x.a) == 1}
    if len(S) != 1:
        return None
    S = next(iter(S))
    E = unp(cn(S.a[0]))
    if E.op != "elem" or len(E.a) != 3 or E.a[0] is not mk("fld", mk("this"), "quantumdata::ArrayBase::arrayLow_"):
        return None
    if E.a[1] is not E.a[2]:
        return False
    s = P(S)
    return v is mul(num(Fraction(1, 2)), add(s, V.conj(s)))
