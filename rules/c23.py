"""C23 makers. Every maker is interpreted for every picture; its decisions over the parameters are resolved for a grid of regimes (each parameter zero, tiny, ordinary, negative; complex ones also purely real
and purely imaginary), every leaf of the decision diagram must be reached by the grid, and the object a leaf returns is looked at: its base classes, the generator of its exact and Hamiltonian parts as
functions of the level index, its number of channels, rates and dimension, as functions of the parameters."""
import itertools
from sa.q import *
from sa.val import *
from sa import val as V
from fractions import Fraction
from rules import elem, trid
from rules.elem import *

FLOOR = {"mode": 40, "qbit": 40, "particle": 8, "coupling": 10}
ASSUME = ["operator algebra as in C19; sums of diagonals do not depend on where the arrays are stored"]
TINY = Fraction(1, 10 ** 9)
CPLX = ((0, 0), (2, 0), (0, -3), (Fraction(1, 2), 1), (TINY, 0), (0, TINY), (-1, 0))
REAL = (0, 3, TINY)


def check(ctx):
    prog = ctx.program(TUS + ["w_elem.cc", "CPPQEDelements/interactions/CoupledModes.cc", "CPPQEDelements/interactions/JaynesCummings.cc", "CPPQEDelements/frees/Spin.cc"])
    pic = pictures(prog)
    ctx.need(set(PICTURES) <= set(pic), "the pictures IP, UIP, SCH")
    for f in prog.find(q="mode::make"):
        if len(f.params) == 2 and f.tu.name.endswith("frees/Mode.cc") and not f.d.get("ta"):
            ctx.part(mode, prog, f, pic, "mode")
    for n in ("monitored", "quadratures"):
        for f in prog.find(name="scenario_" + n):
            ctx.part(mode, prog, f, pic, "mode")
    for f in prog.find(name="scenario_bichromatic"):
        ctx.part(mode, prog, f, pic, "mode")
    for f in prog.find(q="qbit::make"):
        ctx.part(mode, prog, f, pic, "qbit")
    for q in ("particle::make", "particle::makePumped"):
        for f in prog.find(q=q):
            ctx.part(particle, prog, f, pic)
    for n, kind in (("jc_qbit", "jc"), ("jc_spin", "jc"), ("coupled_nx", "nx"), ("coupled_xx", "xx"), ("coupled_rwa", "rwa")):
        for f in prog.find(name="scenario_" + n):
            ctx.part(coupling, prog, f, n, kind)


def partype(f):
    return f.tu.t(f.params[0]["t"]).replace("const ", "").replace("&", "").strip()


def grid(F, spec):
    names = [n for n in spec if n in F]
    for vals in itertools.product(*[spec[n] for n in names]):
        yield dict(zip(names, vals))


def nz(v):
    return any(v) if isinstance(v, tuple) else bool(v)


def mode(ctx, prog, f, pic, kind):
    t = partype(f)
    F = elem.fields(prog, f.tu, t)
    rate = "kappa" if kind == "mode" else "gamma"
    spec = {rate: REAL, "nTh": REAL, "eta": CPLX, "gamma_parallel": REAL, "etaOther": ((0, 0), (1, 0), (0, 2)), "delta": (5, 0, -TINY), "deltaOther": (7,), "omegaKerr": (0, Fraction(3, 8)), "omegaKerrAlter": (0,), "cutoff": (10,)}
    if kind == "mode":
        ctx.need("cutoff" in F and "delta" in F, "parameters of " + t)
    scen = "" if f.name == "make" else f.name.replace("scenario_", "") + ":"
    for pn in PICTURES:
        I = elem.make(ctx, prog, f, pic[pn])
        if I.deep or I.result is None:
            ctx.part(lambda c: c.need(False, "the maker for " + t))
            continue
        seen = {}
        for vals in grid(F, spec):
            d = {F[n][0]: v for n, v in vals.items()}
            m = elem.made(ctx, prog, f, I, d)
            reg = (nz(vals.get(rate, 0)), nz(vals.get("nTh", 0)), nz(vals.get("eta", 0)), nz(vals.get("gamma_parallel", 0)), nz(vals.get("etaOther", 0)), nz(vals["delta"]), nz(vals.get("omegaKerr", 0)), nz(vals.get("omegaKerrAlter", 0)))
            root = m.root if m else None
            if (reg, root) in seen:
                continue
            seen[reg, root] = m
            key = "%s:%s%s:%s:%s" % (kind, scen, t.split("::", 1)[1], pn, "".join(a for a, b in zip(("loss ", "heat ", "pump ", "noise ", "second "), reg) if b).strip().replace(" ", "+") or "plain") + ("" if reg[5] else "+resonant") + ("+kerr" if reg[6] else "") + ("+alter" if reg[7] else "")
            ctx.part(one, prog, f, m, F, vals, pn, kind, key, I)
        unreached = [x for x in leaves(I.result) if x[1].op == "ptr" and x[1].a[0] not in {r for _, r in seen}]
        ctx.ob("%s:%s%s:%s:all" % (kind, scen, t.split("::", 1)[1], pn), "every object the maker can return answers a regime of the parameters", not unreached, f.where(),
               "; ".join("under " + " and ".join(("" if b else "not ") + show(c)[:80] for c, b in p) for p, _ in unreached[:2]) + (" a %s is made" % I.rootcls[unreached[0][1].a[0]]["full"] if unreached and unreached[0][1].a[0] in I.rootcls else ""))


def zeros(F, vals):
    """the parameters that are zero in this regime, as a substitution"""
    z = {F[n][0] for n, v in vals.items() if not nz(v)}
    return lambda v: V.subst(v, lambda x: ZERO if x in z else None)


def one(ctx, prog, f, m, F, vals, pn, kind, key, I):
    ctx.need(m is not None, "the object made for " + key)
    Z = zeros(F, vals)
    p = {n: (P(F[n][0]) if n in F and nz(vals.get(n, 1)) else ZERO) for n in ("kappa", "gamma", "nTh", "eta", "delta", "cutoff", "gamma_parallel", "etaOther", "deltaOther", "omegaKerr", "omegaKerrAlter")}
    for n in p:
        if n in F:
            typed(F[n][0], F[n][1].replace("&", "").strip())
    k = p["kappa"] if kind == "mode" else p["gamma"]
    noise, second = p["gamma_parallel"] is not ZERO, p["etaOther"] is not ZERO
    lossy = k is not ZERO
    hot = lossy and p["nTh"] is not ZERO
    decay = mul(k, add(ONE, mul(num(2), p["nTh"])))
    delta = mul(IMAG, neg(p["delta"]))
    i = trid.idx()
    where = f.where()
    # picture and generator
    ex = bool(m.derives("structure::Exact"))
    if second:
        pn = "QMP_IP"
    if pn == "QMP_SCH":
        ctx.ob(key + ":picture", "in the Schroedinger picture nothing is propagated exactly", not ex, where, m.name)
        pn = "QMP_IP" if ex else pn
    else:
        ctx.ob(key + ":picture", "in an interaction picture there is an exact part", ex, where, m.name)
    try:
        H = elem.operator(m)
    except trid.Lost as x:
        ctx.need(False, "the Hamiltonian of %s: %s" % (m.name, x))
    zi = exponent(ctx, m) if ex else ZERO
    ctx.need(zi is not None, "the exact propagation of " + m.name)
    zi = Z(zi)
    main = Z(H.main) if H else ZERO
    want_i = {"QMP_IP": add(decay, delta), "QMP_UIP": delta, "QMP_SCH": ZERO}[pn]
    want_s = sub(add(decay, delta), want_i)
    quad = mul(IMAG, mul(i, sub(i, ONE)))
    kerr = mul(p["omegaKerr"], quad)
    want_i = add(mul(want_i, i), kerr if pn != "QMP_SCH" else ZERO)
    want_s = add(mul(want_s, i), add(mul(p["omegaKerrAlter"], quad), kerr if pn == "QMP_SCH" else ZERO))
    ctx.eq(key + ":exact", "the exact part propagates level n with the exponent -n times the %s" % {"QMP_IP": "full complex frequency and the Kerr term", "QMP_UIP": "detuning and the Kerr term", "QMP_SCH": "nothing"}[pn], zi, neg(want_i), where)
    ctx.eq(key + ":diagonal", "the rest of detuning, decay and Kerr term is in the Hamiltonian", main, neg(want_s), where)
    sgn = ONE if kind == "mode" else num(-1)
    eta = mul(sgn, p["eta"])
    tot = add(eta, p["etaOther"])
    mi, pl = (Z(H.minus), Z(H.plus)) if H else (ZERO, ZERO)
    root = fsqrt(add(i, ONE))
    ctx.eq(key + ":pump", "the pump term has the strength asked for", mi, mul(tot, root), where)
    ctx.eq(key + ":pumphc", "the pump term is anti-Hermitian over i", pl, neg(mul(conj(tot), root)), where)
    if H and tot is not ZERO and ex and not second:
        fr = H.freq[0]
        ctx.ob(key + ":freq", "the pump term rotates with the frequencies of the exact part", fr is not None and sub(Z(fr), want_i) is ZERO, where, "frequencies of %s" % (show(fr)[:200] if fr is not None else "none"))
    # decay channels
    li = m.derives("structure::Liouvillean")
    if second:
        pass
    elif kind == "mode":
        ctx.ob(key + ":lossy", "there are decay channels exactly when the decay rate is non-zero", bool(li) == lossy, where, m.name)
    else:
        ctx.ob(key + ":lossy", "there are decay channels exactly when a decay rate is non-zero", bool(li) == (lossy or noise), where, m.name)
    if li:
        n = channels(m)
        if n is not None:
            ctx.ob(key + ":channels", "the number of decay channels fits the temperature and noise", n == 1 + (1 if hot or noise else 0) or second, where, "%s has %s" % (m.name, n))
        ps = m.written("LiouvilleanFiniteTemperatureBase::kappa_") or m.written("Liouvillean::kappa_")
        if ps and kind == "mode":
            rates(ctx, prog, m, k, p["nTh"] if hot else ZERO, Z, key, where)
    # dimension
    if kind == "mode":
        dim = m.get("getDimension")
        if dim is not None and dim.op == "product" and dim.a[0].op == "ctor" and len(dim.a[0].a) == 2:
            ctx.eq(key + ":dim", "the dimension is the cutoff", dim.a[0].a[1], p["cutoff"], where)
        elif dim is not None and dim.op == "poly" and len(dim.a) == 1 and dim.a[0][0] and dim.a[0][0][0][0].op == "product":
            c = dim.a[0][0][0][0].a[0]
            if c.op == "ctor" and len(c.a) == 2:
                ctx.eq(key + ":dim", "the dimension is the cutoff", c.a[1], p["cutoff"], where)


def exponent(ctx, m):
    """-d/dt log of the diagonal of the exact propagator, as a function of the level"""
    f = m.method("updateU")
    if f is None:
        return None
    I = ctx.interp(m.prog, f, this_rec=m.cls, inline=trid.keep, args=[mk("p", 1)])
    ws = [e for e in effs(I.tr, "w") if e.args and any(x.op == "exp" for x in subnodes(e.args[0]))]
    if len(ws) != 1:
        return None
    v = V.subst(m.bind(ws[0].args[0]), lambda x: trid.arr(x) if x.op == "ctor" and x.a[0] == "blitz::Array" and len(x.a) == 2 else None)
    at = [x for x in subnodes(v) if x.op == "exp"]
    if len(at) != 1 or v is not P(at[0]):
        return None
    e = at[0].a[0]
    # linear in the time, the only thing of the argument
    ts = {x for x in subnodes(e) if x.op in ("p", "call", "fld") and ("p" == x.op and x.a[0] == 1 or any(y.op == "p" and y.a[0] == 1 for y in subnodes(x)))}
    tops = [x for x in ts if any(x is a for mm, _ in e.a for a, _ in mm)] if e.op == "poly" else []
    if len(tops) != 1:
        return None
    r = V.subst(e, lambda x: ONE if x is tops[0] else None)
    if V.subst(e, lambda x: num(3) if x is tops[0] else None) is not mul(num(3), r):
        return None
    return r


def channels(m):
    for r in m.chain:
        if r["q"] in ("structure::ElementLiouvillean", "structure::ElementLiouvilleanStrategies"):
            return int(r["full"].split("<")[1].split(",")[1].strip(" >"))
    return None


def rates(ctx, prog, m, kappa, nth, Z, key, where):
    """rates in a level n: the photon number and trace are what they are for that level"""
    import re
    for no in range(channels(m) or 0):
        f = m.method("rate", lambda f: len(f.params) == (3 if channels(m) > 1 else 2) and (channels(m) == 1 or re.search(r"integral_c<%d>|integral_constant<\w+, %d>|<%d>" % (no, no, no), f.tu.t(f.params[2]["t"])) is not None))
        if f is None:
            continue
        I = ctx.interp(prog, f, this_rec=m.cls, inline=lambda g: trid.keep(g) and g.name not in ("photonNumber", "trace"))
        if I.deep or I.result is None:
            continue
        v = m.bind(elem.value(I))

        def lev(x):
            if x.op == "call" and str(x.a[0]).endswith("::photonNumber"):
                return trid.idx()
            if x.op == "call" and str(x.a[0]).endswith("::trace"):
                return ONE
        v = Z(V.subst(v, lev))
        n = trid.idx()
        want = [mul(mul(num(2), kappa), mul(add(nth, ONE), n)), mul(mul(num(2), kappa), mul(nth, add(n, ONE)))][no]
        ctx.eq(key + ":rate%d" % no, "the rate of channel %d takes the decay rate and thermal photon number in their roles" % no, v, want, where)


def particle(ctx, prog, f, pic):
    t = partype(f)
    F = elem.fields(prog, f.tu, t)
    for n in F:
        typed(F[n][0], F[n][1].replace("&", "").strip())
    i = trid.idx()
    omrec, fin = P(F["omrec"][0]), F["fin"][0]
    for pn in PICTURES:
        I = elem.make(ctx, prog, f, pic[pn])
        key0 = "particle:%s:%s" % (t.split("::")[-1], pn)
        mfs = [(n, v) for e in prog.tus for en in e.enums if en["q"] == "ModeFunctionType" for n, v in ((c[0], int(c[1])) for c in en["c"])]
        mfs = dict(mfs) if "modePart" in F else {"": 0}
        for mf, mv in mfs.items():
            for vc in ((0, 4, -4) if "vClass" in F else (0,)):
                d = {F["omrec"][0]: 3, fin: 6, "size": 64}
                if "vClass" in F:
                    d.update({F["vClass"][0]: vc, F["kPart"][0]: 1, F["modePart"][0]: mv})
                m = elem.made(ctx, prog, f, I, d)
                ctx.part(oneparticle, prog, f, m, F, pn, key0 + (":" + mf if mf else "") + (":pumped" if vc > 0 else ":pumpednegative" if vc else ""), mf, vc, i, omrec, fin)


def oneparticle(ctx, prog, f, m, F, pn, key, mf, vc, i, omrec, fin):
    ctx.need(m is not None, "the object made for " + key)
    where = f.where()
    ex = bool(m.derives("structure::Exact"))
    ctx.ob(key + ":picture", "in the Schroedinger picture nothing is propagated exactly, otherwise the kinetic energy is", ex == (pn != "QMP_SCH"), where, m.name)
    try:
        H = elem.operator(m)
    except trid.Lost as x:
        ctx.need(False, "the Hamiltonian of %s: %s" % (m.name, x))
    zi = exponent(ctx, m) if ex else ZERO
    ctx.need(zi is not None, "the exact propagation of " + m.name)
    two = P(mk("bop", "<<", ONE, P(F["fin"][0]))) if False else None
    tot = add(zi, H.main if H else ZERO)
    # -i omrec k^2, k = i - 2^(fin-1)
    shl = [x for x in subnodes(tot) if x.op == "bop" and x.a[0] == "<<"]
    ctx.need(len(set(shl)) == 1, "the momentum grid")
    k = sub(i, mul(HALF, P(shl[0])))
    want = mul(mul(IMAG, neg(omrec)), mul(k, k))
    ctx.eq(key + ":kinetic", "the kinetic energy is omrec times the squared momentum", tot, want, where)
    ctx.ob(key + ":where", "it is in the exact part in the interaction pictures and in the Hamiltonian otherwise", (zi is ZERO) == (pn == "QMP_SCH") and (not H or H.main is ZERO or pn == "QMP_SCH"), where, m.name)
    if "vClass" not in F:
        ctx.ob(key + ":nopump", "no potential without a pump", not H or H.minus is ZERO and H.plus is ZERO, where, str(H)[:100])
        return
    pot = H is not None and bool(H.minus is not ZERO)
    comp = mf in ("MFT_PLUS", "MFT_MINUS")
    if not vc or comp:
        ctx.ob(key + ":nopump", "no potential without a pump or with a travelling wave", not pot and (H is None or H.plus is ZERO), where, str(H)[:160])
    else:
        a = mul(mul(num(0, Fraction(-1, 4)), P(F["vClass"][0])), num(-1 if mf == "MFT_SIN" else 1))
        ctx.eq(key + ":potential", "the potential is vClass times the squared mode function, up to a constant", H.minus, a, where)
        ctx.eq(key + ":potentialhc", "and Hermitian", H.plus, a, where)
        kp = P(mk("bop", "<<", P(F["kPart"][0]), ONE))
        kk = V.subst(H.k[0], lambda x: mul(P(x.a[1]), num(2)) if x.op == "bop" and x.a[0] == "<<" and x.a[2] is ONE else None)
        ctx.eq(key + ":wavenumber", "its wave number is twice that of the pump", kk, mul(num(2), P(F["kPart"][0])), where)
        if ex:
            ctx.ob(key + ":freq", "it rotates with the frequencies of the exact part", H.freq[0] is not None and add(H.freq[0], zi) is ZERO, where, str(H)[:200])


def coupling(ctx, prog, f, n, kind):
    I = ctx.interp(prog, f, inline=trid.keep)
    ctx.need(I.result is not None and not I.deep, "the maker " + n)
    g = mk("p", 2)
    typed(g, "std::complex<double>")
    G = P(g)
    i, j = trid.idx(), trid.idx(1)
    # what is interpreted: the frequencies of the operators follow the exact part of each free element, if there is one
    seen = set()
    for v in CPLX:
        d = {g: v}
        g0 = decide(d)

        def dec(x):
            r = g0(x)
            if r is None and x.op == "nonnull" or r is None and x.op in ("eq", "eq0") and any(y.op == "dyncast" for y in subnodes(x)):
                return TRUE if x.op == "nonnull" else FALSE
            return r
        r = V.subst(I.result, dec)
        while r.op == "lref":
            r = V.subst(I.read((r.a[0], r.a[1])), dec)
        ctx.need(r.op == "ptr" and r.a[0] in I.rootcls, "the object made by " + n)
        m = Made(ctx, prog, f, I, r.a[0], dec)
        if (nz(v), r.a[0]) in seen:
            continue
        seen.add((nz(v), r.a[0]))
        key = "coupling:%s:%s" % (n, "on" if nz(v) else "off")
        has = bool(m.derives("structure::Hamiltonian"))
        ctx.ob(key + ":present", "there is a coupling term exactly when the coupling is non-zero", has == nz(v), f.where(), m.name)
        fr = m.at((("[", ZERO),)) if False else None
        if not has:
            continue
        try:
            H = elem.operator(m)
        except trid.Lost as x:
            ctx.need(False, "the Hamiltonian of %s: %s" % (m.name, x))
        ctx.need(H is not None, "the Hamiltonian of " + m.name)
        ri, rj = fsqrt(add(i, ONE)), fsqrt(add(j, ONE))
        u = freal(G)
        half = mul(u, num(0, Fraction(-1, 2)))
        if kind == "jc":
            if n == "jc_spin":
                lo = [x for x in H.d.get(("+", "-"), ZERO).a] if ("+", "-") in H.d else []
                ctx.ob(key + ":term", "the coupling exchanges one excitation and is anti-Hermitian over i", set(H.d) == {("+", "-"), ("-", "+")} and add(H.get("-+"), conj(H.get("+-"))) is ZERO, f.where(), str(H)[:300])
                r = [c for c in (H.get("+-"),) if any(x is g or x.op == "conj" and x.a[0] is g for x in atoms(c))]
                ctx.ob(key + ":strength", "its strength is the coupling", bool(r) and V.subst(H.get("+-"), lambda x: mul(num(7), G) if x is g else None) is mul(num(7), H.get("+-")), f.where(), str(H)[:300])
                continue
            want = {("+", "-"): mul(conj(G), mul(ri, rj)), ("-", "+"): neg(mul(G, mul(ri, rj)))}
        elif kind == "rwa":
            want = {("+", "-"): mul(conj(G), mul(ri, rj)), ("-", "+"): neg(mul(G, mul(ri, rj)))}
        elif kind == "xx":
            want = {(a, b): mul(half, mul(ri, rj)) for a in "+-" for b in "+-"}
        else:
            c = mul(mul(u, num(0, -1)), mul(i, mul(rj, fsqrt(HALF))))
            want = {("0", a): c for a in "+-"}
        for q in sorted(set(want) | set(H.d)):
            a, b = H.get(q), want.get(q, ZERO)
            ctx.eq(key + ":term" + "".join(q), "the coupling term has the strength and form asked for", a, b, f.where())
