"""C17 frequencies. What an element registers is read off the interpreted makers and constructors as a list of (value, multiplier) in the parameters; for every regime (which parameters are non-zero) and every parameter
made dominant in turn, with either sign, the largest magnitude of the list must be that parameter times the multiplier its term has. The maximum itself is checked on DynamicsBase with lists of every
small length and every order of magnitudes, the maximum over parts on composites, and the initial time step from the trajectories' makers down to the integrator."""
import itertools
from fractions import Fraction
from sa.q import *
from sa.val import *
from sa import val as V
from sa.prog import bases_of
from rules import elem, trid, comp, c15, c23

FLOOR = {"max": 10, "element": 60, "freq": 10, "step": 3}
ASSUME = ["a regime is represented by one parameter four orders of magnitude above the others", "the calls of virtual getters of other elements (their dimensions) are symbols"]
SMALL = Fraction(1, 10 ** 5)


def check(ctx):
    ctx.part(maximum)
    prog = ctx.program(elem.TUS + ["w_elem.cc", "CPPQEDelements/interactions/CoupledModes.cc", "CPPQEDelements/interactions/JaynesCummings.cc", "CPPQEDelements/interactions/ParticleCavity.cc",
                                   "CPPQEDelements/interactions/GeneralDicke.cc", "CPPQEDelements/frees/Spin.cc", "CPPQEDelements/frees/PumpedTwoLevelAtom.cc"])
    pic = elem.pictures(prog)
    ctx.need(set(elem.PICTURES) <= set(pic), "the pictures IP, UIP, SCH")
    for f in prog.find(q="mode::make"):
        if len(f.params) == 2 and f.tu.name.endswith("frees/Mode.cc") and not f.d.get("ta"):
            ctx.part(makers, prog, f, pic, "mode")
    for f in prog.find(name="scenario_bichromatic"):
        ctx.part(makers, prog, f, pic, "mode")
    for f in prog.find(q="qbit::make"):
        ctx.part(makers, prog, f, pic, "qbit")
    for q in ("particle::make", "particle::makePumped"):
        for f in prog.find(q=q):
            ctx.part(makers, prog, f, pic, "particle")
    for n, kind in (("jc_qbit", "jc"), ("jc_spin", "jc"), ("coupled_nx", "cm"), ("coupled_xx", "cm"), ("coupled_rwa", "cm")):
        for f in prog.find(name="scenario_" + n):
            ctx.part(coupling, prog, f, n, kind)
    for cls in CTORS:
        ctx.part(ctors, prog, cls)
    ctx.part(forward)
    for what in ("binary", "composite"):
        try:
            S = comp.System(ctx, what)
        except Exception as x:
            ctx.ob("part:" + what, "the maker of the %s system could be interpreted" % what, None, "", str(x)[:300])
            continue
        ctx.part(c15.freq, S)
    ctx.part(step)


# --- the maximum

def lists(tu):
    """the two lists of frequencies of DynamicsBase: {complex?: field}"""
    rec = tu.recbyfull.get("structure::DynamicsBase")
    out = {}
    for f in rec.get("fs", ()) if rec else ():
        t = tu.t(f["t"])
        if "tuple" in t and "basic_string" in t or "RealFreqs" in t or "ComplexFreqs" in t:
            out["complex" in t or "Complex" in t] = "%s::%s" % (rec["q"], f["n"])
    return out if len(out) == 2 else None


def maximum(ctx):
    prog = ctx.program(["CPPQEDcore/structure/DynamicsBase.cc"])
    fs = prog.find(q="structure::DynamicsBase::highestFrequency")
    ctx.need(len(fs) == 1, "DynamicsBase::highestFrequency")
    f = fs[0]
    L = lists(f.tu)
    ctx.need(L is not None, "the lists of frequencies")
    for nr, nc in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 0), (0, 2), (2, 1), (1, 2), (3, 0), (0, 3)):
        def pre(I):
            for cplx, n in ((False, nr), (True, nc)):
                c = "c" if cplx else "r"
                ty = "std::complex<double>" if cplx else "double"
                I.write((("this",), ((".", L[cplx]),)), mk("tuple", *[mk("tuple", mk("str", "%s%d" % (c, j)), P(typed(mk("g", "%s%d" % (c, j)), ty)), P(typed(mk("g", "m%s%d" % (c, j)), "double"))) for j in range(n)]), 0)
        I = ctx.interp(prog, f, pre=pre, unroll=16)
        key = "max:%d:%d" % (nr, nc)
        desc = "the highest frequency is the largest magnitude of value times multiplier (%d real, %d complex ones)" % (nr, nc)
        if I.deep or I.result is None:
            ctx.ob(key, desc, None, f, "not interpreted")
            continue
        v = elem.value(I)
        names = ["r%d" % j for j in range(nr)] + ["c%d" % j for j in range(nc)]
        ok, det = True, ""
        for mags in itertools.permutations(range(1, len(names) + 1)) if names else [()]:
            for sg in range(4):
                tab = {}
                for k, (n, m) in enumerate(zip(names, mags)):
                    s = -1 if (sg + k) % 2 else 1
                    z = (0, s * m * 2) if n[0] == "c" and sg >= 2 else s * m * 2
                    mm = Fraction(1, 2) if (sg + k) % 3 else Fraction(7, 2) if False else 3
                    # value * multiplier has magnitude m
                    z = tuple(x / Fraction(mm) / 2 for x in z) if isinstance(z, tuple) else Fraction(z) / mm / 2
                    tab[mk("g", n)] = num(*z) if isinstance(z, tuple) else num(z)
                    tab[mk("g", "m" + n)] = num(mm)
                got = evaluate(v, tab)
                want = max(mags) if mags else 0
                if got is None:
                    ok, det = (None if ok else ok), show(v)[:200]
                elif abs(got - want) > 1e-9 * (1 + want):
                    ok, det = False, "%s instead of %s for %s" % (got, want, {show(k): show(x) for k, x in tab.items()})
        ctx.ob(key, desc, ok, f, det)


def evaluate(v, tab):
    """value of an expression for given parameters: real number or None"""
    def g(x):
        if x in tab:
            return tab[x]
        if x.op in ("eq0", "lt0", "eq", "nonnull"):
            s = V._bsub(x, lambda y: tab.get(y), {})
            if s in (TRUE, FALSE):
                return s
            if x.op in ("eq0", "lt0"):
                z = evalc(V.subst(x.a[0], lambda y: tab.get(y)), tab)
                if z is not None:
                    return TRUE if (abs(z) < 1e-30 if x.op == "eq0" else z.real < 0) else FALSE
        return None
    z = evalc(V.subst(v, g), tab)
    return None if z is None or abs(complex(z).imag) > 1e-9 else complex(z).real


def evalc(n, tab):
    if isinstance(n, N) and n in tab:
        return evalc(tab[n], {})
    if n.op == "poly":
        r = 0
        for mono, c in n.a:
            t = complex(c[0], c[1])
            for a, e in mono:
                x = evalc(a, tab)
                if x is None or x == 0 and e < 0:
                    return None
                t *= x ** e
            r += t
        return r
    if n.op in ("sqrt", "abs", "conj", "real", "imag", "sqr", "norm"):
        x = evalc(n.a[0], tab)
        if x is None:
            return None
        x = complex(x)
        return {"sqrt": lambda: x ** .5, "abs": lambda: abs(x), "conj": lambda: x.conjugate(), "real": lambda: x.real, "imag": lambda: x.imag, "sqr": lambda: x * x, "norm": lambda: abs(x) ** 2}[n.op]()
    if n.op in ("max", "min"):
        xs = [evalc(a, tab) for a in n.a]
        if any(x is None for x in xs):
            return None
        return (max if n.op == "max" else min)(complex(x).real for x in xs)
    if n.op == "bop" and n.a[0] in ("<<", ">>"):
        a, b = (evalc(x, tab) for x in n.a[1:3])
        if a is None or b is None:
            return None
        a, b = int(complex(a).real), int(complex(b).real)
        return a << b if n.a[0] == "<<" else a >> b
    if n.op in ("cast", "conv") and len(n.a) >= 1 and isinstance(n.a[-1], N):
        return evalc(n.a[-1], tab)
    if n.op == "ite":
        return None
    return None


# --- what is registered

def entries(v):
    """[(label, value, multiplier)] of a list of frequencies"""
    v = unp(v)
    if v.op == "ite":
        c = v.a[0]
        if c.op == "eq" and {unp(x).op for x in c.a} == {"tuple"} and sorted(bool(unp(x).a) for x in c.a) == [False, True]:
            return entries(v.a[2])     # a default-constructed entry has no name
        raise trid.Lost("list of frequencies " + show(v)[:160])
    if v.op == "g" and str(v.a[0]).rsplit("::", 1)[-1] in ("emptyRF", "emptyCF"):
        return []
    if v.op == "new" and ("list" in str(v.a[0])):
        return []
    if v.op == "ctor" and "list" in str(v.a[0]):
        return entries(v.a[1]) if len(v.a) > 1 else []
    if v.op == "snoc":
        return entries(v.a[0]) + [entry(v.a[1])]
    if v.op == "tuple":
        if v.a and unp(v.a[0]).op != "tuple":
            return [entry(v)]
        return [entry(x) for x in v.a]
    raise trid.Lost("list of frequencies " + show(v)[:160])


def entry(x):
    x = unp(x)
    if x.op == "ctor" and "tuple" in str(x.a[0]) and len(x.a) == 4:
        return tuple(x.a[1:4])
    if x.op == "tuple" and len(x.a) == 3:
        return tuple(x.a)
    raise trid.Lost("frequency " + show(x)[:120])


def highest(reg, tab):
    r = 0
    for lab, v, m in reg:
        x = evalc(V.subst(mul(v, m), lambda y: tab.get(y)), tab)
        if x is None:
            return None, "%s * %s" % (show(v)[:80], show(m)[:80])
        r = max(r, abs(x))
    return r, ""


def registered(m):
    out = []
    L = None
    for tu in [m.tu] + list(m.prog.tus):
        L = lists(tu)
        if L:
            break
    if not L:
        raise trid.Lost("DynamicsBase")
    for fld in L.values():
        ps = [k[1] for k in m.I.allw if k[0] == m.root and k[1] and k[1][-1] == (".", fld)]
        if len(set(ps)) != 1:
            raise trid.Lost("the list %s of %s is written %d times" % (fld, m.name, len(set(ps))))
        v = V.subst(m.at(ps[0]), m.g)
        out += [tuple(V.subst(y, m.g) for y in e) for e in entries(v)]
    return out


REG = {"mode": ("kappa", "nTh", "eta", "etaOther"), "qbit": ("gamma", "gamma_parallel", "eta"), "particle": ("vClass",)}


def makers(ctx, prog, f, pic, kind):
    t = c23.partype(f)
    F = elem.fields(prog, f.tu, t)
    for n in F:
        typed(F[n][0], F[n][1].replace("&", "").strip())
    dims = {"cutoff": 10, "fin": 6, "kPart": 1, "modePart": 1, "omegaKerr": 0, "omegaKerrAlter": 0}
    sw = [n for n in REG[kind] if n in F]
    for pn in elem.PICTURES:
        I = elem.make(ctx, prog, f, pic[pn])
        for on in itertools.product((False, True), repeat=len(sw)):
            on = dict(zip(sw, on))
            if on.get("nTh") and not on.get("kappa", False):
                continue
            key = "element:%s:%s:%s" % (t.replace("qbit::", "").replace("mode::", "").replace("particle::", ""), pn, "+".join(n for n in sw if on[n]) or "plain")
            ctx.part(regime, prog, f, I, F, kind, pn, on, dims, key)


def multipliers(kind, pn, on, cutoff, fin):
    """{quantity: multiplier}"""
    r = {}
    if kind == "mode":
        if on.get("etaOther"):
            pn = "QMP_IP"
        r["delta"] = cutoff if pn == "QMP_SCH" else 1
        if on.get("kappa"):
            r["kappa"] = 1 if pn == "QMP_IP" else cutoff
        if on.get("eta"):
            r["eta"] = cutoff ** .5
        if on.get("etaOther"):
            r["etaOther"] = cutoff ** .5
            r["deltaOther"] = 1
    elif kind == "qbit":
        r["delta"] = 1
        for n in ("gamma", "gamma_parallel", "eta"):
            if on.get(n):
                r[n] = 1
    else:
        r["omrec"] = (1 << fin) if pn != "QMP_SCH" else (1 << fin) ** 2
        if on.get("vClass"):
            r["vClass"] = 1
    return r


def values(F, on, dims, big, size):
    """parameter values: the non-zero ones small, the dominating one at size"""
    val = {}
    for n in F:
        if n in dims:
            val[n] = dims[n]
        elif n in on:
            val[n] = SMALL if on[n] else 0
        elif n in ("delta", "deltaOther", "omrec"):
            val[n] = SMALL
    if on.get("nTh"):
        val["nTh"] = 2
    if big is not None:
        val[big] = size
    return val


def regime(ctx, prog, f, I, F, kind, pn, on, dims, key):
    M = multipliers(kind, pn, on, dims["cutoff"], dims["fin"])
    for q, mult in M.items():
        for size in ((3, -3) if q in ("delta", "deltaOther", "vClass") else (3,)) if q not in ("eta", "etaOther") else ((3, 0), (0, -3), (-3, 0)):
            if q not in F:
                continue
            val = values(F, on, dims, q, size)
            d = {F[n][0]: v for n, v in val.items()}
            d["size"] = 64
            m = elem.made(ctx, prog, f, I, d)
            k2 = "%s:%s%s" % (key, q, "" if size in (3, (3, 0)) else "#%s" % (size,))
            desc = "when %s dominates, the highest frequency is its magnitude times %.4g" % (q, mult)
            if m is None:
                ctx.ob(k2, desc, None, f, "the object made is not known")
                continue
            try:
                reg = registered(m)
            except trid.Lost as x:
                ctx.ob(k2, desc, None, f, "%s: %s" % (m.name, x))
                continue
            tab = {n: (num(*v) if isinstance(v, tuple) else num(v)) for n, v in d.items() if n != "size"}
            got, why = highest(reg, tab)
            want = 3 * mult * (5 if q == "kappa" and on.get("nTh") else 1)
            ctx.ob(k2, desc, None if got is None else abs(got - want) < 1e-2 * want, m.where(), why if got is None else "%s has %.6g instead of %.6g, from %s" % (m.name, got, want, [(show(a), show(b)[:60], show(c)[:60]) for a, b, c in reg]))


def dims_of(n):
    """a dimension asked from the i-th argument: {i} or None"""
    ps = {x.a[0] for x in subnodes(n) if x.op == "p"}
    return ps


def coupling(ctx, prog, f, n, kind):
    I = ctx.interp(prog, f, inline=trid.keep)
    ctx.need(I.result is not None and not I.deep, "the maker " + n)
    g = mk("p", 2)
    typed(g, "std::complex<double>")
    for v in ((3, 0), (0, -3)):
        g0 = elem.decide({g: v})

        def dec(x):
            r = g0(x)
            if r is None and x.op == "nonnull" or r is None and x.op in ("eq", "eq0") and any(y.op == "dyncast" for y in subnodes(x)):
                return TRUE if x.op == "nonnull" else FALSE
            return r
        r = V.subst(I.result, dec)
        while r.op == "lref":
            r = V.subst(I.read((r.a[0], r.a[1])), dec)
        ctx.need(r.op == "ptr" and r.a[0] in I.rootcls, "the object made by " + n)
        m = elem.Made(ctx, prog, f, I, r.a[0], dec)
        scaled(ctx, "element:%s:%s" % (n, "real" if v[0] else "imag"), m, {"the coupling": (g, v, (lambda a, b: (a * b) ** .5) if kind == "jc" else (lambda a, b: a * b ** .5))}, f)


def scaled(ctx, key, m, want, f, nd=2):
    """entries whose multiplier depends on the dimensions of the parts: evaluated for pairs of dimensions"""
    try:
        reg = registered(m)
    except trid.Lost as x:
        return ctx.ob(key, "the frequencies of %s" % m.name, None, f, str(x))
    for q, (node, v, fn) in want.items():
        for ds in ((4, 9), (9, 4), (16, 2)):
            tab = {node: num(*v)}
            for q2, (n2, _, _) in want.items():
                if n2 is not node:
                    tab[n2] = num(SMALL)
            ok, det = None, ""
            unknown = set()
            for lab, x, mu in reg:
                for y in list(atoms(mu)) + list(atoms(x)):
                    y2 = y
                    while y2.op in ("sqrt", "cast", "conv"):
                        z = [w for w in atoms(y2.a[-1])]
                        if len(z) == 1:
                            y2 = z[0]
                        else:
                            break
                    for w in ([y2] if y2.op != "sqrt" else atoms(y2.a[0])):
                        ps = dims_of(w)
                        if w.op not in ("p",) and w is not node and len(ps) == 1 and list(ps)[0] < nd:
                            tab[w] = num(ds[list(ps)[0]])
            got, why = highest(reg, tab)
            if got is not None:
                w = 3 * fn(*ds)
                ok = abs(got - w) < 1e-2 * w
                det = "%.6g instead of %.6g" % (got, w)
            ctx.ob("%s:%s:%d,%d" % (key, q, ds[0], ds[1]), "when %s dominates, the highest frequency is its magnitude times the largest matrix element (dimensions %d, %d)" % (q, ds[0], ds[1]), ok, m.where() if m.cls else f, det or why)


# class, parameters by position: name, value, multiplier
CTORS = {
    "particlecavity::Base": {"Unot": (2, lambda a, b: a), "etaeff": (3, lambda a, b: a ** .5)},
    "generaldicke::Base": {"u": (2, lambda a, b: a * b), "y": (3, lambda a, b: (a * b) ** .5)},
    "SpinBase": {"omega": (3, lambda a, b: 1), "gamma": (4, lambda a, b: 1)},
}


def ctors(ctx, prog, cls):
    spec = CTORS[cls]
    fs = [f for f in prog.find(q=cls + "::" + cls.split("::")[-1]) if len(f.params) > max(i for i, _ in spec.values()) and f.body is not None]
    ctx.need(len(fs) >= 1, "the constructor of " + cls)
    f = fs[0]
    I = ctx.interp(prog, f, inline=trid.keep)
    ctx.need(not I.deep, "the constructor of " + cls)

    class This(elem.Made):
        def __init__(self):
            self.ctx, self.prog, self.tu, self.I, self.root, self.g = ctx, prog, f.tu, I, ("this",), (lambda x: None)
            self.cls, self.chain, self.name = None, [], cls
    m = This()
    want = {}
    for n, (i, fn) in spec.items():
        node = mk("p", i)
        typed(node, f.tu.t(f.params[i]["t"]).replace("const ", "").replace("&", "").strip())
        want[n] = (node, (3, 0), fn)
    scaled(ctx, "element:" + cls, m, want, f)


def forward(ctx):
    """a free system's highest frequency is that of its lists"""
    prog = ctx.program(elem.TUS)
    fs = [f for f in prog.find(name="highestFrequency_v") if f.cls == "structure::Free" or str(f.cls).endswith("Free")]
    ctx.need(fs, "Free::highestFrequency_v")
    f = fs[0]
    I = ctx.interp(prog, f, inline=lambda g: g.q != "structure::DynamicsBase::highestFrequency")
    ctx.need(not I.deep and I.result is not None, "Free::highestFrequency_v")
    v = unp(elem.value(I))
    tab = {x: num(5) for x in subnodes(v) if x.op == "call" and str(x.a[0]) == "structure::DynamicsBase::highestFrequency"}
    got = evaluate(v, tab)
    if got is None and tab and not elem.lost(v):
        got = evaluate(v, {**{x: num(7) for x in atoms(v)}, **tab})     # anything else it might depend on
    ctx.ob("element:Free", "a free system's highest frequency is that of its own frequencies", None if got is None and (tab or elem.lost(v)) else got is not None and abs(got - 5) < 1e-9, f, show(v)[:100])


# --- the initial step

def step(ctx):
    prog = ctx.program(["w_evol.cc"])
    fs = prog.find(q="cppqedutils::trajectory::initialTimeStep")
    if fs:
        I = ctx.interp(prog, fs[0])
        v = elem.value(I)
        ok = None
        got = evaluate(v, {mk("p", 0): num(5)})
        if got is not None:
            got2 = evaluate(v, {mk("p", 0): num(10)})
            ok = abs(got * 5 - got2 * 10) < 1e-12 and abs(got * 50 - 1) < 1e-12
        ctx.ob("step:formula", "the initial time step is a tenth of the inverse of the highest frequency", ok, fs[0], show(v)[:100])
    found = 0
    for q in ("quantumtrajectory::master::make", "quantumtrajectory::mcwf::make"):
        for f in prog.find(q=q):
            found += 1
            ctx.part(trajectory, prog, f, found)
    ctx.need(found >= 2, "the makers of trajectories")


def trajectory(ctx, prog, f, no):
    I = ctx.interp(prog, f, inline=lambda g: g.name not in ("highestFrequency", "checkDimension"))
    key = "step:%s:%d" % (f.q.split("::")[-2], no)
    desc = "the first step tried by the trajectory is a tenth of the inverse of its system's highest frequency"
    gets = [g for g in prog.find(name="getDtTry") if "ode_engine" in str(g.q)]
    ctx.need(gets and not I.deep, "the trial step of the integrator")
    G = ctx.interp(prog, gets[0])
    v = unp(elem.value(G))
    while v.op == "lref":
        v = unp(G.read((v.a[0], v.a[1])))
    ctx.need(v.op == "fld", "the trial step of the integrator is a member")
    vals = [I.read(k) for k in I.allw if k[1] and k[1][-1] == (".", v.a[1])]
    hf = [x for w in vals for x in subnodes(w) if x.op == "call" and str(x.a[0]).endswith("::highestFrequency")]
    sys_ = [x for x in hf if any(y is mk("p", 0) for y in subnodes(x))]
    ok = any(x is not None and abs(x * 50 - 1) < 1e-9 for x in (evaluate(w, {y: num(5) for y in sys_}) for w in vals))
    ctx.ob(key, desc, True if ok else None if not vals or any(elem.lost(w) for w in vals) else False, f, "the trial step is %s" % [show(w)[:120] for w in vals])
