"""C18 time arguments. Systems of every kind of time dependence, defined in a witness, hand on what they are called with; their public calls are interpreted and what arrives is compared with the times given:
time (both, the difference, or none), data (state, matrix, operator and channel are those given). diagonal: three calls in a row to a diagonal propagator are interpreted together and the result is evaluated for
every pattern of equal and unequal times. picture: for the elements of the makers with an exact part, the frequencies of the Hamiltonian are the differences of the exponents of the exact part."""
import itertools
import zlib
from fractions import Fraction
from sa.q import *
from sa.val import *
from sa.prog import bases_of
from sa import val as V
from rules import elem, trid, c23, c14
from rules.numeval import Env, Lost

FLOOR = {"time": 20, "data": 20, "diagonal": 2, "picture": 8}
ASSUME = ["two analytic functions of the parameters that agree for generic numbers agree"]
TOL = 1e-7
T, T0 = P(mk("p", 0)), None


def check(ctx):
    prog = ctx.program(["w_time.cc"])
    for n in ("ha", "ex", "jump", "jumpSecond", "super", "superSecond", "average"):
        for f in prog.find(q="witness::" + n):
            ctx.part(sink, prog, f, n)
    for f in prog.find(q="witness::thrice"):
        ctx.part(thrice, prog, f)
    p2 = ctx.program(elem.TUS + ["w_elem.cc"])
    pic = elem.pictures(p2)
    ctx.need(set(elem.PICTURES) <= set(pic), "the pictures IP, UIP, SCH")
    c14.scalars(p2)
    for f in p2.find(q="mode::make"):
        if len(f.params) == 2 and f.tu.name.endswith("frees/Mode.cc") and not f.d.get("ta"):
            ctx.part(family, p2, f, pic, "mode", 5)
    for n in ("monitored", "quadratures"):
        for f in p2.find(name="scenario_" + n):
            ctx.part(family, p2, f, pic, "mode", 5)
    for f in p2.find(q="qbit::make"):
        ctx.part(family, p2, f, pic, "qbit", 2)
    other = ctx.program(["w_spin.cc"])
    c14.scalars(other)
    for f in other.find(name="scenario_spin"):
        for two in (1, 2):
            ctx.part(spin, other, f, two)
    for n in ("splus", "splusSch"):
        for f in other.find(name="scenario_" + n):
            for g in other.find(name="scenario_spin"):
                ctx.part(ladder, other, f, g, n)


def sink(ctx, prog, f, n):
    I = ctx.interp(prog, f)
    who = f.d.get("ta", "")[1:-1].replace("witness::", "").replace("structure::TimeDependence::", "")
    key = "%s:%s" % (n, who)
    where = f.where()
    ctx.need(not I.deep and I.result is not None, "the call of " + who)
    td = who.split("<")[1].split(">")[0]
    t, t0 = P(mk("p", 0)), P(mk("p", 3 if n == "ha" else 2))
    want = {"TWO": ("two", [t, t0]), "ONE": ("one", [sub(t, t0)]), "NO": ("none", [])}.get(td)
    if n == "ex":
        want = ("two", [t, t0]) if td == "true" else ("one", [sub(t, t0)])
    elif want is None:
        want = ("one", [t]) if td == "true" else ("none", [])
    ps = [p for p in paths(I.tr) if p[2] not in ("throw",)]
    ctx.need(ps, "what arrives of the call of " + who)
    second = n.endswith("Second")
    for conds, es, how, _ in ps:
        got = [(e.name.split("::")[-1], [unp(a) if isinstance(a, N) else a for a in e.args]) for e in es if str(e.name).startswith("witness::")]
        times = [g for g in got if g[0] in ("two", "one", "none")]
        ok = len(times) == (2 if n == "average" and who.startswith("El2") else 1) and all(x[0] == want[0] and len(x[1]) == len(want[1]) and all(P(a) is P(b) for a, b in zip(x[1], want[1])) for x in times)
        lost = any(elem.lost(a) for x in times for a in x[1])
        ctx.ob("time:" + key, {"two": "both times arrive", "one": "the time since the origin arrives" if n in ("ha", "ex") else "the time arrives", "none": "no time arrives"}[want[0]], None if not ok and lost else ok, where,
               "%s" % ["%s(%s)" % (x[0], ", ".join(show(a)[:60] for a in x[1])) for x in times])
        data = [g for g in got if g[0] not in ("two", "one", "none", "made")]
        mp = lambda k: [mk("p", k)]
        want_d = {"ha": [("in", mp(1)), ("inout", mp(2))], "ex": [("inout", mp(1))], "jump": [("inout", mp(1))], "super": [("rin", mp(1)), ("rinout", mp(2))], "average": [("matrix", mp(1))]}[n.replace("Second", "")]
        if n == "average":
            want_d = want_d * (2 if who.startswith("El2") else 1)
        elif n not in ("ha", "ex") and not who.startswith("El1"):
            want_d = want_d + [("number", [num(1 if second else 0)])]
        same = lambda a, b: a is b or P(a) is P(b)
        ok = len(data) == len(want_d) and all(a[0] == b[0] and len(a[1]) == len(b[1]) and all(same(x, y) for x, y in zip(a[1], b[1])) for a, b in zip(data, want_d))
        ctx.ob("data:" + key, "state, operator and channel arrive as given", None if not ok and any(elem.lost(a) for x in data for a in x[1]) else ok, where,
               "%s" % ["%s(%s)" % (x[0], ", ".join(show(a)[:60] for a in x[1])) for x in data])
    if n == "average":
        r = I.result
        for k in range(2 if who.startswith("El2") else 1):
            v = I.read((r.a[0], r.a[1] + (("[", num(k)),))) if r.op == "lref" else mk("elem", r, num(k))
            ok = any(x.op == "call" and str(x.a[0]).endswith("::made") for x in [v]) and const_int([a for a in v.a[1:] if isinstance(a, N)][-1]) == k
            ctx.ob("data:%s:value%d" % (key, k), "what was computed is returned", ok if v.op == "call" or is_const(v) else None, where, show(v)[:120])


def thrice(ctx, prog, f):
    I = ctx.interp(prog, f)
    who = f.d.get("ta", "")[1:-1].replace("witness::", "")
    two = who == "FreeTwo"
    ctx.need(not I.deep, "the calls of " + who)
    vs = [I.read((("p", k), (("[", num(0)),))) for k in range(3)]
    num_ = lambda *a: .1 + (zlib.crc32(repr(tuple(float(complex(x).real) for x in a)).encode()) % 9973) / 1000.
    bad = unk = None
    n = 0
    for ts in itertools.product((0, 1, 3), (0, 1), (0, 1, 3), (0, 1), (0, 1, 3), (0, 1)):
        def leaf(x):
            if x.op == "p" and 3 <= x.a[0] <= 8:
                return ts[x.a[0] - 3]
            if x.op == "call" and str(x.a[0]).endswith("witness::diagonal"):
                return num_(*[e.val(a) for a in x.a[1:] if isinstance(a, N) and a.op != "none"])
            return None
        e = Env(leaf, lambda b, ix: 1. if b.op == "p" and b.a[0] < 3 else None)
        for k in range(3):
            a, b = ts[2 * k], ts[2 * k + 1]
            n += 1
            try:
                got = complex(e.num(vs[k])).real
            except Lost as x:
                d = e.decide(vs[k])
                if any(y.op == "ctor" and "Array" in str(y.a[0]) for y in subnodes(d)) and not any(y.op == "call" for y in subnodes(d)):
                    bad = bad or "times %s: in call %d a diagonal that was never computed is used" % (list(ts), k + 1)
                else:
                    unk = unk or str(x)
                continue
            want = {num_(float(a), float(b)) if two else num_(float(a - b))} | ({1.} if a == b else set())
            if not any(abs(got - w) < TOL for w in want):
                bad = bad or "for (t,t0) = %s in a row, call %d multiplies with another diagonal than that of (%d,%d)" % (", ".join("(%d,%d)" % (ts[2 * j], ts[2 * j + 1]) for j in range(3)), k + 1, a, b)
    ctx.ob("diagonal:" + who, "every call multiplies with the diagonal of the times it is given (%d calls evaluated)" % n, False if bad else None if unk else True, f.where(), bad or unk or "")


def family(ctx, prog, f, pic, kind, D):
    t = c23.partype(f)
    F = elem.fields(prog, f.tu, t)
    rate = "kappa" if kind == "mode" else "gamma"
    spec = {rate: (Fraction(3, 7), 0), "nTh": (0, Fraction(2, 5)), "eta": ((0, 0), (Fraction(1, 3), Fraction(1, 2))), "gamma_parallel": (0, Fraction(5, 11)), "delta": (Fraction(13, 9), 0),
            "omegaKerr": (0, Fraction(3, 8)), "omegaKerrAlter": (0,), "cutoff": (D,)}
    scen = "" if f.name == "make" else f.name.replace("scenario_", "") + ":"
    for pn in elem.PICTURES:
        I = elem.make(ctx, prog, f, pic[pn])
        if I.deep or I.result is None:
            ctx.part(lambda c: c.need(False, "the maker for " + t))
            continue
        for vals in c23.grid(F, spec):
            m0 = elem.made(ctx, prog, f, I, {F[n][0]: v for n, v in vals.items()})
            if m0 is None or not m0.derives("structure::Exact") or not m0.derives("structure::Hamiltonian"):
                continue
            m = c14.Made(ctx, prog, f, I, m0.root, m0.g)
            given = {n: complex(*v) if isinstance(v, tuple) else float(v) for n, v in vals.items()}
            reg = "+".join(n for n in ("nTh", "eta", "gamma_parallel", "omegaKerr", "delta", rate) if c23.nz(vals.get(n, 0)))
            ctx.part(picture, m, D, given, "picture:%s:%s%s:%s:%s" % (kind, scen, t.split("::", 1)[1], pn, reg), f.where())


def spin(ctx, prog, f, two):
    I = ctx.interp(prog, f, inline=trid.keep)
    ctx.need(I.result is not None and not I.deep, "the spin")
    r = I.result
    while r.op == "lref":
        r = I.read((r.a[0], r.a[1]))
    given = {"twoS": two, "dim": 0, "gamma": 1., "theta": .4, "phi": .3}
    env = Env(lambda n: c14.generic(n, given))

    def g(x):
        try:
            if x.op in ("eq0", "lt0"):
                v = env.num(c14.rename(x.a[0]))
                return TRUE if (abs(v) < 1e-12 if x.op == "eq0" else complex(v).real < 0) else FALSE
        except Lost:
            pass
        return None
    r = V.subst(V.subst(r, g), g)
    ctx.need(r.op == "ptr" and not r.a[1] and r.a[0] in I.rootcls, "the spin")
    m = c14.Made(ctx, prog, f, I, r.a[0], g)
    ctx.need(m.derives("structure::Exact"), "an exact part of the spin")
    ctx.part(picture, m, two + 1, given, "picture:spin:twoS%d" % two, m.where())


def ladder(ctx, prog, f, g, n):
    """an operator made for a spin rotates with the frequencies of its exact part, or not at all when there is none"""
    I = ctx.interp(prog, f, inline=trid.keep)
    ctx.need(I.result is not None and not I.deep, "the ladder operator of the spin")
    r = I.result
    if r.op == "lref":
        r = I.read((r.a[0], r.a[1]))

    def cast(x):
        if x.op == "nonnull" and x.a[0].op == "dyncast" and x.a[0].a[1].op == "ptr" and x.a[0].a[1].a[0] in I.rootcls:
            rec = I.rootcls[x.a[0].a[1].a[0]]
            return TRUE if any(b["q"] == str(x.a[0].a[0]).replace("const ", "") for b in [rec] + bases_of(f.tu, rec)) else FALSE
        return None
    try:
        t = trid.tri(V.subst(r, cast))
    except trid.Lost as x:
        return ctx.need(False, "the ladder operator of the spin: %s" % x)
    if n.endswith("Sch"):
        ctx.ob("picture:spin:" + n, "an operator of a spin without exact part does not rotate", t.freq[0] is None, f.where(), str(t)[:200])
        return
    given = {"twoS": 3, "dim": 0, "gamma": .7, "theta": .4, "phi": .3, "omega": 1.3}
    J = ctx.interp(prog, g, inline=trid.keep)
    q = J.result
    while q.op == "lref":
        q = J.read((q.a[0], q.a[1]))
    ctx.need(q.op == "ptr" and q.a[0] in J.rootcls, "the spin")
    m = c14.Made(ctx, prog, g, J, q.a[0], lambda x: None)
    e = Env(lambda x: c14.generic(x, given), None, None, 4)
    z = c14.exponent(ctx, m, 4, e)
    ctx.need(z is not None, "the exact propagation of the spin")
    if t.freq[0] is None:
        return ctx.ob("picture:spin:" + n, "an operator of a spin rotates with its exact part", False, f.where(), "no frequencies")
    w = [e.num(V.subst(c14.rename(t.freq[0]), lambda x: num(k) if x is trid.I0 else None)) for k in range(4)]
    ctx.ob("picture:spin:" + n, "an operator of a spin rotates with its exact part", all(abs((w[k + 1] - w[k]) + (z[k + 1] - z[k])) < TOL for k in range(3)), f.where(), "frequencies of %s, exact part %s" % (c14.fmt(w), c14.fmt(z)))


def picture(ctx, m, D, given, key, where):
    e = Env(lambda n: c14.generic(n, given), None, None, D)
    try:
        H = elem.operator(m)
    except trid.Lost as x:
        ctx.need(False, "the Hamiltonian of %s: %s" % (m.name, x))
    if H is None or H.minus is ZERO and H.plus is ZERO:
        return
    off = e.num(V.subst(H.minus, lambda x: num(0) if x is trid.I0 else None)), e.num(V.subst(H.plus, lambda x: num(0) if x is trid.I0 else None))
    if not any(abs(x) > TOL for x in off):
        return
    z = c14.exponent(ctx, m, D, e)
    ctx.need(z is not None, "the exact propagation of " + m.name)
    d = e.int(H.k[0])
    fr = H.freq[0]
    if fr is None:
        ctx.ob(key, "the Hamiltonian rotates with the frequencies of the exact part", all(abs(z[k] - z[0]) < TOL for k in range(D)), where, "%s: no frequencies" % m.name)
        return
    w = [e.num(V.subst(fr, lambda x: num(k) if x is trid.I0 else None)) for k in range(D)]
    dev = [(w[k + d] - w[k]) + (z[k + d] - z[k]) for k in range(D - d)]
    ctx.ob(key, "the Hamiltonian rotates with the frequencies of the exact part", all(abs(x) < TOL for x in dev), where,
           "%s: frequencies %s, exact part %s" % (m.name, c14.fmt([w[k + d] - w[k] for k in range(D - d)]), c14.fmt([z[k] - z[k + d] for k in range(D - d)])))
