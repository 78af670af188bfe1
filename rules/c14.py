"""C14 one process per channel. The elements with decay that the makers (and, for elements without one, their constructors) give are looked at channel by channel: the jump, the rates and the superoperator
are interpreted for a small dimension with every loop unrolled, the parameters get generic numbers, and the three are compared as linear maps on a basis and on random vectors; the diagonal of the Hamiltonian
and exact part is compared with the summed rates level by level."""
import cmath
import re
import random
import zlib
from sa.q import *
from sa.val import *
from sa import val as V
from fractions import Fraction
from rules import elem, trid, c23, numeval
from rules.numeval import Lost, Env, rename

FLOOR = {"mode": 150, "qbit": 60, "spin": 4, "atom": 3, "multilevel": 30}
ASSUME = ["two linear maps with polynomial entries that agree for generic numbers agree"]
TOL = 1e-7


def check(ctx):
    prog = ctx.program(elem.TUS + ["w_elem.cc"])
    pic = elem.pictures(prog)
    ctx.need(set(elem.PICTURES) <= set(pic), "the pictures IP, UIP, SCH")
    seen = set()
    scalars(prog)
    for f in prog.find(q="mode::make"):
        if len(f.params) == 2 and f.tu.name.endswith("frees/Mode.cc") and not f.d.get("ta"):
            ctx.part(family, prog, f, pic, "mode", 5, seen)
    for n in ("monitored", "quadratures", "bichromatic"):
        for f in prog.find(name="scenario_" + n):
            ctx.part(family, prog, f, pic, "mode", 5, seen)
    for f in prog.find(q="qbit::make"):
        ctx.part(family, prog, f, pic, "qbit", 2, seen)
    other = ctx.program(["w_spin.cc", "w_ptla.cc", "w_liou.cc", "w_homodyne.cc"])
    scalars(other)
    for n in ("homodyned", "homodynedpumped", "alternative", "alternativehot"):
        for f in other.find(name="scenario_" + n):
            for nth in ((.4,) if n.endswith("hot") else (0., ) if n == "alternative" else (0., .4)):
                ctx.part(single, other, f, "mode", n + (":nTh" if nth else ""), 5, {"kappa": .43, "nTh": nth, "cutoff": 5., "omegaKerr": 0., "omegaKerrAlter": 0., "eta": .3 + .2j, "homodyneAmplitude": .6 + .25j})
    for n in ("spin", "spinsch"):
        for f in other.find(name="scenario_" + n):
            for two in (1, 2):
                ctx.part(single, other, f, "spin", n + ":twoS%d" % two, two + 1, {"twoS": two, "dim": 0, "gamma": 1., "theta": 0., "phi": 0.})
            ctx.part(single, other, f, "spin", n + ":tilted", 2, {"twoS": 1, "dim": 0, "gamma": 1., "theta": cmath.pi / 3, "phi": 0.})
    for f in other.find(name="scenario_ptla"):
        ctx.part(single, other, f, "atom", "ptla", 2, {})
    for n in ("multi", "multi_vec"):
        for f in other.find(name="scenario_" + n):
            for noise in (0, 1):
                ctx.part(single, other, f, "multilevel", n + (":noise" if noise else ""), 3, {"noise": noise})


class Made(elem.Made):
    def at(self, path):
        return rename(super().at(path))


SCALARS = set()
NUMERIC = re.compile(r"(const )?(double|float|int|unsigned int|unsigned long|size_t|std::size_t|dcomp|long|std::complex<double>|unsigned short|unsigned|bool)$")


def scalars(prog):
    """the fields that are numbers: an element of one is the number itself, spread over an array"""
    yes, no = set(), set()
    for tu in prog.tus:
        for r in tu.recs.values():
            for f in r.get("fs", ()):
                (yes if NUMERIC.match(tu.t(f["t"])) else no).add("%s::%s" % (r["q"], f["n"]))
    SCALARS.update(yes - no)


def scalar(b, given):
    if b.op == "fld":
        return str(b.a[1]) in SCALARS or str(b.a[1]).split("::")[-1] in given
    return b.op == "mp" and (b in given or ("number", b.a[0]) in given)


def generic(n, given):
    """number of a parameter: the given one, or a generic one"""
    if n in given:
        return given[n]
    if n.op == "elem" and scalar(n.a[0], given):
        return generic(n.a[0], given)
    if n.op == "mp" or n.op in ("fld", "elem") and root(n).op == "mp":
        nm = str(n.a[1]).split("::")[-1] if n.op == "fld" else None
        if nm in given:
            return given[nm]
        if n.op == "elem" and not all(const_int(i) is not None for i in n.a[1:]):
            return None
        return .2 + (zlib.crc32(show(n).encode()) % 997) / 1000.
    return None


def root(n):
    while n.op in ("fld", "elem"):
        n = n.a[0]
    return n


def family(ctx, prog, f, pic, kind, D, seen):
    t = c23.partype(f)
    F = elem.fields(prog, f.tu, t)
    rate = "kappa" if kind == "mode" else "gamma"
    spec = {rate: (Fraction(3, 7), 0), "nTh": (0, Fraction(2, 5)), "eta": ((0, 0), (Fraction(1, 3), Fraction(1, 2))), "gamma_parallel": (0, Fraction(5, 11)), "etaOther": ((0, 0), (Fraction(1, 5), Fraction(1, 9))),
            "delta": (Fraction(13, 9),), "deltaOther": (7,), "omegaKerr": (0,), "omegaKerrAlter": (0,), "cutoff": (D,)}
    scen = "" if f.name == "make" else f.name.replace("scenario_", "") + ":"
    for pn in elem.PICTURES:
        I = elem.make(ctx, prog, f, pic[pn])
        if I.deep or I.result is None:
            ctx.part(lambda c: c.need(False, "the maker for " + t))
            continue
        for vals in c23.grid(F, spec):
            d = {F[n][0]: v for n, v in vals.items()}
            m0 = elem.made(ctx, prog, f, I, d)
            if m0 is None or not m0.derives("structure::Liouvillean"):
                continue
            m = Made(ctx, prog, f, I, m0.root, m0.g)
            given = {n: complex(*v) if isinstance(v, tuple) else float(v) for n, v in vals.items()}
            reg = "+".join(n for n in ("nTh", "eta", "gamma_parallel", "etaOther", rate) if c23.nz(vals.get(n, 0)))
            key = "%s:%s%s:%s:%s" % (kind, scen, t.split("::", 1)[1], pn, reg)
            want = None
            if not c23.nz(vals.get("etaOther", 0)):
                nth, k = given.get("nTh", 0.), given.get(rate, 0.)
                want = [[2 * k * (nth + 1) * j for j in range(D)], [2 * k * nth * (j + 1) for j in range(D)]]
                if given.get("gamma_parallel"):
                    want[1] = [2 * given["gamma_parallel"]] * D
            ctx.part(one, prog, m, D, given, key, f.where(), want)


def single(ctx, prog, f, kind, name, D, given):
    I = ctx.interp(prog, f, inline=trid.keep)
    ctx.need(I.result is not None and not I.deep, "the element " + name)
    r = I.result
    while r.op == "lref":
        r = I.read((r.a[0], r.a[1]))
    given = dict(given)
    for i, p in enumerate(f.params):
        if NUMERIC.match(re.sub(r" ?&$", "", f.tu.t(p["t"]))):
            given[("number", i)] = 1
    if kind == "multilevel":
        on = given.pop("noise")
        z = mk("mp", 3)
        if name.startswith("multi_vec"):
            for i in range(D):
                given[mk("elem", z, num(i))] = (.2 + .15 * i) if on else 0.
        else:
            given[z] = .3 if on else 0.
    env = Env(lambda n: generic(n, given))

    def g(x):
        try:
            if x.op in ("eq0", "lt0"):
                return TRUE if (abs(env.num(rename(x.a[0]))) < 1e-12 if x.op == "eq0" else complex(env.num(rename(x.a[0]))).real < 0) else FALSE
        except Lost:
            pass
        if x.op == "any":
            try:
                return TRUE if env.any(rename(x.a[0]), D) else FALSE
            except Lost:
                return None
        if x.op == "size":
            return num(D)
        return None
    r = V.subst(V.subst(r, g), g)
    ctx.need(r.op == "ptr" and not r.a[1] and r.a[0] in I.rootcls, "the element %s: %s" % (name, show(r)[:120]))
    m = Made(ctx, prog, f, I, r.a[0], g)
    ctx.need(m.derives("structure::Liouvillean"), "%s has no decay channels" % m.name)
    ctx.part(one, prog, m, D, given, "%s:%s" % (kind, name), m.where(), None)


def dims(D):
    def f(I, callee, obj, args, line, t):
        if callee is None:
            return None
        q = callee.get("q", "") if isinstance(callee, dict) else getattr(callee, "q", "")
        n = q.split("::")[-1]
        if "Array" in q:
            if n in ("extent", "size", "rows", "columns", "cols", "numElements"):
                return num(D)
            if n == "ubound":
                return num(D - 1)
            if n == "lbound":
                return num(0)
        return None
    return f


def closures(J, m):
    """the lambdas stored at construction, with what they captured by then"""
    J.cnt = max(J.cnt, m.I.cnt)
    for k, h in m.I.handles.items():
        if k[0] != "lam":
            continue
        caps = {}
        for i, b in h[3].items():
            if b[0] == "root":
                caps[i] = ("root", J._caproot("cap", rename(m.bind(m.I.read((b[1], ()))))))
            elif b[0] == "loc" and b[1][0] == m.root:
                caps[i] = ("loc", (("this",),) + tuple(b[1][1:]))
            else:
                break
        else:
            th = h[4]
            if th is not None and th[0] == m.root:
                th = (("this",),) + tuple(th[1:])
            elif th is not None:
                continue
            J.handles[k] = h[:3] + (caps, th, h[5])


class Maps:
    """the linear maps of one channel"""
    def __init__(self, ctx, prog, m, D, given, no):
        self.m, self.D, self.given = m, D, given
        dbl = lambda f: "double" in f.tu.t(f.params[0]["t"])

        def pre(J):
            J.handles.update({k: h for k, h in m.I.handles.items() if k[0] == "fn"})
            closures(J, m)
            for (r, path) in sorted(m.I.allw, key=str):
                if r == m.root:
                    J.write((("this",), path), m.at(path), quiet=True)
        g = m.method("actWithJ_v", dbl)
        ctx.need(g is not None, "the jump of " + m.name)
        self.J = ctx.interp(prog, g, this_rec=m.cls, args=[None, None, num(no)], model=dims(D), unroll=64, pre=pre)
        g = m.method("average_v", lambda f: "Liouvillean" in str(f.cls) and dbl(f))
        ctx.need(g is not None, "the rates of " + m.name)
        self.R = ctx.interp(prog, g, this_rec=m.cls, model=dims(D), unroll=64, pre=pre)
        g = m.method("actWithSuperoperator_v", dbl)
        ctx.need(g is not None, "the superoperator of " + m.name)
        self.S = ctx.interp(prog, g, this_rec=m.cls, args=[None, None, None, num(no)], model=dims(D), unroll=64, pre=pre)
        self.no = no
        ctx.need(any(k[0] == ("p", 1) for k in self.J.allw), "what the jump of %s writes" % m.name)
        ctx.need(not (self.J.deep or self.R.deep or self.S.deep), "the channels of " + m.name)
        self.offered = not uncond_throw(self.S)
        self.jv = [m.bind(self.J.read((("p", 1), (("[", num(k)),)))) for k in range(D)]
        r = self.R.result
        ctx.need(r is not None, "the rates of " + m.name)
        self.rv = m.bind(self.R.read((r.a[0], r.a[1] + (("[", num(no)),)))) if r.op == "lref" else m.bind(mk("elem", r, num(no)))
        self.sv = [[m.bind(self.S.read((("p", 2), (("[", num(k), num(l)),)))) for l in range(D)] for k in range(D)]

    def env(self, psi=None, rho=None):
        D = self.D

        def leaf(n):
            if n.op == "fld" and str(n.a[1]).endswith("::totalDimension_"):
                return D
            if n.op == "call" and str(n.a[0]).split("::")[-1] in ("getDimension", "getTotalDimension"):
                return D
            if n.op == "elem" and n.a[0].op == "fld" and "dimensions_" in str(n.a[0].a[1]):
                return D
            if n.op in ("product", "size") and any(x.op == "fld" and str(x.a[1]).startswith("DimensionsBookkeeper") for x in subnodes(n)):
                return D
            return generic(n, self.given)

        def at(b, ix):
            if b.op == "p":
                if any(not 0 <= i < D for i in ix):
                    raise Lost("index out of range")
                if b.a[0] == 1 and psi is not None and len(ix) == 1:
                    return psi[ix[0]]
                if b.a[0] == 1 and rho is not None and len(ix) == 2:
                    return rho[ix[0]][ix[1]]
                if b.a[0] == 2:
                    return 0.
            return None

        def ldo(i, j):
            if len(i) != 1 or len(j) != 1 or not (0 <= i[0] < D and 0 <= j[0] < D):
                raise Lost("matrix element %s,%s" % (i, j))
            return psi[i[0]] * complex(psi[j[0]]).conjugate()
        return Env(leaf, at, ldo, D)

    def jump(self, psi):
        e = self.env(psi)
        return [e.num(v) for v in self.jv]

    def rate(self, psi):
        return self.env(psi).num(self.rv)

    def superop(self, rho):
        e = self.env(None, rho)
        return [[e.num(v) for v in row] for row in self.sv]


def uncond_throw(I):
    """a strategy that was never set is empty"""
    return V._bsub(I.pc, lambda x: TRUE if x.op == "ewcmp" and x.a[0] == "==" and any(y.op in ("null", "g") and "null" in show(y) for y in x.a[1:]) and any(y.op == "elem" and y.a[0].op == "new" for y in x.a[1:]) else None, {}) is FALSE


def basis(D, j):
    return [1. if k == j else 0. for k in range(D)]


def states(D, top):
    """basis vectors, sums of two with phases, and random ones, on the levels below top"""
    R = random.Random(7)
    out = [basis(D, j) for j in range(top)]
    for i in range(top):
        for j in range(i):
            for ph in (1., 1j):
                out.append([1. if k == i else ph if k == j else 0. for k in range(D)])
    for _ in range(2):
        out.append([complex(R.uniform(-1, 1), R.uniform(-1, 1)) if k < top else 0. for k in range(D)])
    return out


def nchannels(ctx, m):
    n = c23.channels(m)
    return n


def one(ctx, prog, m, D, given, key, where, want):
    n = c23.channels(m)
    ctx.need(n is not None, "the number of channels of " + m.name)
    if m.derives("structure::ElementLiouvilleanDiffusive"):
        n += D
    chans = []
    for no in range(n):
        try:
            chans.append(channel(ctx, prog, m, D, given, key, where, no, want))
        except Lost as x:
            ctx.need(False, "channel %d of %s: %s" % (no, m.name, x))
    total(ctx, m, D, key, where, chans)
    try:
        decay(ctx, prog, m, D, given, key, where, chans)
    except Lost as x:
        ctx.need(False, "the decay of %s: %s" % (m.name, x))


def channel(ctx, prog, m, D, given, key, where, no, want):
    M = Maps(ctx, prog, m, D, given, no)
    cols = [M.jump(basis(D, j)) for j in range(D)]
    J = [[cols[j][k] for j in range(D)] for k in range(D)]
    raising = key.startswith("mode") and any(abs(J[j + 1][j]) > TOL for j in range(D - 1))
    top = D - 1 if raising else D
    app = lambda psi: [sum(J[k][j] * psi[j] for j in range(D)) for k in range(D)]
    bad = [p for p in states(D, D) if dist(M.jump(p), app(p)) > TOL]
    ctx.ob(key + ":linear%d" % no, "the jump is a linear map", not bad, where, "channel %d of %s" % (no, m.name))
    special, bad = False, None
    for p in states(D, top):
        r = M.rate(p)
        w = sum(abs(x) ** 2 for x in app(p))
        if abs(complex(r).imag) < TOL and complex(r).real < 0:
            special = True
        elif abs(r - w) > TOL * (1 + w):
            bad = bad or (p, r, w)
    ctx.ob(key + ":rate%d" % no, "the rate of channel %d is the squared norm of the jumped state, or marked as to be got from that" % no, bad is None, where, bad and "%s: in the state %s the rate is %.6g, the jumped state has %.6g" % (m.name, fmt(bad[0]), complex(bad[1]).real, bad[2]))
    if want is not None and no < len(want):
        col = [sum(abs(J[k][j]) ** 2 for k in range(D)) for j in range(top)]
        ctx.ob(key + ":strength%d" % no, "channel %d happens at the rate its parameters say" % no, all(abs(a - b) < TOL * (1 + b) for a, b in zip(col, want[no])), where,
               "%s: %s instead of %s" % (m.name, ", ".join("%.6g" % x for x in col), ", ".join("%.6g" % x for x in want[no][:top])))
    return M, J, special, raising


def dyads(D):
    R = random.Random(11)
    for i in range(D):
        for j in range(D):
            yield [[1. if (k, l) == (i, j) else 0. for l in range(D)] for k in range(D)]
    yield [[complex(R.uniform(-1, 1), R.uniform(-1, 1)) for l in range(D)] for k in range(D)]


def sandwich(J, rho, D):
    A = [[sum(J[k][i] * rho[i][l] for i in range(D)) for l in range(D)] for k in range(D)]
    return [[sum(A[k][i] * complex(J[l][i]).conjugate() for i in range(D)) for l in range(D)] for k in range(D)]


def total(ctx, m, D, key, where, chans):
    """the superoperators: channel by channel, and those of channels without a rate of their own together, up to a multiple of the state"""
    group = [c for c in chans if c[2]]
    for M, J, special, _ in chans:
        if special or not M.offered:
            continue
        try:
            bad = None
            for rho in dyads(D):
                got, w = M.superop(rho), sandwich(J, rho, D)
                if max(dist(a, b) for a, b in zip(got, w)) > TOL:
                    bad = bad or (rho, got, w)
        except Lost as x:
            ctx.part(lambda c: c.need(False, "the superoperator of channel %d of %s: %s" % (M.no, m.name, x)))
            continue
        ctx.ob(key + ":super%d" % M.no, "the superoperator of channel %d is the jump from both sides" % M.no, bad is None, where, bad and "%s: %s gives %s instead of %s" % ((m.name,) + tuple(mat(x) for x in bad)))
    group = [c for c in group if c[0].offered]
    if group and len(group) == len([c for c in chans if c[2]]):
        try:
            lam, bad = None, None
            for rho in dyads(D):
                diff = [[0.] * D for _ in range(D)]
                for M, J, _, _ in group:
                    got, w = M.superop(rho), sandwich(J, rho, D)
                    for k in range(D):
                        for l in range(D):
                            diff[k][l] += got[k][l] - w[k][l]
                for k in range(D):
                    for l in range(D):
                        if abs(rho[k][l]) > TOL:
                            x = diff[k][l] / rho[k][l]
                            if lam is None:
                                lam = x
                            elif abs(x - lam) > TOL:
                                bad = bad or (k, l, x, lam)
                        elif abs(diff[k][l]) > TOL:
                            bad = bad or (k, l, diff[k][l], 0)
        except Lost as x:
            ctx.part(lambda c: c.need(False, "the superoperators of %s: %s" % (m.name, x)))
            return
        ctx.ob(key + ":superall", "the superoperators of the channels without a rate of their own add up to the jumps from both sides, up to a multiple of the state", bad is None, where,
               bad and "%s: element (%d,%d) is off by %.6g times the state instead of %.6g" % (m.name, bad[0], bad[1], complex(bad[2]).real, complex(bad[3]).real))


def dist(a, b):
    return max(abs(x - y) for x, y in zip(a, b))


def fmt(p):
    return "(" + ",".join("%.3g" % complex(x).real if abs(complex(x).imag) < 1e-12 else "%.3g%+.3gi" % (complex(x).real, complex(x).imag) for x in p) + ")"


def mat(r):
    return "[" + ";".join(fmt(x) for x in r) + "]"


def decay(ctx, prog, m, D, given, key, where, chans):
    """the Hermitian part of the generator against the summed rates as operators, up to a constant"""
    e = chans[0][0].env()
    K = [[0.] * D for _ in range(D)]
    if m.derives("structure::Exact"):
        z = exponent(ctx, m, D, e)
        ctx.need(z is not None, "the exact propagation of " + m.name)
        for k in range(D):
            K[k][k] += z[k]
    if m.derives("structure::Hamiltonian"):
        h = hamiltonian(ctx, prog, m, D, e, chans[0][0])
        ctx.need(h is not None, "the Hamiltonian of " + m.name)
        for k in range(D):
            for l in range(D):
                K[k][l] += h[k][l]
    top = D - 1 if any(c[3] for c in chans) else D
    N_ = [[sum(complex(J[i][k]).conjugate() * J[i][l] for _, J, _, _ in chans for i in range(D)) for l in range(top)] for k in range(top)]
    H_ = [[-(K[k][l] + complex(K[l][k]).conjugate()) for l in range(top)] for k in range(top)]
    off = [[H_[k][l] - N_[k][l] for l in range(top)] for k in range(top)]
    c = off[0][0]
    good = all(abs(off[k][l] - (c if k == l else 0)) < TOL * (1 + abs(c)) for k in range(top) for l in range(top))
    g = lambda X: ",".join("%.4g" % (complex(X[k][k]).real + 0.) for k in range(top))
    ctx.ob(key + ":decay" + ("" if good else ":%s<-%s" % (g(H_), g(N_))).replace("-0,", "0,"), "the non-Hermitian part removes norm at the summed rates, up to a constant", good, where,
           "%s: decay %s, rates %s" % (m.name, ", ".join("%.4g" % complex(H_[k][k]).real for k in range(top)), ", ".join("%.4g" % complex(N_[k][k]).real for k in range(top))) +
           ("" if all(abs(off[k][l]) < TOL for k in range(top) for l in range(top) if k != l) else ", off the diagonal %s" % mat(off)))


def exponent(ctx, m, D, e):
    z = c23.exponent(ctx, m)
    if z is not None:
        return [e.num(V.subst(z, lambda x: num(k) if x is trid.I0 or x.op == "idx" and x.a[0] == 0 else None)) for k in range(D)]
    f = m.method("updateU")
    if f is None:
        return None
    I = ctx.interp(m.prog, f, this_rec=m.cls, args=[num(Fraction(1, 64))], model=dims(D), unroll=64)
    if I.deep:
        return None
    g = m.method("getDiagonal")
    out = []
    G = ctx.interp(m.prog, g, this_rec=m.cls) if g is not None else None
    if G is None or G.result is None or G.result.op != "lref":
        return None
    for k in range(D):
        v = I.read((G.result.a[0], G.result.a[1] + (("[", num(k)),)))
        v = e.num(m.bind(v))
        out.append(64 * cmath.log(v))
    return out


def hamiltonian(ctx, prog, m, D, e, M):
    """matrix of the Hamiltonian over i"""
    if m.written("hOverIs_"):
        try:
            H = elem.operator(m)
        except trid.Lost:
            return None
        at = lambda v, k: e.num(V.subst(v, lambda x: num(k) if x is trid.I0 else None))
        out = [[0.] * D for _ in range(D)]
        for k in range(D):
            out[k][k] += at(H.main, k)
        if H.minus is not ZERO or H.plus is not ZERO:
            d = e.int(H.k[0])
            for k in range(D - d):
                out[k + d][k] += at(H.minus, k)
                out[k][k + d] += at(H.plus, k)
        return out
    f = m.method("addContribution_v", lambda f: len(f.params) == 3)
    if f is None:
        return None
    I = ctx.interp(prog, f, this_rec=m.cls, model=dims(D), unroll=64)
    if I.deep:
        return None
    vs = [m.bind(I.read((("p", 2), (("[", num(k)),)))) for k in range(D)]
    return [[M.env(basis(D, l)).num(vs[k]) for l in range(D)] for k in range(D)]
