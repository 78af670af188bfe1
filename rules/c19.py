"""C19 the algebra of tridiagonal operators, from the optimised intermediate representation of witness functions: operators with undefined elements are made, combined and propagated, and what the result adds to an
undefined vector (exact polynomials in the elements, with exp, cos and sin of the frequencies) is compared with the matrix the expression stands for. refused / accepted: ill-matched operators throw, well-matched do not."""
from fractions import Fraction
from rules import irw
from rules.irw import amp, cmul, cadd, conj, compare, outs, scale, ZERO
from sa.ir import const, fun, pmul, padd

FLOOR = {"apply": 15, "algebra": 20, "propagate": 15, "refused": 6, "accepted": 6, "sigma": 4}
ASSUME = ["floating-point arithmetic is regarded as exact", "what holds for the dimensions examined (2 to 5 per degree of freedom, up to three of them) holds for all"]
W = "CPPQEDcore/quantumoperator/Tridiagonal.tcc"
PRE = "using namespace witness; using namespace quantumoperator; using namespace std::complex_literals; "
ONE = (const(1), const(0))


class Op:
    def __init__(self, dims, m):
        self.dims, self.m = dims, m
        self.n = 1
        for d in dims:
            self.n *= d

    def on(self, w, into):
        r = {}
        for i in range(self.n):
            z = amp(into, i)
            for j in range(self.n):
                if (i, j) in self.m:
                    z = cadd(z, cmul(self.m[i, j], amp(w, j)))
            r[i, 0] = z
        return r

    def __add__(self, o):
        m = dict(self.m)
        for ij, z in o.m.items():
            m[ij] = cadd(m[ij], z) if ij in m else z
        return Op(self.dims, m)

    def times(self, c):
        return Op(self.dims, {ij: cmul(c, z) for ij, z in self.m.items()})

    def dagger(self):
        return Op(self.dims, {(j, i): conj(z) for (i, j), z in self.m.items()})

    def __mul__(self, o):
        return Op(self.dims + o.dims, {(i * o.n + k, j * o.n + l): cmul(z, w) for (i, j), z in self.m.items() for (k, l), w in o.m.items()})


def num(re_, im_=0):
    return (const(re_), const(im_))


def cexp(z):
    e = fun("exp", z[0])
    return (pmul(e, fun("cos", z[1])), pmul(e, fun("sin", z[1])))


def phase(w, n, k, t):
    """exp(t*(w(n+k)-w(n)))"""
    return cexp(scale(const(t), cadd(w[n + k], scale(const(-1), w[n]))))


def tri(which, dim, k, mask, w=None, t=0):
    m = {}
    for i in range(dim if mask & 1 else 0):
        m[i, i] = amp(10 * which, i)
    for i in range(dim - k):
        if mask & 2:
            z = amp(10 * which + 1, i)
            m[i + k, i] = cmul(z, phase(w, i, k, t)) if w and t else z
        if mask & 4:
            z = amp(10 * which + 2, i)
            m[i, i + k] = cmul(z, phase(w, i, k, -t)) if w and t else z
    return Op((dim,), m)


def sig(l, r, d):
    return Op((d,), {(l, r): ONE})


def args(op):
    return ",".join(map(str, op.dims))


def C(which, dim, k, mask):
    return "tri(%d,%d,%d,%d)" % (which, dim, k, mask)


def check(ctx):
    jobs, want = {}, {}

    def job(name, body, *expected):
        """expected: (what, operator) in the order they are shown"""
        jobs[name.replace(":", "_")] = PRE + body
        want[name] = expected

    def one(name, expr, op, pre="", post="", more=()):
        job(name, "%s auto& t=keep(%s); act(1,t,%s); %s" % (pre, expr, args(op), post), (1, op), *more)

    S = [(4, 1), (4, 2), (5, 3)]
    for dim, k in S:
        for mask in range(1, 8):
            if (dim, k) != (4, 1) and mask not in (7, 6, 2):
                continue
            one("apply:%d:%d:%d" % (dim, k, mask), C(0, dim, k, mask), tri(0, dim, k, mask))
            if mask in (7, 2, 4):
                one("algebra:dagger:%d:%d:%d" % (dim, k, mask), C(0, dim, k, mask) + ".dagger()", tri(0, dim, k, mask).dagger())
    for (d0, k0), (d1, k1) in (((3, 1), (2, 1)), ((2, 1), (4, 2)), ((4, 2), (3, 1))):
        for m0, m1 in ((7, 7), (1, 6), (6, 1), (2, 4), (4, 7), (1, 1)):
            a, b = tri(0, d0, k0, m0), tri(1, d1, k1, m1)
            e = "%s*%s" % (C(0, d0, k0, m0), C(1, d1, k1, m1))
            one("apply:%d%d:%d%d:%d%d" % (d0, d1, k0, k1, m0, m1), e, a * b)
            if (m0, m1) in ((7, 7), (2, 4), (4, 7)):
                one("algebra:dagger:%d%d:%d%d:%d%d" % (d0, d1, k0, k1, m0, m1), "keep(%s).dagger()" % e, (a * b).dagger())
    for m in ((7, 7, 7), (2, 4, 6), (1, 6, 4)):
        a, b, c = tri(0, 2, 1, m[0]), tri(1, 3, 2, m[1]), tri(2, 2, 1, m[2])
        x, y, z = C(0, 2, 1, m[0]), C(1, 3, 2, m[1]), C(2, 2, 1, m[2])
        one("apply:232:%d%d%d" % m, "keep(%s*%s)*%s" % (x, y, z), a * b * c)
        one("apply:232r:%d%d%d" % m, "%s*keep(%s*%s)" % (x, y, z), a * (b * c))
        one("algebra:dagger:232:%d%d%d" % m, "keep(keep(%s*%s)*%s).dagger()" % (x, y, z), (a * b * c).dagger())
    # sums and multiples; the operands are left alone
    A, B = tri(0, 3, 1, 7), tri(1, 3, 1, 7)
    for m0, m1 in ((7, 7), (1, 6), (6, 1), (2, 4), (4, 4), (1, 7), (1, 1)):
        a, b = tri(0, 3, 1, m0), tri(1, 3, 1, m1)
        pre = "auto& a=%s; auto& b=%s;" % (C(0, 3, 1 if m0 > 1 else 0, m0), C(1, 3, 1 if m1 > 1 else 0, m1))
        post, more = "act(2,a,3); act(3,b,3);", ((2, a), (3, b))
        one("algebra:sum:%d%d" % (m0, m1), "a+b", a + b, pre, post, more)
        one("algebra:difference:%d%d" % (m0, m1), "a-b", a + b.times(num(-1)), pre, post, more)
    pre, post, more = "auto& a=%s; auto& b=%s;" % (C(0, 3, 1, 7), C(1, 3, 1, 7)), "act(2,a,3);", ((2, A),)
    for n, e, c in (("double", "a*2.", num(2)), ("complex", "dcomp(2.,3.)*a", num(2, 3)), ("quotient", "a/2.", num(Fraction(1, 2))), ("overI", "a/1i", num(0, -1)), ("overComplex", "a/dcomp(1.,2.)", num(Fraction(1, 5), Fraction(-2, 5))), ("negative", "-a", num(-1)), ("same", "+a", num(1))):
        one("algebra:multiple:" + n, e, A.times(c), pre, post, more)
    one("algebra:copied", "a", A, pre, "t*=3.; act(4,t,3); act(2,a,3); a*=2.; act(5,t,3);", ((4, A.times(num(3))), (2, A), (5, A.times(num(3)))))
    one("algebra:inplace", "a", A + B, pre + "a+=b;", "act(3,b,3);", ((3, B),))
    one("algebra:independent", "a", tri(0, 3, 1, 1) + tri(1, 3, 1, 6), "auto& a=%s; auto& b=%s; a+=b;" % (C(0, 3, 0, 1), C(1, 3, 1, 6)), "a*=3.; act(3,b,3); b*=2.; act(4,a,3);",
        ((3, tri(1, 3, 1, 6)), (4, (tri(0, 3, 1, 1) + tri(1, 3, 1, 6)).times(num(3)))))
    one("algebra:inplaceMinus", "a", A + B.times(num(-1)), pre + "a-=b;", "act(3,b,3);", ((3, B),))
    one("algebra:plusHC", "tridiagPlusHC(a)", A + A.dagger(), pre, post, more)
    one("algebra:minusHC", "tridiagMinusHC(a)", A + A.dagger().times(num(-1)), pre, post, more)
    one("algebra:plusHCoverI", "tridiagPlusHC_overI(a)", (A + A.dagger()).times(num(0, -1)), pre, post, more)
    P, Q = tri(0, 2, 1, 7) * tri(1, 3, 1, 7), tri(2, 2, 1, 7) * tri(3, 3, 1, 1)
    pre = "auto& a=keep(%s*%s); auto& b=keep(%s*%s);" % (C(0, 2, 1, 7), C(1, 3, 1, 7), C(2, 2, 1, 7), C(3, 3, 0, 1))
    one("algebra:sum2", "a+b", P + Q, pre, "act(2,a,2,3); act(3,b,2,3);", ((2, P), (3, Q)))
    one("algebra:minusHC2", "tridiagMinusHC(a)", P + P.dagger().times(num(-1)), pre)
    one("algebra:multiple2", "a*dcomp(2.,3.)", P.times(num(2, 3)), pre, "act(2,a,2,3);", ((2, P),))
    one("algebra:identity", "quantumoperator::identity(3)", Op((3,), {(i, i): ONE for i in range(3)}))
    # propagation
    w = lambda which, n: [amp(which, i) for i in range(n)]
    turning = lambda which, n: [(const(0), amp(which, i)[1]) for i in range(n)]
    for dim, k in ((3, 1), (4, 2)):
        for mask in (7, 2, 4):
            pre = "auto& a=%s; a.furnishWithFreqs(diag(50,%d));" % (C(0, dim, k, mask), dim)
            at = lambda t: tri(0, dim, k, mask, w(50, dim), t)
            job("propagate:%d:%d:%d" % (dim, k, mask), pre + "act(1,a,%d); a.propagate(2.); act(2,a,%d); a.propagate(2.); act(3,a,%d); a.propagate(5.); act(4,a,%d); a.propagate(0.); act(5,a,%d); a.propagate(2.); act(6,a,%d);" % ((dim,) * 6),
                (1, at(0)), (2, at(2)), (3, at(2)), (4, at(5)), (5, at(0)), (6, at(2)))
    dim = 3
    e = [scale(const(-1), z) for z in w(0, dim)]
    plain = tri(0, dim, 1, 6, e, 2)
    job("propagate:fromMain", "auto& a=*new Tridiagonal<1>(diag(0,3),1,diag(1,2),diag(2,2),true); act(1,a,3); a.propagate(2.); act(2,a,3);", (1, tri(0, dim, 1, 6)), (2, plain))
    job("propagate:none", "auto& a=%s; a.propagate(2.); act(1,a,3);" % C(0, 3, 1, 7), (1, tri(0, 3, 1, 7)))
    job("propagate:furnished", "auto& b=%s; auto& a=keep(furnishWithFreqs(b,diag(50,3))); a.propagate(2.); act(1,a,3); b.propagate(2.); act(2,b,3);" % C(0, 3, 1, 7), (1, tri(0, 3, 1, 7, w(50, 3), 2)), (2, tri(0, 3, 1, 7)))
    job("propagate:dagger", "auto& b=%s; b.furnishWithFreqs(turn(50,3)); auto& a=keep(b.dagger()); a.propagate(2.); act(1,a,3); b.propagate(2.); auto& c=keep(b.dagger()); act(2,c,3); c.propagate(5.); act(3,c,3);" % C(0, 3, 1, 7),
        (1, tri(0, 3, 1, 7, turning(50, 3), 2).dagger()), (2, tri(0, 3, 1, 7, turning(50, 3), 2).dagger()), (3, tri(0, 3, 1, 7, turning(50, 3), 5).dagger()))
    job("propagate:sum", "auto& b=%s; b.furnishWithFreqs(diag(50,3)); auto& c=%s; c.furnishWithFreqs(diag(50,3)); auto& d=%s; auto& a=keep(keep(b+c)+d); a.propagate(2.); act(1,a,3); auto& e=keep(d+b); e.propagate(2.); act(2,e,3);"
        % (C(0, 3, 1, 7), C(1, 3, 1, 6), C(2, 3, 0, 1)), (1, tri(0, 3, 1, 7, w(50, 3), 2) + tri(1, 3, 1, 6, w(50, 3), 2) + tri(2, 3, 1, 1)), (2, tri(0, 3, 1, 7, w(50, 3), 2) + tri(2, 3, 1, 1)))
    job("propagate:multiple", "auto& b=%s; b.furnishWithFreqs(diag(50,3)); auto& a=keep(-keep(b*dcomp(2.,3.))); a.propagate(2.); act(1,a,3);" % C(0, 3, 1, 7), (1, tri(0, 3, 1, 7, w(50, 3), 2).times(num(-2, -3))))
    for m0, m1, f0, f1 in ((7, 7, 1, 1), (6, 6, 1, 1), (1, 6, 0, 1), (6, 1, 1, 0), (1, 6, 1, 1), (6, 6, 1, 0), (6, 6, 0, 1), (7, 4, 1, 1)):
        a, b = C(0, 3, 1, m0), C(1, 2, 1, m1)
        f = ("a.furnishWithFreqs(diag(50,3));" if f0 else "") + ("b.furnishWithFreqs(diag(51,2));" if f1 else "")
        A2 = lambda t: tri(0, 3, 1, m0, w(50, 3) if f0 else None, t) * tri(1, 2, 1, m1, w(51, 2) if f1 else None, t)
        job("propagate:product:%d%d%d%d" % (m0, m1, f0, f1), "auto& a=%s; auto& b=%s; %s auto& t=keep(a*b); act(1,t,3,2); t.propagate(2.); act(2,t,3,2); t.propagate(5.); act(3,t,3,2); a.propagate(2.); b.propagate(2.); auto& s=keep(a*b);"
            "act(4,s,3,2); s.propagate(5.); act(5,s,3,2);" % (a, b, f), (1, A2(0)), (2, A2(2)), (3, A2(5)), (4, A2(2)), (5, A2(5)))
    for m in ((6, 1, 4), (1, 6, 1), (2, 7, 4)):
        x, y, z = C(0, 2, 1, m[0]), C(1, 3, 2, m[1]), C(2, 2, 1, m[2])
        A3 = lambda t: tri(0, 2, 1, m[0], w(50, 2), t) * tri(1, 3, 2, m[1], w(51, 3), t) * tri(2, 2, 1, m[2], w(52, 2), t)
        job("propagate:product:%d%d%d" % m, "auto& a=%s; auto& b=%s; auto& c=%s; a.furnishWithFreqs(diag(50,2)); b.furnishWithFreqs(diag(51,3)); c.furnishWithFreqs(diag(52,2)); auto& t=keep(keep(a*b)*c); t.propagate(2.); act(1,t,2,3,2);"
            "auto& s=keep(a*keep(b*c)); s.propagate(2.); act(2,s,2,3,2);" % (x, y, z), (1, A3(2)), (2, A3(2)))
    # projections and the like
    T = tri(0, 3, 1, 7)
    job("sigma:plain", "act(1,Sigma<1,0>(),2); act(2,Sigma<2,0>().dagger(),3);", (1, sig(1, 0, 2)), (2, sig(0, 2, 3)))
    job("sigma:product", "act(1,Sigma<1,0>()*keep(Sigma<0,1>()),2,2);", (1, sig(1, 0, 2) * sig(0, 1, 2)))
    job("sigma:productSame", "act(1,Sigma<1,0>()*keep(Sigma<2,0>()),2,3);", (1, sig(1, 0, 2) * sig(2, 0, 3)))
    job("sigma:first", "auto& t=%s; act(1,Sigma<0,1>()*t,2,3);" % C(0, 3, 1, 7), (1, sig(0, 1, 2) * T))
    job("sigma:second", "auto& t=%s; act(1,t*Sigma<0,1>(),3,2);" % C(0, 3, 1, 7), (1, T * sig(0, 1, 2)))
    job("sigma:three", "auto& t=%s; auto& s=keep(t*Sigma<1,0>()); act(1,Sigma<0,1>()*s,2,3,2);" % C(0, 3, 1, 7), (1, sig(0, 1, 2) * T * sig(1, 0, 2)))
    # refusals
    F3 = "a.furnishWithFreqs(num(%s));"
    refusal = {}

    def ref(name, body, why):
        jobs[name.replace(":", "_")] = PRE + body + " last(true);"
        refusal[name] = why

    two = "auto& a=%s; auto& b=%s; "
    ref("refused:difference", two % (C(0, 4, 1, 7), C(1, 4, 2, 7)) + "a+=b;", "sum of operators with different distances of the off-diagonals")
    ref("refused:differenceOff", two % (C(0, 4, 1, 2), C(1, 4, 2, 4)) + "a-=b;", "difference of operators with different distances of the off-diagonals")
    ref("refused:difference2", "auto& a=keep(%s*%s); auto& b=keep(%s*%s); a+=b;" % (C(0, 2, 1, 7), C(1, 4, 1, 7), C(2, 2, 1, 7), C(3, 4, 2, 7)), "sum of products with different distances of the off-diagonals in the second factor")
    for n, f, g in (("Last", "1.,2.,5.", "1.,2.,4."), ("All", "1.,2.,5.", "2.,4.,9."), ("First", "1.,2.,5.", "0.,2.,5.")):
        ref("refused:frequencies" + n, two % (C(0, 3, 1, 7), C(1, 3, 1, 7)) + "a.furnishWithFreqs(num(%s)); b.furnishWithFreqs(num(%s)); a+=b;" % (f, g), "sum of operators with different frequencies")
    ref("refused:times", two % (C(0, 3, 1, 7), C(1, 2, 1, 7)) + "a.furnishWithFreqs(diag(50,3)); a.propagate(2.); keep(a*b);", "direct product of operators at different times")
    ref("refused:timesSecond", two % (C(0, 3, 1, 7), C(1, 2, 1, 7)) + "a.propagate(2.); b.propagate(3.); keep(a*b);", "direct product of operators at different times")
    for n, z, k, m, p in (("main", 4, 1, 2, 0), ("mainPlus", 4, 1, 0, 2), ("pair", 0, 1, 2, 3), ("noDistance", 3, 0, 3, 0), ("noDistancePlus", 0, 0, 0, 3), ("tooLong", 3, 1, 3, 3)):
        ref("refused:" + n, "keep(Tridiagonal<1>(diag(0,%d),%d,diag(1,%d),diag(2,%d)));" % (z, k, m, p), "diagonals of sizes %d, %d, %d at distance %d" % (z, m, p, k))
    ok = {}
    for n, z, k, m, p in (("full", 4, 1, 3, 3), ("far", 4, 3, 1, 1), ("offOnly", 0, 2, 3, 3), ("mainOnly", 4, 0, 0, 0), ("upperOnly", 0, 1, 0, 3), ("mainUpper", 4, 2, 0, 2)):
        jobs["accepted_" + n] = PRE + "keep(Tridiagonal<1>(diag(0,%d),%d,diag(1,%d),diag(2,%d))); last(true);" % (z, k, m, p)
        ok["accepted:" + n] = "diagonals of sizes %d, %d, %d at distance %d" % (z, m, p, k)
    for n, body in (("diagonalSecond", two % (C(0, 4, 2, 7), C(1, 4, 0, 1)) + "a+=b;"), ("diagonalFirst", two % (C(0, 4, 0, 1), C(1, 4, 2, 7)) + "a+=b;"), ("sameFrequencies", two % (C(0, 3, 1, 7), C(1, 3, 1, 7)) +
            "a.furnishWithFreqs(num(1.,2.,5.)); b.furnishWithFreqs(num(1.,2.,5.)); a+=b;"), ("frequenciesOfOne", two % (C(0, 3, 1, 7), C(1, 3, 1, 7)) + "b.furnishWithFreqs(num(1.,2.,5.)); a+=b;"),
            ("sameTimes", two % (C(0, 3, 1, 7), C(1, 2, 1, 7)) + "a.propagate(2.); b.propagate(2.); keep(a*b);"), ("withOwnDagger", "auto& a=keep(%s*%s); keep(tridiagPlusHC(a));" % (C(0, 3, 1, 7), C(1, 2, 1, 7)))):
        jobs["accepted_" + n] = PRE + body + " last(true);"
        ok["accepted:" + n] = "operators that match"
    F = irw.flows(ctx, "w_trid.cc", jobs, size=8)
    desc = {"apply": "applying the operator adds its matrix times the vector", "algebra": "the result of the operation is the operator to be expected", "propagate": "off-diagonals are multiplied by their own phases, the main diagonal is left alone",
            "sigma": "the product acts as the direct product of its factors"}
    for n, exp in want.items():
        calls, how = F[n.replace(":", "_")]
        o = outs(calls)
        part = n.split(":")[0]
        where = "CPPQEDcore/quantumoperator/Sigma.h" if part == "sigma" else W
        if how.startswith("fault") or how == "throw":
            ctx.ob(n, desc[part], False, where, "an exception is thrown" if how == "throw" else how)
            continue
        if how.startswith("compile"):
            ctx.ob(n, desc[part], False if part == "sigma" and "Sigma.h" in how else None, where, how)
            continue
        for what, op in exp:
            compare(ctx, "%s:%d" % (n, what), desc[part], where, o.get(what), op.on(100, 101), how)
            compare(ctx, "%s:%d:argument" % (n, what), "the vector it is applied on is left alone", where, o.get(what + 1000), {(i, 0): amp(100, i) for i in range(op.n)}, how)
    for n, why in refusal.items():
        calls, how = F[n.replace(":", "_")]
        ctx.ob(n, "refused: " + why, True if how == "throw" and not calls else False if how == "end" or any(c == "last" for c, a in calls) else None, W, "no exception is thrown" if how == "end" else how)
    for n, why in ok.items():
        calls, how = F[n.replace(":", "_")]
        ctx.ob(n, "accepted: " + why, True if how == "end" else False if how == "throw" or how.startswith("fault") else None, W, how)
