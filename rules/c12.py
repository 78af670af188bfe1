"""C12 pure and mixed states through the common view, from the optimised intermediate representation of witness functions with undefined elements (exact polynomials): view (elements, diagonal and trace as seen through the
density-operator interface), mixed (making a density operator of a pure state, by every way there is), flat (deflate and inflate are inverse), part (partial traces), add (weighted dyads added), number (norms, overlap)."""
import itertools
from rules import irw
from rules.irw import amp, mat, conj, cmul, cadd, scale, compare, outs, ZERO
from sa.ir import const, sym, padd, pmul, fun

FLOOR = {"view": 12, "mixed": 8, "flat": 6, "part": 12, "add": 4, "number": 6}
ASSUME = ["floating-point arithmetic is regarded as exact", "what holds for the shapes examined, (3), (2,3), (2,2,3), (2,2,1,2), holds for all shapes of that rank"]
DIM = {1: (3,), 2: (2, 3), 3: (2, 2, 3), 4: (2, 2, 1, 2)}
W = "CPPQEDcore/quantumdata/"


def flat(idx, d):
    r = 0
    for i, n in zip(idx, d):
        r = r * n + i
    return r


def indices(d):
    return list(itertools.product(*[range(n) for n in d]))


def dyad(k, l, w=0, v=None):
    return cmul(amp(w, k), conj(amp(w if v is None else v, l)))


def full(n, f):
    return {(k, l): f(k, l) for k in range(n) for l in range(n)}


def vectors(R):
    for k in range(1, R):
        for v in itertools.permutations(range(R), k):
            yield v


def reduced(R, v, elem):
    d = DIM[R]
    dv = [d[a] for a in v]
    rest = [a for a in range(R) if a not in v]
    out = {}
    for i in indices(dv):
        for j in indices(dv):
            s = ZERO
            for m in indices([d[a] for a in rest]):
                x, y = [0] * R, [0] * R
                for a, k in zip(v, i):
                    x[a] = k
                for a, k in zip(v, j):
                    y[a] = k
                for a, k in zip(rest, m):
                    x[a] = y[a] = k
                s = cadd(s, elem(flat(x, d), flat(y, d)))
            out[(flat(i, dv), flat(j, dv))] = s
    return out


def check(ctx):
    jobs = {}
    for R in (1, 2, 3):
        jobs["view_pure%d" % R] = "witness::view<%d>(*witness::pure<%d>(0));" % (R, R)
        jobs["view_mixed%d" % R] = "witness::view<%d>(*witness::mixed<%d>(0));" % (R, R)
        for o in (0, 1):
            jobs["flat_pure%d_%d" % (R, o)] = "witness::flat<%d>(*witness::pure<%d>(0),%d);" % (R, R, o)
            jobs["flat_mixed%d_%d" % (R, o)] = "witness::flat<%d>(*witness::mixed<%d>(0,true),%d);" % (R, R, o)
        jobs["mixed%d" % R] = "witness::makeMixed<%d>();" % R
        jobs["takeover%d" % R] = "witness::takeOver<%d>();" % R
        jobs["add%d" % R] = "witness::addUp<%d>();" % R
        jobs["number%d" % R] = "witness::numbers<%d>();" % R
    part = {}
    for R in (2, 3, 4):
        for v in vectors(R):
            if R == 4 and not (ctx.tier == "thorough" or v in ((1,), (3, 0), (0, 1, 3), (3, 2, 1))):
                continue
            for kind in ("pure", "mixed"):
                n = "part_%s%d_%s" % (kind, R, "".join(map(str, v)))
                part[n] = (R, v, kind)
                jobs[n] = "witness::part<%d,tmptools::Vector<%s>>(*witness::%s<%d>(0));" % (R, ",".join(map(str, v)), kind, R)
    F = irw.flows(ctx, "w_data.cc", jobs)
    for R in (1, 2, 3):
        ctx.part(view, F, R)
        ctx.part(flats, F, R)
        ctx.part(mixed, F, R)
    for n, (R, v, kind) in part.items():
        ctx.part(parts, F, n, R, v, kind)


def size(R):
    n = 1
    for x in DIM[R]:
        n *= x
    return n


def view(ctx, F, R):
    n = size(R)
    for kind, f, w in (("pure", lambda k, l: dyad(k, l), "StateVector.h"), ("mixed", lambda k, l: mat(0, k, l), "DensityOperator.h")):
        calls, how = F["view_%s%d" % (kind, R)]
        o = outs(calls)
        compare(ctx, "view:%s%d:element" % (kind, R), "element (i,j) is that of the %s" % ("dyad" if kind == "pure" else "matrix"), W + w, o.get(0), full(n, f), how)
        compare(ctx, "view:%s%d:diagonal" % (kind, R), "the single index gives the real diagonal element", W + "LazyDensityOperator.h", o.get(1), {(k, k): (f(k, k)[0], const(0)) for k in range(n)}, how)
        t = const(0)
        for k in range(n):
            t = padd(t, f(k, k)[0])
        compare(ctx, "view:%s%d:trace" % (kind, R), "the trace is the sum of the diagonal", W + w, o.get(2), {(0, 0): (t, const(0))}, how)


def flats(ctx, F, R):
    n = size(R)
    for kind, f in (("pure", lambda k, l: dyad(k, l)), ("mixed", lambda k, l: mat(0, k, l, True))):
        for off in (0, 1):
            calls, how = F["flat_%s%d_%d" % (kind, R, off)]
            o = outs(calls)
            key = "flat:%s%d:%s" % (kind, R, "full" if off else "diagonal")
            got = list(o.get(3, {}))
            ctx.ob(key + ":size", "there are as many reals as independent ones in the matrix", None if not got else got == [(n * n if off else n, 0)], W + "LazyDensityOperator.h", "%s %s" % (got, how))
            want = full(n, f) if off else full(n, lambda k, l: f(k, k) if k == l else ZERO)
            compare(ctx, key, "restoring what was stored gives the matrix back", W + "DensityOperator.h", o.get(4), want, how)


def mixed(ctx, F, R):
    n = size(R)
    calls, how = F["mixed%d" % R]
    o = outs(calls)
    D = full(n, lambda k, l: dyad(k, l))
    for what, name, want in ((10, "constructed", D), (11, "assigned", D), (12, "densityOperatorize", D), (13, "dyad", full(n, lambda k, l: dyad(k, l, 0, 1)))):
        compare(ctx, "mixed:%d:%s" % (R, name), "the density operator made of a pure state is the dyad", W + "DensityOperator.h", o.get(what), want, how)
    calls, how = F["takeover%d" % R]
    compare(ctx, "mixed:%d:takeover" % R, "densityOperatorize of a Hermitian matrix gives the matrix", W + "DensityOperator.h", outs(calls).get(14), full(n, lambda k, l: mat(0, k, l, True)), how)
    calls, how = F["add%d" % R]
    o = outs(calls)
    w = sym("weight", 0)
    first = full(n, lambda k, l: cadd(mat(0, k, l), scale(w, dyad(k, l))))
    compare(ctx, "add:%d:weighted" % R, "the dyad is added with its weight", W + "StateVector.h", o.get(15), first, how)
    compare(ctx, "add:%d:unit" % R, "the dyad is added with unit weight", W + "StateVector.h", o.get(16), {ij: cadd(x, dyad(*ij)) for ij, x in first.items()}, how)
    calls, how = F["number%d" % R]
    o = outs(calls)
    s, b, t, p = const(0), ZERO, const(0), const(0)
    for k in range(n):
        s = padd(s, dyad(k, k)[0])
        b = cadd(b, cmul(conj(amp(0, k)), amp(1, k)))
        t = padd(t, mat(0, k, k)[0])
        for l in range(n):
            m = mat(0, k, l)
            p = padd(p, padd(pmul(m[0], m[0]), pmul(m[1], m[1])))
    for what, name, want in ((20, "norm", (fun("sqrt", s), const(0))), (21, "braket", b), (22, "trace", (t, const(0))), (23, "purity", (p, const(0)))):
        compare(ctx, "number:%d:%s" % (R, name), "the number is that of the elements", W, o.get(what), {(0, 0): want}, how)


def parts(ctx, F, n, R, v, kind):
    calls, how = F[n]
    o = outs(calls)
    f = (lambda k, l: dyad(k, l)) if kind == "pure" else (lambda k, l: mat(0, k, l))
    compare(ctx, "part:%s%d:%s" % (kind, R, "".join(map(str, v))), "the partial trace sums over all dummy indices with equal weight", W + "LazyDensityOperator.h", o.get(5), reduced(R, v, f), how)
    t = const(0)
    for k in range(size(R)):
        t = padd(t, f(k, k)[0])
    compare(ctx, "part:%s%d:%s:trace" % (kind, R, "".join(map(str, v))), "the traces of the slices add up to the trace", W + "LazyDensityOperator.h", o.get(6), {(0, 0): (t, const(0))}, how)
