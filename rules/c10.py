"""C10 value semantics, from the optimised intermediate representation of witness functions: objects with undefined elements are made, copied, moved, assigned, referenced and combined, one of them is then overwritten,
and what the others show (every element, as an exact polynomial in the inputs, and the shapes reported against those of the storage) is compared with what an independent, or a shared, value would be."""
from rules import irw
from rules.irw import amp, mat, cmul, cadd, scale, compare, outs, ZERO
from rules.c12 import DIM, flat, indices, size
from sa.ir import const, Poly
from fractions import Fraction

FLOOR = {"value": 40, "shape": 30}
ASSUME = ["floating-point arithmetic is regarded as exact", "what holds for the shapes examined, (3), (2,3), (2,2,3), holds for all shapes of that rank", "an object that was moved from is not used again"]
W = "CPPQEDcore/quantumdata/"
SCEN = ("copied", "assigned", "assignedSelf", "moved", "movedTo", "swapped", "referenced", "referring", "reshaped", "written", "summed", "added", "negated", "fresh")
TELL = {30: "the new object has the elements of the other", 31: "the other is left alone", 32: "the object takes what it is given", 33: "the object is left alone", 34: "the object takes what it is given",
        35: "the other is the same storage", 36: "the object is the same storage", 40: "the object has the elements of the other", 41: "the object has the elements of the other", 42: "the object takes what it is given",
        43: "assigning to a reference writes through", 44: "the second operand is left alone", 50: "the sum", 51: "the difference", 52: "the multiple", 53: "the quotient", 54: "the negative",
        61: "the direct product", 62: "a new object is zero, and has storage of its own", 63: "the elements in the order of the new axes"}


def elem(kind, w):
    return (lambda i, j: amp(w, i)) if kind == "StateVector" else (lambda i, j: mat(w, i, j))


def table(kind, n, f):
    return {(i, j): f(i, j) for i in range(n) for j in ([0] if kind == "StateVector" else range(n))}


def wanted(what, kind):
    e = [elem(kind, w) for w in range(3)]
    half, two = const(Fraction(1, 2)), const(2)
    which = {30: 0, 31: 0, 32: 1, 33: 1, 34: 2, 35: 1, 36: 2, 40: 0, 41: 1, 42: 2, 43: 1, 44: 1}
    if what in which:
        return e[which[what]]
    return {50: lambda i, j: cadd(e[0](i, j), e[1](i, j)), 51: lambda i, j: cadd(e[0](i, j), scale(const(-1), e[1](i, j))), 52: lambda i, j: scale(two, e[0](i, j)), 53: lambda i, j: scale(half, e[0](i, j)),
            54: lambda i, j: scale(const(-1), e[0](i, j)), 62: lambda i, j: ZERO}[what]


def check(ctx):
    jobs, info = {}, {}
    for kind in ("StateVector", "DensityOperator"):
        for R in (1, 2):
            for s in SCEN:
                n = "%s_%s%d" % (s, kind, R)
                jobs[n] = "witness::%s<%s<%d>>();" % (s, kind, R)
                info[n] = (s, kind, R)
        n = "transposed_%s2" % kind
        jobs[n] = "witness::transposed<%s<2>>();" % kind
        info[n] = ("transposed", kind, 2)
    for R in (1, 2):
        jobs["dyadic%d" % R] = "witness::dyadic<%d>();" % R
        info["dyadic%d" % R] = ("dyadic", "StateVector", R)
    for a, b in ((1, 1), (1, 2), (2, 1)):
        jobs["product%d%d" % (a, b)] = "witness::product<%d,%d>();" % (a, b)
    F = irw.flows(ctx, "w_data.cc", jobs, size=10)
    for n, (s, kind, R) in info.items():
        ctx.part(scenario, F[n], n, s, kind, R)
    for a, b in ((1, 1), (1, 2), (2, 1)):
        ctx.part(product, F["product%d%d" % (a, b)], a, b)


def shapes(ctx, key, where, calls, how, what=None):
    """per object shown: every axis"""
    per = {}
    for c, a in calls:
        if c == "shape":
            per.setdefault(a[0], []).append(a)
    for w in sorted(per):
        bad = [a for a in per[w] if a[2] != a[3]]
        lost = any(not isinstance(x, int) for a in per[w] for x in a)
        ctx.ob("shape:%s:%d" % (key, w), "the dimensions reported are those of the array", None if lost else not bad, where,
               "; ".join("%s is reported to be %s, but is %s" % ("the total" if a[1] < 0 else "dimension %d" % a[1], a[2], a[3]) for a in bad[:2]))
    return per


def scenario(ctx, F, n, s, kind, R):
    calls, how = F
    o = outs(calls)
    where = W + kind + ".h"
    if not o:
        ctx.ob("value:" + n, "what the objects show", False if how.startswith("fault") else None, where, how)
        return
    for what in sorted(o):
        if what == 63:
            continue
        k = "StateVector" if s == "dyadic" else kind
        both = s == "swapped" and what == 40 and all(x is not None and irw.same(x, wanted(41, k)(*ij)) for ij, L in o[what].items() for x in L)
        compare(ctx, "value:%s:%d%s" % (n, what, ":bothSecond" if both else ""), TELL[what], where, o[what], table(k, size(R), wanted(what, k)), how)
    if how.startswith("fault"):
        ctx.ob("value:%s:end" % n, "only memory of the objects is used", False, where, how)
    elif how != "end":
        ctx.ob("value:%s:end" % n, "the scenario is read to its end", None, where, how)
    if 63 in o:
        d = DIM[2]
        e = elem(kind, 0)
        t = {}
        for i in indices((d[1], d[0])):
            for j in (indices((d[1], d[0])) if kind == "DensityOperator" else [(0, 0)]):
                t[(flat(i, (d[1], d[0])), flat(j, (d[1], d[0])))] = e(flat(i[::-1], d), flat(j[::-1], d))
        compare(ctx, "value:%s:63" % n, TELL[63], where, o[63], t, how)
    shapes(ctx, n, where, calls, how)


def product(ctx, F, a, b):
    calls, how = F
    o = outs(calls)
    m = size(b)
    key = "product%d%d" % (a, b)
    compare(ctx, "value:%s:61" % key, TELL[61], W + "StateVector.h", o.get(61), {(i, 0): cmul(amp(0, i // m), amp(1, i % m)) for i in range(size(a) * m)}, how)
    compare(ctx, "value:%s:31" % key, TELL[31], W + "StateVector.h", o.get(31), {(i, 0): amp(0, i) for i in range(size(a))}, how)
    compare(ctx, "value:%s:44" % key, TELL[44], W + "StateVector.h", o.get(44), {(i, 0): amp(1, i) for i in range(m)}, how)
    shapes(ctx, key, W + "StateVector.h", calls, how)
