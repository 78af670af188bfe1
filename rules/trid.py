"""Values of tridiagonal operators as index functions. An operator of one degree of freedom is main(i)|i><i| + minus(i)|i+k><i| + plus(i)|i><i+k|, each a polynomial in the blitz index placeholder, with the
function whose differences are its interaction-picture frequencies; one of several degrees of freedom is a sum of products of such diagonals, one index per degree of freedom. Sums, multiples, conjugates
and direct products of such values are taken as the operator algebra (C19) defines them."""
from sa.val import *
from sa import val as V

T = "quantumoperator::Tridiagonal"
IDX = "blitz::tensor::i"
I0 = mk("g", IDX)
typed(I0, "int")
for _k in range(1, 9):
    typed(mk("g", IDX + str(_k)), "int")


class Lost(Exception):
    pass


FLIP = {"0": "0", "-": "+", "+": "-"}


class Tri:
    """d: tuple of '0' (main), '-' (|n+k><n|), '+' (|n><n+k|) -> coefficient; k, freq: per degree of freedom"""
    def __init__(self, d=None, k=(None,), freq=(None,)):
        self.d = {a: c for a, c in (d or {}).items() if c is not ZERO}
        self.k, self.freq = tuple(k), tuple(freq)

    def get(self, key):
        return self.d.get(tuple(key), ZERO)

    main = property(lambda s: s.get("0"))
    minus = property(lambda s: s.get("-"))
    plus = property(lambda s: s.get("+"))

    def __str__(self):
        return "; ".join("%s: %s" % ("".join(a), show(c)) for a, c in sorted(self.d.items())) + "; k " + ",".join(show(x) if x is not None else "-" for x in self.k) + \
            "; frequencies of " + ",".join(show(x) if x is not None else "-" for x in self.freq)


def idx(k=0):
    return P(mk("g", IDX + (str(k) if k else "")))


def arr(v):
    """a diagonal given to the constructor"""
    if v.op == "new" and str(v.a[0]).startswith("blitz::"):
        return ZERO
    if v.op == "ctor" and v.a[0] == "blitz::Array":
        if len(v.a) == 2:
            return arr(v.a[1])
        raise Lost("array " + show(v)[:80])
    if v.op == "obj":
        raise Lost("array " + show(v)[:80])
    return V.subst(v, lambda x: ZERO if x.op == "g" and str(x.a[0]).startswith(T) and str(x.a[0]).endswith("::empty") else None)


def scale(t, c):
    return Tri({a: mul(c, x) for a, x in t.d.items()}, t.k, t.freq)


def dagger(t):
    return Tri({tuple(FLIP[y] for y in a): conj(x) for a, x in t.d.items()}, t.k, t.freq)


def plus(a, b):
    if not a.d and all(x is None for x in a.k) and len(a.k) != len(b.k):
        return b
    if len(a.k) != len(b.k):
        raise Lost("sum of operators of different rank")
    k = []
    for x, y in zip(a.k, b.k):
        if x is not None and y is not None and sub(x, y) is not ZERO:
            raise Lost("differences %s and %s" % (show(x), show(y)))
        k.append(y if x is None else x)
    d = dict(a.d)
    for q, c in b.d.items():
        d[q] = add(d.get(q, ZERO), c)
    return Tri(d, k, [y if x is None else x for x, y in zip(a.freq, b.freq)])


def shift(c, n):
    return V.subst(c, lambda x: idx(n + int(x.a[0][len(IDX):] or 0)) if x.op == "g" and str(x.a[0]).startswith(IDX) else None)


def product(a, b):
    n = len(a.k)
    return Tri({p + q: mul(x, shift(y, n)) for p, x in a.d.items() for q, y in b.d.items()}, a.k + b.k, a.freq + b.freq)


def istrid(n):
    return n.op == "ctor" and n.a[0] == T or n.op in ("call", "after") and str(n.a[0]).startswith(T + "::")


def tri(n):
    if n.op == "ite":
        raise Lost("undecided condition " + show(n)[:120])
    if n.op == "poly":
        r = Tri()
        for mono, cc in n.a:
            hits = [(a, e) for a, e in mono if istrid(a)]
            if len(hits) != 1 or hits[0][1] != 1:
                raise Lost("no single operator in " + show(n)[:120])
            s = num(*cc)
            for a, e in mono:
                if not istrid(a):
                    s = mul(s, ipow(P(a), e))
            r = plus(r, scale(tri(hits[0][0]), s))
        return r
    if n.op == "ctor" and n.a[0] == T:
        a = n.a[1:]
        if not a:
            return Tri()
        op = lambda x: istrid(x) or x.op in ("poly", "ite") and any(istrid(y) for y in subnodes(x))
        if len(a) == 1 and op(a[0]):
            return tri(a[0])
        if len(a) == 2 and op(a[0]) and op(a[1]):
            return product(tri(a[0]), tri(a[1]))
        main = arr(a[0])
        k = a[1] if len(a) > 1 else ZERO
        mi = arr(a[2]) if len(a) > 2 else ZERO
        pl = arr(a[3]) if len(a) > 3 else ZERO
        f = a[4] if len(a) > 4 else FALSE
        ks = (None if k is ZERO else k,)
        if f not in (FALSE, ZERO):
            if f in (TRUE, ONE):
                return Tri({("-",): mi, ("+",): pl}, ks, (neg(main),))
            raise Lost("flag " + show(f)[:60])
        return Tri({("0",): main, ("-",): mi, ("+",): pl}, ks)
    if n.op in ("call", "after"):
        f = n.a[0].split("::")[-1]
        args = [x for x in n.a[1:] if isinstance(x, N)]
        if f in ("dagger", "hermitianConjugate") and len(args) == 1:
            return dagger(tri(args[0]))
        if f == "furnishWithFreqs" and len(args) == 2:
            t = tri(args[0])
            if len(t.k) != 1:
                raise Lost("frequencies of a composite operator")
            return Tri(t.d, t.k, (arr(args[1]),))
        if f in ("operator+=", "operator-=") and len(args) == 2:
            return plus(tri(args[0]), tri(args[1]) if f == "operator+=" else scale(tri(args[1]), num(-1)))
        if f == "operator-" and len(args) == 1:
            return scale(tri(args[0]), num(-1))
        if f == "operator+" and len(args) == 1:
            return tri(args[0])
    raise Lost("operator value " + show(n)[:120])


def keep(fn):
    """do not look into the operator algebra itself"""
    return not (fn.q or "").startswith(T)
