"""abstract semantics of the environment of a quantum trajectory: the integrator, the system's rates, exact propagation and jumps become small symbols"""
from sa.q import *
from sa.val import *
from sa import val as V
from sa.interp import strip_targs

ODE = "cppqedutils::ode_engine::Base::step"
RATES = "structure::LiouvilleanAveragedCommonRanked::average"


class Env:
    def __init__(self, did, tri, arr):
        self.did, self.tri, self.arr = did, tri, arr      # field names inside the integrator, path of the array inside the state
        self.k = 0

    def inline(self, g):
        return g.q not in (ODE, RATES)

    def post(self, I, q, ob, ov, locs, vals, e, r):
        n = q.split("::")[-1]
        if q == ODE:
            self.k += 1
            k = self.k
            I.write(ob, ov, quiet=True)
            for nm, x in ((self.did, "dtDid"), (self.tri, "dtTry")):
                I.write((ob[0], ob[1] + ((".", nm),)), P(typed(mk("ev", x, k), "double")), quiet=True)
            I.write(locs[3], P(typed(mk("ev", "t", k), "double")), quiet=True)
            I.write(locs[4], P(typed(mk("ev", "psi", k), "std::complex<double>")), quiet=True)
            return None
        if q == RATES:
            a = vals[1]
            if locs[1] is not None:
                a = I.read((locs[1][0], locs[1][1] + self.arr))
            return mk("rates", cn(vals[0]), cn(a))
        if q == "blitz::Array::copy" and ov is not None:
            return ov
        if n == "actWithU_v":
            I.write(locs[1], P(typed(mk("U", cn(vals[0]), cn(vals[1]), cn(vals[2])), "std::complex<double>")), quiet=True)
        if n == "actWithJ_v":
            I.write(locs[1], P(typed(mk("J", cn(vals[0]), cn(vals[1]), cn(vals[2])), "std::complex<double>")), quiet=True)
        return None


def fix(n):
    """re-projects fields out of updated objects after a substitution"""
    memo = {}

    def go(x):
        if not hasattr(x, "op"):
            return x
        return V.subst(x, f)

    def f(x):
        if x.op == "fld":
            b = go(x.a[0])
            while b.op == "upd" and b.a[1][0] == ".":
                if b.a[1][1] == x.a[1]:
                    return b.a[2]
                b = b.a[0]
            if b is not x.a[0]:
                return typed(mk("fld", b, x.a[1]), TYPES.get(x.id))
        return None
    return go(n)


def at_entry(n):
    return fix(entry(n))


def normalised(v):
    """v == X/sqrt(sum |X|^2) for some X -> X, else None"""
    v = cn(v)
    if v.op != "poly" or len(v.a) != 1 or v.a[0][1] != (1, 0):
        return None
    m = v.a[0][0]
    for at, e in m:
        if at.op == "sum" and e == -1:
            for bt, e2 in m:
                if e2 == 1 and bt.op != "sqrt":
                    X = P(bt)
                    want = V.div(X, V.fsqrt(P(at)))
                    if want is v and any(cn(a) is cn(V.fnorm(X)) for a in at.a if hasattr(a, "op")):
                        return bt
    return None
