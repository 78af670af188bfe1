"""matrix-valued abstract semantics: array operations of a density-operator evolution become words in a free algebra with conjugation and transposition"""
import re
from sa.q import *
from sa.val import *
from sa import val as V
from sa.interp import mtr

ODE = "cppqedutils::ode_engine::Base::step"
TWICE = "linalg::calculateTwoTimesRealPartOfSelf"
RANGE = "blitzplusplus::vfmsi::fullRange"


def arank(t):
    m = re.search(r",\s*(\d+)\s*>\s*$", t.strip())
    return int(m.group(1)) if m else None


def sym(name, *a):
    return typed(mk("M", name, *a), "std::complex<double>")


def mmul(op, x):
    return typed(mk("mmul", op, x), "std::complex<double>")


class NotLinear(Exception):
    pass


def nf(v):
    """matrix value -> {word: coefficient}; a word is a tuple of letters (node, conjugated, transposed)"""
    if v.op == "poly":
        out = {}
        for m, c in v.a:
            mats = [(a, e) for a, e in m if ismat(a)]
            scal = tuple((a, e) for a, e in m if not ismat(a))
            if len(mats) > 1 or mats and mats[0][1] != 1:
                raise NotLinear(show(v))
            t = V._poly({scal: c})
            if not mats:
                if V.is_const(t) and const_int(t) == 0:
                    continue
                raise NotLinear("scalar term " + show(t))
            for w, c2 in nf(mats[0][0]).items():
                out[w] = add(out.get(w, ZERO), mul(t, c2))
        return {w: c for w, c in out.items() if c is not ZERO}
    if v.op == "M":
        return {((v, False, False),): num(1)}
    if v.op == "mmul":
        out = {}
        for w1, c1 in nf(v.a[0]).items():
            for w2, c2 in nf(v.a[1]).items():
                out[w1 + w2] = add(out.get(w1 + w2, ZERO), mul(c1, c2))
        return {w: c for w, c in out.items() if c is not ZERO}
    if v.op == "mtr":
        return {tuple((n, c, not t) for n, c, t in reversed(w)): k for w, k in nf(v.a[0]).items()}
    if v.op == "conj":
        return {tuple((n, not c, t) for n, c, t in w): V.conj(k) for w, k in nf(v.a[0]).items()}
    if v.op == "ite":
        raise NotLinear("conditional " + show(v.a[0]))
    raise NotLinear(show(v)[:120])


def ismat(a):
    return a.op in ("M", "mmul", "mtr") or a.op == "conj" and ismat0(a.a[0])


def ismat0(v):
    return any(ismat(x) for x in subnodes(v) if x.op in ("M", "mmul", "mtr"))


def showw(d):
    def let(l):
        n, c, t = l
        s = n.a[0] + ("(%s)" % ",".join(show(x)[:60] for x in n.a[1:]) if len(n.a) > 1 else "")
        return s + ("†" if c and t else "*" if c else "ᵀ" if t else "")
    return " + ".join("%s %s" % (show(k)[:40], "·".join(let(l) for l in w)) for w, k in sorted(d.items(), key=str)) or "0"


def dagger(d):
    return {tuple((n, not c, not t) for n, c, t in reversed(w)): V.conj(k) for w, k in d.items()}


def plus(a, b):
    out = dict(a)
    for w, k in b.items():
        out[w] = add(out.get(w, ZERO), k)
    return {w: k for w, k in out.items() if k is not ZERO}


class Env:
    """environment of a master-equation step"""
    def __init__(self):
        self.k = 0
        self.lams = []

    def inline(self, g):
        return g.q not in (ODE, RANGE, TWICE, "blitzplusplus::binaryArray", "quantumdata::DensityOperator::matrixView") and not (g.q.startswith("quantumdata::DensityOperator") and g.name in ("renorm", "norm"))

    def view(self, I, loc, transposed=False):
        return I.newview(mk("lref", *loc), transposed)

    def derivs(self, I, vals, locs):
        """the right-hand side handed to the integrator, applied to symbols"""
        st, tr, ex, pc = dict(I.st), I.tr, I.exits, I.pc
        I.tr, I.exits = [], []
        r, d = I.temp(P(sym("rho")), "rho"), I.temp(P(sym("old")), "drhodt")
        t = P(typed(mk("ev", "tau"), "double"))
        I.call_value(vals[2], None, 0, "void", argvals=[r, d, t])
        out = {"rho": I.read(r), "d": I.read(d), "tr": I.tr, "root": d[0], "dt": cn(vals[0]), "t": locs[3], "y": locs[4], "tau": t}
        I.st, I.tr, I.exits, I.pc = st, tr, ex, pc
        return out

    def post(self, I, q, ob, ov, locs, vals, e, r):
        n = q.split("::")[-1]
        if q == ODE:
            self.k += 1
            self.lams.append(self.derivs(I, vals, locs))
            I.write(locs[3], P(typed(mk("ev", "t", self.k), "double")), quiet=True)
            I.write(locs[4], P(sym("ev", num(self.k))), quiet=True)
            return None
        if q == RANGE:
            ta = str(e.x["callee"].get("ta", ""))
            side = "Right" if "vfmsi::Right" in ta else "Left" if "vfmsi::Left" in ta else None
            if side is None or locs[0] is None:
                return None
            l = mk("lref", *locs[0])
            if I.views:
                l = I.newview(l, side == "Right")
            return mk("slices", l)
        if n == "combine" and q.startswith("boost::"):
            if all(v.op == "slices" for v in vals):
                return mk("zip", *vals)
        if n in ("binaryArray", "matrixView"):
            l = locs[0] if n == "binaryArray" else None
            if n == "matrixView":
                l = (ob[0], ob[1] + ((".", "quantumdata::ArrayBase::arrayLow_"),))
            if l is not None:
                return mk("lref", *l)
        if q == TWICE and locs[0] is not None:
            v = vals[0]
            I.write(locs[0], add(cn(v), P(typed(mk("conj", mtr(unp(cn(v)))), "std::complex<double>"))), quiet=True)
        if q == "blitz::Array::transposeSelf":
            rank = arank(e.x["callee"].get("c", ""))
            p = [const_int(cn(a)) for a in vals][:rank]
            k = len(p) // 2
            if None in p or p != list(range(k, 2 * k)) + list(range(k)):
                I.write(ob, mk("unk", "transpose"), quiet=True)
            elif ob[1] and ob[1][-1][0] == "~":
                u = ob[1][-1][1]
                cur = I.st.get(("view", u))
                I.write(ob, ov, quiet=True)
                I.st[("view", u)] = FALSE if cur is TRUE else TRUE
            else:
                I.write(ob, mtr(unp(cn(ov))), quiet=True)
        if q == "blitz::Array::copy" and ov is not None:
            return ov
        if n == "renorm" and ob is not None:
            l = (ob[0], ob[1] + ((".", "quantumdata::ArrayBase::arrayLow_"),))
            old = e.x["objval"]
            base = I.project(old, (".", "quantumdata::ArrayBase::arrayLow_"))
            I.write(ob, old, quiet=True)
            I.write(l, P(sym("renorm", base)), quiet=True)
        if n == "actWithU_v":
            I.write(locs[1], P(mmul(sym("U", cn(vals[0]), cn(vals[2])), vals[1])), quiet=True)
        if n == "actWithJ_v":
            I.write(locs[1], P(mmul(sym("J", cn(vals[0]), cn(vals[2])), vals[1])), quiet=True)
        if n == "addContribution_v":
            I.write(locs[2], add(cn(vals[2]), P(mmul(sym("H", cn(vals[0]), cn(vals[3])), vals[1]))), quiet=True)
        if n == "actWithSuperoperator_v":
            I.write(locs[2], add(cn(vals[2]), P(sym("S", cn(vals[0]), vals[1], cn(vals[3])))), quiet=True)
        return None
