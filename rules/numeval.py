"""Numbers for interpreted values: every parameter of a maker gets a generic number, the state or density operator the method is handed is given, and closed values are evaluated, arrays element by element."""
import cmath
from sa.q import *
from sa.val import *
from sa import val as V


class Lost(Exception):
    pass


def rename(v, op="mp"):
    """the parameters of the maker, told apart from those of the method"""
    return V.subst(v, lambda x: mk(op, x.a[0]) if x.op == "p" else mk("lref", (op,) + x.a[0][1:], x.a[1]) if x.op == "lref" and isinstance(x.a[0], tuple) and x.a[0][:1] == ("p",) else None)


class Env:
    """leaf: node -> number (complex) or None; at: (node, indices) -> element of an array leaf or None; ldo(i, j): element of the density operator the method sees"""
    def __init__(self, leaf, at=None, ldo=None, dim=None):
        self.leaf, self.at_, self.ldo, self.dim = leaf, at, ldo, dim
        self.memo, self.idx = {}, {}

    def decide(self, v):
        """resolve the decisions in v"""
        def g(x):
            if x.op in ("eq0", "lt0"):
                z = self.val(x.a[0])
                return TRUE if (abs(z) < 1e-12 if x.op == "eq0" else complex(z).real < 0) else FALSE
            if x.op == "eq":
                a, b = self.val(x.a[0]), self.val(x.a[1])
                return TRUE if abs(a - b) < 1e-12 else FALSE
            return None
        return V.subst(v, g)

    def num(self, v):
        return self.val(self.decide(v))

    def val(self, n):
        if not self.idx and n in self.memo:
            return self.memo[n]
        r = self._val(n)
        if not self.idx:
            self.memo[n] = r
        return r

    def _val(self, n):
        if n.op == "poly":
            r = 0
            for mono, c in n.a:
                t = complex(c[0], c[1])
                for a, e in mono:
                    x = self.val(a)
                    if x == 0 and e < 0:
                        raise Lost("division by zero")
                    t *= x ** (float(e) if e != int(e) else int(e))
                r += t
            return r
        x = self.leaf(n)
        if x is not None:
            return x
        o = n.op
        if o in ("sqrt", "exp", "conj", "abs", "real", "imag", "sqr", "norm", "sin", "cos", "tan", "log"):
            z = complex(self.val(n.a[0]))
            return {"sqrt": cmath.sqrt, "exp": cmath.exp, "conj": lambda z: z.conjugate(), "abs": abs, "real": lambda z: z.real, "imag": lambda z: z.imag, "sqr": lambda z: z * z,
                    "norm": lambda z: abs(z) ** 2, "sin": cmath.sin, "cos": cmath.cos, "tan": cmath.tan, "log": cmath.log}[o](z)
        if o in ("max", "min"):
            return (max if o == "max" else min)(complex(self.val(a)).real for a in n.a)
        if o == "bop" and n.a[0] in ("<<", ">>"):
            a, b = (int(complex(self.val(x)).real) for x in n.a[1:3])
            return a << b if n.a[0] == "<<" else a >> b
        if o in ("cast", "conv") and isinstance(n.a[-1], N):
            return self.val(n.a[-1])
        if o == "idx":
            if n.a[0] in self.idx:
                return self.idx[n.a[0]]
            raise Lost("index " + show(n))
        if o == "sum" and len(n.a) == 3 and n.a[1].op == "bv":
            k = int(round(complex(self.val(self.decide(n.a[0]))).real))
            if not 0 <= k < 4096:
                raise Lost("sum")
            lev, r = n.a[1].a[0], 0
            old = dict(self.idx)
            for i in range(k):
                self.idx = dict(old)
                self.idx[lev] = i
                r += self.val(self.decide(n.a[2]))
            self.idx = old
            return r
        if o == "elem":
            return self.elem(n.a[0], [self.int(i) for i in n.a[1:]])
        if o == "ite":
            return self.val(self.decide(n))
        if o == "call" and str(n.a[0]).endswith("LazyDensityOperator::index") and self.ldo and len(n.a) == 5:
            i, j = (self.ints(x) for x in n.a[3:5])
            return self.ldo(i, j)
        if o == "call" and str(n.a[0]).endswith("LazyDensityOperator::trace_v") and self.ldo and self.dim:
            return sum(self.ldo((i,), (i,)) for i in range(self.dim))
        raise Lost(show(n)[:120])

    def int(self, n):
        z = complex(self.val(n))
        if abs(z - round(z.real)) > 1e-9:
            raise Lost("index " + show(n)[:80])
        return round(z.real)

    def ints(self, n):
        return tuple(self.int(x) for x in (n.a if n.op == "tuple" else [n]))

    def elem(self, b, ix):
        """element ix of array value b"""
        if b.op == "poly":
            if is_const(b):
                return complex(*cval(b)) if isinstance(cval(b), tuple) else complex(cval(b))
            r = 0
            for mono, c in b.a:
                t = complex(c[0], c[1])
                for a, e in mono:
                    t *= self.elem(a, ix) ** (float(e) if e != int(e) else int(e))
                r += t
            return r
        if self.at_:
            x = self.at_(b, ix)
            if x is not None:
                return x
        x = self.leaf(mk("elem", b, *[num(i) for i in ix]))
        if x is not None:
            return x
        if b.op == "upd":
            k = b.a[1]
            if not (isinstance(k, tuple) and k and k[0] == "["):
                raise Lost("update " + str(k)[:60])
            ks = k[1:]
            if len(ks) == 1 and isinstance(ks[0], N) and ks[0].op == "ctor" and "Range" in str(ks[0].a[0]) and len(ks[0].a) >= 3:
                lo, hi = self.int(ks[0].a[1]), self.int(ks[0].a[2])
                return self.elem(b.a[2], [ix[0] - lo]) if lo <= ix[0] <= hi else self.elem(b.a[0], ix)
            kk = []
            for x in ks:
                kk += list(self.ints(x))
            if kk == list(ix):
                return self.val(self.decide(b.a[2]))
            return self.elem(b.a[0], ix)
        if b.op == "tuple" and len(ix) == 1 and 0 <= ix[0] < len(b.a):
            return self.val(self.decide(b.a[ix[0]]))
        if b.op in ("conj", "sqrt", "exp", "abs", "real", "imag", "sqr", "norm"):
            z = complex(self.elem(b.a[0], ix))
            return {"sqrt": cmath.sqrt, "exp": cmath.exp, "conj": lambda z: z.conjugate(), "abs": abs, "real": lambda z: z.real, "imag": lambda z: z.imag, "sqr": lambda z: z * z, "norm": lambda z: abs(z) ** 2}[b.op](z)
        if b.op == "ctor":
            c = str(b.a[0])
            if c == "std::vector" and len(b.a) >= 3 and isinstance(b.a[1], N) and b.a[1].op == "iter":
                return self.elem(mk("elem", b.a[1].a[0], add(b.a[1].a[1], num(ix[0]))), []) if False else self.iterat(b.a[1], ix[0])
            if c == "std::vector" and len(b.a) >= 3:
                return self.val(b.a[2])
            if c in ("blitz::TinyVector", "blitz::Array") and len(b.a) == 2:
                return self.elem(b.a[1], ix)
        if b.op == "argout" and b.a[0] == "linalg::apply" and len(b.a) == 5 and len(ix) == 1 and self.dim:
            psi, d, M = b.a[2:]
            D = self.dim
            if M.op == "tuple" and len(M.a) == D * D:
                at = lambda j: self.val(M.a[ix[0] * D + j])
            elif M.op == "upd":
                at = lambda j: self.elem(M, [ix[0], j])
            else:
                raise Lost("matrix " + show(M)[:80])
            return self.elem(d, ix) + sum(at(j) * self.elem(psi, [j]) for j in range(D))
        if b.op in ("p", "mp", "new", "undef", "unk", "fold", "argout"):
            raise Lost("array " + show(b)[:100])
        return self.val(b)

    def any(self, v, D):
        """does the comparison hold for some element"""
        if v.op == "ewcmp":
            import operator as o
            f = {"!=": o.ne, "==": o.eq}.get(v.a[0])
            if f is None:
                raise Lost("comparison")
            return any(f(complex(self.elem(v.a[1], [i])), complex(self.elem(v.a[2], [i]))) for i in range(D))
        raise Lost(show(v)[:80])

    def iterat(self, it, k):
        off = self.int(it.a[1]) + k
        c = it.a[0]
        if c.op == "lref":
            r = c.a[0]
            if isinstance(r, tuple) and r and r[0] == "val":
                return self.elem(r[1], [off])
            n = mk(r[0], *r[1:]) if isinstance(r, tuple) else None
            if n is not None and not c.a[1]:
                return self.elem(n, [off])
        raise Lost("iterator " + show(it)[:80])
