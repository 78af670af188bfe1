"""Value domain of the analysis: hash-consed value-graph nodes with normal forms.

Numbers are polynomials over interned atoms with Gaussian-rational coefficients (sums of products, exp() merged,
sqrt() split, conj() distributed); booleans and joined values are ordered decision diagrams over atomic conditions, so two
pieces of code that compute the same thing in a different style get the same node.  Nothing here runs the program."""
from fractions import Fraction
import itertools

_table = {}
_ids = itertools.count()
TYPES = {}   # node id -> C++ type string (for atoms)


class N:
    __slots__ = ("op", "a", "id", "tops", "_h")

    def __init__(self, op, a):
        self.op = op
        self.a = a
        self.id = next(_ids)
        self.tops = None

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *a):
    k = (op, a)
    n = _table.get(k)
    if n is None:
        n = N(op, a)
        _table[k] = n
    return n


TRUE = mk("true")
FALSE = mk("false")
NULL = mk("null")
VOID = mk("void")

# ------------------------------------------------------------------ polynomials
F0, F1 = Fraction(0), Fraction(1)


def _poly(terms):
    items = tuple(sorted(((m, c) for m, c in terms.items() if c != (F0, F0)), key=lambda mc: tuple((x[0].id, x[1]) for x in mc[0])))
    return mk("poly", *items)


def num(x, im=0):
    x = Fraction(x)
    im = Fraction(im)
    return _poly({(): (x, im)})


ZERO = num(0)
ONE = num(1)
IMAG = num(0, 1)
HALF = num(Fraction(1, 2))


def cmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def cinv(a):
    d = a[0] * a[0] + a[1] * a[1]
    return (a[0] / d, -a[1] / d)


def is_const(p):
    return p.op == "poly" and (p.a == () or (len(p.a) == 1 and p.a[0][0] == ()))


def cval(p):
    """Gaussian rational value of a constant polynomial"""
    if p.a == ():
        return (F0, F0)
    return p.a[0][1]


def const_int(p):
    if p is None:
        return None
    if p is TRUE:
        return 1
    if p is FALSE:
        return 0
    if p.op == "poly" and is_const(p):
        c = cval(p)
        if c[1] == 0 and c[0].denominator == 1:
            return int(c[0])
    return None


def P(n):
    """coerce a leaf value to polynomial"""
    if n.op == "poly":
        return n
    if n is TRUE:
        return ONE
    if n is FALSE or n.op == "null":
        return ZERO
    return _poly({((n, 1),): (F1, F0)})


def _monomul(m1, m2):
    """-> (coeff poly or None, mono) ; handles exp merge and sqrt squares"""
    d = {}
    for at, e in m1:
        d[at] = d.get(at, 0) + e
    for at, e in m2:
        d[at] = d.get(at, 0) + e
    extra = None
    exps = [(at, e) for at, e in d.items() if at.op == "exp" and e != 0]
    if len(exps) > 1 or (exps and exps[0][1] != 1):
        s = ZERO
        for at, e in exps:
            s = add(s, mul(num(e), at.a[0]))
            del d[at]
        ex = fexp(s)
        extra = ex
    for at in list(d):
        e = d[at]
        if at.op == "sqrt" and (e >= 2 or e <= -1):
            q = e // 2
            r = e - 2 * q
            if r:
                d[at] = r
            else:
                del d[at]
            f = ipow(at.a[0], q)
            extra = f if extra is None else mul(extra, f)
    mono = tuple(sorted(((at, e) for at, e in d.items() if e != 0), key=lambda x: x[0].id))
    return extra, mono


def add(a, b):
    return lift(_add, a, b)


def _add(a, b):
    a, b = P(a), P(b)
    t = dict(a.a)
    for m, c in b.a:
        o = t.get(m, (F0, F0))
        t[m] = (o[0] + c[0], o[1] + c[1])
    return _poly(t)


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    return lift(_mul, a, b)


MAXTERMS = 4000


def _mul(a, b):
    a, b = P(a), P(b)
    if len(a.a) * len(b.a) > MAXTERMS:
        return _poly({((mk("bigmul", a, b), 1),): (F1, F0)})
    acc = ZERO
    t = {}
    for m1, c1 in a.a:
        for m2, c2 in b.a:
            extra, m = _monomul(m1, m2)
            c = cmul(c1, c2)
            if extra is None:
                o = t.get(m, (F0, F0))
                t[m] = (o[0] + c[0], o[1] + c[1])
            else:
                acc = _add(acc, _mul(_poly({m: c}), extra))
    r = _poly(t)
    return r if acc is ZERO else _add(r, acc)


def ipow(a, k):
    if k < 0:
        return inv(ipow(a, -k))
    r = ONE
    for _ in range(k):
        r = mul(r, a)
    return r


def inv(a):
    return lift(_inv, a)


def _inv(a):
    a = P(a)
    if a.a == ():
        return P(mk("divzero"))
    if len(a.a) == 1:
        m, c = a.a[0]
        r = _poly({(): cinv(c)})
        for at, e in m:
            if at.op == "exp":
                r = _mul(r, fexp(mul(num(-e), at.a[0])))
            elif at.op == "inv" and e > 0:
                r = _mul(r, ipow(at.a[0], e))
            elif at.op == "sqrt":
                r = _mul(r, _mul(ipow(at, e), ipow(_inv(at.a[0]), e)))
            else:
                r = _mul(r, _poly({((at, -e),): (F1, F0)}))
        return r
    lead = a.a[0][1]
    monic = _mul(_poly({(): cinv(lead)}), a)
    return _mul(_poly({(): cinv(lead)}), P(mk("inv", monic)))


def div(a, b):
    return lift(_div, a, b)


def _div(a, b):
    a, b = P(a), P(b)
    if a is b and b.a != ():
        return ONE
    if len(b.a) > 1 and len(a.a) == len(b.a):
        k = cmul(a.a[0][1], cinv(b.a[0][1]))
        q = _poly({(): k})
        if _mul(q, b) is a:
            return q
    return _mul(a, _inv(b))


def fexp(a):
    def f(x):
        x = P(x)
        if x.a == ():
            return ONE
        return P(mk("exp", x))
    return lift(f, a)


def fsqrt(a):
    def f(x):
        x = P(x)
        if is_const(x):
            c = cval(x)
            if c[1] == 0 and c[0] >= 0:
                n, d = c[0].numerator, c[0].denominator
                rn, rd = _isq(n), _isq(d)
                if rn is not None and rd is not None:
                    return num(Fraction(rn, rd))
                if n * d < 10 ** 12:
                    m, s, k = n * d, 1, 2
                    while k * k <= m and k < 1000:
                        while m % (k * k) == 0:
                            m //= k * k
                            s *= k
                        k += 1
                    return mul(num(Fraction(s, d)), P(mk("sqrt", num(m))))
            return P(mk("sqrt", x))
        if len(x.a) == 1:
            m, c = x.a[0]
            r = fsqrt(_poly({(): c}))
            for at, e in m:
                if e % 2 == 0 and is_real(at):
                    r = mul(r, fabs_(ipow(P(at), e // 2)))
                elif e == 1:
                    r = mul(r, P(mk("sqrt", P(at))))
                elif e == -1:
                    r = mul(r, _poly({((mk("sqrt", P(at)), 1), (at, -1)) if mk("sqrt", P(at)).id < at.id else ((at, -1), (mk("sqrt", P(at)), 1)): (F1, F0)}))
                else:
                    return P(mk("sqrt", x))
            return r
        lead = x.a[0][1]
        # pull the (real positive) content out
        if all(c[1] == 0 for _, c in x.a):
            import math
            g = None
            for _, c in x.a:
                v = abs(c[0])
                g = v if g is None else Fraction(math.gcd(g.numerator * v.denominator, v.numerator * g.denominator), g.denominator * v.denominator)
            if g not in (None, 1):
                return mul(fsqrt(num(g)), P(mk("sqrt", mul(num(1 / g), x))))
        return P(mk("sqrt", x))
    return lift(f, a)


def _isq(n):
    import math
    r = math.isqrt(n)
    return r if r * r == n else None


def is_real(at):
    if at.op in ("conj",):
        return is_real(at.a[0])
    if at.op in ("idx", "abs", "trunc", "floor", "sin", "cos", "log", "atan", "size", "dim", "len"):
        return at.op != "sin" and at.op != "cos" or all_real(at.a[0])
    if at.op == "sqrt":
        return all_real(at.a[0])
    if at.op in ("exp", "inv"):
        return all_real(at.a[0])
    if at.op == "sum":
        return all_real(at.a[-1])
    t = TYPES.get(at.id)
    if t is not None:
        return "complex" not in t and ("double" in t or "int" in t or "long" in t or "float" in t or "bool" in t or "size_t" in t or "unsigned" in t)
    return False


def all_real(p):
    p = P(p) if p.op != "ite" else p
    if p.op == "ite":
        return all_real(p.a[1]) and all_real(p.a[2])
    return all(c[1] == 0 and all(is_real(at) for at, _ in m) for m, c in p.a)


def conj(a):
    return lift(_conj, a)


def _conj(a):
    a = P(a)
    r = ZERO
    for m, c in a.a:
        t = _poly({(): (c[0], -c[1])})
        for at, e in m:
            if is_real(at):
                f = ipow(P(at), e) if at.op != "exp" else ipow(P(at), e)
            elif at.op == "conj":
                f = ipow(P(at.a[0]), e)
            elif at.op == "exp":
                f = fexp(mul(num(e), conj(at.a[0])))
            elif at.op == "inv":
                f = ipow(inv(conj(at.a[0])), e)
            else:
                f = ipow(P(mk("conj", at)), e)
            t = mul(t, f)
        r = add(r, t)
    return r


def freal(a):
    return mul(HALF, add(a, conj(a)))


def fimag(a):
    return mul(num(0, Fraction(-1, 2)), sub(a, conj(a)))


def fnorm(a):
    return mul(a, conj(a))


def fabs_(a):
    def f(x):
        x = P(x)
        if is_const(x):
            c = cval(x)
            if c[1] == 0:
                return num(abs(c[0]))
        if x.a and x.a[0][1][0] < 0:
            x = _mul(num(-1), x)
        if x.a and x.a[0][1][1] == 0 and x.a[0][1][0] not in (0, 1):
            k = abs(x.a[0][1][0])
            return _mul(num(k), f(_mul(num(1 / k), x)))
        if len(x.a) == 1 and len(x.a[0][0]) == 1 and x.a[0][0][0][0].op == "abs":
            return x
        return P(mk("abs", x))
    return lift(f, a)


def fun1(name, a):
    def f(x):
        x2 = P(x)
        if name in ("sin",) and x2.a and x2.a[0][1][0] < 0 and x2.a[0][1][1] == 0:
            return mul(num(-1), P(mk("sin", _mul(num(-1), x2))))
        if name in ("cos",) and x2.a and x2.a[0][1][0] < 0 and x2.a[0][1][1] == 0:
            x2 = _mul(num(-1), x2)
        if x2.a == () and name in ("sin", "sinh", "tan", "atan"):
            return ZERO
        if x2.a == () and name in ("cos", "cosh"):
            return ONE
        return P(mk(name, x2))
    return lift(f, a)


# ------------------------------------------------------------------ decision diagrams
def _top(n):
    return n.a[0] if n.op == "ite" else None


def _cof(n, c, b):
    if n.op == "ite" and n.a[0] is c:
        return n.a[1] if b else n.a[2]
    return n


def _mkite(c, h, l):
    if h is l:
        return h
    return mk("ite", c, h, l)


_lift_memo = {}
MAXLIFT = 20000
_liftcount = 0


def lift(f, *args):
    """apply f leaf-wise over the decision diagrams of its arguments"""
    tops = [n.a[0] for n in args if n.op == "ite"]
    if not tops:
        return f(*args)
    k = (f.__qualname__ if "<locals>" not in f.__qualname__ else id(f), args)
    if "<locals>" not in f.__qualname__ and k in _lift_memo:
        return _lift_memo[k]
    c = min(tops, key=lambda n: n.id)
    h = lift(f, *[_cof(n, c, True) for n in args])
    l = lift(f, *[_cof(n, c, False) for n in args])
    r = _mkite(c, h, l)
    if "<locals>" not in f.__qualname__:
        _lift_memo[k] = r
    return r


_ite_memo = {}


def ite(c, a, b):
    """c: boolean diagram (leaves TRUE/FALSE)"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    k = (c, a, b)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    if c.op != "ite":
        c = tobool(c)
        if c.op != "ite":
            return ite(c, a, b)
    tops = [n.a[0] for n in (c, a, b) if n.op == "ite"]
    t = min(tops, key=lambda n: n.id)
    r = _mkite(t, ite(_cof(c, t, True), _cof(a, t, True), _cof(b, t, True)), ite(_cof(c, t, False), _cof(a, t, False), _cof(b, t, False)))
    _ite_memo[k] = r
    return r


ASSUME = {}       # condition atoms fixed for the current configuration


def batom(at):
    if ASSUME:
        d = ASSUME.get(at)
        if d is None and "fn" in ASSUME:
            d = ASSUME["fn"](at)
        if d is not None:
            return d
    return mk("ite", at, TRUE, FALSE)


def bnot(a):
    return ite(tobool(a), FALSE, TRUE)


def band(a, b):
    return ite(tobool(a), tobool(b), FALSE)


def bor(a, b):
    return ite(tobool(a), TRUE, tobool(b))


def tobool(a):
    def f(x):
        if x in (TRUE, FALSE):
            return x
        if x.op == "null":
            return FALSE
        if x.op == "poly":
            if is_const(x):
                return FALSE if x.a == () else TRUE
            if len(x.a) == 1 and len(x.a[0][0]) == 1 and x.a[0][0][0][1] == 1:
                at = x.a[0][0][0][0]
                t = TYPES.get(at.id, "")
                if "bool" in t and "(" not in t:
                    return batom(at)
                if t and not _numeric_type(t):
                    return batom(mk("nonnull", at))
            return bnot_leaf(eq0(x))
        if x.op in ("ptr", "lref", "obj", "str", "lam"):
            return TRUE
        t = TYPES.get(x.id, "")
        if "bool" in t and "(" not in t:
            return batom(x)
        if t and _numeric_type(t):
            return tobool(P(x))
        return batom(mk("nonnull", x)) if t and "*" in t or "_ptr" in t else batom(x)
    return lift(f, a)


def _numeric_type(t):
    t = t.replace("const ", "").strip(" &")
    return t in ("int", "double", "unsigned int", "unsigned long", "long", "float", "size_t", "short", "char", "unsigned char", "long long", "unsigned long long", "std::complex<double>", "bool")


def bnot_leaf(x):
    return ite(x, FALSE, TRUE)


def _scale(p):
    """monic by positive real scaling"""
    if not p.a:
        return p, 1
    c = p.a[0][1]
    if c[0] != 0 and c[1] == 0:
        return _mul(num(1 / abs(c[0])), p), (1 if c[0] > 0 else -1)
    return p, 1


def eq0(p):
    def f(x):
        x = P(x)
        if is_const(x):
            return TRUE if x.a == () else FALSE
        # c*m^k == 0  <=>  m == 0
        q, s = _scale(x)
        if s < 0:
            q = _mul(num(-1), q)
        if len(q.a) == 1 and all(e > 0 for _, e in q.a[0][0]):
            r = FALSE
            for at, e in q.a[0][0]:
                if at.op == "exp":
                    continue
                base = P(at)
                if at.op in ("sqrt", "abs"):
                    r = bor(r, eq0(at.a[0]))
                else:
                    r = bor(r, batom(mk("eq0", base)))
            return r
        return batom(mk("eq0", q))
    return lift(f, p)


def lt0(p):
    def f(x):
        x = P(x)
        if is_const(x):
            c = cval(x)
            return TRUE if c[0] < 0 else FALSE
        q, s = _scale(x)
        return batom(mk("lt0", q))
    return lift(f, p)


def cmp(op, a, b, isint=False):
    def numeric(x):
        if x.op == "ite":
            return numeric(x.a[1]) and numeric(x.a[2])
        return x.op == "poly" or x in (TRUE, FALSE) or not (x.op in ("str", "cat", "ptr", "null", "lref", "obj", "enumc", "tuple"))
    if op in ("==", "!="):
        def f(x, y):
            if x is y:
                return TRUE
            bl = (TRUE, FALSE)
            if x in bl and y in bl:
                return FALSE
            if x in bl or y in bl:
                # boolean compared with boolean constant
                o, c = (y, x) if x in bl else (x, y)
                if o.op == "poly":
                    return eq0(_add(P(x), _mul(num(-1), P(y))))
                t = tobool(o)
                return t if c is TRUE else bnot(t)
            if x.op == "poly" or y.op == "poly" or (_numt(x) and _numt(y)):
                return eq0(_add(P(x), _mul(num(-1), P(y))))
            if x.op == "str" and y.op == "str":
                return FALSE
            if x.op == "null" or y.op == "null":
                o = y if x.op == "null" else x
                return bnot(tobool(o) if o.op in ("ptr", "lref", "obj", "lam") else batom(mk("nonnull", o)))
            if x.id > y.id:
                x, y = y, x
            return batom(mk("eq", x, y))
        r = lift(f, a, b)
        return r if op == "==" else bnot(r)
    d = sub(a, b)
    if op == "<":
        return lt0(d)
    if op == ">":
        return lt0(neg(d))
    if op == "<=":
        return lt0(sub(d, ONE)) if isint else bnot(lt0(neg(d)))
    if op == ">=":
        return lt0(sub(neg(d), ONE)) if isint else bnot(lt0(d))
    raise ValueError(op)


def _numt(x):
    t = TYPES.get(x.id, "")
    return bool(t) and _numeric_type(t)


# ------------------------------------------------------------------ helpers
_walk_cache = {}


_SUB = {}


def subnodes(n):
    """all nodes reachable from n (set; do not modify)"""
    if isinstance(n, N):
        r = _SUB.get(n)
        if r is not None:
            return r
    r = _subnodes(n)
    if isinstance(n, N):
        if len(_SUB) > 20000:
            _SUB.clear()
        _SUB[n] = r
    return r


def _subnodes(n):
    seen = set()
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, N):
            if x in seen:
                continue
            seen.add(x)
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)
    return seen


def contains_op(n, *ops):
    return any(x.op in ops for x in subnodes(n))


def atoms(n):
    r = set()
    for x in subnodes(n):
        if x.op == "poly":
            for m, c in x.a:
                for at, e in m:
                    r.add(at)
    return r


def subst(n, f, memo=None):
    """bottom-up rewriting: f(node)->node or None; renormalises arithmetic and conditions"""
    if memo is None:
        memo = {}
    if not isinstance(n, N):
        if isinstance(n, tuple):
            return tuple(subst(x, f, memo) for x in n)
        return n
    if n in memo:
        return memo[n]
    r = f(n)
    if r is None:
        if n.op == "poly":
            r = ZERO
            for m, c in n.a:
                t = _poly({(): c})
                for at, e in m:
                    s = subst(at, f, memo)
                    t = mul(t, ipow(s, e))
                r = add(r, t)
        elif n.op == "ite":
            r = ite(_bsub(n.a[0], f, memo), subst(n.a[1], f, memo), subst(n.a[2], f, memo))
        elif n.op == "exp":
            r = fexp(subst(n.a[0], f, memo))
        elif n.op == "sqrt":
            r = fsqrt(subst(n.a[0], f, memo))
        elif n.op == "inv":
            r = inv(subst(n.a[0], f, memo))
        elif n.op == "abs":
            r = fabs_(subst(n.a[0], f, memo))
        elif n.op == "conj":
            r = conj(subst(n.a[0], f, memo))
        elif n.op in ("sin", "cos"):
            r = fun1(n.op, subst(n.a[0], f, memo))
        else:
            na = tuple(subst(x, f, memo) for x in n.a)
            if na == n.a:
                r = n
            else:
                r = mk(n.op, *na)
                if n.id in TYPES and r.id not in TYPES:
                    TYPES[r.id] = TYPES[n.id]
    memo[n] = r
    return r


def _bsub(c, f, memo):
    r = f(c)
    if r is not None:
        return tobool(r)
    if c.op == "eq0":
        return eq0(subst(c.a[0], f, memo))
    if c.op == "lt0":
        return lt0(subst(c.a[0], f, memo))
    if c.op == "eq":
        return cmp("==", subst(c.a[0], f, memo), subst(c.a[1], f, memo))
    s = subst(c, f, memo)
    return tobool(s)


def typed(n, t):
    if n.op not in ("poly", "ite", "true", "false") and t and n.id not in TYPES:
        TYPES[n.id] = t
    return n


def leaves(n):
    """[(list of (cond,bool)), leaf]"""
    out = []

    def go(x, path):
        if x.op == "ite":
            go(x.a[1], path + [(x.a[0], True)])
            go(x.a[2], path + [(x.a[0], False)])
        else:
            out.append((path, x))
    go(n, [])
    return out


def show(n, d=0):
    if not isinstance(n, N):
        if isinstance(n, tuple):
            return "(" + ",".join(show(x, d + 1) for x in n) + ")"
        return str(n)
    if d > 14:
        return "…"
    if n.op == "poly":
        if not n.a:
            return "0"
        ts = []
        for m, c in n.a:
            f = []
            if c[1] == 0:
                if c[0] != 1 or not m:
                    f.append(str(c[0]))
            elif c[0] == 0:
                f.append(("%si" % c[1]) if c[1] != 1 else "i")
            else:
                f.append("(%s+%si)" % c)
            for at, e in m:
                f.append(show(at, d + 1) + ("" if e == 1 else "^%s" % e))
            ts.append("*".join(f))
        return (" + ".join(ts)) if len(ts) == 1 else "(" + " + ".join(ts) + ")"
    if n.op == "ite":
        if n.a[1] is TRUE and n.a[2] is FALSE:
            return "[" + show(n.a[0], d + 1) + "]"
        if n.a[1] is FALSE and n.a[2] is TRUE:
            return "![" + show(n.a[0], d + 1) + "]"
        return "(" + show(n.a[0], d + 1) + "?" + show(n.a[1], d + 1) + ":" + show(n.a[2], d + 1) + ")"
    if n.op == "str":
        return repr(n.a[0])
    if not n.a:
        return n.op
    return n.op + "(" + ",".join(show(x, d + 1) for x in n.a) + ")"
