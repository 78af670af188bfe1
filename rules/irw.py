"""Witness functions read from the compiler's intermediate representation (sa/ir.py): many of them, compiled in groups."""
from concurrent.futures import ThreadPoolExecutor
from sa import ir
from sa.ir import Poly, const, sym, padd, pmul, fun

INPUTS = {"re", "im", "mre", "mim", "weight"}
SINKS = {"out", "shape", "visit", "last"}


def flows(ctx, tu, jobs, inputs=INPUTS, sinks=SINKS, size=6, opts=()):
    """jobs: name -> body of a function -> name -> (calls, how), how being "end", "throw", "lost: ..." or "compile: ..." """
    ctx.tus.add(tu)
    names = list(jobs)
    groups = [names[i:i + size] for i in range(0, len(names), size)]

    def text(g):
        return "\n" + "\n".join('extern "C" void w_%s() {%s}' % (n, jobs[n]) for n in g) + "\n"

    def one(g):
        m, err = ir.lower(tu, text(g), opts)
        if m is not None:
            return [(n, m, "") for n in g]
        if len(g) == 1:
            return [(g[0], None, err)]
        return [r for n in g for r in one([n])]
    out = {}
    with ThreadPoolExecutor(8) as pool:
        mods = {}
        for L in list(pool.map(one, groups)):
            for n, m, err in L:
                if m is not None:
                    m = mods[m] if m in mods else mods.setdefault(m, ir.module(m))
                if m is None:
                    e = [x for x in err.split("\n") if "error:" in x]
                    out[n] = ([], "compile: " + (e[0] if e else err)[:300])
                    continue
                F, how = ir.follow(m, "w_" + n, inputs, sinks)
                ctx.fns_seen.add("%s: %s" % (tu, n))
                out[n] = (F.calls, how)
    return out


def c(re_, im_):
    return (re_, im_)


def amp(w, k):
    return (sym("re", w, k), sym("im", w, k))


def mat(w, k, l, hermitian=False):
    if hermitian:
        if k == l:
            return (sym("mre", w, k, l), const(0))
        if l < k:
            a = mat(w, l, k)
            return (a[0], neg(a[1]))
    return (sym("mre", w, k, l), sym("mim", w, k, l))


ZERO = (const(0), const(0))


def neg(a):
    return padd(const(0), a, -1)


def cadd(a, b):
    return (padd(a[0], b[0]), padd(a[1], b[1]))


def cmul(a, b):
    return (padd(pmul(a[0], b[0]), pmul(a[1], b[1]), -1), padd(pmul(a[0], b[1]), pmul(a[1], b[0])))


def conj(a):
    return (a[0], neg(a[1]))


def scale(s, a):
    return (pmul(s, a[0]), pmul(s, a[1]))


def poly(x):
    return x if isinstance(x, Poly) else const(0) if x == 0 else None


def outs(calls):
    """what -> {(i, j): (re, im)}; None where a value was never set"""
    r = {}
    for n, a in calls:
        if n == "out":
            x, y = poly(a[3]), poly(a[4])
            r.setdefault(a[0], {}).setdefault((a[1], a[2]), []).append((x, y) if x is not None and y is not None else None)
    return r


def same(a, b):
    if a is None:
        return False
    r = [ir.equal(x, y) for x, y in zip(a, b)]
    return False if False in r else None if None in r else True


def compare(ctx, key, desc, where, got, want, how):
    """got, want: {(i, j): value}. A value that was never set where one is wanted is a violation only if the reading went through."""
    got = got or {}
    bad = None
    for ij, w in want.items():
        g = got.get(ij)
        if not g:
            bad = (False if how.startswith("fault") else None, "nothing is shown for %s (%s)" % (ij, how))
            break
        if any(x is None for x in g):
            bad = (False, "element %s is never set" % (ij,))
            break
        r = [same(x, w) for x in g]
        if not all(r):
            bad = (False if False in r else None, "element %s is (%s, %s), expected (%s, %s)" % (ij, repr(g[0][0])[:150], repr(g[0][1])[:150], repr(w[0])[:150], repr(w[1])[:150]))
            break
    ctx.ob(key, desc, True if bad is None else bad[0], where, bad[1] if bad else "")


def number(x):
    """the value of an integer or truth value, None if it is not a number"""
    if isinstance(x, (int, bool)):
        return int(x)
    try:
        v = poly(x)
        for k in range(0, 2):
            if same(v, const(k)):
                return k
    except Exception:
        pass
    return None
