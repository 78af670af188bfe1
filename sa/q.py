"""Small queries shared by the rules."""
from .interp import Eff, If, Loop, Inl, Try, Ctl, walk, Interp, TooDeep, strip_targs
from .val import *
from . import val as V


def locof(n):
    """value that names a location -> (root, path)"""
    n = unp(n)
    path = []
    while n.op in ("fld", "elem"):
        path.append((".", n.a[1]) if n.op == "fld" else ("[",) + tuple(n.a[1:]))
        n = n.a[0]
    path.reverse()
    if n.op == "this":
        return (("this",), tuple(path))
    if n.op == "p":
        return (("p", n.a[0]), tuple(path))
    if n.op == "g":
        return (("g", n.a[0]), tuple(path))
    return None


def final(I, n, t=None):
    l = locof(n)
    return None if l is None else I.read(l, t)


def unp(n):
    """atom inside a trivial polynomial"""
    if n is not None and n.op == "poly" and len(n.a) == 1 and n.a[0][1] == (1, 0) and len(n.a[0][0]) == 1 and n.a[0][0][0][1] == 1:
        return n.a[0][0][0][0]
    return n


def cn(n):
    """canonical scalar: every leaf in polynomial form"""
    if n is None:
        return None
    if n.op == "ite":
        return V.ite(mk("ite", n.a[0], TRUE, FALSE), cn(n.a[1]), cn(n.a[2]))
    if n.op == "poly" or n in (TRUE, FALSE):
        return n
    return P(n)


def effs(tree, kind=None, name=None, pred=None):
    for e in walk(tree):
        if isinstance(e, Eff) and (kind is None or e.kind == kind) and (name is None or e.name == name or e.name.endswith("::" + name)) and (pred is None or pred(e)):
            yield e


def inls(tree, name=None, pred=None):
    for e in walk(tree):
        if isinstance(e, Inl) and (name is None or e.fn.name == name) and (pred is None or pred(e)):
            yield e


def own(tree):
    """nodes of the tree outside inlined calls"""
    for n in tree:
        yield n
        if isinstance(n, If):
            yield from own(n.t)
            yield from own(n.e)
        elif isinstance(n, Loop):
            yield from own(n.pre)
            yield from own(n.body)
            yield from own(n.inc)
        elif isinstance(n, Try):
            yield from own(n.body)
            for _, h in n.handlers:
                yield from own(h)


def restrict(n, m):
    """decision diagram under facts {atom: TRUE/FALSE}"""
    if n.op == "ite":
        d = m.get(n.a[0])
        if d is TRUE:
            return restrict(n.a[1], m)
        if d is FALSE:
            return restrict(n.a[2], m)
        return V.ite(mk("ite", n.a[0], TRUE, FALSE), restrict(n.a[1], m), restrict(n.a[2], m))
    return n


def entry(n, lvl=None):
    """replaces loop-carried values by the value they have when the loop is entered"""
    return V.subst(n, lambda x: x.a[2] if x.op == "lc" and (lvl is None or x.a[0] == lvl) else None)


def mentions(n, x):
    return x in subnodes(n)


def simple_this(prog, rec_tu, rec, name, argc=None):
    """the value returned by a (const, argument-free) member function of a class, bases included"""
    f = method(rec_tu, rec, name)
    if f is None:
        return None
    I = Interp(prog)
    try:
        return I.run(f, this_rec=rec)
    except TooDeep:
        return None


def method(tu, rec, name, pred=None):
    from .prog import bases_of
    for r in [rec] + bases_of(tu, rec):
        for f in tu.fnlist:
            if f.name == name and f.d.get("cid") == r["id"] and f.body is not None and (pred is None or pred(f)):
                return f
    return None


def outs(tree, root=None):
    """streamed items in textual order: (value, path condition depth ignored)"""
    for e in walk(tree):
        if isinstance(e, Eff) and e.kind == "out":
            for a in e.args:
                yield a, e


def text(v):
    return v.a[0] if v is not None and v.op == "str" else None


def labelled(tree):
    """[(label text just before a streamed value, value)]"""
    lab = ""
    r = []
    for v, e in outs(tree):
        t = text(v)
        if t is not None:
            lab += t
        elif v.op != "fnref":
            r.append((lab, v, e))
            lab = ""
    return r


def callname(n):
    n = unp(n)
    return n.a[0] if n is not None and n.op == "call" else None


def scen(prog, name):
    fs = prog.find(name=name)
    return fs[0] if fs else None


def lits(c, want=True):
    """literals [(atom, bool)] implied by c == want"""
    out = []
    n = c
    tgt, other = (TRUE, FALSE) if want else (FALSE, TRUE)
    while n is not None and n.op == "ite":
        a, h, l = n.a
        if l is other:
            out.append((a, True))
            n = h
        elif h is other:
            out.append((a, False))
            n = l
        else:
            break
    return out


def enclosing(tree, target):
    """the loops around a node of an effect tree, outermost first"""
    def go(t, path):
        for n in t:
            if n is target:
                return path
            r = None
            if isinstance(n, If):
                r = go(n.t, path)
                if r is None:
                    r = go(n.e, path)
            elif isinstance(n, Loop):
                r = go(n.pre + n.body + n.inc, path + [n])
            elif isinstance(n, Inl):
                r = go(n.body, path)
            elif isinstance(n, Try):
                r = go(n.body, path)
                for _, h in n.handlers:
                    r = r if r is not None else go(h, path)
            if r is not None:
                return r
        return None
    return go(tree, [])


def versions(tree, target):
    """the two cases of a point in a loop: [(name, value -> value)], values of the first iteration and of any later one"""
    ls = [l for l in enclosing(tree, target) or [] if getattr(l, "car", None)]
    if not ls:
        return [("", lambda n: n)]
    car = {}
    for l in ls:
        car.update(l.car)
    return [("first iteration", lambda n: V.subst(n, lambda x: x.a[2] if x in car else None)),
            ("later iteration", lambda n: V.subst(n, lambda x: car[x][2] if x in car else None))]


def factmap(facts, f=lambda n: n):
    m = {}
    for c in facts:
        for a, b in lits(f(c), True):
            m[a] = TRUE if b else FALSE
    return m


def execute(tree, dec):
    """the effects of an effect tree in order, with every condition decided by dec(cond) -> True/False/None; returns (effects, how it ends); 'unknown' when a condition is not decided.
    A loop contributes its body once."""
    out = []

    def go(t):
        for n in t:
            if isinstance(n, Eff):
                out.append(n)
            elif isinstance(n, Ctl):
                return n.kind
            elif isinstance(n, If):
                d = dec(n.cond)
                if d is None:
                    out.append(n)
                    return "unknown"
                r = go(n.t if d else n.e)
                if r != "end":
                    return r
            elif isinstance(n, Inl):
                r = go(n.body)
                if r not in ("end", "return"):
                    return r
            elif isinstance(n, Loop):
                r = go(n.pre + n.body + n.inc)
                if r not in ("end", "break", "continue"):
                    return r
            elif isinstance(n, Try):
                r = go(n.body)
                if r == "throw":
                    return "unknown"
                if r != "end":
                    return r
        return "end"
    r = go(tree)
    return out, r


def paths(tree, cap=4000, matches=None):
    """all paths of an effect tree as (conditions [(cond, taken)], effects, how it ends, the node it ends with); a loop contributes its body once; a throw inside a try goes to the first handler that
    matches(type of the handler, thrown node)"""
    out = []
    matches = matches or (lambda h, n: h == "..." or strip(h) in ("std::exception", "std::runtime_error") or (n.val is not None and strip(h) in show(n.val)))

    def strip(h):
        return h.replace("const ", "").replace("&", "").strip()

    def seq(L, k, cont):
        if len(out) > cap:
            return
        if not L:
            return cont(k, "end", None)
        n, rest = L[0], L[1:]
        if isinstance(n, Eff):
            return seq(rest, (k[0], k[1] + [n]), cont)
        if isinstance(n, Ctl):
            return cont(k, n.kind, n)
        if isinstance(n, If):
            if n.cond is not FALSE:
                seq(n.t, (k[0] + [(n.cond, True)], k[1]), lambda k2, r, x: seq(rest, k2, cont) if r == "end" else cont(k2, r, x))
            if n.cond is not TRUE:
                seq(n.e or [], (k[0] + [(n.cond, False)], k[1]), lambda k2, r, x: seq(rest, k2, cont) if r == "end" else cont(k2, r, x))
            return
        if isinstance(n, Inl):
            return seq(n.body, k, lambda k2, r, x: seq(rest, k2, cont) if r in ("end", "return") else cont(k2, r, x))
        if isinstance(n, Loop):
            return seq(list(n.pre) + list(n.body) + list(n.inc), k, lambda k2, r, x: seq(rest, k2, cont) if r in ("end", "break", "continue") else cont(k2, r, x))
        if isinstance(n, Try):
            def done(k2, r, x):
                if r == "end":
                    return seq(rest, k2, cont)
                if r == "throw":
                    for h in n.handlers:
                        if matches(h[0], x):
                            return seq(h[1], k2, lambda k3, r3, x3: seq(rest, k3, cont) if r3 == "end" else cont(k3, r3, x3))
                return cont(k2, r, x)
            return seq(n.body, k, done)
        return seq(rest, k, cont)
    seq(list(tree), ([], []), lambda k, r, x: out.append((k[0], k[1], r, x)))
    return out


def feasible(conds):
    """conjunction of the conditions of a path"""
    v = TRUE
    for c, b in conds:
        v = V.band(v, c if b else V.bnot(c))
    return v


def expand(n, f):
    """n with f applied, and every sum over a then constant number of terms written out"""
    def g(x):
        r = f(x)
        if r is not None:
            return r
        if x.op == "sum":
            trip = const_int(cn(V.subst(x.a[0], g)))
            if trip is not None and trip <= 64:
                lvl = x.a[1].a[0]
                s = ZERO
                for k in range(max(trip, 0)):
                    s = add(s, V.subst(cn(x.a[2]), lambda y: (num(k) if y.op == "idx" and y.a[0] == lvl else g(y))))
                return s
        return None
    return cn(V.subst(cn(n), g)) if n.op in ("poly", "sum") else V.subst(n, g)


class Unrolled:
    """an effect met while unrolling: obj/args/cond with the loop indices substituted"""
    def __init__(self, e, sub):
        self.e, self.kind, self.name, self.line, self.x = e, e.kind, e.name, e.line, e.x
        self.obj = sub(e.obj) if isinstance(e.obj, N) else e.obj
        self.args = tuple(sub(a) if isinstance(a, N) else a for a in e.args)
        self.ret = sub(e.ret) if isinstance(e.ret, N) else e.ret


def unroll(tree, f, dec=None, cap=4000):
    """effects in execution order with loops of constant trip count (after f) unrolled; (list, how) — how is 'unknown' where a condition or trip count stays open"""
    out = []
    env = {}

    def sub(n):
        def g(x):
            if x.op == "idx" and x.a[0] in env:
                return num(env[x.a[0]])
            return f(x)
        return V.subst(n, g)

    def go(t):
        for n in t:
            if len(out) > cap:
                return "unknown"
            if isinstance(n, Eff):
                out.append(Unrolled(n, sub))
            elif isinstance(n, Ctl):
                return n.kind
            elif isinstance(n, If):
                c = sub(n.cond)
                c = tobool(c) if c not in (TRUE, FALSE) else c
                d = True if c is TRUE else False if c is FALSE else (dec(c) if dec else None)
                if d is None:
                    return "unknown"
                r = go(n.t if d else n.e)
                if r != "end":
                    return r
            elif isinstance(n, Inl):
                r = go(n.body)
                if r not in ("end", "return"):
                    return r
            elif isinstance(n, Loop):
                if n.trip is None:
                    return "unknown"
                trip = const_int(cn(sub(n.trip)))
                if trip is None:
                    return "unknown"
                r = go(n.pre) if trip <= 0 else "end"
                for k in range(max(trip, 0)):
                    env[unp(n.idx).a[0]] = k
                    r = go(n.pre + n.body + n.inc)
                    if r in ("end", "continue"):
                        r = "end"
                        continue
                    break
                env.pop(unp(n.idx).a[0], None)
                if r == "break":
                    r = "end"
                if r != "end":
                    return r
            elif isinstance(n, Try):
                r = go(n.body)
                if r != "end":
                    return r
        return "end"
    r = go(tree)
    return out, r
