"""Composite systems as their makers build them: the maker is interpreted on interactions with unknown frees, and the member functions of the object it returns are interpreted on that object, so that every
part is known by the pointer it comes from."""
import re
from sa.q import *
from sa.val import *
from sa import val as V
from sa.interp import seq_ints
from rules import elem

FREES = "structure::Interaction::frees_"
KINDS = ("Exact", "Hamiltonian", "Liouvillean", "Averaged")


def keep(g):
    return "liceiterator" not in g.q and "SliceIterator" not in g.q and not g.q.startswith("blitz::") and g.name != "partialTrace"


def free(i, k):
    return mk("elem", mk("fld", mk("deref", mk("p", i)), FREES), num(k))


def simp(n):
    """fields of known objects, elements of known tuples"""
    seen = {}

    def one(x):
        if x.op == "elem" and len(x.a) == 2 and x.a[0].op == "tuple":
            k = const_int(cn(x.a[1]))
            if k is not None and 0 <= k < len(x.a[0].a):
                return x.a[0].a[k]
        if x.op == "fld" and x.a[0].op == "obj":
            for p, v in x.a[0].a[1]:
                if p == (".", x.a[1]) or p == ((".", x.a[1]),):
                    return v
        return x

    def go(x):
        if not isinstance(x, N):
            return tuple(go(y) for y in x) if isinstance(x, tuple) else x
        r = seen.get(x)
        if r is None:
            if x.op in ("poly", "ite"):
                r = V.subst(x, lambda y: (go(y) if y.op not in ("poly", "ite") and go(y) is not y else None))
            else:
                a = tuple(go(y) for y in x.a)
                r = x if a == x.a else mk(x.op, *a)
                r = one(r)
            seen[x] = r
        return r
    return go(n)


class Part:
    def __init__(self, name, ptr, axes):
        self.name, self.ptr, self.axes = name, ptr, axes


class System:
    """what: 'binary' or 'composite'"""
    def __init__(self, ctx, what):
        self.ctx, self.what = ctx, what
        if what == "binary":
            self.prog = ctx.program(["CPPQEDcore/composites/BinarySystem.cc"])
            self.maker = ctx.need([f for f in self.prog.find(q="binary::make") if f.body is not None], "binary::make")[0]
            self.parts = [Part("free 0", free(0, 0), (0,)), Part("free 1", free(0, 1), (1,)), Part("interaction", mk("p", 0), (0, 1))]
            self.rank, self.same = 2, []
        else:
            self.prog = ctx.program(["w_comp.cc"])
            self.maker = ctx.need(self.prog.find(name="scenario_make"), "composite::make")[0]
            self.parts = [Part("free 0", free(0, 0), (0,)), Part("free 1", free(1, 1), (1,)), Part("free 2", free(0, 1), (2,)), Part("free 3", free(1, 0), (3,)),
                          Part("interaction <0,2>", mk("p", 0), (0, 2)), Part("interaction <3,1,0>", mk("p", 1), (3, 1, 0))]
            self.rank, self.same = 4, [(free(0, 0), free(1, 2))]
        self.I = ctx.interp(self.prog, self.maker, inline=keep)
        self.fill = set()
        self.objs = {}
        self.runs = {}

    def part(self, ptr):
        """the part a pointer (or a cast of it) comes from"""
        ptr = unp(ptr)
        while ptr.op == "dyncast":
            ptr = unp(ptr.a[1])
        for a, b in self.same:
            if ptr is b:
                ptr = a
        for i, p in enumerate(self.parts):
            if p.ptr is ptr:
                return i
        return None

    def cap(self, x):
        """('Exact', part) for a value that is a pointer to a capability of a part"""
        x = unp(x)
        if x.op == "dyncast":
            p = self.part(x)
            k = [k for k in KINDS if str(x.a[0]).replace("const ", "").split("<")[0].split("::")[-1].strip(" *&") == k]
            if p is not None and k:
                return k[0], p
        return None

    def decide(self, present=None, nonnull=True):
        """present: (kind, part) -> bool; the parts themselves exist, shared ones agree"""
        def g(x):
            if x.op in ("eq0", "nonnull", "eq"):
                if x.op == "eq":
                    a, b = simp(unp(x.a[0])), simp(unp(x.a[1]))
                    pa, pb = self.part(a), self.part(b)
                    if pa is not None and pb is not None and a.op != "dyncast" and b.op != "dyncast":
                        return TRUE if pa == pb else None
                    if a.op == "null" or b.op == "null":
                        y, want = (a if b.op == "null" else b), False
                    else:
                        return None
                else:
                    y, want = simp(unp(x.a[0])), x.op == "nonnull"
                c = self.cap(y)
                if c is not None and present is not None:
                    return TRUE if bool(present(*c)) == want else FALSE
                if c is None and self.part(y) is not None and nonnull:
                    return TRUE if want else FALSE
            return None
        return g

    def obj(self, conf):
        """the object made when the parts have the capabilities of the configuration {kind: [None or number of entries, per part]}"""
        return elem.made2(self.ctx, self.prog, self.maker, self.I, self.decide(lambda k, p: conf[k][p] is not None), self.decide(lambda k, p: conf[k][p] is not None))

    def run(self, m, f, conf, model=None, **kw):
        """one member function on one object; the pointers to capabilities that a part lacks are null, numbers of entries are those of the configuration"""
        def conc(x):
            c = self.cap(x) if x.op == "dyncast" else None
            if c is not None:
                return NULL if conf[c[0]][c[1]] is None else mk("ptr", ("g", "%s of part %d" % c), ())
            p = self.part(x) if x.op in ("p", "elem") else None
            if p is not None:
                return mk("ptr", ("g", "part %d" % p), ())
            return None

        def pre(J):
            for (root, path) in sorted(m.I.allw, key=str):
                if root == m.root:
                    J.write((("this",), path), V.subst(simp(m.at(path)), conc), quiet=True)

        def mod(J, callee, objloc, argnodes, line, t):
            q = strip_targs(callee["q"])
            n = q.split("::")[-1]
            if n in ("nAvr_v", "average_v", "applicableInMaster_v") and objloc is not None:
                c = capof(J.locval(J.deref(objloc)))
                if c is None or c[0] is None:
                    return None
                e = conf[c[0]][c[1]]
                if n == "nAvr_v":
                    return num(e)
                if n == "applicableInMaster_v":
                    J.eff("call", q, obj=J.locval(J.deref(objloc)), args=(), line=line)
                    if "aim" in conf:
                        return TRUE if conf["aim"] else FALSE
                    return mk("ite", typed(mk("aim", num(c[1])), "bool"), TRUE, FALSE)
                if n == "average_v":
                    vals = [J.rv(J.ev(a)) for a in argnodes]
                    J.eff("call", q, obj=J.locval(J.deref(objloc)), args=tuple(vals), line=line)
                    return mk("tuple", *[typed(mk("avg", c[0], c[1], num(k), *vals), "double") for k in range(e)])
            if n in ("highestFrequency", "highestFrequency_v") and objloc is not None and "freq" in conf:
                c = capof(J.locval(J.deref(objloc)))
                return num(conf["freq"][c[1]]) if c is not None else None
            if n == "isfinite" and len(argnodes) == 1:
                v = J.rv(J.ev(argnodes[0]))
                if v.op == "tuple":
                    return mk("tuple", *[TRUE for _ in v.a])
            if q == "quantumdata::partialTrace" and len(argnodes) == 2:
                ldo = J.rv(J.ev(argnodes[0]))
                ax = axes(callee.get("ta", ""))
                fnv = J.rv(J.ev(argnodes[1]))
                return J.call_value(fnv, None, line, t, argvals=[mk("slice", ax, ldo)])
            return model(J, callee, objloc, argnodes, line, t) if model else None
        kw.setdefault("inline", keep)
        # the subobject the function belongs to: a composite has the bases for entries twice
        return self.ctx.interp(self.prog, f, this_rec=f.tu.recs.get(f.d.get("cid"), m.cls), pre=pre, model=mod, unroll=64, **kw)



CAP = re.compile(r"(\w+) of part (\d+)$")


def capof(n):
    """(kind, part) for the value of an object that is a capability of a part; (None, part) for a part itself"""
    n = unp(n)
    if n.op == "g":
        m = CAP.match(n.a[0])
        if m:
            return m.group(1), int(m.group(2))
        if n.a[0].startswith("part "):
            return None, int(n.a[0][5:])
    return None


def slices(n):
    """(vector of axes, what is sliced) for a value that is the current slice of a full range, or (None, n) for a value that is not a slice"""
    n = unp(n)
    if n.op == "elem" and len(n.a) == 2 and n.a[1].op in ("idx", "poly") and unp(n.a[1]).op == "idx":
        c = unp(n.a[0])
        if c.op == "call" and str(c.a[0]).endswith("fullRange"):
            v = axes(str(c.a[1]))
            return (v, unp(c.a[2]), unp(n.a[1]).a[0]) if v is not None else None
    return None


def axes(targs):
    """<tmptools::Vector<0>, 4> -> (0,)"""
    s = targs.strip()
    if s.startswith("<"):
        s = s[1:-1]
    from sa.interp import split_targs
    parts = split_targs(s)
    return tuple(seq_ints(parts[0].strip()) or ()) or None


def confs(n, vals, cap, must=()):
    """all maps of n parts to vals, or a spread-out selection of them"""
    total = len(vals) ** n
    out = [list(m) for m in must]
    if total <= cap:
        ks = range(total)
    else:
        ks, x = [], 12345
        for _ in range(cap):
            x = (x * 1103515245 + 12345) % (1 << 31)
            ks.append((x >> 4) % total)
    for k in ks:
        c = []
        for _ in range(n):
            c.append(vals[k % len(vals)])
            k //= len(vals)
        if c not in out:
            out.append(c)
    return out


def special(n, v=1):
    """configurations in which single parts matter: every one alone, all but one, and all"""
    out = [[v] * n]
    for i in range(n):
        out.append([v if j == i else None for j in range(n)])
        out.append([None if j == i else v for j in range(n)])
        out.append([0 if j == i else v + 1 for j in range(n)])
    return out


def conf(S, **kw):
    c = {k: [None] * len(S.parts) for k in KINDS}
    c.update(kw)
    return c


def full(S, c, kind):
    """the same, with all other capabilities in all parts"""
    return {k: (v if k == kind or k not in KINDS else [1] * len(S.parts)) for k, v in c.items()}


def straight(I):
    """the effects in order, (effect, loops around it), of a run in which every decision is made; None when one is open"""
    out = []

    def go(t, loops):
        for n in t:
            if isinstance(n, Eff):
                out.append((n, tuple(loops)))
            elif isinstance(n, Ctl):
                return n.kind
            elif isinstance(n, If):
                if n.cond not in (TRUE, FALSE):
                    return "unknown: " + show(n.cond)[:200]
                r = go(n.t if n.cond is TRUE else n.e or [], loops)
                if r != "end":
                    return r
            elif isinstance(n, Inl):
                r = go(n.body, loops)
                if r not in ("end", "return"):
                    return r
            elif isinstance(n, Loop):
                r = go(n.pre + n.body + n.inc, loops + [n])
                if r in ("return", "break"):
                    return "unknown: leaves a loop"
                if r not in ("end", "continue"):
                    return r
            elif isinstance(n, Try):
                r = go(n.body, loops)
                if r != "end":
                    return r
        return "end"
    how = go(I.tr, [])
    return out, how


def calls(I, name):
    """[(kind, part, arguments, loops)] of the calls of one function on the parts, in order; (None, why) when that is not known"""
    if I.deep:
        return None, "too deep"
    es, how = straight(I)
    if how not in ("end", "return"):
        return None, how
    out = []
    for e, loops in es:
        if e.kind == "call" and e.name.split("::")[-1] == name:
            c = capof(e.obj) if e.obj is not None else None
            if c is None:
                return None, "call on %s" % (show(e.obj)[:120] if e.obj is not None else None)
            out.append((c[0], c[1], [entry(a) for a in e.args], loops))
        elif e.kind == "apply" or e.kind == "call" and e.name.split("::")[-1] in ("unk",):
            return None, "unknown call"
    return out, ""


def span(arg, loops, rank):
    """the axes of the whole that an argument stands for, and what it is a part of; checks that the loop runs over all slices. None when it is no such thing"""
    s = slices(arg)
    if s is None:
        x = unp(arg)
        return (tuple(range(rank)), x, True) if x.op == "p" else None
    ax, what, lvl = s
    for l in loops:
        if l.idx is not None and unp(l.idx).op == "idx" and unp(l.idx).a[0] == lvl:
            t = unp(l.trip) if l.trip is not None else None
            if t is None or t.op != "size":
                return None
            r = unp(entry(t.a[0]))
            if r.op == "call" and str(r.a[0]).endswith("fullRange"):
                # as many slices as the range of this very slicing has
                full = axes(str(r.a[1])) is not None and sorted(axes(str(r.a[1]))) == sorted(ax)
                return ax, what, full
    return None
