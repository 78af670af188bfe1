"""Elements as the maker functions build them: the maker is interpreted for every picture, its decisions are resolved for a parameter regime, and the object it returns is looked at through its class and fields."""
from sa.q import *
from sa.val import *
from sa import val as V
from sa.prog import bases_of
from rules import trid

TUS = ["CPPQEDelements/frees/Mode.cc", "CPPQEDelements/frees/Qbit.cc", "CPPQEDelements/frees/Particle.cc", "CPPQEDelements/frees/ParsParticle.cc", "CPPQEDcore/structure/DynamicsBase.cc"]
PICTURES = ("QMP_IP", "QMP_UIP", "QMP_SCH")


def pictures(prog):
    for tu in prog.tus:
        for e in tu.enums:
            if e["q"] == "QM_Picture":
                return {c[0]: int(c[1]) for c in e["c"]}
    return {}


def fields(prog, rec_tu, t):
    """parameters of a parameter class: short name -> node of that field of the first argument"""
    rec = rec_tu.recbyfull.get(t)
    out = {}
    if rec is None:
        return out
    for r in [rec] + bases_of(rec_tu, rec):
        for f in r.get("fs", ()):
            out.setdefault(f["n"], (mk("fld", mk("p", 0), "%s::%s" % (r["q"], f["n"])), rec_tu.t(f["t"])))
    return out


class Made:
    def __init__(self, ctx, prog, f, I, root, g):
        self.ctx, self.prog, self.tu, self.I, self.root, self.g = ctx, prog, f.tu, I, root, g
        self.cls = I.rootcls.get(root)
        self.chain = [self.cls] + bases_of(self.tu, self.cls) if self.cls else []
        self.name = short(self.cls["full"]) if self.cls else "?"

    def where(self):
        return "%s (%s)" % (self.cls["file"].replace("/repo/", ""), self.name)

    def derives(self, q):
        return [r for r in self.chain if r["q"] == q]

    def at(self, path):
        v = self.I.read((self.root, path))
        while v.op == "lref":
            v = self.I.read((v.a[0], v.a[1]))
        return V.subst(v, self.g)

    def field(self, name):
        return self.at((("." , name),))

    def written(self, suffix):
        return [k[1] for k in self.I.allw if k[0] == self.root and k[1] and k[1][-1][0] == "." and str(k[1][-1][1]).endswith(suffix)]

    def bind(self, v):
        def chain(n):
            p = []
            while n.op == "fld":
                p.insert(0, (".", n.a[1]))
                n = n.a[0]
            return tuple(p) if n.op == "this" and p else None

        def f(n):
            if n.op == "fld":
                p = chain(n)
                if p:
                    return self.at(p)
            return None
        return V.subst(V.subst(v, f), self.g)

    def method(self, name, pred=None):
        f = method(self.tu, self.cls, name, pred)
        if f is None:
            for r in self.chain:
                for tu in self.prog.tus:
                    r2 = tu.recbyfull.get(r["full"])
                    f = method(tu, r2, name, pred) if r2 else None
                    if f is not None:
                        return f
        return f

    def get(self, name):
        f = self.method(name)
        if f is None:
            return None
        I = self.ctx.interp(self.prog, f, this_rec=self.cls, inline=trid.keep)
        if I.deep or I.result is None:
            return None
        return self.bind(value(I))


def value(I):
    v = final(I, I.result)
    return I.result if v is None else v


def lost(v):
    return any(x.op in ("unk", "undef", "while") for x in subnodes(v))


def number(n):
    """value of a closed expression"""
    if n.op == "poly":
        r = 0
        for mono, c in n.a:
            t = complex(c[0], c[1])
            for a, e in mono:
                x = number(a)
                if x is None:
                    return None
                t *= x ** e
            r += t
        return r
    if n.op in ("sqrt", "abs", "conj", "exp"):
        x = number(n.a[0])
        if x is None:
            return None
        return {"sqrt": lambda: x ** .5, "abs": lambda: abs(x), "conj": lambda: x.conjugate(), "exp": lambda: 2.718281828459045 ** x}[n.op]()
    return None


def decide(values):
    """atoms over the parameters are decided for given values; everything else stays"""
    table = {}
    for node, val in values.items():
        if node == "size":
            continue
        table[node] = num(*val) if isinstance(val, tuple) else num(val)

    def leaf(x):
        if x.op == "bop" and x.a[0] in ("<<", ">>"):
            a, b = (const_int(V.subst(y, leaf)) for y in x.a[1:3])
            if a is not None and b is not None and 0 <= b < 64:
                return num(a << b if x.a[0] == "<<" else a >> b)
        if x.op == "size" and "size" in values and any(y.op == "g" and y.a[0] == trid.IDX for y in subnodes(x)):
            return num(values["size"])
        return table.get(x)

    def g(x):
        if x.op in ("eq0", "lt0", "eq", "nonnull"):
            s = V._bsub(x, leaf, {})
            if s in (TRUE, FALSE):
                return s
            if x.op in ("eq0", "lt0"):
                z = number(V.subst(x.a[0], leaf))
                if z is not None:
                    return TRUE if (abs(z) < 1e-30 if x.op == "eq0" else z.real < 0) else FALSE
        return None
    return g


def make(ctx, prog, f, qmp, **kw):
    """interpret one maker for one picture"""
    return ctx.interp(prog, f, args=[None, num(qmp)] + [None] * (len(f.params) - 2), inline=trid.keep, **kw)


def made(ctx, prog, f, I, values):
    g = decide(values)
    r = V.subst(I.result, g)
    while r.op == "lref":
        r = V.subst(I.read((r.a[0], r.a[1])), g)
    if r.op == "ptr" and not r.a[1] and r.a[0] in I.rootcls:
        return Made(ctx, prog, f, I, r.a[0], g)
    return None


def made2(ctx, prog, f, I, pick, g):
    """the object returned when the decisions are as pick says, its fields seen under g"""
    if I.result is None:
        return None
    r = V.subst(I.result, pick)
    while r.op == "lref":
        r = V.subst(I.read((r.a[0], r.a[1])), pick)
    if r.op == "ptr" and not r.a[1] and r.a[0] in I.rootcls:
        return Made(ctx, prog, f, I, r.a[0], g)
    return None


def operator(m):
    """the Hamiltonian over i of an element in one degree of freedom, all its addends; None: it has none"""
    ps = m.written("hOverIs_")
    if not ps:
        return None
    v = m.at(ps[0])
    r = trid.Tri()
    for t in terms_of(m.I, v):
        r = trid.plus(r, trid.tri(V.subst(t, m.g)))
    return r


def terms_of(I, v):
    if v.op == "snoc":
        return terms_of(I, v.a[0]) + [v.a[1]]
    if v.op == "ctor" and "list" in str(v.a[0]) and len(v.a) > 2 and const_int(v.a[1]) == 1:
        return [v.a[2]]
    if v.op == "tuple":
        return list(v.a)
    if v.op == "upd" and v.a[1][0] == "[" and len(v.a[1]) == 2 and const_int(v.a[1][1]) is not None:
        old, k = terms_of(I, v.a[0]), const_int(v.a[1][1])
        if k < len(old):
            new = V.subst(v.a[2], lambda x: old[const_int(x.a[1])] if x.op == "elem" and x.a[0] is v.a[0] and len(x.a) == 2 and const_int(x.a[1]) is not None and const_int(x.a[1]) < len(old) else None)
            return old[:k] + [new] + old[k + 1:]
    if v.op == "new" and "list" in str(v.a[0]):
        return []
    raise trid.Lost("list of operators " + show(v)[:100])


def short(n):
    return n if len(n) < 100 else n.split("<")[0]
