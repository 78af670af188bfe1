"""C21 names of choices. names: for every enumerator the text its output operator writes is evaluated on the syntax tree, with the enumerator as constant; read: the input operator is evaluated with each such text
as what was extracted, and must store that enumerator without flagging the stream; distinct: no two enumerators share a text, none is empty or contains blanks; other: texts that are none of the names, including
every further literal the operator compares with, set the fail or bad bit. picture: for all pairs of evolution method and picture, what updateWithPicture leaves in the parameter. driver: the kind of trajectory
that the evolution driver runs for every method."""
from sa.q import *
from sa.val import *
from sa import val as V
from sa.driver import Broken

FLOOR = {"names": 10, "read": 10, "distinct": 3, "other": 12, "picture": 9, "key": 1, "driver": 3}
ASSUME = ["operator>> for strings extracts the next word, whole", "ios::clear(b) and setstate(b) flag the stream with the bits b, nothing else does in these functions"]
CHOICES = (("evolution::Method", "CPPQEDcore/quantumtrajectory/EvolutionMethod.cc"), ("QM_Picture", "CPPQEDcore/high/QM_Picture.cc"), ("ModeFunctionType", "CPPQEDelements/utils/ModeFunction.cc"))


def check(ctx):
    for en, tu in CHOICES:
        ctx.part(choice, en, tu)
    ctx.part(picture)
    ctx.part(driver)


def enum_of(prog, en):
    for tu in prog.tus:
        for e in tu.enums:
            if e["q"] == en:
                return [(c[0], int(c[1])) for c in e["c"]]


def lost(v):
    return any(x.op in ("unk", "fold", "while", "undef") for x in subnodes(v))


def written(v, base):
    """the text of a chain of out() on base, or None"""
    s = ""
    while v is not base:
        if v.op != "out":
            return None
        x = v.a[1]
        if x.op != "str":
            return None
        s = x.a[0] + s
        v = v.a[0]
    return s


def choice(ctx, en, tu):
    prog = ctx.program([tu])
    vals = ctx.need(enum_of(prog, en), "enum " + en)
    short = en.split("::")[-1]
    W = [f for f in prog.find(name="operator<<") if len(f.params) == 2 and f.tu.t(f.params[1]["t"]).split("::")[-1].strip(" &") == short]
    R = [f for f in prog.find(name="operator>>") if len(f.params) == 2 and f.tu.t(f.params[1]["t"]).replace("&", "").strip().split("::")[-1] == short]
    w, r = ctx.need(W, "output of " + en)[0], ctx.need(R, "input of " + en)[0]
    names = {}
    for c, v in vals:
        I = ctx.interp(prog, w, args=[None, num(v)])
        o = I.read((("p", 0), ()))
        t = None if I.deep else written(o, mk("p", 0))
        if t is None and not I.deep and not lost(o) and o is mk("p", 0):
            t = ""
        names[c] = t
        ctx.ob("names:%s:%s" % (short, c), "a text is written for %s" % c, None if t is None else t != "", w, "writes %r" % t if t is not None else show(o)[:200])
    bad = [(a, b) for i, (a, _) in enumerate(vals) for b, _ in vals[i + 1:] if names[a] is not None and names[a] == names[b]]
    blank = [c for c in names if names[c] is not None and any(ch.isspace() for ch in names[c])]
    ctx.ob("distinct:" + short, "every value of %s has a text of its own, one word each" % short, False if bad or blank else None if None in names.values() else True, w, "%s %s" % (bad, blank))
    # reading back
    lits = set()
    I = ctx.interp(prog, r)
    for e in walk(I.tr):
        if isinstance(e, If):
            lits |= {y.a[0] for y in subnodes(e.cond) if y.op == "str"}
    good = {t for t in names.values() if t}
    for c, v in vals:
        t = names[c]
        if not t:
            continue
        flag, x = parse(ctx, prog, r, t)
        ok = False if flag else None if flag is None or x is None or const_int(x) is None else const_int(x) == v
        ctx.ob("read:%s:%s" % (short, c), "the text %r is read back as %s" % (t, c), ok, r, "flagged" if flag else "gives %s" % (show(x) if x is not None else None))
    probes = lits | {"no such name", ""}
    for t in good:
        probes |= {t + "x", t[:-1], t.lower(), t.upper(), t[1:]}
    for t in sorted(probes - good):
        flag, x = parse(ctx, prog, r, t)
        ctx.ob("other:%s:%r" % (short, t), "the text %r, no name of a %s, is flagged as an error" % (t, short), flag, r, "not flagged, gives %s" % (show(x) if x is not None else None))


def parse(ctx, prog, f, text):
    I = ctx.interp(prog, f, inval=lambda I, l, t: mk("str", text), unroll=64)
    if I.deep:
        return None, None
    st = ()
    flag = flags(I.tr, text == "")
    v = cn(V.subst(I.read((("p", 1), ())), lambda x: TRUE if x.op in ("good", "!fail") else None))
    return flag, v


def flags(tree, empty):
    """whether the stream ends up flagged: None when that depends on something unknown"""
    st = [bool(empty)]
    und = [False]

    def go(L):
        for e in L:
            if isinstance(e, Eff) and e.kind == "call" and e.name.split("::")[-1] in ("clear", "setstate") and "ios" in e.name:
                n = const_int(cn(e.args[0])) if e.args else 0
                if n is None:
                    und[0] = True
                elif e.name.endswith("clear"):
                    st[0] = bool(n & 5)
                else:
                    st[0] = st[0] or bool(n & 5)
            elif isinstance(e, If):
                a = st[0]
                go(e.t)
                b = st[0]
                st[0] = a
                go(e.e or [])
                if st[0] != b:
                    und[0] = True
            elif isinstance(e, (Inl, Loop)):
                go(e.body)
            elif isinstance(e, Eff) and e.kind == "throw":
                st[0] = True
    go(tree)
    return None if und[0] else st[0]


def picture(ctx):
    prog = ctx.program(["CPPQEDcore/high/QM_Picture.cc"])
    f = ctx.need(prog.find(q="picture::updateWithPicture"), "updateWithPicture")[0]
    ms = ctx.need(enum_of(prog, "evolution::Method"), "enum")
    ps = dict(ctx.need(enum_of(prog, "QM_Picture"), "enum"))
    loc = (("x", "picture"), ())
    box = {}

    def model(I, callee, objloc, args, line, t):
        q = callee["q"]
        if q == "parameters::Table::add":
            return mk("lref", *loc)
        if q == "parameters::update":
            box["upd"] = True
            I.write(loc, num(box["q"]), line, quiet=True)
            I.eff("call", q, args=(), line=line)
            return ZERO
        if q == "parameters::Table::operator[]" and args:
            box["key"] = I.rv(I.ev(args[-1]))
            I.write((("x", "evol"), ((".", "parameters::Typed::v_"),)), num(box["m"]), line, quiet=True)
            return mk("lref", ("x", "evol"), ())
        return None
    for m, mv in ms:
        for p, pv in sorted(ps.items()):
            box.clear()
            box.update(m=mv, q=pv)
            I = ctx.interp(prog, f, model=model)
            v = cn(I.read(loc))
            v = cn(V.subst(v, lambda x: FALSE if x.op == "caught" else None))
            want = ps["QMP_UIP"] if m == "MASTER" and p == "QMP_IP" else pv
            n = const_int(v)
            ctx.ob("picture:%s:%s" % (m, p), "with method %s the picture %s becomes %s" % (m, p, [a for a in ps if ps[a] == want][0]), None if n is None or I.deep or "upd" not in box else n == want, f, show(v)[:200])
            ref = I.result.op == "lref" and (I.result.a[0], I.result.a[1]) == loc if isinstance(I.result, N) else None
    ctx.ob("picture:result", "the parameter itself is what is returned", ref, f, show(I.result)[:100] if isinstance(I.result, N) else "")
    # the name under which the method is looked for is the one under which it is registered
    p2 = ctx.program(["w_evol.cc"])
    g = ctx.need(p2.find(name="scenario_pars"), "scenario")[0]
    names = []

    def m2(I, callee, objloc, args, line, t):
        if callee["q"] == "parameters::Table::add" and args and "Method" in str(t):
            x = [I.rv(I.ev(a)) for a in args[:2]]
            names.append(x[0])
            if len(args) > 3:
                names[-1] = I.cat(x[0], x[1])
        return None
    ctx.interp(p2, g, model=m2)
    k = box.get("key")
    ctx.ob("key:evol", "the evolution method is looked up under the name it is registered with", None if k is None or len(set(names)) != 1 or any(x.op != "str" for x in names + [k]) else names[0] is k, f, "registered as %s, looked up as %s" % ([show(x) for x in names], show(k) if k is not None else None))


def driver(ctx):
    prog = ctx.program(["w_evol.cc"])
    ms = ctx.need(enum_of(prog, "evolution::Method"), "enum")
    WANT = {"SINGLE": "mcwf::make", "ENSEMBLE": "mcwf::makeEnsemble", "MASTER": "master::make"}
    for sc in ("scenario_evolve", "scenario_evolve_rvalue"):
        f = ctx.need(prog.find(name=sc), "scenario")[0]
        for m, mv in ms:
            made = []

            def model(I, callee, objloc, args, line, t):
                q = callee["q"]
                for w in WANT.values():
                    if q.endswith("quantumtrajectory::" + w) or q == w:
                        made.append(w)
                        return mk("made", w)
                if q == "cppqedutils::run":
                    for a in args:
                        I.rv(I.ev(a))
                    made.append("run")
                    return ZERO
                return None
            key = mk("fld", mk("p", 2), "evolution::Pars::evol")
            fix = cmpeq(key, ms)
            I = ctx.interp(prog, f, model=model, assume={fix[v]: (TRUE if v == mv else FALSE) for _, v in ms})
            got = [x for x in made if x != "run"]
            ok = got == [WANT[m]] and "run" in made
            ctx.ob("driver:%s:%s" % (sc, m), "the method %s runs what %s makes" % (m, WANT[m]), True if ok else (None if len(got) != 1 or I.deep else False), f, str(made))


def cmpeq(key, ms):
    out = {}
    for _, v in ms:
        n = V.cmp("==", P(typed(key, "evolution::Method")), num(v))
        for x in subnodes(n):
            if x.op in ("eq0", "eq"):
                out[v] = x
    return out
