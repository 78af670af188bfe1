"""C09 random engines. save/load: for every engine offered, what is stored is the engine's own complete representation (its text, or its state array), and loading parses exactly the loaded item into the
engine; a failed parse leads to an exception on every path. gsl: the binary state of the GSL engine is written and read at the same address and length. seed: engines are constructed from the seed
and stream that are kept and reported as such; the stream parameter is advanced by one for the next stream. ids: the names of the engines differ."""
from sa.q import *
from sa.val import *
from sa import val as V

FLOOR = {"load": 4, "save": 4, "gsl": 5, "seed": 5}
TRUST = ["operator<< and operator>> of the engines are inverse (standard library, pcg)", "serialize and deserialize of Xoshiro are inverse", "pcg64(seed,stream)"]


def check(ctx):
    prog = ctx.program(["w_random.cc"])
    for n in ("gslEngine", "stdEngine", "pcgEngine", "xoshiroEngine"):
        ctx.part(engine, prog, n)
    ctx.part(gsl, ctx.program(["CPPQEDutils/Random.cc"]))
    ctx.part(seeds, prog)
    ctx.part(traj, ctx.program(["w_traj.cc"]))


def stream_of(v):
    """the object a string stream was constructed from, and whether nothing else was put in"""
    return v


def engine(ctx, prog, name):
    f = ctx.need(scen(prog, name), name)
    fns = [g for g in prog.find(name="serialize") if g.params and len(g.params) == 3 and any(strip_targs(g.tu.t(p["t"])).strip(" &") == strip_targs(f.tu.t(f.params[0]["t"])).strip(" &") for p in g.params)]
    d = {}
    for g in fns:
        t = g.tu.t(g.params[0]["t"])
        d["in" if "iarchive" in t else "out"] = g
    key = name.replace("Engine", "")
    ctx.need(len(d) == 2, "serialize of " + name)
    # loading
    I = ctx.interp(prog, d["in"])
    io = [e for e in walk(I.tr) if isinstance(e, Eff) and e.kind == "io"]
    fin = unp(I.read((("p", 1), ())))
    if I.deep or len(io) != 1 or io[0].name != "load":
        ctx.ob("load:" + key, "loading reads one item", False if not io and not I.deep else None, d["in"], "%d items" % len(io))
    else:
        got = [x for x in subnodes(fin) if x.op == "loaded"]
        if fin.op == "p":
            ctx.ob("load:" + key, "loading restores the engine", False, d["in"], "the engine is not changed by loading")
        elif not got:
            ctx.ob("load:" + key, "loading restores the engine", False if fin.op == "after" and fin.a[0].endswith("::deserialize") and unp(fin.a[-1]).op == "call" else None, d["in"], show(fin)[:150])
        else:
            # text: the stream contains the loaded item only
            streams = [x for x in subnodes(fin) if x.op == "ctor" and "stringstream" in x.a[0]]
            if any(x.op == "call" and x.a[0].endswith("::deserialize") for x in subnodes(fin)) or fin.op == "after" and fin.a[0].endswith("::deserialize"):
                ok = fin.op == "after" and unp(fin.a[-1]) is got[0]
                ctx.ob("load:" + key, "the loaded state is what the engine is set to", ok, d["in"], show(fin)[:150])
            elif not streams:
                ctx.ob("load:" + key, "loading restores the engine", None, d["in"], show(fin)[:150])
            else:
                s = streams[0]
                whole = s.a[1] is got[0] or unp(s.a[1]) is got[0]
                ctx.ob("load:" + key, "the engine is parsed from exactly the loaded text", whole if whole else False, d["in"], show(s)[:150])
                # failure
                gs = {x for e in walk(I.tr) if isinstance(e, If) for x in subnodes(e.cond) if x.op == "good" and any(y is got[0] for y in subnodes(x))}
                past = {x for x in gs if contains_op(x, "inread", "argout", "after")}

                def end(val):
                    def dec(c):
                        r = V.subst(c, lambda x: (val if x in past else TRUE) if x in gs else None)
                        return True if r is TRUE else False if r is FALSE else None
                    return execute(I.tr, dec)[1]
                exc = [x for x in walk(I.tr) if isinstance(x, Eff) and x.kind == "call" and x.name.endswith("::exceptions")]
                onbad, ongood = end(FALSE), end(TRUE)
                bad = []
                if onbad not in ("throw", "unknown"):
                    bad.append("text that could not be parsed is not refused")
                if ongood == "throw":
                    bad.append("valid text is refused")
                und = exc or "unknown" in (onbad, ongood)
                ctx.ob("load:%s:fail" % key, "text that is not a state of this engine raises an error, valid text does not", None if und else not bad, d["in"], "; ".join(bad))
    # saving
    I = ctx.interp(prog, d["out"])
    io = [e for e in walk(I.tr) if isinstance(e, Eff) and e.kind == "io"]
    if I.deep or len(io) != 1 or io[0].name != "save":
        ctx.ob("save:" + key, "saving stores one item", None if io or I.deep else False, d["out"], "%d items" % len(io))
        return
    v = unp(io[0].args[1])
    E = mk("p", 1)
    fin = unp(I.read((("p", 1), ())))
    if v.op == "call" and v.a[0].endswith("::str"):
        s = unp(v.a[2])
        whole = s.op == "out" and s.a[0].op == "new" and unp(s.a[1]) is E or s.op == "argout" and E in s.a and any(x.op == "new" for x in s.a if isinstance(x, N))
        ctx.ob("save:" + key, "the text stored is the engine's own, and nothing else", whole if whole else (False if s.op in ("new", "out", "argout") else None), io[0].where(), show(s)[:150])
    elif v.op == "call" and v.a[0].endswith("::serialize"):
        ctx.ob("save:" + key, "the state stored is the engine's own", E in v.a, io[0].where(), show(v)[:150])
    else:
        ctx.ob("save:" + key, "the state stored is the engine's own", False if is_const(cn(v)) or v.op in ("str", "new") else None, io[0].where(), show(v)[:150])
    ctx.ob("save:%s:same" % key, "saving leaves the engine as it was", fin is E if fin is E or fin.op in ("after", "argout", "apply") else None, d["out"], show(fin)[:100])


def gsl(ctx, prog):
    Q = "randomutils::GSL_Engine::"

    def fn(n):
        return ctx.need(prog.find(q=Q + n), Q + n)[0]
    calls = {}
    for n in ("read", "write"):
        f = fn(n)
        I = ctx.interp(prog, f)
        c = [e for e in walk(I.tr) if isinstance(e, Eff) and e.kind == "call" and e.name.endswith("::" + n)]
        calls[n] = (f, c)
        if len(c) != 1:
            ctx.ob("gsl:" + n, "the state is transferred in one piece", None, f, "%d transfers" % len(c))
            continue
        a, l = [unp(x) for x in c[0].args[:2]]
        und = not (a.op == "call" and l.op == "call")
        ok = not und and a.a[0] == "gsl_rng_state" and l.a[0] == "gsl_rng_size" and a.a[-1] is l.a[-1] and a.a[-1].op == "fld"
        ctx.ob("gsl:" + n, "all gsl_rng_size bytes of the generator's state", ok if not und else (False if l.op in ("poly", "idiv") and any(x.op == "call" and x.a[0] == "gsl_rng_size" for x in subnodes(l)) else None), c[0].where(), "%s bytes at %s" % (show(l)[:60], show(a)[:60]))
    for n, g in (("seed", "gsl_rng_set"), ("GSL_Engine", "gsl_rng_set")):
        fs = [f for f in prog.find(q=Q + n) if len(f.params) == 1 and "GSL_Engine" not in f.tu.t(f.params[0]["t"])]
        f = ctx.need(fs, Q + n)[0]
        I = ctx.interp(prog, f)
        c = [e for e in walk(I.tr) if isinstance(e, Eff) and e.kind == "call" and e.name == g]
        ok = len(c) == 1 and unp(c[0].args[1]) is mk("p", 0)
        ctx.ob("gsl:" + n, "the generator is seeded with the number given", ok if len(c) == 1 else None if c else False, f, show(c[0].args[1]) if c else "never seeded")
    for n, g in (("operator()", "gsl_rng_get"), ("min", "gsl_rng_min"), ("max", "gsl_rng_max")):
        f = fn(n)
        I = ctx.interp(prog, f)
        r = unp(I.result) if isinstance(I.result, N) else None
        ok = r is not None and r.op == "call" and r.a[0] == g
        ctx.ob("gsl:" + n, "%s is that of the generator" % n, True if ok else (False if r is not None and (r.op == "call" and r.a[0].startswith("gsl_rng_") or r.op == "poly") else None), f, show(r)[:100] if r is not None else "")


def fields(v):
    v = unp(v) if isinstance(v, N) else None
    if v is None or v.op != "obj":
        return None
    return {k[1].split("::")[-1]: x for k, x in v.a[1]}


def seeds(ctx, prog):
    f = ctx.need(scen(prog, "makeParameterised"), "witness")
    v = fields(ctx.interp(prog, f).result)
    if v is None:
        ctx.ob("seed:ctor", "engine constructed from seed and stream", None, f, "")
    else:
        eng = [x for x in v.values() if unp(x).op == "ctor"]
        ok = len(eng) == 1 and tuple(cn(x) for x in unp(eng[0]).a[1:3]) == (cn(mk("p", 0)), cn(mk("p", 1)))
        ctx.ob("seed:ctor", "the engine is constructed from the seed and the stream given, in this order", ok if eng else None, f, show(eng[0])[:100] if eng else "")
        # what is reported
        g = ctx.need(scen(prog, "reportParameterised"), "witness")
        J = ctx.interp(prog, g)
        lab = {}
        last = ""
        for e in walk(J.tr):
            if isinstance(e, Eff) and e.kind == "out":
                a = unp(e.args[0])
                if a.op == "str":
                    last = a.a[0]
                else:
                    lab[last.strip(" ,.=")] = a
        for word, p in (("seed", 0), ("stream", 1)):
            hit = [a for l, a in lab.items() if word in l.split(".")[-1].lower()]
            if len(hit) != 1 or hit[0].op != "fld":
                ctx.ob("seed:report:" + word, word + " is reported", None, g, "")
                continue
            src = v.get(hit[0].a[1].split("::")[-1])
            ctx.ob("seed:report:" + word, "the %s reported is the one the engine was constructed from" % word, src is not None and unp(src) is mk("p", p), g, show(src)[:80] if src is not None else "")
    f = ctx.need(scen(prog, "ordo"), "witness")
    I = ctx.interp(prog, f)
    r = unp(I.result) if isinstance(I.result, N) else None
    if r is not None and r.op == "ctor" and len(r.a) >= 3:
        a, b = cn(r.a[1]), cn(r.a[2])
        sd = [x for x in atoms(a)]
        st = [x for x in atoms(b)]
        isf = lambda x, n: x.op == "fld" and x.a[1].endswith("::" + n)
        ok = a.op == "poly" and len(sd) == 1 and isf(sd[0], "seed") and a is P(sd[0]) and len(st) == 1 and isf(st[0], "prngStream") and is_const(V.sub(b, P(st[0])))
        ctx.ob("seed:ordo", "the stream of given ordinal has the seed and, up to a constant, the stream number of the parameters", ok, f, show(r)[:150])
    else:
        ctx.ob("seed:ordo", "stream from parameters", None, f, "")
    f = ctx.need(scen(prog, "next"), "witness")
    I = ctx.interp(prog, f)
    ws = [(r, p) for r, p in I.allw if r == ("p", 0)]
    if len(ws) == 1:
        v = cn(I.read(ws[0]))
        old = [x for x in atoms(v)]
        isst = ws[0][1] and ws[0][1][-1][1].endswith("::prngStream")
        dlt = V.sub(v, P(old[0])) if len(old) == 1 else None
        ctx.ob("seed:next", "the next stream has another number", (isst and dlt is not None and is_const(dlt) and dlt is not ZERO) if dlt is not None or not isst else None, f, show(v)[:100])
    else:
        ctx.ob("seed:next", "the next stream has another number", False if not ws else None, f, "%d members written" % len(ws))


def traj(ctx, prog):
    for f in prog.find(q="quantumtrajectory::mcwf::make"):
        I = ctx.interp(prog, f)
        v = fields(I.result)
        par = len(f.params) - 1
        if I.deep or v is None:
            ctx.ob("seed:trajectory", "trajectory made from parameters", None, f, "")
            continue
        hit = [x for x in v.values() if unp(x).op == "obj" and "EngineWithParameters" in unp(x).a[0]]
        w = fields(hit[0]) if hit else None
        eng = [x for x in (w or {}).values() if unp(x).op == "ctor"]
        if not eng:
            ctx.ob("seed:trajectory", "trajectory made from parameters", None, f, "")
            continue
        a = [unp(x) for x in unp(eng[0]).a[1:3]]
        want = ["seed", "prngStream"]
        isp = [x.op == "fld" and x.a[0] is mk("p", par) for x in a]
        ok = len(a) == 2 and all(isp) and [x.a[1].split("::")[-1] for x in a] == want
        ctx.ob("seed:trajectory", "the engine of a trajectory has the seed and the stream of its parameters", ok if ok or all(isp) or any(is_const(cn(x)) for x in a) or len(a) < 2 else None, f, ", ".join(show(x) for x in a))
        return
