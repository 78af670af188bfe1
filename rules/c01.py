"""C01 resuming. io: for every trajectory class and the integrator, the items loaded by stateIO(iarchive) and saved by stateIO(oarchive) are the same quantities in the same order and of the same type
(an item loaded into a local variable counts as the quantity that finally receives its value). cover: every member that a step changes and on which the next step or any output depends is among
these items, or is recomputed by loading from loaded values only (the origin of the interaction picture from the loaded time). parts: the same for the records that are stored inside (integrator
counters, jump log): every member their non-const functions change and anything reads is in serialize, in the same order both ways. ensemble: all members, each through its own stateIO."""
from sa.q import *
from sa.val import *
from sa import val as V
from sa.prog import bases_of
from sa.interp import strip_targs
from rules.mcwf import Env, ODE

TUS = ["w_ode.cc", "w_traj.cc", "CPPQEDcore/quantumtrajectory/MCWF_TrajectoryLogger.cc"]
FLOOR = {"io": 6, "cover": 4, "parts": 2, "ensemble": 1}
# one-step methods without memory between steps (trusted), and stateless distributions
SCRATCH = ("controlled_runge_kutta", "ControlledErrorStepperGSL", "uniform_real_distribution", "uniform_int_distribution")


def check(ctx):
    prog = ctx.program(TUS)
    ctx.part(trajs, prog)
    ctx.part(parts, prog)
    ctx.part(ensemble, prog)


def direction(f):
    t = f.tu.t(f.params[0]["t"])
    return "in" if "iarchive" in t else "out" if "oarchive" in t else None


def ios(I):
    return [e for e in walk(I.tr) if isinstance(e, Eff) and e.kind == "io"]


def path(n):
    """location -> (root node, tuple of field names)"""
    p = []
    while n.op in ("fld", "elem"):
        p.append(n.a[1] if n.op == "fld" else "[]")
        n = n.a[0]
    return n, tuple(reversed(p))


def nm(p):
    return ".".join(str(x).split("::")[-1] for x in p)


def classes(prog, name="stateIO"):
    """class -> {direction: function}"""
    out = {}
    for f in prog.find(name=name):
        d = direction(f)
        if d and f.cls:
            out.setdefault(f.cls, {})[d] = f
    return out


def inits(n):
    """initial member values occurring in a value: set of paths"""
    out = set()
    for x in subnodes(n):
        if x.op == "fld":
            r, p = path(x)
            if r.op == "this":
                out.add(p)
    return out


def sequences(ctx, prog, key, c, d):
    """checks that loading mirrors saving; returns (saved paths, state of the object after loading)"""
    A, B = ctx.interp(prog, d["in"]), ctx.interp(prog, d["out"])
    li, so = ios(A), ios(B)
    where = "%s and %s" % (d["in"].where(), d["out"].where())
    if A.deep or B.deep or not so:
        ctx.ob("io:" + key, "loading mirrors saving", None, where, "analysis incomplete")
        return None
    cond = any(isinstance(e, (If,)) and (list(effs(e.t, "io")) or list(effs(e.e, "io"))) for e in walk(A.tr) + walk(B.tr)) if isinstance(walk(A.tr), list) else False
    for x in list(walk(A.tr)) + list(walk(B.tr)):
        if isinstance(x, If) and (list(effs(x.t, "io")) or list(effs(x.e, "io"))):
            cond = True
    bad = []
    if any(e.name != "load" for e in li) or any(e.name != "save" for e in so):
        bad.append("saves while loading or loads while saving")
    if len(li) != len(so):
        bad.append("%d items are saved, %d loaded" % (len(so), len(li)))
    saved = []
    for k, (a, b) in enumerate(zip(li, so)):
        ra, pa = path(a.args[0])
        rb, pb = path(b.args[0])
        if rb.op != "this":
            # a temporary copy of a member is as good
            v = unp(b.args[1])
            if v is not None and path(v)[0].op == "this":
                rb, pb = path(v)
        saved.append(pb)
        if rb.op != "this":
            ctx.ob("io:%s:%d" % (key, k), "item saved", None, b.where(), "%s is not a member" % show(b.args[0])[:80])
            continue
        if (a.x or "").replace("const ", "") != (b.x or "").replace("const ", ""):
            bad.append("item %d is saved as %s and loaded as %s" % (k + 1, b.x, a.x))
        fin = A.read((("this",), tuple((".", x) for x in pb)))
        fin = unp(fin)
        seq = k + 1
        src = [x for x in ([fin] + list(subnodes(fin)) if fin is not None else []) if x.op == "loaded"]
        if fin is None or not any(x.a[1] == seq for x in src):
            bad.append("what is saved as item %d (%s) is not what item %d restores: it becomes %s" % (k + 1, nm(pb), k + 1, show(fin)[:120] if fin is not None else None))
        elif fin.op != "loaded" and inits(fin) - {pb}:
            bad.append("%s after loading still depends on earlier members: %s" % (nm(pb), show(fin)[:120]))
    ctx.ob("io:" + key, "the items loaded are those saved, in the same order (%s)" % ", ".join(nm(x) for x in saved), (None if cond else False) if bad else True, where, "; ".join(bad[:3]))
    return saved, A


def covered(p, saved):
    return any(p[:len(s)] == s for s in saved)


def steps(ctx, prog, c, f):
    """interpretations of one step of a trajectory: list of Interp"""
    if f.q == ODE or f.ncls.endswith("ode_engine::Base"):
        return [ctx.interp(prog, f)]
    out = []
    w = "structure::QuantumSystemWrapper::"
    tu = f.tu
    rec = tu.recs.get(f.d.get("cid"))
    wr = [r for r in bases_of(tu, rec) if r["q"].endswith("QuantumSystemWrapper")]
    E = Env("cppqedutils::ode_engine::Base::dtDid_", "cppqedutils::ode_engine::Base::dtTry_", ((".", "quantumdata::ArrayBase::arrayLow_"),))
    if not wr:
        return [ctx.interp(prog, f, inline=E.inline, post=E.post)]
    for caps in (("ha_", "ex_", "li_"), ("ex_", "li_"), ("ha_", "li_"), ("ha_",)):
        A = {mk("nonnull", mk("fld", mk("this"), w + x)): (TRUE if x in caps else FALSE) for x in ("ha_", "ex_", "li_")}
        E = Env("cppqedutils::ode_engine::Base::dtDid_", "cppqedutils::ode_engine::Base::dtTry_", ((".", "quantumdata::ArrayBase::arrayLow_"),))
        out.append(ctx.interp(prog, f, assume=A, inline=E.inline, post=E.post))
    return out


def fieldtype(tu, rec, p):
    """declared type of the member a path names, walking down"""
    t = ""
    for name in p:
        if name == "[]" or rec is None:
            return t
        hit = None
        for r in [rec] + bases_of(tu, rec):
            for f in r.get("fs", []):
                if r["q"] + "::" + f["n"] == name:
                    hit = f
        if hit is None:
            return t
        t = tu.t(hit["t"])
        rec = tu.recs.get(hit.get("rid"))
        if any(s in t for s in SCRATCH):
            return t
    return t


def frec(tu, rec, p):
    for name in p:
        hit = [f for r in [rec] + bases_of(tu, rec) for f in r.get("fs", []) if r["q"] + "::" + f["n"] == name]
        rec = tu.recs.get(hit[0].get("rid")) if hit else None
        if rec is None:
            return None
    return rec


def trajs(ctx, prog):
    cl = {c: d for c, d in classes(prog).items() if len(d) == 2 and "Ensemble<" not in c.split("(")[0][:60]}
    ctx.need(cl, "trajectory classes with stateIO")
    done = set()
    for c, d in sorted(cl.items()):
        key = keyof(c, done)
        r = ctx.part(one, prog, key, c, d)


def keyof(c, done):
    k = strip_targs(c).split("::")[-1]
    if "GSL" in c:
        k += "-gsl"
    if "complex" in c:
        k += "-c"
    b, i = k, 2
    while k in done:
        k = "%s-%d" % (b, i)
        i += 1
    done.add(k)
    return k


def one(ctx, prog, key, c, d):
    r = sequences(ctx, prog, key, c, d)
    if r is None:
        return
    saved, L = r
    f0 = d["in"]
    rec = f0.tu.recs.get(f0.d.get("cid"))
    st = [g for g in prog.find(name="step", cls=c)]
    if not st:
        ctx.ob("cover:" + key, "everything a step changes is saved or recomputed", None, f0, "no step")
        return
    Is = steps(ctx, prog, c, st[0])
    if any(I.deep for I in Is):
        ctx.ob("cover:" + key, "everything a step changes is saved or recomputed", None, st[0], "analysis incomplete")
        return
    # members that change
    mut = set()
    used = set()
    for I in Is:
        for root, p in I.allw:
            if root == ("this",) and p and path(unp(I.read((root, p)))) != (mk("this"), tuple(x[1] for x in p)):
                mut.add(tuple(x[1] for x in p))
        used |= uses(I)
    tu, outs_ = st[0].tu, []
    for n in ("stream", "logOnEnd", "getDtDid", "getTime", "getDtTry", "streamParameters", "averaged"):
        g = method(tu, rec, n)
        if g is not None:
            I = ctx.interp(prog, g, this_rec=rec)
            used |= uses(I)
            if isinstance(I.result, N):
                used |= inits(I.result)
    timep = None
    g = method(tu, rec, "getTime")
    if g is not None:
        v = simple_this(prog, tu, rec, "getTime")
        if v is not None and path(unp(v))[0].op == "this":
            timep = path(unp(v))[1]
    bad, und, n = [], [], 0
    for p in sorted(mut):
        n += 1
        if all(constant(unp(I.read((("this",), tuple((".", x) for x in p)))), p, mut) for I in Is):
            continue
        if covered(p, saved):
            continue
        subs = [s for s in saved if s[:len(p)] == p]
        if subs and delegated(prog, tu, rec, p, subs):
            continue
        t = fieldtype(tu, rec, p)
        if any(s in t for s in SCRATCH):
            continue
        if not any(u[:len(p)] == p or p[:len(u)] == u for u in used):
            continue            # never read before it is written
        fin = unp(L.read((("this",), tuple((".", x) for x in p))))
        if fin.op == "fld" and path(fin)[0].op == "this":
            if subs:
                und.append("%s is saved in part" % nm(p))
            else:
                bad.append("%s is changed by a step and read later, but neither saved nor recomputed on loading" % nm(p))
        elif timep is not None:
            tl = unp(L.read((("this",), tuple((".", x) for x in timep))))
            if fin is not tl:
                ini = inits(fin)
                lo = any(x.op == "loaded" for x in [fin] + list(subnodes(fin)))
                bad.append("%s is set to %s on loading, not to the loaded time" % (nm(p), show(fin)[:80])) if (ini or lo or is_const(cn(fin))) else und.append("%s becomes %s" % (nm(p), show(fin)[:80]))
    ctx.ob("cover:" + key, "each of the %d members a step changes is saved, recomputed on loading, or scratch" % n, False if bad else None if und else True, st[0], "; ".join((bad or und)[:4]))


def constant(v, p, mut):
    """a value made only of members no step changes, and of itself: the same before and after every step"""
    if v.op == "fold":
        return all(constant(unp(x), p, mut) or x.op == "lc" for x in v.a[1:])
    if v.op == "ite":
        return constant(v.a[1], p, mut) and constant(v.a[2], p, mut)
    if path(v) == (mk("this"), p):
        return True
    if p in inits(v):
        return False            # a function of its own earlier value
    for x in [v] + list(subnodes(v)):
        if x.op in ("p", "ev", "loaded", "unk", "after", "argout", "U", "J", "lc", "var"):
            return False
    return all(not any(m[:len(q)] == q or q[:len(m)] == m for m in mut) for q in inits(v) if not any(q == r[:len(q)] and q != r for r in inits(v))) and bool(inits(v))


def delegated(prog, tu, rec, p, subs):
    """a component saved item by item through its own stateIO: its own instance of the rule covers it"""
    t = frec(tu, rec, p)
    d = classes(prog).get(t["full"]) if t else None
    if not d or "out" not in d:
        return False
    I = Interp(prog)
    try:
        I.run(d["out"])
    except TooDeep:
        return False
    items = [path(e.args[0])[1] for e in ios(I)]
    return all(tuple(p) + i in subs for i in items)


def uses(I):
    """initial member values that matter: in conditions, in what is called, streamed, returned or stored"""
    out = set()

    def val(n):
        if isinstance(n, N):
            out.update(inits(n))
    for e in walk(I.tr):
        if isinstance(e, Eff):
            if e.kind == "io":
                continue
            for a in e.args:
                val(a)
            x = e.x if isinstance(e.x, dict) else {}
            if x.get("objval") is not None and e.kind == "call":
                val(x["objval"])
        elif isinstance(e, If):
            val(e.cond)
        elif isinstance(e, Loop):
            for a in (e.hdr, e.trip):
                if isinstance(a, N):
                    val(a)
        elif isinstance(e, Ctl):
            val(e.val)
    for root, v in I.st.items():
        if root == ("this",):
            # a member that ends up as a function of another one
            def fin(x, pre):
                if x.op == "upd" and x.a[1][0] == ".":
                    fin(x.a[0], pre)
                    fin(x.a[2], pre + (x.a[1][1],))
                elif x.op == "ite":
                    val(mk("ite", x.a[0], TRUE, FALSE))
                    fin(x.a[1], pre)
                    fin(x.a[2], pre)
                elif x.op == "fld" and path(x) == (mk("this"), pre):
                    pass
                elif x.op != "this":
                    for q in inits(x):
                        out.add(q)
            fin(v, ())
    return out


def parts(ctx, prog):
    """records with a serialize of their own"""
    cl = {c: d for c, d in classes(prog, "serialize").items() if len(d) == 2 and not c.endswith("SerializationMetadata")}
    ctx.need(cl, "records with serialize")
    for c, d in sorted(cl.items()):
        key = strip_targs(c).split("::")[-1]
        r = sequences(ctx, prog, "part:" + key, c, d)
        if r is None:
            continue
        saved, L = r
        mut, used = {}, set()
        for f in prog.find(pred=lambda f: f.cls == c and f.name not in ("serialize",) and not f.d.get("st")):
            if f.d.get("ctor") or f.d.get("dtor") or f.name == strip_targs(c).split("::")[-1] or f.name.startswith("~") or f.name == "operator=":
                continue
            I = ctx.interp(prog, f)
            if I.deep:
                continue
            for root, p in I.allw:
                if root == ("this",) and p:
                    mut.setdefault(tuple(x[1] for x in p), f)
            used |= uses(I)
            if isinstance(I.result, N):
                used |= inits(I.result)
                if I.result.op == "lref" and I.result.a[0] == ("this",):
                    used.add(tuple(x[1] for x in I.result.a[1]))
        bad = [(p, f) for p, f in mut.items() if not covered(p, saved)]
        # private members may be read by friends: what is accumulated is read
        hard = ["%s, changed by %s" % (nm(p), f.name) for p, f in bad if any(u[:len(p)] == p or p[:len(u)] == u for u in used)]
        ctx.ob("parts:" + key, "each of the %d members its functions change is stored" % len(mut), False if hard else None if bad or not mut else True, list(d.values())[0], "not stored: " + "; ".join(hard[:3]) if hard else "")
        if not mut:
            continue


def ensemble(ctx, prog):
    cl = {c: d for c, d in classes(prog).items() if strip_targs(c).endswith("Ensemble") and len(d) == 2}
    ctx.need(cl, "Ensemble::stateIO")
    single = classes(prog)
    for c, d in sorted(cl.items()):
        for k in ("in", "out"):
            I = ctx.interp(prog, d[k])
            L = [e for e in walk(I.tr) if isinstance(e, Loop) and list(effs(e.body, "io"))]
            n = len(ios(I))
            inner = [e for e in walk(I.tr) if isinstance(e, Inl) and e.fn.name == "stateIO" and e.fn.cls != c]
            if len(L) != 1 or I.deep:
                ctx.ob("ensemble:" + k, "every member is stored", None, d[k], "%d loops" % len(L))
                continue
            if len([e for e in effs(L[0].body, "io")]) != n:
                ctx.ob("ensemble:%s:extra" % k, "what is stored of an ensemble is stored of its members", None, d[k], "items outside the loop")
            tr = L[0].trip
            full = isinstance(tr, N) and unp(tr) is not None and unp(tr).op == "size"
            fn = [e.fn for e in inner if e.fn.cls and e.fn.cls in single]
            traj = [e for e in inner if strip_targs(e.fn.cls or "").split("::")[-1] not in ("Base",)]
            ok = full and len(traj) == 1 and not L[0].brk
            ctx.ob("ensemble:" + k, "every member of the ensemble is stored through its own stateIO", True if ok else False if (isinstance(tr, N) and tr.op == "poly" and not full and any(x.op == "size" for x in subnodes(tr))) else None, d[k], "number of members visited: %s" % (show(tr)[:80] if isinstance(tr, N) else tr))
