"""C04 time stepping. Rules over the value graph and effect tree of the integrator's step, of every trajectory's step, of advance/advanceTo and of the run loop:
clamp (what is handed to the stepper is the given interval or is guarded to be no longer), retry (typestate: step ends only after a successful trial),
did (reported step = time after - time before), keep (a suggestion survives a much shorter step), counters, interval (the interval reaches the integrator
unchanged), advance (ends exactly when the remaining interval is zero, each step gets exactly the remaining interval), run (never asks for more than what remains)."""
from sa.q import *
from sa.flow import Flow
from sa.val import *
from sa import val as V

TUS = ["w_ode.cc", "w_traj.cc"]
FLOOR = {"clamp": 2, "retry": 2, "did": 2, "keep": 2, "counters": 6, "interval": 3, "advance": 2, "run": 3}


def guard_ok(path, leaf, dT, forward=False):
    """leaf no longer than dT on this path? True / False / None (related by an unrecognised condition)"""
    leaf, dT = cn(leaf), cn(dT)
    if leaf is dT:
        return True
    u = unp(leaf)
    m = dict(path)
    pos = forward or m.get(lt(ZERO, dT)) is True or m.get(lt(dT, ZERO)) is False
    negv = m.get(lt(ZERO, dT)) is False or m.get(lt(dT, ZERO)) is True
    if u.op == "min" and pos and any(cn(x) is dT for x in u.a):
        return True
    if u.op == "max" and negv and any(cn(x) is dT for x in u.a):
        return True
    a, d = V.fabs_(leaf), V.fabs_(dT)
    unknown = False
    for c, b in path:
        if c.op == "lt0":
            if lt(d, a) is c and not b:
                return True
            if c is lt(a, d) and b:
                return True
            sn = subnodes(c)
            if any(x in sn for x in atoms(leaf)) and any(x in sn for x in atoms(dT)):
                if c is lt(a, d) or lt(d, a) is c:
                    continue
                # a comparison with a constant multiple of either is no bound unless the factor says so; anything else is not understood
                f = factor(c.a[0], a, d)
                if f is None and factor(c.a[0], leaf, dT):
                    continue      # a comparison of the signed values bounds nothing by itself
                if f is None:
                    unknown = True
                elif b and f[0] > 0 > f[1] and f[0] >= -f[1]:      # f0*a + f1*d < 0
                    return True
                elif not b and f[0] < 0 < f[1] and -f[0] >= f[1]:  # !(f1*d + f0*a < 0) -> a*|f0| <= d*f1
                    return True
        if sign_guard(path, leaf, dT):
            return True
    if unknown or opaque(leaf):
        return None
    return False


def sign_guard(path, leaf, dT):
    """dT's sign known on the path and leaf on the near side of dT"""
    m = dict(path)
    pos, negv = m.get(lt(ZERO, dT)), m.get(lt(dT, ZERO))
    if (pos is True or negv is False) and (m.get(lt(dT, leaf)) is False or m.get(lt(leaf, dT)) is True):
        return True
    if (negv is True or pos is False) and (m.get(lt(leaf, dT)) is False or m.get(lt(dT, leaf)) is True):
        return True
    return False


def lt(x, y):
    c = V.lt0(V.sub(x, y))
    return c.a[0] if c.op == "ite" else c


def factor(p, a, d):
    """p == fa*a + fd*d with rational constants -> (fa, fd)"""
    if p.op != "poly":
        return None
    ua, ud = unp(a), unp(d)
    fa = fd = 0
    for m, c in p.a:
        if len(m) == 1 and m[0][1] == 1 and c[1] == 0:
            if m[0][0] is ua:
                fa = c[0]
                continue
            if m[0][0] is ud:
                fd = c[0]
                continue
        return None
    return (fa, fd)


def opaque(n):
    return any(x.op in ("unk", "fold", "opaque", "lc", "undef") for x in subnodes(n))


class Retry:
    """state: 'none' | 'succ' | 'fail' (outcome of the last trial)"""

    def __init__(self, trial):
        self.trial = trial
        self.n = 0

    def eff(self, e, u, f):
        r = self.trial(e)
        if r is None:
            return None
        self.n += 1
        r = unp(r)
        return [("succ", {r: ZERO}), ("fail", {r: ONE})]


def check(ctx):
    prog = ctx.program(TUS)
    for f in (engines, trajectories, advances, runs):
        ctx.part(f, prog)


def short(c):
    return "GSL" if "StepperGSL" in c else "boost" if "controlled_runge_kutta" in c else "?"


def engines(ctx, prog):
    fs = ctx.need(prog.find(q="cppqedutils::ode_engine::Base::step"), "step of the integrator")
    seen = set()
    for f in fs:
        rec = f.tu.recs[f.d["cid"]]
        eng = short(f.cls)
        if eng in seen:
            continue
        seen.add(eng)
        I = ctx.interp(prog, f, inline=lambda g: g.name != "try_step")
        if I.deep:
            ctx.ob("clamp:" + eng, "interval respected", None, f, "analysis too deep")
            continue
        dT = P(mk("p", 0))
        tr = [e for e in effs(I.tr, "call", "try_step")]
        ctx.need(tr, "trial step of the %s engine" % eng)
        did = unp(simple_this(prog, f.tu, rec, "getDtDid"))
        tryf = unp(simple_this(prog, f.tu, rec, "getDtTry"))
        ctx.need(did is not None and tryf is not None and locof(did) and locof(tryf), "getDtDid/getDtTry of the integrator")
        # --- clamp: the value of the step to try when the first trial is made
        for k, e in enumerate(tr):
            dt = e.args[-1]
            v = entry(dt)
            res = []
            for path, leaf in leaves(v):
                res.append((guard_ok(path, leaf, dT), path, leaf))
            ok = False if any(r[0] is False for r in res) else None if any(r[0] is None for r in res) else True
            bad = [r for r in res if r[0] is False]
            ctx.ob("clamp:%s%s" % (eng, "" if not k else k), "the step handed to the stepper never exceeds the given interval", ok, e.where(),
                   "tries %s when %s" % (show(bad[0][2]), [(show(c), b) for c, b in bad[0][1]]) if bad else "")
        # --- retry until success
        rule = Retry(lambda e: e.ret if e.kind == "call" and e.name.endswith("::try_step") else None)
        o = Flow(rule).run(I.tr, ["none"])
        us = {u for u, _ in o.norm}
        ctx.ob("retry:" + eng, "the step returns only after a successful trial", us == {"succ"}, f, "possible last outcomes when it returns: %s" % sorted(us))
        # --- reported step
        tloc = mk("p", 3)
        t1 = final(I, tloc)
        got, want = cn(final(I, did)), V.sub(t1, P(tloc))
        ctx.ob("did:" + eng, "the reported step is time after minus time before", True if got is want else (None if any(x.op == "unk" for x in subnodes(got)) else False), f, "reported %s" % show(got)[:400])
        # --- suggestion survives a much shorter step
        fin = cn(final(I, tryf))
        t0 = P(tryf)
        ok, det = False, "no branch keeps the earlier suggestion"
        for c in {x for x in subnodes(fin) if x.op == "lt0"}:
            fc = factor(c.a[0], V.fabs_(t0), V.fabs_(dT))
            if fc and fc[0] < 0 < fc[1] and fc[1] > -fc[0]:
                r = restrict(fin, {c: TRUE, mk("eq0", t0): FALSE})
                r = restrict(r, {x: FALSE for x in subnodes(r) if x.op == "eq0" and x.a[0] is t0})
                if r is t0:
                    ok, det = True, ""
                else:
                    det = "after a much shorter step the next try is " + show(r)[:300]
        ctx.ob("keep:" + eng, "the step-size suggestion from before a much shorter step is kept", ok, f, det)
        # --- counters
        counters(ctx, prog, f, rec, I, eng, tr)


def roles(prog, tu, rec):
    """counter fields by what they are called in the closing log"""
    f = method(tu, rec, "logOnEnd")
    if f is None:
        return {}
    I = Interp(prog)
    try:
        I.run(f, this_rec=rec)
    except TooDeep:
        return {}
    out, label = {}, None
    for e in effs(I.tr, "out"):
        v = e.args[0]
        if v.op == "str":
            label = v.a[0].lower()
        elif label and locof(v):
            k = "fail" if "fail" in label else "derivs" if ("rhs" in label or "call" in label) else "steps" if "step" in label else None
            if k:
                out[k] = unp(v)
            label = None
    return out


def counters(ctx, prog, f, rec, I, eng, tr):
    ro = roles(prog, f.tu, rec)
    if set(ro) != {"fail", "derivs", "steps"}:
        ctx.ob("counters:%s.roles" % eng, "the closing log names the three counters", False if not ro else None, f, "found %s" % sorted(ro))
        return
    s = final(I, ro["steps"])
    d = V.sub(s, P(ro["steps"]))
    ctx.ob("counters:%s.steps" % eng, "a completed step is counted once", d is ONE, f, "count changes by %s" % show(d)[:200])
    # failed attempts: the amount added is a loop count incremented once per failed trial
    fin, ini = final(I, ro["fail"]), P(ro["fail"])
    ok, det = None, ""
    folds = [x for x in subnodes(fin) if x.op == "fold" and not any(y is not x and y.op == "fold" and x in subnodes(y) for y in subnodes(fin))]
    if fin is ini:
        ok, det = False, "failed attempts are never added"
    elif len(folds) == 1:
        F = folds[0]
        v0, lc, v1, brk = F.a[1], F.a[2], F.a[3], F.a[4:]
        rest = V.sub(fin, P(F))
        one = V.sub(v1, P(lc))
        step = ONE if v1.op == "poly" and (one is ONE or v1 is V.add(ONE, P(mk("idx", 0)))) else None
        same_brk = all(b in (P(lc), lc) or b is P(mk("idx", 0)) for b in brk)
        if (rest is ini and v0 is ZERO) or (rest is ZERO and v0 is ini):
            ok = step is ONE and same_brk
            det = "" if ok else "per failed trial the counter goes from %s to %s" % (show(lc)[:60], show(v1)[:200])
        else:
            ok, det = False, "the counter becomes %s" % show(fin)[:300]
    else:
        det = "counter becomes " + show(fin)[:300]
        if not opaque(fin):
            ok = False
    # the loop continues exactly after failed trials: one iteration = one failed trial (typestate shows it ends on success; here: no success continues)
    ctx.ob("counters:%s.failed" % eng, "every failed attempt is counted once", ok, f, det)
    # derivative evaluations: the functional handed to the stepper counts once and evaluates once
    e = tr[0]
    lam = e.args[0]
    ok, det = None, "the functional handed to the stepper is not a known closure"
    J = Interp(prog)
    h = I.handles.get(lam.a[0]) if lam.op == "lam" else None
    try:
        r = apply_closure(I, lam)
        if r is not None:
            J, calls, ini_, fin_ = r
            d = V.sub(fin_(ro["derivs"]), ini_(ro["derivs"]))
            ok = d is ONE and calls == 1
            det = "per evaluation the counter changes by %s and the system is evaluated %s times" % (show(d)[:100], calls)
    except TooDeep:
        pass
    ctx.ob("counters:%s.derivs" % eng, "every derivative evaluation is counted once", ok, f, det)


def apply_closure(I, lam):
    """abstractly calls the closure once on fresh arguments, from the state at the end of step"""
    if lam.op != "lam":
        return None
    y, dy, t = (I.temp(mk("arg", n), n) for n in ("y", "dydt", "t"))
    base = len(I.tr)
    before = dict(I.st)
    tr0 = I.tr
    I.tr = []
    I.exits = []
    vals = [mk("lref", *y), mk("lref", *dy), mk("lref", *t)]
    I.call_value(lam, None, 0, None, argvals=vals)
    tr = I.tr
    I.tr = tr0
    st1 = I.st

    def rd(st):
        def g(n):
            I.st = st
            v = I.read(locof(n), "unsigned long")
            I.st = st1
            return v
        return g
    n = 0
    for e in effs(tr):
        if e.kind in ("call", "icall", "ocall", "apply") and len(e.args) >= 3 and (mentions_loc(e, "y")):
            n += 1
    for i in inls(tr):
        if i.fn.name == "operator()" and i.fn.body is not None and len(i.args) == 3 and not (i.fn.cls or "").startswith("(lambda"):
            n += 1
    return I, n, rd(before), rd(st1)


def mentions_loc(e, name):
    return any(isinstance(a, N) and any(x.op == "arg" and x.a[0] == name for x in subnodes(a)) for a in e.args)


TRAJ = ["cppqedutils::Simulated", "quantumtrajectory::Master", "quantumtrajectory::MCWF_Trajectory"]


def trajectories(ctx, prog):
    seen = set()
    for q in TRAJ:
        fs = ctx.need(prog.find(q=q + "::step"), q + "::step")
        for f in fs:
            key = q.split("::")[-1] + "." + short(f.cls)
            if key in seen:
                continue
            seen.add(key)
            I = ctx.interp(prog, f, inline=lambda g: not (g.q == "cppqedutils::ode_engine::Base::step"))
            if I.deep:
                ctx.ob("interval:" + key, "interval handed on", None, f, "too deep")
                continue
            dT = P(mk("p", 0))
            st = [e for e in effs(I.tr, "call", pred=lambda e: e.name == "cppqedutils::ode_engine::Base::step")]
            ctx.need(st, "integrator step in " + q)
            bad = [e for e in st if cn(e.args[0]) is not dT]
            ctx.ob("interval:" + key, "the integrator gets exactly the interval the trajectory was given", not bad if not bad or not opaque(bad[0].args[0]) else None, (bad or st)[0].where(),
                   "gets %s" % show(bad[0].args[0])[:300] if bad else "")
            # time advanced without the integrator (no Hamiltonian): guarded by the interval, and reported
            rec = f.tu.recs[f.d["cid"]]
            tf = unp(simple_this(prog, f.tu, rec, "getTime"))
            if q.endswith("MCWF_Trajectory"):
                nohamil(ctx, key, f, I, dT, tf)


def nohamil(ctx, key, f, I, dT, tf):
    """steps of pure decay: the time is advanced by min(suggestion, interval), and that is reported"""
    n = 0
    tloc = I.locval(locof(tf))
    for e in effs(I.tr, "w"):
        if e.obj is tloc and e.name in ("+=", "=", "-="):
            v = e.args[0]
            for path, leaf in leaves(v):
                ds = [V.sub(leaf, c) for c in cur_times(leaf, tf)]
                d = ds[0]
                if ZERO in ds or leaf_is_cache(leaf, tf):
                    continue
                gs = [guard_any(path, x, dT) for x in ds]
                g = True if True in gs else None if None in gs else False
                n += 1
                ctx.ob("interval:%s.nohamiltonian%d" % (key, n), "without a Hamiltonian the step is no longer than the interval either", g, e.where(), "advances by %s" % show(d)[:200])
    return n


def cur_times(v, tf):
    r = [P(x) for x in atoms(v) if x is tf or (x.op == "lc" and x.a[1].endswith(tf.a[1]))]
    return r or [P(tf)]


def leaf_is_cache(v, tf):
    return v is P(tf)


def guard_any(path, d, dT):
    if d is dT:
        return True
    for c, b in path:
        # min without absolute values (forward time)
        if c is lt(dT, d) and not b or c is lt(d, dT) and b:
            return True
    return guard_ok(path, d, dT, True)


def advances(ctx, prog):
    fs = ctx.need(prog.find(q="cppqedutils::advance"), "advance")
    seen = set()
    for f in fs:
        ta = f.d.get("ta", "")
        kind = "Ensemble" if "Ensemble" in ta else "MCWF" if "MCWF" in ta else "Master" if "Master" in ta else "Simulated"
        eng = short(ta)
        key = kind + "." + eng
        if key in seen:
            continue
        seen.add(key)
        I = ctx.interp(prog, f, inline=lambda g: g.name not in ("step",) and not (g.name == "advance" and g is not f))
        if I.deep:
            continue
        steps = [e for e in effs(I.tr, "call", "step")]
        if not steps:
            adv = [e for e in effs(I.tr, "call", "advance")]
            if adv:
                ok = all(cn(e.args[0]) is P(mk("p", 1)) for e in adv)
                ctx.ob("advance:" + key, "advancing hands the interval on unchanged", ok, adv[0].where(), show(adv[0].args[0]))
            else:
                ctx.ob("advance:" + key, "advancing steps the trajectory", False, f, "no step is made")
            continue
        loops = [n for n in walk(I.tr) if isinstance(n, Loop) and any(x is steps[0] for x in walk([n]))]
        if not loops:
            ctx.ob("advance:" + key, "advancing repeats steps until the time is reached", False, f, "a single step is made")
            continue
        # time of the trajectory as seen in the loop
        times = [x for x in atoms(steps[0].args[0]) if x.op in ("fld", "call") or x.op == "lc"]
        T0 = None
        rest = steps[0].args[0]
        rec = None
        g = getter_of(prog, f, I)
        if g is None:
            ctx.ob("advance:" + key, "advance", None, f, "no time getter")
            continue
        t0, tcur = g
        want = V.sub(V.add(t0, P(mk("p", 1))), tcur(steps[0]))
        hd = loops[0].hdr
        ok1 = steps[0].args[0] is want
        ctx.ob("advance:%s.remaining" % key, "each step gets exactly the remaining interval", ok1 if ok1 or not opaque_unk(steps[0].args[0]) else None, steps[0].where(), "gets %s, remaining is %s" % (show(steps[0].args[0])[:200], show(want)[:200]))
        exit_ = V.eq0(want)
        cont = V.bnot(exit_)
        brk = [n for n in own(loops[0].body) if isinstance(n, Ctl) and n.kind in ("break", "return")]
        bc = FALSE
        for b in loops[0].brk:
            bc = V.bor(bc, b)
        if hd is cont and not brk or V.bor(V.bnot(hd), bc) is exit_:
            ok2 = True
        else:
            ok2 = None if opaque_unk(hd) or opaque_unk(bc) else False
        ctx.ob("advance:%s.end" % key, "advancing ends exactly when nothing remains", ok2, f, "loops while %s" % show(hd)[:300])
    fs = prog.find(q="cppqedutils::advanceTo")
    for f in fs[:2]:
        I = ctx.interp(prog, f, inline=lambda g: g.name not in ("step", "advance"))
        adv = [e for e in effs(I.tr, "call", "advance")]
        g = getter_of(prog, f, I)
        if len(adv) == 1 and g:
            want = V.sub(P(mk("p", 1)), g[0])
            ctx.eq("advance:to." + short(f.d.get("ta", "")), "advancing to a time advances by what is missing", adv[0].args[1], want, adv[0].where())
        else:
            ctx.ob("advance:to." + short(f.d.get("ta", "")), "advancing to a time advances once", False if not adv else None, f)


def opaque_unk(n):
    return any(x.op in ("unk", "fold", "opaque") for x in subnodes(n))


def getter_of(prog, f, I):
    """(initial time of parameter 0, function giving the time value inside the loop body at the effect)"""
    t = f.tu.t(f.params[0]["t"]).rstrip("& ").replace("const ", "").strip()
    rec = f.tu.recbyfull.get(t)
    if rec is None:
        c = [r for r in f.tu.recs.values() if r["full"].replace(" ", "") == t.replace(" ", "")]
        rec = c[0] if c else None
    if rec is None:
        q = strip_targs(t)
        c = [r for r in f.tu.recs.values() if r["q"] == q and short(r["full"]) == short(t) and any(g.name == "getTime" and g.d.get("cid") == r["id"] for g in f.tu.fnlist)]
        rec = c[0] if c else None
    if rec is None:
        return None
    v = simple_this(prog, f.tu, rec, "getTime")
    if v is None:
        return None
    fl = unp(v)

    def on(base):
        return V.P(typed(rebase(fl, base), "double"))

    def cur(e):
        o = e.obj
        # value of the trajectory object at the call
        x = None
        for at in atoms(e.args[0]):
            y = at
            while y.op == "fld":
                y = y.a[0]
            if y.op == "lc":
                x = y
        return on(x) if x is not None else on(mk("p", 0))
    return on(mk("p", 0)), cur


def rebase(fl, base):
    if fl.op == "this":
        return base
    if fl.op == "fld":
        return mk("fld", rebase(fl.a[0], base), fl.a[1])
    return fl


def runs(ctx, prog):
    fs = ctx.need(prog.find(q="cppqedutils::trajectory::run"), "the run loop")
    seen = set()
    for f in fs:
        ta = f.d.get("ta", "")
        if "Simulated" not in ta or short(ta) != "boost":
            continue
        pl, pd = f.tu.t(f.params[1]["t"]), f.tu.t(f.params[2]["t"])
        mode = ("T" if pl in ("double", "float") else "N") + ("Dt" if pd in ("double", "float") else "dc")
        if mode in seen:
            continue
        seen.add(mode)
        I = ctx.interp(prog, f, inline=lambda g: not (g.name in ("step", "advance", "stream", "readViaSStream", "writeViaSStream", "streamParameters", "logOnEnd") and g is not f))
        if I.deep:
            ctx.ob("run:" + mode, "run", None, f, "too deep")
            continue
        es = [e for e in effs(I.tr, "call") if e.name in ("cppqedutils::trajectory::step", "cppqedutils::advance", "cppqedutils::Simulated::step")]
        if not es:
            ctx.ob("run:" + mode, "the run advances its trajectory", False, f, "no advance")
            continue
        for k, e in enumerate(es):
            off = 0 if e.name.endswith("Simulated::step") else 1
            v = cn(e.args[off])
            # the trajectory's time occurs in the value as a field of the (loop-carried) trajectory
            L = P(mk("p", 1))
            F = P(mk("p", 2))
            if mode[0] == "N":
                ok = v is F
                ctx.ob("run:%s.%d" % (mode, k), "each interval of a fixed-number run has the given length", ok if ok or not opaque_unk(v) else None, e.where(), show(v)[:200])
                continue
            res = []
            u = unp(v)
            if u.op == "min" and any(remaining(cn(x), L) for x in u.a):
                res.append(True)
                v = num(0)
            for path, leaf in ([] if res else leaves(v)):
                d = V.sub(L, leaf)          # must be the current time for the leaf 'remaining'
                if remaining(leaf, L):
                    res.append(True)
                elif leaf is F:
                    # guarded: not (remaining < F)
                    g = None
                    for c, b in path:
                        if c.op == "lt0":
                            p = c.a[0]
                            g = lin_guard(p, b, L, F) if g is None or g is False else g
                    res.append(g if g is not None else False)
                else:
                    res.append(None if opaque_unk(leaf) else False)
            ok = False if False in res else None if None in res else True
            ctx.ob("run:%s.%d" % (mode, k), "the run never asks for more than what remains until its end time", ok, e.where(), show(v)[:300])


def remaining(x, L):
    """x == end - (a field of the trajectory, its time)?"""
    u = unp(V.sub(L, x))
    return u.op == "fld" and root(u).op in ("p", "lc")


def root(u):
    while u.op == "fld":
        u = u.a[0]
    return u


def lin_guard(p, b, L, F):
    """p<0 == b implies F <= L - t ?  p is linear in F and L"""
    uF, uL = unp(F), unp(L)
    cF = cL = None
    for m, c in p.a:
        if len(m) == 1 and m[0][0] is uF and m[0][1] == 1:
            cF = c[0]
        if len(m) == 1 and m[0][0] is uL and m[0][1] == 1:
            cL = c[0]
    if cF is None or cL is None or cF != -cL:
        return False
    # remaining t part must have coefficient -cL ... p = cL*(L - t - F)
    if b:
        return cL < 0          # cL*(L-t-F) < 0 with cL<0  =>  L-t > F
    return cL > 0              # not (L-t-F < 0)  =>  F <= L-t
