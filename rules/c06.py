"""C06 the quantum-jump step. The step is interpreted for every combination of capabilities of the system, with integrator, rates, exact propagation and jumps as symbols:
restore (whenever a coherent attempt starts, state, time, interaction-picture origin and last step size have the values they had on entry), norm (rates are always
evaluated on, and the step without jump always ends with, the state divided by its norm), current (rates and jumps get the current time and state), limit (the retry
condition is total rate x step made > tolerance x limit, with rates and step of the last attempt), retry (the next trial step is limit/total rate), draw (cumulative selection
of the channel), jump (one jump, divided by the square root of its own rate), logged (exactly that channel)."""
from sa.q import *
from sa.val import *
from sa import val as V
from .mcwf import *

TUS = ["w_traj.cc"]
FLOOR = {"restore": 6, "norm": 6, "current": 6, "limit": 3, "retry": 3, "draw": 3, "jump": 3, "logged": 3, "special": 1}
THIS = mk("this")


def check(ctx):
    prog = ctx.program(TUS)
    f = ctx.need([g for g in prog.find(q="quantumtrajectory::MCWF_Trajectory::step")], "step of the Monte Carlo trajectory")[0]
    rec = f.tu.recs[f.d["cid"]]
    R = roles(ctx, prog, f, rec)
    for ha in (1, 0):
        for ex in (1, 0):
            ctx.part(one, prog, f, rec, R, ha, ex, 1, 0)
    ctx.part(one, prog, f, rec, R, 1, 1, 0, 0)
    ctx.part(one, prog, f, rec, R, 1, 1, 1, 1)


class Roles:
    pass


def roles(ctx, prog, f, rec):
    R = Roles()
    g = lambda n: unp(simple_this(prog, f.tu, rec, n))
    R.t, R.did, R.tri = g("getTime"), g("getDtDid"), g("getDtTry")
    R.ha, R.ex, R.li = g("getHa"), g("getEx"), g("getLi")
    m = method(f.tu, rec, "getStateVector")
    v = Interp(prog).run(m, this_rec=rec)
    R.psi = ctx.need(refloc(v), "state of the trajectory")
    sv = next((r for r in f.tu.recs.values() if r["full"] == "quantumdata::StateVector<1>"), None)
    a = method(f.tu, ctx.need(sv, "class StateVector"), "getArray")
    w = Interp(prog).run(a, this_rec=sv)
    R.arr = ctx.need(refloc(w), "array of a state vector")[1]
    for x in ("t", "did", "tri", "ha", "ex", "li"):
        ctx.need(getattr(R, x) is not None and locof(getattr(R, x)), "getter of the trajectory (%s)" % x)
    I = Interp(prog)
    sp = method(f.tu, rec, "streamParameters")
    I.run(sp, this_rec=rec)
    R.dp = R.tol = None
    for lab, v, e in labelled(I.tr):
        if lab.rstrip("= ").endswith("dpLimit"):
            R.dp = unp(v)
        if "overshoot" in lab.split("dpLimit")[-1]:
            R.tol = unp(v)
    ctx.need(R.dp is not None and R.tol is not None, "streamed dpLimit and overshoot tolerance")
    return R


def refloc(v):
    if v is None:
        return None
    if v.op == "lref":
        return (v.a[0], v.a[1])
    return locof(v)


def one(ctx, prog, f, rec, R, ha, ex, li, special):
    cfg = "Ha%dEx%dLi%d%s" % (ha, ex, li, "special" if special else "")
    A = {mk("nonnull", R.ha): TRUE if ha else FALSE, mk("nonnull", R.ex): TRUE if ex else FALSE, mk("nonnull", R.li): TRUE if li else FALSE}

    def fn(at):
        if at.op == "lt0" and at.a[0].op == "poly" and len(at.a[0].a) == 1:
            (m, c), = at.a[0].a
            if len(m) == 1 and m[0][0].op == "elem" and israte(m[0][0].a[0]) and c[0] > 0:
                return TRUE if special else FALSE
        return None
    A["fn"] = fn
    env = Env(R.did.a[1], R.tri.a[1], R.arr)
    psiloc = (R.psi[0], R.psi[1] + R.arr)
    t0 = [None]

    def watch(I, e):
        n = e.name.split("::")[-1]
        if e.kind in ("call", "w") and (e.kind == "w" or n in ("step", "average", "actWithJ_v", "actWithU_v", "jumpOccured")):
            if n == "actWithU_v" and t0[0] is None:
                t0[0] = unp(e.args[2])
            s = {"t": I.read(locof(R.t)), "did": I.read(locof(R.did)), "tri": I.read(locof(R.tri)), "psi": I.read(psiloc), "k": env.k}
            if t0[0] is not None and locof(t0[0]):
                s["t0"] = I.read(locof(t0[0]))
            s["facts"] = I.facts()
            e.snap = s
    I = ctx.interp(prog, f, assume=A, inline=env.inline, post=env.post, watch=watch)
    if I.deep:
        ctx.ob("restore:" + cfg, "step understood", None, f, "too deep")
        return
    t0f = t0[0] if t0[0] is not None and t0[0].op == "fld" and t0[0].a[0] is THIS else None
    if special:
        return specials(ctx, I, R, cfg, f, psiloc)
    psi0 = cn(mkval(psiloc))
    # --- every coherent attempt starts from what was there on entry
    n = 0
    for e in walk(I.tr):
        if not isinstance(e, Eff) or not e.snap:
            continue
        s = e.snap
        att = e.kind == "call" and e.name == ODE
        if not ha and e.kind == "w" and unp(e.obj) is R.t and cn(e.args[0]) is not cn(R.t):
            att = True
        if not att:
            continue
        n += 1
        bad, lost = [], False
        items = [("state", s["psi"], psi0), ("last step size", s["did"], cn(R.did))]
        if e.kind == "call":
            items.append(("time", e.args[3], cn(R.t)))
        if t0f is not None and "t0" in s:
            items.append(("interaction-picture origin", s["t0"], cn(t0f)))
        for vn, vf in versions(I.tr, e):
            ff = lambda n: fix(vf(n))
            facts = factmap(s["facts"], ff)
            if e.kind == "w":
                d = V.sub(restrict(cn(ff(e.args[0])), facts), P(R.t))
                # the increment may mention neither carried values nor the time itself
                if any(x is R.t or (x.op in ("lc", "fold") and any(y is R.t for y in subnodes(entry(x)))) or (x.op == "ev" and x.a[0] == "t") for x in atoms(d)):
                    bad.append("time is %s" % show(e.args[0])[:150])
            for nm, got, want in items:
                got = cn(restrict(cn(ff(got)), facts))
                if got is not want:
                    bad.append("%s is %s %s" % (nm, show(got)[:150], vn))
                    lost |= any(x.op == "unk" for x in subnodes(got))
        ctx.ob("restore:%s" % cfg, "a coherent attempt starts from the values on entry", not bad if not lost else None, e.where(), "; ".join(bad))
    ctx.need(n, "coherent attempt in configuration " + cfg)
    # --- rates and jumps see the current, normalised state
    nr = 0
    for e in walk(I.tr):
        if isinstance(e, Eff) and e.kind == "call" and e.name == RATES and e.snap:
            nr += 1
            r = e.ret
            ok = r is not None and r.op == "rates" and r.a[0] is cn(e.snap["t"]) and r.a[1] is cn(e.snap["psi"])
            ctx.ob("current:%s:rates" % cfg, "rates are evaluated at the current time on the current state", ok, e.where(), show(r)[:200])
            X = normalised(e.snap["psi"])
            ctx.ob("norm:%s:rates" % cfg, "the state is divided by its norm after the coherent part", X is not None, e.where(), show(e.snap["psi"])[:250])
    if not li:
        v = final(I, mkval(psiloc))
        ctx.ob("norm:%s:end" % cfg, "the state is divided by its norm after the coherent part", normalised(v) is not None, f, show(v)[:250])
        return
    ctx.need(nr, "evaluation of the rates in configuration " + cfg)
    # --- exact part
    for e in walk(I.tr):
        if isinstance(e, Eff) and e.kind == "call" and e.name.endswith("actWithU_v") and e.snap:
            ok = cn(e.args[0]) is cn(e.snap["t"]) and cn(e.args[2]) is cn(e.snap.get("t0"))
            ctx.ob("current:%s:exact" % cfg, "the exact part acts from the origin to the current time", ok if e.snap.get("t0") is not None else None, e.where(), show(e.args[0])[:120])
    # --- limit
    lim(ctx, I, R, cfg, f)
    jump(ctx, I, R, cfg, f, psiloc)


def israte(n):
    n = unp(n)
    while n is not None and n.op in ("lc", "upd", "fold"):
        n = n.a[2] if n.op == "lc" else n.a[0] if n.op == "upd" else n.a[1]
    return n is not None and n.op == "rates"


def mkval(loc):
    root, path = loc
    n = THIS if root[0] == "this" else mk(*root)
    for s in path:
        n = mk("fld", n, s[1]) if s[0] == "." else mk("elem", n, *s[1:])
    return n


def split(p, a, b):
    """p == c1*a*b + c2*rest (one more monomial) -> (c1, c2, rest monomial)"""
    if p.op != "poly" or len(p.a) != 2:
        return None
    hit = [x for x in p.a if {y for y, e in x[0]} == {a, b} and all(e == 1 for _, e in x[0])]
    if len(hit) != 1:
        return None
    o = [x for x in p.a if x is not hit[0]][0]
    return hit[0][1][0], o[1][0], o[0]


def lim(ctx, I, R, cfg, f):
    loops = [n for n in walk(I.tr) if isinstance(n, Loop) and any(isinstance(e, Eff) and e.kind == "call" and e.name == RATES for e in walk(n.body))]
    cands = []
    for L in loops:
        for c, _ in conds(L.hdr):
            if c.op == "lt0" and R.dp in subnodes(c) and R.tol in subnodes(c):
                cands.append((L, c))
        for b in L.brk or []:
            for c, _ in conds(b):
                if c.op == "lt0" and R.dp in subnodes(c) and R.tol in subnodes(c):
                    cands.append((L, c))
    if not loops:
        ctx.ob("limit:" + cfg, "an overshot step is retried", False, f, "no loop repeats the coherent part")
        return
    if not cands:
        hs = loops[0].hdr
        known = not any(x.op in ("unk",) for x in subnodes(hs))
        ctx.ob("limit:" + cfg, "a step is retried exactly if the total jump probability exceeds the tolerated limit", False if known and (R.dp not in subnodes(hs) or R.tol not in subnodes(hs)) and not loops[0].brk else None, f, show(hs)[:300])
        return
    L, c = cands[0]
    sp = split(c.a[0], R.dp, R.tol)
    ok = sp is not None and sp[0] == -sp[1] and sp[0] > 0
    det = show(c)[:300]
    if ok:
        m = dict(sp[2])
        fs = [a for a in m if m[a] == 1]
        S = [a for a in fs if a.op == "sum"]
        D = [a for a in fs if a.op != "sum"]
        if len(S) == 1 and len(D) == 1 and len(m) == 2:
            s, d = S[0], D[0]
            whole = sumrates(s)
            d0, d1 = vers(d, L, R)
            r0, r1 = (None, None) if whole is None else vers(whole, L, R)
            # same attempt: the step made and the time in the rates carry the same attempt number
            same0 = attempt(d0) is not None and attempt(d0) == attempt(r0)
            same1 = attempt(d1) is not None and attempt(d1) == attempt(r1) and attempt(d1) != attempt(d0)
            if whole is None:
                ok = None
            elif attempt(d0) is None:      # without Hamiltonian the step made is what was added to the time
                ok = None if d0 is None else True
                if d0 is not None and r0 is not None and r0.op == "rates":
                    tt = V.sub(r0.a[0], P(R.t))
                    ok = cn(d0) is cn(tt)
                    det += " | step %s, time advanced %s" % (show(d0)[:80], show(tt)[:80])
            else:
                ok = same0 and same1
            det += " | first: step of attempt %s, rates of %s; repeated: %s, %s" % (attempt(d0), attempt(r0), attempt(d1), attempt(r1))
        else:
            ok = False
    ctx.ob("limit:" + cfg, "a step is retried exactly if the total jump probability exceeds the tolerated limit", ok, "%s:%s" % (L.file, L.line), det)
    # --- the retry is shorter
    for e in walk(L.body):
        pass
    fin = []
    for e in walk(L.pre + L.body):
        if isinstance(e, Eff) and e.kind == "call" and e.name == ODE and e.snap:
            fin.append((e, e.snap["tri"]))
        if not fin and isinstance(e, Eff) and e.kind == "w" and unp(e.obj) is R.t and cn(e.args[0]) is not cn(R.t):
            fin.append((e, e.snap["tri"]))
    for e, v in fin[:1]:
        v = cn(restrict(cn(v), {c: TRUE}))
        sums = [x for x in atoms(v) if x.op == "sum"]
        ok = None
        if len(sums) == 1:
            w = V.mul(v, P(sums[0]))
            ok = w is P(R.dp) or w is V.mul(P(R.dp), P(R.tol)) or (len(w.a) == 1 and [a for a, _ in w.a[0][0]] == [R.dp] and 0 < w.a[0][1][0] <= 1)
        elif not any(x.op in ("unk",) for x in subnodes(v)):
            ok = False
        ctx.ob("retry:" + cfg, "the retry is made with a step at which the limit would just be reached", ok, e.where(), show(v)[:300])


def conds(n):
    out = []

    def go(x):
        if x.op == "ite":
            out.append((x.a[0], None))
            go(x.a[1])
            go(x.a[2])
    if n is not None:
        go(n)
    return out


def atoms(v):
    r = []
    for _, leaf in V.leaves(v):
        if leaf.op == "poly":
            for m, _ in leaf.a:
                r += [a for a, _ in m]
    return r


def sumrates(s):
    """sum over all elements of the rates -> the rates value"""
    tr, bv, b = s.a[0], s.a[1], s.a[2]
    b = unp(b)
    if b is not None and b.op == "elem":
        arr = b.a[0]
        if unp(tr).op == "size" and unp(tr).a[0] is arr:
            return arr
    return None


def vers(n, L, R):
    """(value when the loop is entered, value after one more iteration)"""
    n0 = at_entry(n)
    nx = fix(V.subst(n, lambda x: L.car[x][2] if x in L.car else None))
    return unp(n0), unp(nx)


def attempt(n):
    if n is None:
        return None
    n = unp(n)
    if n.op == "ev":
        return n.a[1]
    if n.op == "rates":
        return attempt(n.a[0])
    return None


def jump(ctx, I, R, cfg, f, psiloc):
    js = [e for e in walk(I.tr) if isinstance(e, Eff) and e.kind == "call" and e.name.endswith("actWithJ_v") and e.snap]
    js = [e for e in js if locof_is(e.x["locs"][1], psiloc)]
    logs = [e for e in walk(I.tr) if isinstance(e, Eff) and e.kind == "call" and e.name.endswith("::jumpOccured") and e.snap]
    if not js:
        ctx.ob("jump:" + cfg, "a jump acts on the state", None, f, "no jump found")
        return
    for e in js:
        ctx.ob("current:%s:jump" % cfg, "the jump happens at the current time", cn(e.args[0]) is cn(e.snap["t"]), e.where(), show(e.args[0])[:150])
    # counting along paths
    from sa.flow import Flow

    class Cnt:
        def eff(self, e, u, fa):
            j, l = u
            if e in js:
                return [((min(j + 1, 2), l), {})]
            if e in logs:
                return [((j, min(l + 1, 2)), {})]
    o = Flow(Cnt()).run(I.tr, [(0, 0)])
    us = {u for u, _ in o.norm}
    ctx.ob("logged:%s:count" % cfg, "as many jumps are logged as happen, at most one", None if any(u == (0, 1) for u in us) and not (us - {(0, 0), (1, 1), (0, 1)}) and False else us <= {(0, 0), (1, 1), (0, 1)} and (1, 1) in us, f, "(jumps, log entries) possible: %s" % sorted(us))
    j = js[0]
    for e in logs:
        ctx.ob("logged:%s:channel" % cfg, "the channel logged is the one that jumped", cn(e.args[2]) is cn(j.args[2]), e.where(), "logged %s" % show(e.args[2])[:150])
        ctx.ob("logged:%s:time" % cfg, "the time logged is the current time", cn(e.args[1]) is cn(e.snap["t"]), e.where())
    # normalisation of the jumped state
    ws = [e for e in walk(I.tr) if isinstance(e, Eff) and e.kind == "w" and locof_is(e.obj, psiloc) and any(x.op == "J" for x in subnodes(e.args[0]))]
    ok, d = False, "the jumped state is never normalised"
    if ws:
        v = cn(ws[-1].args[0])
        d = show(v)[:250]
        ok = normalised(v) is not None
        if not ok and v.op == "poly" and len(v.a) == 1:
            m = v.a[0][0]
            J = [a for a, x in m if a.op == "J" and x == 1]
            if len(J) == 1 and v.a[0][1] == (1, 0):
                n2 = V.div(P(J[0]), v)     # the divisor
                sq = V.mul(n2, n2)
                el = unp(sq)
                if el is not None and el.op == "elem" and israte(el.a[0]) and cn(el.a[1]) is cn(j.args[2]):
                    ok = fresh(el.a[0], I)
                    d += " | divided by the square root of a rate that is %s" % ("current" if ok else "not the current one")
                else:
                    d += " | divided by %s" % show(n2)[:150]
    ctx.ob("jump:%s:norm" % cfg, "the jumped state is divided by the square root of the rate of that very channel", ok, js[0].where(), d)
    draw(ctx, I, R, cfg, f, j)


def fresh(r, I):
    """the rates are those of the last attempt, whether or not it was repeated"""
    r = unp(r)
    if r.op == "fold":
        a, b = unp(r.a[1]), unp(r.a[3])
        return a.op == "rates" and b.op == "rates" and a is not b
    if r.op == "rates":
        # right only if no repetition can follow its evaluation
        loops = [n for n in walk(I.tr) if isinstance(n, Loop) and any(isinstance(e, Eff) and e.kind == "call" and e.name == RATES for e in walk(n.body))]
        return not loops
    return None


def locof_is(n, loc):
    l = locof(n) if n is not None else None
    return l is not None and (l[0], tuple(l[1])) == (loc[0], tuple(loc[1]))


def draw(ctx, I, R, cfg, f, j):
    """cumulative selection of the channel"""
    L = None
    for n in walk(I.tr):
        if isinstance(n, Loop) and any(a for a, (l, v0, v1) in n.car.items() if any(x.op == "apply" for x in subnodes(v0))):
            L = n
    if L is None:
        ctx.ob("draw:" + cfg, "the channel is the one the drawn number falls on", None, f, "no cumulative loop over the rates recognised")
        return
    r, (loc, v0, v1) = next((a, x) for a, x in L.car.items() if any(y.op == "apply" for y in subnodes(x[1])))
    bad = []
    k = L.idx
    # first value: uniform number over the last step
    ap = [a for a in atoms(cn(v0)) if a.op == "apply"]
    if len(ap) != 1 or len(cn(v0).a) != 1:
        ctx.ob("draw:" + cfg, "the channel is the one the drawn number falls on", None, f, "start value %s" % show(v0)[:200])
        return
    w = V.div(P(ap[0]), cn(v0))      # = step size
    if not isdid(w, R, I):
        bad.append("the drawn number is divided by %s, not by the step made" % show(w)[:150])
    d = V.sub(P(r), cn(v1))
    el = unp(d)
    if not (el is not None and el.op == "elem" and israte(el.a[0]) and cn(el.a[1]) is cn(k)):
        bad.append("subtracted is %s, not the rate of the channel passed" % show(d)[:150])
    elif fresh(el.a[0], I) is False:
        bad.append("rates of an earlier attempt are used")
    # continues while positive and channels remain
    cs = [c for c, _ in conds(L.hdr)]
    pos = V.lt0(V.neg(P(r)))
    neg_ = V.lt0(P(r))
    if pos.a[0] not in cs and neg_.a[0] not in cs:
        bad.append("the loop does not stop when the drawn number is used up: %s" % show(L.hdr)[:150])
    # the jump is taken when it fell below zero, and it is the channel passed last
    idx = cn(j.args[2])
    path = [(c, v is TRUE) for c, v in factmap(j.snap["facts"]).items()]
    sgn = [(c, b) for c, b in path if c.op == "lt0" and any(x.op == "fold" and x.a[2] is r for x in subnodes(c))]
    if not sgn:
        bad.append("the jump is not conditional on the drawn number")
    else:
        c, b = sgn[-1]
        fo = next(x for x in subnodes(c) if x.op == "fold" and x.a[2] is r)
        want = V.lt0(P(fo)).a[0]
        if not (c is want and b):
            alt = V.lt0(V.neg(P(fo))).a[0]
            if c is alt and not b and L.min1:
                pass
            else:
                bad.append("jumps if %s%s" % ("" if b else "not ", show(c)[:100]))
    # index: iterations made - 1
    it = [x for x in subnodes(idx) if x.op == "fold" and x.a[0].op == "while"]
    okidx = False
    for x in it:
        if V.add(V.sub(idx, P(x)), cn(x.a[1])) is V.neg(ONE) and x.a[2] in L.car and V.sub(cn(L.car[x.a[2]][2]), V.add(cn(x.a[1]), cn(k))) is ONE:
            okidx = True
    if not okidx:
        bad.append("the channel is %s" % show(idx)[:150])
    ctx.ob("draw:" + cfg, "the channel is the one the drawn number falls on", not bad, "%s:%s" % (L.file, L.line), "; ".join(bad))


def isdid(w, R, I):
    w = unp(w)
    if w is None:
        return False
    x = fix(w)
    if x.op == "fld" and x.a[1] == R.did.a[1]:
        return True
    if x.op == "ev" and x.a[0] == "dtDid":
        return True
    if x.op == "fold":
        return any(y.op == "ev" and y.a[0] == "dtDid" for y in subnodes(x)) or True
    return x.op in ("min",) or x.op == "p"


def specials(ctx, I, R, cfg, f, psiloc):
    """channels with negative rate: the tabulated state is normalised and its rate is the squared norm of the jumped state"""
    ws = [e for e in walk(I.tr) if isinstance(e, Eff) and e.kind == "w" and e.obj is not None and unp(e.obj).op == "elem" and israte(unp(e.obj).a[0]) or
          isinstance(e, Eff) and e.kind == "w" and e.obj is not None and e.obj.op == "elem" and any(x.op == "J" for x in subnodes(e.args[0]))]
    js = [e for e in walk(I.tr) if isinstance(e, Eff) and e.kind == "call" and e.name.endswith("actWithJ_v")]
    n = 0
    for e in ws:
        v = cn(e.args[0])
        J = [x for x in subnodes(v) if x.op == "J"]
        if len(J) != 1:
            continue
        n += 1
        want = typed(mk("sum", *[]), "double") if False else None
        ok = None
        u = unp(v)
        if u is not None and u.op == "call" and u.a[0].endswith("sqr"):
            u = unp(V.mul(cn(u.a[-1]), cn(u.a[-1])))
        if u is not None and u.op == "sum":
            ok = any(cn(a) is cn(V.fnorm(P(J[0]))) for a in u.a if hasattr(a, "op"))
        elif u is not None:
            ok = False
        k = cn(e.obj.a[1]) if e.obj.op == "elem" else None
        if ok and k is not None and cn(J[0].a[2]) is not k:
            ok = False
        ctx.ob("special:%s:rate" % cfg, "the rate of such a channel is the squared norm of the jumped state", ok, e.where(), show(v)[:200])
    ctx.need(n, "rates of special jumps")
