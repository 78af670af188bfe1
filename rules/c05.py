"""C05 tolerances. Scenario functions (construction directly, from the parameter bundle and through a trajectory, with both engines) are interpreted abstractly:
tol (the argument that the underlying library calls absolute/relative is the one the user gave in that role), reported (the value streamed under a label is the one in
effect under that name), handed (initial step, log level), registered (parameter names), trial (typestate: a trial of the GSL stepper counts exactly if the library
reported success and did not ask for a decrease of the step; otherwise state and time are restored)."""
from sa.q import *
from sa.flow import Flow
from sa import val as V

TUS = ["w_tol.cc"]
FLOOR = {"tol": 6, "reported": 6, "handed": 4, "registered": 3, "trial": 3}
ASSUME = ["odeint: make_controlled(abs,rel,stepper), default_error_checker(abs,rel,...); a rejected try_step leaves state and time unchanged",
          "GSL: gsl_odeiv2_control_standard_new(abs,rel,a_y,a_dydt); gsl_odeiv2_step_apply restores y on failure; hadjust returns DEC when the error is above the tolerance"]


def check(ctx):
    prog = ctx.program(TUS)
    for f in (tolerances, registration, trials):
        ctx.part(f, prog)


def role(v, er, ea):
    v = cn(v)
    return "epsRel" if v is cn(er) else "epsAbs" if v is cn(ea) else "other"


def tolerances(ctx, prog):
    for kind in ("direct", "pars", "sim"):
        for eng in ("boost", "GSL"):
            f = ctx.need(scen(prog, "scenario_%s_%s" % (kind, eng)), "scenario")
            I = ctx.interp(prog, f)
            if kind == "direct":
                er, ea, ll, dt = mk("p", 2), mk("p", 3), mk("p", 1), mk("p", 0)
            else:
                p = mk("p", 1 if kind == "pars" else 2)
                q = "cppqedutils::ode_engine::Pars::"
                er, ea, ll = [mk("fld", p, q + x) for x in ("epsRel", "epsAbs", "logLevel")]
                dt = mk("p", 0 if kind == "pars" else 3)
            sites = []
            for e in walk(I.tr):
                if isinstance(e, Eff) and e.kind in ("call", "ctor", "make"):
                    n = e.name.split("::")[-1]
                    if n in ("make_controlled", "default_error_checker", "gsl_odeiv2_control_standard_new", "gsl_odeiv2_control_y_new"):
                        sites.append(e)
            ctx.need(sites, "construction of the stepper's error control")
            for e in sites:
                if len(e.args) < 2:
                    continue
                ra, rr = role(e.args[0], er, ea), role(e.args[1], er, ea)
                ok = ra == "epsAbs" and rr == "epsRel"
                lost = any(V_lost(x) for x in e.args[:2]) and not ok
                ctx.ob("tol:%s:%s" % (eng, kind) + ("" if ok else ":abs<-%s,rel<-%s" % (ra, rr)), "%s engine (%s): absolute and relative tolerance in their own roles" % (eng, kind),
                       None if lost else ok, e.where(), "absolute <- %s, relative <- %s" % (show(e.args[0])[:200], show(e.args[1])[:200]))
                if n_gsl(e) and len(e.args) > 2 and cn(e.args[2]) is cn(ZERO):
                    ctx.ob("tol:%s:%s:a_y" % (eng, kind), "the relative tolerance refers to the state", False, e.where())
            for lab, v, e in labelled(I.tr):
                tail = lab.rstrip("= :").split(" ")[-1].split(",")[-1]
                if tail in ("epsRel", "eps", "epsAbs"):
                    want = ea if tail == "epsAbs" else er
                    ctx.eq("reported:%s:%s:%s" % (eng, kind, tail), "value streamed as %s" % tail, v, want, e.where())
            # initial step and log level: what the getters and the closing log use
            for e in effs(I.tr, "w"):
                pass
            rec = next((r for t in prog.tus for r in t.recs.values() if r["q"] == "cppqedutils::ode_engine::Base" and short(r["full"]) == eng), None)
            ctx.need(rec, "engine class")
            tu = next(t for t in prog.tus if any(r is rec for r in t.recs.values()))
            g = simple_this(prog, tu, rec, "getDtTry")
            fld = unp(g).a[1] if g is not None and unp(g).op == "fld" else None
            for e in walk(I.tr):
                if isinstance(e, Eff) and e.kind == "w" and fld and e.obj is not None and e.obj.op == "fld" and e.obj.a[1] == fld and e.name == "init":
                    ctx.eq("handed:%s:%s:dt" % (eng, kind), "the initial step is the one given", e.args[0], dt, e.where())
            if kind == "pars":
                c = [n for n in walk(I.tr) if isinstance(n, If) and any("Number of" in (text(v) or "") or "Total" in (text(v) or "") for v, _ in outs(n.t))]
                if not c and any(x.fn.name == "logOnEnd" for x in inls(I.tr)):
                    ctx.ob("handed:%s:loglevel" % eng, "the closing log is governed by the log level given", False, f, "whether the closing log is written does not depend on any parameter")
                for n in c:
                    ok = n.cond is not None and mentions(n.cond, ll)
                    ctx.ob("handed:%s:loglevel" % eng, "the closing log is governed by the log level given", ok if ok or not V_lost(n.cond) else None, n_where(n), show(n.cond)[:200])


def n_gsl(e):
    return e.name.endswith("standard_new")


def n_where(n):
    return "%s:%s in %s" % (getattr(n, "file", ""), n.line, n.fn)


def short(c):
    return "GSL" if "StepperGSL" in c else "boost" if "controlled_runge_kutta" in c else "?"


def V_lost(x):
    from sa.ctx import opaque_in
    return opaque_in(x)


def registration(ctx, prog):
    f = ctx.need(scen(prog, "scenario_reg"), "scenario")
    I = ctx.interp(prog, f, inline=lambda g: g.q != "parameters::Table::add")
    for i, name in ((1, "eps"), (2, "epsAbs"), (3, "logLevel")):
        v = final(I, mk("p", i))
        u = unp(v) if v is not None else None
        strs = [x.a[0] for x in u.a if hasattr(x, "op") and x.op == "str"] if u is not None and u.op == "call" and u.a[0].endswith("Table::add") else None
        ctx.ob("registered:" + name, "the parameter --%s is the one handed on in that role" % name, None if not strs else strs[0] == name, f, "registered under %s" % (strs,))


class Trial:
    def __init__(self, y):
        self.y = y
        self.n = 0

    def eff(self, e, u, f):
        st, had, dirty = u
        n = e.name.split("::")[-1]
        if e.kind == "call" and n == "gsl_odeiv2_step_apply":
            self.n += 1
            r = unp(e.ret) if e.ret is not None else None
            return [(("ok", had, True), {r: ZERO}), (("failed", had, False), {r: V.neg(ONE)})] if r is not None else None
        if e.kind == "call" and n == "gsl_odeiv2_control_hadjust":
            r = unp(e.ret) if e.ret is not None else None
            return [((st, "DEC", dirty), {r: V.neg(ONE)}), ((st, "NIL", dirty), {r: ZERO}), ((st, "INC", dirty), {r: ONE})]
        if st != "none" and e.kind in ("call", "w"):
            tgt = list(e.args[:1] if n == "memcpy" else e.args[-1:] if n in ("copy", "copy_n", "copy_backward", "transform") else [])
            if e.kind == "w" and e.obj is not None:
                tgt = [e.obj]
            if n in ("swap", "assign", "operator="):
                tgt = list(e.args) + ([e.obj] if e.obj is not None else [])
            if any(mentions(t, self.y) for t in tgt if hasattr(t, "op")):
                return [((st, had, False), {})]
        return None


def trials(ctx, prog):
    fs = ctx.need(prog.find(q="cppqedutils::ode_engine::ControlledErrorStepperGSL::try_step"), "trial step of the GSL stepper")
    f = fs[0]
    I = ctx.interp(prog, f)
    if I.deep:
        ctx.ob("trial:GSL", "trial step understood", None, f)
        return
    y, t, dt = mk("p", 1), mk("p", 2), mk("p", 3)
    rule = Trial(y)
    o = Flow(rule).run(I.tr, [("none", None, False)])
    if not rule.n:
        ctx.ob("trial:GSL", "trial step understood", None, f, "no call of gsl_odeiv2_step_apply")
        return
    tf, df = final(I, t), final(I, dt)
    seen = set()
    for u, facts in o.norm:
        m = dict(facts)
        rv = V.subst(I.result, lambda n: m.get(n))
        tv = V.subst(tf, lambda n: m.get(n))
        rv, tv = cn(restrict(rv, m)), cn(restrict(tv, m))
        st, had, dirty = u
        good = st == "ok" and had in ("NIL", "INC")
        if st == "ok" and had is None:
            k, ok, d = "noerr", False, "a step is accepted without its error having been judged"
        elif good:
            k = "accepted:%s" % had
            ok = rv is ZERO and tv is cn(V.add(P(t), P(dt)))
            d = "returns %s with time %s" % (show(rv), show(tv))
        else:
            k = "rejected:%s" % (had or st)
            ok = rv is ONE and tv is cn(P(t)) and not dirty
            d = "returns %s with time %s, state %s" % (show(rv), show(tv), "not restored" if dirty else "as before")
        lost = not ok and (V_lost(rv) or V_lost(tv) or rv.op == "ite" or tv.op == "ite")
        if (k, ok) in seen:
            continue
        seen.add((k, ok))
        ctx.ob("trial:GSL:" + k, "a trial %s by the library" % ("accepted" if good else "rejected"), None if lost else ok, f, d[:500])
        if st == "failed":
            dv = cn(restrict(V.subst(df, lambda n: m.get(n)), m))
            c = V.div(dv, P(dt)) if hasattr(V, "div") else None
            if c is not None and c.op == "poly" and (not c.a or (len(c.a) == 1 and not c.a[0][0])):
                x = c.a[0][1][0] if c.a else 0
                ctx.ob("trial:GSL:shrink", "a failed trial is repeated with a smaller step", 0 < x < 1, f, "new step %s" % show(dv))
