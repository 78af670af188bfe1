"""C22 refusal at construction, from the optimised intermediate representation of witness functions which build trajectories, composites and matrix Hamiltonians from parts of given dimensions: every mismatched construction
has to end in an exception (or not compile), every matched one has to get to its end."""
from itertools import permutations, product
from rules import irw

FLOOR = {"dimensions": 30, "trajectory": 40, "master": 20, "composite": 25, "leftOut": 8, "matrix": 4}
ASSUME = ["what holds for the dimensions examined (2 to 4 per degree of freedom, up to three of them) holds for all"]
PRE = "using namespace witness; using namespace quantumdata; "
BASE = "_ZN9structure12DynamicsBaseC2ERKNSt7__cxx114listISt5tupleIJNS1_12basic_stringIcSt11char_traitsIcESaIcEEEddEESaIS9_EEERKNS2_IS3_IJS8_St7complexIdEdEESaISG_EEE"
WRITE = "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l"
C = "CPPQEDcore/"
WHERE = {"dimensions": C + "quantumdata/DimensionsBookkeeper.h", "trajectory": C + "quantumtrajectory/Master.h", "master": C + "quantumtrajectory/Master.h", "composite": C + "composites/Composite.tcc", "leftOut": C + "composites/Composite.h",
         "matrix": "CPPQEDelements/frees/TimeIndependentMatrixHamiltonian.cc"}


def tiny(d):
    return "{%s}" % ",".join(map(str, d))


def others(d):
    """dimensions that differ from d in one place, or are those of d in another order"""
    r = [d[:i] + (d[i] + s,) + d[i + 1:] for i in range(len(d)) for s in (1, -1)]
    r += [p for p in sorted(set(permutations(d))) if p != d]
    if len(d) > 1:
        r.append((d[0] * d[1],) + (1,) + d[2:])
    return r


def check(ctx):
    jobs, want = {}, {}

    def job(name, body, exp, why, where=None):
        """exp: "throw", "end", "compile" or the list of truth values told"""
        jobs[name.replace(":", "_")] = PRE + body
        want[name] = (exp, why, where or WHERE[name.split(":")[0]])

    shapes = [(2,), (5,), (2, 3), (3, 3), (2, 3, 4), (3, 2, 2)]
    for d in shapes:
        r = len(d)
        n = "x".join(map(str, d))
        job("dimensions:%s:itself" % n, "same<%d>(%s,%s);" % (r, tiny(d), tiny(d)), [1, 0], "equal dimensions compare equal")
        for k, e in enumerate(others(d)):
            job("dimensions:%s:%d" % (n, k), "same<%d>(%s,%s);" % (r, tiny(d), tiny(e)), [0, 1], "dimensions %s and %s compare unequal" % (d, e))
    for kind, f, w in (("master", "master", "Master.h"), ("pure", "masterPure", "Master.h"), ("mcwf", "mcwf", "MCWF_Trajectory.h")):
        for d in ((2,), (2, 3), (2, 3, 4)):
            if len(d) == 3 and kind == "pure":
                continue
            n = "x".join(map(str, d))
            for s in ("system<%d>(%s)" % (len(d), tiny(d)), "turning<%d>(%s,true)" % (len(d), tiny(d))):
                t = "turning" if s[0] == "t" else "plain"
                job("trajectory:%s:%s:%s" % (kind, t, n), "%s<%d>(%s,%s);" % (f, len(d), s, tiny(d)), "end", "trajectory over a state with the dimensions of the system", C + "quantumtrajectory/" + w)
                for k, e in enumerate(others(d)):
                    if t == "turning" and k > 2:
                        continue
                    job("trajectory:%s:%s:%s:%d" % (kind, t, n, k), "%s<%d>(%s,%s);" % (f, len(d), s, tiny(e)), "throw", "trajectory over a state of dimensions %s for a system of dimensions %s" % (e, d), C + "quantumtrajectory/" + w)
    # the master equation
    for d in ((2,), (2, 3)):
        for f in ("master", "masterPure"):
            for yes in ("true", "false"):
                job("master:%s:%d:%s" % (f, len(d), yes), "%s<%d>(turning<%d>(%s,%s),%s);" % (f, len(d), len(d), tiny(d), yes, tiny(d)), "end" if yes == "true" else "throw",
                    "master equation for a system that %s it" % ("allows for" if yes == "true" else "does not allow for"))
        job("master:mcwf:%d" % len(d), "mcwf<%d>(turning<%d>(%s,false),%s);" % (len(d), len(d), tiny(d), tiny(d)), "end", "Monte Carlo trajectory for a system that does not allow for the master equation",
            C + "quantumtrajectory/MCWF_Trajectory.h")
    tf = ("false", "true")
    for a, b, i in product((None,) + tf, (None,) + tf, (None,) + tf):
        if a is b is i is None:
            continue
        ok = "false" not in (a, b, i)
        n = "".join("-" if x is None else x[0] for x in (a, b, i)).replace("-", "n")
        parts = "auto& a=%s; auto& b=%s; auto& i=%s; " % ("part(2)" if a is None else "turningPart(2,%s)" % a, "part(3)" if b is None else "turningPart(3,%s)" % b, "link(a,b)" if i is None else "turningLink(%s,a,b)" % i)
        job("master:binary:" + n, parts + "master<2>(whole<2>(*new BinarySystem<true,false,false>(i)),{2,3});", "end" if ok else "throw",
            "master equation for a binary system %s of whose parts is not applicable in it" % ("none" if ok else "one"), C + "composites/BinarySystem.cc")
    for who in range(6):
        for v in tf:
            p = ["turningPart(%d,%s)" % (k + 2, v) if who == k else "part(%d)" % (k + 2) for k in range(3)]
            l = ["turningLink(%s,%s)" % (v, x) if who == k + 3 else "link(%s)" % x for k, x in enumerate(("a,b", "b,c", "a,b,c"))]
            job("master:composite:%d%s" % (who, v), "auto& a=%s; auto& b=%s; auto& c=%s; master<3>(whole<3>(compose<true>(composite::_<0,1>(%s),composite::_<1,2>(%s),composite::_<0,1,2>(%s))),{2,3,4});" % tuple(p + l),
                "end" if v == "true" else "throw", "master equation for a composite, part %d of which is %sapplicable in it" % (who, "" if v == "true" else "not "), C + "composites/Composite.tcc")
    # composites
    P = "auto& a=part(2); auto& b=part(3); auto& c=part(4); "
    good = {"chain": ("_<0,1>(link(a,b))", "_<1,2>(link(b,c))"), "reversed": ("_<1,2>(link(b,c))", "_<0,1>(link(a,b))"), "turned": ("_<1,0>(link(b,a))", "_<1,2>(link(b,c))"), "ring": ("_<0,1>(link(a,b))", "_<1,2>(link(b,c))", "_<0,2>(link(a,c))"),
            "ringTurned": ("_<0,1>(link(a,b))", "_<2,1>(link(c,b))", "_<2,0>(link(c,a))"), "all": ("_<0,1,2>(link(a,b,c))",), "allTurned": ("_<2,0,1>(link(c,a,b))",), "allAndTwo": ("_<0,1,2>(link(a,b,c))", "_<0,2>(link(a,c))"),
            "twice": ("_<0,2>(link(a,c))", "_<0,2>(link(a,c))", "_<0,1>(link(a,b))")}
    for n, acts in good.items():
        job("composite:good:" + n, P + "dims<3>(compose<false>(%s),{2,3,4});" % ",".join("composite::" + x for x in acts), [1, 1, 1], "composite %s of parts that match; it has the dimensions of the parts" % (acts,))
    bad = {"chain": ("_<0,1>(link(a,b))", "_<1,2>(link(part(3),c))"), "chainOther": ("_<0,1>(link(a,b))", "_<1,2>(link(part(2),c))"), "exchanged": ("_<0,1>(link(a,b))", "_<1,2>(link(a,c))"), "turned": ("_<1,0>(link(a,b))", "_<1,2>(link(b,c))"),
           "ring": ("_<0,1>(link(a,b))", "_<1,2>(link(b,c))", "_<0,2>(link(part(2),c))"), "ringLast": ("_<0,1>(link(a,b))", "_<1,2>(link(b,c))", "_<0,2>(link(a,part(4)))"), "ringOrder": ("_<0,1>(link(a,b))", "_<1,2>(link(b,c))", "_<0,2>(link(c,a))"),
           "allFirst": ("_<0,1,2>(link(a,b,c))", "_<0,2>(link(part(2),c))"), "allSecond": ("_<0,1,2>(link(a,b,c))", "_<0,1>(link(a,part(3)))"), "allThird": ("_<0,1,2>(link(a,b,c))", "_<2,1>(link(part(4),b))"),
           "twoThenAll": ("_<0,2>(link(a,c))", "_<0,1,2>(link(a,b,part(4)))"), "twice": ("_<0,1>(link(a,b))", "_<0,1>(link(a,part(3)))", "_<1,2>(link(b,c))"),
           "last": ("_<1,2>(link(b,c))", "_<0,1>(link(a,part(3)))"), "first": ("_<1,2>(link(b,c))", "_<1,0>(link(part(3),a))"), "twoAlls": ("_<0,1,2>(link(a,b,c))", "_<2,1,0>(link(c,b,part(2)))"),
           "twoAllsMiddle": ("_<0,1,2>(link(a,b,c))", "_<0,1,2>(link(a,part(3),c))")}
    for n, acts in bad.items():
        job("composite:bad:" + n, P + "dims<3>(compose<false>(%s),{2,3,4});" % ",".join("composite::" + x for x in acts), "throw", "composite %s, in which a subsystem is not the same for two interactions" % (acts,))
    # left out: does not compile, with everything in place it does
    for n, idx in {"first": ("1,2",), "middle": ("0,2",), "second": ("0,2", "0,3", "2,3"), "third": ("0,1", "1,3", "0,3"), "firstOfFour": ("1,2", "2,3"), "all": ("1,2,3",), "allMiddle": ("0,1,3", "0,1"), "one": ("0,1,2", "0,4", "2,4")}.items():
        acts = ",".join("composite::_<%s>(link(%s))" % (x, ",".join("p[%s]" % y for y in x.split(","))) for x in idx)
        job("leftOut:" + n, "structure::FreePtr p[]={part(2),part(2),part(2),part(2),part(2)}; compose<false>(%s);" % acts, "compile", "composite of interactions %s, where a subsystem is left out" % (idx,))
        m = max(int(y) for x in idx for y in x.split(","))
        miss = [k for k in range(m + 1) if not any(str(k) in x.split(",") for x in idx)]
        more = acts + "".join(",composite::_<%d,%d>(link(p[%d],p[%d]))" % ((k, m) * 2) for k in miss)
        job("leftOut:%s:none" % n, "structure::FreePtr p[]={part(2),part(2),part(2),part(2),part(2)}; compose<false>(%s); last(true);" % more, "end", "composite of interactions %s, completed" % (idx,))
    # matrices
    for a, b in ((2, 3), (3, 2), (1, 2), (4, 3)):
        job("matrix:%dx%d" % (a, b), "CMatrix m(%d,%d); m=0.; new TimeIndependentMatrixHamiltonian(m); last(true);" % (a, b), "throw", "Hamiltonian of a %d by %d matrix" % (a, b))
    for a in (1, 2, 3):
        job("matrix:square%d" % a, "CMatrix m(%d,%d); m=0.; new TimeIndependentMatrixHamiltonian(m); last(true);" % (a, a), "write", "Hamiltonian of a %d by %d matrix, until its parameters are written" % (a, a))
    F = irw.flows(ctx, "w_build.cc", jobs, size=10, sinks=irw.SINKS | {BASE, WRITE})
    for n, (exp, why, where) in want.items():
        calls, how = F[n.replace(":", "_")]
        told = [a[0] for c, a in calls if c == "last"]
        detail = how
        if exp == "compile":
            st = None
            if how.startswith("compile"):
                st = True if "static assertion failed" in how and "omposite" in how else None
            elif how == "end":
                st, detail = False, "it compiles and gets to its end"
            elif how == "throw":
                st = True
            text = "refused: " + why
        elif exp == "throw":
            st = True if how == "throw" and not told else False if told else None
            if told or how == "end":
                st, detail = False, "no exception is thrown"
            text = "refused: " + why
        elif exp == "write":
            st = True if how == "end" or any(c == WRITE for c, a in calls) else False if how == "throw" or how.startswith("fault") else None
            text = "accepted: " + why
        else:
            st = None
            if how == "throw" or how.startswith("fault"):
                st = False
            elif how.startswith("compile"):
                st = False if "static assertion failed" in how else None
            elif how == "end":
                st = True
                if isinstance(exp, list):
                    t = [irw.number(x) for x in told]
                    st = True if t == exp else None if None in t or len(t) != len(exp) else False
                    detail = "told %s, expected %s" % (t, exp)
            text = ("" if n.startswith("dimensions") else "accepted: ") + why
        ctx.ob(n, text, st, where, detail)
