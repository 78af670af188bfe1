"""C11 slicing. axes: slices of an array that keeps track of its own axes, for all ordered choices of retained axes up to rank 4, read from the optimised intermediate representation; every combination of the dummy indices
once, the retained axes in the order given. array: the same for blitz arrays, state vectors and (diagonal) density operators with undefined elements. refused / accepted: ill-formed slicings do not compile, well-formed do."""
import itertools
from concurrent.futures import ThreadPoolExecutor
from rules import irw, c10
from rules.irw import amp, mat, compare, outs
from rules.c12 import flat, indices, DIM
from sa import ir

FLOOR = {"axes": 80, "array": 15, "refused": 6, "accepted": 3}
ASSUME = ["what holds for the shapes examined holds for all shapes of that rank"]
W = "CPPQEDutils/SliceIterator.tcc"
LB, UB = [0, 1, 0, 0, 0], [1, 3, 1, 1, 1]


def choices(R, full=True):
    for k in range(1, R + 1 if full else R):
        for v in itertools.permutations(range(R), k):
            yield v


def vec(v):
    return "tmptools::Vector<%s>" % ",".join(map(str, v))


def name(v):
    return "".join(map(str, v))


def check(ctx):
    ctx.part(axes)
    ctx.part(arrays)
    ctx.part(illformed)


def axes(ctx):
    jobs, want = {}, {}
    for R in (1, 2, 3, 4) + ((5,) if ctx.tier == "thorough" else ()):
        for v in choices(R):
            if R == 5 and len(v) > 3:
                continue
            want["%d_%s" % (R, name(v))] = (R, v, vec(v))
    for R, lo, hi in ((3, 0, 2), (3, 1, 3), (4, 1, 3)):
        want["range%d_%d%d" % (R, lo, hi)] = (R, tuple(range(lo, hi)), "tmptools::Range<%d,%d>" % (hi - lo, lo))
    for R, v in ((2, (1,)), (2, (0,))):
        want["extended%d_%s" % (R, name(v))] = (2 * R, v + tuple(R + a for a in v), "tmptools::ExtendVector_t<%d,%s>" % (R, vec(v)))
    for R, v in ((3, (1,)), (3, (2, 0)), (4, (1, 2))):
        want["negated%d_%s" % (R, name(v))] = (R, tuple(a for a in range(R) if a not in v), "tmptools::NegatedVector<%d,%s>" % (R, vec(v)))
    for R in (1, 2):
        for k, side in enumerate(("Left", "Right")):
            want["%s%d" % (side, R)] = (2 * R, tuple(range(k * R, k * R + R)), "blitzplusplus::vfmsi::LeftRight<%d,blitzplusplus::vfmsi::%s>" % (R, side))
    for n, (R, v, V) in want.items():
        N = 1
        for a in range(R):
            if a not in v:
                N *= UB[a] - LB[a] + 1
        jobs[n] = "witness::slices<%d,%s>(std::make_integer_sequence<int,%d>{});" % (R, V, N)
    F = irw.flows(ctx, "w_slice.cc", jobs, size=25)
    for n, (R, v, V) in want.items():
        calls, how = F[n]
        key = "axes:" + n
        desc = "every combination of the dummy indices is visited once, the retained axes are those given, in that order"
        rest = [a for a in range(R) if a not in v]
        expect = {}
        for m in itertools.product(*[range(LB[a], UB[a] + 1) for a in rest]):
            f = [-1] * 5
            for a, i in zip(rest, m):
                f[a] = i
            expect[tuple([len(v)] + list(v) + [-1] * (5 - len(v)) + f)] = 0
        bad = None
        if how.startswith(("compile", "lost")):
            ctx.ob(key, desc, None, W, how)
            continue
        if how != "end":
            bad = how
        ends = [a[0] for c, a in calls if c == "last"]
        lost = False
        for c, a in calls:
            if c == "visit" and not bad:
                if not all(isinstance(x, int) for x in a):
                    lost = True
                    continue
                a = tuple(a)
                if a not in expect:
                    bad = "a slice with the axes %s and the dummy indices %s (by axis) is visited" % (list(a[1:1 + a[0]]), [x for x in a[6:6 + R]])
                elif expect[a]:
                    bad = "the slice with the dummy indices %s is visited twice" % [x for x in a[6:6 + R]]
                else:
                    expect[a] = 1
        if not bad and ends and all(isinstance(e, int) for e in ends) and [e & 1 for e in ends] != [0] * (len(ends) - 1) + [1]:
            bad = "the end is not where the last of the %d combinations has been visited" % len(expect)
        if not bad and not lost and not all(expect.values()):
            bad = "%d combinations are not visited" % sum(1 for x in expect.values() if not x)
        ctx.ob(key, desc, False if bad else None if lost else True, W, bad or "")


def arrays(ctx):
    jobs, info = {}, {}
    for R in (2, 3):
        for v in choices(R):
            N = 1
            for a in range(R):
                if a not in v:
                    N *= DIM[R][a]
            for kind in ("CArray", "StateVector", "DensityOperator"):
                if kind == "DensityOperator" and len(v) == R and R == 3:
                    continue
                n = "%s%d_%s" % (kind, R, name(v))
                obj = "*witness::%s<%d>(0)" % ("mixed" if kind == "DensityOperator" else "pure", R)
                if kind == "CArray":
                    obj = "witness::pure<%d>(0)->getArray()" % R
                jobs[n] = "witness::slices<%s,%s>(%s,std::make_integer_sequence<int,%d>{});" % (vec(v), kind, obj, N)
                info[n] = (kind, R, v)
    F = irw.flows(ctx, "w_data.cc", jobs, size=7)
    for n, (kind, R, v) in info.items():
        calls, how = F[n]
        o = outs(calls)
        d = DIM[R]
        rest = [a for a in range(R) if a not in v]
        dv = [d[a] for a in v]
        def at(i, m):
            x = [0] * R
            for a, k in list(zip(v, i)) + list(zip(rest, m)):
                x[a] = k
            return flat(x, d)
        want = {}
        for m in indices([d[a] for a in rest]):
            want[m] = {(flat(i, dv), flat(j, dv)): (mat(0, at(i, m), at(j, m)) if kind == "DensityOperator" else amp(0, at(i, m))) for i in indices(dv) for j in (indices(dv) if kind == "DensityOperator" else [(0,) * len(v)])}
        # the combinations may come in any order
        desc = "the slices show the elements with the retained indices varied and the dummy ones fixed, each combination once"
        key = "array:" + n
        if how.startswith("compile") or how.startswith("lost"):
            ctx.ob(key, desc, None, W, how)
            continue
        left, bad = dict(want), None
        for k in sorted(o):
            g = {ij: L[0] for ij, L in o[k].items()}
            hit = [m for m, t in left.items() if set(t) == set(g) and all(irw.same(g[ij], t[ij]) for ij in t)]
            if hit:
                del left[hit[0]]
            elif not bad:
                bad = "slice %d shows (0,0) = %s, ... which is none of the slices still to come" % (k - 1000, g.get((0, 0)))
        if not bad and left:
            bad = "the slice for the dummy indices %s does not come" % (list(left)[0],)
        if how.startswith("fault"):
            bad = how
        ctx.ob(key, desc, not bad, W, bad or "")
        ends = [(a[2], a[3]) for c, a in calls if c == "shape" and a[1] == -1]
        ctx.ob("array:%s:end" % n, "the end is reached after the last of them", all(x == (y & 1) for x, y in ends if isinstance(y, int)), W, str(ends))
        bad = [a for c, a in calls if c == "shape" and a[1] >= 0 and a[2] != a[3]]
        if kind != "CArray":
            ctx.ob("array:%s:shape" % n, "the slices report the dimensions of their arrays", not bad, W, str(bad[:2]))


USE = "\nvoid use() {witness::Axes<%d> a; for (auto& s : cppqedutils::sliceiterator::fullRange<%s>(a)) witness::show(s);}\n"
ILL = (("twice", 3, "tmptools::Vector<0,0>"), ("twiceApart", 4, "tmptools::Vector<1,0,1>"), ("large", 3, "tmptools::Vector<3>"), ("largeLast", 3, "tmptools::Vector<0,3>"), ("largeFirst", 4, "tmptools::Vector<5,1>"),
       ("negative", 3, "tmptools::Vector<-1>"), ("negativeLast", 3, "tmptools::Vector<1,-1>"), ("many", 3, "tmptools::Vector<0,1,2,3>"), ("rangeLarge", 3, "tmptools::Range<2,2>"), ("rangeNegative", 3, "tmptools::Range<2,-1>"),
       ("rangeNegativeMpl", 3, "boost::mpl::range_c<int,-1,1>"), ("rangeLargeMpl", 3, "boost::mpl::range_c<int,2,4>"), ("unaryLarge", 1, "tmptools::Vector<1>"), ("full", 2, "tmptools::Vector<0,2>"))
WELL = (("one", 3, "tmptools::Vector<1>"), ("two", 3, "tmptools::Vector<2,0>"), ("all", 3, "tmptools::Vector<2,0,1>"), ("range", 3, "tmptools::Range<2,0>"), ("rangeEnd", 3, "tmptools::Range<2,1>"),
        ("rangeMpl", 4, "boost::mpl::range_c<int,1,3>"), ("rangeMplEnd", 3, "boost::mpl::range_c<int,1,3>"), ("ordinals", 3, "tmptools::Ordinals<3>"), ("unary", 1, "tmptools::Vector<0>"))


def illformed(ctx):
    ctx.tus.add("w_slice.cc")
    control, msg = ir.accepts("w_slice.cc", "")
    if not control:
        ctx.ob("refused:control", "the witness compiles", None, W, msg[:300])
        return
    with ThreadPoolExecutor(8) as pool:
        got = list(pool.map(lambda t: ir.accepts("w_slice.cc", USE % t[1:]), ILL + WELL))
    for (n, R, V), (ok, msg) in zip(ILL, got):
        ctx.ob("refused:" + n, "slicing an array of rank %d with %s does not compile" % (R, V), not ok, W, "it compiles")
    for (n, R, V), (ok, msg) in zip(WELL, got[len(ILL):]):
        e = [x for x in msg.split("\n") if "error:" in x]
        mine = any("SliceIterator" in x or "static assertion" in x or "TMP_Tools" in x for x in e)
        ctx.ob("accepted:" + n, "slicing an array of rank %d with %s compiles" % (R, V), True if ok else False if mine else None, W, (e or [msg])[0][:200])
