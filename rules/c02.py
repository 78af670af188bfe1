"""C02 refusal. read: ReadState of every trajectory type is evaluated on a complete set of representatives of the archive's metadata: each of rank, element type and trajectory kind is partitioned by the
values it is compared with on any path (plus a fresh one), and for every combination the first thing that happens to the trajectory is determined. Nothing but the archive's metadata may be loaded before
the decision; an equal description leads to the full load, a bare array to the array-only load, every other combination throws before the trajectory or the archive is touched further.
write: the metadata saved in front of a state are the ones compared on reading. stored: the metadata's serialize covers what is compared, in the same order both ways. ident: the descriptions of
different trajectory kinds and ranks differ pairwise. array: the array-only route loads one array, into the state. open: no stream is handed out for a file that was not opened."""
import itertools
from sa.q import *
from sa.val import *
from sa import val as V
from rules.c01 import classes, sequences, path, ios
from rules.c03 import opened

NS = "cppqedutils::trajectory::"
TUS = ["w_ode.cc", "w_traj.cc"]
FLOOR = {"read": 4, "write": 4, "stored": 1, "ident": 10, "array": 3, "open": 4}
TRUST = ["boost::serialization restores the values it stored", "the array-only marker is SerializationMetadata::ARRAY_ONLY"]


def check(ctx):
    prog = ctx.program(TUS)
    ctx.part(reads, prog)
    ctx.part(writes, prog)
    ctx.part(stored, prog)
    ctx.part(ident, ctx.program(["w_meta.cc"]))
    ctx.part(files, ctx.program(["CPPQEDutils/Trajectory.cc"]), "")
    ctx.part(files, ctx.program(["w_plain.cc"]), "plain:")


def kind(f):
    c = (f.cls or "").split("<", 1)[1] if "<" in (f.cls or "") else ""
    return strip_targs(c.rsplit(">", 1)[0]).split("::")[-1] + ("-gsl" if "GSL" in c else "")


def desc(ctx, prog, f):
    """own description of the trajectory type of ReadState<T>/WriteState<T>"""
    t = (f.cls or "").split("<", 1)[1].rsplit(">", 1)[0].strip()
    for g in prog.find(q=NS + "MakeSerializationMetadata::_"):
        if (g.cls or "").split("<", 1)[1].rsplit(">", 1)[0].strip() == t:
            return fields(ctx.interp(prog, g).result)
    return None


def fields(v):
    """object value -> {member: value}"""
    if not isinstance(v, N):
        return None
    v = unp(v)
    if v.op != "obj":
        return None
    return {k[1].split("::")[-1]: x for k, x in v.a[1]}


def reps(v, consts):
    """representatives of a loaded item"""
    if v.op == "poly":
        s = {0, -1}
        for c in consts:
            s |= {c - 1, c, c + 1}
        return [num(x) for x in sorted(s)]
    return sorted(consts, key=str)


def reads(ctx, prog):
    fs = [f for f in ctx.need(prog.find(q=NS + "ReadState::_"), "ReadState")]
    seen = set()
    for f in fs:
        k = kind(f)
        if k in seen:
            continue
        seen.add(k)
        ctx.part(read1, prog, f, k)


def read1(ctx, prog, f, k):
    I = ctx.interp(prog, f)
    own = desc(ctx, prog, f)
    key = "read:" + k
    if I.deep or own is None:
        ctx.ob(key, "a mismatching archive is refused", None, f, "analysis incomplete")
        return
    L = ios(I)
    first = L[0] if L else None
    if first is None or "SerializationMetadata" not in str(first.x) + show(first.args[1]):
        ctx.ob(key, "the metadata are the first thing read", False if L else None, f, "first item read: %s" % (show(first.args[0])[:80] if first else None))
        return
    root = mk("loaded", first.args[0], 1)
    # what the conditions compare
    names, consts = {}, {}
    conds = [e.cond for e in walk(I.tr) if isinstance(e, If)]
    for c in conds:
        for x in subnodes(c):
            if x.op == "fld" and x.a[0] is root:
                names[x.a[1].split("::")[-1]] = x
    for n in names:
        consts[n] = set()
    strs = {x for c in conds for x in subnodes(c) if x.op == "str"} | {x for n, x in own.items() if x.op == "str"}
    strs.add(mk("str", "\x01some other description"))
    nums = {0}
    for c in conds:
        for x in subnodes(c):
            if x.op == "poly":
                for m, cf in x.a:
                    if not m and isinstance(cf[0], (int, float)) or hasattr(cf[0], "numerator"):
                        nums.add(int(cf[0]))
                        nums.add(-int(cf[0]))
    for n, x in own.items():
        if is_const(x):
            nums.add(const_int(x))
    need = [n for n in ("rank", "typeID", "trajectoryID") if n in own]
    # roles by content: every member of the metadata whose own value is specific takes part
    dom = {}
    for n in sorted(set(names) | set(need)):
        ov = own.get(n)
        if ov is None:
            ctx.ob(key, "a mismatching archive is refused", None, f, "no own value of " + n)
            return
        if ov.op == "str":
            dom[n] = sorted(strs, key=str)
        elif is_const(ov):
            dom[n] = [num(x) for x in sorted({y + d for y in nums for d in (-1, 0, 1)})]
        else:
            dom[n] = [ov, mk("unk", "other")]
    ARR = arrayonly(prog)
    bad, und, n = [], [], 0
    for combo in itertools.product(*dom.values()):
        val = dict(zip(dom, combo))
        n += 1

        def f1(x):
            if x.op == "fld" and x.a[0] is root:
                return val.get(x.a[1].split("::")[-1])
            return None

        def dec(c):
            r = V.subst(c, f1)
            r = tobool(r) if r not in (TRUE, FALSE) else r
            return True if r is TRUE else False if r is FALSE else None
        tr, how = execute(I.tr, dec)
        touched = [e for e in tr if touches(e, first)]
        same = all(V.cmp("==", val[x], own[x]) is TRUE for x in need)
        arr = ARR is not None and val.get("trajectoryID") is ARR
        what = ", ".join("%s %s" % (x, show(val[x])) for x in need)
        if how == "unknown":
            und.append("a condition on (%s) is not understood: %s" % (what, show(getattr(tr[-1], "cond", TRUE))[:100]))
            continue
        full = all(V.cmp("==", val[x], own[x]) is TRUE for x in val)
        if same and not arr:
            if full and (how == "throw" or not any(e.kind == "io" and e is not first for e in tr)):
                bad.append("an archive with the trajectory's own description is not loaded")
        elif not arr and (how != "throw" or touched):
            bad.append("an archive with %s is %s by a trajectory with %s" % (what, "loaded" if how != "throw" else "partly loaded before it is refused", ", ".join("%s %s" % (x, show(own[x])) for x in need)))
        elif arr and how == "throw":
            # an ensemble may refuse a bare array altogether
            if touched or k != "Ensemble":
                bad.append("a bare array is refused%s" % (" after something has been loaded" if touched else ""))
        elif arr:
            checkarray(ctx, tr, first, f, k)
    ctx.ob(key, "for all %d combinations of rank, element type and kind, exactly the trajectory's own description is accepted and all else is refused untouched" % n, False if bad else None if und else True, f, (bad or und or [""])[0])


def arrayonly(prog):
    return mk("str", "ArrayOnly")


def touches(e, first):
    if e is first or e.kind in ("ctor", "make"):
        return False
    if e.kind == "io":
        return True
    locs = []
    if e.kind == "w":
        locs = [e.obj]
    elif e.obj is not None and e.kind in ("call", "apply"):
        c = (e.x or {}).get("callee") if isinstance(e.x, dict) else None
        if not (c or {}).get("k"):
            locs = [e.obj]
    for l in locs:
        r = path(l)[0]
        if r.op == "p" and r.a[0] in (0, 1):
            return True
    return False


_arr = set()


def checkarray(ctx, tr, first, f, k):
    if ("array:" + k) in ctx.keys:
        return
    L = [e for e in tr if e.kind == "io" and e is not first]
    other = []
    for e in tr:
        if e.kind == "w" and path(e.obj)[0].op == "p" and path(e.obj)[0].a[0] == 0 and "rray" not in show(e.obj):
            other.append(show(e.obj)[:80])
    if len(L) == 0:
        ctx.ob("array:" + k, "a bare array is loaded", None, f, "no load seen")
    else:
        scal = [e for e in L if "Array" not in str(e.x) and "double" in str(e.x)]
        ctx.ob("array:" + k, "the array-only route loads the array and nothing else", len(L) == 1 if not scal else False, L[0].where(), "%d items" % len(L))


def writes(ctx, prog):
    seen = set()
    for f in ctx.need(prog.find(q=NS + "WriteState::_"), "WriteState"):
        k = kind(f)
        if k in seen:
            continue
        seen.add(k)
        I = ctx.interp(prog, f)
        own = desc(ctx, prog, f)
        L = ios(I)
        if I.deep or not L or own is None:
            ctx.ob("write:" + k, "the description is stored in front of the state", None, f, "analysis incomplete")
            continue
        got = fields(L[0].args[1])
        if got is None:
            ctx.ob("write:" + k, "the description is stored in front of the state", False if "SerializationMetadata" not in str(L[0].x) else None, L[0].where(), "first item stored: %s" % show(L[0].args[1])[:100])
            continue
        diff = [n for n in own if got.get(n) is not own[n]]
        ctx.ob("write:" + k, "the description stored in front of the state is the one compared on reading, and the state follows", not diff and len(L) > 1, L[0].where(), "different: %s" % diff)


def stored(ctx, prog):
    cl = {c: d for c, d in classes(prog, "serialize").items() if c.endswith("SerializationMetadata") and len(d) == 2}
    ctx.need(cl, "SerializationMetadata::serialize")
    for c, d in cl.items():
        r = sequences(ctx, prog, "metadata", c, d)
        if r is None:
            continue
        saved = {p[-1].split("::")[-1] for p in r[0]}
        eq = [g for g in prog.find(q=c + "::operator==")]
        used = {"rank", "typeID", "trajectoryID"}
        if eq:
            I = ctx.interp(prog, eq[0])
            if isinstance(I.result, N):
                got = {x.a[1].split("::")[-1] for x in subnodes(I.result) if x.op == "fld" and x.a[0].op == "this"}
                used = got | used if got else used
        rec = d["in"].tu.recs.get(d["in"].d.get("cid"))
        have = {x["n"] for x in rec["fs"]}
        miss = [x for x in used if x in have and x not in saved]
        ctx.ob("stored:metadata", "everything that is compared is stored", not miss, d["out"], "not stored: %s" % miss)


def ident(ctx, prog):
    fs = ctx.need([f for f in prog.find(pred=lambda f: f.name.startswith("meta_"))], "descriptions")
    D = {}
    for f in fs:
        v = fields(ctx.interp(prog, f).result)
        if v is None or any(n not in v for n in ("rank", "typeID", "trajectoryID")):
            ctx.ob("ident:" + f.name[5:], "description understood", None, f, "")
            continue
        D[f.name[5:]] = tuple(v[n] for n in ("rank", "typeID", "trajectoryID")) + (f,)
    for k, d in sorted(D.items()):
        same = [j for j, e in D.items() if j != k and e[:3] == d[:3]]
        clear = all(is_const(x) or x.op == "str" for x in d[:3])
        ctx.ob("ident:" + k, "described as (%s), as no other kind or rank is" % ", ".join(show(x) for x in d[:3]), False if same else True if clear else None, d[3], "same description as %s" % ", ".join(same))


def files(ctx, prog, k):
    for nm in ("openStateFileReading", "openStateFileWriting"):
        f = ctx.need(prog.find(q=NS + nm), nm)[0]
        ok, det = opened(prog, f)
        ctx.fns_seen.add(f.where())
        ctx.ob("open:%s%s" % (k, nm), "a state file that cannot be opened raises an error", ok, f, det)
