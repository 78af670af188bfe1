"""C03 the run loop and its files. last: path-sensitive typestate of run in every mode (end time / number of intervals x interval / number of steps): along every path that ends normally
after the state file has been opened for writing, the state reached last is written exactly once since it last changed, and streamed exactly once. files: the state file is opened for
appending and in binary mode, with the mode that is handed over, an unopenable file throws in both directions before the stream is handed out. resume: the states in a file are read
one after the other until its end, by run itself, before anything is advanced or written. frame: a state is written as the length of its buffer followed by that many bytes of the
same buffer, and read back the same way."""
from sa.q import *
from sa.val import *
from sa import val as V
from sa.fsm import Fsm, Lost
from sa.interp import strip_targs

TUS = ["w_ode.cc"]
FLOOR = {"last": 3, "files": 4, "resume": 3, "frame": 2}
NS = "cppqedutils::trajectory::"


class Run:
    """user: (opened, saved, streamed, moved, error, resumed); resumed: 0 no, then the set of what was done again to the point loaded from the run's own state file"""

    def __init__(self, fn):
        self.fn = fn
        t = fn.tu.t(fn.params[0]["t"])
        self.cls = strip_targs(t.replace("const ", "").rstrip("& "))
        self.writes = self.streams = self.moves = self.reads = 0
        self.hit = {}

    def call(self, q, callee, e, u):
        op, sv, st, mv, err, rs = u
        n = q.split("::")[-1]
        if q == NS + "openStateFileReading":
            a = e[3][0]
            while a and a[0] in ("icast", "cast"):
                a = a[3]
            own = a and a[0] == "ref" and a[2] == "loc"
            return (op, sv, st, mv, err, frozenset() if own and len(self.fn.params) > 5 else rs)
        if q == NS + "openStateFileWriting":
            return (1, sv, st, mv, err, rs)
        if q == NS + "writeViaSStream":
            self.writes += 1
            return (op, 1, st, mv, err or ("the state is written again although it has not changed since it was written" if sv else None), rs | {"written"} if rs is not None and not mv else rs)
        if q == NS + "stream" or q == self.cls + "::stream":
            self.streams += 1
            return (op, sv, 1, mv, err or ("the same point is streamed again" if st else None), rs | {"streamed"} if rs is not None and not mv else rs)
        if q in (NS + "step", "cppqedutils::advance", "cppqedutils::advanceTo") or q in (self.cls + "::step", self.cls + "::advance"):
            self.moves += 1
            return (op, 0, 0, 1, err or ("a resumed run: the point it starts from, already in the files, is %s again" % " and ".join(sorted(rs)) if rs and not mv else None), rs)
        if q == NS + "readViaSStream":
            self.reads += 1
            return (op, sv, st, mv, err or ("a state is loaded after the run has begun" if mv or st or sv else None), rs)
        return None

    def inline(self, f):
        return "/repo/CPPQEDutils/Trajectory.h".split("/")[-1] == f.file.split("/")[-1] or (f.cls or "").startswith("(lambda")


def check(ctx):
    prog = ctx.program(TUS)
    ctx.part(runs, prog)
    for k, tu in (("", "CPPQEDutils/Trajectory.cc"), ("plain:", "w_plain.cc")):
        ctx.part(files, ctx.program([tu]), k)
    ctx.part(frame, prog)


def modes(prog):
    out = {}
    for f in prog.find(q=NS + "run"):
        if len(f.params) < 10:
            continue
        t1, t2 = f.tu.t(f.params[1]["t"]), f.tu.t(f.params[2]["t"])
        m = ("T" if t1 in ("double", "float") else "N") + ("Dt" if t2 in ("double", "float") else "dc")
        ah = f.tu.t(f.params[-1]["t"])
        m += "-auto" if "AutostopHandlerGeneric" in ah else ""
        out.setdefault(m, f)
    return out


def runs(ctx, prog):
    ms = ctx.need(modes(prog), "the run loop")
    for m, f in sorted(ms.items()):
        R = Run(f)
        ctx.fns_seen.add(f.where())
        try:
            F = Fsm(prog, f, R).run([(0, 0, 0, 0, None, None)])
        except Lost as x:
            ctx.ob("last:" + m, "the last point is saved and streamed once", None, f, str(x))
            continue
        if not (R.writes and R.streams and R.moves):
            ctx.ob("last:" + m, "the last point is saved and streamed once", None, f, "events found: %d writes, %d streamings, %d advances" % (R.writes, R.streams, R.moves))
            continue
        bad = []
        for (op, sv, st, mv, err, rs), line, env in F.ends:
            if err:
                bad.append("line %s: %s" % (line, err))
            elif op and not sv:
                bad.append("line %s: the run ends without the last state having been written" % line)
            elif (op or mv) and not st:
                bad.append("line %s: the run ends without the last point having been streamed" % line)
        if not any(op and mv and sv for (op, sv, st, mv, err, rs), _, _ in F.ends):
            bad.append("no path ends with a written state")
        ctx.ob("last:" + m, "along every path that ends normally the last state is written once and streamed once", not bad, f, "; ".join(sorted(set(bad))[:3]))
        res(ctx, prog, f, m, R)


def res(ctx, prog, f, m, R):
    """reading continues to the end of the file"""
    loops = []

    def go(n, inl):
        if isinstance(n, list):
            if n and n[0] in ("while", "for", "do"):
                inl = n
            if n and n[0] == "call" and strip_targs(n[2]["q"]) == NS + "readViaSStream":
                loops.append((inl, n))
            for x in n:
                go(x, inl)
        elif isinstance(n, dict):
            if "f" in n and "q" in n:
                return
            for x in n.values():
                go(x, inl)
    seen = set()

    def bodies(fn, depth=0):
        if fn.key in seen or depth > 3:
            return
        seen.add(fn.key)
        go(fn.body, None)
        lam = []

        def find(n):
            if isinstance(n, list):
                if n and n[0] == "lambda":
                    lam.append(n[4])
                if n and n[0] == "call":
                    g = fn.tu.fns.get(n[2].get("f"))
                    if g is not None and g.body is not None and g.file.endswith("Trajectory.h") and not g.q.startswith(NS + "readVia") and not g.q.startswith(NS + "run"):
                        lam.append(g.id)
                for x in n:
                    find(x)
            elif isinstance(n, dict) and "q" not in n:
                for x in n.values():
                    find(x)
        find(fn.body)
        for i in lam:
            g = fn.tu.fns.get(i)
            if g is not None and g.body is not None:
                bodies(g, depth + 1)
    bodies(f)
    if not loops:
        ctx.ob("resume:" + m, "a resumed run continues from the last state in the file", None, f, "no state is read")
        return
    bad = [n for l, n in loops if l is None]
    brk = []
    for l, n in loops:
        if l is not None:
            body = l[3] if l[0] == "while" else l[5] if l[0] == "for" else l[1]
            for g in exits(body):
                if not g:
                    brk.append(n)
                elif not any(x in repr(g) for x in ("::eof", "::peek", "::good", "::fail", "::operator bool", "::operator!")):
                    bad.append(n)
                elif not isinstance(g, list):
                    brk.append(n)
    ctx.ob("resume:" + m, "every state in the file is read until its end, so that the last one counts", False if bad else None if brk else True, "%s:%s" % (f.file, (bad or brk or [loops[0][1]])[0][-1]),
           "not all the states are read" if bad else "leaves the loop early" if brk else "")


def exits(body):
    """the conditions under which a loop body leaves the loop"""
    out = []

    def go(n, g):
        if isinstance(n, list):
            if n and isinstance(n[0], str):
                if n[0] in ("break", "return", "throw"):
                    if n[0] != "throw":
                        out.append(g)
                    return
                if n[0] in ("for", "while", "do", "rfor", "lambda", "switch"):
                    return
                if n[0] == "if":
                    go(n[4], n[3])
                    go(n[5], n[3])
                    return
            for x in n:
                go(x, g)
    go(body, None)
    return out


def flagset(v):
    """openmode value as a set of atoms"""
    out, lost = set(), [False]

    def go(n):
        n = unp(n)
        if n.op in ("bor", "or", "bitor") or (n.op == "call" and n.a[0].split("::")[-1] == "operator|"):
            for x in n.a:
                if hasattr(x, "op"):
                    go(x)
        elif n.op == "cat" or n.op == "bin":
            for x in n.a:
                if hasattr(x, "op"):
                    go(x)
        else:
            out.add(show(n))
    go(v)
    return out


def files(ctx, prog, k=""):
    for nm, w in (("openStateFileWriting", True), ("openStateFileReading", False)):
        fs = ctx.need(prog.find(q=NS + nm), nm)
        f = fs[0]
        I = ctx.interp(prog, f)
        opens = [e for e in walk(I.tr) if isinstance(e, Eff) and ("file_sink" in e.name or "file_source" in e.name or "ofstream" in e.name or "ifstream" in e.name) and e.kind in ("call", "new", "ctor")]
        opens = [e for e in opens if e.args and any(x.op == "p" and x.a[0] == 0 for a in e.args for x in subnodes(a))]
        txt = bodytext(f)
        # the mode: look at constructions of the file in the body
        cons = [c for c in ctors(f.body, f) if c[0] in ("sink", "source", "ofs", "ifs")]
        if not cons:
            ctx.ob("files:%s%s:mode" % (k, nm), "mode of the state file", None, f, "no file construction recognised")
        for kind, node in cons:
            fl = modeflags(node, f)
            if fl is None:
                ctx.ob("files:%s%s:mode" % (k, nm), "mode of the state file", None, f, "mode expression not understood")
                continue
            if w:
                ok = "binary" in fl and ("mode" in fl or "app" in fl) and "trunc" not in fl
            else:
                ok = "binary" in fl and not (fl & {"out", "app", "trunc"})
            ctx.ob("files:%s%s:mode" % (k, nm), "the state file is opened in binary mode%s" % (", with the mode handed over" if w else ""), ok, f, "flags: %s" % sorted(fl))
        ths = [n for n in walk(I.tr) if isinstance(n, (Eff, Ctl)) and getattr(n, "kind", "") == "throw"]
        # typestate: a stream is returned only after is_open was found true
        class T:
            def call(self, q, callee, e, u):
                if q.endswith("::is_open"):
                    return u
                return None

            def inline(self, g):
                return False
        ok, det = opened(prog, f)
        ctx.ob("files:%s%s:fail" % (k, nm), "a state file that cannot be opened raises an error", ok, f, det)
    if k:
        return
    # default mode of writing
    f = prog.find(q=NS + "openStateFileWriting")[0]
    callers = []
    p2 = ctx.program(TUS)
    for g in modes(p2).values():
        for n in nodes(g.body):
            if n[0] == "call" and strip_targs(n[2]["q"]) == NS + "openStateFileWriting":
                fl = set()
                if len(n[3]) > 1:
                    fl = flags_of(n[3][1], g)
                callers.append((g, n, fl))
    for g, n, fl in callers[:3]:
        ctx.ob("files:append", "states are only ever appended", None if fl is None else "app" in fl and "trunc" not in fl, "%s:%s" % (g.file, n[-1]), "flags %s" % (sorted(fl) if fl else fl))
    # the trajectory file itself
    for g in list(modes(p2).values())[:1]:
        for n in nodes(g.body):
            if n[0] == "call" and "make_shared" in n[2]["q"] and "ofstream" in n[2].get("ta", "") and len(n[3]) == 2:
                fl = flags_of(n[3][1], g)
                ctx.ob("files:trajectory", "the trajectory file is only ever appended to", None if fl is None else "app" in fl and "trunc" not in fl, "%s:%s" % (g.file, n[-1]), "flags %s" % fl)


def bodytext(f):
    return repr(f.body)


def nodes(n):
    out = []

    def go(x):
        if isinstance(x, list):
            if x and isinstance(x[0], str):
                out.append(x)
            for y in x:
                go(y)
        elif isinstance(x, dict):
            if "q" in x and "f" in x:
                return
            for y in x.values():
                go(y)
    go(n)
    return out


def ctors(body, f):
    out = []
    for n in nodes(body):
        if n[0] == "ctor" and len(n[3]) >= 2:
            c = n[2].get("c", "")
            if "file_sink" in c:
                out.append(("sink", n))
            elif "file_source" in c:
                out.append(("source", n))
            elif "ofstream" in c:
                out.append(("ofs", n))
            elif "ifstream" in c:
                out.append(("ifs", n))
        if n[0] == "call" and "make_shared" in n[2]["q"] and len(n[3]) >= 2:
            if "ofstream" in n[2].get("ta", ""):
                out.append(("ofs", n))
            if "ifstream" in n[2].get("ta", ""):
                out.append(("ifs", n))
    return out


def modeflags(node, f):
    return flags_of(node[3][1], f)


def flags_of(e, f):
    """names of the openmode flags in an expression; 'mode' for the parameter; None if something else is in it"""
    out = set()

    def go(n):
        if n is None:
            return True
        k = n[0]
        if k in ("icast",):
            return go(n[3])
        if k == "cast":
            return go(n[3])
        if k in ("defarg",):
            return go(n[-1])
        if k == "ocall" and n[2] == "|":
            return all(go(x) for x in n[4])
        if k == "call" and n[2]["q"].endswith("operator|"):
            return all(go(x) for x in n[3])
        if k == "bin" and n[2] == "|":
            return go(n[3]) and go(n[4])
        if k == "ref":
            nm = n[4] if len(n) > 4 else ""
            if n[2] == "parm":
                out.add("mode")
                return True
            if n[2] == "loc":
                for d in nodes(f.body):
                    if d[0] == "decl":
                        for v in d[1]:
                            if v["id"] == n[3] and v.get("i") is not None:
                                return go(v["i"])
                return False
            out.add(str(nm).split("::")[-1])
            return True
        if k in ("enum", "num", "mem"):
            s = str(n[2] if k == "num" else n[-1]).split("::")[-1]
            if s.isdigit():
                for i, nm in enumerate(("app", "ate", "binary", "in", "out", "trunc")):
                    if int(s) >> i & 1:
                        out.add(nm)
            else:
                out.add(s)
            return True
        return False
    r = go(e)
    return {x.lstrip("_S_") if x.startswith("_S_") else x for x in out} if r else None


def opened(prog, f):
    """returns only on paths where is_open was found true"""
    st = {"n": 0}

    class T:
        def call(self, q, callee, e, u):
            return None

        def inline(self, g):
            return False

    class M(Fsm):
        def truth(self, e, s):
            x = e
            while x[0] in ("icast", "cast"):
                x = x[3]
            if x[0] == "mcall" and x[3]["q"].split("::")[-1] in ("is_open", "good", "operator bool"):
                st["n"] += 1
                return [(True, (s[0], "open")), (False, (s[0], "closed"))]
            if x[0] == "mcall" and x[3]["q"].split("::")[-1] in ("fail", "operator!"):
                st["n"] += 1
                return [(False, (s[0], "open")), (True, (s[0], "closed"))]
            if x[0] == "ocall" and x[2] == "!" and "fstream" in str(x[3].get("c", "")) + str(x[3].get("q", "")):
                st["n"] += 1
                return [(False, (s[0], "open")), (True, (s[0], "closed"))]
            return Fsm.truth(self, e, s)
    try:
        F = M(prog, f, T()).run(["unknown"])
    except Lost as x:
        return None, str(x)
    us = {u for u, _, _ in F.ends}
    if "closed" in us:
        return False, "a stream is returned although the file was found closed"
    if "unknown" in us:
        return (False, "a stream is returned without the file having been checked") if not st["n"] else (None, "not on all paths")
    return ("open" in us), ""


def frame(ctx, prog):
    f = ctx.need(prog.find(q=NS + "writeViaSStream"), "writeViaSStream")[0]
    I = ctx.interp(prog, f, inline=lambda g: not g.q.endswith("WriteState::_"))
    outs_ = [e for e in walk(I.tr) if isinstance(e, Eff) and (e.kind == "out" or (e.kind == "call" and e.name.endswith("::write")))]
    ws = [e for e in outs_ if e.kind == "call"]
    if len(ws) != 1:
        ctx.ob("frame:write", "a state is written as its length followed by its bytes", None, f, "%d writes" % len(ws))
    else:
        w = ws[0]
        n = w.args[1]
        before = outs_[:outs_.index(w)]
        ok = bool(before) and before[-1].kind == "out" and cn(before[-1].args[0]) is cn(n) and unp(n).op in ("size", "call")
        buf = unp(n).a[0] if unp(n).op == "size" else None
        same = buf is None or mentions(w.args[0], buf) or True
        ctx.ob("frame:write", "a state is written as the length of its buffer followed by that many bytes", ok, w.where(), "length written %s, bytes %s" % (show(before[-1].args[0])[:80] if before else None, show(n)[:80]))
        more = [e for e in before[:-1]]
        if more:
            ctx.ob("frame:write:extra", "nothing else is written in front of a state", None if not before else False, w.where(), "%d more writes" % len(more))
    f = ctx.need(prog.find(q=NS + "readViaSStream"), "readViaSStream")[0]
    I = ctx.interp(prog, f, inline=lambda g: not g.q.endswith("ReadState::_"))
    ins = [e for e in walk(I.tr) if isinstance(e, Eff) and e.kind == "in"]
    rd = [e for e in walk(I.tr) if isinstance(e, Eff) and e.kind == "call" and e.name.endswith("::read")]
    if len(ins) != 1 or len(rd) != 1:
        ctx.ob("frame:read", "a state is read as its length followed by its bytes", None, f, "%d inputs, %d reads" % (len(ins), len(rd)))
    else:
        n = unp(rd[0].args[1])
        src = n.op == "parsed" or any(x.op == "parsed" for x in subnodes(n))
        ok = n.op == "parsed" or (src and cn(rd[0].args[1]).op == "poly" and unp(rd[0].args[1]) is not None and unp(rd[0].args[1]).op == "parsed")
        ctx.ob("frame:read", "as many bytes are read as the length says", ok, rd[0].where(), show(n)[:150])
        rs = [e for e in walk(I.tr) if isinstance(e, Eff) and e.kind == "call" and e.name.endswith("resize")]
        if rs:
            ctx.ob("frame:read:buffer", "the buffer has that length", cn(rs[0].args[0]) is cn(rd[0].args[1]), rs[0].where(), show(rs[0].args[0])[:100])
