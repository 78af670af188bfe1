"""C20 command line. add: every path of registering a parameter (all kinds, with and without suffix) is enumerated with the search of the table abstracted to 'found or not': found means an exception and nothing
registered, not found means exactly one entry (two for a switch) with name, description and default in their roles, and a reference to its value returned. sub: looking up an unregistered name throws.
read: what each kind of parameter does when it is read. word: one round of the parser for words of every shape (without prefix, help, version, a name), every path: which ends the program, which reads, what it reads, and
that a failed extraction or an unknown name never gets to the next word. line: what is kept as command line for every number of words up to four."""
from sa.q import *
from sa.val import *
from sa import val as V

TUS = ["w_pars.cc", "CPPQEDutils/Pars.cc", "CPPQEDutils/BooleanNegatedProxy.cc"]
FLOOR = {"add": 12, "sub": 4, "read": 6, "word": 12, "line": 4, "proxy": 3}
ASSUME = ["extraction of a value or word from a stream sets the fail or bad bit when it does not succeed", "find_if returns the first element for which the predicate holds, else end", "ptr_list::push_back appends exactly one entry"]
B, T, TY = "parameters::Base::", "parameters::Table::", "parameters::Typed::"


def check(ctx):
    prog = ctx.program(TUS)
    ctx.part(adding, prog)
    ctx.part(subscript, prog)
    ctx.part(reading, prog)
    ctx.part(words, prog)
    ctx.part(line, prog)
    ctx.part(proxy, prog)


class Find:
    """model of the search of the table"""
    def __init__(self, field=None, probe=None):
        self.finds = []
        self.field, self.probe = field, probe

    def __call__(self, I, callee, objloc, args, line, t):
        q = callee["q"]
        if q in ("boost::range::find_if", "std::find_if", "std::ranges::find_if", "boost::find_if") and len(args) in (2, 3):
            if len(args) == 2:
                loc = I.deref(I.lv(args[0]))
            else:
                a = I.rv(I.ev(args[0]))
                if a.op != "iter" or a.a[0].op != "lref":
                    return None
                loc = (a.a[0].a[0], a.a[0].a[1])
            f = I.rv(I.ev(args[-1]))
            e = mk("entry", len(self.finds))
            pred = I.call_value(f, None, line, t, argvals=[(("val", e), ())])
            pred = I.rv(pred)
            res = {}
            for w in self.probe or ():
                l = I.temp(mk("obj", "parameters::Base", ()))
                I.write((l[0], l[1] + ((".", self.field),)), mk("str", w), line, quiet=True)
                I.write((l[0], l[1] + ((".", "parameters::Base::d_"),)), mk("str", "a description"), line, quiet=True)
                res[w] = I.rv(I.call_value(f, None, line, t, argvals=[l]))
            self.finds.append((loc, e, pred, res))
            return mk("iter", mk("lref", *loc), P(mk("foundat", len(self.finds) - 1)))
        return None


def found(cond):
    """truth of 'search k found something' in a condition: {k: bool}"""
    out = {}

    def g(n, b):
        pass
    for x in subnodes(cond):
        if x.op in ("eq0", "eq"):
            ks = {y.a[0] for y in subnodes(x) if y.op == "foundat"}
            if len(ks) == 1:
                out[ks.pop()] = x
    return out


def fields(ctx, prog):
    r = {}
    for n in ("getS", "getD"):
        f = ctx.need(prog.find(q=B + n), "Base::" + n)[0]
        I = ctx.interp(prog, f)
        v = I.result
        r[n] = v.a[1][-1][1] if v.op == "lref" else v.a[1]
    f = ctx.need(prog.find(q=TY + "get"), "Typed::get")[0]
    I = ctx.interp(prog, f)
    r["get"] = I.result.a[1][-1][1] if I.result.op == "lref" else I.result.a[1]
    return r


def adding(ctx, prog):
    F = fields(ctx, prog)
    s, m = mk("p", 1), mk("p", 2)
    for n, name, d, v, sw in (("double", s, mk("p", 2), mk("p", 3), 0), ("int", s, mk("p", 2), mk("p", 3), 0), ("string", s, mk("p", 2), mk("p", 3), 0),
                              ("mod", mk("cat", s, m), mk("p", 3), mk("p", 4), 0), ("title", mk("cat", s, m), mk("str", ""), None, 0), ("bool", s, mk("p", 2), mk("p", 3), 1), ("boolmod", mk("cat", s, m), mk("p", 3), mk("p", 4), 1)):
        f = ctx.need(scen(prog, "scenario_add_" + n), "scenario")
        M = Find()
        I = ctx.interp(prog, f, model=M)
        PP = paths(I.tr)
        table = None
        key = "add:%s:" % n
        if I.deep or not M.finds:
            ctx.ob(key + "search", "the table is searched for the name first", None, f, "%d searches" % len(M.finds))
            continue
        # the searches compare the name
        M2 = Find(F["getS"], PROBE)
        ctx.interp(prog, f, model=M2, args=[None, mk("str", "fo" if name.op == "cat" else "foo")] + ([mk("str", "o")] if name.op == "cat" else []))
        for k, x in enumerate(M2.finds):
            exact(ctx, key + "search%d" % k, x[3], "foo" if k == 0 else "no_foo", f)
        for conds, ev, end, node in PP:
            at = {}
            unknown = False
            for c, b in conds:
                fa = found(c)
                if fa and c.op in ("ite",) or fa:
                    for k, x in fa.items():
                        y = truth(c, x)
                        if y is None:
                            unknown = True
                        else:
                            at[k] = (y == b)   # at[k]: end reached (not found)
                else:
                    unknown = True
            pushes = [e for e in ev if e.kind == "call" and e.name.split("::")[-1] in ("push_back", "insert", "push_front", "emplace_back")]
            pk = "".join("n" if at[k] else "f" for k in sorted(at))
            if unknown:
                ctx.ob(key + "path", "every path depends on the search alone", None, f, str([show(c)[:80] for c, b in conds]))
                continue
            nf = not all(at.values())
            if nf:
                first = not at.get(0, True)
                ok = end == "throw" and (not pushes if first else len(pushes) == 1)
                ctx.ob(key + "again:" + pk, "a name already registered raises an error and registers nothing", ok, f, "%d entries registered, ends with %s" % (len(pushes), end))
                continue
            want = 2 if sw else 1
            if end != "return" and end != "end" or len(pushes) != want:
                ctx.ob(key + "new", "a new name gets %d entr%s" % (want, "ies" if sw else "y"), False, f, "%d entries, ends with %s" % (len(pushes), end))
                continue
            okp, det = True, ""
            roots = []
            for i, e in enumerate(pushes):
                p = e.args[0]
                if p.op != "ptr":
                    okp, det = None, show(p)
                    break
                roots.append(p.a[0])
                got = {k: I.read((p.a[0], p.a[1] + ((".", F[k]),))) for k in ("getS", "getD", "get")}
                nm = name if i == 0 else mk("cat", mk("str", "no_"), *(name.a if name.op == "cat" else (name,)))
                if cn(got["getS"]) is not cn(nm) or cn(got["getD"]) is not cn(d):
                    okp, det = False, "entry %d has name %s and description %s" % (i, show(got["getS"]), show(got["getD"]))
                    break
                if i == 0 and v is not None and cn(got["get"]) is not cn(v):
                    okp, det = False, "default %s" % show(got["get"])
                    break
                if i == 1:
                    tgt = [x for x in subnodes(got["get"]) if x.op == "lref"]
                    tl = [I.deref((x.a[0], x.a[1])) for x in tgt]
                    if (roots[0], ((".", F["get"]),)) not in tl:
                        okp, det = (False if tl else None), "bound to %s" % show(got["get"])
                        break
            ctx.ob(key + "new", "a new name is registered with name, description and default in their roles", okp, f, det)
            r = I.result
            if okp and isinstance(r, N) and v is not None:
                rl = r.op == "lref" and I.deref((r.a[0], r.a[1])) == (roots[0], ((".", F["get"]),))
                ctx.ob(key + "ref", "the reference returned is the registered value", rl if r.op == "lref" else None, f, show(r)[:150])


PROBE = ("foo", "no_foo", "fo", "o", "ofo", "foobar", "xfoo", "Foo", "", "no_", "help", "--a", "--foo", "no_fo", "foono_", "help2", "a", "help2x", "--ax", "no_foox")


def exact(ctx, key, res, name, f):
    bad = [w for w, v in res.items() if v is (FALSE if w == name else TRUE)]
    und = [w for w, v in res.items() if v not in (TRUE, FALSE)]
    return ctx.ob(key, "the name itself is what is searched for", False if bad else None if und or name not in res else True, f, "looking for %r: wrong about %s" % (name, bad or und))


def samev(a, b):
    if a is b or cn(a) is cn(b):
        return True
    return None if any(x.op in ("unk", "call", "lam", "undef") for x in subnodes(a)) else False


def truth(c, x):
    """c as x or its negation"""
    if c is x or c is V.batom(x):
        return True
    if c is V.bnot(V.batom(x)) or c is V.bnot(x):
        return False
    return None


def subscript(ctx, prog):
    F = fields(ctx, prog)
    for n in ("sub", "csub"):
        f = ctx.need(scen(prog, "scenario_" + n), "scenario")
        M = Find()
        I = ctx.interp(prog, f, model=M)
        if I.deep or len(M.finds) != 1:
            ctx.ob("sub:" + n, "looking up searches the table", None, f)
            continue
        M2 = Find(F["getS"], PROBE)
        ctx.interp(prog, f, model=M2, args=[None, mk("str", "foo")])
        exact(ctx, "sub:%s:name" % n, M2.finds[0][3], "foo", f)
        for conds, ev, end, node in paths(I.tr):
            if len(conds) != 1 or not found(conds[0][0]):
                ctx.ob("sub:%s:path" % n, "every path depends on the search alone", None, f, str([show(c)[:80] for c, b in conds]))
                continue
            c, b = conds[0]
            y = truth(c, list(found(c).values())[0])
            missing = None if y is None else (y == b)
            if missing is None:
                ctx.ob("sub:%s:path" % n, "every path depends on the search alone", None, f)
            elif missing:
                ctx.ob("sub:%s:missing" % n, "an unregistered name raises an error", end == "throw", f, "ends with %s" % end)
            else:
                r = [x for x in subnodes(I.result) if x.op == "foundat"] if isinstance(I.result, N) else []
                s = str(I.result.a[0]) if isinstance(I.result, N) and I.result.op == "lref" else ""
                ctx.ob("sub:%s:found" % n, "a registered one is returned", True if end in ("return", "end") and (r or "foundat" in s or (I.result.op == "lref" and I.result.a[0][0] == "val" and any(x.op == "foundat" for x in subnodes(I.result.a[0][1])))) else (False if end == "throw" else None), f, show(I.result)[:150])


def reading(ctx, prog):
    F = fields(ctx, prog)
    for f in prog.find(q=TY + "read_v"):
        I = ctx.interp(prog, f)
        c = f.cls.split("<", 1)[1].rstrip(">")
        ins = list(effs(I.tr, "in"))
        v = I.read((("this",), ((".", F["get"]),)))
        key = "read:" + c[:30]
        others = [k for k in I.allw if k[0] == ("this",) and (not k[1] or k[1][0] != (".", F["get"]))]
        pp = paths(I.tr)
        if c == "TitleLine":
            ctx.ob(key, "a title is no parameter: reading it raises the error for unknown names", all(p[2] == "throw" and "UnrecognisedParameter" in show(p[3].val) for p in pp), f, str([p[2] for p in pp]))
        elif c == "bool":
            ctx.ob(key, "a switch becomes true, and takes no value from the command line", True if v is TRUE and not ins and not others else (None if lost(v) else False), f, "becomes %s; %d extractions" % (show(v), len(ins)))
        elif "BooleanNegatedProxy" in c:
            w = [(k, I.read(k)) for k in I.allw if k[0] == ("this",)]
            ok = len(w) == 1 and w[0][1] is FALSE and not ins
            ctx.ob(key, "a negated switch makes the switch false, and takes no value from the command line", True if ok else (None if not w or any(lost(x[1]) for x in w) else False), f, "%s; %d extractions" % ([show(x[1]) for x in w], len(ins)))
        else:
            ok = len(ins) == 1 and not others and any(x.op == "parsed" for x in subnodes(v)) and v.op in ("parsed", "poly")
            ctx.ob(key, "the value is what is extracted from the command line, once", True if ok else (None if lost(v) and len(ins) == 1 else False), f, "value %s; %d extractions" % (show(v)[:100], len(ins)))


def lost(v):
    return any(x.op in ("unk", "fold", "while", "undef") for x in subnodes(v))


def proxy(ctx, prog):
    f = ctx.need(scen(prog, "scenario_proxy"), "scenario")
    I = ctx.interp(prog, f)
    fl = [x for x in subnodes(I.result) if x.op == "fld"]
    v = fl[0] if fl else None
    ctx.ob("proxy:get", "the negated switch reads as the opposite", None if v is None else V.tobool(I.result) is V.bnot(V.tobool(V.typed(v, "bool"))), f, show(I.result))
    g = ctx.need(scen(prog, "scenario_assign"), "scenario")
    I = ctx.interp(prog, g)
    w = [I.read(k) for k in I.allw if k[0] == ("p", 0)]
    for b in (TRUE, FALSE):
        I = ctx.interp(prog, g, args=[None, b])
        w = [I.read(k) for k in I.allw if k[0] == ("p", 0)]
        ctx.ob("proxy:set:%s" % show(b), "assigning to the negated switch sets the opposite", len(w) == 1 and w[0] is V.bnot(b) if not any(lost(x) for x in w) else None, g, str([show(x) for x in w]))


def words(ctx, prog):
    F = fields(ctx, prog)
    f = ctx.need([g for g in prog.find(q="parameters::update") if g.body is not None], "update")[0]
    for prefix, ws in (("--", (("foo", "bare"), ("-foo", "bare"), ("x--foo", "bare"), ("--help", "help"), ("--version", "help"), ("--foo", "foo"), ("--no_foo", "no_foo"), ("----a", "--a"), ("--help2", "help2"))),
                       ("+", (("foo", "bare"), ("--foo", "bare"), ("+foo", "foo"), ("+help", "help"))),
                       ("", (("foo", "foo"), ("help", "help")))):
        for w, kind in ws:
            M = Find(F["getS"], PROBE)

            def inval(I, l, t, w=w):
                if "basic_string" in t or l[0][0] == "v":
                    return mk("str", w)
                return None
            I = ctx.interp(prog, f, args=[None, None, None, mk("str", prefix)], model=M, inval=inval)
            key = "word:%r:%s" % (prefix, w)
            lp = [x for x in walk(I.tr) if isinstance(x, Loop) and any(isinstance(e, Eff) and e.kind == "call" and "read_v" in e.name or isinstance(e, Ctl) and e.kind == "abort" for e in walk(x.body)) or isinstance(x, Loop) and x.trip is None and "inread" in show(x.hdr)]
            if I.deep or len(lp) != 1:
                ctx.ob(key, "the words are taken one after another", None, f, "%d loops" % len(lp))
                continue
            lp = lp[0]
            PP = [p for p in paths(lp.body) if feasible(p[0]) is not FALSE]
            bad, und = [], []
            reads_any = False
            for conds, ev, end, node in PP:
                rd = [e for e in ev if e.kind == "call" and e.name.endswith("read_v")]
                ends = end if end != "continue" else "end"
                if kind in ("bare", "help"):
                    if ends != "abort" or rd:
                        vague = [c for c, b in conds if not found(c) and not any(x.op == "good" for x in subnodes(c))]
                        (und if vague else bad).append("ends with %s, %d reads" % (ends, len(rd)))
                else:
                    missing, okread, oth = None, None, []
                    for c, b in conds:
                        fa = found(c)
                        if fa:
                            y = truth(c, list(fa.values())[0])
                            if y is None:
                                oth.append(c)
                            else:
                                missing = (y == b)
                        else:
                            g = [x for x in subnodes(c) if x.op == "good"]
                            if g and truth(c, g[0]) is not None and any(isinstance(x.a[0], str) and x.a[0].endswith("read_v") for x in subnodes(g[0]) if x.op == "argout"):
                                okread = (truth(c, g[0]) == b)
                            else:
                                oth.append(c)
                    if rd:
                        reads_any = True
                        if len(rd) > 1 or not any(x.op == "foundat" for x in subnodes(rd[0].obj)):
                            bad.append("reads %s" % [show(e.obj)[:80] for e in rd])
                        if missing:
                            bad.append("reads although the name was not found")
                    if ends == "end" or ends == "break" or ends == "return":
                        if missing is None and not oth or missing:
                            bad.append("an unknown name does not stop the program")
                        if not rd:
                            (und if oth else bad).append("a word is passed over without being read")
                        if okread is not True:
                            lib = [c for c in oth if all(x.a[0].split("::")[-1] in ("bad", "eof", "rdstate") for x in subnodes(c) if x.op == "call" and isinstance(x.a[0], str) and "ios" in x.a[0]) and any(x.op == "call" for x in subnodes(c))]
                            (bad if okread is False or not oth or len(lib) == len(oth) else und).append("goes on after a failed extraction")
                        if ends != "end":
                            bad.append("does not go on to the next word")
                    elif ends == "abort":
                        if missing is False and okread is True and not oth:
                            bad.append("stops although name and value are right")
                    else:
                        und.append("ends with " + ends)
            if kind not in ("bare", "help"):
                if M.finds:
                    for loc, e, pred, res in M.finds:
                        wr = [x for x, v in res.items() if v is (FALSE if x == kind else TRUE)]
                        if wr:
                            bad.append("looks up something else: wrong about %s" % wr)
                        elif any(v not in (TRUE, FALSE) for v in res.values()):
                            und.append("looks up %s" % show(pred)[:100])
                else:
                    und.append("no search")
                if not M.finds:
                    bad, und = [], bad + und
                if not reads_any:
                    und.append("nothing is read")
            ctx.ob(key, {"bare": "a word without prefix stops the program before anything is read", "help": "help and version end the program"}.get(kind, "the parameter %r, and only it, is read; an unknown name or a value that does not parse stops the program" % kind),
                   False if bad else None if und or not PP else True, f, "; ".join(sorted(set(bad or und)))[:300])


def line(ctx, prog):
    f = ctx.need([g for g in prog.find(q="parameters::update") if g.body is not None], "update")[0]
    g = ctx.need(scen(prog, "scenario_cmdline"), "scenario")
    J = ctx.interp(prog, g)
    for n in (1, 2, 3, 4):
        I = ctx.interp(prog, f, args=[None, num(n), None, mk("str", "--")], unroll=64)
        # what the getter returns afterwards: the field it reads, read in the state after update
        fl = [x for x in subnodes(J.result) if x.op == "fld"]
        got = None
        for k in I.allw:
            if k[0] in (("p", 0),) or "parsedCommandLine" in str(k):
                if fl and fl[0].a[1] in str(k):
                    got = I.read(k)
        key = "line:%d" % n
        if got is None or not fl:
            # a write through the shared pointer
            es = [e for e in walk(I.tr) if isinstance(e, Eff) and e.kind == "w" and fl and fl[0].a[1] in show(e.obj)]
            got = es[-1].args[0] if len(es) == 1 else None
        if got is None:
            ctx.ob(key, "the command line of %d words is kept" % n, None, f)
            continue
        t = flat(got)
        want = []
        for i in range(n):
            want.append(cn(P(typed(mk("deref", P(mk("p", 2)) if i == 0 else add(P(mk("p", 2)), num(i))), "char *"))))
        if t is None:
            ctx.ob(key, "the command line of %d words is kept" % n, None, f, show(got)[:300])
            continue
        words_ = [x for x in t if not (x.op == "str" and x.a[0].strip() == "") and not (V.const_int(x) == 32)]
        a = [norm(x) for x in words_]
        b = [norm(x) for x in want]
        sepok = len(t) == 2 * n - 1
        ctx.ob(key, "the command line of %d words is kept, every word once and in order" % n, a == b and sepok, f, "%s" % [show(x)[:50] for x in t])


def norm(x):
    s = show(cn(x) if x.op == "poly" else x)
    import re
    mm = re.match(r"elem\(p\(2\),(\d+)\)$", s.replace(" ", ""))
    if mm:
        s = "deref((%s+p(2)))" % mm.group(1) if mm.group(1) != "0" else "deref(p(2))"
    return s.replace(" ", "").replace("deref(p(2))", "deref(0+p(2))") if "+" not in s else s.replace(" ", "")


def flat(v):
    """the pieces of a text built by concatenation and a string stream"""
    if v.op == "cat":
        out = []
        for x in v.a:
            y = flat(x)
            if y is None:
                return None
            out += y
        return out
    if v.op == "call" and str(v.a[0]).endswith("::str"):
        return flat(v.a[2]) if len(v.a) > 2 else None
    if v.op == "out":
        a = flat(v.a[0])
        if a is None:
            return None
        x = v.a[1]
        if x.op == "call" and "tuple_" in str(x.a[0]) or x.op == "fnref" or x.op == "ctor" or (x.op == "call" and str(x.a[0]).split("::")[-1].startswith(("set", "boolalpha"))):
            return a
        b = flat(x)
        return None if b is None else a + b
    if v.op == "new":
        return []
    if v.op in ("fold", "unk", "lc", "while", "ite"):
        return None
    return [v]
