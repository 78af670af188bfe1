"""Path-sensitive typestate directly over statements: a collecting abstract interpretation with sets of abstract states.

A state is (env, user): env maps local variables to what is known of them (booleans, 0, "pos", closures, aliases) and remembers how comparisons of unmodified
quantities came out; user is the rule's typestate. Everything else is non-deterministic, both outcomes are followed. Loops are iterated to a fixpoint."""
from .interp import strip_targs


class O:
    def __init__(self):
        self.norm, self.ret, self.brk, self.cont, self.thr = set(), [], set(), set(), []

    def add(self, o):
        self.ret += o.ret
        self.brk |= o.brk
        self.cont |= o.cont
        self.thr += o.thr


class Lost(Exception):
    pass


class Fsm:
    """rule: call(q, callee, node, user) -> None (no event) or a new user / list of new users
             inline(fn) -> bool"""

    def __init__(self, prog, fn, rule, limit=20000):
        self.p, self.fn, self.rule, self.tu = prog, fn, rule, fn.tu
        self.limit = limit
        self.ops = 0
        self.stack = []

    def run(self, users):
        self.thr = []
        o = self.stmt(self.fn.body, {(frozenset(), u) for u in users})
        self.ends = [(s[1], "end", s[0]) for s in o.norm] + [(s[1], l, s[0]) for (v, l, s) in o.ret]
        self.throws = o.thr
        return self

    # ---------------------------------------------------------------- environment
    def get(self, s, k):
        m = dict(s[0])
        seen = 0
        while ("a", k) in m and seen < 20:
            k = m[("a", k)]
            seen += 1
        return m.get(k)

    def res(self, s, k):
        m = dict(s[0])
        seen = 0
        while ("a", k) in m and seen < 20:
            k = m[("a", k)]
            seen += 1
        return k

    def put(self, s, k, v):
        m = dict(s[0])
        k = self.res(s, k)
        # what was learnt of comparisons with this variable is forgotten
        for x in list(m):
            if x[0] == "f" and k in x[2]:
                del m[x]
        m.pop(k, None)
        if v is not None:
            m[k] = v
        return (frozenset(m.items()), s[1])

    def fact(self, s, key, deps):
        return dict(s[0]).get(("f", key, deps))

    def learn(self, s, key, deps, v):
        m = dict(s[0])
        m[("f", key, deps)] = v
        return (frozenset(m.items()), s[1])

    # ---------------------------------------------------------------- expressions
    def var(self, e):
        while e and e[0] in ("icast", "cast", "paren"):
            e = e[2] if e[0] == "paren" else e[3]
        if e and e[0] == "ref" and e[2] in ("loc", "parm", "bind"):
            return ("v", e[3])
        if e and e[0] == "call" and strip_targs(e[2]["q"]) in ("std::forward", "std::move") and len(e[3]) == 1:
            return self.var(e[3][0])
        return None

    def deps(self, e):
        """variables an expression consists of, None if it may have effects or depends on anything else"""
        out = set()
        ok = [True]

        def go(n):
            if isinstance(n, list):
                if n and isinstance(n[0], str):
                    if n[0] in ("assign", "lambda", "new", "throw", "icall") or (n[0] == "un" and n[2] in ("++", "--")):
                        ok[0] = False
                        return
                    if n[0] in ("call", "mcall"):
                        ok[0] = False
                        return
                    if n[0] == "ocall" and n[2] not in ("==", "!=", "<", ">", "<=", ">="):
                        ok[0] = False
                        return
                    if n[0] == "ref":
                        if n[2] in ("loc", "parm", "bind"):
                            out.add(("v", n[3]))
                        return
                for x in n:
                    go(x)
        go(e)
        return frozenset(out) if ok[0] else None

    def truth(self, e, s):
        """[(bool, state)]"""
        self.ops += 1
        if self.ops > self.limit * 50:
            raise Lost("too many steps")
        k = e[0]
        if k in ("icast",):
            return self.truth(e[3], s)
        if k == "cast":
            return self.truth(e[3], s)
        if k == "un" and e[2] == "!":
            return [(not b, t) for b, t in self.truth(e[3], s)]
        if k == "bin" and e[2] in ("&&", "||"):
            out = []
            for b, t in self.truth(e[3], s):
                if b == (e[2] == "||"):
                    out.append((b, t))
                else:
                    out += self.truth(e[4], t)
            return out
        if k == "cond":
            out = []
            for b, t in self.truth(e[2], s):
                out += self.truth(e[3] if b else e[4], t)
            return out
        v = self.var(e)
        if v is not None:
            x = self.get(s, v)
            if isinstance(x, bool):
                return [(x, s)]
            if x == 0:
                return [(False, s)]
            if x == "pos" or isinstance(x, int):
                return [(True, s)]
            isb = self.tu.t(e[1]).replace("const ", "") == "bool" if e[0] == "ref" else True
            return [(True, self.put(s, v, True if isb else "pos")), (False, self.put(s, v, False if isb else 0))]
        if k == "ocall" and e[2] in ("==", "!=") and self.deps(e) is not None:
            d = frozenset(self.res(s, x) for x in self.deps(e))
            key = repr([strip(x) for x in e[4]])
            f = self.fact(s, key, d)
            if f is not None:
                return [(f if e[2] == "==" else not f, s)]
            return [(e[2] == "==", self.learn(s, key, d, True)), (e[2] != "==", self.learn(s, key, d, False))]
        out = []
        for x, t in self.eval(e, s):
            if isinstance(x, bool):
                out.append((x, t))
            elif x == 0:
                out.append((False, t))
            elif x == "pos" or isinstance(x, int):
                out.append((True, t))
            else:
                d = self.deps(e)
                if d is not None and k == "bin":
                    d = frozenset(self.res(t, y) for y in d)
                    key = repr(strip(e))
                    f = self.fact(t, key, d)
                    if f is not None:
                        out.append((f, t))
                    else:
                        out += [(True, self.learn(t, key, d, True)), (False, self.learn(t, key, d, False))]
                else:
                    out += [(True, t), (False, t)]
        return out

    def evs(self, es, s):
        """[( [values], state)]"""
        outs = [([], s)]
        for e in es:
            nx = {}
            for vs, t in outs:
                for v, t2 in self.eval(e, t):
                    key = (tuple(map(repr, vs + [v])), t2)
                    nx[key] = (vs + [v], t2)
            outs = list(nx.values())
        return outs

    def eval(self, e, s):
        """[(value, state)]"""
        self.ops += 1
        if self.ops > self.limit * 50:
            raise Lost("too many steps")
        if e is None or not isinstance(e, list) or not e:
            return [(None, s)]
        k = e[0]
        if k == "num":
            v = e[2]
            t = self.tu.t(e[1])
            if t == "bool":
                return [(str(v) in ("1", "true", "True"), s)]
            try:
                f = float(v)
                if f == 0:
                    return [(0, s)]
                if f > 0:
                    return [("pos" if f != int(f) or f != 1 else "pos", s)]
            except (TypeError, ValueError):
                pass
            return [(None, s)]
        if k == "zero":
            return [(False if self.tu.t(e[1]) == "bool" else 0, s)]
        v = self.var(e)
        if v is not None:
            return [(self.get(s, v), s)]
        if k == "icast":
            return self.eval(e[3], s)
        if k == "cast":
            return self.eval(e[3], s)
        if k == "lambda":
            return [(("lam", e[4]), s)]
        if k == "cond":
            out = []
            for b, t in self.truth(e[2], s):
                out += self.eval(e[3] if b else e[4], t)
            return out
        if k == "un" and e[2] in ("++", "--"):
            v = self.var(e[3])
            if v is None:
                return [(None, t) for _, t in self.eval(e[3], s)]
            o = self.get(s, v)
            n = ("pos" if o in (0, "pos") and not isinstance(o, bool) else None) if e[2] == "++" else None
            return [((o if e[4] else n), self.put(s, v, n))]
        if k == "un" and e[2] == "!":
            return [(b, t) for b, t in self.truth(e, s)]
        if k == "un":
            return [(None, t) for _, t in self.eval(e[3], s)]
        if k == "bin":
            op = e[2]
            if op in ("&&", "||"):
                return [(b, t) for b, t in self.truth(e, s)]
            if op == ",":
                return [(vs[1], t) for vs, t in self.evs([e[3], e[4]], s)]
            out = []
            for (a, b), t in self.evs([e[3], e[4]], s):
                out.append((self.binop(op, a, b), t))
            return out
        if k == "assign":
            v = self.var(e[3])
            out = []
            for x, t in self.eval(e[4], s):
                if v is None:
                    if e[3][0] not in ("mem", "idx"):
                        t2 = [y for _, y in self.eval(e[3], t)]
                    else:
                        t2 = [t]
                    out += [(x if e[2] == "=" else None, y) for y in t2]
                else:
                    if e[2] == "+=":
                        o = self.get(t, v)
                        x = "pos" if "pos" in (o, x) and all(y in (0, "pos") for y in (o, x)) else o if x == 0 else None
                    elif e[2] in ("|=", "&="):
                        o = self.get(t, v)
                        if isinstance(o, bool) and isinstance(x, bool):
                            x = (o or x) if e[2] == "|=" else (o and x)
                        else:
                            x = None
                    elif e[2] != "=":
                        x = None
                    out.append((x, self.put(t, v, x)))
            return out
        if k == "throw":
            for _, t in self.eval(e[2], s):
                self.thr.append((self.tu.t(e[1]), t))
            return []
        if k in ("call", "mcall", "ocall", "ctor"):
            return self.call(e, s)
        if k == "icall":
            outs = []
            for vs, t in self.evs([e[2]] + list(e[3]), s):
                outs += self.closure(vs[0], e[3], t)
            return outs
        # anything else: evaluate the operands for their effects
        subs = [x for x in e[1:] if isinstance(x, list) and x and isinstance(x[0], str)]
        for x in e[1:]:
            if isinstance(x, list) and x and isinstance(x[0], list):
                subs += [y for y in x if isinstance(y, list) and y and isinstance(y[0], str)]
        return [(None, t) for _, t in self.evs(subs, s)]

    def binop(self, op, a, b):
        num = lambda x: not isinstance(x, bool) and x in (0, "pos")
        if op in ("==", "!=") and isinstance(a, bool) and isinstance(b, bool):
            return (a == b) == (op == "==")
        if num(a) and num(b):
            if a == 0 and b == 0:
                return {"==": True, "!=": False, "<": False, ">": False, "<=": True, ">=": True, "%": 0, "+": 0, "-": 0, "*": 0, "/": None}.get(op)
            if a == 0:
                return {"==": False, "!=": True, "<": True, ">": False, "<=": True, ">=": False, "%": 0, "+": "pos", "*": 0, "/": 0}.get(op)
            if b == 0:
                return {"==": False, "!=": True, "<": False, ">": True, "<=": False, ">=": True, "+": "pos", "-": "pos", "*": 0}.get(op)
            return {"+": "pos", "*": "pos"}.get(op)
        if a == 0 and not isinstance(a, bool) and op == "%":
            return 0
        return None

    def closure(self, lam, args, s):
        if isinstance(lam, tuple) and lam[0] == "lam":
            f = self.tu.fns.get(lam[1])
            if f is not None and f.body is not None:
                return self.inline(f, args, s)
        return [(None, s)]

    def call(self, e, s):
        k = e[0]
        if k == "mcall":
            callee, args, ob = e[3], e[4], e[2]
        elif k == "ocall":
            callee, args, ob = e[3], e[4], None
        else:
            callee, args, ob = e[2], e[3], None
        q = strip_targs(callee["q"]) if callee else "?"
        outs = []
        if k == "ocall" and e[2] == "()":
            for vs, t in self.evs(args, s):
                if isinstance(vs[0], tuple) and vs[0][0] == "lam":
                    outs += self.closure(vs[0], args[1:], t)
                    continue
                outs += self.event(q, callee, e, args[1:], t)
            return outs
        if k == "ocall" and e[2] == "=" and len(args) == 2:
            v = self.var(args[0])
            if v is not None:
                return [(None, self.put(t, v, None)) for _, t in self.evs([args[1]], s)]
        if k == "ctor" and e[5] in ("copy", "move") and len(args) == 1:
            return self.eval(args[0], s)
        if q in ("std::forward", "std::move") and len(args) == 1:
            return self.eval(args[0], s)
        for vs, t in self.evs(([ob] if ob is not None else []) + list(args), s):
            outs += self.event(q, callee, e, args, t)
        return outs

    def event(self, q, callee, e, args, s):
        r = self.rule.call(q, callee, e, s[1])
        if r is not None:
            us = r if isinstance(r, list) else [r]
            return [(None, (s[0], u)) for u in us]
        f = self.tu.fns.get(callee.get("f")) if callee else None
        if f is not None and f.body is not None and self.rule.inline(f) and f.key not in self.stack:
            return self.inline(f, args, s)
        # arguments passed by non-const reference may change
        pts = [self.tu.t(i) for i in (callee or {}).get("pt", ())]
        for i, a in enumerate(args):
            v = self.var(a)
            pt = pts[i] if i < len(pts) else ""
            if v is not None and pt.endswith("&") and not pt.startswith("const ") and not pt.endswith("&&"):
                s = self.put(s, v, None)
        return [(None, s)]

    def inline(self, f, args, s):
        self.stack.append(f.key)
        try:
            st = s
            m = dict(st[0])
            binds = []
            for p, a in zip(f.params, args):
                v = self.var(a)
                key = ("v", p["id"])
                pt = self.tu.t(p["t"])
                if v is not None and pt.endswith("&"):
                    m.pop(key, None)
                    tgt = self.res(st, v)
                    if tgt != key:
                        m[("a", key)] = tgt
                else:
                    x = self.get(st, v) if v is not None else None
                    if v is None:
                        vs = {repr(y): y for y, _ in self.eval(a, st)}
                        x = list(vs.values())[0] if len(vs) == 1 else None
                    m.pop(("a", key), None)
                    m.pop(key, None)
                    if x is not None:
                        m[key] = x
            st = (frozenset(m.items()), st[1])
            o = self.stmt(f.body, {st})
            self.thr += o.thr
            outs = [(None, t) for t in o.norm] + [(v, t) for v, l, t in o.ret]
            d = {}
            for v, t in outs:
                d[(repr(v), t)] = (v, t)
            return list(d.values())
        finally:
            self.stack.pop()

    # ---------------------------------------------------------------- statements
    def stmt(self, n, sts):
        o = O()
        if n is None or not sts:
            o.norm = set(sts)
            return o
        if len(sts) > self.limit:
            raise Lost("too many states")
        k = n[0]
        othr, self.thr = self.thr, []
        try:
            self.stmt2(k, n, sts, o)
        finally:
            o.thr += self.thr
            self.thr = othr
        return o

    def cond(self, e, sts):
        t, f = set(), set()
        for s in sts:
            for b, x in self.truth(e, s):
                (t if b else f).add(x)
        return t, f

    def stmt2(self, k, n, sts, o):
        if k == "{":
            cur = set(sts)
            for x in n[1]:
                if not cur:
                    break
                a = self.stmt(x, cur)
                o.add(a)
                cur = a.norm
            o.norm = cur
        elif k == "nop":
            o.norm = set(sts)
        elif k == "decl":
            cur = set(sts)
            for v in n[1]:
                cur = self.declare(v, cur)
            o.norm = cur
        elif k == "if":
            cur = set(sts)
            if n[1] is not None:
                a = self.stmt(n[1], cur)
                o.add(a)
                cur = a.norm
            if n[2] is not None:
                cur = self.declare(n[2], cur)
            t, f = self.cond(n[3], cur)
            a, b = self.stmt(n[4], t), self.stmt(n[5], f)
            o.add(a)
            o.add(b)
            o.norm = a.norm | b.norm
        elif k in ("for", "while", "do", "rfor"):
            self.loop(k, n, sts, o)
        elif k == "return":
            for s in sts:
                for v, t in (self.eval(n[1], s) if n[1] is not None else [(None, s)]):
                    o.ret.append((v, n[-1], t))
        elif k == "break":
            o.brk |= set(sts)
        elif k == "continue":
            o.cont |= set(sts)
        elif k == "try":
            a = self.stmt(n[1], sts)
            o.ret += a.ret
            o.brk |= a.brk
            o.cont |= a.cont
            o.norm = set(a.norm)
            for t, s in a.thr:
                h = self.handler(n[2], t)
                if h is None:
                    o.thr.append((t, s))
                else:
                    b = self.stmt(h["b"], {s})
                    o.add(b)
                    o.norm |= b.norm
        elif k == "switch":
            cur = set(sts)
            for s in sts:
                for v, t in self.eval(n[2], s):
                    pass
            body = n[3][1] if n[3] and n[3][0] == "{" else [n[3]]
            # every label may be the entry, execution falls through
            flat = []

            def fl(x):
                if x and x[0] in ("case", "default"):
                    flat.append(("label", x[0]))
                    fl(x[2] if x[0] == "case" else x[1])
                elif x is not None:
                    flat.append(("stmt", x))
            for x in body:
                fl(x)
            has = any(x == ("label", "default") for x in flat)
            run, out = set(), set()
            for kind, x in flat:
                if kind == "label":
                    run |= set(sts)
                else:
                    a = self.stmt(x, run)
                    o.ret += a.ret
                    o.cont |= a.cont
                    o.thr += a.thr
                    out |= a.brk
                    run = a.norm
            o.norm = out | run | (set() if has else set(sts))
        else:
            for s in sts:
                for _, t in self.eval(n, s):
                    o.norm.add(t)

    def handler(self, hs, t):
        b = t.replace("const ", "").rstrip("& ")
        for h in hs:
            if "t" not in h:
                return h
            c = self.tu.t(h["t"]).replace("const ", "").rstrip("& ")
            if c == b or c in ("std::exception",) or self.isbase(c, b):
                return h
        return None

    def isbase(self, c, b):
        r = self.tu.recbyfull.get(b)
        if r is None:
            return False
        for x in r.get("b", []):
            br = self.tu.recs.get(x.get("id"))
            if br is not None and (br["full"] == c or self.isbase(c, br["full"])):
                return True
        return False

    def declare(self, v, sts):
        out = set()
        key = ("v", v["id"])
        t = self.tu.t(v["t"])
        for s in sts:
            i = v.get("i")
            # forget an earlier incarnation
            m = dict(s[0])
            m.pop(("a", key), None)
            m.pop(key, None)
            for x in list(m):
                if x[0] == "f" and key in x[2]:
                    del m[x]
            s = (frozenset(m.items()), s[1])
            if i is None:
                out.add(s)
                continue
            w = self.var(i)
            if t.endswith("&") and w is not None:
                m = dict(s[0])
                m[("a", key)] = self.res(s, w)
                out.add((frozenset(m.items()), s[1]))
                continue
            if t.replace("const ", "") == "bool":
                for b, x in self.truth(i, s):
                    out.add(self.put(x, key, b))
                continue
            for x, t2 in self.eval(i, s):
                out.add(self.put(t2, key, x))
        return out

    def loop(self, k, n, sts, o):
        cur = set(sts)
        cv = cond = inc = None
        if k == "for":
            a = self.stmt(n[1], cur)
            o.add(a)
            cur = a.norm
            cv, cond, inc, body = n[2], n[3], n[4], n[5]
        elif k == "while":
            cv, cond, body = n[1], n[2], n[3]
        elif k == "do":
            cond, body = n[2], n[1]
        else:
            body = n[4]
            for s in list(cur):
                self.eval(n[2], s)
        seen, work, out = set(), cur, set()
        first = True
        for _ in range(500):
            if not work:
                break
            seen |= work
            st = work
            if not (k == "do" and first):
                if cv is not None:
                    st = self.declare(cv, st)
                if k == "rfor":
                    out |= st
                    st = self.declare(dict(n[3], i=None), st) if isinstance(n[3], dict) else st
                elif cond is not None:
                    t, f = self.cond(cond, st)
                    out |= f
                    st = t
            a = self.stmt(body, st)
            o.ret += a.ret
            o.thr += a.thr
            out |= a.brk
            nx = a.norm | a.cont
            if inc is not None:
                n2 = set()
                for s in nx:
                    for _, t in self.eval(inc, s):
                        n2.add(t)
                nx = n2
            work = nx - seen
            first = False
        else:
            raise Lost("no fixpoint")
        o.norm = out


def strip(e):
    """an expression without line numbers and type indices"""
    if isinstance(e, list) and e and isinstance(e[0], str):
        if e[0] == "ref":
            return ("ref", e[3])
        if e[0] in ("icast",):
            return strip(e[3])
        if e[0] == "bin":
            return ("bin", e[2], strip(e[3]), strip(e[4]))
        if e[0] == "un":
            return ("un", e[2], strip(e[3]))
        if e[0] in ("num", "str"):
            return tuple(map(str, e))
        return (e[0],) + tuple(strip(x) for x in e[1:] if isinstance(x, list))
    if isinstance(e, list):
        return tuple(strip(x) for x in e)
    return None
