"""Typestate analysis over effect trees: forward, set-of-abstract-states, loops to a fixpoint.

A state is (user, facts): `user` is a hashable chosen by the rule, `facts` maps values (call results, condition atoms) to the constants
they are known to have on this abstract path; a branch whose condition is decided by the facts is taken only one way."""
from .interp import Eff, If, Loop, Inl, Try, Ctl
from . import val as V
from .val import TRUE, FALSE


class Out:
    __slots__ = ("norm", "ret", "brk", "cont", "thr")

    def __init__(self):
        self.norm, self.ret, self.brk, self.cont, self.thr = set(), set(), set(), set(), set()


def condval(c, facts):
    """TRUE / FALSE / None under the facts"""
    if c is None:
        return None
    if c is TRUE or c is FALSE:
        return c
    if c.op != "ite":
        return None
    m = dict(facts)

    def go(n):
        if n in (TRUE, FALSE):
            return {n}
        if n.op != "ite":
            return {TRUE, FALSE}
        a = n.a[0]
        d = m.get(a)
        if d is None:
            d = atomval(a, m)
        if d is TRUE:
            return go(n.a[1])
        if d is FALSE:
            return go(n.a[2])
        return go(n.a[1]) | go(n.a[2])
    r = go(c)
    if len(r) == 1:
        return next(iter(r))
    return None


def atomval(a, m):
    """a condition atom under known values of the things it mentions"""
    keys = [k for k in m if k.op not in ("lt0", "eq0", "isfin")]
    if not keys or not any(k in V.subnodes(a) for k in keys):
        return None
    b = V.subst(V.batom(a), lambda n: m.get(n))
    return b if b in (TRUE, FALSE) else None


class Flow:
    """rule: object with
         eff(e, user, facts) -> None | iterable of (user, {value: const} new facts)     (None: unchanged)
       optional: loop(node), inl(node, user) (called when an inlined call is entered)"""

    def __init__(self, rule, track=True, maxstates=4000):
        self.rule = rule
        self.track = track
        self.max = maxstates

    def run(self, tree, users):
        st = {(u, frozenset()) for u in users}
        o = self.seq(tree, st)
        o.norm |= o.ret
        return o

    def seq(self, tree, st):
        o = Out()
        cur = set(st)
        for n in tree:
            if not cur:
                break
            cur = self.node(n, cur, o)
            if len(cur) > self.max:
                # give up path facts
                cur = {(u, frozenset()) for u, _ in cur}
        o.norm = cur
        return o

    def assume(self, st, cond, want):
        if cond is None:
            return set(st)
        out = set()
        for u, f in st:
            r = condval(cond, f)
            if r is not None and (r is TRUE) != want:
                continue
            if self.track and cond.op == "ite":
                f = self.learn(f, cond, want)
                if f is None:
                    continue
            out.add((u, f))
        return out

    def learn(self, f, cond, want):
        """record atoms implied by cond==want"""
        m = dict(f)
        tgt = TRUE if want else FALSE
        n = cond
        ch = False
        while n.op == "ite":
            a, h, l = n.a
            d = m.get(a)
            if d is None:
                d = atomval(a, m)
            if d is TRUE:
                n = h
                continue
            if d is FALSE:
                n = l
                continue
            other = FALSE if want else TRUE
            if h is other:
                m[a] = FALSE
                ch = True
                n = l
            elif l is other:
                m[a] = TRUE
                ch = True
                n = h
            else:
                break
        if n is (FALSE if want else TRUE):
            return None
        return frozenset(m.items()) if ch else f

    def node(self, n, cur, o):
        if isinstance(n, Eff):
            nxt = set()
            for u, f in cur:
                r = self.rule.eff(n, u, f)
                if r is None:
                    nxt.add((u, f))
                else:
                    for u2, nf in r:
                        if nf:
                            m = dict(f)
                            # a new outcome of the same value replaces the old one and what was derived from it
                            for k in list(m):
                                if k in nf or any(x in V.subnodes(k) for x in nf):
                                    del m[k]
                            m.update(nf)
                            nxt.add((u2, frozenset(m.items())))
                        else:
                            nxt.add((u2, f))
            return nxt
        if isinstance(n, If):
            a = self.seq(n.t, self.assume(cur, n.cond, True))
            b = self.seq(n.e, self.assume(cur, n.cond, False))
            self.merge(o, a, b)
            return a.norm | b.norm
        if isinstance(n, Inl):
            if hasattr(self.rule, "inl"):
                nx = set()
                for u, f in cur:
                    r = self.rule.inl(n, u)
                    if r is None:
                        nx.add((u, f))
                    elif r == "skip":
                        o2 = nx
                        o2.add((u, f))
                    else:
                        nx.add((r, f))
                cur = nx
                if getattr(self.rule, "skip", None) and self.rule.skip(n):
                    return cur
            a = self.seq(n.body, cur)
            o.thr |= a.thr
            res = a.norm | a.ret
            if hasattr(self.rule, "outl"):
                nx = set()
                for u, f in res:
                    r = self.rule.outl(n, u)
                    nx.add((u if r is None else r, f))
                res = nx
            return res
        if isinstance(n, Loop):
            return self.loop(n, cur, o)
        if isinstance(n, Try):
            # a throw may happen at any point of the body
            mid = set()
            a = self.trybody(n.body, cur, mid)
            o.ret |= a.ret
            o.brk |= a.brk
            o.cont |= a.cont
            res = set(a.norm)
            ent = mid | a.thr
            caught = False
            for t, h in n.handlers:
                b = self.seq(h, ent)
                self.merge(o, b)
                res |= b.norm
                if t in ("...", ""):
                    caught = True
            if not caught:
                o.thr |= a.thr
            return res
        if isinstance(n, Ctl):
            k = n.kind
            if k == "return":
                o.ret |= cur
                return set()
            if k == "throw":
                o.thr |= cur
                return set()
            if k == "break":
                o.brk |= cur
                return set()
            if k == "continue":
                o.cont |= cur
                return set()
        return cur

    def trybody(self, tree, cur, mid):
        mid |= cur
        o = Out()
        for n in tree:
            if not cur:
                break
            o2 = Out()
            cur = self.node2(n, cur, o2, mid)
            mid |= cur
            self.merge(o, o2)
        o.norm = cur
        return o

    def node2(self, n, cur, o, mid):
        """like node, recording all intermediate states"""
        old = getattr(self, "_mid", None)
        self._mid = mid
        try:
            if isinstance(n, (If, Inl, Loop)):
                sub = Mid(self, mid)
                r = sub.node(n, cur, o)
                return r
            return self.node(n, cur, o)
        finally:
            self._mid = old

    def loop(self, n, cur, o):
        seen = set(cur)
        exits = set()
        work = set(cur)
        first = True
        zero = None
        for _ in range(200):
            if not work:
                break
            st = work
            if not (n.min1 and first):
                a = self.seq(n.pre, st)
                o.thr |= a.thr
                st = a.norm
                if not n.min1:
                    exits |= self.assume(st, n.hdr, False) if n.hdr is not TRUE or n.trip is not None else set()
                    if n.trip is not None and n.hdr is TRUE:
                        exits |= st
                    st = self.assume(st, n.hdr, True)
            b = self.seq(n.body, st)
            o.thr |= b.thr
            o.ret |= b.ret
            exits |= b.brk
            nxt = b.norm | b.cont
            c = self.seq(n.inc, nxt)
            o.thr |= c.thr
            nxt = c.norm
            if n.min1:
                exits |= self.assume(nxt, n.hdr, False)
                nxt = self.assume(nxt, n.hdr, True)
            nxt = {(u, self.backedge(n, f)) for u, f in nxt}
            work = nxt - seen
            seen |= nxt
            first = False
        return exits

    def backedge(self, n, f):
        """facts about loop-carried quantities do not survive into the next iteration"""
        lvl = None
        if n.idx is not None and n.idx.op == "poly" and n.idx.a:
            lvl = n.idx.a[0][0][0][0].a[0]
        out = []
        for k, v in f:
            bad = False
            for x in V.subnodes(k) | {k}:
                if x.op in ("lc", "idx") and (lvl is None or x.a[0] >= lvl):
                    bad = True
                    break
            if not bad:
                out.append((k, v))
        return frozenset(out)

    def merge(self, o, *xs):
        for x in xs:
            o.ret |= x.ret
            o.brk |= x.brk
            o.cont |= x.cont
            o.thr |= x.thr


class Mid(Flow):
    def __init__(self, f, mid):
        self.rule, self.track, self.max, self.m = f.rule, f.track, f.max, mid

    def seq(self, tree, st):
        o = Out()
        cur = set(st)
        self.m |= cur
        for n in tree:
            if not cur:
                break
            cur = self.node(n, cur, o)
            self.m |= cur
        o.norm = cur
        return o
