"""Obligation bookkeeping for one check run, and small helpers shared by the rules."""
from . import driver
from .driver import Broken
from .interp import Interp, TooDeep
from .val import *
from . import val as V


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obs = []
        self.tus = set()
        self.fns_seen = set()
        self.keys = set()
        self.failed = []

    def program(self, names):
        self.tus |= set(names)
        return driver.program(names)

    def ob(self, key, desc, ok, where="", detail=""):
        """key is 'rule:instance'"""
        if key in self.keys:
            i = 2
            while "%s#%d" % (key, i) in self.keys:
                i += 1
            key = "%s#%d" % (key, i)
        self.keys.add(key)
        self.obs.append({"rule": key.split(":")[0], "key": key, "desc": desc, "ok": ok, "where": where if isinstance(where, str) else where.where(), "detail": str(detail)})
        return ok

    def count(self, rule):
        return sum(1 for o in self.obs if o["rule"] == rule)

    def violations(self):
        return any(o["ok"] is False for o in self.obs)

    def need(self, x, what):
        if not x:
            raise Broken("anchor vanished: " + what)
        return x

    def part(self, fn, *a, **k):
        """one independent part of a check: when its anchors cannot be found the rest is still decided"""
        try:
            return fn(self, *a, **k)
        except Exception as x:
            import traceback
            self.failed.append(fn.__name__)
            d = str(x) if isinstance(x, Broken) else traceback.format_exc()[-700:]
            self.ob("part:" + fn.__name__, "this part of the analysis could be carried out", None, "", d)

    def interp(self, prog, fn, args=None, this_rec=None, assume=None, **kw):
        I = Interp(prog, **kw)
        self.fns_seen.add("%s (%s)" % (fn.where(), fn.cls or ""))
        I.result = None
        I.deep = False
        V.ASSUME.clear()
        V.ASSUME.update(assume or {})
        try:
            I.result = I.run(fn, args, this_rec=this_rec)
        except TooDeep as x:
            I.deep = True
        finally:
            V.ASSUME.clear()
        for f in I.inlined:
            self.fns_seen.add(f if isinstance(f, str) else f.where())
        return I

    def eq(self, key, desc, got, want, where="", detail=""):
        """value-graph equality; a difference in which the analysis lost information is undecided"""
        from .q import cn
        got, want = cn(got), cn(want)
        if got is want:
            return self.ob(key, desc, True, where)
        lost = opaque_in(got) or opaque_in(want)
        return self.ob(key, desc, None if lost else False, where, "%s got %s, expected %s" % (detail, show(got) if got is not None else None, show(want) if want is not None else None))


LOST = {"unk", "fold", "while", "opaque"}


def opaque_in(n):
    return n is None or any(x.op in LOST for x in subnodes(n)) or n.op in LOST
