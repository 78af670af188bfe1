"""Loads what the extractor dumped: functions, classes, enums and globals of a set of translation units."""
import json


class Fn:
    __slots__ = ("tu", "d", "key", "nq", "ncls")

    def __init__(self, tu, d):
        self.tu = tu
        self.d = d
        from .interp import strip_targs
        self.nq = strip_targs(d["q"])
        self.ncls = strip_targs(d["c"]) if d.get("c") else None
        self.key = (d.get("c", ""), d["q"], d.get("ta", ""), tu.t(d["ty"]))

    q = property(lambda s: s.nq)
    rawq = property(lambda s: s.d["q"])
    name = property(lambda s: s.d["n"])
    file = property(lambda s: s.d["file"])
    line = property(lambda s: s.d["l"])
    body = property(lambda s: s.d.get("body"))
    cls = property(lambda s: s.d.get("c"))
    params = property(lambda s: s.d["p"])
    id = property(lambda s: s.d["id"])

    def where(self):
        return "%s:%d (%s)" % (short(self.file), self.line, self.q)

    def __repr__(self):
        return "<Fn %s%s>" % (self.cls or "", self.q)


def short(f):
    return f[len("/repo/"):] if f.startswith("/repo/") else f


class TU:
    def __init__(self, name, data):
        self.name = name
        self.types = data["types"]
        self.errors = data["errors"]
        self.fns = {}
        self.fnlist = []
        for d in data["functions"]:
            f = Fn(self, d)
            self.fns[d["id"]] = f
            self.fnlist.append(f)
        self.recs = {r["id"]: r for r in data["records"]}
        self.recbyfull = {r["full"]: r for r in data["records"]}
        self.enums = data["enums"]
        self.vars = {v["id"]: v for v in data["vars"]}

    def t(self, i):
        return self.types[i] if isinstance(i, int) and i < len(self.types) else ""


class Prog:
    def __init__(self, tus):
        self.tus = tus
        self.bykey = {}
        self.varq = {}
        for tu in tus:
            for f in tu.fnlist:
                if f.body is not None or f.d.get("in"):
                    self.bykey.setdefault(f.key, f)
            for v in tu.vars.values():
                if "i" in v or "cv" in v:
                    self.varq.setdefault((v["q"], v.get("ta", "")), (tu, v))

    def functions(self):
        seen = set()
        for tu in self.tus:
            for f in tu.fnlist:
                if f.key in seen and not f.d.get("c", "").startswith("(lambda"):
                    continue
                seen.add(f.key)
                yield f

    def find(self, q=None, name=None, cls=None, clsq=None, file=None, pred=None, body=True):
        """functions by qualified name / class ... with body"""
        out = []
        seen = set()
        for tu in self.tus:
            for f in tu.fnlist:
                if q is not None and f.q != q:
                    continue
                if name is not None and f.name != name:
                    continue
                if cls is not None and f.cls != cls:
                    continue
                if clsq is not None and (f.cls is None or clsq not in f.cls):
                    continue
                if file is not None and not f.file.endswith(file):
                    continue
                if body and f.body is None:
                    continue
                if pred is not None and not pred(f):
                    continue
                if f.key in seen:
                    continue
                seen.add(f.key)
                out.append(f)
        return out

    def records(self, pred):
        out, seen = [], set()
        for tu in self.tus:
            for r in tu.recs.values():
                if r.get("scope") and r["full"] not in seen and pred(r):
                    seen.add(r["full"])
                    out.append((tu, r))
        return out


def bases_of(tu, rec, seen=None):
    """all (transitive) base records, nearest first"""
    out = []
    for b in rec.get("b", []):
        br = tu.recs.get(b.get("id"))
        if br is not None:
            out.append(br)
            out += bases_of(tu, br)
    return out


def load(paths):
    tus = []
    for name, p in paths:
        with open(p) as fh:
            tus.append(TU(name, json.load(fh)))
    return Prog(tus)
