"""Structured abstract interpretation of extracted functions in the value-graph domain (sa.val).

For one function (with its callees in the repository inlined, lambdas included) the analysis computes
  * the value graph of the result and of every memory location it may write, joined at merge points, loops summarised, and
  * an effect tree: the structured flow graph of calls / writes / stream output / archive operations / throws,
    over which sa.flow runs typestate and must/may analyses.
There is one abstract state per program point: no path is enumerated, nothing is executed and no solver is asked."""
from .val import *
from . import val as V
from .prog import short
import re


class Eff:
    __slots__ = ("kind", "name", "obj", "args", "ret", "file", "line", "fn", "x", "snap")

    def __init__(self, kind, name, obj=None, args=(), ret=None, file="", line=0, fn="", x=None):
        self.kind, self.name, self.obj, self.args, self.ret, self.file, self.line, self.fn, self.x = kind, name, obj, args, ret, file, line, fn, x
        self.snap = None

    def where(self):
        return "%s:%d in %s" % (short(self.file), self.line, self.fn)

    def __repr__(self):
        return "%s %s obj=%s args=%s" % (self.kind, self.name, self.obj, self.args)


class If:
    __slots__ = ("cond", "raw", "t", "e", "line", "file", "fn")


class Loop:
    __slots__ = ("hdr", "trip", "body", "line", "idx", "file", "fn", "inc", "pre", "raw", "min1", "brk", "car")


class Inl:
    __slots__ = ("fn", "body", "line", "file", "call", "args", "obj")


class Try:
    __slots__ = ("body", "handlers", "line")


class Ctl:
    __slots__ = ("kind", "val", "type", "line", "file", "fn", "nargs")


class TooDeep(Exception):
    pass


class Exit:
    __slots__ = ("kind", "pc", "val", "st")

    def __init__(self, kind, pc, val, st):
        self.kind, self.pc, self.val, self.st = kind, pc, val, st


class Frame:
    def __init__(self, fn, this=None, parent=None, caps=None):
        self.fn = fn
        self.this = this
        self.vars = {}
        self.parent = parent
        self.caps = caps
        self.refret = False

    def look(self, i):
        f = self
        while f is not None:
            if i in f.vars:
                return f.vars[i]
            f = f.parent
        return None


PURE_EXT = None
MATH1 = {"sqrt", "exp", "sin", "cos", "conj", "real", "imag", "norm", "abs", "fabs", "log", "tan", "atan", "sinh", "cosh", "tanh", "arg", "floor", "ceil", "lgamma", "log10", "round", "isfinite", "isnan", 'operator""i', 'operator""if', 'operator""il'}
MATHQ = re.compile(r"^(std::|blitz::|boost::math::|::)?(\w+)$")
IDENT = {"std::move", "std::forward", "std::as_const", "boost::ref", "std::ref", "std::cref", "boost::cref", "std::addressof_", "std::launder", "boost::make_iterator_range_"}


def strip_targs(q):
    """qualified name without template arguments ('operator<' and friends survive)"""
    i = q.find("operator")
    if i >= 0 and (i == 0 or not (q[i - 1].isalnum() or q[i - 1] == "_")):
        tail = q[i:]
        if tail[8:9] in "<>-=!" and tail[8:9]:
            k = 8
            while k < len(tail) and tail[k] in "<>=-":
                k += 1
            return strip_targs(q[:i]) + tail[:k]
    out, d = [], 0
    for ch in q:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    return "".join(out)


def seq_ints(t):
    """values of a compile-time sequence of integers"""
    t = t.strip()
    m = re.match(r"tmptools::(Ordinals|Range)<(.*)>$", t)
    if m:
        a = [int(x) for x in m.group(2).split(",")]
        lo = a[1] if len(a) > 1 else 0
        return list(range(lo, lo + a[0]))
    m = re.match(r"(?:tmptools::Vector|composite::_|boost::mpl::vector_c<\w+|boost::mpl::vector\d*_c<\w+)[<,](.*)>$", t)
    if m:
        try:
            return [int(x) for x in m.group(1).split(",") if x.strip()]
        except ValueError:
            return None
    if t.startswith("boost::mpl::v_item<"):
        # one more element at the end (or, with a final 1, in front)
        a = split_targs(t[len("boost::mpl::v_item<"):-1])
        m = re.match(r"(?:mpl_|boost::mpl)::(?:integral_c<\w+(?: \w+)*, *|int_<)(-?\d+)", a[0])
        rest = seq_ints(a[1]) if len(a) > 1 else None
        if m and rest is not None:
            return [int(m.group(1))] + rest if len(a) > 2 and a[2].strip() == "1" else rest + [int(m.group(1))]
        return None
    m = re.match(r"boost::mpl::range_c<\w+, *(-?\d+), *(-?\d+)>$", t)
    if m:
        return list(range(int(m.group(1)), int(m.group(2))))
    return None


def is_ref(t):
    return t.endswith("&")


def is_constref(t):
    return (t.endswith("&") and (t.startswith("const ") or " const &" in t[-8:] or t.endswith("const &"))) or t.endswith("&&")


def mtr(v):
    """transpose of a matrix-valued node"""
    if v.op == "mtr":
        return v.a[0]
    return mk("mtr", v)


def is_blitz_array(t):
    t = t.replace("const ", "").strip(" &")
    return t.startswith("blitz::Array<")


def isint_t(t):
    t = t.replace("const ", "").strip(" &")
    return t in ("int", "unsigned int", "unsigned long", "long", "short", "char", "unsigned char", "size_t", "long long", "unsigned long long", "bool", "unsigned short", "signed char")


class Interp:
    def __init__(self, prog, this_class=None, inline=None, model=None, maxdepth=60, unroll=16, watch=None, post=None, views=False, inval=None, pre=None):
        self.pre = pre          # puts values into the state before the function runs
        self.post = post
        self.inval = inval      # values read from streams
        self.views = views      # local array handles are distinguished from the array they share storage with
        self.watch = watch
        self.prog = prog
        self.st = {}
        self.tr = []
        self.pc = TRUE
        self.pcs, self.hdrs = [], []
        self.depth = 0
        self.maxdepth = maxdepth
        self.cnt = 0
        self.inline_pred = inline or (lambda f: True)
        self.model = model
        self.unroll = unroll
        self.this_class = this_class      # record dict (most derived) of root object 'this'
        self.this_tu = None
        self.looplevel = 0
        self.frame = None
        self.stack = []
        self.warn = []
        self.statics = {}
        self.writes = None
        self.allw = set()                 # every location written, loops included
        self.ops = 0
        self.maxops = 400000
        self.inlined = set()
        self.rootcls = {}                 # root key -> record (dynamic class)
        self.ioseq = 0
        self.handles = {}

    # ------------------------------------------------------------ entry points
    def run(self, fn, args=None, this=None, this_rec=None, argtypes=True):
        """analyse fn with symbolic parameters; returns result value"""
        if this is None and fn.cls and not fn.d.get("st"):
            this = (("this",), ())
            self.this_tu = fn.tu
            if this_rec is not None:
                self.this_class = this_rec
            elif self.this_class is None:
                self.this_class = fn.tu.recs.get(fn.d.get("cid"))
            self.rootcls[("this",)] = self.this_class
        locs = []
        for i, p in enumerate(fn.params):
            t = fn.tu.t(p["t"])
            if args is not None and i < len(args) and args[i] is not None:
                a = args[i]
                if isinstance(a, N):
                    r = self.newroot("arg%d" % i)
                    self.st[r] = a
                    locs.append((r, ()))
                else:
                    locs.append(a)
            else:
                locs.append((("p", i), ()))
                TYPES[mk("p", i).id] = t
        if self.pre is not None:
            self.pre(self)
            self.tr, self.allw = [], set()
        return self.call_fn(fn, this, locs, [None] * len(locs), top=True)

    def rootval(self, root):
        v = self.st.get(root)
        if v is not None:
            return v
        if root[0] == "this":
            return mk("this")
        if root[0] == "p":
            return mk("p", root[1])
        if root[0] == "val":
            return root[1]
        if root[0] == "g":
            return mk("g", root[1])
        return mk("undef", str(root[-1]))

    def newroot(self, name):
        self.cnt += 1
        return ("v", self.cnt, name)

    # ------------------------------------------------------------ memory
    def project(self, v, step, t=None):
        if step[0] == "~":
            return mtr(v) if self.st.get(("view", step[1])) is TRUE else v
        if v.op == "ite":
            return V.ite(mk("ite", v.a[0], TRUE, FALSE), self.project(v.a[1], step, t), self.project(v.a[2], step, t))
        if v.op == "upd":
            base, s2, val = v.a
            if s2 == step:
                return val
            if step[0] != s2[0]:
                return self.project(base, step, t)
            if step[0] == ".":
                return self.project(base, step, t)
            if len(step) == len(s2):
                for x, y in zip(step[1:], s2[1:]):
                    if isinstance(x, N) and isinstance(y, N) and x.op != "ite" and y.op != "ite":
                        d = V.sub(x, y) if self._numeric(x) and self._numeric(y) else None
                        if d is not None and is_const(d) and d.a != ():
                            return self.project(base, step, t)
            return typed(mk("elem", v, *step[1:]), t)
        if v.op == "obj":
            for k, x in v.a[1]:
                if k == step:
                    return x
            if step[0] == ".":
                return typed(mk("undef", str(step[1])), t)
        if v.op == "tuple" and step[0] == "[" and len(step) == 2:
            i = const_int(step[1]) if isinstance(step[1], N) else None
            if i is not None and 0 <= i < len(v.a):
                return v.a[i]
            if v.a and all(x is v.a[0] for x in v.a):
                return v.a[0]
        if v.op == "ctor" and v.a[0] == "blitz::TinyVector" and len(v.a) == 2 and step[0] == "[" and isinstance(v.a[1], N) and (v.a[1].op in ("fnref", "lam") or v.a[1].op == "call" and str(v.a[1].a[0]).endswith("::bind")):
            return v.a[1]
        if v.op == "tuple" and step[0] == ".":
            if step[1] == "std::pair::first" or step[1].endswith("::first"):
                return v.a[0]
            if step[1].endswith("::second") and len(v.a) > 1:
                return v.a[1]
        if v.op == "lref" and step[0]:
            return self.read((v.a[0], v.a[1] + (step,)), t)
        if v.op == "zeroinit":
            if t and V._numeric_type(t):
                return ZERO
            return v
        if step[0] == ".":
            return typed(mk("fld", v, step[1]), t)
        return typed(mk("elem", v, *step[1:]), t)

    def _numeric(self, x):
        return x.op == "poly" or x in (TRUE, FALSE) or V._numt(x)

    def update(self, v, path, new):
        if not path:
            return new
        step = path[0]
        if step[0] == "~":
            if self.st.get(("view", step[1])) is TRUE:
                return mtr(self.update(mtr(v), path[1:], new))
            return self.update(v, path[1:], new)
        if v.op == "ite" and len(path) > 0:
            return V.ite(mk("ite", v.a[0], TRUE, FALSE), self.update(v.a[1], path, new), self.update(v.a[2], path, new))
        sub_ = new if len(path) == 1 else self.update(self.project(v, step), path[1:], new)
        if v.op == "obj":
            items = [(k, x) for k, x in v.a[1] if k != step] + [(step, sub_)]
            items.sort(key=lambda kx: repr(kx[0]))
            return mk("obj", v.a[0], tuple(items))
        if v.op == "tuple" and step[0] == "[" and len(step) == 2:
            i = const_int(step[1])
            if i is not None and 0 <= i < len(v.a):
                return mk("tuple", *(v.a[:i] + (sub_,) + v.a[i + 1:]))
        if v.op == "upd" and v.a[1] == step:
            v = v.a[0]
        elif v.op == "upd" and step[0] == "." and v.a[1][0] == ".":
            # keep '.' updates sorted so that the order of independent writes does not matter
            if repr(v.a[1]) > repr(step):
                return mk("upd", self.update(v.a[0], (step,), sub_), v.a[1], v.a[2])
        return mk("upd", v, step, sub_)

    def deref(self, loc):
        """follow references stored in memory along the path"""
        root, path = loc
        for _ in range(50):
            v = self.rootval(root)
            done = True
            for i in range(len(path) + 1):
                if v.op == "lref":
                    root, path = v.a[0], v.a[1] + path[i:]
                    done = False
                    break
                if i < len(path):
                    if v.op not in ("obj", "upd", "tuple"):
                        break
                    v = self.project(v, path[i])
            if done:
                return (root, path)
        return (root, path)

    def read(self, loc, t=None):
        root, path = self.deref(loc)
        v = self.rootval(root)
        for i, s in enumerate(path):
            v = self.project(v, s, t if i == len(path) - 1 else None)
        if not path and v.op in ("p", "g", "this", "undef") and t:
            typed(v, t)
        return v

    def write(self, loc, val, line=0, op="=", t=None, quiet=False):
        loc = self.deref(loc)
        root, path = loc
        pre = []
        for s in path:
            if s[0] == "[":
                break
            if s[0] != "~":
                pre.append(s)
        self.allw.add((root, tuple(pre)))
        if self.writes is not None:
            self.writes.add((root, tuple(pre)))
        self.st[root] = self.update(self.rootval(root), path, val)
        if not quiet:
            self.eff("w", op, obj=self.locval(loc), args=(val,), line=line, x=t)

    def locval(self, loc):
        """canonical name of a location (for reports and rules)"""
        root, path = loc
        if root[0] == "val":
            n = root[1]
        elif root[0] == "v":
            n = mk("var", root[2], root[1])
        elif root[0] == "this":
            n = mk("this")
        else:
            n = mk(*root)
        for s in path:
            if s[0] == "~":
                continue
            n = mk("fld", n, s[1]) if s[0] == "." else mk("elem", n, *s[1:])
        return n

    def temp(self, v, name="tmp"):
        if v.op == "lref":
            return (v.a[0], v.a[1])
        r = self.newroot(name)
        self.st[r] = v
        return (r, ())

    def rv(self, v, t=None):
        return self.read((v.a[0], v.a[1]), t) if v.op == "lref" else v

    def facts(self):
        """the conditions under which the present point is reached"""
        return self.pcs + [self.pc] + self.hdrs

    # ------------------------------------------------------------ effects
    def eff(self, kind, name, obj=None, args=(), ret=None, line=0, x=None):
        f = self.frame.fn if self.frame else None
        e = Eff(kind, strip_targs(name), obj, args, ret, f.file if f else "", line, f.q if f else "", x)
        self.tr.append(e)
        if self.watch is not None:
            self.watch(self, e)
        return e

    def unk(self, what, *a):
        return mk("unk", what, *a)

    # ------------------------------------------------------------ expressions
    def T(self, i):
        return self.frame.fn.tu.t(i)

    def ev(self, e):
        self.ops += 1
        if self.ops > self.maxops:
            raise TooDeep("operation budget")
        if e is None:
            return VOID
        k = e[0]
        return getattr(self, "ev_" + k, self.ev_other)(e)

    def lv(self, e):
        k = e[0]
        m = getattr(self, "lv_" + k, None)
        if m is not None:
            r = m(e)
            if r is not None:
                return r
        v = self.call_raw(e) if k in ("call", "mcall", "ocall", "icall", "pmcall") else self.ev(e)
        if v.op == "lref":
            return (v.a[0], v.a[1])
        return self.temp(v)

    def ev_other(self, e):
        return self.unk(e[0])

    def ev_unk(self, e):
        return self.unk(str(e[1]))

    def ev_num(self, e):
        t = self.T(e[1])
        s = e[2]
        if t == "bool":
            return TRUE if s not in ("0", "false") else FALSE
        try:
            return num(Fraction(s))
        except Exception:
            return mk("fnum", s)

    def ev_enum(self, e):
        return typed(mk("enumc", e[3]), "enum")

    def ev_str(self, e):
        return mk("str", e[1])

    def ev_null(self, e):
        return NULL

    def ev_zero(self, e):
        t = self.T(e[1])
        if t == "bool":
            return FALSE
        if V._numeric_type(t):
            return ZERO
        if t.endswith("*"):
            return NULL
        return mk("zeroinit", strip_targs(t))

    def ev_icast(self, e):
        v = self.ev(e[3])
        if e[2] == "FloatingToIntegral":
            return self._trunc(v)
        return tobool(v)

    def _trunc(self, v):
        def f(x):
            x = P(x)
            if is_const(x) and cval(x)[1] == 0:
                return num(int(cval(x)[0]))
            return P(mk("trunc", x))
        return lift(f, v)

    def ev_this(self, e):
        th = self.frame.this
        if th is None:
            f = self.frame
            while f is not None and f.this is None:
                f = f.parent
            th = f.this if f else (("this",), ())
        return mk("ptr", th[0], th[1])

    def ev_ref(self, e):
        if e[2] == "glob":
            g = self.globalval(e)
            if g is not None:
                return g
        return self.read(self.lv_ref(e), self.T(e[1]))

    def globalval(self, e):
        tu = self.frame.fn.tu
        v = tu.vars.get(e[3])
        if v is None:
            if strip_targs(e[4]) in ("std::cout", "std::cerr", "std::clog"):
                return None
            return None
        if v.get("cv") is not None:
            return (TRUE if v["cv"] != "0" else FALSE) if "bool" in tu.t(v["t"]) else num(int(v["cv"]))
        t = tu.t(v["t"])
        if "i" in v and t.startswith("const "):
            key = ("g", v["q"] + v.get("ta", ""))
            if key not in self.st:
                self.st[key] = mk("g", v["q"])
                try:
                    self.st[key] = self.ev(v["i"])
                except TooDeep:
                    pass
            return self.st[key]
        return None

    def lv_ref(self, e):
        kind, i = e[2], e[3]
        if kind == "glob" or kind == "other":
            return (("g", e[4]), ())
        b = self.frame.look(i)
        if b is None:
            r = ("v", 0, e[4])
            return (r, ())
        if b[0] == "loc":
            return b[1]
        if b[0] == "expr":
            fr = self.frame
            self.frame = b[2]
            try:
                return self.lv(b[1])
            finally:
                self.frame = fr
        return (b[1], ())

    def fieldkey(self, e):
        own = e[5]
        tu = self.frame.fn.tu
        r = tu.recs.get(e[4])
        return (r["q"] if r is not None else strip_targs(own)) + "::" + e[3]

    def lv_mem(self, e):
        base, arrow = e[2], e[6]
        if arrow:
            p = self.ev(base)
            loc = self.pointee(p)
        else:
            loc = self.lv(base)
        return (loc[0], loc[1] + ((".", self.fieldkey(e)),))

    def ev_mem(self, e):
        t = self.T(e[1])
        return self.read(self.lv_mem(e), t)

    def pointee(self, p):
        if p.op == "ptr":
            return (p.a[0], p.a[1])
        if p.op == "lref":
            v = self.rv(p)
            if v.op == "ptr":
                return (v.a[0], v.a[1])
            return (("val", mk("deref", v)), ())
        if p.op == "iter":
            return self.iterloc(p)
        if p.op == "ite":
            # pointer joined from several targets: read through a joined temporary
            return (("val", lift(lambda x: self.rv(mk("lref", *self.pointee(x))) if x.op in ("ptr", "iter") else mk("deref", x), p)), ())
        return (("val", mk("deref", p)), ())

    def iterloc(self, it):
        c, off = it.a
        if c.op == "lref":
            return (c.a[0], c.a[1] + (("[", off),))
        return (("val", c), (("[", off),))

    def ev_fref(self, e):
        return mk("fnref", e[2]["q"], e[2].get("ta", ""), self._cid(e[2]))

    def _cid(self, callee):
        # remember how to resolve it again
        k = ("fn", self.frame.fn.tu.name, callee["f"])
        self.handles[k] = (self.frame.fn.tu, callee)
        return k

    def ev_mfref(self, e):
        return mk("mfref", e[3]["q"])

    def ev_cond(self, e):
        c = tobool(self.ev(e[2]))
        if c is TRUE:
            return self.ev(e[3])
        if c is FALSE:
            return self.ev(e[4])
        return self.branch(c, lambda: self.ev(e[3]), lambda: self.ev(e[4]), e[5], raw=e[2])

    def lv_cond(self, e):
        c = tobool(self.ev(e[2]))
        if c is TRUE:
            return self.lv(e[3])
        if c is FALSE:
            return self.lv(e[4])
        return None

    def branch(self, c, ft, fe, line, raw=None):
        """value-level branch with state join"""
        node = If()
        node.cond = c
        node.raw = self.rawcond(raw) if raw is not None else c
        node.line = line
        node.file, node.fn = self.frame.fn.file, self.frame.fn.q
        otr, ost, opc = self.tr, self.st, self.pc
        self.tr = node.t = []
        self.st = dict(ost)
        self.pc = band(opc, c)
        a = self.rv(ft())
        s1, p1 = self.st, self.pc
        self.tr = node.e = []
        self.st = dict(ost)
        self.pc = band(opc, bnot(c))
        b = self.rv(fe())
        s2, p2 = self.st, self.pc
        self.tr = otr
        if node.t or node.e:
            self.tr.append(node)
        self.st = self.join(c, s1, s2)
        self.pc = bor(p1, p2)
        if isinstance(a, N) and isinstance(b, N):
            return ite(c, a, b)
        return VOID

    def join(self, c, s1, s2):
        if s1 is s2:
            return s1
        out = dict(s1)
        for r, v in s2.items():
            if r in s1:
                if s1[r] is not v:
                    out[r] = self.joinval(c, s1[r], v)
            else:
                # root unknown on the other side
                if r[0] in ("v",):
                    out[r] = v
                else:
                    out[r] = self.joinval(c, self._init(r), v)
        for r, v in s1.items():
            if r not in s2 and r[0] not in ("v",):
                out[r] = self.joinval(c, v, self._init(r))
        return out

    def _init(self, r):
        s = self.st
        self.st = {}
        v = self.rootval(r)
        self.st = s
        return v

    def joinval(self, c, a, b):
        """join object-like values field-wise so that an update in one branch does not blur the other fields"""
        if a is b:
            return a
        fa, ba = self._fields(a)
        fb, bb = self._fields(b)
        if (fa or fb) and ba is bb and ba is not None:
            v = ba
            for k in sorted(set(fa) | set(fb), key=repr):
                x = fa.get(k)
                y = fb.get(k)
                if x is None:
                    x = self.project(ba, k)
                if y is None:
                    y = self.project(ba, k)
                v = self.update(v, (k,), self.joinval(c, x, y))
            return v
        return ite(c, a, b)

    def _fields(self, v):
        """split into ({'.'-step: value}, base)"""
        if v.op == "obj":
            d = {k: x for k, x in v.a[1]}
            return d, mk("obj", v.a[0], ())
        d = {}
        while v.op == "upd" and v.a[1][0] == ".":
            d.setdefault(v.a[1], v.a[2])
            v = v.a[0]
        return d, v

    def rawcond(self, e):
        """boolean skeleton over locations (for flag-sensitive flow analyses)"""
        if e is None:
            return None
        k = e[0]
        if k == "un" and e[2] == "!":
            return ("not", self.rawcond(e[3]))
        if k == "bin" and e[2] in ("&&", "||"):
            return ("and" if e[2] == "&&" else "or", self.rawcond(e[3]), self.rawcond(e[4]))
        if k == "icast":
            return self.rawcond(e[3])
        if k in ("ref", "mem") and self.T(e[1]).replace("const ", "").strip(" &") == "bool":
            ops, tr = self.ops, self.tr
            self.tr = []
            try:
                loc = self.deref(self.lv(e))
            finally:
                self.tr = tr
            return ("loc", self.locval(loc))
        return ("expr",)

    # operators ------------------------------------------------------------
    def ev_un(self, e):
        op, s = e[2], e[3]
        if op in ("++", "--"):
            loc = self.lv(s)
            t = self.T(s[1]) if isinstance(s[1], int) else None
            old = self.read(loc, self.T(e[1]))
            new = self.incr(old, 1 if op == "++" else -1)
            self.write(loc, new, e[5], op)
            return old if e[4] else new
        if op == "&":
            if s[0] in ("fref", "mfref"):
                return self.ev(s)
            loc = self.lv(s)
            return mk("ptr", loc[0], loc[1])
        if op == "*":
            return self.read(self.lv_un(e), self.T(e[1]))
        v = self.ev(s)
        if op == "-":
            return neg(v)
        if op == "+":
            return v
        if op == "!":
            return bnot(v)
        return typed(mk("un", op, v), self.T(e[1]))

    def incr(self, old, d):
        def f(x):
            if x.op == "iter":
                return mk("iter", x.a[0], add(x.a[1], num(d)))
            return add(x, num(d))
        return lift(f, old)

    def lv_un(self, e):
        if e[2] == "*":
            return self.pointee(self.ev(e[3]))
        if e[2] in ("++", "--") and not e[4]:
            self.ev_un(e)
            # re-evaluating the operand as location is side-effect free for plain operands
            return self.lv(e[3])
        return None

    def ev_bin(self, e):
        op = e[2]
        if op in ("&&", "||"):
            a = tobool(self.ev(e[3]))
            if op == "&&" and a is FALSE:
                return FALSE
            if op == "||" and a is TRUE:
                return TRUE
            if (op == "&&" and a is TRUE) or (op == "||" and a is FALSE):
                return tobool(self.ev(e[4]))
            if op == "&&":
                return tobool(self.branch(a, lambda: tobool(self.ev(e[4])), lambda: FALSE, e[5], raw=e[3]))
            return tobool(self.branch(a, lambda: TRUE, lambda: tobool(self.ev(e[4])), e[5], raw=e[3]))
        if op == ",":
            self.ev(e[3])
            return self.ev(e[4])
        a = self.ev(e[3])
        b = self.ev(e[4])
        ta = self.T(e[3][1]) if len(e[3]) > 1 and isinstance(e[3][1], int) else ""
        tb = self.T(e[4][1]) if len(e[4]) > 1 and isinstance(e[4][1], int) else ""
        return self.binop(op, a, b, ta, tb, self.T(e[1]))

    def binop(self, op, a, b, ta="", tb="", tr=""):
        isint = isint_t(ta) and isint_t(tb)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            if self._isiter(a) and self._isiter(b):
                a, b = self._iteroff(a), self._iteroff(b)
                isint = True
            return cmp(op, a, b, isint)
        if op == "<=>":
            if self._isiter(a) and self._isiter(b):
                return sub(self._iteroff(a), self._iteroff(b))
            if isint or a.op == "poly" and b.op == "poly":
                return sub(a, b)
            return typed(mk("spaceship", a, b), tr)
        if a.op == "iter" and op in ("+", "-"):
            if b.op == "iter" and op == "-":
                return sub(a.a[1], b.a[1])
            return mk("iter", a.a[0], (add if op == "+" else sub)(a.a[1], b))
        if op == "+":
            if self._stringy(a) or self._stringy(b) or "basic_string" in ta or "basic_string" in tb:
                return self.cat(a, b)
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            if isint:
                ca, cb = const_int(a), const_int(b)
                if ca is not None and cb:
                    return num(int(Fraction(ca, cb)))
                if cb == 1:
                    return a
                return lift(lambda x, y: P(typed(mk("idiv", x, y), "int")), a, b)
            return div(a, b)
        if op in ("&&", "||"):
            return band(a, b) if op == "&&" else bor(a, b)
        if op == "%":
            ca, cb = const_int(a), const_int(b)
            if ca is not None and cb:
                return num(ca % cb if ca >= 0 else -((-ca) % cb))
        if op in ("&", "|") and (ta == "bool" or a.op in ("true", "false", "ite")) and (tb == "bool" or b.op in ("true", "false", "ite")):
            return band(tobool(a), tobool(b)) if op == "&" else bor(tobool(a), tobool(b))
        if op in ("&", "|", "^", "<<", ">>"):
            ca, cb = const_int(a), const_int(b)
            if ca is not None and cb is not None:
                return num({"&": ca & cb, "|": ca | cb, "^": ca ^ cb, "<<": ca << cb, ">>": ca >> cb}[op])
        return typed(mk("bop", op, a, b), tr or "int")

    def _isiter(self, v):
        if v.op == "ite":
            return self._isiter(v.a[1]) and self._isiter(v.a[2])
        return v.op == "iter"

    def _iteroff(self, v):
        return lift(lambda x: x.a[1], v)

    def _stringy(self, a):
        if a.op == "ite":
            return self._stringy(a.a[1]) or self._stringy(a.a[2])
        return a.op in ("str", "cat")

    def substr(self, v, rest, t0):
        """string(s,pos[,n]) for a string, string(p,n) for a pointer; other forms stay opaque"""
        k = [const_int(x) for x in rest if not (x.op in ("new", "ctor"))]
        if "basic_string" in t0:
            if v.op == "str" and all(x is not None for x in k) and 1 <= len(k) <= 2 and k[0] <= len(v.a[0]):
                return mk("str", v.a[0][k[0]:] if len(k) < 2 or k[1] < 0 else v.a[0][k[0]:k[0] + k[1]])
            return mk("substr", v, *[x for x in rest if not (x.op in ("new", "ctor"))])
        if "*" in t0:
            if not k:
                return v
            if v.op == "str" and len(k) == 1 and k[0] is not None:
                return mk("str", v.a[0][:k[0]])
            return mk("strn", v, *rest)
        return mk("strctor", v, *rest)

    def strfold(self, objloc, n, argnodes):
        """member functions of a constant string with constant arguments"""
        v = self.read(self.deref(objloc))
        if v.op != "str":
            return None
        a = []
        for x in argnodes:
            if x[0] == "defarg" or not x:
                break
            y = self.rv(self.ev(x))
            c = y.a[0] if y.op == "str" else const_int(y)
            if c is None:
                return None
            a.append(c)
        s = v.a[0]
        big = lambda k: len(s) if k < 0 or k > len(s) else k
        if n == "empty" and not a:
            return TRUE if s == "" else FALSE
        if n == "substr" and a and isinstance(a[0], int) and a[0] <= len(s):
            return mk("str", s[a[0]:] if len(a) < 2 or a[1] < 0 else s[a[0]:a[0] + a[1]])
        if n in ("find", "rfind") and a and isinstance(a[0], str):
            k = s.find(a[0], a[1] if len(a) > 1 else 0) if n == "find" else (s.rfind(a[0]) if len(a) < 2 or a[1] < 0 or a[1] > len(s) else s.rfind(a[0], 0, a[1] + len(a[0])))
            return num(k if k >= 0 else 2**64 - 1)
        if n == "erase" and a and isinstance(a[0], int) and a[0] <= len(s) and len(a) <= 2:
            l = self.deref(objloc)
            self.write(l, mk("str", s[:a[0]] + ("" if len(a) < 2 or a[1] < 0 else s[a[0] + a[1]:])), 0)
            return mk("lref", *l)
        if n == "compare" and len(a) == 1 and isinstance(a[0], str):
            return num((s > a[0]) - (s < a[0]))
        if n == "compare" and len(a) == 3 and isinstance(a[2], str):
            t = s[a[0]:a[0] + a[1]]
            return num((t > a[2]) - (t < a[2]))
        if n in ("starts_with", "ends_with") and len(a) == 1 and isinstance(a[0], str):
            return TRUE if (s.startswith if n == "starts_with" else s.endswith)(a[0]) else FALSE
        return None

    def cat(self, a, b):
        def f(x, y):
            xs = x.a if x.op == "cat" else (x,)
            ys = y.a if y.op == "cat" else (y,)
            out = list(xs)
            for y1 in ys:
                if out and out[-1].op == "str" and y1.op == "str":
                    out[-1] = mk("str", out[-1].a[0] + y1.a[0])
                else:
                    out.append(y1)
            out = [o for o in out if not (o.op == "str" and o.a[0] == "")]
            return out[0] if len(out) == 1 else mk("cat", *out) if out else mk("str", "")
        return lift(f, a, b)

    def ev_assign(self, e):
        op, l, r = e[2], e[3], e[4]
        v = self.ev(r)
        loc = self.lv(l)
        t = self.T(e[1])
        if op != "=":
            old = self.read(loc, t)
            v = self.binop(op[:-1], old, v, t, self.T(r[1]) if isinstance(r[1], int) else "", t)
        v = self.rv(v)
        self.write(loc, v, e[5], op, t)
        return v

    def lv_assign(self, e):
        self.ev_assign(e)
        return self.lv(e[3])

    def ev_idx(self, e):
        return self.read(self.lv_idx(e), self.T(e[1]))

    def lv_idx(self, e):
        b = self.lv(e[2]) if e[2][0] in ("ref", "mem", "idx") else None
        i = self.ev(e[3])
        if b is not None:
            v = self.read(b)
            if v.op == "ptr":
                b = (v.a[0], v.a[1])
            return (b[0], b[1] + (("[", i),))
        v = self.ev(e[2])
        if v.op == "ptr":
            return (v.a[0], v.a[1] + (("[", i),))
        return (("val", v), (("[", i),))

    def ev_ilist(self, e):
        t = self.T(e[1])
        vals = [self.ev_keepref(x) for x in e[2]]
        tu = self.frame.fn.tu
        tt = t.replace("const ", "").strip(" &")
        rec = tu.recs.get(e[4]) if len(e) > 4 and e[4] is not None else tu.recbyfull.get(tt)
        if rec is not None and rec.get("scope"):
            tt = rec["full"]
            flds = []
            bs = [tu.recs[b["id"]] for b in rec.get("b", []) if b.get("id") in tu.recs]
            items = []
            vi = 0
            for b in bs:
                if vi < len(vals):
                    if vals[vi].op == "obj":
                        items += list(vals[vi].a[1])
                    vi += 1
            for f in rec.get("fs", []):
                if vi < len(vals):
                    v = vals[vi]
                    if not is_ref(tu.t(f["t"])):
                        v = self.rv(v)
                    items.append(((".", rec["q"] + "::" + f["n"]), v))
                    vi += 1
            items.sort(key=lambda kx: repr(kx[0]))
            return mk("obj", tt, tuple(items))
        vals = [self.rv(v) for v in vals]
        if V._numeric_type(tt):
            return vals[0] if vals else ZERO
        if tt.endswith("*"):
            return vals[0] if vals else NULL
        return mk("tuple", *vals)

    def ev_keepref(self, e):
        if e is None:
            return VOID
        if e[0] in ("ref", "mem"):
            if e[0] == "ref" and e[2] == "glob":
                return self.ev(e)
            loc = self.deref(self.lv(e))
            self.read(loc, self.T(e[1]))
            return mk("lref", *loc)
        if e[0] in ("call", "mcall", "ocall", "icall"):
            return self.call_raw(e)
        return self.ev(e)

    def ev_cast(self, e):
        k, s = e[2], e[3]
        t = self.T(e[1])
        ck = e[4]
        if is_ref(t):
            loc = self.lv(s)
            return self.read(loc, t)
        v = self.ev(s)
        if k == "dyn":
            return typed(mk("dyncast", strip_last(t), v), t)
        if ck == "FloatingToIntegral":
            return self._trunc(v)
        if ck in ("ToVoid",):
            return VOID
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return tobool(v)
        return v

    def lv_cast(self, e):
        t = self.T(e[1])
        if is_ref(t):
            return self.lv(e[3])
        if e[2] == "const":
            return None
        return None

    def ev_lambda(self, e):
        caps = {}
        for c in e[3]:
            if c["k"] == "val":
                if c.get("initc"):
                    caps[c["id"]] = ("root", self._caproot(c["n"], self.ev(c["i"]) if c.get("i") else mk("undef", c["n"])))
                else:
                    b = self.frame.look(c["id"])
                    if b is not None:
                        loc = (b[1], ()) if b[0] == "root" else b[1] if b[0] == "loc" else self.lv_ref(["ref", 0, "loc", c["id"], c["n"]])
                        if is_blitz_array(self.T(c["i"][1]) if c.get("i") and isinstance(c["i"][1], int) else ""):
                            caps[c["id"]] = ("loc", self.deref(loc))
                        else:
                            caps[c["id"]] = ("root", self._caproot(c["n"], self.read(loc)))
            elif c["k"] == "ref":
                if c.get("initc"):
                    caps[c["id"]] = ("loc", self.lv(c["i"]))
                else:
                    b = self.frame.look(c["id"])
                    if b is not None:
                        caps[c["id"]] = b
        self.cnt += 1
        f = self.frame
        th = f.this
        while th is None and f.parent is not None:
            f = f.parent
            th = f.this
        key = ("lam", self.cnt)
        self.handles[key] = (self.frame.fn.tu, e[2], e[4], caps, th, self.frame)
        return mk("lam", key)

    def _caproot(self, n, v):
        r = self.newroot(n)
        self.st[r] = v
        return r

    def ev_new(self, e):
        v = self.ev(e[2]) if e[2] is not None else mk("undef", "new")
        r = self.newroot("new")
        self.st[r] = self.rv(v)
        if e[4]:
            pass
        return mk("ptr", r, ())

    def ev_delete(self, e):
        v = self.ev(e[1])
        self.eff("delete", "delete", args=(v,), line=e[2])
        return VOID

    def ev_dtor(self, e):
        loc = self.lv(e[2])
        self.eff("dtor", "dtor", obj=self.locval(loc))
        return VOID

    def ev_throw(self, e):
        t = self.T(e[1])
        n = self.count_alts(e[2])
        v = self.ev(e[2]) if e[2] is not None else VOID
        c = Ctl()
        c.kind, c.val, c.type, c.line, c.file, c.fn = "throw", v, strip_targs(t), e[3], self.frame.fn.file, self.frame.fn.q
        self.tr.append(c)
        self.exits.append(Exit("throw", self.pc, mk("exc", strip_targs(t)), self.st))
        self.pc = FALSE
        return VOID

    def count_alts(self, e):
        return 0

    def ev_typeid(self, e):
        return typed(mk("typeid", self.T(e[1]) if e[2] is None else self.ev(e[2])), "std::type_info")

    # ------------------------------------------------------------ calls
    def ev_call(self, e):
        return self.rv(self.call_raw(e), self.T(e[1]))

    ev_mcall = ev_ocall = ev_icall = ev_pmcall = ev_call

    def call_raw(self, e):
        k = e[0]
        t = self.T(e[1])
        if k == "call":
            return self.do_call(e[2], None, e[3], e[4], t, None)
        if k == "mcall":
            ob = e[2]
            if e[6]:
                loc = self.pointee(self.ev(ob))
            else:
                loc = self.lv(ob)
            return self.do_call(e[3], loc, e[4], e[5], t, None, obnode=ob)
        if k == "ocall":
            op, callee, args, line, ismeth = e[2], e[3], e[4], e[5], e[6]
            if callee is None:
                return self.ext_op(op, None, args, line, t)
            if ismeth and not callee.get("st"):
                f = self.resolve(callee)
                if f is not None or (op == "()" and callee.get("sc")):
                    if op == "()" and self.is_lambda_callee(callee):
                        return self.call_value(self.ev(args[0]), args[1:], line, t, callee)
                    loc = self.lv(args[0])
                    return self.do_call(callee, loc, args[1:], line, t, op)
                return self.ext_op(op, callee, args, line, t)
            f = self.resolve(callee)
            if f is not None:
                return self.do_call(callee, None, args, line, t, op)
            return self.ext_op(op, callee, args, line, t)
        if k == "icall":
            return self.call_value(self.ev(e[2]), e[3], e[4], t)
        return self.unk(k)

    def is_lambda_callee(self, callee):
        r = self.frame.fn.tu.recs.get(callee.get("cid"))
        return r is not None and r.get("lambda")

    def resolve(self, callee, tu=None):
        tu = tu or self.frame.fn.tu
        f = tu.fns.get(callee["f"])
        if f is not None and (f.body is not None or f.d.get("in")):
            return f
        key = (callee.get("c", ""), callee["q"], callee.get("ta", ""), tu.t(callee.get("ty", 0)))
        return self.prog.bykey.get(key)

    def find_override(self, callee, rec, tu):
        """final overrider of callee in class rec"""
        target = callee["f"]

        def overrides(fid, seen=()):
            if fid == target:
                return True
            f = tu.fns.get(fid)
            return f is not None and any(overrides(o) for o in f.d.get("ov", ()) if o != fid)

        def search(r, depth=0):
            for mid in r.get("ms", ()):
                if overrides(mid):
                    return tu.fns.get(mid) or False
            best = None
            for b in r.get("b", ()):
                br = tu.recs.get(b.get("id"))
                if br is None:
                    continue
                x = search(br, depth + 1)
                if x:
                    if best is None or (best.id == target):
                        best = x
            return best
        return search(rec) or None

    def dynclass(self, loc):
        loc = self.deref(loc)
        if not loc[1] and loc[0] in self.rootcls:
            return self.rootcls[loc[0]]
        v = self.read(loc)
        if v.op == "obj":
            for tu in [self.frame.fn.tu] + self.prog.tus:
                r = tu.recbyfull.get(v.a[0])
                if r is not None:
                    return r
        return None

    def do_call(self, callee, objloc, argnodes, line, t, op, obnode=None):
        q = callee["q"]
        if self.model is not None:
            r = self.model(self, callee, objloc, argnodes, line, t)
            if r is not None:
                return r
        if q == "blitzplusplus::sqrAbs" and len(argnodes) == 1:
            return fnorm(self.rv(self.ev(argnodes[0])))
        if objloc is not None and callee.get("virt") and not callee.get("qual"):
            dc = self.dynclass(objloc)
            if dc is not None:
                tu = self.frame.fn.tu
                f = self.find_override(callee, dc, tu)
                if f is not None and (f.body is not None):
                    return self.inline_call(f, objloc, argnodes, line, t, callee)
            f = None
            own = self.resolve(callee)
            return self.opaque(callee, objloc, argnodes, line, t, obnode)
        f = self.resolve(callee)
        if f is not None and f.body is not None and self.inline_pred(f) and self.depth < self.maxdepth and not (self.stack.count(f.key) >= 3):
            return self.inline_call(f, objloc, argnodes, line, t, callee)
        r = self.ext_call(callee, objloc, argnodes, line, t, obnode)
        if r is not None:
            return r
        return self.opaque(callee, objloc, argnodes, line, t, obnode)

    def inline_call(self, f, objloc, argnodes, line, t, callee=None):
        locs = []
        for i, p in enumerate(f.params):
            pt = f.tu.t(p["t"])
            if i < len(argnodes):
                locs.append(self.bindarg(argnodes[i], pt))
            else:
                locs.append((self.newroot("noarg"), ()))
        return self.call_fn(f, objloc, locs, argnodes, line=line)

    def bindarg(self, node, pt):
        if is_ref(pt) or is_blitz_array(pt):
            loc = self.lv(node)
            loc = self.deref(loc)
            self.read(loc, pt)
            return loc
        return self.temp(self.rv(self.ev(node)), "byval")

    def call_fn(self, f, this, locs, argnodes, line=0, top=False, parent=None, caps=None):
        self.inlined.add(f.where())
        fr = Frame(f, this, parent)
        if caps:
            fr.vars.update(caps)
        for p, l in zip(f.params, locs):
            pt = f.tu.t(p["t"])
            fr.vars[p["id"]] = ("loc", l)
            if l[0][0] == "p" and not l[1]:
                typed(mk("p", l[0][1]), pt)
        of, oe, opc, otr = self.frame, getattr(self, "exits", None), self.pc, self.tr
        node = Inl()
        node.fn, node.line, node.file = f, line, (of.fn.file if of else f.file)
        node.obj = self.locval(self.deref(this)) if this is not None else None
        node.args = tuple(self.locval(self.deref(l)) for l in locs)
        self.frame, self.exits, self.pc = fr, [], TRUE
        self.tr = node.body = []
        fr.refret = is_ref(f.tu.t(f.d["rt"]))
        self.depth += 1
        self.stack.append(f.key)
        self.pcs.append(opc)
        try:
            if f.d["k2"] == "ctor":
                self.ctor_inits(f, this)
            if f.body is not None:
                self.ex(f.body)
        finally:
            self.depth -= 1
            self.stack.pop()
            self.pcs.pop()
        exits = self.exits
        endst, endpc = self.st, self.pc
        self.frame, self.exits = of, oe
        self.tr = otr
        self.tr.append(node)
        rets = [x for x in exits if x.kind == "return"]
        if endpc is not FALSE:
            rets.append(Exit("return", endpc, VOID, endst))
        for x in exits:
            if x.kind == "throw" and oe is not None:
                oe.append(Exit("throw", band(opc, x.pc), x.val, x.st))
        if not rets:
            self.pc = FALSE
            self.st = endst
            return VOID
        acc = rets[-1]
        val, st, pc = acc.val, acc.st, acc.pc
        for x in reversed(rets[:-1]):
            if x.val.op == "lref" or val.op == "lref":
                if x.val is not val:
                    val = ite(x.pc, self._rvin(x), self._rvin2(val, st))
            else:
                val = ite(x.pc, x.val, val)
            st = self.join(x.pc, x.st, st)
            pc = bor(pc, x.pc)
        self.st = st
        self.pc = band(opc, pc) if oe is not None else pc
        return val

    def _rvin(self, x):
        return self._rvin2(x.val, x.st)

    def _rvin2(self, v, st):
        if v.op != "lref":
            return v
        s, self.st = self.st, st
        r = self.rv(v)
        self.st = s
        return r

    def ctor_inits(self, f, this):
        for i in f.d.get("in", ()):
            e = i.get("e")
            if "m" in i:
                key = (".", self.ownerq(f) + "::" + i["m"])
                ft = self.fieldtype(f, i["m"])
                if ft is not None and is_ref(ft):
                    v = mk("lref", *self.deref(self.lv(e))) if e is not None else VOID
                elif ft is not None and is_blitz_array(ft):
                    v = self.arrayinit(e)
                else:
                    v = self.rv(self.ev(e)) if e is not None else VOID
                    if v.op == "tuple" and ft is not None and V._numeric_type(ft):
                        v = v.a[0] if v.a else ZERO
                self.write((this[0], this[1] + (key,)), v, i.get("l", 0), "init", quiet=False)
            elif "b" in i:
                self.base_init(f, this, i)
            elif e is not None:   # delegating
                self.construct_into(e, this)

    def newview(self, a, transposed=False):
        """a new handle of an array that shares its storage"""
        if not self.views or a.op != "lref":
            return a
        self.nview = getattr(self, "nview", 0) + 1
        self.st[("view", self.nview)] = TRUE if transposed else FALSE
        return mk("lref", a.a[0], a.a[1] + (("~", self.nview),))

    def arrayinit(self, e):
        """blitz arrays share storage when copy-constructed"""
        if e is None:
            return VOID
        if e[0] == "ctor" and e[5] in ("copy", "move") and e[3]:
            a = e[3][0]
            return self.arrayinit(a) if a[0] == "ctor" else self._arrval(a)
        if e[0] in ("ref", "mem"):
            return self._arrval(e)
        return self.rv(self.ev(e)) if e[0] not in ("call", "mcall", "ocall") else self._arrval(e)

    def _arrval(self, a):
        if a[0] in ("ref", "mem", "un", "idx"):
            return mk("lref", *self.deref(self.lv(a)))
        if a[0] in ("call", "mcall", "ocall", "icall"):
            v = self.call_raw(a)
            return v
        return self.ev(a)

    def ownerq(self, f):
        r = f.tu.recs.get(f.d.get("cid"))
        return r["q"] if r else strip_targs(f.cls or "")

    def fieldtype(self, f, name):
        r = f.tu.recs.get(f.d.get("cid"))
        if r is None:
            return None
        for x in r.get("fs", ()):
            if x["n"] == name:
                return f.tu.t(x["t"])
        return None

    def base_init(self, f, this, i):
        e = i["e"]
        self.construct_into(e, this, base=f.tu.t(i["b"]))

    def construct_into(self, e, this, base=None):
        if e is None:
            return
        if e[0] == "cast":
            return self.construct_into(e[3], this, base)
        if e[0] == "ctor":
            callee = e[2]
            g = self.resolve(callee)
            if g is not None and (g.body is not None or g.d.get("in")) and not (e[5] in ("copy", "move") and (g.d.get("defaulted"))):
                locs = []
                for k, p in enumerate(g.params):
                    pt = g.tu.t(p["t"])
                    locs.append(self.bindarg(e[3][k], pt) if k < len(e[3]) else (self.newroot("noarg"), ()))
                self.call_fn(g, this, locs, e[3], line=e[4])
                return
            if callee.get("sc") and e[5] in ("copy", "move") and e[3]:
                v = self.rv(self.ev(e[3][0]))
                flds, b = self._fields(v)
                rec = self.frame.fn.tu.recs.get(callee.get("cid"))
                names = self._allfields(rec) if rec else []
                for key, ft in names:
                    self.write((this[0], this[1] + (key,)), self.project(v, key, ft), e[4], "init", quiet=True)
                return
            if callee.get("sc") and e[5] == "def":
                return
            # external base
            v = self.ev(e)
            self.write((this[0], this[1] + ((".", "base:" + strip_targs(base or callee.get("c", ""))),)), v, e[4], "init")
            return
        if e[0] == "inhctor":
            # inherited constructor: forward the parameters of the current frame
            g = self.resolve(e[2])
            if g is not None:
                locs = [self.frame.vars[p["id"]][1] for p in self.frame.fn.params][:len(g.params)]
                self.call_fn(g, this, locs, [], line=e[3])
            return
        v = self.ev(e)
        if v.op == "obj":
            for key, x in v.a[1]:
                self.write((this[0], this[1] + (key,)), x, 0, "init", quiet=True)
        else:
            self.write((this[0], this[1] + ((".", "base:" + strip_targs(base or "")),)), v, 0, "init")

    def _allfields(self, rec, tu=None):
        tu = tu or self.frame.fn.tu
        out = []
        for b in rec.get("b", ()):
            br = tu.recs.get(b.get("id"))
            if br is not None:
                if br.get("scope"):
                    out += self._allfields(br, tu)
                else:
                    out.append(((".", "base:" + br["q"]), br["full"]))
        for f in rec.get("fs", ()):
            out.append(((".", rec["q"] + "::" + f["n"]), tu.t(f["t"])))
        return out

    def ev_ctor(self, e):
        callee, args, line, kind = e[2], e[3], e[4], e[5]
        t = self.T(e[1])
        cq = strip_targs(callee.get("c", ""))
        if self.model is not None:
            r = self.model(self, callee, None, args, line, t)
            if r is not None:
                return r
        g = self.resolve(callee)
        if kind in ("copy", "move") and args and (g is None or g.d.get("defaulted") or self.is_lambda_callee(callee)):
            if is_blitz_array(t):
                return self._arrval(args[0])
            return self.rv(self.ev(args[0]), t)
        if g is not None and (g.body is not None) and self.depth < self.maxdepth and self.inline_pred(g):
            r = self.newroot("obj")
            full = callee.get("c")
            self.st[r] = mk("obj", full, ())
            rec = self.frame.fn.tu.recs.get(callee.get("cid"))
            locs = []
            for k, p in enumerate(g.params):
                pt = g.tu.t(p["t"])
                locs.append(self.bindarg(args[k], pt) if k < len(args) else (self.newroot("noarg"), ()))
            self.call_fn(g, (r, ()), locs, args, line=line)
            return self.rootval(r)
        return self.ext_ctor(cq, callee, args, line, t, kind)

    def ev_inhctor(self, e):
        return self.unk("inhctor")

    def ext_ctor(self, cq, callee, args, line, t, kind):
        tt = t.replace("const ", "").strip(" &")
        if cq in ("std::complex",):
            vs = [self.ev(a) for a in args]
            if not vs:
                return ZERO
            if len(vs) == 1:
                return vs[0]
            return add(vs[0], mul(IMAG, vs[1]))
        if cq in ("std::pair", "std::tuple", "boost::tuples::tuple") and kind not in ("copy", "move"):
            refs = self._tuple_targs(tt)
            out = []
            for i, a in enumerate(args):
                v = self.ev_keepref(a)
                if not (i < len(refs) and is_ref(refs[i])):
                    v = self.rv(v)
                out.append(v)
            if len(args) == 1 and len(refs) > 1:   # converting ctor
                return self.rv(out[0])
            return mk("tuple", *out)
        if cq in ("std::shared_ptr", "std::unique_ptr", "std::optional", "std::function", "std::__cxx11::basic_string", "std::basic_string", "std::reference_wrapper", "std::__shared_ptr", "boost::optional", "std::basic_string_view"):
            if not args:
                return mk("str", "") if "string" in cq else NULL
            if len(args) == 1 or "_ptr" in cq or "basic_string" in cq:
                v = self.rv(self.ev(args[0]))
                rest = [self.rv(self.ev(a)) for a in args[1:]]
                if "basic_string" in cq and len(args) > 1 and "allocator" not in self.T(callee["pt"][1]) and "pt" in callee:
                    return self.substr(v, rest, self.T(callee["pt"][0]))
                return v
        if cq in ("std::initializer_list",) and args:
            return self.ev(args[0])
        if cq == "std::__cmp_cat::__unspec":
            return ZERO
        vs = [self.rv(self.ev(a)) for a in args]
        if cq == "blitz::TinyVector" or cq == "std::array":
            if len(vs) == 1 and kind != "copy":
                # broadcasting constructor
                n = self._tvlen(tt)
                if n is not None and n <= 16 and self._scalarish(vs[0]):
                    return mk("tuple", *([vs[0]] * n))
            if len(vs) > 1:
                return mk("tuple", *vs)
        if cq == "blitz::_bz_ArrayExpr" and len(vs) == 1:
            return vs[0]
        if not vs or kind == "def" and (cq.startswith(("blitz::", "std::", "boost::")) or all(is_const(v) or v.op in ("str", "new", "null") for v in vs)):
            return mk("new", strip_targs(tt))
        if cq in ("std::vector", "std::list", "boost::ptr_vector") and len(vs) >= 1 and vs[0].op == "tuple" and "initializer_list" in self.T(callee["pt"][0]):
            return vs[0]
        self.eff("ctor", cq, args=tuple(vs), line=line)
        return typed(mk("ctor", strip_targs(tt), *vs), tt)

    def _scalarish(self, v):
        return v.op == "poly" or v in (TRUE, FALSE)

    def _tvlen(self, tt):
        m = re.match(r"blitz::TinyVector<.*, (\d+)>$", tt) or re.match(r"std::array<.*, (\d+)>$", tt)
        return int(m.group(1)) if m else None

    def _tuple_targs(self, tt):
        i = tt.find("<")
        if i < 0:
            return []
        return split_targs(tt[i + 1:-1])

    # ------------------------------------------------------------ calling values (lambdas, function objects)
    def call_value(self, f, argnodes, line, t, callee=None, argvals=None):
        if f.op == "lref":
            f = self.rv(f)
        if f.op == "lam":
            tu, rid, opid, caps, th, pfr = self.handles[f.a[0]]
            fn = None
            if callee is not None:
                fn = tu.fns.get(callee.get("f"))
            if fn is None:
                rec = tu.recs.get(rid)
                cos = [tu.fns[c] for c in (rec.get("co") if rec else None) or [] if c in tu.fns and tu.fns[c].body is not None]
                n = len(argnodes) if argnodes is not None else len(argvals)
                cos = [c for c in cos if len(c.params) == n] or cos
                fn = cos[0] if cos else tu.fns.get(opid)
            if fn is None or fn.body is None:
                return self.unk("lambda")
            if argvals is None:
                locs = [self.bindarg(a, fn.tu.t(p["t"])) for a, p in zip(argnodes, fn.params)]
            else:
                locs = [(a if not isinstance(a, N) else self.temp(a)) for a in argvals]
            return self.call_fn(fn, th, locs, argnodes or [], line=line, parent=pfr, caps=caps)
        if f.op == "fnref" and f.a[2] in self.handles:
            tu, cal = self.handles[f.a[2]]
            fn = self.resolve(cal, tu)
            if fn is not None and fn.body is not None and self.inline_pred(fn):
                if argvals is None:
                    locs = [self.bindarg(a, fn.tu.t(p["t"])) for a, p in zip(argnodes, fn.params)]
                else:
                    locs = [(a if not isinstance(a, N) else self.temp(a)) for a in argvals]
                return self.call_fn(fn, None, locs, argnodes or [], line=line)
            args = [self.rv(self.ev(a)) for a in argnodes] if argvals is None else [a if isinstance(a, N) else self.read(a) for a in argvals]
            m = self.math(cal["q"], args)
            if m is not None:
                return m
            self.eff("call", cal["q"], args=tuple(args), line=line)
            return typed(mk("call", cal["q"], *args), t)
        if f.op == "call" and str(f.a[0]) in ("std::bind", "boost::bind", "boost::bind::bind"):
            if argvals is None:
                pts = [self.frame.fn.tu.t(i) for i in callee.get("pt", ())] if callee is not None else []
                got = [self.deref(self.lv(a)) if i < len(pts) and is_ref(pts[i]) and not pts[i].endswith("&&") else self.rv(self.ev(a)) for i, a in enumerate(argnodes)]
            else:
                got = list(argvals)
            parts = [x for x in f.a[1:] if isinstance(x, N)]
            full = []
            for x in parts[1:]:
                m = re.search(r"(?:^|::)_(\d)$", str(x.a[0])) if x.op == "g" else None
                if m and int(m.group(1)) > len(got):
                    return self.unk("bind")
                full.append(got[int(m.group(1)) - 1] if m else self.temp(x))
            return self.call_value(parts[0], None, line, t, argvals=full)
        if f.op == "ctor" and str(f.a[0]) in ("boost::function", "std::function") and len(f.a) == 2:
            return self.call_value(f.a[1], argnodes, line, t, callee=callee, argvals=argvals)
        if f.op == "obj":
            tu = self.frame.fn.tu
            rec = tu.recbyfull.get(f.a[0])
            if rec is not None:
                for mid in rec.get("ms", ()):
                    m = tu.fns.get(mid)
                    if callee is not None and "f" in callee and mid != callee["f"] and callee["f"] in rec.get("ms", ()):
                        continue
                    if m is not None and m.name == "operator()" and m.body is not None:
                        locs = [self.bindarg(a, m.tu.t(p["t"])) for a, p in zip(argnodes, m.params)] if argvals is None else [(a if not isinstance(a, N) else self.temp(a)) for a in argvals]
                        return self.call_fn(m, self.temp(f), locs, argnodes or [], line=line)
        pts = [self.frame.fn.tu.t(i) for i in callee.get("pt", ())] if callee is not None and argvals is None else []
        locs = [self.deref(self.lv(a)) if i < len(pts) and is_ref(pts[i]) and not is_constref(pts[i]) and not pts[i].endswith("&&") else None for i, a in enumerate(argnodes or [])]
        args = [self.rv(self.ev(a)) if locs[i] is None else self.read(locs[i]) for i, a in enumerate(argnodes)] if argvals is None else [a if isinstance(a, N) else self.read(a) for a in argvals]
        r = typed(mk("apply", f, *args), t)
        self.eff("apply", "operator()", obj=f, args=tuple(args), ret=r, line=line)
        for i, l in enumerate(locs):
            if l is not None and l[0][0] != "val":
                self.write(l, mk("argout", "apply", i, f, *args), line, quiet=True)
        return r

    # ------------------------------------------------------------ external functions
    def math(self, q, args):
        n = q.split("::")[-1]
        ns = q[:-len(n)]
        if ns not in ("", "std::", "blitz::", "boost::math::", "std::__", "__gnu_cxx::") and not ns.startswith("blitz::"):
            return None
        if len(args) == 1:
            a = args[0]
            if n in ('operator""i', 'operator""if', 'operator""il'):
                return mul(IMAG, a)
            if n == "sqrt":
                return fsqrt(a)
            if n == "exp":
                return fexp(a)
            if n == "conj":
                return conj(a)
            if n == "real":
                return freal(a)
            if n == "imag":
                return fimag(a)
            if n == "norm":
                return fnorm(a)
            if n in ("abs", "fabs") :
                return fabs_(a)
            if n in ("sin", "cos", "tan", "log", "atan", "sinh", "cosh", "tanh", "lgamma", "floor", "ceil", "log10"):
                return fun1(n, a)
            if n == "sqr" or n == "pow2":
                return mul(a, a)
        if len(args) == 2:
            if n == "pow":
                k = const_int(args[1])
                if k is not None and abs(k) <= 12:
                    return ipow(args[0], k)
                return lift(lambda x, y: P(typed(mk("pow", x, y), "double")), *args)
            if n in ("min", "max"):
                c = cmp("<", args[0], args[1]) if n == "min" else cmp("<", args[1], args[0])
                if c in (TRUE, FALSE):
                    return args[0] if c is TRUE else args[1]
                a, b = args
                if a is b:
                    return a
                if a.id > b.id:
                    a, b = b, a
                return P(typed(mk(n, a, b), "double"))
            if n == "polar":
                return mul(args[0], fexp(mul(IMAG, args[1])))
            if n == "fmod":
                return P(typed(mk("fmod", *args), "double"))
            if n == "atan2":
                return P(typed(mk("atan2", *args), "double"))
        return None

    def ext_call(self, callee, objloc, argnodes, line, t, obnode):
        """models of library functions; None = unknown"""
        q = callee["q"]
        n = q.split("::")[-1]
        if objloc is None:
            if q in IDENT and len(argnodes) == 1:
                return self.ev_keepref(argnodes[0])
            if q in ("std::get", "boost::get", "boost::tuples::get", "std::__get_helper", "boost::fusion::at_c") and len(argnodes) == 1:
                m = re.match(r"<(\d+)", callee.get("ta", ""))
                if m:
                    loc = self.deref(self.lv(argnodes[0]))
                    v = self.read(loc)
                    i = int(m.group(1))
                    if v.op == "tuple" and i < len(v.a) and v.a[i].op == "lref":
                        return v.a[i]
                    return mk("lref", loc[0], loc[1] + (("[", num(i)),))
            if q in ("std::make_pair", "std::make_tuple", "boost::make_tuple"):
                return mk("tuple", *[self.rv(self.ev(a)) for a in argnodes])
            if q in ("std::tie", "std::forward_as_tuple", "boost::tie"):
                return mk("tuple", *[self.ev_keepref(a) for a in argnodes])
            if q in ("std::make_shared", "std::make_unique", "boost::make_shared", "std::allocate_shared"):
                return self.make_shared(callee, argnodes, line, t)
            if q in ("std::dynamic_pointer_cast", "std::static_pointer_cast", "std::const_pointer_cast"):
                v = self.rv(self.ev(argnodes[0]))
                if "dynamic" in q:
                    m = re.match(r"<(.*?)[,>]", callee.get("ta", ""))
                    return typed(mk("dyncast", strip_targs(split_targs(callee.get("ta", "<>")[1:-1])[0]), v), t)
                return v
            if n in ("getExpr", "unwrap") and "blitz" in q:
                return self.ev_keepref(argnodes[0])
            if q in ("std::begin", "std::cbegin", "boost::begin") and len(argnodes) == 1:
                loc = self.deref(self.lv(argnodes[0]))
                return mk("iter", mk("lref", *loc), ZERO)
            if q in ("std::end", "std::cend", "boost::end") and len(argnodes) == 1:
                loc = self.deref(self.lv(argnodes[0]))
                return mk("iter", mk("lref", *loc), self.sizeof(loc))
            if q in ("boost::assign::list_of", "boost::assign::tuple_list_of") and argnodes:
                vs = [self.rv(self.ev(a)) for a in argnodes]
                return mk("tuple", vs[0] if len(vs) == 1 else mk("tuple", *vs))
            if q in ("boost::assign::push_back", "boost::assign::list_inserter") and len(argnodes) == 1:
                l = self.deref(self.lv(argnodes[0]))
                if l[0][0] != "val":
                    return mk("inserter", mk("lref", *l))
            if q in ("boost::size", "std::size"):
                return self.sizeof(self.deref(self.lv(argnodes[0])))
            if q in ("std::next", "std::prev", "boost::next", "boost::prior"):
                v = self.rv(self.ev(argnodes[0]))
                d = self.ev(argnodes[1]) if len(argnodes) > 1 else ONE
                if "pr" in n:
                    d = neg(d)
                return lift(lambda x: mk("iter", x.a[0], add(x.a[1], d)) if x.op == "iter" else add(x, d), v)
            if q == "std::distance":
                a, b = self.rv(self.ev(argnodes[0])), self.rv(self.ev(argnodes[1]))
                if a.op == "iter" and b.op == "iter":
                    return sub(b.a[1], a.a[1])
            if q == "std::abort" or q == "abort" or q == "exit" or q == "std::exit" or q == "std::terminate" or q == "std::__throw_bad_function_call":
                c = Ctl()
                args = tuple(self.ev(a) for a in argnodes)
                c.kind, c.val, c.type, c.line, c.file, c.fn = "abort", (args[0] if args else VOID), n, line, self.frame.fn.file, self.frame.fn.q
                self.tr.append(c)
                self.exits.append(Exit("throw", self.pc, mk("exc", n), self.st))
                self.pc = FALSE
                return VOID
            if q == "std::swap" and len(argnodes) == 2:
                l1, l2 = self.lv(argnodes[0]), self.lv(argnodes[1])
                a, b = self.read(l1), self.read(l2)
                self.write(l1, b, line, "swap")
                self.write(l2, a, line, "swap")
                return VOID
            if q == "std::exchange" and len(argnodes) == 2:
                l1 = self.lv(argnodes[0])
                a = self.read(l1)
                self.write(l1, self.rv(self.ev(argnodes[1])), line)
                return a
            r = self.algo(q, n, callee, argnodes, line, t)
            if r is not None:
                return r
            if n in MATH1 or n in ("pow", "min", "max", "polar", "atan2", "pow2", "fmod", "sqr"):
                args = [self.rv(self.ev(a)) for a in argnodes]
                m = self.math(q, args)
                if m is not None:
                    return m
                r = typed(mk("call", q, *args), t)
                self.eff("call", q, args=tuple(args), ret=r, line=line)
                return r
            if q in ("blitz::product", "blitz::sum", "blitz::all", "blitz::any", "blitz::max", "blitz::min", "blitz::dot", "blitz::count") and len(argnodes) == 1:
                v = self.rv(self.ev(argnodes[0]))
                if n == "product" and v.op == "tuple":
                    r = ONE
                    for x in v.a:
                        r = mul(r, x)
                    return r
                if n == "sum" and v.op == "tuple":
                    r = ZERO
                    for x in v.a:
                        r = add(r, x)
                    return r
                if n in ("all", "any") and v.op == "tuple" and all(x.op in ("ite", "true", "false") for x in v.a):
                    r = TRUE if n == "all" else FALSE
                    for x in v.a:
                        r = band(r, x) if n == "all" else bor(r, x)
                    return r
                if n in ("all", "any") and v.op == "ite":
                    return typed(mk(n, v), "bool")
                return typed(mk(n, v), t)
            return None
        # ---- methods of library objects
        cq = strip_targs(callee.get("c", ""))
        if n in ("get", "operator->") and ("_ptr" in cq or "optional" in cq or "reference_wrapper" in cq):
            v = self.read(objloc)
            return v
        if n == "unwrap" and "blitz" in cq:
            return mk("lref", *self.deref(objloc))
        if n in ("begin", "cbegin"):
            return mk("iter", mk("lref", *self.deref(objloc)), ZERO)
        if n in ("end", "cend"):
            l = self.deref(objloc)
            return mk("iter", mk("lref", *l), self.sizeof(l))
        if n in ("size", "length") and not argnodes:
            return self.sizeof(self.deref(objloc), t)
        if n == "empty" and not argnodes:
            return cmp("==", self.sizeof(self.deref(objloc)), ZERO)
        if n in ("at",) and len(argnodes) == 1:
            l = self.deref(objloc)
            return mk("lref", l[0], l[1] + (("[", self.ev(argnodes[0])),))
        if n in ("front",) and not argnodes:
            l = self.deref(objloc)
            return mk("lref", l[0], l[1] + (("[", ZERO),))
        if n in ("back",) and not argnodes:
            l = self.deref(objloc)
            return mk("lref", l[0], l[1] + (("[", sub(self.sizeof(l), ONE)),))
        if cq == "std::complex" and n in ("real", "imag") and not argnodes:
            return freal(self.read(objloc)) if n == "real" else fimag(self.read(objloc))
        if cq in ("std::__cxx11::basic_string", "std::basic_string") and n in ("c_str", "data", "str"):
            return self.read(objloc)
        if cq in ("std::__cxx11::basic_string", "std::basic_string") and n in ("substr", "compare", "empty", "starts_with", "ends_with", "find", "rfind", "erase"):
            r = self.strfold(objloc, n, argnodes)
            if r is not None:
                return r
        if cq in ("std::__cxx11::basic_string", "std::basic_string") and n == "append" and len(argnodes) == 1:
            l = self.deref(objloc)
            v = self.cat(self.read(l), self.rv(self.ev(argnodes[0])))
            if l[0][0] == "val":
                return v
            self.write(l, v, line)
            return mk("lref", *l)
        if n in ("value", "operator bool", "has_value") and ("optional" in cq):
            v = self.read(objloc)
            return v if n == "value" else tobool(v)
        if cq.startswith("std::basic_") and "stream" in cq or cq in ("std::basic_ios", "std::ios_base"):
            if n in ("fail", "operator!", "operator bool") and not argnodes:
                g = batom(mk("good", self.read(self.deref(objloc))))
                return g if n == "operator bool" else bnot(g)
            if n == "str" and len(argnodes) == 1 and objloc is not None:
                l = self.deref(objloc)
                if l[0][0] != "val" and self.read(l).op in ("new", "ctor"):
                    self.write(l, typed(mk("ctor", cq, self.rv(self.ev(argnodes[0]))), cq), line, quiet=True)
                    return mk("void")
        if n.startswith("operator ") and cq in ("mpl_::bool_", "mpl_::integral_c", "std::integral_constant", "boost::integral_constant"):
            m = re.match(r"[^<]*<(?:[a-z ]+, *)?(true|false|-?\d+)>$", callee.get("c", "").strip())
            if m:
                return TRUE if m.group(1) == "true" else FALSE if m.group(1) == "false" else num(int(m.group(1)))
        if n == "operator bool":
            v = self.read(objloc)
            if "_ptr" in cq:
                return tobool(typed(v, "std::shared_ptr") if v.op not in ("poly",) else v)
            r = typed(mk("call", cq + "::operator bool", v), "bool")
            self.eff("call", cq + "::operator bool", obj=self.locval(self.deref(objloc)), args=(v,), ret=r, line=line)
            return tobool(r)
        if cq.startswith("boost::assign_detail::") or cq == "boost::assign::list_inserter":
            r = self.assign_lib(n, objloc, argnodes, line)
            if r is not None:
                return r
        if n == "fill" and cq in ("std::array", "boost::array") and len(argnodes) == 1:
            m = re.search(r", *(\d+)(?:ul)?>$", callee.get("c", ""))
            if m and int(m.group(1)) <= 32:
                v = self.rv(self.ev(argnodes[0]))
                self.write(self.deref(objloc), mk("tuple", *([v] * int(m.group(1)))), line)
                return VOID
        if n in ("push_back", "emplace_back") and cq in ("std::vector", "std::list", "std::deque", "boost::ptr_vector", "std::__cxx11::list"):
            vs = [self.rv(self.ev(a)) for a in argnodes]
            old = self.read(objloc)
            v = vs[0] if len(vs) == 1 else mk("tuple", *vs)
            self.write(objloc, mk("snoc", old, v), line, n)
            return mk("lref", *self.deref(objloc)) if n == "emplace_back" else VOID
        return None

    def items(self, v):
        """the elements of a container value, when all are known"""
        if v.op == "tuple":
            return list(v.a)
        if v.op == "new" and v.a and str(v.a[0]).replace("__cxx11::", "") in ("std::list", "std::vector", "std::deque", "std::initializer_list"):
            return []
        if v.op == "ctor" and v.a and str(v.a[0]).replace("__cxx11::", "") in ("std::list", "std::vector") and len(v.a) > 1:
            if isinstance(v.a[1], N) and v.a[1].op == "new" and v.a[1].a[0] == "std::initializer_list":
                return []
            k = const_int(v.a[1]) if isinstance(v.a[1], N) else None
            if k is not None and len(v.a) > 2 and k <= 64:
                return [v.a[2]] * k
        if v.op == "snoc":
            b = self.items(v.a[0])
            return None if b is None else b + [v.a[1]]
        return None

    def assign_lib(self, n, objloc, argnodes, line):
        """boost.assign: list_of(a)(b).range(c), push_back(l).range(c)"""
        loc = self.deref(objloc)
        v = self.read(loc)
        if n.startswith("operator ") and n != "operator ()":
            return v if v.op == "tuple" else None
        if v.op == "inserter":
            dst = (v.a[0].a[0], v.a[0].a[1])
            cur = self.items(self.read(dst))
        else:
            dst, cur = None, self.items(v)
        if cur is None:
            return None
        if n in ("operator()", "operator,"):
            vs = [self.rv(self.ev(a)) for a in argnodes]
            new = [vs[0] if len(vs) == 1 else mk("tuple", *vs)]
        elif n == "range" and len(argnodes) == 1:
            new = self.items(self.rv(self.ev(argnodes[0])))
        elif n == "range" and len(argnodes) == 2:
            a, b = (self.rv(self.ev(x)) for x in argnodes)
            new = None
            if a.op == "iter" and b.op == "iter" and a.a[0] is b.a[0]:
                i, j = const_int(a.a[1]), const_int(b.a[1])
                src = self.items(self.rv(a.a[0])) if a.a[0].op == "lref" else None
                if i is not None and j is not None and src is not None and 0 <= i <= j <= len(src):
                    new = src[i:j]
        else:
            return None
        if new is None:
            if dst is not None:
                self.write(dst, self.unk("range"), line)
            return None
        r = mk("tuple", *(cur + new))
        if dst is not None:
            self.write(dst, r, line)
            return v
        return r

    def sizeof(self, loc, t=None):
        v = self.read(loc)

        def f(x):
            if x.op == "tuple":
                return num(len(x.a))
            if x.op == "new":
                return ZERO
            if x.op == "str":
                return num(len(x.a[0]))
            if x.op == "snoc":
                return add(f(x.a[0]), ONE)
            if x.op == "upd" and x.a[1][0] == "[":
                return f(x.a[0])
            if x.op == "ctor" and x.a[0] in ("std::list", "std::vector", "blitz::Array") and len(x.a) == 3 and x.a[2].op == "new" and const_int(x.a[1]) is not None:
                return x.a[1]
            return P(typed(mk("size", x), "unsigned long"))
        return lift(f, v)

    def make_shared(self, callee, argnodes, line, t):
        tn = split_targs(callee.get("ta", "<>")[1:-1])
        cls = tn[0].replace("const ", "").strip() if tn else ""
        # find the constructor in this TU taking that many args
        tu = self.frame.fn.tu
        rec = tu.recbyfull.get(cls)
        if rec is not None and rec.get("scope"):
            cands = [tu.fns[m] for m in rec.get("ms", ()) if m in tu.fns and tu.fns[m].d["k2"] == "ctor" and tu.fns[m].body is not None]
            cands = [c for c in cands if len(c.params) >= len(argnodes) and c.d.get("ck") not in ("copy", "move")]
            exact = [c for c in cands if len(c.params) == len(argnodes)] or cands
            if len(exact) > 1:
                bare = lambda x: (x or "").replace("const ", "").replace("&", "").replace(" ", "")
                fits = lambda p, q: p == q or not any("<" in x and not x.startswith("std::complex<") for x in (p, q))
                same = [c for c in exact if all(fits(bare(c.tu.t(p["t"])), bare(self.T(a[1]) if isinstance(a[1], int) else "")) for a, p in zip(argnodes, c.params))]
                exact = same if len(same) == 1 else exact
            if len(exact) == 1 and self.inline_pred(exact[0]):
                g = exact[0]
                r = self.newroot("heap")
                self.st[r] = mk("obj", cls, ())
                self.rootcls[r] = rec
                locs = [self.bindarg(a, g.tu.t(p["t"])) for a, p in zip(argnodes, g.params)]
                for p in g.params[len(locs):]:
                    locs.append((self.newroot("defarg"), ()))
                self.call_fn(g, (r, ()), locs, argnodes, line=line)
                return mk("ptr", r, ())
        args = tuple(self.rv(self.ev(a)) for a in argnodes)
        r = typed(mk("make", cls, *args), t)
        self.eff("make", cls, args=args, ret=r, line=line)
        return r

    def algo(self, q, n, callee, argnodes, line, t):
        """range algorithms with a function argument: summarised as loops"""
        if q in ("std::for_each", "boost::for_each", "boost::range::for_each", "std::ranges::for_each"):
            its = [self.rv(self.ev(a)) if self._isitertype(a) else None for a in argnodes]
            fnv = self.rv(self.ev(argnodes[-1]))
            if q == "std::for_each":
                a, b = its[0], its[1]
                if a is None or a.op != "iter" or b is None or b.op != "iter":
                    return None
                trip = sub(b.a[1], a.a[1])
                self.summ_loop_fn(trip, lambda k: [self.iterloc(mk("iter", a.a[0], add(a.a[1], k)))], fnv, line)
                return fnv
            cs = [self.deref(self.lv(a)) for a in argnodes[:-1]]
            self.summ_loop_fn(self.sizeof(cs[0]), lambda k: [(c[0], c[1] + (("[", k),)) for c in cs], fnv, line)
            return fnv
        if q in ("boost::fusion::make_list", "boost::fusion::make_vector"):
            return mk("tuple", *[self.rv(self.ev(a)) for a in argnodes])
        if q in ("boost::mpl::for_each", "boost::fusion::for_each", "boost::fusion::fold", "boost::fusion::accumulate"):
            return self.static_seq(q, callee, argnodes, line, t)
        if n in ("max_element", "min_element") and q.split("::")[0] in ("std", "boost"):
            return self.extremum(n, argnodes, line)
        if q in ("std::accumulate", "boost::accumulate"):
            if q.startswith("std"):
                a = self.rv(self.ev(argnodes[0]))
                b = self.rv(self.ev(argnodes[1]))
                if a.op != "iter" or b.op != "iter":
                    return None
                rest = argnodes[2:]
                trip = sub(b.a[1], a.a[1])
                el = lambda k: self.iterloc(mk("iter", a.a[0], add(a.a[1], k)))
            else:
                c = self.deref(self.lv(argnodes[0]))
                rest = argnodes[1:]
                trip = self.sizeof(c)
                el = lambda k: (c[0], c[1] + (("[", k),))
            acc = self.temp(self.rv(self.ev(rest[0])), "acc")
            fnv = self.rv(self.ev(rest[1])) if len(rest) > 1 else None

            def body(k):
                cur = self.read(acc)
                if fnv is None:
                    r = add(cur, self.read(el(k), "double"))
                else:
                    r = self.rv(self.call_value(fnv, None, line, t, argvals=[self.temp(cur), el(k)]))
                self.write(acc, r, line, quiet=True)
            steps = const_int(trip)
            if steps is not None and 0 <= steps <= self.unroll:
                for i in range(steps):
                    body(num(i))
            else:
                self.summ_loop(trip, body, line)
            return self.read(acc)
        if q in ("std::transform", "boost::transform", "boost::range::transform") and len(argnodes) == (4 if q.startswith("std") else 3):
            fnv = self.rv(self.ev(argnodes[-1]))
            if q == "std::transform":
                a, b = self.rv(self.ev(argnodes[0])), self.rv(self.ev(argnodes[1]))
                if a.op != "iter" or b.op != "iter":
                    return None
                trip = const_int(sub(b.a[1], a.a[1]))
                at = lambda k: self.iterloc(mk("iter", a.a[0], add(a.a[1], num(k))))
            else:
                c = self.deref(self.lv(argnodes[0]))
                trip = const_int(self.sizeof(c))
                if trip is None:
                    m = re.match(r"(?:const )?blitz::TinyVector<.*, (\d+)>", self.T(argnodes[0][1]) if isinstance(argnodes[0][1], int) else "")
                    trip = int(m.group(1)) if m else None
                at = lambda k: (c[0], c[1] + (("[", num(k)),))
            o = self.rv(self.ev(argnodes[-2]))
            if trip is None or not 0 <= trip <= self.unroll or o.op != "iter":
                return None
            for k in range(trip):
                r = self.call_value(fnv, None, line, t, argvals=[at(k)])
                if r is None:
                    return None
                self.write(self.iterloc(mk("iter", o.a[0], add(o.a[1], num(k)))), self.rv(r), line)
            return mk("iter", o.a[0], add(o.a[1], num(trip)))
        if q in ("std::copy", "boost::copy", "boost::range::copy"):
            if q == "std::copy":
                a, b = self.rv(self.ev(argnodes[0])), self.rv(self.ev(argnodes[1]))
                if a.op != "iter" or b.op != "iter":
                    return None
                trip = const_int(sub(b.a[1], a.a[1]))
                src = lambda k: self.read(self.iterloc(mk("iter", a.a[0], add(a.a[1], num(k)))), "double")
            else:
                v = self.rv(self.ev(argnodes[0]))
                c = self.temp(v, "src")
                trip = const_int(self.sizeof(c))
                src = lambda k: self.read((c[0], c[1] + (("[", num(k)),)), "double")
            if trip is None or not 0 <= trip <= self.unroll:
                return None
            o = self.rv(self.ev(argnodes[-1]))
            if o.op != "iter":
                return None
            for k in range(trip):
                self.write(self.iterloc(mk("iter", o.a[0], add(o.a[1], num(k)))), src(k), line)
            return mk("iter", o.a[0], add(o.a[1], num(trip)))
        return None

    def static_seq(self, q, callee, argnodes, line, t):
        """algorithms over compile-time sequences: one call per element, the instance by the type of the element"""
        ta = split_targs(callee.get("ta", "<>")[1:-1])
        fnv = self.rv(self.ev(argnodes[0 if q == "boost::mpl::for_each" else -1]))
        els = []
        if q == "boost::mpl::for_each":
            m = re.match(r"boost::(?:fusion|mpl)::(?:list|vector)<", ta[0].strip() if ta else "")
            if m:
                els = [x.strip() for x in split_targs(ta[0].strip()[m.end():-1])]
                els = [(x, self.temp(mk("new", x), "ord")) for x in els if x and "void_" not in x and x != "mpl_::na"]
            else:
                els = seq_ints(ta[0] if ta else "")
                if els is None:
                    return None
                els = [("mpl_::integral_c<int,%d>" % k, self.temp(num(k), "ord")) for k in els]
        else:
            st = self.T(argnodes[0][1]) if isinstance(argnodes[0][1], int) else ""
            m = re.search(r"boost::fusion::(?:list|vector)<", st)
            if not m:
                return None
            ts = split_targs(st[m.end():].rstrip("& ")[:-1])
            c = self.deref(self.lv(argnodes[0]))
            els = [(x.strip(), (c[0], c[1] + (("[", num(i)),))) for i, x in enumerate(ts) if x.strip() and "void_" not in x]
        acc = self.temp(self.rv(self.ev(argnodes[1])), "acc") if q in ("boost::fusion::fold", "boost::fusion::accumulate") else None
        bare = lambda x: x.replace("const ", "").replace("&", "").replace(" ", "")
        for ty, loc in els:
            c = self.instance(fnv, bare(ty), bare)
            if c is None:
                return None
            av = [loc] if acc is None else [self.temp(self.read(acc), "acc"), loc]
            r = self.call_value(fnv, None, line, t, callee={"f": c}, argvals=av)
            if acc is not None:
                self.write(acc, self.rv(r), line, quiet=True)
        return fnv if acc is None else self.read(acc)

    def instance(self, fnv, ty, bare):
        if fnv.op == "lam":
            tu, rid = self.handles[fnv.a[0]][:2]
            rec = tu.recs.get(rid)
            ids = ((rec.get("co") if rec else None) or []) + [self.handles[fnv.a[0]][2]]
        elif fnv.op == "obj":
            tu = self.frame.fn.tu
            rec = tu.recbyfull.get(fnv.a[0])
            ids = [m for m in (rec.get("ms", ()) if rec else ()) if m in tu.fns and tu.fns[m].name == "operator()"]
        else:
            return None
        fs = [(c, tu.fns[c]) for c in ids if c in tu.fns and tu.fns[c].body is not None and tu.fns[c].params]
        for c, f in fs:
            if bare(tu.t(f.params[-1]["t"])) == ty:
                return c
        return None

    def extremum(self, n, argnodes, line):
        """the first largest (smallest) element of a range of known length"""
        c, rest, off = None, argnodes, ZERO
        ta = self.T(argnodes[0][1]) if isinstance(argnodes[0][1], int) else ""
        first = self.ev_keepref(argnodes[0])
        fv = self.rv(first)
        if fv.op == "iter":
            last = self.rv(self.ev(argnodes[1]))
            if last.op != "iter":
                return None
            trip, rest = sub(last.a[1], fv.a[1]), argnodes[2:]
            at = lambda k: mk("iter", fv.a[0], add(fv.a[1], num(k)))
        else:
            c = self.deref((first.a[0], first.a[1])) if first.op == "lref" else self.temp(first)
            trip, rest = self.sizeof(c), argnodes[1:]
            at = lambda k: mk("iter", mk("lref", c[0], c[1]), num(k))
        k = const_int(trip)
        if k is None or k > 16:
            return None
        less = self.rv(self.ev(rest[0])) if rest else None
        if less is not None and less.op == "new":
            less = None
        best = at(0)
        for j in range(1, k):
            x, y = self.temp(self.rv(mk("lref", *self.pointee(best)))), self.iterloc(at(j))
            if n == "min_element":
                x, y = y, x
            if less is None:
                b = cmp("<", self.read(x), self.read(y))
            else:
                b = tobool(self.rv(self.call_value(less, None, line, "bool", argvals=[x, y])))
            best = ite(b, at(j), best)
        return best

    def _isitertype(self, a):
        return False if a[0] == "lambda" else True

    def summ_loop_fn(self, trip, mkargs, fnv, line):
        self.summ_loop(trip, lambda k: self.call_value(fnv, None, line, "", argvals=mkargs(k)), line)

    def ext_op(self, op, callee, args, line, t):
        q = callee["q"] if callee else "operator" + op
        cq = strip_targs(callee.get("c", "")) if callee else ""
        ta = self.T(args[0][1]) if len(args[0]) > 1 and isinstance(args[0][1], int) else ""
        if self.model is not None and callee is not None:
            r = self.model(self, callee, None, args, line, t)
            if r is not None:
                return r
        if op == "()" and len(args) == 2 and cq == "boost::numeric::converter":
            return self.rv(self.ev(args[1]))
        if op == "()" and cq.startswith("boost::assign_detail::") or op == "()" and cq == "boost::assign::list_inserter":
            a0 = self.ev_keepref(args[0])
            r = self.assign_lib("operator()", (a0.a[0], a0.a[1]) if a0.op == "lref" else (("val", a0), ()), args[1:], line)
            if r is not None:
                return r
        if op == ",":
            r = self.blitz_list(args, line)
            if r is not None:
                return r
        if op == "()":
            f = self.ev_keepref(args[0])
            fv = self.rv(f)
            if fv.op in ("lam", "fnref") or cq in ("std::function",) or "function" in cq:
                return self.call_value(fv, args[1:], line, t, callee={"pt": (callee or {}).get("pt", ())})
            if fv.op == "obj":
                return self.call_value(fv, args[1:], line, t)
            raw = [self.ev_keepref(a) for a in args[1:]] if "distribution" in cq else [self.ev(a) for a in args[1:]]
            idx = [self.rv(a) for a in raw]
            loc = (f.a[0], f.a[1]) if f.op == "lref" else (("val", f), ())
            loc = self.deref(loc)
            if cq.startswith("blitz::") or "Array" in cq or "Matrix" in cq:
                if len(idx) == 1 and idx[0].op == "tuple":
                    idx = list(idx[0].a)
                self.read((loc[0], loc[1] + (("[",) + tuple(idx),)), t)
                return mk("lref", loc[0], loc[1] + (("[",) + tuple(idx),))
            r = typed(mk("apply", fv, *idx), t)
            self.eff("apply", q, obj=self.locval(loc), args=tuple(idx), ret=r, line=line)
            if "distribution" in cq:
                # drawing advances the engine
                for i, a in enumerate(raw):
                    if a.op == "lref" and a.a[0][0] != "val":
                        self.write((a.a[0], a.a[1]), mk("argout", q, i, fv, *idx), line, quiet=True)
            return r
        if op == "[]":
            loc = self.deref(self.lv(args[0]))
            i = self.rv(self.ev(args[1]))
            v = self.read(loc)
            if v.op == "iter":
                l = self.iterloc(mk("iter", v.a[0], add(v.a[1], i)))
                return mk("lref", *l)
            return mk("lref", loc[0], loc[1] + (("[", i),))
        if op == "*" and len(args) == 1:
            p = self.rv(self.ev(args[0]))
            l = self.pointee(p)
            return mk("lref", *l)
        if op == "->":
            return self.rv(self.ev(args[0]))
        if op in ("++", "--"):
            loc = self.lv(args[0])
            old = self.read(loc)
            new = self.incr(old, 1 if op == "++" else -1) if (self._isiter(old) or self._numeric(old) or True) else old
            self.write(loc, new, line, op)
            if len(args) > 1:
                return old
            return mk("lref", *self.deref(loc))
        if op == "=":
            l, r = args[0], args[1]
            lt = ta
            if is_blitz_array(lt) or cq.startswith("blitz::"):
                v = self.rv(self.ev(r))
                loc = self.deref(self.lv(l))
                self.write(loc, v, line, "=", t="array")
                return mk("lref", *loc)
            v = self.ev_keepref(r)
            loc = self.lv(l)
            cur = self.read(loc)
            v = self.rv(v)
            if cur.op == "tuple" and cur.a and all(x.op == "lref" for x in cur.a) and v.op != "lref":
                for i, x in enumerate(cur.a):
                    self.write((x.a[0], x.a[1]), self.project(v, ("[", num(i))), line)
                return mk("lref", *self.deref(loc))
            self.write(loc, v, line, "=")
            return mk("lref", *self.deref(loc))
        if op in ("+=", "-=", "*=", "/="):
            v = self.rv(self.ev(args[1]))
            loc = self.deref(self.lv(args[0]))
            old = self.read(loc, ta)
            if old.op == "iter":
                new = mk("iter", old.a[0], add(old.a[1], v if op == "+=" else neg(v)))
            else:
                new = self.elemwise(op[0], old, v, ta)
            self.write(loc, new, line, op, t="array" if cq.startswith("blitz::") else None)
            return mk("lref", *loc)
        if op in ("|=", "&=") and "blitz" in ta:
            v = self.rv(self.ev(args[1]))
            loc = self.deref(self.lv(args[0]))
            r = self.tvbool("||" if op == "|=" else "&&", self.read(loc, ta), v)
            if r is not None:
                self.write(loc, r, line, op, t="array")
                return mk("lref", *loc)
        if op in ("<<", ">>") and len(args) == 2 and (("stream" in ta) or self.streamy(args[0])):
            loc = self.deref(self.lv(args[0]))
            if op == "<<":
                v = self.rv(self.ev(args[1]), self.T(args[1][1]) if len(args[1]) > 1 and isinstance(args[1][1], int) else None)
                self.write(loc, mk("out", self.read(loc), v), line, quiet=True)
                self.eff("out", "<<", obj=self.locval(loc), args=(v,), line=line)
            else:
                l2 = self.deref(self.lv(args[1]))
                self.write(loc, mk("inread", self.read(loc), self.locval(l2)), line, quiet=True)
                r = mk("parsed", self.read(loc))
                if self.inval is not None:
                    r = self.inval(self, l2, self.T(args[1][1]) if len(args[1]) > 1 and isinstance(args[1][1], int) else "") or r
                self.eff("in", ">>", obj=self.locval(loc), args=(self.locval(l2),), line=line)
                self.write(l2, r, line, ">>")
            return mk("lref", *loc)
        if op == "&" and len(args) == 2 and ("archive" in ta or "archive" in cq.lower()):
            loc = self.deref(self.lv(args[0]))
            l2 = self.deref(self.lv(args[1]))
            return self.archive(loc, l2, ta, line, self.T(args[1][1]) if isinstance(args[1][1], int) else "")
        vals = [self.rv(self.ev(a)) for a in args]
        if op == "!" and len(vals) == 1:
            v = vals[0]
            return bnot(v if v.op in ("ite", "true", "false") else self.streambool(v, ta, line))
        if len(vals) == 1:
            if op == "-":
                return self.elemwise("neg", vals[0], None, ta)
            if op == "+":
                return vals[0]
        if len(vals) == 2 and op in ("+", "-", "*", "/", "==", "!=", "<", ">", "<=", ">=", "<=>", "%", "&&", "||"):
            tb = self.T(args[1][1]) if len(args[1]) > 1 and isinstance(args[1][1], int) else ""
            if op in ("+", "-", "*", "/"):
                if "basic_string" in ta or "basic_string" in tb or self._stringy(vals[0]) or self._stringy(vals[1]):
                    return self.cat(vals[0], vals[1])
                return self.elemwise(op, vals[0], vals[1], ta)
            if op == "!=" and q.startswith("boost::"):
                f = self.declared_eq(ta, tb)
                if f is not None:
                    r = self.call_fn(f, None, [self.temp(v) for v in vals], [], line=line)
                    return bnot(tobool(self.rv(r)))
            if op in ("==", "!=") and vals[0].op == "tuple" and vals[1].op == "tuple" and len(vals[0].a) == len(vals[1].a) and ("std::tuple" in ta or "std::pair" in ta):
                r = TRUE
                for x, y in zip(vals[0].a, vals[1].a):
                    r = band(r, cmp("==", self.rv(x), self.rv(y)))
                return r if op == "==" else bnot(r)
            if "blitz" in ta or "blitz" in tb:
                r = self.tvbool(op, vals[0], vals[1])
                if r is not None:
                    return r
            if ("blitz" in ta or "blitz" in tb) and op in ("==", "!=", "<", ">", "<=", ">="):
                return typed(mk("ewcmp", op, vals[0], vals[1]), t)
            return self.binop(op, vals[0], vals[1], ta, tb, t)
        r = typed(mk("op", op, *vals), t)
        self.eff("call", q, args=tuple(vals), ret=r, line=line)
        return r

    def declared_eq(self, ta, tb):
        """the operator== of the program that boost::equality_comparable derives != from"""
        st = lambda t: t.replace("const ", "").replace("&", "").strip()
        if not hasattr(self.prog, "_eqs"):
            self.prog._eqs = {}
            for f in self.prog.find(name="operator=="):
                if len(f.params) == 2 and f.body is not None:
                    self.prog._eqs.setdefault(tuple(st(f.tu.t(p["t"])) for p in f.params), f)
        return self.prog._eqs.get((st(ta), st(tb)))

    def tvbool(self, op, a, b):
        """logical and comparison operators act elementwise on short vectors of known elements"""
        def strip(x):
            while x.op == "ctor" and "TinyVector" in str(x.a[0]) and len(x.a) == 2:
                x = x.a[1]
            return x
        a, b = strip(a), strip(b)
        if a.op != "tuple" or b.op != "tuple" or len(a.a) != len(b.a):
            return None
        f = {"||": lambda x, y: bor(tobool(x), tobool(y)), "&&": lambda x, y: band(tobool(x), tobool(y))}.get(op)
        if f is None and op in ("==", "!="):
            def f(x, y):
                if x.op in ("ite", "true", "false") and y.op in ("ite", "true", "false"):
                    r = ite(x, y, bnot(y))
                    return r if op == "==" else bnot(r)
                return cmp(op, x, y)
        if f is None and op in ("<", ">", "<=", ">="):
            f = lambda x, y: cmp(op, x, y)
        if f is None:
            return None
        return mk("tuple", *[f(self.rv(x), self.rv(y)) for x, y in zip(a.a, b.a)])

    def blitz_list(self, args, line):
        """A=a,b,c,... element by element"""
        def strip(e):
            while e[0] in ("cast", "paren", "tmp", "bind", "icast", "clean") and isinstance(e[-1], (list, tuple)):
                e = e[-1]
            return e
        t = self.T(args[0][1]) if len(args[0]) > 1 and isinstance(args[0][1], int) else ""
        if "ListInit" not in t:
            return None
        vals = [self.rv(self.ev(args[1]))]
        e = strip(args[0])
        base = self.ev_keepref(args[0]) if True else None
        if base.op == "bliter":
            arr, k = base.a[0], base.a[1]
        elif base.op == "lref":
            # first comma: the whole array was set to the first value
            loc = (base.a[0], base.a[1])
            v0 = self.read(loc)
            arr, k = mk("lref", *loc), 1
            self.write(loc, mk("tuple", v0), line, quiet=True)
        else:
            return None
        loc = (arr.a[0], arr.a[1])
        cur = self.read(loc)
        if cur.op != "tuple":
            return None
        self.write(loc, mk("tuple", *(list(cur.a) + vals)), line, quiet=True)
        return mk("bliter", arr, k + 1)

    def streambool(self, v, ta, line):
        if "_ptr" in ta or "function" in ta or "optional" in ta:
            return tobool(v)
        return batom(mk("good", v))

    def streamy(self, node):
        t = self.T(node[1]) if len(node) > 1 and isinstance(node[1], int) else ""
        return "stream" in t

    def archive(self, loc, l2, ta, line, t):
        loading = "iarchive" in ta
        v = self.read(l2, t)
        self.ioseq += 1
        self.eff("io", "load" if loading else "save", obj=self.locval(loc), args=(self.locval(l2), v), line=line, x=t)
        if loading:
            self.write(l2, typed(mk("loaded", self.locval(l2), self.ioseq), t), line, quiet=True)
        return mk("lref", *loc)

    def elemwise(self, op, a, b, ta=""):
        def tup(x):
            return x.op == "tuple"
        if op == "neg":
            if tup(a):
                return mk("tuple", *[neg(x) for x in a.a])
            return neg(a)
        fnc = {"+": add, "-": sub, "*": mul, "/": div}[op]
        if a.op == "iter" and op in "+-":
            if b.op == "iter":
                return sub(a.a[1], b.a[1])
            return mk("iter", a.a[0], fnc(a.a[1], b))
        if tup(a) and tup(b) and len(a.a) == len(b.a):
            return mk("tuple", *[fnc(x, y) for x, y in zip(a.a, b.a)])
        if tup(a) and b.op in ("poly",):
            return mk("tuple", *[fnc(x, b) for x in a.a])
        if tup(b) and a.op in ("poly",):
            return mk("tuple", *[fnc(a, x) for x in b.a])
        if op == "/" and isint_t(ta):
            return fnc(a, b)
        return fnc(a, b)

    def opaque(self, callee, objloc, argnodes, line, t, obnode=None):
        q = callee["q"]
        pts = [self.frame.fn.tu.t(i) for i in callee.get("pt", ())]
        vals, locs = [], []
        for i, a in enumerate(argnodes):
            pt = pts[i] if i < len(pts) else ""
            if is_ref(pt) and not pt.endswith("&&"):
                l = self.deref(self.lv(a))
                locs.append(l)
                vals.append(self.read(l, pt))
            else:
                locs.append(None)
                vals.append(self.rv(self.ev(a)))
        ov = None
        if objloc is not None:
            objloc = self.deref(objloc)
            ov = self.read(objloc)
        q = strip_targs(q)
        if q.endswith("::operator=") and objloc is not None and len(vals) == 1 and objloc[0][0] != "val":
            # assignment of a base or member as part of a defaulted assignment
            if not (q.startswith("boost::operators_impl") or q.startswith("boost::noncopyable") or "enable_shared_from_this" in q):
                self.write(objloc, vals[0], line, "=", t="array" if q.startswith("blitz::Array") else None)
            return mk("lref", *objloc)
        base = mk("call", q, callee.get("ta", "") if callee.get("sc") else "", *(([ov] if ov is not None else []) + vals))
        r = typed(base, t)
        e = self.eff("call", q, obj=self.locval(objloc) if objloc is not None else None, args=tuple(vals), ret=r, line=line, x={"locs": tuple(self.locval(l) if l is not None else None for l in locs), "callee": callee, "t": t, "objval": ov})
        pure = callee.get("k") or objloc is None
        if objloc is not None and not callee.get("k") and not callee.get("st") and objloc[0][0] != "val":
            self.write(objloc, mk("after", q, ov, *vals), line, quiet=True)
        for i, l in enumerate(locs):
            pt = pts[i] if i < len(pts) else ""
            if l is not None and not is_constref(pt) and l[0][0] != "val":
                self.write(l, mk("argout", q, i, *(([ov] if ov is not None else []) + vals)), line, quiet=True)
        if q == "blitz::Array::reference" and objloc is not None and len(vals) == 1 and objloc[0][0] != "val":
            self.write(objloc, vals[0], line, quiet=True)
        for v in vals:
            # the callee may run a closure, which may write what it has captured by reference
            if v.op == "lam":
                for b in self.handles[v.a[0]][3].values():
                    l = b[1] if b[0] == "loc" else (b[1], ()) if b[0] == "root" else None
                    if l is not None and l[0][0] == "v":
                        self.write(l, mk("argout", q, "closure", self.read(l)), line, quiet=True)
        if self.post is not None:
            r2 = self.post(self, q, objloc, ov, locs, vals, e, r)
            if r2 is not None:
                e.ret = r = r2
        return r

    # ------------------------------------------------------------ statements
    def ex(self, s):
        if s is None or self.pc is FALSE:
            return
        self.ops += 1
        k = s[0]
        m = getattr(self, "ex_" + {"{": "block"}.get(k, k), None)
        if m is not None:
            m(s)
        else:
            self.ev(s)

    def ex_block(self, s):
        for x in s[1]:
            self.ex(x)

    def ex_nop(self, s):
        pass

    def ex_unk(self, s):
        self.warn.append("unsupported statement %s" % s[1])

    def ex_decl(self, s):
        for v in s[1]:
            self.declare(v)

    def declare(self, v):
        t = self.T(v["t"])
        fr = self.frame
        if v.get("static"):
            key = ("static", fr.fn.q + "::" + v["n"])
            fr.vars[v["id"]] = ("root", key)
            if key not in self.st:
                self.st[key] = mk("static", fr.fn.q + "::" + v["n"])
                if t.startswith("const ") and v.get("i") is not None:
                    self.st[key] = self.rv(self.ev(v["i"]))
                elif v.get("i") is not None:
                    self.eff("staticinit", v["n"], line=v["l"])
            return
        if is_ref(t):
            if v.get("i") is not None:
                loc = self.deref(self.lv(v["i"]))
                fr.vars[v["id"]] = ("loc", loc)
            else:
                fr.vars[v["id"]] = ("root", self.newroot(v["n"]))
        elif is_blitz_array(t) and v.get("i") is not None:
            r = self.newroot(v["n"])
            self.st[r] = self.newview(self.arrayinit(v["i"]))
            fr.vars[v["id"]] = ("root", r)
        else:
            r = self.newroot(v["n"])
            val = self.rv(self.ev(v["i"])) if v.get("i") is not None else mk("undef", v["n"])
            self.st[r] = val
            fr.vars[v["id"]] = ("root", r)
            if v.get("i") is not None:
                self.eff("w", "decl", obj=self.locval((r, ())), args=(val,), line=v["l"], x=t)
        for b in v.get("b", ()):
            if "hi" in b:
                l = self.deref(self.lv(b["hi"]))
                fr.vars[b["hid"]] = ("loc", l)
                fr.vars[b["id"]] = ("loc", l)
            elif "e" in b:
                fr.vars[b["id"]] = ("expr", b["e"], fr)

    def ex_return(self, s):
        v = VOID
        if s[1] is not None:
            if self.frame.refret:
                loc = self.deref(self.lv(s[1]))
                v = mk("lref", *loc)
            else:
                rt = self.frame.fn.tu.t(self.frame.fn.d["rt"])
                if is_blitz_array(rt):
                    v = self.arrayinit(s[1])
                    if v.op == "lref" and v.a[0][0] == "v":
                        # a local array handed out by value keeps its storage
                        pass
                else:
                    v = self.rv(self.ev(s[1]))
        if self.pc is FALSE:
            return
        c = Ctl()
        c.kind, c.val, c.line, c.file, c.fn, c.type = "return", v, s[2], self.frame.fn.file, self.frame.fn.q, None
        self.tr.append(c)
        self.exits.append(Exit("return", self.pc, v, self.st))
        self.pc = FALSE

    def ex_break(self, s):
        c = Ctl()
        c.kind, c.line, c.val, c.type, c.file, c.fn = "break", s[1], None, None, self.frame.fn.file, self.frame.fn.q
        self.tr.append(c)
        self.exits.append(Exit("break", self.pc, VOID, self.st))
        self.pc = FALSE

    def ex_continue(self, s):
        c = Ctl()
        c.kind, c.line, c.val, c.type, c.file, c.fn = "continue", s[1], None, None, self.frame.fn.file, self.frame.fn.q
        self.tr.append(c)
        self.exits.append(Exit("continue", self.pc, VOID, self.st))
        self.pc = FALSE

    def ex_if(self, s):
        if s[1] is not None:
            self.ex(s[1])
        if s[2] is not None:
            self.declare(s[2])
        c = tobool(self.ev(s[3]))
        if self.pc is FALSE:
            return
        if c is TRUE:
            return self.ex(s[4])
        if c is FALSE:
            return self.ex(s[5])
        node = If()
        node.cond, node.raw, node.line = c, self.rawcond(s[3]), s[6]
        node.file, node.fn = self.frame.fn.file, self.frame.fn.q
        otr, ost, opc = self.tr, self.st, self.pc
        self.tr = node.t = []
        self.st = dict(ost)
        self.pc = band(opc, c)
        if self.pc is FALSE:
            self.pc = FALSE
        else:
            self.ex(s[4])
        s1, p1 = self.st, self.pc
        self.tr = node.e = []
        self.st = dict(ost)
        self.pc = band(opc, bnot(c))
        if self.pc is not FALSE:
            self.ex(s[5])
        s2, p2 = self.st, self.pc
        self.tr = otr
        self.tr.append(node)
        self.pc = bor(p1, p2)
        if p1 is FALSE:
            self.st = s2
        elif p2 is FALSE:
            self.st = s1
        else:
            self.st = self.join(c, s1, s2)

    def ex_switch(self, s):
        if s[1] is not None:
            self.ex(s[1])
        v = self.ev(s[2])
        body = s[3][1] if s[3] and s[3][0] == "{" else [s[3]]
        flat = []

        def unroll(x):
            while x is not None and x[0] in ("case", "default"):
                if x[0] == "case":
                    flat.append(("case", x[1]))
                    x = x[2]
                else:
                    flat.append(("default", None))
                    x = x[1]
            if x is not None:
                flat.append(("stmt", x))
        for x in body:
            unroll(x)
        cases = [(i, it[1]) for i, it in enumerate(flat) if it[0] == "case"]
        dflt = [i for i, it in enumerate(flat) if it[0] == "default"]
        conds = [(i, cmp("==", v, self.ev(c))) for i, c in cases]

        def run_from(i):
            for it in flat[i:]:
                if it[0] == "stmt":
                    self.ex(it[1])
                    if self.pc is FALSE:
                        break

        def chain(k):
            if k == len(conds):
                if dflt:
                    run_from(dflt[0])
                return
            i, c = conds[k]
            if c is TRUE:
                return run_from(i)
            if c is FALSE:
                return chain(k + 1)
            node = If()
            node.cond, node.raw, node.line = c, ("expr",), s[4]
            node.file, node.fn = self.frame.fn.file, self.frame.fn.q
            otr, ost, opc = self.tr, self.st, self.pc
            self.tr = node.t = []
            self.st = dict(ost)
            self.pc = band(opc, c)
            if self.pc is not FALSE:
                run_from(i)
            s1, p1 = self.st, self.pc
            self.tr = node.e = []
            self.st = dict(ost)
            self.pc = band(opc, bnot(c))
            if self.pc is not FALSE:
                chain(k + 1)
            s2, p2 = self.st, self.pc
            self.tr = otr
            self.tr.append(node)
            self.pc = bor(p1, p2)
            self.st = s2 if p1 is FALSE else s1 if p2 is FALSE else self.join(c, s1, s2)
        oex = self.exits
        self.exits = []
        sw = Loop()
        sw.hdr, sw.trip, sw.line, sw.idx, sw.inc, sw.pre, sw.raw, sw.min1 = "switch", ONE, s[4], None, [], [], None, True
        sw.file, sw.fn = self.frame.fn.file, self.frame.fn.q
        otr = self.tr
        self.tr = sw.body = []
        chain(0)
        self.tr = otr
        self.tr.append(sw)
        mine = self.exits
        self.exits = oex
        for x in mine:
            if x.kind == "break":
                if self.pc is FALSE:
                    self.st, self.pc = x.st, x.pc
                else:
                    self.st = self.join(x.pc, x.st, self.st)
                    self.pc = bor(self.pc, x.pc)
            else:
                self.exits.append(x)

    ex_case = lambda self, s: self.ex(s[2])
    ex_default = lambda self, s: self.ex(s[1])

    def ex_try(self, s):
        node = Try()
        node.line = s[3]
        otr, oex, opc = self.tr, self.exits, self.pc
        ost = dict(self.st)
        self.tr = node.body = []
        self.exits = []
        self.st = dict(ost)
        self.ex(s[1])
        bst, bpc, bex = self.st, self.pc, self.exits
        node.handlers = []
        self.exits = oex
        thr = [x for x in bex if x.kind == "throw"]
        for x in bex:
            if x.kind != "throw":
                self.exits.append(x)
        st, pc = bst, bpc
        for i, h in enumerate(s[2]):
            self.st = dict(bst if bpc is not FALSE else (thr[0].st if thr else ost))
            c = mk("caught", s[3], i)
            self.pc = band(opc, batom(c)) if True else opc
            self.tr = hb = []
            if h.get("v"):
                self.declare(h["v"])
            self.ex(h["b"])
            node.handlers.append((self.T(h["t"]) if "t" in h else "...", hb))
            if self.pc is not FALSE:
                st = self.join(batom(c), self.st, st) if pc is not FALSE else self.st
                pc = bor(pc, self.pc) if pc is not FALSE else self.pc
        self.tr = otr
        self.tr.append(node)
        self.st = st
        self.pc = opc if pc is not FALSE else FALSE

    # ---- loops
    def ex_for(self, s):
        if s[1] is not None:
            self.ex(s[1])
        self.loop(s[3], s[4], s[5], s[6], condvar=s[2])

    def ex_while(self, s):
        self.loop(s[2], None, s[3], s[4], condvar=s[1])

    def ex_do(self, s):
        # body; while (cond) body
        self.loop(s[2], None, s[1], s[3], post=True)

    def ex_rfor(self, s):
        if s[1] is not None:
            self.ex(s[1])
        c = self.deref(self.lv(s[2]))
        v = s[3]
        cv = self.read(c) if self.views else None
        if cv is not None and cv.op in ("slices", "zip"):
            # every slice is treated alike: the body is interpreted once, for all of them together
            ls = [x.a[0] for x in (cv.a if cv.op == "zip" else [cv])]
            node = Loop()
            node.body, node.pre, node.inc, node.trip, node.hdr, node.line, node.idx = [], [], [], None, cv, s[5], mk("idx", "slice")
            node.file, node.fn, node.raw, node.min1, node.brk, node.car = "", "", None, False, [], {}
            otr, self.tr = self.tr, node.body
            for x, b in zip(ls, [v] if cv.op == "slices" else v.get("b", ())):
                lb = (x.a[0], x.a[1])
                self.frame.vars[b["id"]] = ("loc", lb)
                if "hid" in b:
                    self.frame.vars[b["hid"]] = ("loc", lb)
            self.ex(s[4])
            self.tr = otr
            self.tr.append(node)
            return
        byref = is_ref(self.T(v["t"]))

        def body(k):
            l = (c[0], c[1] + (("[", k),))
            if byref:
                self.frame.vars[v["id"]] = ("loc", l)
            else:
                self.frame.vars[v["id"]] = ("root", self.temp(self.read(l, self.T(v["t"])), v["n"])[0])
            for b in v.get("b", ()):
                if "hi" in b:
                    lb = self.deref(self.lv(b["hi"]))
                    self.frame.vars[b["hid"]] = ("loc", lb)
                    self.frame.vars[b["id"]] = ("loc", lb)
                elif "e" in b:
                    self.frame.vars[b["id"]] = ("expr", b["e"], self.frame)
            self.ex(s[4])
        self.summ_loop(self.sizeof(c), body, s[5])

    def loop(self, cond, inc, body, line, condvar=None, post=False):
        # --- constant trip counts are unrolled (template-parameter bounds)
        if not post and condvar is None and cond is not None and self.try_unroll(cond, inc, body, line):
            return

        def full(k):
            if condvar is not None:
                self.declare(condvar)
            self.ex(body)

        self.summ_loop(None, full, line, cond=cond, inc=inc, condvar=condvar, post=post)

    def try_unroll(self, cond, inc, body, line):
        snap = (dict(self.st), self.pc, len(self.tr), len(self.exits), self.ops, self.writes)
        nb = len(self.tr)
        pend = []
        n = 0
        saved_exits = list(self.exits)
        while True:
            c = tobool(self.ev(cond))
            if self.pc is FALSE:
                return True
            if c is FALSE:
                # merge breaks
                self._merge_breaks(pend)
                return True
            if c is not TRUE or n >= self.unroll:
                self.st, self.pc = snap[0], snap[1]
                del self.tr[nb:]
                del self.exits[snap[3]:]
                return False
            oex = self.exits
            self.exits = []
            b = Loop()
            b.hdr, b.trip, b.line, b.idx, b.inc, b.pre, b.raw, b.min1 = "once", ONE, line, None, [], [], None, True
            b.file, b.fn = self.frame.fn.file, self.frame.fn.q
            self.ex(body)
            mine = self.exits
            self.exits = oex
            for x in mine:
                if x.kind == "continue":
                    if self.pc is FALSE:
                        self.st, self.pc = x.st, x.pc
                    else:
                        self.st = self.join(x.pc, x.st, self.st)
                        self.pc = bor(self.pc, x.pc)
                elif x.kind == "break":
                    pend.append(x)
                else:
                    self.exits.append(x)
            if self.pc is FALSE:
                self._merge_breaks(pend)
                return True
            if inc is not None:
                self.ev(inc)
            n += 1

    def _merge_breaks(self, pend):
        for x in pend:
            if self.pc is FALSE:
                self.st, self.pc = x.st, x.pc
            else:
                self.st = self.join(x.pc, x.st, self.st)
                self.pc = bor(self.pc, x.pc)

    def summ_loop(self, trip, body, line, cond=None, inc=None, condvar=None, post=False):
        if trip is not None:
            n = const_int(trip)
            if n is not None and 0 <= n <= self.unroll:
                pend = []
                for i in range(n):
                    oex = self.exits
                    self.exits = []
                    body(num(i))
                    mine, self.exits = self.exits, oex
                    for x in mine:
                        if x.kind == "continue":
                            if self.pc is FALSE:
                                self.st, self.pc = x.st, x.pc
                            else:
                                self.st = self.join(x.pc, x.st, self.st)
                                self.pc = bor(self.pc, x.pc)
                        elif x.kind == "break":
                            pend.append(x)
                        else:
                            self.exits.append(x)
                    if self.pc is FALSE:
                        break
                self._merge_breaks(pend)
                return
        lvl = self.looplevel
        self.looplevel += 1
        k = P(typed(mk("idx", lvl), "int"))
        st0, pc0, tr0, ex0 = self.st, self.pc, self.tr, self.exits
        cnt0 = self.cnt

        def one(assume, record):
            """one abstract iteration from state st0 with the loop-carried locations set by `assume`"""
            self.st = dict(st0)
            self.pc = pc0
            self.tr = pre = []
            self.exits = []
            for (root, path), v in assume.items():
                self.st[root] = self.update(self.rootval(root), path, v)
            cv = None
            raw = None
            if cond is not None and not post:
                if condvar is not None:
                    self.declare(condvar)
                cv = tobool(self.ev(cond))
                raw = self.rawcond(cond)
            self.tr = bt = []
            self.pc = pc0
            self.hdrs.append(cv if cv is not None else TRUE)
            try:
                body(k)
            finally:
                self.hdrs.pop()
            mine = self.exits
            st, pc = self.st, self.pc
            brk, oth = [], []
            for x in mine:
                if x.kind == "continue":
                    if pc is FALSE:
                        st, pc = x.st, x.pc
                    else:
                        st = self.join(x.pc, x.st, st)
                        pc = bor(pc, x.pc)
                elif x.kind == "break":
                    brk.append(x)
                else:
                    oth.append(x)
            self.st, self.pc = st, pc
            self.tr = it = []
            if pc is not FALSE:
                if inc is not None:
                    self.ev(inc)
                if post and cond is not None:
                    cv = tobool(self.ev(cond))
                    raw = self.rawcond(cond)
            return self.st, self.pc, pre, bt, it, brk, oth, cv, raw

        # discovery pass: which locations does an iteration write?
        ow = self.writes
        self.writes = set()
        r = one({}, False)
        mod = self.writes
        # a second discovery with havocked values (writes may depend on state)
        mod = {(root, path) for root, path in mod if root in st0 or root[0] in ("this", "p", "g", "static")}
        lc = {}
        for root, path in sorted(mod, key=repr):
            if any((root, path[:i]) in mod for i in range(len(path))):
                continue
            v0 = None
            self.st = st0
            v0 = self.read((root, path)) if True else None
            t = TYPES.get(v0.id) if v0.op not in ("poly",) else "int" if v0.op == "poly" and self._intlike(v0) else "double"
            if v0 in (TRUE, FALSE):
                t = "bool"
            at = typed(mk("lc", lvl, self.locname(root, path), v0), t)
            lc[(root, path)] = (at, v0)
        self.writes = set()
        st1, pc1, pre, bt, it, brk, oth, cv, raw = one({l: self._lcval(a, v0) for l, (a, v0) in lc.items()}, False)
        mod2 = {(root, path) for root, path in self.writes if root in st0 or root[0] in ("this", "p", "g", "static")}
        # induction variables
        ind = {}
        for l, (a, v0) in lc.items():
            self.st = st1
            v1 = self.read(l)
            if self._isiter(v1) and v0.op == "iter" and v1.op == "iter":
                d = sub(v1.a[1], P(a))
                if self._inv(d, lc, lvl) and d.op == "poly":
                    ind[l] = ("iter", v0, d)
            elif v0.op in ("poly",) or V._numt(v0):
                if v1.op != "ite":
                    d = sub(v1, P(a))
                    if d.op == "poly" and self._inv(d, lc, lvl):
                        ind[l] = ("num", v0, d)
        # derived variables: x == E(other loop-carried values) on entry and at the end of every iteration
        der = {}
        self.st = st1
        if pc1 is not FALSE:
            fins = {l: self.read(l) for l in lc}
            rep = {}
            for l, (a, v0) in lc.items():
                w = fins[l]
                if w.op == "poly" and len(w.a) == 1 and len(w.a[0][0]) == 1 and w.a[0][1] == (1, 0) and w.a[0][0][0][1] == 1:
                    w = w.a[0][0][0][0]
                if w.op not in ("poly", "ite", "true", "false", "null") and w is not a:
                    rep[w] = (l, a)
            for l, (a, v0) in lc.items():
                v1 = fins[l]
                if l in ind or v1 is a or not (v0.op == "poly" or V._numt(v0)):
                    continue
                E = V.subst(v1, lambda n: rep[n][1] if n in rep and rep[n][0] != l else None)
                if E is v1 or a in subnodes(E):
                    continue
                if any(x.op in ("idx",) and x.a[0] >= lvl for x in subnodes(E)):
                    continue
                byatom = {x: y for x, y in lc.values()}
                E0 = V.subst(E, lambda n: byatom.get(n))
                e0, z0 = (P(E0) if E0.op not in ("poly", "ite") else E0), (P(v0) if v0.op not in ("poly", "ite") else v0)
                if e0 is z0:
                    der[l] = E
        # what every iteration leaves as it was on entry is no loop-carried value (largest inductive set)
        const = set()
        if pc1 is not FALSE:
            const = {l for l in lc if l not in ind and l not in der}
            pn = lambda n: P(n) if n.op not in ("poly", "ite", "true", "false", "null", "obj", "upd", "tuple", "lref", "ptr", "iter") and V._numt(n) else n
            while const:
                m = {lc[l][0]: lc[l][1] for l in const}
                drop = set()
                for l in const:
                    a, v0 = lc[l]
                    for v1 in [fins[l]] + [self._readin(b.st, l) for b in brk]:
                        if v1 is a or pn(v1) is pn(a):
                            continue
                        w = V.subst(v1, lambda n: m.get(n))
                        if w is not v0 and pn(w) is not pn(v0):
                            drop.add(l)
                            break
                if not drop:
                    break
                const -= drop
        assume = {}
        for l, (a, v0) in lc.items():
            if l in const:
                assume[l] = v0
            elif l in der:
                assume[l] = der[l]
            elif l in ind:
                kind, b0, d = ind[l]
                assume[l] = mk("iter", b0.a[0], add(b0.a[1], mul(d, k))) if kind == "iter" else add(b0, mul(d, k))
            else:
                assume[l] = self._lcval(a, v0)
        self.writes = ow
        # final pass with induction variables in closed form
        node = Loop()
        node.line, node.idx = line, k
        node.file, node.fn = self.frame.fn.file, self.frame.fn.q
        if ow is not None:
            ow |= mod | mod2
        st1, pc1, pre, bt, it, brk, oth, cv, raw = one(assume, True)
        node.pre, node.body, node.inc, node.raw = pre, bt, it, raw
        node.min1 = post
        node.brk = [b.pc for b in brk]
        tripv = trip
        if tripv is None and cv is not None and not brk and not post:
            tripv = self.trip_from(cv, k)
        node.trip = tripv
        node.car = {}
        node.hdr = cv if cv is not None else TRUE
        self.tr = tr0
        self.tr.append(node)
        self.exits = ex0
        hdr = mk("trip", tripv) if tripv is not None else mk("while", node.hdr, *[b.pc for b in brk])
        st2 = dict(st0)
        self.st = st2
        for l, (a, v0) in lc.items():
            self.st = st1
            v1 = self.read(l) if pc1 is not FALSE else v0
            self.st = st2
            if l in const:
                st2[l[0]] = self.update(self.rootval(l[0]), l[1], v0)
                continue
            node.car[a] = (l, v0, v1)
            if l in ind and tripv is not None:
                kind, b0, d = ind[l]
                fin = mk("iter", b0.a[0], add(b0.a[1], mul(d, tripv))) if kind == "iter" else add(b0, mul(d, tripv))
            elif v1 is a or (v1.op == "poly" and v1 is P(a)):
                fin = v0
            elif tripv is not None and v1.op == "poly" and self._additive(v1, a, lc, v0):
                f = sub(v1, P(a))
                fin = add(v0, P(typed(mk("sum", tripv, mk("bv", lvl), f), TYPES.get(v0.id, "double") if v0.op != "poly" else ("double" if V.all_real(f) else "std::complex<double>"))))
            else:
                fin = typed(mk("fold", hdr, v0, a, v1, *[self._readin(b.st, l) for b in brk]), TYPES.get(a.id))
            st2[l[0]] = self.update(self.rootval(l[0]), l[1], fin)
        self.st = st2
        # exits from inside the loop (return / throw)
        self.pc = pc0
        for x in oth:
            c = mk("inloop", lvl, hdr, x.pc if x.pc.op != "ite" else x.pc)
            self.exits.append(Exit(x.kind, band(pc0, batom(c)), x.val, x.st))
            if x.kind == "return":
                self.pc = band(self.pc, bnot(batom(c)))
        if cond is None and trip is None and not brk:
            self.pc = FALSE
        self.looplevel = lvl

    def _readin(self, st, l):
        s = self.st
        self.st = st
        v = self.read(l)
        self.st = s
        return v

    def _intlike(self, p):
        return all(c[1] == 0 and c[0].denominator == 1 for _, c in p.a)

    def locname(self, root, path):
        return str(root[-1]) + "".join("." + str(s[1]) for s in path)

    def _lcval(self, a, v0):
        if v0.op == "iter":
            return mk("iter", v0.a[0], P(a))
        if v0.op == "poly" or V._numt(v0):
            return P(a)
        return a

    def _inv(self, d, lc, lvl):
        ats = subnodes(d)
        las = {a for a, _ in lc.values()}
        if ats & las:
            return False
        return not any(x.op == "idx" and x.a[0] >= lvl for x in ats)

    def _additive(self, v1, a, lc, v0):
        f = sub(v1, P(a))
        las = {x for x, _ in lc.values()}
        return not (subnodes(f) & las)

    def trip_from(self, cv, k):
        """cv: condition as a decision diagram over one comparison linear in k -> trip count"""
        if cv.op != "ite":
            return None
        c, hi, lo = cv.a
        pos = hi is TRUE and lo is FALSE
        negd = hi is FALSE and lo is TRUE
        if not (pos or negd):
            return None
        if c.op == "lt0" and pos:
            p = c.a[0]
            # s*k + r < 0  with s=1 -> trip = -r
            s, r = self._split(p, k)
            if s is not None and is_const(s) and cval(s)[1] == 0 and cval(s)[0] > 0:
                return neg(div(r, s))
        if c.op == "lt0" and negd:
            p = c.a[0]          # !(p<0): loop while p>=0 , p = r - s k  -> trip = r/s+1
            s, r = self._split(p, k)
            if s is not None and is_const(s) and cval(s)[0] < 0:
                return add(div(r, neg(s)), ONE)
        if c.op == "eq0" and negd:
            p = c.a[0]
            s, r = self._split(p, k)
            if s is not None and is_const(s):
                return neg(div(r, s))
        return None

    def _split(self, p, k):
        ka = k.a[0][0][0][0]
        s, r = ZERO, ZERO
        for m, c in p.a:
            if len(m) == 1 and m[0][0] is ka and m[0][1] == 1:
                s = add(s, V._poly({(): c}))
            elif any(at is ka or ka in subnodes(at) for at, _ in m):
                return None, None
            else:
                r = add(r, V._poly({m: c}))
        if s is ZERO:
            return None, None
        return s, r


def split_targs(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<([{":
            d += 1
        if ch in ">)]}":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def strip_last(t):
    return strip_targs(t.replace("const ", "").strip(" &*"))


def walk(tree):
    """all nodes of an effect tree"""
    for n in tree:
        yield n
        if isinstance(n, If):
            yield from walk(n.t)
            yield from walk(n.e)
        elif isinstance(n, Loop):
            yield from walk(n.pre)
            yield from walk(n.body)
            yield from walk(n.inc)
        elif isinstance(n, Inl):
            yield from walk(n.body)
        elif isinstance(n, Try):
            yield from walk(n.body)
            for _, h in n.handlers:
                yield from walk(h)


def dump(tree, ind=0):
    out = []
    p = "  " * ind
    for n in tree:
        if isinstance(n, Eff):
            out.append("%s%s %s%s(%s) @%d" % (p, n.kind, (str(n.obj) + " . ") if n.obj is not None else "", n.name, ", ".join(map(str, n.args)), n.line))
        elif isinstance(n, If):
            out.append("%sif %s" % (p, n.cond))
            out += dump(n.t, ind + 1)
            if n.e:
                out.append(p + "else")
                out += dump(n.e, ind + 1)
        elif isinstance(n, Loop):
            out.append("%sloop %s trip=%s" % (p, n.hdr, n.trip))
            out += dump(n.pre, ind + 2)
            out += dump(n.body, ind + 1)
            out += dump(n.inc, ind + 2)
        elif isinstance(n, Inl):
            out.append("%sinline %s obj=%s args=%s" % (p, n.fn.q, n.obj, n.args))
            out += dump(n.body, ind + 1)
        elif isinstance(n, Try):
            out.append(p + "try")
            out += dump(n.body, ind + 1)
            for t, h in n.handlers:
                out.append(p + "catch " + t)
                out += dump(h, ind + 1)
        elif isinstance(n, Ctl):
            out.append("%s%s %s %s" % (p, n.kind, n.val if n.val is not None else "", n.type or ""))
    return out
