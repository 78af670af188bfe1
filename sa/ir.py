"""Value flow over the compiler's intermediate representation. A witness with fixed shapes and undefined inputs is compiled to optimised LLVM IR, so that inlining, constant propagation and unrolling have resolved
templates, index arithmetic and loops; what is left is followed along its constant branches. Every number is a polynomial with exact coefficients in the inputs (functions of them are further unknowns), so that what is
found equal is equal for all inputs. Where a branch depends on an input, or an unknown instruction is met, the reader gives up (Lost) and nothing is concluded."""
import os
import re
import struct
import shutil
import subprocess
import threading
from fractions import Fraction
from . import driver

OPTS = ["-O1", "-S", "-emit-llvm", "-fno-slp-vectorize", "-fno-vectorize", "-ffinite-math-only", "-fno-signed-zeros", "-fno-math-errno", "-fignore-exceptions", "-fno-threadsafe-statics",
        "-fstrict-vtable-pointers", "-g0"]


class Lost(Exception):
    pass


class Fault(Exception):
    """an access outside of any object, whatever the inputs"""


_lock = threading.Lock()
_place = []


def place():
    with _lock:
        if not _place:
            d = os.path.join(driver.CACHE, "ir-" + driver.tree_hash())
            os.makedirs(driver.CACHE, exist_ok=True)
            if not os.path.isdir(d):
                keep = int(os.environ.get("VERIF_CACHE_KEEP", "2"))
                olds = []
                for f in os.listdir(driver.CACHE):
                    if f.startswith("ir-"):
                        try:
                            olds.append((os.path.getmtime(os.path.join(driver.CACHE, f)), f))
                        except OSError:
                            pass
                for _, f in sorted(olds)[:max(0, len(olds) - keep + 1)]:
                    shutil.rmtree(os.path.join(driver.CACHE, f), ignore_errors=True)
                os.makedirs(d, exist_ok=True)
            _place.append(d)
        return _place[0]


def lower(name, text="", opts=()):
    """witness/name (followed by text) -> the module, or the compiler's message"""
    with open(driver.tu_path(name)) as fh:
        src = fh.read() + text
    d = place()
    out = os.path.join(d, "%s-%s.ll" % (name, driver.sha(src, " ".join(OPTS), " ".join(opts))))
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        r = subprocess.run(["clang++-18"] + driver.flags() + OPTS + list(opts) + ["-I" + os.path.join(driver.VERIF, "witness"), "-x", "c++", "-", "-o", tmp], input=src, text=True, capture_output=True, cwd="/")
        if r.returncode:
            return None, r.stderr
        os.replace(tmp, out)
    return out, ""


def module(path):
    with open(path) as fh:
        return Module(fh.read())


def accepts(name, text, opts=()):
    """does the compiler accept witness/name followed by text -> (bool, message)"""
    with open(driver.tu_path(name)) as fh:
        src = fh.read() + text
    r = subprocess.run(["clang++-18"] + driver.flags() + ["-fsyntax-only", "-I" + os.path.join(driver.VERIF, "witness"), "-x", "c++", "-"] + list(opts), input=src, text=True, capture_output=True, cwd="/")
    return r.returncode == 0, r.stderr


# ---------------------------------------------------------------- numbers: polynomials over atoms
class Poly:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = {m: c for m, c in t.items() if c}

    def key(self):
        return tuple(sorted(self.t.items(), key=repr))

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        return hash(frozenset(self.t.items()))

    def const(self):
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def __repr__(self):
        def m(mon):
            return "*".join(atom(a) + ("^%d" % k if k != 1 else "") for a, k in mon)
        def atom(a):
            return "%s(%s)" % (a[0], ", ".join(str(x) if not isinstance(x, tuple) else repr(Poly(dict(x))) for x in a[1:]))
        return " + ".join(sorted(("%s" % c if not mon else m(mon) if c == 1 else "%s*%s" % (c, m(mon))) for mon, c in self.t.items())) or "0"


def const(c):
    return Poly({(): Fraction(c)})


def sym(*a):
    return Poly({((tuple(a), 1),): Fraction(1)})


def padd(a, b, s=1):
    t = dict(a.t)
    for m, c in b.t.items():
        t[m] = t.get(m, 0) + s * c
    return Poly(t)


def pmul(a, b):
    if len(a.t) * len(b.t) > 200000:
        raise Lost("too large an expression")
    t = {}
    for m, c in a.t.items():
        for n, d in b.t.items():
            e = dict(m)
            for x, k in n:
                e[x] = e.get(x, 0) + k
            r = const(1)
            mm = []
            for x, k in e.items():
                if x[0] == "sqrt" and k >= 2:
                    q = Poly(dict(x[1]))
                    for _ in range(k // 2):
                        r = pmul(r, q)
                    k = k % 2
                if k:
                    mm.append((x, k))
            mm = tuple(sorted(mm, key=repr))
            if r.const() == 1:
                t[mm] = t.get(mm, 0) + c * d
            else:
                for m2, c2 in pmul(r, Poly({mm: c * d})).t.items():
                    t[m2] = t.get(m2, 0) + c2
    return Poly(t)


def pinv(a):
    c = a.const()
    if c is not None:
        if c == 0:
            raise Lost("division by zero")
        return const(1 / c)
    if len(a.t) == 1:
        (m, c), = a.t.items()
        if all(x[0] != "sqrt" or True for x, k in m):
            return Poly({tuple((x, -k) for x, k in m): 1 / c})
    return Poly({((("inv", a.key()), 1),): Fraction(1)})


def fun(name, *args):
    if name == "sqrt":
        c = args[0].const()
        if c is not None and c >= 0:
            import math
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return const(Fraction(n, d))
    v = [a.const() for a in args]
    if None not in v:
        if name in ("floor", "ceil", "fabs"):
            import math
            return const(Fraction({"floor": math.floor, "ceil": math.ceil, "fabs": abs}[name](v[0])))
        if name == "pow" and v[1].denominator == 1 and abs(v[1]) <= 64 and (v[0] or v[1] >= 0):
            return const(v[0] ** int(v[1]))
        if v[0] == 0 and name in ("exp", "cos", "sin"):
            return const(Fraction(0 if name == "sin" else 1))
    return Poly({((tuple([name] + [a.key() for a in args]), 1),): Fraction(1)})


def number(p, at):
    """the value of a polynomial for given values of the inputs; raises Lost for an unknown function"""
    import math
    r = 0.
    for m, c in p.t.items():
        x = float(c)
        for a, k in m:
            if any(isinstance(y, tuple) for y in a[1:]):
                y = [number(Poly(dict(b)), at) for b in a[1:] if isinstance(b, tuple)]
                f = {"sqrt": lambda v: math.sqrt(v) if v >= 0 else float("nan"), "inv": lambda v: 1 / v, "exp": math.exp, "cos": math.cos, "sin": math.sin, "log": math.log, "pow": math.pow,
                     "atan2": math.atan2, "fabs": abs, "tanh": math.tanh, "sinh": math.sinh, "cosh": math.cosh, "tan": math.tan, "carg": lambda u, v: math.atan2(v, u), "floor": math.floor, "ceil": math.ceil}.get(a[0])
                if f is None:
                    raise Lost("function " + str(a[0]))
                try:
                    v = f(*y)
                except (ValueError, OverflowError, ZeroDivisionError):
                    raise Lost("the value of " + a[0])
            else:
                v = at(a)
            x *= v ** k
        r += x
    return r


def equal(p, q):
    """True: the same for all inputs; False: they differ for some; None: not known"""
    if p == q:
        return True
    import random
    for seed in range(6):
        mem = {}
        rnd = random.Random(seed)
        at = lambda a: mem.setdefault(a, rnd.uniform(-2, 2))
        try:
            x, y = number(p, at), number(q, at)
        except (Lost, TypeError, OverflowError):
            return None
        if not abs(x - y) <= 1e-8 * max(1, abs(x), abs(y)):
            return False
    return True


# ---------------------------------------------------------------- reading the text
TOK = re.compile(r'"[^"]*"|c"[^"]*"|[%@]"[^"]*"|[%@$!#][\w.$-]*|-?0x[0-9A-Fa-f]+|-?\d+\.\d+e[+-]\d+|-?\d+|[\w.]+|[()\[\]{}<>,=*:]|\.\.\.')


def toks(s):
    return TOK.findall(s)


class Module:
    def __init__(self, text):
        self.types, self.globals, self.fns, self.decl = {}, {}, {}, set()
        lines = text.split("\n")
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith("%") and " = type " in l:
                n, r = l.split(" = type ", 1)
                self.types[n] = r
            elif l.startswith("@") and " = " in l:
                n, r = l.split(" = ", 1)
                self.globals[n.strip()] = r
            elif l.startswith("define"):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                f = Fn(self, l, lines[i + 1:j])
                self.fns[f.name] = f
                i = j
            elif l.startswith("declare"):
                m = re.search(r'@("[^"]*"|[\w.$]+)\(', l)
                self.decl.add("@" + m.group(1))
            i += 1
        self._lay = {}
        self._parsed = {}

    # -- types -----------------------------------------------------------------------------------
    def ptype(self, t, i):
        """parse a type at t[i] -> (type, next)"""
        x = t[i]
        if x == "<":
            if t[i + 1] == "{":
                ty, j = self.ptype(t, i + 1)
                return ("pstruct", ty[1]), j + 1
            n = int(t[i + 1])
            ty, j = self.ptype(t, i + 3)
            return ("array", n, ty), j + 1
        if x == "[":
            n = int(t[i + 1])
            ty, j = self.ptype(t, i + 3)
            return ("array", n, ty), j + 1
        if x == "{":
            L = []
            j = i + 1
            while t[j] != "}":
                if t[j] == ",":
                    j += 1
                    continue
                ty, j = self.ptype(t, j)
                L.append(ty)
            return ("struct", tuple(L)), j + 1
        if x.startswith("%"):
            return ("named", x), i + 1
        return ("prim", x), i + 1

    def typ(self, s):
        return self.ptype(toks(s), 0)[0]

    def lay(self, ty):
        """-> (size, align)"""
        if ty in self._lay:
            return self._lay[ty]
        k = ty[0]
        if k == "prim":
            n = ty[1]
            if n == "ptr":
                r = (8, 8)
            elif n == "double":
                r = (8, 8)
            elif n == "float":
                r = (4, 4)
            elif n == "x86_fp80":
                r = (16, 16)
            elif n.startswith("i"):
                b = (int(n[1:]) + 7) // 8
                s = 1
                while s < b:
                    s *= 2
                r = (s, min(s, 16))
            else:
                raise Lost("type " + n)
        elif k == "array":
            s, a = self.lay(ty[2])
            r = (s * ty[1], a)
        elif k in ("struct", "pstruct"):
            r = self.offsets(ty)[1:]
        else:
            r = self.lay(self.named(ty))
        self._lay[ty] = r
        return r

    def named(self, ty):
        while ty[0] == "named":
            ty = self.typ(self.types[ty[1]])
        return ty

    def offsets(self, ty):
        o, al, L = 0, 1, []
        for x in ty[1]:
            s, a = self.lay(x)
            if ty[0] == "pstruct":
                a = 1
            o = (o + a - 1) // a * a
            L.append(o)
            o += s
            al = max(al, a)
        return L, (o + al - 1) // al * al, al

    def gep(self, ty, idx):
        off = idx[0] * self.lay(ty)[0]
        for k in idx[1:]:
            ty = self.named(ty)
            if ty[0] == "array":
                ty = ty[2]
                off += k * self.lay(ty)[0]
            else:
                off += self.offsets(ty)[0][k]
                ty = ty[1][k]
        return off


class Fn:
    def __init__(self, mod, head, body):
        m = re.search(r'@("[^"]*"|[\w.$]+)\(', head)
        self.name = "@" + m.group(1)
        self.mod = mod
        rest = head[m.end():]
        d, k = 1, 0
        while d:
            d += {"(": 1, ")": -1}.get(rest[k], 0)
            k += 1
        t = toks(rest[:k - 1])
        self.params = []
        d = 0
        for a, b in zip(t, t[1:] + [","]):
            if a in "([{<":
                d += 1
            elif a in ")]}>":
                d -= 1
            elif a.startswith("%") and b == "," and d == 0:
                self.params.append(a)
        self.n_args = len(self.params)
        self.blocks, self.entry = {}, None
        cur = None
        for l in body:
            if not l.strip():
                continue
            m = re.match(r'^("[^"]*"|[\w.$-]+):', l)
            if m:
                cur = "%" + m.group(1)
                self.blocks[cur] = []
                if self.entry is None:
                    self.entry = cur
                continue
            if cur is None:
                cur = self.entry = "%<entry>"
                self.blocks[cur] = []
            l = l.strip()
            # metadata is of no interest
            p = re.search(r", !\w", l)
            if p and "metadata" not in l:
                l = l[:p.start()]
            if self.blocks[cur] and (l.startswith("]") or (self.blocks[cur][-1].startswith("switch") and not self.blocks[cur][-1].endswith("]"))):
                self.blocks[cur][-1] += " " + l
            else:
                self.blocks[cur].append(l)


NOARG = {"noundef", "nonnull", "zeroext", "signext", "noalias", "nocapture", "readonly", "writeonly", "readnone", "returned", "immarg", "nofpclass", "dereferenceable", "align", "nan", "inf", "inreg", "dead_on_unwind",
         "writable", "sret", "byval", "dereferenceable_or_null", "range", "initializes", "captures", "allocptr", "noext", "allocalign"}
FLAGS = {"nuw", "nsw", "exact", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast", "inbounds", "disjoint", "nneg", "volatile", "atomic", "samesign"}


def bits(ty):
    return int(ty[1][1:]) if ty[0] == "prim" and re.fullmatch(r"i\d+", ty[1]) else None


def wrap(v, n):
    v &= (1 << n) - 1
    return v - (1 << n) if n > 1 and v >> (n - 1) else v


class Ptr:
    __slots__ = ("o", "k")

    def __init__(self, o, k=0):
        self.o, self.k = o, k

    def __eq__(self, p):
        return isinstance(p, Ptr) and self.o == p.o and self.k == p.k

    def __hash__(self):
        return hash((self.o, self.k))

    def __repr__(self):
        return "&%s+%d" % (self.o, self.k)


NULL = Ptr(None)
UNDEF = "undef"
INTCMP = {"eq", "ne", "ugt", "uge", "ult", "ule", "sgt", "sge", "slt", "sle"}


class Flow:
    """follows one function; calls of undefined functions are recorded in self.calls (name, arguments)"""

    def __init__(self, mod, inputs=(), sinks=(), budget=400000):
        self.m, self.inputs, self.sinks, self.calls, self.budget = mod, set(inputs), set(sinks), [], budget
        self.mem = {}
        self.size = {}
        self.n = 0
        self.freed = set()
        self.foreign = set()  # objects whose contents are not known
        self.partly = False  # something was lost because it was written, or read, in part

    def run(self, name, args=()):
        f = self.m.fns.get("@" + name)
        if f is None:
            raise Lost("no function " + name)
        return self.call(f, list(args))

    def new(self, tag, size=None):
        self.n += 1
        o = "%s#%d" % (tag, self.n)
        self.mem[o] = {}
        self.size[o] = size
        return Ptr(o)

    # -- memory ----------------------------------------------------------------------------------
    def obj(self, p):
        if not isinstance(p, Ptr) or p.o is None:
            raise Lost("memory at an unknown address %s" % (p,))
        if p.o in self.freed:
            raise Fault("memory already freed is used")
        if p.o not in self.mem:
            self.mem[p.o] = {}
            self.init_global(p.o)
        return self.mem[p.o]

    def init_global(self, g):
        r = self.m.globals.get(g)
        if r is None:
            raise Lost("global " + str(g))
        m = re.search(r"\b(global|constant) ", r)
        if r.startswith("external") or not m:
            if g == "@__libc_single_threaded":
                self.mem[g][0] = (1, 1)
            self.foreign.add(g)
            return
        t = toks(r[m.end():])
        ty, i = self.m.ptype(t, 0)
        self.size[g] = self.m.lay(ty)[0]
        try:
            v, _ = self.value(t, i, ty, {})
        except (Lost, IndexError, ValueError):
            self.foreign.add(g)
            return
        self.put(g, 0, ty, v)

    def put(self, o, off, ty, v):
        ty = self.m.named(ty)
        M = self.mem[o]
        if ty[0] == "array":
            s = self.m.lay(ty[2])[0]
            for k in range(ty[1]):
                self.put(o, off + k * s, ty[2], v[k] if isinstance(v, (list, tuple)) else v)
            return
        if ty[0] in ("struct", "pstruct"):
            for k, (x, d) in enumerate(zip(ty[1], self.m.offsets(ty)[0])):
                self.put(o, off + d, x, v[k] if isinstance(v, (list, tuple)) else v)
            return
        s = self.m.lay(ty)[0]
        self.clear(M, off, s)
        if v == UNDEF:
            return
        M[off] = (s, v)

    def clear(self, M, off, s):
        for k in [k for k in M if k < off + s and off < k + M[k][0]]:
            z, v = M[k]
            if k >= off and k + z <= off + s:
                del M[k]
            elif v == 0 and not isinstance(v, Ptr):
                del M[k]
                if k < off:
                    M[k] = (off - k, 0)
                if k + z > off + s:
                    M[off + s] = (k + z - off - s, 0)
            else:
                del M[k]
                self.partly = True

    def within(self, p, n):
        s = self.size.get(p.o)
        if s is not None and (p.k < 0 or p.k + n > s):
            raise Fault("memory outside of the array is accessed (bytes %d to %d of %d)" % (p.k, p.k + n - 1, s))

    def get(self, p, ty):
        M = self.obj(p)
        self.within(p, self.m.lay(ty)[0])
        ty = self.m.named(ty)
        if ty[0] == "array":
            s = self.m.lay(ty[2])[0]
            return [self.get(Ptr(p.o, p.k + k * s), ty[2]) for k in range(ty[1])]
        if ty[0] in ("struct", "pstruct"):
            return [self.get(Ptr(p.o, p.k + d), x) for x, d in zip(ty[1], self.m.offsets(ty)[0])]
        s = self.m.lay(ty)[0]
        c = M.get(p.k)
        if c is not None and c[0] == s:
            return self.as_type(c[1], ty)
        for k, (z, v) in M.items():
            if k <= p.k and p.k + s <= k + z and v == 0 and not isinstance(v, (Ptr, Poly)):
                return self.as_type(0, ty)
            if k <= p.k and p.k + s <= k + z and isinstance(v, int):
                return self.as_type(wrap((v >> (8 * (p.k - k))) & ((1 << (8 * s)) - 1), 8 * s), ty)
        cov = [(k, M[k]) for k in sorted(M) if p.k <= k and k + M[k][0] <= p.k + s]
        if cov and sum(z for _, (z, _) in cov) == s:
            if all(isinstance(v, int) for _, (_, v) in cov):
                r = 0
                for k, (z, v) in cov:
                    r |= (v & ((1 << 8 * z) - 1)) << (8 * (k - p.k))
                return self.as_type(wrap(r, 8 * s), ty)
            return ("cells", tuple((k - p.k, z, v) for k, (z, v) in cov))
        if p.o in self.foreign:
            raise Lost("the contents of " + str(p.o))
        if any(k < p.k + s and p.k < k + z for k, (z, v) in M.items()):
            self.partly = True
        return UNDEF

    def as_type(self, v, ty):
        if ty == ("prim", "double"):
            if isinstance(v, int):
                f = struct.unpack("<d", struct.pack("<q", wrap(v, 64)))[0]
                return const(Fraction(f)) if f == f and abs(f) != float("inf") else UNDEF
            return v
        if ty == ("prim", "ptr"):
            return NULL if v == 0 and not isinstance(v, Ptr) else v
        if bits(ty) and isinstance(v, Poly):
            c = v.const()
            if c is not None:
                return struct.unpack("<q", struct.pack("<d", float(c)))[0]
        if bits(ty) and v == NULL:
            return 0
        return v

    def copy(self, d, s, n):
        if n == 0:
            return
        S = self.obj(s)
        self.within(s, n)
        cells = []
        for k in sorted(S):
            z, v = S[k]
            a, b = max(k, s.k), min(k + z, s.k + n)
            if a < b:
                if a == k and b == k + z:
                    cells.append((a - s.k, z, v))
                elif v == 0 and not isinstance(v, (Ptr, Poly)):
                    cells.append((a - s.k, b - a, 0))
        D = self.obj(d)
        self.within(d, n)
        self.clear(D, d.k, n)
        for o, z, v in cells:
            D[d.k + o] = (z, v)

    # -- operands ----------------------------------------------------------------------------------
    def value(self, t, i, ty, env):
        x = t[i]
        if x.startswith("%"):
            if x not in env:
                raise Lost("value " + x)
            return env[x], i + 1
        if x.startswith("@"):
            return Ptr(x), i + 1
        if x in ("zeroinitializer", "null", "false", "none"):
            ty = self.m.named(ty)
            if ty[0] in ("array", "struct", "pstruct"):
                return 0, i + 1
            return (NULL if ty == ("prim", "ptr") else const(0) if ty == ("prim", "double") else 0), i + 1
        if x == "true":
            return 1, i + 1
        if x in ("undef", "poison"):
            return UNDEF, i + 1
        if x == "getelementptr":
            j = i + 1
            while t[j] in FLAGS:
                j += 1
            j += 1
            gt, j = self.m.ptype(t, j)
            idx, base = [], None
            while t[j] == ",":
                j += 1
                while t[j] == "inrange" or t[j] in FLAGS:
                    j += 1
                vt, j = self.m.ptype(t, j)
                v, j = self.value(t, j, vt, env)
                if base is None:
                    base = v
                else:
                    idx.append(v)
            return Ptr(base.o, base.k + self.m.gep(gt, idx)), j + 1
        if x in ("ptrtoint", "inttoptr", "trunc", "bitcast", "addrspacecast"):
            vt, j = self.m.ptype(t, i + 2)
            v, j = self.value(t, j, vt, env)
            while t[j] != ")":
                j += 1
            return v, j + 1
        if x in "[{<" :
            close = {"[": "]", "{": "}", "<": ">"}[x]
            L = []
            j = i + 1
            inner = False
            if x == "<" and t[j] == "{":
                inner = True
                j += 1
                close = "}"
            while t[j] != close:
                if t[j] == ",":
                    j += 1
                    continue
                et, j = self.m.ptype(t, j)
                v, j = self.value(t, j, et, env)
                L.append(v)
            return L, j + (2 if inner else 1)
        if ty == ("prim", "double"):
            if x.startswith("0x"):
                return const(Fraction(struct.unpack(">d", bytes.fromhex(x[2:].rjust(16, "0")))[0])), i + 1
            return const(Fraction(float(x))), i + 1
        if re.fullmatch(r"-?\d+", x):
            return int(x), i + 1
        raise Lost("operand " + x)

    def tv(self, t, i, env):
        """typed value"""
        ty, i = self.m.ptype(t, i)
        while t[i] in NOARG or t[i] == "(" :
            if t[i] == "(":
                while t[i] != ")":
                    i += 1
            elif t[i] == "align":
                i += 1
            i += 1
        v, i = self.value(t, i, ty, env)
        return ty, v, i

    # -- evaluation ----------------------------------------------------------------------------------
    def call(self, f, args, depth=0):
        if depth > 60:
            raise Lost("too deep")
        env = dict(zip(f.params, args))
        b, prev = f.entry, None
        while True:
            L = f.blocks[b]
            phis = {}
            for s in L:
                if " = phi " not in s:
                    break
                d, r = s.split(" = phi ", 1)
                t = toks(r)
                k = 0
                while t[k] in FLAGS:
                    k += 1
                ty, k = self.m.ptype(t, k)
                got = None
                while k < len(t):
                    if t[k] == "[":
                        # [ value, label ]
                        e = k
                        dd = 0
                        while True:
                            dd += {"[": 1, "]": -1}.get(t[e], 0)
                            if dd == 0:
                                break
                            e += 1
                        if t[e - 1] == prev:
                            got, _ = self.value(t, k + 1, ty, env)
                            break
                        k = e
                    k += 1
                phis[d] = got
            env.update(phis)
            nxt = None
            for s in L:
                if " = phi " in s:
                    continue
                self.budget -= 1
                if self.budget < 0:
                    raise Lost("too long")
                try:
                    r = self.step(f, s, env, depth)
                except Lost as x:
                    if "[" not in str(x):
                        raise Lost("%s [%s in %s]" % (x, s[:160], f.name[:80]))
                    raise
                if r is not None:
                    if r[0] == "ret":
                        return r[1]
                    nxt = r[1]
                    break
            if nxt is None:
                raise Lost("no end of the block in " + f.name)
            prev, b = b, nxt
            if prev == "%<entry>":
                prev = "%" + str(f.n_args)

    def step(self, f, s, env, depth):
        m = re.match(r'^(%(?:"[^"]*"|[\w.$-]+)) = (.*)$', s)
        d, r = (m.group(1), m.group(2)) if m else (None, s)
        t = toks(r)
        op = t[0]
        while op in ("tail", "musttail", "notail"):
            t = t[1:]
            op = t[0]
        k = 1
        while k < len(t) and t[k] in FLAGS:
            k += 1
        if op == "ret":
            if t[1] == "void":
                return ("ret", None)
            return ("ret", self.tv(t, 1, env)[1])
        if op == "br":
            if t[1] == "label":
                return ("br", t[2])
            c, i = self.value(t, 2, ("prim", "i1"), env)
            if (c == UNDEF or isinstance(c, tuple) and len(c) == 4 and c[0] == "cond" and UNDEF in (c[2], c[3]) and c[1] in INTCMP) and not self.partly:
                raise Fault("which way to go depends on a value that was never set (in %s)" % f.name)
            if not isinstance(c, int):
                raise Lost("a branch on an input in %s: %s" % (f.name, c))
            return ("br", t[i + 2] if c & 1 else t[i + 5])
        if op == "switch":
            ty, v, i = self.tv(t, 1, env)
            if not isinstance(v, int):
                raise Lost("a switch on an input")
            to = t[i + 2]
            i += 4
            while t[i] != "]":
                _, c, i = self.tv(t, i, env)
                if wrap(c, 64) == wrap(v, 64):
                    to = t[i + 2]
                i += 3
            return ("br", to)
        if op == "unreachable":
            raise Lost("a point never reached")
        if op == "alloca":
            ty, i = self.m.ptype(t, k)
            env[d] = self.new("local", self.m.lay(ty)[0])
            return
        if op == "load":
            ty, i = self.m.ptype(t, k)
            _, p, i = self.tv(t, i + 1, env)
            env[d] = self.get(p, ty)
            return
        if op == "store":
            ty, v, i = self.tv(t, k, env)
            _, p, i = self.tv(t, i + 1, env)
            self.obj(p)
            self.within(p, self.m.lay(ty)[0])
            if isinstance(v, tuple) and v and v[0] == "cells":
                self.clear(self.mem[p.o], p.k, self.m.lay(ty)[0])
                for o, z, x in v[1]:
                    self.mem[p.o][p.k + o] = (z, x)
            else:
                self.put(p.o, p.k, ty, v)
            return
        if op == "getelementptr":
            gt, i = self.m.ptype(t, k)
            base, idx = None, []
            while i < len(t) and t[i] == ",":
                ty, v, i = self.tv(t, i + 1, env)
                if base is None:
                    base = v
                else:
                    idx.append(v)
            if not isinstance(base, Ptr) or not all(isinstance(x, int) for x in idx):
                raise Lost("an address depending on an input")
            env[d] = Ptr(base.o, base.k + self.m.gep(gt, idx))
            return
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            ty, a, i = self.tv(t, k, env)
            b, i = self.value(t, i + 1, ty, env)
            env[d] = self.iop(op, a, b, ty)
            return
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            ty, a, i = self.tv(t, k, env)
            b, i = self.value(t, i + 1, ty, env)
            env[d] = self.each(lambda x, y: self.fop(op, x, y), a, b)
            return
        if op == "fneg":
            ty, a, i = self.tv(t, k, env)
            env[d] = self.each(lambda x: padd(const(0), self.d(x), -1), a)
            return
        if op == "icmp":
            pred = t[k]
            ty, a, i = self.tv(t, k + 1, env)
            b, i = self.value(t, i + 1, ty, env)
            env[d] = self.icmp(pred, a, b, ty)
            return
        if op == "fcmp":
            pred = t[k]
            ty, a, i = self.tv(t, k + 1, env)
            b, i = self.value(t, i + 1, ty, env)
            x = padd(self.d(a), self.d(b), -1).const() if a != UNDEF and b != UNDEF else None
            if x is None:
                env[d] = ("cond", "f" + pred, a, b)
                if pred == "uno":
                    env[d] = 0
                elif pred == "ord":
                    env[d] = 1
                return
            env[d] = int({"eq": x == 0, "ne": x != 0, "lt": x < 0, "gt": x > 0, "le": x <= 0, "ge": x >= 0, "rd": True, "no": False}[pred[1:]])
            return
        if op in ("zext", "sext", "trunc"):
            ty, a, i = self.tv(t, k, env)
            to, _ = self.m.ptype(t, i + 1)
            if not isinstance(a, int):
                env[d] = a
                return
            n = bits(ty)
            a = a & ((1 << n) - 1) if op == "zext" else wrap(a, n) if n > 1 else (-(a & 1) if op == "sext" else a & 1)
            env[d] = wrap(a, bits(to)) if bits(to) > 1 else a & 1
            return
        if op in ("sitofp", "uitofp"):
            ty, a, i = self.tv(t, k, env)
            if not isinstance(a, int):
                raise Lost("number")
            if op == "uitofp":
                a &= (1 << bits(ty)) - 1
            env[d] = const(a)
            return
        if op in ("fptosi", "fptoui"):
            ty, a, i = self.tv(t, k, env)
            c = self.d(a).const()
            if c is None:
                raise Lost("an integer from an input")
            env[d] = int(c)
            return
        if op in ("bitcast", "freeze", "ptrtoint", "inttoptr", "fpext", "fptrunc"):
            ty, a, i = self.tv(t, k, env)
            env[d] = a
            if op == "bitcast":
                to, _ = self.m.ptype(t, i + 1)
                env[d] = self.as_type(a, to)
            return
        if op == "select":
            ty, c, i = self.tv(t, k, env)
            ty, a, i = self.tv(t, i + 1, env)
            ty, b, i = self.tv(t, i + 1, env)
            if isinstance(c, int):
                env[d] = a if c & 1 else b
            elif a == b:
                env[d] = a
            else:
                env[d] = ("select", c, a, b)
            return
        if op == "extractvalue":
            ty, a, i = self.tv(t, k, env)
            for x in t[i:]:
                if x != ",":
                    a = a[int(x)] if isinstance(a, (list, tuple)) else a
            env[d] = a
            return
        if op == "insertvalue":
            ty, a, i = self.tv(t, k, env)
            _, v, i = self.tv(t, i + 1, env)
            n = self.m.named(ty)
            env[d] = self.insert(a, n, v, [int(x) for x in t[i:] if x != ","])
            return
        if op == "extractelement":
            ty, a, i = self.tv(t, k, env)
            _, n, i = self.tv(t, i + 1, env)
            env[d] = a[n] if isinstance(a, list) else a
            return
        if op == "insertelement":
            ty, a, i = self.tv(t, k, env)
            _, v, i = self.tv(t, i + 1, env)
            _, n, i = self.tv(t, i + 1, env)
            a = list(a) if isinstance(a, list) else [a if a == UNDEF else const(0)] * ty[1]
            a[n] = v
            env[d] = a
            return
        if op == "shufflevector":
            ty, a, i = self.tv(t, k, env)
            ty, b, i = self.tv(t, i + 1, env)
            _, mask, i = self.tv(t, i + 1, env)
            n = ty[1]
            a = a if isinstance(a, list) else [a] * n
            b = b if isinstance(b, list) else [b] * n
            if not isinstance(mask, list):
                mask = [0]
            env[d] = [UNDEF if x == UNDEF else (a + b)[x] for x in mask]
            return
        if op in ("call", "invoke"):
            r = self.docall(t, k, env, depth)
            if d:
                env[d] = r
            if op == "invoke":
                raise Lost("invoke")
            return
        if op == "fence":
            return
        if op == "atomicrmw":
            while t[k] in FLAGS:
                k += 1
            o = t[k]
            _, p, i = self.tv(t, k + 1, env)
            ty, v, i = self.tv(t, i + 1, env)
            old = self.get(p, ty)
            env[d] = old
            self.put(p.o, p.k, ty, self.iop(o, old, v, ty))
            return
        raise Lost("instruction " + op)

    def insert(self, a, ty, v, at):
        n = len(ty[1]) if ty[0] != "array" else ty[1]
        L = list(a) if isinstance(a, list) else [a] * n
        if len(at) == 1:
            L[at[0]] = v
        else:
            L[at[0]] = self.insert(L[at[0]], self.m.named(ty[1][at[0]] if ty[0] != "array" else ty[2]), v, at[1:])
        return L

    def d(self, x):
        if isinstance(x, Poly):
            return x
        if isinstance(x, int):
            return self.as_type(x, ("prim", "double"))
        if isinstance(x, tuple) and x and x[0] == "select":
            return Poly({((("select", repr(x[1]), self.d(x[2]).key(), self.d(x[3]).key()), 1),): Fraction(1)})
        raise Lost("a number that was never set" if x == UNDEF else "number %s" % (x,))

    def each(self, fn, *a):
        if any(isinstance(x, list) for x in a):
            n = max(len(x) for x in a if isinstance(x, list))
            return [fn(*[x[k] if isinstance(x, list) else x for x in a]) for k in range(n)]
        if all(x == UNDEF for x in a):
            return UNDEF
        return fn(*a)

    def fop(self, op, a, b):
        a, b = self.d(a), self.d(b)
        if op == "fadd":
            return padd(a, b)
        if op == "fsub":
            return padd(a, b, -1)
        if op == "fmul":
            return pmul(a, b)
        return pmul(a, pinv(b))

    def iop(self, op, a, b, ty):
        if isinstance(a, Ptr) and isinstance(b, int) and op in ("add", "sub"):
            return Ptr(a.o, a.k + (b if op == "add" else -b))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == "sub" and a.o == b.o:
            return a.k - b.k
        if a == UNDEF or b == UNDEF:
            return UNDEF
        # every object begins at a multiple of 64
        if isinstance(a, Ptr) and op == "and" and isinstance(b, int) and 0 <= b < 64:
            return a.k & b
        if isinstance(a, Ptr) and op in ("srem", "urem") and b in (2, 4, 8, 16, 32, 64):
            return a.k % b
        n = bits(ty)
        if n == 1 and op in ("and", "or") and (isinstance(a, int) or isinstance(b, int)):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, int) and (x & 1) == (0 if op == "and" else 1):
                    return x & 1
                if isinstance(x, int) and not isinstance(y, int):
                    return y
        if not isinstance(a, int) or not isinstance(b, int):
            if n == 1:
                return ("cond", op, a, b)
            raise Lost("integer arithmetic with an input")
        ua, ub = a & ((1 << n) - 1), b & ((1 << n) - 1)
        if op in ("udiv", "sdiv", "urem", "srem") and ub == 0:
            raise Lost("integer division by zero")
        if op == "add":
            r = a + b
        elif op == "sub":
            r = a - b
        elif op == "mul":
            r = a * b
        elif op == "and":
            r = ua & ub
        elif op == "or":
            r = ua | ub
        elif op == "xor":
            r = ua ^ ub
        elif op == "shl":
            r = ua << ub
        elif op == "lshr":
            r = ua >> ub
        elif op == "ashr":
            r = wrap(a, n) >> ub
        elif op == "udiv":
            r = ua // ub
        elif op == "urem":
            r = ua % ub
        elif op == "sdiv":
            r = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        else:
            r = abs(a) % abs(b) * (-1 if a < 0 else 1)
        return wrap(r, n) if n > 1 else r & 1

    def icmp(self, p, a, b, ty):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if a == UNDEF or b == UNDEF:
                raise Lost("an address never set")
            if not isinstance(a, Ptr):
                a = NULL
            if not isinstance(b, Ptr):
                b = NULL
            if p in ("eq", "ne"):
                return int((a == b) == (p == "eq"))
            if a.o == b.o:
                a, b = a.k, b.k
            else:
                raise Lost("comparison of addresses")
        if not isinstance(a, int) or not isinstance(b, int):
            return ("cond", p, a, b)
        n = bits(ty) or 64
        if p[0] == "u":
            a, b = a & ((1 << n) - 1), b & ((1 << n) - 1)
        elif n > 1:
            a, b = wrap(a, n), wrap(b, n)
        else:
            a, b = a & 1, b & 1
        return int({"eq": a == b, "ne": a != b, "lt": a < b, "gt": a > b, "le": a <= b, "ge": a >= b}[p if p in ("eq", "ne") else p[1:]])

    def docall(self, t, k, env, depth):
        while t[k] in NOARG or t[k] in FLAGS or t[k] in ("fastcc", "ccc", "cc", "#"):
            if t[k] in ("dereferenceable", "nofpclass", "dereferenceable_or_null", "range"):
                while t[k] != ")":
                    k += 1
            elif t[k] == "align":
                k += 1
            k += 1
        if t[k] == "void":
            ty, k = ("prim", "void"), k + 1
        else:
            ty, k = self.m.ptype(t, k)
        if t[k] == "(":  # the type of a function with variable arguments
            while t[k] != ")":
                k += 1
            k += 1
        if t[k] == "asm":
            raise Lost("assembly")
        c = t[k]
        if c.startswith("%"):
            p = env.get(c)
            if not isinstance(p, Ptr) or p.o is None:
                raise Lost("a call of an unknown function")
            c = p.o
        k += 2
        args = []
        if c.startswith(("@llvm.lifetime", "@llvm.experimental", "@llvm.assume", "@llvm.dbg", "@llvm.invariant")):
            return None
        while t[k] != ")":
            if t[k] == ",":
                k += 1
                continue
            _, v, k = self.tv(t, k, env)
            args.append(v)
        return self.apply(c, args, ty, depth)

    def apply(self, c, args, ty, depth):
        n = c[1:]
        if n.startswith("llvm."):
            b = n[5:]
            if b.startswith("memcpy") or b.startswith("memmove"):
                self.copy(args[0], args[1], args[2])
                return None
            if b.startswith("memset"):
                M = self.obj(args[0])
                self.clear(M, args[0].k, args[2])
                if args[1] == 0 and args[2]:
                    M[args[0].k] = (args[2], 0)
                elif args[2]:
                    for q in range(args[2]):
                        M[args[0].k + q] = (1, args[1])
                return None
            if b.startswith(("launder", "strip", "ptrmask")):
                return args[0]
            if b.startswith(("sqrt", "exp", "cos", "sin", "log", "pow", "fabs", "floor", "ceil", "round")):
                return self.each(lambda *x: fun(b.split(".")[0], *[self.d(y) for y in x]), *args)
            if b.startswith(("fma", "fmuladd")):
                return padd(pmul(self.d(args[0]), self.d(args[1])), self.d(args[2]))
            mm = re.match(r"(smax|smin|umax|umin)\.", b)
            if mm and all(isinstance(x, int) for x in args):
                u = [x & ((1 << 64) - 1) for x in args]
                return {"smax": max(args), "smin": min(args), "umax": args[u.index(max(u))], "umin": args[u.index(min(u))]}[mm.group(1)]
            if b.startswith("abs.") and isinstance(args[0], int):
                return abs(args[0])
            mm = re.match(r"(u|s)(mul|add|sub)\.with\.overflow", b)
            if mm and all(isinstance(x, int) for x in args[:2]):
                r = {"mul": args[0] * args[1], "add": args[0] + args[1], "sub": args[0] - args[1]}[mm.group(2)]
                return [r, 0]
            if b.startswith("vector.reduce") or b.startswith("is.constant"):
                raise Lost(n)
            raise Lost("intrinsic " + n)
        if n in ("_Znwm", "_Znam", "malloc"):
            return self.new("heap", args[0] if isinstance(args[0], int) else None)
        if n in ("_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free"):
            if isinstance(args[0], Ptr) and args[0].o is not None:
                self.freed.add(args[0].o)
            return None
        if n in self.inputs:
            return sym(n, *[x if isinstance(x, int) else ("?",) for x in args])
        if n in ("hypot", "cabs"):
            x, y = self.d(args[0]), self.d(args[1])
            return fun("sqrt", padd(pmul(x, x), pmul(y, y)))
        if n in ("sqrt", "exp", "cos", "sin", "log", "pow", "atan2", "fabs", "carg", "tanh", "sinh", "cosh", "tan", "floor", "ceil"):
            return fun(n, *[self.d(x) for x in args])
        if n == "cexp":
            e, x = fun("exp", self.d(args[0])), self.d(args[1])
            return [pmul(e, fun("cos", x)), pmul(e, fun("sin", x))]
        if n == "__muldc3":
            a, b, x, y = map(self.d, args)
            return [padd(pmul(a, x), pmul(b, y), -1), padd(pmul(a, y), pmul(b, x))]
        if n == "__divdc3":
            a, b, x, y = map(self.d, args)
            q = pinv(padd(pmul(x, x), pmul(y, y)))
            return [pmul(padd(pmul(a, x), pmul(b, y)), q), pmul(padd(pmul(b, x), pmul(a, y), -1), q)]
        if c in self.m.fns:
            return self.call(self.m.fns[c], args, depth + 1)
        if n in ("__cxa_allocate_exception",):
            raise Thrown()
        if n.startswith("_ZSt") and "__throw" in n or n.startswith("__cxa_throw"):
            raise Thrown()
        if n == "memcmp" or n == "bcmp":
            raise Lost(n)
        if n in ("gsl_pow_2", "gsl_pow_3"):
            x = self.d(args[0])
            return pmul(x, x) if n == "gsl_pow_2" else pmul(x, pmul(x, x))
        if n == "__dynamic_cast":
            return self.cast(args)
        if n not in self.sinks:
            raise Lost("the undefined function " + n)
        self.calls.append((n, args))
        return None if ty == ("prim", "void") else UNDEF

    def cast(self, args):
        """the dynamic type is the one whose table of virtual functions the object points to"""
        p, _, to = args[:3]
        v = self.get(p, ("prim", "ptr"))
        ti = self.get(Ptr(v.o, v.k - 8), ("prim", "ptr"))
        top = self.get(Ptr(v.o, v.k - 16), ("prim", "ptr"))
        top = top if isinstance(top, int) else 0 if top == NULL else top.k
        if ti == to:
            return Ptr(p.o, p.k + top)
        at = set()
        todo, n = [(ti.o, 0, True)], 0
        while todo:
            x, off, plain = todo.pop()
            n += 1
            if n > 2000:
                raise Lost("the bases of " + ti.o)
            if x == to.o:
                at.add((off, plain))
            r = self.m.globals.get(x, "")
            pairs = re.findall(r"ptr (@_ZTI[\w$.]+|@\"_ZTI[^\"]*\"), i64 (-?\d+)", r)
            if pairs:
                for b, fl in pairs:
                    fl = int(fl)
                    todo.append((b, off + (fl >> 8), plain and not fl & 1))
            else:
                for b in re.findall(r"@_ZTI[\w$.]+|@\"_ZTI[^\"]*\"", r):
                    todo.append((b, off, plain))
        if not at:
            return NULL
        if len(at) > 1 or not list(at)[0][1]:
            raise Lost("a cast to a base that is virtual, or there twice")
        return Ptr(p.o, p.k + top + list(at)[0][0])


class Thrown(Exception):
    pass


def follow(mod, name, inputs=(), sinks=(), **kw):
    """-> (calls, how) with how in ("end", "throw", message)"""
    F = Flow(mod, inputs, sinks, **kw)
    try:
        F.run(name)
        return F, "end"
    except Thrown:
        return F, "throw"
    except Fault as x:
        return F, "fault: %s" % x
    except Lost as x:
        return F, "lost: %s" % x
    except (KeyError, IndexError, ValueError, TypeError, AttributeError) as x:
        import traceback
        return F, "lost: %r %s" % (x, traceback.format_exc()[-300:])
