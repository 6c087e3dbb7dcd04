"""Path-sensitive, interprocedural abstract interpreter over the extracted program (no execution, no solver).

Every path through an entry function (callees of the repository inlined, so wrappers and helpers are transparent) is
followed over an abstract store: places hold value numbers (terms); branch conditions become facts about terms; effects
(calls, lock operations, atomic accesses, writes to non-local storage, constructions/destructions) are recorded in order.
Rules are predicates over the resulting (trace, facts, final store, outcome) tuples.
"""
import re
from db import strip_targs, CheckError

INT = {"bool": (1, False), "char": (8, True), "signed char": (8, True), "unsigned char": (8, False), "short": (16, True), "unsigned short": (16, False),
       "int": (32, True), "unsigned int": (32, False), "long": (64, True), "unsigned long": (64, False), "long long": (64, True), "unsigned long long": (64, False),
       "wchar_t": (32, True), "char16_t": (16, False), "char32_t": (32, False), "__int128": (128, True), "unsigned __int128": (128, False)}
SCALARS = set(INT) | {"float", "double", "long double", "void", "std::nullptr_t", "nullptr_t", "std::byte", "std::memory_order", "std::align_val_t", "std::errc", "std::launch", "std::cv_status"}


class Limit(Exception):
    pass


def C(n):
    return ("c", int(n))


TRUE, FALSE, NULL, VOID = C(1), C(0), ("null",), ("void",)


def isc(t):
    return t[0] == "c"


def notc(t):
    return t[0] not in ("c",)


def base_type(t):
    t = t.strip()
    for p in ("const ", "volatile "):
        while t.startswith(p):
            t = t[len(p):]
    while True:
        u = t.rstrip()
        for suf in (" const", " volatile"):
            if u.endswith(suf):
                u = u[: -len(suf)]
        if u.endswith("&&"):
            u = u[:-2].rstrip()
        elif u.endswith("&"):
            u = u[:-1].rstrip()
        if u == t:
            return t
        t = u
        for p in ("const ", "volatile "):
            while t.startswith(p):
                t = t[len(p):]


def is_ref(t):
    return t.rstrip().endswith("&")


def targ0(t, i=0):
    """i-th top level template argument of a type string"""
    a = t.find("<")
    if a < 0:
        return ""
    d = 0; cur = ""; out = []
    for ch in t[a + 1:]:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            if d == 0:
                break
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip()); cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out[i] if i < len(out) else ""


class Ev:
    __slots__ = ("k", "d", "fn", "file", "line", "depth")

    def __init__(self, k, d, fn, file, line, depth):
        self.k, self.d, self.fn, self.file, self.line, self.depth = k, d, fn, file, line, depth

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            return None

    def where(self):
        return "%s:%d" % (self.file, self.line)

    def __repr__(self):
        return "%s(%s)@%s:%s" % (self.k, ", ".join("%s=%s" % (k, show(v)) for k, v in self.d.items() if k != "st"), self.file.rsplit("/", 1)[-1], self.line)


def show(t):
    if isinstance(t, tuple) and t:
        h = t[0]
        if h == "c": return str(t[1])
        if h == "str": return '"%s"' % t[1]
        if h == "in": return show(t[1])
        if h == "A": return str(t[1])
        if h == "L": return "l%s_%s" % (t[1], t[2])
        if h in ("T", "H"): return "%s%s" % (h.lower(), t[1])
        if h == "G": return str(t[1])
        if h in ("F", "fld"): return "%s.%s" % (show(t[1]), t[2])
        if h in ("E", "el"): return "%s[%s]" % (show(t[1]), show(t[2]))
        if h == "P": return "*%s" % show(t[1])
        if h == "addr": return "&%s" % show(t[1])
        if h == "deref": return "*%s" % show(t[1])
        if h == "r": return "%s#%s" % (str(t[1]).rsplit("::", 1)[-1], t[2])
        if h == "bv": return "bits{" + ",".join(("%d:%d" % (v, k)) if x is None else "%s[%d..%d]" % (show(x), v, v + k - 1) for x, v, k in t[1]) + "}"
        if h == "op" and len(t) == 4: return "(%s%s%s)" % (show(t[2]), t[1], show(t[3]))
        return "%s(%s)" % (h, ",".join(show(x) for x in t[1:]))
    if isinstance(t, list):
        return "[" + ",".join(show(x) for x in t) + "]"
    return str(t)


def under(k, p):
    """is place k inside (or equal to) place p"""
    while True:
        if k == p:
            return True
        if k[0] in ("F", "E"):
            k = k[1]
        else:
            return False


def root(p):
    while p[0] in ("F", "E"):
        p = p[1]
    return p


def reroot(k, src, dst):
    if k == src:
        return dst
    return (k[0], reroot(k[1], src, dst)) + k[2:]


def mkP(t):
    if t[0] == "it" and isc(t[2]) and t[1][0] != "P": return ("E", t[1], t[2])      # iterator of an array, a pointer
    return t[1] if t[0] == "addr" else ("P", t)


def mkaddr(p):
    return p[1] if p[0] == "P" else ("addr", p)


def subterms(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


class St:
    __slots__ = ("m", "f", "s", "tr", "n", "sc", "tm", "flags", "lt")

    def __init__(self):
        self.m = {}; self.f = {}; self.s = {}; self.tr = []; self.n = 0; self.sc = []; self.tm = []; self.flags = set(); self.lt = []

    def copy(self):
        o = St.__new__(St)
        o.m = dict(self.m); o.f = dict(self.f); o.s = dict(self.s); o.tr = list(self.tr); o.n = self.n
        o.sc = [list(x) for x in self.sc]; o.tm = [list(x) for x in self.tm]; o.flags = set(self.flags); o.lt = list(self.lt)
        return o


class Path:
    """one explored path"""

    def __init__(self, st, out, ret):
        self.st, self.out, self.ret = st, out, ret
        self.tr = st.tr

    def facts(self):
        return dict(self.st.f)


BINNEG = {"!=": "==", ">=": "<", "<=": ">"}


def iovecs(I, st, msg):
    """(base, length) of every buffer described by a msghdr, None if the description is not known"""
    io, n = I.read(st, ("F", msg, "msg_iov")), I.read(st, ("F", msg, "msg_iovlen"))
    if io[0] != "addr" or n[0] != "c" or not 0 <= n[1] <= 16:
        return None
    a, k = (io[1][1], io[1][2]) if io[1][0] == "E" else (io[1], ("c", 0))
    if k[0] != "c":
        return None
    r = []
    for i in range(n[1]):
        q = ("E", a, ("c", k[1] + i))
        if not any(under(x, q) for x in st.m if x[0] not in ("R", "B")) and i == 0 and k[1] == 0 and any(x[0] == "F" and x[1] == a and x[2] == "iov_base" for x in st.m): q = a
        r.append((I.read(st, ("F", q, "iov_base")), I.read(st, ("F", q, "iov_len"))))
    return r


class Interp:
    def __init__(self, db, opaque=None, maxpaths=4000, maxdepth=14, loops=2, maxsteps=400000, record_reads=False, inline_virtual=None, novirt=False, snap=None, relock=False):
        self.db = db
        self.relock = relock  # taking a lock again forgets what was known about shared memory
        self.snap = snap      # events of these kinds (or names) carry a copy of the state
        self.opaque = opaque or (lambda sq, f: False)
        self.maxpaths, self.maxdepth, self.loops, self.maxsteps = maxpaths, maxdepth, loops, maxsteps
        self.stack = []; self.cur = ("", "", 0); self.fin = []; self.fid = 0; self.steps = 0
        self.lams = {}; self.unsigned = set(); self.signed = set(); self.intrusive = set(); self._ft = {}
        self.record_reads = record_reads
        self.inline_virtual = inline_virtual  # callback (node, st, objplace) -> usr or None
        self.hooks = {}       # sq -> function(interp, st, node, objplace, args) -> list[(st,val)] or None
        self.shared = lambda place: True      # is atomic place shared (fresh value on each load)
        self.functions_seen = set(); self.unknown = {}; self.wid = {}

    # ---------------------------------------------------------------- store
    plain = ()           # objects whose atomic members are treated as unshared

    def fresh(self, st, tag="v"):
        st.n += 1
        return ("v", tag, st.n)

    def tmp(self, st):
        st.n += 1
        return ("T", st.n)

    def base(self, st, p):
        b = st.m.get(("B", p))
        if b is not None:
            return b
        h = p[0]
        if h == "F":
            return ("fld", self.base(st, p[1]), p[2])
        if h == "E":
            return ("el", self.base(st, p[1]), p[2])
        if h == "P":
            return ("deref", p[1])
        return ("in", p)

    def read(self, st, p):
        v = st.m.get(p)
        if v is None:
            v = self.base(st, p)
        return self.res(st, v)

    def res(self, st, v):
        for _ in range(8):
            w = st.s.get(v)
            if w is None:
                return v
            v = w
        return v

    def write(self, st, p, v, quiet=False):
        st.m[p] = v
        if not quiet and not self.local(p):
            self.emit(st, "wr", p=p, v=v)

    def local(self, p):
        return root(p)[0] in ("L", "T", "H")

    def kill(self, st, p):
        dead = []
        for k in st.m:
            if k[0] == "B":
                if under(k[1], p):
                    dead.append(k)
            elif k[0] != "R" and under(k, p):
                dead.append(k)
        for k in dead:
            del st.m[k]

    def havoc(self, st, p, tag="hv"):
        self.kill(st, p)
        v = self.fresh(st, tag)
        st.m[("B", p)] = v

    def copyobj(self, st, src, dst):
        if src == dst:
            return
        add = []
        for k, v in st.m.items():
            if k[0] == "B":
                if under(k[1], src):
                    add.append((("B", reroot(k[1], src, dst)), v))
            elif k[0] != "R" and under(k, src):
                add.append((reroot(k, src, dst), v))
        b = self.base(st, src)
        self.kill(st, dst)
        st.m[("B", dst)] = b
        for k, v in add:
            st.m[k] = v

    def setobj(self, st, p, term):
        self.kill(st, p)
        st.m[("B", p)] = term

    # ---------------------------------------------------------------- events
    def emit(self, st, k, **d):
        st.tr.append(Ev(k, d, self.cur[0], self.cur[1], self.cur[2], len(self.stack)))
        if self.snap and self.snap(k, d.get("f") or ""): st.tr[-1].d["st"] = st.copy()
        return st.tr[-1]

    # ---------------------------------------------------------------- facts
    def truth(self, st, t):
        """True / False / None"""
        t = self.res(st, t)
        h = t[0]
        if h == "c":
            return t[1] != 0
        if h == "null":
            return False
        if h in ("addr", "str", "lam", "fn"):
            return True
        if h == "op":
            op = t[1]
            if op == "!":
                r = self.truth(st, t[2])
                return None if r is None else not r
            if op == "&&":
                a = self.truth(st, t[2]); b = self.truth(st, t[3])
                if a is False or b is False: return False
                if a and b: return True
            if op == "||":
                a = self.truth(st, t[2]); b = self.truth(st, t[3])
                if a or b: return True
                if a is False and b is False: return False
            if op in ("==", "<"):
                return self.rel(st, op, self.res(st, t[2]), self.res(st, t[3]))
        r = st.f.get(t)
        if r is not None:
            return r
        # nonzero known through equality / order facts
        r = self.rel(st, "==", t, FALSE, noeq=True)
        if r is not None:
            return not r
        return None

    def canon(self, a, b):
        return (a, b) if repr(a) <= repr(b) else (b, a)

    def rel(self, st, op, a, b, noeq=False):
        if op == "==":
            if a == b:
                return True
            if isc(a) and isc(b):
                return a[1] == b[1]
            za, zb = a in (NULL, FALSE), b in (NULL, FALSE)
            if za and zb:
                return True
            if (a[0] in ("addr", "str", "lam", "fn") and zb) or (b[0] in ("addr", "str", "lam", "fn") and za):
                return False
            if a[0] == "str" and b[0] == "str":
                return a[1] == b[1]
            if a[0] == "addr" and b[0] == "addr":
                if root(a[1])[0] in ("L", "T", "H") or root(b[1])[0] in ("L", "T", "H"):
                    return False
            r = st.f.get(("op", "==") + self.canon(a, b))
            if r is not None:
                return r
            if zb and not noeq and st.f.get(a) is not None:
                return not st.f[a]
            if za and not noeq and st.f.get(b) is not None:
                return not st.f[b]
            for x, y in ((a, b), (b, a)):
                if isc(y) and y[1] >= 0 and (x[0] in ("trunc", "bv") or x in self.wid):
                    r = self.bitrel(st, x, y[1])
                    if r is not None:
                        return r
            lo, hi = self.bounds(st, a); lo2, hi2 = self.bounds(st, b)
            if (hi is not None and lo2 is not None and hi < lo2) or (hi2 is not None and lo is not None and hi2 < lo):
                return False
            if lo is not None and lo == hi == lo2 == hi2:
                return True
            if self.ordered(st, a, b) == "<" or self.ordered(st, b, a) == "<":
                return False
            if self.ordered(st, a, b) == "<=" and self.ordered(st, b, a) == "<=":
                return True
            return None
        # a < b
        if a == b:
            return False
        if isc(a) and isc(b):
            return a[1] < b[1]
        lo, hi = self.bounds(st, a); lo2, hi2 = self.bounds(st, b)
        if hi is not None and lo2 is not None and hi < lo2:
            return True
        if lo is not None and hi2 is not None and lo >= hi2:
            return False
        o = self.ordered(st, a, b)
        if o == "<":
            return True
        o2 = self.ordered(st, b, a)
        if o2 in ("<", "<="):
            return False
        if o == "<=" and self.rel(st, "==", a, b) is False:
            return True
        return None

    def edges(self, st):
        """order edges (x, y, strict) from the facts"""
        for t, v in st.f.items():
            if t[0] == "op" and t[1] == "<":
                if v:
                    yield t[2], t[3], True
                else:
                    yield t[3], t[2], False
            elif t[0] == "op" and t[1] == "==" and v:
                yield t[2], t[3], False
                yield t[3], t[2], False

    def ordered(self, st, a, b):
        """'<', '<=' or None: what the recorded order facts imply about a and b"""
        adj = {}
        for x, y, s in self.edges(st):
            adj.setdefault(x, []).append((y, s))
        best = {a: False}; work = [a]
        while work:
            x = work.pop()
            nb = list(adj.get(x, ()))
            if x[0] == "op" and x[1] == "+" and isc(x[3]) and x[3][1] < 0:
                pass
            for y, s in nb:
                ns = best[x] or s
                if y not in best or (ns and not best[y]):
                    best[y] = ns; work.append(y)
        if b in best and b != a:
            return "<" if best[b] else "<="
        return None

    def bounds(self, st, a):
        if isc(a):
            return a[1], a[1]
        if a == NULL:
            return 0, 0
        lo = 0 if a in self.unsigned else None
        hi = None
        if a[0] == "mod" or (a[0] == "op" and a[1] == "%" and isc(a[3])):
            hi = a[3][1] - 1
        for x, y, s in self.edges(st):
            if x == a and isc(y):
                h = y[1] - (1 if s else 0)
                hi = h if hi is None else min(hi, h)
            if y == a and isc(x):
                l = x[1] + (1 if s else 0)
                lo = l if lo is None else max(lo, l)
        if lo == 0 and (st.f.get(("op", "==") + self.canon(a, FALSE)) is False or st.f.get(a) is True):
            lo = 1
        return lo, hi

    def assume(self, st, t, v):
        """adds the fact; returns False when contradictory"""
        t = self.res(st, t)
        r = self.truth(st, t)
        if r is not None:
            return r == v
        if t[0] == "op":
            op = t[1]
            if op == "!":
                return self.assume(st, t[2], not v)
            if op == "&&":
                if v:
                    return self.assume(st, t[2], True) and self.assume(st, t[3], True)
                if self.truth(st, t[2]) is True:
                    return self.assume(st, t[3], False)
                if self.truth(st, t[3]) is True:
                    return self.assume(st, t[2], False)
            if op == "||":
                if not v:
                    return self.assume(st, t[2], False) and self.assume(st, t[3], False)
                if self.truth(st, t[2]) is False:
                    return self.assume(st, t[3], True)
                if self.truth(st, t[3]) is False:
                    return self.assume(st, t[2], True)
            if op == "==":
                a, b = self.res(st, t[2]), self.res(st, t[3])
                a, b = self.canon(a, b)
                # boolean terms compared with constants
                for x, y in ((a, b), (b, a)):
                    if isc(y) and y[1] in (0, 1) and x[0] == "op" and x[1] in ("==", "<", "!", "&&", "||"):
                        return self.assume(st, x, v == bool(y[1]))
                st.f[("op", "==", a, b)] = v
                if v:
                    for x, y in ((a, b), (b, a)):
                        if (isc(y) or y[0] in ("null", "str")) and x not in st.s and not isc(x):
                            st.s[x] = y
                            st.f.setdefault(("op", "==") + self.canon(x, y), True)
                            break
                return True
            if op == "<":
                st.f[("op", "<", self.res(st, t[2]), self.res(st, t[3]))] = v
                return True
        st.f[t] = v
        return True

    def branch(self, st, t):
        """-> list of (state, bool)"""
        r = self.truth(st, t)
        if r is not None:
            return [(st, r)]
        s2 = st.copy()
        out = []
        if self.assume(st, t, True):
            out.append((st, True))
        if self.assume(s2, t, False):
            out.append((s2, False))
        return out

    # ---------------------------------------------------------------- terms
    def ibits(self, t):
        t = base_type(t)
        if t in INT:
            return INT[t]
        e = self.db.E.get(t)
        if e:
            return INT.get(base_type(e["ut"]))
        if t == "std::byte":
            return (8, False)
        return None

    def wrap(self, n, t):
        b = self.ibits(t)
        if b is None:
            return n
        bits, sg = b
        if bits == 1:
            return 1 if n else 0
        n &= (1 << bits) - 1
        if sg and n >= (1 << (bits - 1)):
            n -= 1 << bits
        return n

    def binop(self, st, op, a, b, t="int", ot=None):
        a = self.res(st, a); b = self.res(st, b)
        if op in ("!=", ">=", "<=", ">"):
            if op == "!=":
                return self.neg(self.binop(st, "==", a, b, t))
            if op == ">":
                return self.binop(st, "<", b, a, t)
            if op == "<=":
                return self.neg(self.binop(st, "<", b, a, t))
            return self.neg(self.binop(st, "<", a, b, t))
        if op in ("==", "<"):
            if a[0] == "it" and b[0] == "it" and a[1] == b[1] and isc(a[2]) and isc(b[2]): return C(a[2] == b[2] if op == "==" else a[2][1] < b[2][1])
            r = self.rel(st, op, a, b)
            if r is not None:
                return C(r)
            if op == "==":
                return ("op", "==") + self.canon(a, b)
            return ("op", "<", a, b)
        if a[0] == "it" and b[0] == "it" and op == "-" and a[1] == b[1]: return self.binop(st, "-", a[2], b[2], "long")
        if a[0] == "it" and isc(b) and isc(a[2]) and op in ("+", "-"):
            return ("it", a[1], self.binop(st, op, a[2], b, "unsigned long"))
        if isc(a) and isc(b):
            x, y = a[1], b[1]
            try:
                r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y,
                     "<<": lambda: x << y if y < 256 else 0, ">>": lambda: x >> y, "/": lambda: abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1),
                     "%": lambda: abs(x) % abs(y) * (1 if x >= 0 else -1)}[op]()
                return C(self.wrap(r, t))
            except (KeyError, ZeroDivisionError, ValueError):
                return ("op", op, a, b)
        if op == "+":
            if b == FALSE: return a
            if a == FALSE: return b
            if isc(a): a, b = b, a
            if isc(b) and a[0] == "op" and a[1] in ("+", "-") and isc(a[3]):
                k = (a[3][1] if a[1] == "+" else -a[3][1]) + b[1]
                if k == 0: return a[2]
                return ("op", "+", a[2], C(k)) if k > 0 else ("op", "-", a[2], C(-k))
            if a[0] == "op" and a[1] == "-" and a[3] == b: return a[2]
            if b[0] == "op" and b[1] == "-" and b[3] == a: return b[2]
            if notc(b) and repr(b) < repr(a): a, b = b, a
        elif op == "-":
            if b == FALSE: return a
            if a == b: return FALSE
            if b[0] == "op" and b[1] == "-" and b[2] == a: return b[3]
            if b[0] == "op" and b[1] == "-" and b[2] == C(0): return self.binop(st, "+", a, b[3], t)
            if a[0] == "op" and a[1] == "+" and a[3] == b: return a[2]
            if a[0] == "op" and a[1] == "+" and a[2] == b: return a[3]
            if isc(b) and a[0] == "op" and a[1] in ("+", "-") and isc(a[3]):
                k = (a[3][1] if a[1] == "+" else -a[3][1]) - b[1]
                if k == 0: return a[2]
                return ("op", "+", a[2], C(k)) if k > 0 else ("op", "-", a[2], C(-k))
        elif op in ("&", "|", "^", "*"):
            if repr(b) < repr(a): a, b = b, a
            if op == "*" and FALSE in (a, b): return FALSE
            if op == "&" and FALSE in (a, b): return FALSE
            if op == "*" and TRUE in (a, b): return b if a == TRUE else a
            if op == "|" and FALSE in (a, b): return b if a == FALSE else a
            if op in ("&", "|") and a == b: return a
        elif op in ("<<", ">>", "/"):
            if op == "/" and b == TRUE: return a
            if op != "/" and b == FALSE: return a
        r = ("op", op, a, b)
        bt = self.ibits(t)
        if bt and not bt[1]:
            if op == "*" and (isc(a) or isc(b)):        # a field moved by a multiplication with a power of two
                k, x = (a[1], b) if isc(a) else (b[1], a)
                if k >= 256 and k & (k - 1) == 0 and (x[0] in ("bv", "trunc") or x in self.wid) and self.wid.get(x, x[1] if x[0] == "trunc" else 64) + k.bit_length() - 1 <= bt[0]:
                    return self.binop(st, "<<", x, C(k.bit_length() - 1), t)
            if op == "+" and ("bv" in (a[0], b[0]) or any(isc(x) and x[1] >= 1 << 16 and notc(y) and x[1] & ((1 << self.wid.get(y, 64)) - 1) == 0 for x, y in ((a, b), (b, a)))):
                sa, sb = self.tosegs(a, bt[0]), self.tosegs(b, bt[0])
                if self.disjoint(sa, sb): return self.binop(st, "|", a, b, t)
            if op in ("&", "|", "^", "<<", ">>") and bt[0] > 1:
                v = self.bitop(op, a, b, bt[0])
                if v is not None:
                    for y in (a, b):
                        if notc(y): self.wid.setdefault(y, bt[0])
                    return v
            self.unsigned.add(r)
        return r

    # ---------------------------------------------------------------- bit provenance of unsigned terms
    def tosegs(self, x, w):
        """x as bit segments from the least significant bit: (None, value, n) or (source, low, n)"""
        if isc(x):
            return [(None, x[1] & ((1 << w) - 1), w)]
        if x[0] == "bv":
            segs = list(x[1])
        elif x[0] == "trunc" and (x in self.unsigned):
            self.wid.setdefault(x[2], 64)
            segs = [(x[2], 0, x[1])]
        else:
            n = self.wid.get(x, w)
            segs = [(x, 0, min(n, w))]
        return self.cutsegs(segs, 0, w)

    @staticmethod
    def cutsegs(segs, lo, n):
        out = []; pos = 0
        for s, v, k in segs:
            a, b = max(pos, lo), min(pos + k, lo + n)
            if a < b:
                d = a - pos
                out.append((None, (v >> d) & ((1 << (b - a)) - 1), b - a) if s is None else (s, v + d, b - a))
            pos += k
        have = max(0, min(pos, lo + n) - lo)
        if have < n:
            out.append((None, 0, n - have))
        return out

    @staticmethod
    def disjoint(x, y):
        """no bit can be set in both"""
        def used(sg):
            pos = r = 0
            for s, v, k in sg:
                r |= (v if s is None else (1 << k) - 1) << pos
                pos += k
            return r
        return used(x) & used(y) == 0

    def fromsegs(self, segs, w):
        m = []
        for s, v, k in segs:
            if m and m[-1][0] == s:
                ps, pv, pk = m[-1]
                if s is None:
                    m[-1] = (None, pv | (v << pk), pk + k); continue
                if pv + pk == v:
                    m[-1] = (s, pv, pk + k); continue
            m.append((s, v, k))
        while m and m[-1][0] is None and m[-1][1] == 0:
            m.pop()
        if not m:
            return FALSE
        if all(x[0] is None for x in m):
            return C(m[0][1])
        if len(m) == 1:
            s, v, k = m[0]
            if v == 0 and k >= self.wid.get(s, 64):
                return s
            if v == 0:
                r = ("trunc", k, s)
                self.unsigned.add(r); self.wid[r] = k
                return r
        r = ("bv", tuple(m))
        self.unsigned.add(r)
        self.wid[r] = sum(x[2] for x in m)
        return r

    def bitop(self, op, a, b, w):
        if op in ("<<", ">>"):
            if not isc(b) or b[1] < 0 or b[1] >= w:
                return None
            sa = self.tosegs(a, w)
            if op == "<<":
                r = ([(None, 0, b[1])] if b[1] else []) + self.cutsegs(sa, 0, w - b[1])
            else:
                r = self.cutsegs(sa, b[1], w - b[1])
            return self.fromsegs(r, w)
        sa, sb = self.tosegs(a, w), self.tosegs(b, w)
        cuts = {0, w}
        for sg in (sa, sb):
            pos = 0
            for s, v, k in sg:
                if s is None:
                    # split constants into runs of equal bits
                    prev = None
                    for i in range(k):
                        bit = (v >> i) & 1
                        if bit != prev:
                            cuts.add(pos + i); prev = bit
                pos += k; cuts.add(pos)
        cuts = sorted(c for c in cuts if c <= w)
        out = []
        for lo, hi in zip(cuts, cuts[1:]):
            n = hi - lo
            x, y = self.cutsegs(sa, lo, n), self.cutsegs(sb, lo, n)
            if len(x) != 1 or len(y) != 1:
                return None
            x, y = x[0], y[0]
            ones = (1 << n) - 1
            if x[0] is None and y[0] is None:
                v = x[1] & y[1] if op == "&" else x[1] | y[1] if op == "|" else x[1] ^ y[1]
                out.append((None, v, n)); continue
            if y[0] is None:
                x, y = y, x
            if x[0] is None:
                if op == "&" and x[1] == 0: out.append((None, 0, n)); continue
                if op == "&" and x[1] == ones: out.append(y); continue
                if op == "|" and x[1] == ones: out.append((None, ones, n)); continue
                if op in ("|", "^") and x[1] == 0: out.append(y); continue
                return None
            if x == y and op in ("&", "|"):
                out.append(x); continue
            return None
        return self.fromsegs(out, w)

    def bitval(self, st, t, seen=0):
        """is the comparison t == c decided by known values of sources"""
        if t[0] == "trunc":
            segs = [(t[2], 0, t[1])]
        elif t[0] == "bv":
            segs = list(t[1])
        else:
            return None
        out = []
        for s, v, k in segs:
            if s is not None:
                r = self.res(st, s)
                if isc(r):
                    s, v = None, (r[1] >> v) & ((1 << k) - 1)
            out.append((s, v, k))
        return out

    def bitrel(self, st, a, c):
        """a == c for a constant c"""
        if a[0] in ("trunc", "bv"):
            segs = self.bitval(st, a); pos = 0; alls = True
            for s, v, k in segs:
                want = (c >> pos) & ((1 << k) - 1)
                if s is None:
                    if v != want: return False
                else:
                    alls = False
                    # the slice (or the whole source) compared with another constant
                    for t, val in st.f.items():
                        if t[0] == "op" and t[1] == "==" and len(t) == 4:
                            x, y = (t[2], t[3]) if isc(t[3]) else (t[3], t[2]) if isc(t[2]) else (None, None)
                            if x is None: continue
                        else:
                            x, y, val = t, FALSE, not val
                        if x[0] in ("trunc", "bv"):
                            sg = [(x[2], 0, x[1])] if x[0] == "trunc" else list(x[1])
                            if len(sg) == 1 and sg[0] == (s, v, k):
                                if (y[1] == want) != val: return False
                                break
            if c >> pos if False else (c >> sum(k for _, _, k in segs)):
                return False
            return True if alls else None
        # slices of a already known
        cover = 0; w = self.wid.get(a)
        if w is None:
            return None
        for t, val in st.f.items():
            if t[0] == "op" and t[1] == "==" and len(t) == 4:
                x, y = (t[2], t[3]) if isc(t[3]) else (t[3], t[2]) if isc(t[2]) else (None, None)
                if x is None: continue
            elif t[0] in ("trunc", "bv"):
                x, y, val = t, FALSE, not val
            else:
                continue
            sg = [(x[2], 0, x[1])] if x[0] == "trunc" else list(x[1]) if x[0] == "bv" else []
            if len(sg) == 1 and sg[0][0] == a:
                _, lo, k = sg[0]
                want = (c >> lo) & ((1 << k) - 1)
                if val and y[1] != want: return False
                if not val and y[1] == want: return False
                if val: cover |= ((1 << k) - 1) << lo
        if cover == (1 << w) - 1:
            return True
        return None

    def neg(self, t):
        if isc(t):
            return C(not t[1])
        if t[0] == "op" and t[1] == "!":
            return t[2]
        return ("op", "!", t)

    def is_class(self, t):
        t = base_type(t)
        if t.endswith("*") or t in SCALARS or t in self.db.E or t.endswith("]") and False:
            return False
        if t.startswith("enum ") or "(*)" in t or "::*" in t:
            return False
        if t.endswith(")") and "(" in t and "lambda" not in t and "(anonymous" not in t and "(unnamed" not in t:
            return False
        return True

    # ---------------------------------------------------------------- values
    def scal(self, st, v):
        if v[0] in ("ref", "obj"):
            return self.read(st, v[1])
        return self.res(st, v)

    def place(self, st, v):
        if v[0] in ("ref", "obj"):
            return v[1]
        p = self.tmp(st)
        st.m[("B", p)] = v
        st.m[p] = v
        return p

    def objterm(self, st, v):
        """term identifying a class value"""
        if v[0] in ("ref", "obj"):
            return self.read(st, v[1])
        return self.res(st, v)

    def fieldtype(self, cls, n):
        k = (cls, n)
        if k not in self._ft:
            c = self.db.C.get(cls)
            r = None
            if c:
                for f in c["fields"]:
                    if f["n"] == n:
                        r = f["t"]
            self._ft[k] = r
        return self._ft[k]

    # ---------------------------------------------------------------- expressions
    def evs(self, e, st):
        """scalar value"""
        return [(s, self.scal(s, v)) for s, v in self.ev(e, st)]

    def evmany(self, es, st):
        cur = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in cur:
                for s2, v in self.evarg(e, s):
                    nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def evarg(self, e, st):
        return self.ev(e, st)

    def ev(self, e, st):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Limit("step limit")
        if e is None:
            return [(st, VOID)]
        if e.get("l"):
            self.cur = (self.cur[0], self.cur[1], e["l"])
        k = e["k"]
        if "cv" in e and k not in ("asg",) and not (k == "un" and e["op"] in ("++", "--")):
            v = e["cv"]
            return [(st, C(int(v)))]
        m = getattr(self, "e_" + k, None)
        if m is None:
            self.unknown[k] = self.unknown.get(k, 0) + 1
            return [(st, self.fresh(st, k))]
        return m(e, st)

    def e_full(self, e, st):
        st.tm.append([])
        out = []
        for s, v in self.ev(e["e"], st):
            # a class prvalue result must survive; its own storage is never in the temp list
            for s2 in self.drop_temps(s):
                out.append((s2, v))
        return out

    def drop_temps(self, s):
        l = s.tm.pop()
        cur = [s]
        for p, t in reversed(l):
            nxt = []
            for x in cur:
                nxt += self.destroy(x, p, t)
            cur = nxt
        return cur

    def e_tmp(self, e, st):
        p = self.tmp(st)
        out = []
        if not self.is_class(e["t"]):
            for s, v in self.evs(e["e"], st):
                s.m[p] = v
                out.append((s, ("ref", p)))
            return out
        for s in self.ev_into(e["e"], st, p, e["t"]):
            if e.get("d"):
                if e.get("ext"):
                    if s.sc: s.sc[-1].append((p, e["t"]))
                elif s.tm:
                    s.tm[-1].append((p, e["t"]))
            out.append((s, ("ref", p)))
        return out

    def ev_into(self, e, st, dst, t):
        """evaluate a class-typed initialiser into dst -> list of states"""
        k = e["k"] if e else None
        if k == "full":
            st.tm.append([])
            out = []
            for s in self.ev_into(e["e"], st, dst, t):
                out += self.drop_temps(s)
            return out
        if k in ("ctor", "call", "il", "cond", "zero", "lambda"):
            r = getattr(self, "e_" + k)(e, st, dst)
        elif k in ("cast", "icast") and e.get("ck") in ("ConstructorConversion", "UserDefinedConversion", "NoOp", "FunctionalCast") or k == "cast" and e.get("cs") == "CXXFunctionalCastExpr":
            return self.ev_into(e["e"], st, dst, t)
        else:
            r = self.ev(e, st)
        out = []
        for s, v in r:
            if v[0] in ("ref", "obj"):
                if v[1] != dst:
                    self.copyobj(s, v[1], dst)
            else:
                self.setobj(s, dst, v)
            out.append(s)
        return out

    def e_load(self, e, st):
        out = []
        for s, v in self.ev(e["e"], st):
            if v[0] == "ref":
                t = self.read(s, v[1])
                b = self.ibits(e["t"])
                if b and b[1] and b[0] > 1 and t[0] not in ("c",): self.signed.add(t)
                if b and not b[1] and t[0] not in ("c",) and t not in self.signed:
                    self.unsigned.add(t)
                if self.record_reads and not self.local(v[1]):
                    self.emit(s, "rd", p=v[1], v=t)
                out.append((s, t))
            else:
                out.append((s, v))
        return out

    def e_icast(self, e, st):
        ck = e.get("ck", "")
        out = []
        for s, v in self.ev(e["e"], st):
            if v[0] in ("ref", "obj") and ck in ("LValueBitCast", "NoOp", "BaseToDerived", "UncheckedDerivedToBase", "DerivedToBase"):
                out.append((s, v)); continue
            if ck == "NullToPointer":
                out.append((s, NULL)); continue
            if v[0] in ("ref", "obj") and self.is_class(e["t"]):
                out.append((s, v)); continue
            x = self.scal(s, v)
            if isc(x):
                if ck in ("IntegralToBoolean", "PointerToBoolean"):
                    x = C(x[1] != 0)
                else:
                    x = C(self.wrap(x[1], e["t"]))
            elif ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean", "MemberPointerToBoolean"):
                r = self.truth(s, x)
                if r is not None:
                    x = C(r)
                elif not (x[0] == "op" and x[1] in ("==", "<", "!", "&&", "||")):
                    x = self.neg(self.binop(s, "==", x, FALSE))
            elif ck == "IntegralCast":
                x = self.intcast(s, x, e["e"], e["t"])
            out.append((s, x))
        return out

    def intcast(self, st, x, src, t):
        b = self.ibits(t)
        sb = self.ibits(src.get("t", "")) if src else None
        if b and sb and b[0] < sb[0] and b[0] > 1:
            lo, hi = self.bounds(st, x)
            mx = (1 << (b[0] - (1 if b[1] else 0))) - 1
            if not (hi is not None and hi <= mx and lo is not None and lo >= 0):
                if not b[1] and not sb[1]:
                    r = self.fromsegs(self.cutsegs(self.tosegs(x, sb[0]), 0, b[0]), b[0])
                    if r[0] in ("trunc",):
                        self.wid.setdefault(r[2], sb[0])
                    return r
                r = ("trunc", b[0], x) if not b[1] else ("strunc", b[0], x)
                if not b[1]:
                    self.unsigned.add(r)
                return r
        elif b and sb and b[1] and not sb[1] and b[0] == sb[0] and 8 <= b[0] <= 32:
            lo, hi = self.bounds(st, x)          # the top bit becomes a sign
            if not (hi is not None and hi < 1 << (b[0] - 1)): return ("sgn", b[0], x)
        elif b and sb and not b[1] and x[0] == "sgn" and b[0] == x[1]:
            return x[2]
        elif b and not b[1] and sb and not sb[1]:
            if x not in self.signed: self.unsigned.add(x)
            if b[0] > sb[0] > 1 and notc(x):
                self.wid.setdefault(x, sb[0])
        return x

    def e_cast(self, e, st):
        ck = e.get("ck", "")
        if ck == "ToVoid":
            out = []
            for s, v in self.ev(e["e"], st):
                if v[0] == "obj":
                    for s2 in self.destroy(s, v[1], e["e"].get("t", "")):
                        out.append((s2, VOID))
                else:
                    out.append((s, VOID))
            return out
        if ck in ("Dynamic",):
            out = []
            for s, v in self.ev(e["e"], st):
                if v[0] == "ref":
                    out.append((s, v)); continue
                x = self.scal(s, v)
                for s2, b in self.branch(s, ("dyn", base_type(e["t"]), x)):
                    out.append((s2, x if b else NULL))
            return out
        if self.is_class(e["t"]):
            return self.ev(e["e"], st)
        return self.e_icast(e, st)

    def e_opq(self, e, st):
        return self.ev(e["e"], st)

    def e_ref(self, e, st):
        dk = e.get("dk")
        if dk == "enum":
            return [(st, C(int(e["cv"])) if "cv" in e else ("enum", e["n"]))]
        if e.get("local"):
            i = e["id"]
            fr = self.frame
            while fr is not None:
                key = (fr.fid, i)
                if i in fr.caps:
                    return [(st, ("ref", fr.caps[i]))]
                r = st.m.get(("R",) + key)
                if r is not None:
                    return [(st, ("ref", r))]
                if i in fr.known:
                    return [(st, ("ref", ("L",) + key))]
                fr = fr.parent if fr.lam else None
            return [(st, ("ref", ("L", self.frame.fid, i)))]
        if "vv" in e:
            return [(st, C(int(e["vv"])))]
        g = ("G", e["n"])
        if e.get("sl"):      # a static local variable, named inside a lambda
            r = [k[1] for k in st.m if k[0] == "B" and k[1][0] == "G" and isinstance(k[1][1], str) and k[1][1].startswith("static:") and k[1][1].endswith(":" + e["n"])]
            if len(r) == 1:
                return [(st, ("ref", r[0]))]
        if g not in st.m and ("B", g) not in st.m and e.get("repo"):
            v = self.db.V.get(e["n"])
            if v and (v.get("cx") or v["t"].startswith("const ")) and v.get("init") is not None and ("gv", e["n"]) not in self._gv:
                self._gv.add(("gv", e["n"]))
                try:
                    if self.is_class(v["t"]):
                        r = self.ev_into(v["init"], st, g, v["t"])
                        if len(r) == 1:
                            st = r[0]
                    else:
                        r = self.evs(v["init"], st)
                        if len(r) == 1:
                            st, x = r[0]
                            if is_ref(v["t"]) is False:
                                st.m[g] = x
                finally:
                    self._gv.discard(("gv", e["n"]))
        if is_ref(e.get("t", "")):
            return [(st, ("ref", mkP(self.read(st, g))))]
        return [(st, ("ref", g))]

    _gv = set()

    def e_bind(self, e, st):
        return self.ev(e["e"], st)

    def e_mem(self, e, st):
        out = []
        for s, v in self.ev(e["b"], st):
            if e.get("arrow"):
                p = mkP(self.scal(s, v))
            else:
                p = self.place(s, v)
            f = ("F", p, e["n"])
            ft = self.fieldtype(e.get("c"), e["n"])
            if ft and is_ref(ft):
                f = mkP(self.read(s, f))
            out.append((s, ("ref", f)))
        return out

    def e_this(self, e, st):
        fr = self.frame
        while fr is not None and fr.this is None and fr.lam:
            fr = fr.parent
        t = fr.this if fr else None
        return [(st, mkaddr(t) if t is not None else ("in", ("A", "this")))]

    def e_lit(self, e, st):
        return [(st, C(int(e.get("cv", 0))))]

    def e_flit(self, e, st):
        return [(st, ("flt", e["v"]))]

    def e_null(self, e, st):
        return [(st, NULL)]

    def e_str(self, e, st):
        return [(st, ("str", e.get("v", "")))]

    def e_typeid(self, e, st):
        return [(st, self.fresh(st, "typeid"))]

    def e_memfn(self, e, st):
        return [(st, ("fn", e["f"]["u"]))]

    def e_fnref(self, e, st):
        return [(st, ("fn", e["f"]["u"]))]

    def e_sizeof(self, e, st):
        return [(st, ("sizeof", e["t"]))]

    def e_zero(self, e, st, dst=None):
        if self.is_class(e["t"]):
            p = dst or self.tmp(st)
            self.setobj(st, p, ("zero", e["t"]))
            return [(st, ("obj", p))]
        return [(st, NULL if base_type(e["t"]).endswith("*") else FALSE)]

    def e_unk(self, e, st):
        self.unknown[e.get("sc")] = self.unknown.get(e.get("sc"), 0) + 1
        cur = [st]
        for c in e.get("ch", ()):
            nxt = []
            for s in cur:
                nxt += [x for x, _ in self.ev(c, s)]
            cur = nxt
        return [(s, self.fresh(s, "unk")) for s in cur]

    def e_throw(self, e, st):
        self.emit(st, "throw")
        self.fin.append((st, "throw"))
        return []

    def e_pdtor(self, e, st):
        return [(s, VOID) for s, _ in self.ev(e["e"], st)]

    def e_arrcopy(self, e, st):
        return self.ev(e["e"], st)

    def e_atomic(self, e, st):
        return [(s, self.fresh(s, "at")) for s, _ in self.evmany(e["a"], st)]

    def e_idx(self, e, st):
        out = []
        for s, a in self.ev(e["a"], st):
            for s2, i in self.evs(e["b"], s):
                b = e["a"].get("t", "")
                if a[0] == "ref" and not base_type(b).endswith("*"):
                    p = a[1]
                else:
                    if a[0] == "ref": a = self.read(s2, a[1])
                    if a[0] == "it" and isc(a[2]) and isc(i) and a[1][0] != "P":
                        out.append((s2, ("ref", ("E", a[1], C(a[2][1] + i[1]))))); continue
                    p = mkP(a)
                out.append((s2, ("ref", ("E", p, i))))
        return out

    def e_new(self, e, st):
        out = []
        for s, pl in self.evmany(e.get("pl", []), st):
            pv = [self.scal(s, x) for x in pl]
            if pv and (not isc(pv[0]) or pv[0][1]) and base_type(self.argtype(e["pl"][0])).endswith("*"):
                p = mkP(pv[0])
                self.emit(s, "pnew", p=p, t=e["t"])
            else:
                s.n += 1
                p = ("H", s.n)
                self.emit(s, "new", p=p, t=e["t"])
            if "sz" in e:
                for s2, n in self.evs(e["sz"], s):
                    s2.tr[-1].d["n"] = n
                    out.append((s2, mkaddr(p)))
                continue
            if e.get("e") is not None and self.is_class(e["t"]):
                for s2 in self.ev_into(e["e"], s, p, e["t"]):
                    out.append((s2, mkaddr(p)))
            elif e.get("e") is not None:
                for s2, v in self.evs(e["e"], s):
                    s2.m[p] = v
                    out.append((s2, mkaddr(p)))
            else:
                out.append((s, mkaddr(p)))
        return out

    def argtype(self, e):
        while e is not None:
            if e.get("t"):
                return e["t"]
            e = e.get("e") if isinstance(e.get("e"), dict) else None
        return ""

    def e_delete(self, e, st):
        out = []
        for s, v in self.evs(e["e"], st):
            t = base_type(e["t"])
            t = t[:-1].strip() if t.endswith("*") else t
            for s2, b in self.branch(s, v if v != NULL else FALSE):
                if b:
                    self.emit(s2, "delete", p=mkP(v), t=t)
                    for s3 in self.destroy(s2, mkP(v), t):
                        out.append((s3, VOID))
                else:
                    out.append((s2, VOID))
        return out

    def e_cond(self, e, st, dst=None):
        out = []
        for s, c in self.evs(e["c"], st):
            for s2, b in self.branch(s, c):
                sub = e["a"] if b else e["b"]
                if dst is not None:
                    for s3 in self.ev_into(sub, s2, dst, e["t"]):
                        out.append((s3, ("obj", dst)))
                else:
                    out += self.ev(sub, s2)
        return out

    def e_bin(self, e, st):
        op = e["op"]
        if op in ("&&", "||"):
            out = []
            for s, a in self.evs(e["a"], st):
                for s2, b in self.branch(s, a):
                    if (op == "&&") != b:
                        out.append((s2, C(b)))
                    else:
                        for s3, y in self.evs(e["b"], s2):
                            r = self.truth(s3, y)
                            out.append((s3, C(r) if r is not None else y))
            return out
        if op == ",":
            out = []
            for s, _ in self.ev(e["a"], st):
                out += self.ev(e["b"], s)
            return out
        out = []
        for s, a in self.evs(e["a"], st):
            for s2, b in self.evs(e["b"], s):
                if op in (".*", "->*"):
                    out.append((s2, ("ref", ("F", mkP(a), ("pm", b))))); continue
                pt = base_type(e.get("t", "")).endswith("*")
                if pt and op in ("+", "-"):
                    out.append((s2, self.ptradd(s2, a, b, op))); continue
                out.append((s2, self.binop(s2, op, a, b, e.get("t", "int"))))
        return out

    def ptradd(self, st, a, b, op):
        if b == FALSE:
            return a
        return self.binop(st, op, a, b, "unsigned long")

    def e_asg(self, e, st):
        out = []
        for s, b in self.evs(e["b"], st):
            for s2, a in self.ev(e["a"], s):
                p = self.place(s2, a)
                if e["op"] == "=":
                    v = b
                else:
                    o = self.read(s2, p)
                    if base_type(e["t"]).endswith("*"):
                        v = self.ptradd(s2, o, b, e["op"][:-1])
                    else:
                        v = self.binop(s2, e["op"][:-1], o, b, e.get("t", "int"))
                        if isc(v):
                            v = C(self.wrap(v[1], e["t"]))
                self.write(s2, p, v)
                out.append((s2, ("ref", p)))
        return out

    def e_un(self, e, st):
        op = e["op"]
        out = []
        if op == "!":
            for s, v in self.evs(e["e"], st):
                out.append((s, self.neg(C(self.truth(s, v)) if self.truth(s, v) is not None else v)))
            return out
        for s, v in self.ev(e["e"], st):
            if op == "&":
                if v[0] == "ref":
                    out.append((s, mkaddr(v[1])))
                else:
                    out.append((s, v if v[0] == "fn" else ("addr", self.place(s, v))))
            elif op == "*":
                x = self.scal(s, v)
                if x[0] == "fn":
                    out.append((s, x))
                else:
                    out.append((s, ("ref", mkP(x))))
            elif op in ("++", "--"):
                p = self.place(s, v)
                o = self.read(s, p)
                n = self.binop(s, op[0], o, TRUE, e.get("t", "int"))
                if isc(n):
                    n = C(self.wrap(n[1], e.get("t", "int")))
                self.write(s, p, n)
                out.append((s, o if e.get("post") else ("ref", p)))
            else:
                x = self.scal(s, v)
                if isc(x):
                    x = C(self.wrap({"-": -x[1], "~": ~x[1], "+": x[1]}.get(op, x[1]), e.get("t", "int")))
                elif op != "+":
                    x = ("op", "u" + op, x)
                out.append((s, x))
        return out

    def e_il(self, e, st, dst=None):
        if not self.is_class(e["t"]):
            if not e["a"]:
                return [(st, NULL if base_type(e["t"]).endswith("*") else FALSE)]
            return self.ev(e["a"][0], st)
        if len(e["a"]) == 1 and e["a"][0] and base_type(self.argtype(e["a"][0]) or "") == base_type(e["t"]):
            if dst is None:
                return self.ev(e["a"][0], st)       # a reference bound by braces
            return [(s, ("obj", dst)) for s in self.ev_into(e["a"][0], st, dst, e["t"])]
        p = dst or self.tmp(st)
        self.setobj(st, p, ("agg", e["t"], st.n))
        st.n += 1
        cur = [st]
        fn = e.get("fn", [])
        t = base_type(e["t"])
        arr = t.startswith("std::array") or t.startswith("std::initializer_list") or t.endswith("]")
        cls = self.db.C.get(t)
        for i, a in enumerate(e["a"]):
            nxt = []
            fnm = fn[i] if i < len(fn) else None
            for s in cur:
                if arr:
                    if a is not None and a["k"] == "il" and (t.startswith("std::array")):
                        return self._arrinit(e, a, s, p, cur)
                    q = ("E", p, C(i))
                else:
                    q = ("F", p, fnm)
                    if fnm in [b["t"] for b in (cls or {}).get("bases", [])]:
                        q = p
                if a is None:
                    nxt.append(s); continue
                at = self.argtype(a)
                ft = self.fieldtype(t, fnm) if not arr and fnm else None
                if ft and is_ref(ft):
                    for s2, v in self.ev(a, s):
                        s2.m[q] = mkaddr(self.place(s2, v)); nxt.append(s2)
                elif self.is_class(ft or at) and (ft or at):
                    if q == p:
                        tq = self.tmp(s)
                        for s2 in self.ev_into(a, s, tq, at):
                            for k, v in list(s2.m.items()):
                                if k[0] not in ("B", "R") and under(k, tq):
                                    s2.m[reroot(k, tq, p)] = v
                            nxt.append(s2)
                    else:
                        nxt += self.ev_into(a, s, q, at)
                else:
                    for s2, v in self.evs(a, s):
                        s2.m[q] = v; nxt.append(s2)
            cur = nxt
        if arr:
            for s in cur:
                s.m[("F", p, "#size")] = C(len(e["a"]))
        return [(s, ("obj", p)) for s in cur]

    def _arrinit(self, e, inner, st, p, cur):
        curs = [st]
        for i, a in enumerate(inner["a"]):
            nxt = []
            for s in curs:
                q = ("E", p, C(i))
                if a is None:
                    nxt.append(s); continue
                if self.is_class(self.argtype(a)):
                    nxt += self.ev_into(a, s, q, self.argtype(a))
                else:
                    for s2, v in self.evs(a, s):
                        s2.m[q] = v; nxt.append(s2)
            curs = nxt
        n = targ0(base_type(e["t"]), 1)
        for s in curs:
            mm = re.match(r"\d+", n)
            s.m[("F", p, "#size")] = C(int(mm.group(0))) if mm else C(len(inner["a"]))
        return [(s, ("obj", p)) for s in curs]

    def e_lambda(self, e, st, dst=None):
        p = dst or self.tmp(st)
        lid = (e["u"], self.cur[1])
        self.lams[lid] = (e, self.cur[0], self.cur[1])
        self.kill(st, p)
        st.m[("B", p)] = ("lamobj", lid, st.n)
        st.m[("F", p, "#lam")] = ("lam", lid)
        cur = [st]
        for c in e["cap"]:
            nxt = []
            for s in cur:
                if c["k"] in ("this", "starthis"):
                    fr = self.frame
                    while fr is not None and fr.this is None and fr.lam:
                        fr = fr.parent
                    s.m[("F", p, "#this")] = mkaddr(fr.this) if fr and fr.this is not None else ("in", ("A", "this"))
                    nxt.append(s); continue
                init = c.get("e")
                q = ("F", p, "#cap%d" % c["id"])
                if c["k"] == "ref":
                    if init is None:
                        init = {"k": "ref", "dk": "var", "id": c["id"], "n": c["n"], "local": 1, "t": c["t"]}
                    for s2, v in self.ev(init, s):
                        s2.m[("F", p, "#ref%d" % c["id"])] = mkaddr(self.place(s2, v)); nxt.append(s2)
                elif init is None or not self.is_class(c["t"]):
                    if init is None:
                        init = {"k": "ref", "dk": "var", "id": c["id"], "n": c["n"], "local": 1, "t": c["t"]}
                    for s2, v in self.ev(init, s):
                        s2.m[q] = self.scal(s2, v)
                        if v[0] == "ref":
                            self.copyobj(s2, v[1], q)
                        nxt.append(s2)
                else:
                    nxt += self.ev_into(init, s, q, c["t"])
            cur = nxt
        return [(s, ("obj", p)) for s in cur]

    # ---------------------------------------------------------------- construction / destruction
    def e_ctor(self, e, st, dst=None):
        t = base_type(e["t"])
        p = dst or self.tmp(st)
        f = e["f"]
        args = e["a"]
        if t.endswith("]"):
            self.setobj(st, p, ("agg", t, st.n)); st.n += 1
            return [(st, ("obj", p))]
        # prvalue/elidable copies
        if e.get("elid") and len(args) == 1 and f.get("kind") in ("copyctor", "movector"):
            a = args[0]
            if a["k"] == "tmp":
                return [(s, ("obj", p)) for s in self.ev_into(a["e"], st, p, t)]
        out = []
        if e.get("inh"):               # an inherited constructor passes on the arguments it was given
            return [(s, ("obj", p)) for s in self.construct(st, p, t, f, list(self.frame.vs), [None] * len(self.frame.vs))]
        for s, vs in self.evmany(args, st):
            out += self.construct(s, p, t, f, vs, args)
        return [(s, ("obj", p)) for s in out]

    def construct(self, st, p, t, f, vs, argn):
        """run constructor f of class t at place p -> states"""
        import models
        sc = strip_targs(t)
        r = models.construct(self, st, p, t, sc, f, vs, argn)
        if r is not None:
            return r
        h = self.hooks.get(strip_targs(f["q"]))
        if h is not None:
            r = h(self, st, f, p, vs)
            if r is not None:
                return [s for s, _ in r]
        fn = self.db.F.get(f["u"])
        if fn is not None and not self.opaque(strip_targs(f["q"]), f):
            if f.get("triv") and f.get("kind") in ("copyctor", "movector") and vs:
                self.copyobj(st, self.place(st, vs[0]), p)
                return [st]
            if self.can_inline(fn):
                self.kill(st, p)
                st.m[("B", p)] = ("new", t, st.n); st.n += 1
                return [s for s, _ in self.inline(fn, st, p, vs, argn)]
        if f.get("kind") in ("copyctor", "movector") and vs:
            self.copyobj(st, self.place(st, vs[0]), p)
            if not f.get("triv"):
                self.emit(st, "ctor", t=t, p=p, f=strip_targs(f["q"]), a=[self.argval(st, v) for v in vs], kind=f.get("kind"))
            return [st]
        av = [self.argval(st, v) for v in vs]
        self.emit(st, "ctor", t=t, p=p, f=strip_targs(f["q"]), a=av, kind=f.get("kind"))
        if f.get("kind") == "defctor" and (f.get("triv") or f.get("def")):
            self.setobj(st, p, ("new", t, st.n))
        else:
            self.setobj(st, p, ("obj", sc, tuple(av)) if not f.get("repo") and sc in PURE_CTOR else ("new", t, st.n))
        st.n += 1
        return [st]

    def argval(self, st, v):
        if v[0] == "obj":
            return self.read(st, v[1])
        if v[0] == "ref":
            return self.read(st, v[1])
        return self.res(st, v)

    def destroy(self, st, p, t):
        """run the destructor of an object of type t at p -> states"""
        import models
        t = base_type(t)
        sc = strip_targs(t)
        r = models.destroy(self, st, p, t, sc)
        if r is not None:
            return r
        c = self.db.C.get(t)
        if c is None or not c.get("repo"):
            self.emit(st, "dtor", t=t, p=p)
            return [st]
        h = self.hooks.get("~" + c["sq"])
        if h is not None:
            return h(self, st, p)
        cur = [st]
        dt = None
        for m in c.get("m", ()):
            if m.get("kind") == "dtor":
                dt = m
        if dt is not None and not dt.get("impl") and dt["u"] in self.db.F:
            fn = self.db.F[dt["u"]]
            if self.opaque(fn["sq"], fn):
                self.emit(st, "dtor", t=t, p=p)
                return [st]
            if self.can_inline(fn):
                cur = [s for s, _ in self.inline(fn, st, p, [], [])]
            else:
                self.emit(st, "dtor", t=t, p=p)
        elif dt is not None and not dt.get("impl") and not dt.get("def"):
            self.emit(st, "dtor", t=t, p=p)
        elif any(self.opaque(c["sq"] + "::~", None) for _ in (0,)):
            self.emit(st, "dtor", t=t, p=p)
            return cur
        for f in reversed(c["fields"]):
            if f.get("d") and not is_ref(f["t"]):
                nxt = []
                for s in cur:
                    nxt += self.destroy(s, ("F", p, f["n"]), f["t"])
                cur = nxt
        for b in reversed(c["bases"]):
            bc = self.db.C.get(base_type(b["t"]))
            if bc is not None and not bc.get("td"):
                nxt = []
                for s in cur:
                    nxt += self.destroy(s, p, b["t"])
                cur = nxt
        return cur

    # ---------------------------------------------------------------- calls
    def can_inline(self, fn):
        return len(self.stack) < self.maxdepth and self.stack.count(fn["u"]) < 2 and fn.get("body") is not None

    class Frame:
        __slots__ = ("fid", "this", "caps", "parent", "lam", "known", "rt", "vs")

        def __init__(self, fid, this, parent, lam):
            self.fid, self.this, self.caps, self.parent, self.lam, self.known, self.rt = fid, this, {}, parent, lam, set(), ""

    frame = None

    def inline(self, fn, st, this, vs, argn, lamplace=None):
        """-> list of (state, value)"""
        self.functions_seen.add((fn.get("sq") or fn.get("q") or "lambda", fn.get("file", self.cur[1]), fn.get("l", 0)))
        self.fid += 1
        fr = Interp.Frame(self.fid, this, None, False)
        fr.rt = fn.get("rt", "void")
        saved = (self.frame, self.cur)
        if lamplace is not None:
            fr.lam = False
            e = self.lams[lamplace[1]][0]
            lp = lamplace[0]
            for c in e["cap"]:
                if c["k"] in ("this", "starthis"):
                    fr.this = mkP(self.read(st, ("F", lp, "#this")))
                elif c["k"] == "ref":
                    fr.caps[c["id"]] = mkP(self.read(st, ("F", lp, "#ref%d" % c["id"])))
                else:
                    fr.caps[c["id"]] = ("F", lp, "#cap%d" % c["id"])
        self.frame = fr
        fr.vs = vs
        self.stack.append(fn["u"])
        depth_sc = len(st.sc)
        st.sc.append([])
        states = [st]
        self.cur = (fn.get("sq") or "lambda in " + saved[1][0], fn.get("file", saved[1][1]), fn.get("l", 0))
        cons = fn.get("kind") in ("ctor", "copyctor", "movector", "defctor")
        try:
            ps = fn.get("p", [])
            for i, p in enumerate(ps):
                fr.known.add(p["id"])
                if i >= len(vs):
                    continue
                v = vs[i]
                loc = ("L", fr.fid, p["id"])
                for s in states:
                    if is_ref(p["t"]):
                        s.m[("R", fr.fid, p["id"])] = self.place(s, v)
                    elif self.is_class(p["t"]):
                        if v[0] in ("ref", "obj"):
                            self.copyobj(s, v[1], loc)
                        else:
                            self.setobj(s, loc, v)
                        if p.get("d"):
                            s.sc[-1].append((loc, p["t"]))
                    else:
                        s.m[loc] = self.scal(s, v)
            rslot = None
            if self.is_class(fr.rt) and not is_ref(fr.rt) and not cons and fr.rt != "void":
                rslot = True
            if "ini" in fn:
                for ini in fn["ini"]:
                    nxt = []
                    for s in states:
                        nxt += self.initmember(s, fn, fr, ini)
                    states = nxt
            res = []
            for s in states:
                for s2, ctl in self.exec(fn["body"], s):
                    res.append((s2, ctl))
            out = []
            for s, ctl in res:
                for s2 in self.popscope(s):
                    if ctl is None:
                        out.append((s2, VOID))
                    elif ctl[0] == "ret":
                        out.append((s2, ctl[1]))
                    else:
                        out.append((s2, VOID))
            if len(out) > self.maxpaths:
                raise Limit("path limit in " + str(fn.get("sq")))
            return out
        finally:
            self.stack.pop()
            self.frame, self.cur = saved

    def initmember(self, st, fn, fr, ini):
        self.cur = (self.cur[0], self.cur[1], ini.get("l") or self.cur[2])
        e = ini["e"]
        if ini["k"] in ("base", "deleg"):
            out = []
            # construct the base in place: evaluate the constructor on the same place
            if e is not None and e["k"] == "full":
                st.tm.append([])
                for s in self.initmember(st, fn, fr, dict(ini, e=e["e"])):
                    out += self.drop_temps(s)
                return out
            if e is not None and e["k"] == "ctor":
                for s, vs in ([(st, list(fr.vs))] if e.get("inh") else self.evmany(e["a"], st)):
                    f = e["f"]
                    g = self.db.F.get(f["u"])
                    if g is not None and self.can_inline(g) and not self.opaque(strip_targs(f["q"]), f):
                        if f.get("triv") and f.get("kind") in ("copyctor", "movector") and vs:
                            self.copybase(s, self.place(s, vs[0]), fr.this, base_type(ini.get("n", "")))
                            out.append(s)
                        else:
                            out += [s2 for s2, _ in self.inline(g, s, fr.this, vs, e["a"] if not e.get("inh") else [None] * len(vs))]
                    else:
                        if f.get("kind") in ("copyctor", "movector") and vs:
                            self.copybase(s, self.place(s, vs[0]), fr.this, base_type(ini.get("n", "")))
                        elif not f.get("triv"):
                            self.emit(s, "ctor", t=base_type(e["t"]), p=fr.this, f=strip_targs(f["q"]), a=[self.argval(s, v) for v in vs], kind=f.get("kind"))
                        out.append(s)
                return out
            return [s for s, _ in self.ev(e, st)]
        place = ("F", fr.this, ini["n"])
        t = ini.get("t", "")
        if is_ref(t):
            out = []
            for s, v in self.ev(e, st):
                s.m[place] = mkaddr(self.place(s, v))
                out.append(s)
            return out
        if self.is_class(t):
            return self.ev_into(e, st, place, t)
        out = []
        for s, v in self.evs(e, st):
            s.m[place] = v
            if not self.local(place):
                self.emit(s, "init", p=place, v=v)
            out.append(s)
        return out

    def copybase(self, st, src, dst, bt):
        c = self.db.C.get(bt)
        if c is None:
            return
        for f in c["fields"]:
            if self.is_class(f["t"]) and not is_ref(f["t"]):
                self.copyobj(st, ("F", src, f["n"]), ("F", dst, f["n"]))
            else:
                st.m[("F", dst, f["n"])] = self.read(st, ("F", src, f["n"]))
        for b in c["bases"]:
            self.copybase(st, src, dst, base_type(b["t"]))

    def call_lambda(self, st, place, vs, argn):
        """call the closure stored at place -> list of (state, value) or None when unknown"""
        lam = st.m.get(("F", place, "#lam"))
        if lam is None:
            return None
        e, sq, file = self.lams[lam[1]]
        body = e
        if e.get("generic"):
            best = None
            for i in e.get("inst", ()):
                if len(i["p"]) == len(vs):
                    best = i
                    break
            if best is None:
                return None
            body = best
        if len(self.stack) >= self.maxdepth or self.stack.count(body.get("u") or e["u"]) >= 2:
            return None
        fn = {"u": body.get("u") or e["u"], "sq": "lambda in " + sq, "file": file, "l": e["l"], "p": body["p"], "rt": body["rt"], "body": body["body"]}
        return self.inline(fn, st, None, vs, argn, lamplace=(place, lam[1]))

    def invoke(self, st, v, vs, argn, rt="void"):
        """call a callable value (closure, function pointer, wrapper) -> list of (state, value)"""
        p = v[1] if v[0] in ("ref", "obj") else None
        if p is not None:
            for q in (p, ("F", p, "#fn")):
                r = self.call_lambda(st, q, vs, argn)
                if r is not None:
                    return r
            # wrapper of a wrapper
            q = ("F", ("F", p, "#fn"), "#fn")
            r = self.call_lambda(st, q, vs, argn)
            if r is not None:
                return r
        t = self.scal(st, v)
        if p is not None and t[0] != "fn":
            t2 = st.m.get(("F", p, "#fn"))
            if t2 is not None and t2[0] == "fn":
                t = t2
        if t[0] == "fn" and t[1] in self.db.F and self.can_inline(self.db.F[t[1]]):
            fn = self.db.F[t[1]]
            if fn.get("c") and not fn.get("static") and vs:
                return self.inline(fn, st, self.place(st, vs[0]), vs[1:], argn)
            return self.inline(fn, st, None, vs, argn)
        st.n += 1
        self.emit(st, "invoke", p=p, fnv=t, a=[self.argval(st, x) for x in vs], ap=[x[1] if x[0] in ("ref", "obj") else None for x in vs])
        r = ("r", "invoke", st.n)
        st.tr[-1].d["res"] = r
        self.clobber_args(st, vs, None)
        return [(st, r)]

    def clobber_args(self, st, vs, pts):
        for i, v in enumerate(vs):
            pt = pts[i] if pts and i < len(pts) else None
            if pt is None:
                continue
            b = pt.rstrip()
            if b.endswith("&&") or (b.endswith("&") and not b.startswith("const ")):
                if v[0] in ("ref", "obj"):
                    self.havoc(st, v[1])
            elif b.endswith("*") and not b.startswith("const "):
                x = self.scal(st, v)
                if x[0] == "addr":
                    todo, seen = [x[1]], set()
                    while todo:        # what the callee reaches through pointers stored there
                        q = todo.pop()
                        if q in seen: continue
                        seen.add(q)
                        for k, w in list(st.m.items()):
                            if k[0] != "R" and isinstance(w, tuple) and w and w[0] == "addr" and under(k[1] if k[0] == "B" else k, q) and (root(w[1])[0] in ("L", "T") or w[1][0] == "A" and w[1] != ("A", "this")):
                                t = w[1]
                                while t[0] == "I": t = t[1]     # an array handed over by its first element
                                if not (k[0] == "F" and str(k[2]).startswith("#")): todo.append(t)
                    for q in seen:
                        self.havoc(st, q)

    def e_call(self, e, st, dst=None):
        import models
        f = e.get("f")
        if f is None or e.get("pm"):
            # call through a pointer / reference to function, or pointer to member
            out = []
            fe = e.get("fe")
            for s, fv in (self.ev(fe, st) if fe else [(st, self.fresh(st, "fp"))]):
                for s2, ov in (self.ev(e["o"], s) if e.get("o") else [(s, None)]):
                    for s3, vs in self.evmany(e["a"], s2):
                        if e.get("pm"):
                            op = mkP(self.scal(s3, ov)) if e.get("arrow") else self.place(s3, ov)
                            t = self.scal(s3, fv)
                            fn = self.db.F.get(t[1]) if t[0] == "fn" else None
                            if fn is not None and self.can_inline(fn):
                                out += self.inline(fn, s3, op, vs, e["a"])
                            else:
                                s3.n += 1
                                self.emit(s3, "invoke", p=op, fnv=t, a=[self.argval(s3, x) for x in vs])
                                out.append((s3, ("r", "pm", s3.n)))
                        else:
                            out += self.invoke(s3, fv, vs, e["a"])
            return out
        sq = strip_targs(f["q"])
        if base_type(e["t"]).startswith("score::mw::log::LogStream"):
            return [(st, ("log",))]
        out = []
        obj = e.get("o")
        for s, ov in (self.ev(obj, st) if obj is not None else [(st, None)]):
            op = None
            if ov is not None:
                op = mkP(self.scal(s, ov)) if e.get("arrow") else self.place(s, ov)
            for s2, vs in self.evmany(e["a"], s):
                self.cur = (self.cur[0], self.cur[1], e["l"])
                out += self.docall(s2, e, f, sq, op, vs, e["a"], dst)
        return out

    def docall(self, st, e, f, sq, op, vs, argn, dst):
        import models
        h = self.hooks.get(sq)
        if h is not None:
            r = h(self, st, e, op, vs)
            if r is not None:
                return r
        if f.get("noret") or sq in ("std::terminate", "std::abort", "exit", "_exit", "std::exit"):
            if sq.startswith("vfstub::assert_fail_dbg"):
                return [(st, VOID)]
            self.emit(st, "abort", f=sq)
            self.fin.append((st, "abort"))
            return []
        if not self.opaque(sq, f):
            r = models.call(self, st, e, f, sq, op, vs, argn, dst)
            if r is not None:
                return r
            usr = f["u"]
            if e.get("v"):
                usr = self.inline_virtual(e, st, op, f) if self.inline_virtual else None
            fn = self.db.F.get(usr) if usr else None
            if fn is not None and self.can_inline(fn):
                if f.get("kind") in ("copyassign", "moveassign") and (f.get("triv")):
                    self.assignobj(st, self.place(st, vs[0]), op)
                    return [(st, ("ref", op))]
                res = self.inline(fn, st, op, vs, argn)
                return self.fixret(res, fn.get("rt", "void"), dst)
            if f.get("kind") in ("copyassign", "moveassign") and op is not None and vs and (f.get("impl") or f.get("def")):
                self.assignobj(st, self.place(st, vs[0]), op)
                return [(st, ("ref", op))]
        return self.opaque_call(st, e, f, sq, op, vs, argn)

    def assignobj(self, st, src, dst):
        loc = self.local(dst)
        self.copyobj(st, src, dst)
        if not loc:
            self.emit(st, "wr", p=dst, v=self.read(st, src))

    def fixret(self, res, rt, dst):
        return res

    def opaque_call(self, st, e, f, sq, op, vs, argn):
        st.n += 1
        pts = f.get("pt", [])
        av = [self.argval(st, v) for v in vs]
        ap = [v[1] if v[0] in ("ref", "obj") else None for v in vs]
        pure = f.get("const") and not SIDE.match(sq) and not any(p.rstrip().endswith("&") and not p.startswith("const ") and not p.rstrip().endswith("&&") for p in pts)
        if pure:
            r = ("pure", sq, self.read(st, op) if op is not None else None, tuple(av), st.m.get(("B", ("V", op)), 0))
        elif sq in PURE_FN:
            r = ("pure", sq, None, tuple(av), 0)
        else:
            r = ("r", sq, st.n)
        r = self.res(st, r)
        b = self.ibits(e.get("t", ""))
        if b and not b[1]:
            self.unsigned.add(r)
        self.emit(st, "call", f=sq, u=f["u"], o=op, a=av, ap=ap, res=r, q=f["q"], virt=bool(e.get("v")), argn=None)
        if not pure:
            if op is not None and not f.get("static") and not f.get("const") and root(op)[0] in ("L", "T"):
                self.havoc(st, op)
            elif op is not None and not f.get("const"):
                st.m[("B", ("V", op))] = st.n
            if sq.endswith("::recvmsg") and len(vs) > 1 and self.scal(st, vs[1])[0] == "addr" and iovecs(self, st, self.scal(st, vs[1])[1]) is not None:
                for b, n in iovecs(self, st, self.scal(st, vs[1])[1]):
                    if b[0] == "addr": self.havoc(st, b[1])
            else:
                self.clobber_args(st, vs, pts)
        if e.get("lv"):
            return [(st, ("ref", mkP(r)))]
        return [(st, r)]

    # ---------------------------------------------------------------- statements
    def popscope(self, st):
        l = st.sc.pop()
        cur = [st]
        for p, t in reversed(l):
            nxt = []
            for s in cur:
                nxt += self.destroy(s, p, t)
            cur = nxt
        return cur

    def exec(self, s, st):
        if s is None:
            return [(st, None)]
        if s.get("l"):
            self.cur = (self.cur[0], self.cur[1], s["l"])
        k = s["k"]
        return getattr(self, "s_" + k, self.s_unks)(s, st)

    def s_unks(self, s, st):
        self.unknown[s["k"]] = self.unknown.get(s["k"], 0) + 1
        return [(st, None)]

    def s_nop(self, s, st):
        return [(st, None)]

    def seq(self, ss, st):
        cur = [(st, None)]
        for s in ss:
            nxt = []
            live = False
            for x, c in cur:
                if c is not None:
                    nxt.append((x, c))
                else:
                    live = True
                    nxt += self.exec(s, x)
            cur = nxt
            if len(cur) > self.maxpaths:
                raise Limit("path limit")
            if not live:
                break
        return cur

    def s_block(self, s, st):
        st.sc.append([])
        out = []
        for x, c in self.seq(s["s"], st):
            for y in self.popscope(x):
                out.append((y, c))
        return out

    def s_expr(self, s, st):
        out = []
        for x, v in self.ev(s["e"], st):
            if v[0] == "obj":
                t = self.argtype(s["e"])
                for y in self.destroy(x, v[1], t) if t and self.needs_dtor(t) else [x]:
                    out.append((y, None))
            else:
                out.append((x, None))
        return out

    def needs_dtor(self, t):
        c = self.db.C.get(base_type(t))
        return c is not None and not c.get("td")

    def declvar(self, d, st):
        self.frame.known.add(d["id"])
        loc = ("L", self.frame.fid, d["id"])
        t = d["t"]
        out = []
        if d.get("static"):
            g = ("G", "static:%s:%s" % (self.cur[0], d["n"]))
            st.m[("R", self.frame.fid, d["id"])] = g
            if "init" in d and (d.get("cx") or t.startswith("const ") or "(lambda at" in t or "(anonymous class)" in t) and g not in st.m and ("B", g) not in st.m:
                if self.is_class(t):
                    return self.ev_into(d["init"], st, g, t)
                for s, v in self.evs(d["init"], st):
                    s.m[g] = v
                    out.append(s)
                return out
            return [st]
        if "init" not in d:
            self.kill(st, loc)
            st.m.pop(("R", self.frame.fid, d["id"]), None)
            st.m[("B", loc)] = ("uninit", st.n); st.n += 1
            return [st]
        if is_ref(t):
            for s, v in self.ev(d["init"], st):
                s.m[("R", self.frame.fid, d["id"])] = self.place(s, v)
                out.append(s)
        elif self.is_class(t):
            for s in self.ev_into(d["init"], st, loc, t):
                if d.get("d"):
                    s.sc[-1].append((loc, t))
                out.append(s)
        else:
            for s, v in self.evs(d["init"], st):
                s.m[loc] = v
                out.append(s)
        for b in d.get("bind", ()):
            if "hid" in b:
                self.frame.known.add(b["hid"])
                nxt = []
                for s in out:
                    for s2, v in self.ev(b["hinit"], s):
                        s2.m[("R", self.frame.fid, b["hid"])] = self.place(s2, v)
                        nxt.append(s2)
                out = nxt
        return out

    def s_decl(self, s, st):
        cur = [st]
        for d in s["d"]:
            nxt = []
            for x in cur:
                nxt += self.declvar(d, x)
            cur = nxt
        return [(x, None) for x in cur]

    def s_if(self, s, st):
        st.sc.append([])
        cur = [(st, None)]
        if s.get("init"):
            cur = self.exec(s["init"], st)
        if s.get("cvar"):
            cur = [(x, None) for y, _ in cur for x in self.declvar(s["cvar"], y)]
        res = []
        for x, _ in cur:
            for y, v in self.evs(s["c"], x):
                for z, b in self.branch(y, v):
                    res += self.exec(s["t"] if b else s.get("e"), z)
        out = []
        for x, c in res:
            for y in self.popscope(x):
                out.append((y, c))
        return out

    def s_ret(self, s, st):
        fr = self.frame
        e = s.get("e")
        if e is None:
            return [(st, ("ret", VOID))]
        rt = fr.rt
        out = []
        if is_ref(rt):
            for x, v in self.ev(e, st):
                out.append((x, ("ret", ("ref", self.place(x, v)))))
        elif rt and self.is_class(rt) and base_type(rt) != "void":
            p = self.tmp(st)
            for x in self.ev_into(e, st, p, rt):
                out.append((x, ("ret", ("obj", p))))
        else:
            for x, v in self.ev(e, st):
                out.append((x, ("ret", self.scal(x, v) if v != VOID else VOID)))
        return out

    def s_break(self, s, st):
        return [(st, ("brk",))]

    def s_cont(self, s, st):
        return [(st, ("cont",))]

    def s_goto(self, s, st):
        self.unknown["goto"] = 1
        return [(st, None)]

    def s_label(self, s, st):
        return self.exec(s["s"], st)

    def s_try(self, s, st):
        return self.exec(s["b"], st)

    def s_case(self, s, st):
        return self.exec(s["s"], st)

    def s_default(self, s, st):
        return self.exec(s["s"], st)

    generic = False      # counting loops are summarised: no iteration, or any one of them
    ordmap = None        # callback (I, st, place) -> entries of an ordered map with known contents

    def induct(self, st, cond, body, inc):
        """(results, handled) of a loop of which each iteration only counts local integers up"""
        s0 = st.copy(); changed = {}
        for s1, v in cond(s0):
            for s2, b in self.branch(s1, v):
                if not b: continue
                for s3, c in body(s2):
                    if c is not None and c[0] != "cont": continue
                    for s4 in inc(s3):
                        for k in set(s4.m) | set(st.m):
                            if k[0] == "R" or root(k[1] if k[0] == "B" else k)[0] == "T" or s4.m.get(k) == st.m.get(k): continue
                            pl = k[1] if k[0] == "B" else k
                            if root(pl)[0] == "L" and not any(root(x[1] if x[0] == "B" else x) == root(pl) for x in st.m if x[0] != "R"): continue     # a local of the body
                            changed.setdefault(k, []).append(s4.m.get(k))
        if not changed: return None
        g = st.copy(); inv = []
        for k, vs in changed.items():
            old = st.m.get(k)
            if root(k[1] if k[0] == "B" else k)[0] != "L" or old is None or old[0] != "c" or any(v is None or v[0] != "c" or v[1] != old[1] + 1 for v in vs): return None
            w = self.fresh(g, "w"); self.unsigned.add(w); g.m[k] = w; inv.append((w, old))
        out = []
        for s1, v in cond(st.copy()):
            for s2, b in self.branch(s1, v):
                if not b: out.append((s2, None))
        gs = [g]
        for w, old in inv:
            gs = [s for s in gs if self.assume(s, ("op", "<", w, old), False)]
        for g in gs:
            self.emit(g, "iteration")
            for s1, v in cond(g):
                for s2, b in self.branch(s1, v):
                    if not b: out.append((s2, None)); continue
                    for s3, c in body(s2):
                        if c is None or c[0] == "cont": continue
                        out.append((s3, None) if c[0] == "brk" else (s3, c))
        return out

    def loop(self, st, cond, body, inc, first_body=False):
        if self.generic and not first_body:
            r = self.induct(st, cond, body, inc)
            if r is not None: return r
        out = []
        cur = [(st, 0, 0, None)]
        while cur:
            nxt = []
            for s, sym, it, snap in cur:
                if sym > self.loops or it > 300:
                    self.widen(s, snap)
                    s.flags.add("widened")
                    for s2, v in cond(s):
                        if self.assume(s2, v, False):
                            out.append((s2, None))
                    continue
                pre = dict(s.m)
                entries = []
                if first_body and it == 0:
                    entries = [(s, True, sym)]
                else:
                    for s2, v in cond(s):
                        r = self.branch(s2, v)
                        ns = sym + 1 if len(r) > 1 else sym
                        for s3, b in r:
                            entries.append((s3, b, ns))
                    if len(entries) > 1 and all(x[2] == sym for x in entries):
                        entries = [(a, b, sym + 1) for a, b, _ in entries]
                for s3, b, ns in entries:
                    if not b:
                        out.append((s3, None)); continue
                    rs = body(s3)
                    if len(rs) > 1:
                        ns2 = max(ns, sym + 1)
                    else:
                        ns2 = ns
                    for s4, c in rs:
                        if c is None or c[0] == "cont":
                            for s5 in inc(s4):
                                nxt.append((s5, ns2, it + 1, pre))
                        elif c[0] == "brk":
                            out.append((s4, None))
                        else:
                            out.append((s4, c))
            cur = nxt
            if len(cur) + len(out) > self.maxpaths:
                raise Limit("path limit in loop")
        return out

    def widen(self, st, snap):
        if snap is None:
            return
        for k in list(st.m):
            if k[0] == "R":
                continue
            if snap.get(k) != st.m[k]:
                st.m[k] = self.fresh(st, "w")
                if (k[1] if k[0] == "B" else k)[-1] == "#size":
                    self.unsigned.add(st.m[k])

    def s_while(self, s, st):
        st.sc.append([])

        def cond(x):
            if s.get("cvar"):
                r = []
                for y in self.declvar(s["cvar"], x):
                    r += self.evs(s["c"], y)
                return r
            return self.evs(s["c"], x)
        res = self.loop(st, cond, lambda x: self.exec(s["b"], x), lambda x: [x])
        return self._unscope(res)

    def s_do(self, s, st):
        st.sc.append([])
        res = self.loop(st, lambda x: self.evs(s["c"], x), lambda x: self.exec(s["b"], x), lambda x: [x], first_body=True)
        return self._unscope(res)

    def _unscope(self, res):
        out = []
        for x, c in res:
            for y in self.popscope(x):
                out.append((y, c))
        return out

    def s_for(self, s, st):
        st.sc.append([])
        out = []
        for x, _ in (self.exec(s["init"], st) if s.get("init") else [(st, None)]):
            out += self.loop(x, lambda y: self.evs(s["c"], y) if s.get("c") else [(y, TRUE)], lambda y: self.exec(s["b"], y),
                             lambda y: [z for z, _ in self.ev(s["inc"], y)] if s.get("inc") else [y])
        return self._unscope(out)

    def s_rfor(self, s, st):
        st.sc.append([])
        cur = [(st, None)]
        for part in ("init", "rv", "bs", "es"):
            if s.get(part):
                nxt = []
                for x, _ in cur:
                    nxt += self.exec(s[part], x)
                cur = nxt

        def body(x):
            x.sc.append([])
            r = []
            for y in self.declvar(s["var"], x):
                r += self.exec(s["b"], y)
            o = []
            for y, c in r:
                for z in self.popscope(y):
                    o.append((z, c))
            return o
        out = []
        for x, _ in cur:
            out += self.loop(x, lambda y: self.evs(s["c"], y), body, lambda y: [z for z, _ in self.ev(s["inc"], y)])
        return self._unscope(out)

    def s_switch(self, s, st):
        st.sc.append([])
        cur = [(st, None)]
        if s.get("init"):
            cur = self.exec(s["init"], st)
        flat = []       # (labels, stmt)
        body = s["b"]["s"] if s["b"] and s["b"]["k"] == "block" else [s["b"]]

        def add(x):
            labels = []
            while x is not None and x["k"] in ("case", "default"):
                labels.append(x["v"] if x["k"] == "case" else None)
                x = x["s"]
            flat.append((labels, x))
        for x in body:
            add(x)
        labels = [(i, l) for i, (ls, _) in enumerate(flat) for l in ls]
        stm = [x for _, x in flat]
        res = []
        for x, _ in cur:
            for y, v in self.evs(s["c"], x):
                rest = y
                dflt = None
                dead = False
                for i, l in labels:
                    if l is None:
                        dflt = i
                        continue
                    lv = self.evs(l, rest)[0][1]
                    br = self.branch(rest, self.binop(rest, "==", v, lv))
                    rest2 = None
                    for z, b in br:
                        if b:
                            z.sc.append([])
                            res += self._unscope(self.seq(stm[i:], z))
                        else:
                            rest2 = z
                    if rest2 is None:
                        dead = True
                        break
                    rest = rest2
                if not dead:
                    if self.exhausted(rest, v, s.get("t", "")):
                        rest.flags.add("badenum")
                    if dflt is not None:
                        rest.sc.append([])
                        res += self._unscope(self.seq(stm[dflt:], rest))
                    else:
                        res.append((rest, None))
        out = []
        for x, c in res:
            if c is not None and c[0] == "brk":
                c = None
            for y in self.popscope(x):
                out.append((y, c))
        return out

    def exhausted(self, st, v, t):
        """has every enumerator been excluded"""
        e = self.db.E.get(base_type(t))
        if not e or isc(v):
            return False
        return all(self.rel(st, "==", v, C(int(n))) is False for n in e["v"].values())

    # ---------------------------------------------------------------- entry
    def run(self, fn, args=None, this=("A", "this"), setup=None):
        """all paths through fn -> list of Path"""
        st = St()
        self.fin = []
        self.steps = 0
        self.stack = []
        self.frame = None
        self.fid = 0
        args = args or {}
        if setup:
            setup(self, st)
        vs = []
        for i, p in enumerate(fn.get("p", [])):
            a = args.get(i, args.get(p["n"]))
            if a is not None:
                vs.append(a)
                continue
            pl = ("A", p["n"])
            if is_ref(p["t"]) or self.is_class(p["t"]):
                vs.append(("ref", pl))
            else:
                v = ("in", pl)
                b = self.ibits(p["t"])
                if b and not b[1]:
                    self.unsigned.add(v); self.wid[v] = b[0]
                vs.append(v)
        isobj = fn.get("c") and not fn.get("static")
        self.cur = (fn["sq"], fn["file"], fn["l"])
        res = self.inline(fn, st, this if isobj else None, vs, [])
        out = [Path(s, "ret", v) for s, v in res]
        out += [Path(s, k, VOID) for s, k in self.fin]
        self.fin = []
        return out


SIDE = re.compile(r"score::os::|score::filesystem::|.*::(Create|Remove|Send|Write|Register|Unregister|Post|Connect|Open|Close)\w*$")  # const-qualified, but not functions of their arguments

def _cont(self, st, fn, args=None, this=("A", "this")):
    """continue a finished path with another call -> list of (state, outcome, value)"""
    self.fin = []
    self.stack = []; self.frame = None
    vs = []
    args = args or {}
    for p in fn.get("p", []):
        a = args.get(p["n"])
        if a is None:
            pl = ("A", p["n"])
            a = ("ref", pl) if is_ref(p["t"]) or self.is_class(p["t"]) else ("in", pl)
        vs.append(a)
    self.cur = (fn["sq"], fn["file"], fn["l"])
    res = self.inline(fn, st, this if fn.get("c") and not fn.get("static") else None, vs, [])
    out = [Path(s, "ret", v) for s, v in res] + [Path(s, k, VOID) for s, k in self.fin]
    self.fin = []
    return out


Interp.cont = _cont

PURE_CTOR = {"std::basic_string", "std::basic_string_view", "score::filesystem::Path", "score::safecpp::zstring_view", "std::chrono::duration", "std::chrono::time_point",
             "score::memory::DataTypeSizeInfo", "score::cpp::pmr::polymorphic_allocator", "std::thread::id"}
PURE_FN = {"std::to_string", "std::operator+", "std::hash::operator()", "std::numeric_limits::max", "std::numeric_limits::min", "std::chrono::operator+", "score::cpp::to_underlying",
           "score::filesystem::operator/", "std::type_index::hash_code"}
