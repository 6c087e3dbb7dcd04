"""Linear integer forms of terms under the facts of a state: sums of bit-segment atoms with integer coefficients.

A truncation of a sum is the sum itself when the facts bound it to the truncated width; otherwise it stays an atom."""
from absint import isc, C
import itertools


class Lin:
    def __init__(self, I, st, cuts=None, wid=None, zero=()):
        self.I, self.st, self.cuts = I, st, dict(cuts or {})
        self.wid = dict(wid or {})          # widths of leaves the interpreter does not know
        self.zero = set(zero)               # atoms known to be zero by an invariant
        self._facts = None; self._busy = set()

    # ---- forms: dict atom -> coefficient, key 1 is the constant
    @staticmethod
    def add(a, b, k=1):
        r = dict(a)
        for x, v in b.items():
            r[x] = r.get(x, 0) + k * v
            if r[x] == 0: del r[x]
        return r

    def width(self, t):
        return self.wid.get(t, self.I.wid.get(t)) or (64 if t[0] == "addr" else None)

    def atom(self, src, lo, n, scale):
        out = {}; pos = lo
        for cut in [x for x in self.cuts.get(src, ()) if lo < x < lo + n] + [lo + n]:
            a = ("seg", src, pos, cut - pos)
            if a not in self.zero: out[a] = scale << (pos - lo)
            pos = cut
        return out

    def lin(self, t):
        if isc(t): return {1: t[1]} if t[1] else {}
        h = t[0]
        if h == "null": return {}
        if h == "op" and t[1] in ("+", "-") and len(t) == 4:
            return self.add(self.lin(t[2]), self.lin(t[3]), 1 if t[1] == "+" else -1)
        if h == "op" and t[1] == "u-" and len(t) == 3:
            return self.add({}, self.lin(t[2]), -1)
        if h == "op" and t[1] == "*" and len(t) == 4 and (isc(t[2]) or isc(t[3])):
            k, x = (t[2][1], t[3]) if isc(t[2]) else (t[3][1], t[2])
            return {a: v * k for a, v in self.lin(x).items()} if k else {}
        if h in ("bv", "trunc"):
            r = {}; pos = 0
            for s, v, n in self.I.tosegs(t, 64):
                if s is None:
                    r = self.add(r, {1: v << pos} if v else {})
                else:
                    r = self.add(r, self.seg(s, v, n, pos))
                pos += n
            return r
        if h == "strunc":
            x = self.lin(t[2])
            if self.within(x, -(1 << (t[1] - 1)), (1 << (t[1] - 1)) - 1): return x
            return {("val", t): 1}
        n = self.width(t)
        return self.atom(t, 0, n, 1) if n else {("val", t): 1}

    def seg(self, s, lo, n, pos):
        if s[0] in ("op", "strunc") and lo == 0:
            x = self.lin(s)
            if self.within(x, 0, (1 << n) - 1): return {a: v << pos if v >= 0 else -((-v) << pos) for a, v in x.items()}
        return self.atom(s, lo, n, 1 << pos)

    # ---- bounds
    def facts(self):
        """linear forms that are <= 0"""
        if self._facts is None:
            acc = []
            for f, v in list(self.st.f.items()):
                if f[0] == "op" and f[1] == "<":
                    a, b = self.lin(f[2]), self.lin(f[3])
                    acc.append(self.add(self.add(a, b, -1), {1: 1}) if v else self.add(b, a, -1))
                elif f[0] == "op" and f[1] == "<=":
                    a, b = self.lin(f[2]), self.lin(f[3])
                    acc.append(self.add(a, b, -1) if v else self.add(self.add(b, a, -1), {1: 1}))
                elif f[0] == "op" and f[1] == "==":
                    a, b = self.lin(f[2]), self.lin(f[3])
                    d = self.add(a, b, -1)
                    if v:
                        acc += [d, self.add({}, d, -1)]
                    else:
                        acc.append(("ne", d))
            fs = [x for x in acc if not isinstance(x, tuple)]
            for x in [x[1] for x in acc if isinstance(x, tuple)]:       # a != b sharpens a <= b
                for s in (1, -1):
                    y = self.add({}, x, s)
                    if self.rng(y)[1] is not None and self.rng(y)[1] <= 0 or y in fs:
                        fs.append(self.add(y, {1: 1}))
            self._facts = fs
        return self._facts

    def rng(self, x):
        lo = hi = x.get(1, 0)
        for a, k in x.items():
            if a == 1: continue
            if a[0] == "seg":
                m = (1 << a[3]) - 1
                if k > 0: hi = None if hi is None else hi + k * m
                else: lo = None if lo is None else lo + k * m
            else:
                lo = hi = None
        return lo, hi

    def le0(self, x, depth=3):
        """x <= 0 follows from the facts"""
        hi = self.rng(x)[1]
        if hi is not None and hi <= 0: return True
        if self._facts is None and "f" in self._busy: return False
        if depth == 0: return False
        self._busy.add("f")
        try:
            fs = self.facts()
        finally:
            self._busy.discard("f")
        for f in fs:
            ms = {1 if x[a] % k else x[a] // k for a, k in f.items() if a != 1 and a in x and (x[a] > 0) == (k > 0)}
            for m in sorted(ms):
                if self.le0(self.add(x, f, -m), depth - 1): return True
        return False

    def contra(self, depth=3):
        """the facts contradict each other"""
        return any(self.le0(self.add({1: 1}, f, -1), depth) for f in list(self.facts()))

    def within(self, x, lo, hi):
        return self.le0(self.add(x, {1: -hi})) and self.le0(self.add({1: lo}, x, -1))

    def show(self, x):
        from absint import show
        return " + ".join(("%d" % k) if a == 1 else "%s%s" % ("" if k == 1 else "%d*" % k, show(a[1]) + ("" if a[0] == "val" else "[%d..%d]" % (a[2], a[2] + a[3] - 1))) for a, k in x.items()) or "0"


def evaluate(t, env):
    """value of a term under an assignment of its leaves, None if it has others"""
    if t[0] == "c": return t[1]
    if t in env: return env[t]
    if t[0] == "trunc":
        v = evaluate(t[2], env); return None if v is None else v & ((1 << t[1]) - 1)
    if t[0] == "op" and len(t) == 4:
        a, b = evaluate(t[2], env), evaluate(t[3], env)
        if a is None or b is None: return None
        try:
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "%": lambda: a % b, "/": lambda: a // b, "<": lambda: int(a < b), "<=": lambda: int(a <= b),
                    "==": lambda: int(a == b), "!=": lambda: int(a != b), "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b, "<<": lambda: a << b, ">>": lambda: a >> b,
                    "&&": lambda: int(a and b), "||": lambda: int(a or b)}[t[1]]()
        except (KeyError, ZeroDivisionError): return None
    if t[0] == "op" and t[1] in ("!", "~"):
        a = evaluate(t[2], env); return None if a is None else int(not a) if t[1] == "!" else ~a
    return None


def values(p, t, dom):
    """assignments of the leaves of t to values of their domains which agree with the facts of the path"""
    lv = [x for x in leaves(t)]
    fs = [(k, v) for k, v in p.st.f.items() if set(leaves(k)) <= set(lv)]
    for xs in itertools.product(*[dom.get(x, range(256)) for x in lv]):
        env = dict(zip(lv, xs))
        if all(evaluate(k, env) in (None, int(bool(v))) for k, v in fs): yield env


def leaves(t):
    if t[0] == "c": return
    if t[0] == "op":
        for x in t[2:]: yield from leaves(x)
    elif t[0] in ("trunc", "strunc"): yield from leaves(t[2])
    else: yield t


def ongrid(paths, dom):
    """for each assignment of values to leaves: the assignment and the values returned by the paths whose conditions agree with it"""
    ps = [(p, list(p.st.f.items())) for p in paths]
    ks = list(dom)
    for xs in itertools.product(*[dom[k] for k in ks]):
        env = dict(zip(ks, xs)); r = []
        for p, fs in ps:
            if any(evaluate(k, env) not in (None, int(bool(v))) for k, v in fs): continue
            r.append((p, None if p.out != "ret" else evaluate(p.I.scal(p.st, p.ret), env)))
        yield env, r
