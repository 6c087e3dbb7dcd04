"""P22: value types of the API and of the configuration: equality, order and hash"""
import itertools, re
from core import prop, name, fwhere, split
from db import CheckError
from absint import base_type, strip_targs, show, subterms, mkaddr

TUS = ["score/mw/com/impl/*.cpp", "score/mw/com/impl/configuration/*.cpp", "score/mw/com/impl/tracing/*.cpp",
       "score/mw/com/impl/tracing/configuration/*.cpp", "score/mw/com/impl/bindings/lola/*.cpp",
       "score/mw/com/impl/bindings/lola/methods/*.cpp", "score/mw/com/impl/bindings/lola/service_discovery/*.cpp"]
NS = "score::mw::com::impl::"
# members which take no part in equality on purpose: (class, type of the member) -> reason
EXEMPT = {
    (NS + "lola::ElementFqId", r"ServiceElementType$"): "service, element and instance id identify an element uniquely",
    (NS + "ServiceInstanceDeployment", r"ServiceIdentifierType$"): "compared by the instance identifier which refers to the deployment",
    (NS + "ServiceInstanceDeployment", r"InstanceSpecifier$"): "names the deployment, does not describe it",
    (NS + "InstanceIdentifier", r"ServiceTypeDeployment \*$"): "determined by the service type",
}
# types whose order is documented to be coarser than their equality
WEAK = NS + "LolaServiceInstanceDeployment"
NEEDED = ["lola::ElementFqId", "lola::ProxyMethodInstanceIdentifier", "lola::ProxyInstanceIdentifier", "lola::SkeletonInstanceIdentifier", "lola::UniqueMethodIdentifier",
          "lola::LolaServiceInstanceIdentifier", "LolaServiceInstanceId", "LolaServiceInstanceDeployment", "LolaEventInstanceDeployment", "LolaFieldInstanceDeployment",
          "ServiceIdentifierType", "ServiceInstanceDeployment", "ServiceInstanceId", "ServiceVersionType", "FieldTagsStore", "FindServiceHandle", "HandleType",
          "InstanceIdentifier", "InstanceSpecifier", "tracing::TracePointKey", "tracing::ServiceElementIdentifierView"]


class Op:
    def __init__(self, f, paths):
        self.f, self.paths = f, paths        # paths: (literals [(term, bool)], result, path)
        self.leaves = set()


def term_path(t):
    """(root, path) of a term naming (part of) one of the two operands"""
    if t[0] == "in" and t[1] in (("A", "a"), ("A", "b")):
        return t[1][1], ""
    if t[0] == "fld":
        r = term_path(t[1])
        return r and (r[0], r[1] + "." + t[2])
    if t[0] == "deref":
        r = term_path(t[1])
        return r and (r[0], r[1] + ".*")
    return None


def group(path):
    """the member a leaf belongs to: presence and contained value of an optional, alternative and payload of a variant go together"""
    return re.split(r"\.#(?:has|val|alt|T:)", path)[0]


def leaves(t, out):
    p = term_path(t) if isinstance(t, tuple) and t else None
    if p:
        out.add(p)
        return
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple): leaves(x, out)


class Undecided(CheckError):
    pass


def ev(t, env):
    """value of a term for concrete member values; env(root, path)"""
    h = t[0]
    if h == "c": return t[1]
    if h == "str": return t[1]
    p = term_path(t)
    if p: return env(*p)
    if h == "op":
        if t[1] == "!": return not ev(t[2], env)
        if t[1] == "&&": return bool(ev(t[2], env) and ev(t[3], env))
        if t[1] == "||": return bool(ev(t[2], env) or ev(t[3], env))
        x, y = ev(t[2], env), ev(t[3], env)
        if x is UNDEF or y is UNDEF: return False
        if t[1] == "==": return x == y
        if t[1] == "<":
            if isinstance(x, Weak): return x.rank < y.rank
            return x < y
    raise Undecided(show(t))


class Weak:
    """value of a type whose order is coarser than its equality"""
    def __init__(self, rank, tag): self.rank, self.tag = rank, tag
    def __eq__(self, o): return isinstance(o, Weak) and (self.rank, self.tag) == (o.rank, o.tag)
    def __hash__(self): return hash((self.rank, self.tag))


UNDEF = object()


class Shape:
    """values a member can take, up to isomorphism: three per ordered leaf"""
    def __init__(self, paths, weak, alts):
        self.kind = "leaf"
        sub = sorted(p for p in paths if "#" in p)
        if any(re.search(r"\.#has$|\.#val", p) for p in sub): self.kind = "opt"
        elif sub: self.kind = "var"
        if self.kind == "leaf":
            self.vals = [Weak(r, t) for r in (0, 1) for t in (0, 1)] if weak else [0, 1, 2]
        elif self.kind == "opt":
            self.vals = [None, 0, 1, 2]
        else:
            self.vals = []
            for a in alts:
                pl = any(("#T:" + a) in p for p in sub)
                self.vals += [(a, v) for v in ((0, 1, 2) if pl else (0,))]

    def get(self, v, rest):
        if self.kind == "leaf": return v
        if rest == "": return (v is not None, v or 0) if self.kind == "opt" else v
        if self.kind == "opt":
            if rest.startswith("#has"): return v is not None
            if rest.startswith("#val"): return UNDEF if v is None else v
            raise Undecided(rest)
        if rest == "#alt": return v[0]
        m = re.match(r"#T:(.*?)(\.|$)", rest)
        if m: return v[1] if v[0] == rest[3:len(v[0]) + 3] else UNDEF
        raise Undecided(rest)


@prop("P22", TUS, inst=("memory",))
def p22(c):
    c.rule("R1", "two values of a type compare equal exactly when every member that can differ between them compares equal")
    c.rule("R2", "the less-than operator of a type is a strict weak order: irreflexive, asymmetric, transitive, and incomparability is transitive")
    c.rule("R3", "equal values are never ordered, and unequal values are ordered (the order of service instance deployments is documented to look at the instance id only)")
    c.rule("R4", "the hash of a value is computed from members that take part in its equality, so that equal values have equal hashes")
    c.rule("R5", "comparison leaves both operands unchanged")
    c.rule("R6", "containers compare equal only with equally many elements, all of them equal")
    D = c.db
    ops = {}
    hashes = {}
    for f in D.F.values():
        if f.get("body") is None or not f.get("repo", True): continue
        n = f["sq"].rsplit("::", 1)[-1]
        pt = [base_type(x["t"]) for x in f.get("p", [])]
        if n in ("operator==", "operator<", "operator!=", "operator>", "operator<=", "operator>="):
            t = pt[0] if len(pt) == 2 and pt[0] == pt[1] and not f.get("c") else pt[0] if len(pt) == 1 and f.get("c") and base_type(f["c"]) == pt[0] else None
            if t and "vfinst" not in t and "::shared::" not in t and t.startswith(NS) and t in D.C and "Mock" not in t:
                ops.setdefault(t, {})[n[8:]] = f
        elif n == "operator()" and (f.get("c") or "").startswith("std::hash<") and pt and pt[0].startswith(NS):
            hashes[pt[0]] = f
    missing = [x for x in NEEDED if NS + x not in ops]
    if missing:
        raise CheckError("anchor vanished: no comparison of " + ", ".join(missing))
    comps = {}
    for t, m in ops.items():
        for f in m.values(): comps.setdefault(f["sq"], set()).add(f["u"])

    def comparison(own):
        """hook: comparisons of members of another type are terms of their own; their operators are judged separately"""
        def hook(I, st, e, op, vs):
            f = e["f"] if isinstance(e.get("f"), dict) else {}
            args = ([("ref", op)] if op is not None else []) + list(vs)
            if len(args) != 2 or I.hook_depth_off: return None
            import models
            pl = []
            for v in args:
                try: pl.append(models.src_place(I, st, v))
                except Exception: return None
            if {pl[0], pl[1]} <= {("A", "a"), ("A", "b")}: return None
            g = D.F.get(f.get("u"))
            if g is None: return None
            pt = [base_type(x["t"]) for x in g.get("p", [])]
            ty = pt[0] if pt else ""
            if ty not in ops or (len(pt) == 2 and pt[0] != pt[1]) or ty == own: return None
            o = g["sq"].rsplit("::", 1)[-1][8:]
            a, b = I.read(st, pl[0]), I.read(st, pl[1])
            if not (term_path(a) and term_path(b)): return None
            return [(st, I.binop(st, o, a, b, "bool"))]
        return hook

    memo = {}

    def table(t, n, deep=False):
        """the operator as a list of (literals, result, path)"""
        k = (t, n, deep)
        if k in memo: return memo[k]
        f = ops[t][n]
        args, this = {}, ("A", "a")
        if len(f["p"]) == 2:
            args = {f["p"][0]["n"]: ("ref", ("A", "a")), f["p"][1]["n"]: ("ref", ("A", "b"))}
        else:
            args = {f["p"][0]["n"]: ("ref", ("A", "b"))}
        hk = comparison(t)

        def setup(I, st): I.hook_depth_off = deep
        r = []
        for p in c.run(f, args=args, this=this, setup=setup, hooks={sq: hk for sq in comps}):
            if p.out == "abort": continue
            if p.out != "ret":
                c.bad("R1", name(f), fwhere(f), "comparison leaves by %s" % p.out, p); continue
            w = [e for e in p.tr if e.k == "wr" and e.p[0] == "F" and not p.I.local(e.p)]
            c.check("R5", not w, name(f), fwhere(f), "comparison modifies its operand", p, inst=name(f))
            v = p.I.scal(p.st, p.ret)
            for s, b in p.I.branch(p.st, v):
                # comparing the addresses of the operands: the same object is equal to itself
                ad = [y for x, y in s.f.items() if x[0] == "op" and x[1] == "==" and {x[2], x[3]} == {mkaddr(("A", "a")), mkaddr(("A", "b"))}]
                if ad and ad[0]:
                    c.check("R1", b == (n in ("==", "<=", ">=")), name(f), fwhere(f), "an object compares %s itself" % ("unequal to" if n in ("==", "!=") else "less than"), p, inst=t + " same object")
                    continue
                for x in list(s.f):
                    if ad and x[0] == "op" and {x[2], x[3]} == {mkaddr(("A", "a")), mkaddr(("A", "b"))}: del s.f[x]
                r.append(([(x, y) for x, y in s.f.items()], bool(b), type(p)(s, p.out, p.ret)))
        memo[k] = r
        return r

    def clean(path):
        return path.replace(".*", "").lstrip(".")

    def member_type(t, path):
        """type of the member named by a path"""
        ty = t
        for x in path.lstrip(".").split("."):
            if x == "*":
                ty = base_type(re.sub(r"\s*\*( const)?$", "", ty)); continue
            if x.startswith("#"): return None
            cl = D.C.get(base_type(ty))
            fs = {y["n"]: y["t"] for y in (allfields(cl) if cl else [])}
            if x not in fs: return None
            ty = fs[x]
        return ty

    def allfields(cl):
        r = list(cl["fields"])
        for b in cl.get("bases", []):
            bn = b["t"] if isinstance(b, dict) else b
            k = D.C.get(base_type(bn))
            if k: r += allfields(k)
        return r

    wmemo = {}

    def is_weak(ty):
        """the type is, or is built from, the one with the coarser order"""
        if ty is None: return False
        if ty in wmemo: return wmemo[ty]
        wmemo[ty] = False
        names = set(re.findall(r"score::mw::com::impl::[\w:]+", ty))
        r = WEAK in names or any(is_weak(fl["t"]) for x in names if x in ops and "<" in ops[x] for fl in allfields(D.C[x]))
        wmemo[ty] = r
        return r

    def variant_alts(ty):
        m = re.search(r"std::variant<(.*)>", ty or "")
        if not m: return []
        r, d, cur = [], 0, ""
        for ch in m.group(1):
            if ch == "<": d += 1
            if ch == ">": d -= 1
            if ch == "," and d == 0: r.append(cur.strip()); cur = ""; continue
            cur += ch
        return r + [cur.strip()]

    def shapes(t, tabs):
        """member groups of all literals -> Shape"""
        ps = {}
        alts = {}
        for tab in tabs:
            for lits, _, _ in tab:
                for x, _ in lits:
                    s = set(); leaves(x, s)
                    for root, path in s: ps.setdefault(group(path), set()).add(path)
                    if x[0] == "op" and x[1] == "==":
                        for l, r in ((x[2], x[3]), (x[3], x[2])):
                            p = term_path(l)
                            if p and p[1].endswith("#alt") and r[0] == "str": alts.setdefault(group(p[1]), set()).add(r[1])
        out = {}
        for g, p in ps.items():
            ty = member_type(t, g)
            names = []
            for a in variant_alts(ty):
                k = [x for x in alts.get(g, ()) if a == x or a.endswith("::" + x)]
                names.append(k[0] if k else a)
            if any("#alt" in x for x in p) and not names:
                names = sorted(alts.get(g, ())) + ["(other)"]
            out[g] = Shape(p, is_weak(ty), names)
        return out

    def literal_groups(lits):
        r = {}
        for x, y in lits:
            s = set(); leaves(x, s)
            gs = {group(p) for _, p in s}
            if not gs: continue
            if len(gs) > 1: raise Undecided("literal over several members: " + show(x))
            r.setdefault(gs.pop(), []).append((x, y))
        return r

    def sat(sh, g, lits, va, vb):
        def env(root, path):
            return sh.get(va if root == "a" else vb, path[len(g) + 1:])
        return all(bool(ev(x, env)) == y for x, y in lits)

    def whole_cover(t, groups, seen=()):
        """members of t that can differ and do not take part"""
        miss = []
        for fl in allfields(D.C[t]):
            n = "." + fl["n"]
            if fl.get("static") or exempt(t, fl) or cached(t, fl): continue
            if n in groups or n + ".*" in groups: continue
            sub = {g[len(n):] for g in groups if g.startswith(n + ".")}
            sub = {g[2:] if g.startswith(".*") else g for g in sub}
            ty = base_type(re.sub(r"\s*\*( const)?$", "", fl["t"]))
            if sub and ty in D.C and ty not in seen and not whole_cover(ty, sub, seen + (t,)): continue
            miss.append(fl["n"])
        return miss

    def exempt(t, fl):
        return any(k == t and re.search(rx, fl["t"].replace(" const", "").replace("const ", "")) for k, rx in EXEMPT)

    def cached(t, fl):
        """a member which no constructor sets from a parameter: it is derived from the others"""
        if not re.search(r"basic_string", fl["t"]): return False
        return derived(t, fl["n"])

    dmemo = {}

    def derived(t, n):
        if (t, n) in dmemo: return dmemo[(t, n)]
        cs = [f for f in D.F.values() if f.get("kind") in ("ctor", None) and base_type(f.get("c") or "") == t and f["sq"].rsplit("::", 1)[-1] == strip_targs(t).rsplit("::", 1)[-1] and (f.get("ini") or f.get("body") is not None)]
        r = False
        for f in cs:
            pn = {x["n"] for x in f.get("p", []) if x.get("n")}
            for i in f.get("ini") or []:
                if (i.get("f") or i.get("n")) != n: continue
                e = i.get("e") or i.get("a")
                r = r or calls_repo(e)
        dmemo[(t, n)] = r
        return r

    def calls_repo(e):
        if isinstance(e, dict):
            if e.get("k") == "call" and isinstance(e.get("f"), dict) and str(e["f"].get("sq") or e["f"].get("q") or "").startswith("score::mw::com") : return True
            return any(calls_repo(x) for x in e.values())
        if isinstance(e, list): return any(calls_repo(x) for x in e)
        return False

    done = set()
    for t in sorted(ops):
        m = ops[t]
        if "==" not in m: continue
        feq = m["=="]
        try:
            teq = table(t, "==")
            sh = shapes(t, [teq])
            groups = set(sh)
            for lits, res, p in teq:
                lg = literal_groups(lits)
                if res:
                    feasible = all(any(sat(sh[g], g, l, x, y) for x in sh[g].vals for y in sh[g].vals) for g, l in lg.items())
                    if not feasible: continue
                    for g in sorted(groups):
                        l = lg.get(g, [])
                        w = [(x, y) for x in sh[g].vals for y in sh[g].vals if x != y and sat(sh[g], g, l, x, y)]
                        c.check("R1", not w, name(feq), fwhere(feq), "values of %s that differ in %s compare equal" % (t.rsplit("::", 1)[-1], clean(g)), p, inst="%s.%s" % (t, clean(g)))
                else:
                    same = all(any(sat(sh[g], g, l, x, x) for x in sh[g].vals) for g, l in lg.items())
                    c.check("R1", not same, name(feq), fwhere(feq), "values of %s with equal members compare different" % t.rsplit("::", 1)[-1], p, inst="%s equal members" % t)
            for x in whole_cover(t, groups):
                c.bad("R1", name(feq), fwhere(feq), "values of %s that differ only in %s compare equal" % (t.rsplit("::", 1)[-1], x))
            for x in groups: c.ok("R1", "%s.%s takes part" % (t, clean(x)))
            # derived operators
            if "!=" in m:
                for lits, res, p in table(t, "!="):
                    lg = literal_groups(lits)
                    sh2 = shapes(t, [teq, [(lits, res, p)]])
                    alleq = all(any(sat(sh2[g], g, l, x, x) for x in sh2[g].vals) for g, l in lg.items())
                    if res: c.check("R1", not alleq, name(m["!="]), fwhere(m["!="]), "equal values compare unequal", p, inst=t + " !=")
                    else:
                        w = [g for g in groups for x in sh2[g].vals for y in sh2[g].vals if x != y and sat(sh2[g], g, lg.get(g, []), x, y)]
                        c.check("R1", not w, name(m["!="]), fwhere(m["!="]), "different values are reported as not unequal", p, inst=t + " not !=")
        except Undecided as e:
            raise CheckError("P22: comparison %s is not built from comparisons of the members (%s)" % (name(feq), e))
        if "<" in m:
            order(c, t, m["<"], table, shapes, literal_groups, sat, teq, clean)
            done.add(t)
        if t in hashes:
            hash_of(c, t, hashes[t], groups, lambda fl: exempt(t, fl) or cached(t, fl), allfields, hashes)
    containers(c)
    c.need("R2", 6, "ordered value types")
    c.need("R4", 6, "hashed value types")


def order(c, t, f, table, shapes, literal_groups, sat, teq, clean):
    T = t.rsplit("::", 1)[-1]
    try:
        tlt = table(t, "<")
        sh = shapes(t, [teq, tlt])
        lgs = [(literal_groups(l), r, p) for l, r, p in tlt]
    except Undecided as e:
        raise CheckError("P22: order %s is not built from comparisons of the members (%s)" % (name(f), e))
    gs = sorted({g for lg, _, _ in lgs for g in lg})
    eqonly = sorted(set(sh) - set(gs))
    # classes of value pairs per member: pairs the operator cannot tell apart
    cls, rep = {}, {}
    for g in gs:
        ls = [l[g] for l, _, _ in lgs if g in l]
        for x in sh[g].vals:
            for y in sh[g].vals:
                k = (tuple(sat(sh[g], g, l, x, y) for l in ls), tuple(sat(sh[g], g, l, y, x) for l in ls), x == y)
                cls.setdefault(g, {})[(x, y)] = k
                rep.setdefault(g, {}).setdefault(k, (x, y))

    def lt(assign, want_path=False):
        hit = None
        for lg, r, p in lgs:
            if all(sat(sh[g], g, l, *assign[g]) for g, l in lg.items()):
                if hit is None: hit = (r, p)
        if hit is None: return (False, None)
        return hit
    eqp = {g: [(v, v) for v in sh[g].vals] for g in gs}
    base = {g: eqp[g][0] for g in gs}
    n = 0
    allp = [list(rep[g].values()) for g in gs]
    F = {}
    for combo in itertools.product(*allp):
        a = dict(zip(gs, combo)); n += 1
        if n > 60000: raise CheckError("P22: order of %s has too many cases" % t)
        r, p = lt(a)
        b = {g: (y, x) for g, (x, y) in a.items()}
        r2, _ = lt(b)
        F[combo] = 1 if r else -1 if r2 else 0
        same = all(x == y for x, y in combo)
        diff = ", ".join(clean(g) for g, (x, y) in a.items() if x != y)
        if same:
            c.check("R2", not r, name(f), fwhere(f), "a value of %s is ordered before an equal one" % T, p, inst="%s irreflexive" % t)
        else:
            c.check("R2", not (r and r2), name(f), fwhere(f), "two values of %s differing in %s are each ordered before the other" % (T, diff), p, inst="%s asymmetric" % t)
    # sign of each member when all others agree
    sgn = {}
    for g in gs:
        for x in sh[g].vals:
            for y in sh[g].vals:
                a = dict(base); a[g] = (x, y)
                b = dict(base); b[g] = (y, x)
                sgn[(g, x, y)] = 1 if lt(a)[0] else -1 if lt(b)[0] else 0
        for x, y, z in itertools.product(sh[g].vals, repeat=3):
            s1, s2, s3 = sgn[(g, x, y)], sgn[(g, y, z)], sgn[(g, x, z)]
            ok = not (s1 == 1 and s2 == 1 and s3 != 1) and not (s1 == 0 and s2 == 0 and s3 != 0) and not (s1 == 0 and s2 == 1 and s3 != 1) and not (s1 == 1 and s2 == 0 and s3 != 1)
            c.check("R2", ok, name(f), fwhere(f), "the order of %s is not transitive in %s" % (T, clean(g)), inst="%s transitive in %s" % (t, clean(g)))
    # a strict weak order decided by the signs of the members is lexicographic in some order of the members
    left, cases = list(gs), list(F)
    while left:
        for g in left:
            i = gs.index(g)
            if all(F[k] == sgn[(g,) + k[i]] for k in cases if sgn[(g,) + k[i]] != 0): break
        else:
            bad = [k for k in cases if F[k] == 0 and any(sgn[(g,) + k[gs.index(g)]] for g in left)] or cases
            c.bad("R2", name(f), fwhere(f), "incomparability of %s values is not transitive: no member decides first, e.g. values differing in %s" % (T, ", ".join(clean(g) for g, (x, y) in zip(gs, bad[0]) if x != y)), lt(dict(zip(gs, bad[0])))[1])
            break
        left.remove(g)
        cases = [k for k in cases if sgn[(g,) + k[i]] == 0]
        c.ok("R2", "%s: %s decides" % (t, clean(g)))
    else:
        for k in cases:
            c.check("R2", F[k] == 0, name(f), fwhere(f), "%s values without a deciding member are ordered" % T, inst="%s undecided" % t)
    # agreement with equality
    if t == WEAK: return
    for g in eqonly:
        c.bad("R3", name(f), fwhere(f), "values of %s that differ only in %s are not ordered" % (T, clean(g)))
    for g in gs:
        for x in sh[g].vals:
            for y in sh[g].vals:
                if x == y: continue
                weak = isinstance(x, Weak) and x.rank == y.rank
                c.check("R3", weak or sgn[(g, x, y)] != 0, name(f), fwhere(f), "values of %s that differ only in %s are not ordered" % (T, clean(g)), inst="%s ordered by %s" % (t, clean(g)))


def containers(c):
    """comparison of a shared memory container with its standard counterpart"""
    n = 0
    for f in c.db.F.values():
        if not f["sq"].endswith("shared::operator==") or len(f.get("p", [])) != 2 or f.get("body") is None: continue
        pt = [base_type(x["t"]) for x in f["p"]]
        kind = "vector" if all(x.startswith("std::vector<") for x in pt) else "string" if all(x.startswith("std::basic_string<") for x in pt) else None
        if not kind or pt[0] == pt[1]: continue
        n += 1
        A, B = ("A", "a"), ("A", "b")
        for p in c.run(f, args={f["p"][0]["n"]: ("ref", A), f["p"][1]["n"]: ("ref", B)}):
            if p.out != "ret":
                c.bad("R6", name(f), fwhere(f), "comparison leaves by %s" % p.out, p); continue
            I = p.I
            for s, res in I.branch(p.st, I.scal(p.st, p.ret)):
                if kind == "string":
                    sa, sb = ("strlen", ("in", A)), ("strlen", ("in", B))
                    whole = I.truth(s, I.binop(s, "==", ("in", A), ("in", B)))
                    cmp_ = None
                    for k, v in s.f.items():
                        for x in [k] + list(subterms(k)):
                            if isinstance(x, tuple) and x and x[0] == "pure" and x[1] == "compare":
                                cmp_ = x
                    z = None
                    if cmp_ is not None:
                        a = cmp_[3]
                        # compare(other) or compare(0, length, data, other length): whole strings on both sides
                        full = len(a) == 1 or (len(a) == 4 and a[0] == ("c", 0) and a[1] in (sa, sb) and a[3] in (sa, sb))
                        c.check("R6", full and {cmp_[2], a[0] if len(a) == 1 else a[2]} == {("in", A), ("in", B)}, name(f), fwhere(f), "the strings are not compared over their whole length: an embedded null character ends the comparison", p, inst=name(f) + " whole length")
                        z = I.truth(s, I.binop(s, "==", cmp_, ("c", 0)))
                    same = whole if whole is not None else z
                    size = I.truth(s, I.binop(s, "==", sa, sb))
                    if res: c.check("R6", same is True, name(f), fwhere(f), "strings with different characters may compare equal", p, inst=name(f) + " equal")
                    else: c.check("R6", same is False or size is False, name(f), fwhere(f), "equal strings may compare different", p, inst=name(f) + " different")
                    continue
                sz = [I.read(s, ("F", x, "#size")) for x in (A, B)]
                size = I.truth(s, I.binop(s, "==", sz[0], sz[1]))
                eqs = [e for e in p.tr if e.k == "call" and e.f == "std::equal"]
                elem = None
                for e in eqs:
                    a = [x for x in e.a]
                    rng = all(x[0] == "it" for x in a) and len(a) in (3, 4) and a[0][1] == a[1][1] and a[0][2] == ("c", 0) and a[2][2] == ("c", 0) and a[1][2] in sz and (len(a) == 3 or (a[3][1] == a[2][1] and a[3][2] in sz))
                    if not rng: continue
                    r = I.truth(s, e.res)
                    if r is None: r = I.truth(s, I.binop(s, "==", ("c", 1), e.res))
                    if len(a) == 4 or size is True: elem = r
                    if len(a) == 4 and r: size = True
                differs = [k for k, v in s.f.items() if v is False and k[0] == "op" and k[1] == "==" and all(any(isinstance(y, tuple) and y and y[0] == "E" for y in subterms(x)) for x in k[2:4])]
                if elem is None:
                    # a loop over the elements: different as soon as one pair differs, equal when the whole range was seen
                    seen = {y[2] for k, v in s.f.items() if v is True and k[0] == "op" and k[1] == "==" for y in subterms(k) if isinstance(y, tuple) and y and y[0] == "E"}
                    bound = [k for k, v in s.f.items() if v is False and k[0] == "op" and k[1] == "<" and k[3] in sz]
                    zero = any(I.truth(s, I.binop(s, "==", x, ("c", 0))) for x in sz)
                    elem = False if differs else True if (bound and seen) or zero else None
                if res: c.check("R6", size is True and elem is True, name(f), fwhere(f), "containers with different numbers of elements may compare equal, or elements behind the end are read", p, inst=name(f) + " equal")
                else: c.check("R6", size is False or elem is False, name(f), fwhere(f), "containers with equal elements may compare different", p, inst=name(f) + " different")
    if n < 4:
        raise CheckError("anchor vanished: comparison of shared memory containers")


def hash_of(c, t, f, groups, notcompared, allfields, hashes):
    ps = c.run(f, args={f["p"][0]["n"]: ("ref", ("A", "a"))}, this=("A", "this"))
    for p in ps:
        if p.out == "abort": continue
        s = set()
        leaves(p.I.scal(p.st, p.ret), s)
        for k in p.st.f: leaves(k, s)
        for e in p.tr:
            for v in e.d.values():
                if isinstance(v, tuple): leaves(v, s)
                if isinstance(v, list):
                    for x in v:
                        if isinstance(x, tuple): leaves(x, s)
        for root, path in s:
            g = group(path)
            if not g: continue
            first = g.lstrip(".").split(".")[0]
            ok = any(g == x or g.startswith(x + ".") or x.startswith(g + ".") for x in groups) or any(x == "." + first or x.startswith("." + first + ".") for x in groups)
            if not ok:
                fl = [x for x in allfields(c.db.C[t]) if x["n"] == first]
                ok = bool(fl) and re.search("basic_string", fl[0]["t"]) and notcompared(fl[0])
            c.check("R4", ok, name(f), fwhere(f), "the hash of %s depends on %s, which equal values may differ in" % (t.rsplit("::", 1)[-1], g.lstrip(".")), p, inst="%s hash from %s" % (t, g.lstrip(".")))
        c.check("R4", bool(s), name(f), fwhere(f), "the hash does not depend on the value", p, inst=t + " hash depends on the value") if not s and len(ps) == 1 else None
