"""Rule framework: obligations, evidence, known findings, replay files, exit codes."""
import glob as _glob, json, os, re, sys, time, traceback
import db as dbm
from db import CheckError, VERIF, REPO
from absint import Interp, show, Limit

PROPS = {}     # id -> (func, tus)


def prop(pid, tus, inst=()):
    """register the decision procedure of a property; tus: path globs below /repo, inst: names of instantiation units"""
    def deco(fn):
        PROPS[pid] = (fn, tuple(tus), tuple(inst))
        return fn
    return deco


class Ctx:
    def __init__(self, pid, db, tier):
        self.pid, self.db, self.tier = pid, db, tier
        self.oblig = {}          # rule -> [instances]
        self.viol = {}           # key -> dict
        self.functions = set(); self.paths = 0; self.entries = 0; self.callsites = 0
        self.notes = []
        self.rule_text = {}
        self.limits = []

    # ---- running the interpreter
    def run(self, f, maxpaths=20000, maxsteps=3000000, args=None, setup=None, this=("A", "this"), hooks=None, **kw):
        I = Interp(self.db, maxpaths=maxpaths, maxsteps=maxsteps, **kw)
        if hooks:
            I.hooks.update(hooks)
        if isinstance(f, str):
            f = self.db.fn(f)[0]
        try:
            ps = I.run(f, args=args, setup=setup, this=this)
        except Limit as e:
            raise CheckError("%s: analysis limit exceeded in %s (%s)" % (self.pid, f["q"], e))
        self.entries += 1; self.paths += len(ps)
        for x in I.functions_seen:
            self.functions.add(x[0])
        for p in ps:
            p.I = I; p.fn = f
            self.callsites += sum(1 for e in p.tr if e.k == "call")
        if not ps:
            raise CheckError("%s: no path through %s" % (self.pid, f["q"]))
        return ps

    def fns(self, sq, **kw):
        """definitions of a function, production instantiations only"""
        r = [f for f in self.db.fn(sq) if "Mock" not in f["q"] and (f.get("body") is not None)]
        for k, v in kw.items():
            r = [f for f in r if f.get(k) == v]
        if not r:
            raise CheckError("anchor vanished: no production definition of " + sq)
        return r

    def field(self, cls, rx, n=1):
        """name of the (only) field of cls whose type matches rx"""
        r = [x["n"] for x in self.db.cls(cls)[0]["fields"] if re.search(rx, x["t"])]
        if len(r) != n:
            raise CheckError("anchor vanished: %s has %d fields of type %s, expected %d" % (cls, len(r), rx, n))
        return r[0] if n == 1 else r

    # ---- obligations
    def rule(self, rid, text):
        self.rule_text[rid] = text
        self.oblig.setdefault(rid, [])

    def ok(self, rid, inst):
        self.oblig.setdefault(rid, []).append(str(inst))

    def bad(self, rid, fn, where, msg, path=None):
        """fn: name of the construct (function / class); where: file:line"""
        self.oblig.setdefault(rid, []).append("%s [violated]" % fn)
        k = (rid, fn, re.sub(r"\d+", "#", msg)[:80])
        if k in self.viol:
            return
        tr = []
        if path is not None:
            tr = ["%s" % (e,) for e in path.tr][-60:]
            tr += ["-> %s %s" % (path.out, show(path.ret) if path.ret else "")]
        self.viol[k] = {"rule": rid, "fn": fn, "where": where, "msg": msg, "trace": tr}

    def check(self, rid, cond, fn, where, msg, path=None, inst=None):
        if cond:
            self.ok(rid, inst or fn)
        else:
            self.bad(rid, fn, where, msg, path)
        return cond

    def need(self, rid, n=1, what=""):
        if len(self.oblig.get(rid, ())) < n:
            raise CheckError("%s rule %s: %d obligation(s) found, expected at least %d %s (anchor vanished?)" % (self.pid, rid, len(self.oblig.get(rid, ())), n, what))


def fwhere(f):
    return "%s:%d" % (f["file"], f["l"])


def name(f):
    return f["sq"]


def expand(tus, inst):
    out = []
    for g in tus:
        neg = g.startswith("!")
        if neg:
            rx = _glob.glob(os.path.join(REPO, g[1:]), recursive=True)
            drop = {os.path.relpath(p, REPO) for p in rx}
            out = [x for x in out if x not in drop]
            continue
        m = sorted(_glob.glob(os.path.join(REPO, g), recursive=True))
        m = [os.path.relpath(p, REPO) for p in m]
        m = [p for p in m if p.endswith(".cpp") and not dbm.is_test(p)]
        if not m:
            raise CheckError("anchor vanished: no source matches " + g)
        out += [x for x in m if x not in out]
    return out + [os.path.join(VERIF, "inst", i + ".cpp") for i in inst]


def known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def run_prop(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    fn, tus, inst = PROPS[pid]
    ev = os.path.join(VERIF, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    try:
        d = dbm.load(None if tier == "thorough" else expand(tus, inst), strict=False)
        c = Ctx(pid, d, tier)
        try:
            fn(c)
            for r in c.rule_text:
                c.need(r)
        except CheckError as e:
            kn = [k for k in known() if k.get("property") == pid and k.get("status", "known") == "known"]
            if all(any(k["rule"] == v["rule"] and k["fn"] == v["fn"] and k.get("match", "") in v["msg"] for k in kn) for v in c.viol.values()):
                raise
            c.notes.append("analysis incomplete: %s" % e)      # what was found so far is reported
    except CheckError as e:
        print("ERROR property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ERROR property=%s internal error in the analysis" % pid)
        return 2
    bad = []
    kn = [k for k in known() if k.get("property") == pid and k.get("status", "known") == "known"]
    seen_known = []
    for v in c.viol.values():
        for k in kn:
            if k["rule"] == v["rule"] and k["fn"] == v["fn"] and k.get("match", "") in v["msg"]:
                seen_known.append((k, v)); break
        else:
            bad.append(v)
    for k, v in {x[0]["what"]: x for x in seen_known}.values():
        print("KNOWN-FINDING: property=%s %s (%s at %s)" % (pid, k["what"], v["fn"], v["where"]))
    # constructs inside translation units that do not parse cannot be judged
    errf = " ".join(d.errors)
    n = sum(len(set(x)) for x in c.oblig.values())
    if bad and d.errors:
        rest = [v for v in bad if v["where"].split(":")[0] not in errf]
        if not rest:
            for e in d.errors[:5]:
                print("ERROR property=%s source does not parse: %s" % (pid, e))
            return 2
    replay = os.path.join(VERIF, "evidence", "replay-%s.txt" % pid)
    if bad:
        with open(replay, "w") as fh:
            for v in bad:
                fh.write("property %s, rule %s: %s\n" % (pid, v["rule"], c.rule_text.get(v["rule"], "")))
                fh.write("  violated by %s at %s: %s\n" % (v["fn"], v["where"], v["msg"]))
                for t in v["trace"]:
                    fh.write("      %s\n" % t)
                fh.write("\n")
    doc = {"property": pid, "tier": tier, "seed": seed, "level": LEVELS.get(pid, "proof"),
           "coverage": {"explanation": "static analysis of the current sources: abstract interpretation of every path through the listed entry functions (repository callees inlined) and queries over the type-checked program; obligations counted per rule",
                        "translation_units": len(d.tus), "functions_in_program": len(d.F), "entry_functions": c.entries, "functions_analysed": len(c.functions),
                        "paths": c.paths, "call_sites": c.callsites, "obligations": n,
                        "rules": {r: {"rule": c.rule_text.get(r, ""), "instances": sorted(set(x))[:200], "count": len(set(x))} for r, x in sorted(c.oblig.items())},
                        "notes": c.notes + ["parse errors (constructs skipped): " + e[:200] for e in d.errors]},
           "wall_s": round(time.time() - t0, 2), "assumptions": ASSUME, "violations": len(bad)}
    json.dump(doc, open(ev, "w"), indent=1)
    for r, x in sorted(c.oblig.items()):
        print("  %s: %d obligations, %d distinct -- %s" % (r, len(x), len(set(x)), c.rule_text.get(r, "")))
    print("%s: %d entry functions, %d paths, %d functions analysed, %d obligations, %.1f s" % (pid, c.entries, c.paths, len(c.functions), n, time.time() - t0))
    for x in c.notes:
        print("  note: " + x)
    for v in bad:
        print("  %s %s at %s: %s" % (v["rule"], v["fn"], v["where"], v["msg"]))
    if bad:
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    return 0


LEVELS = {}
ASSUME = ["stubbed third-party headers (baselibs, os layer) have the documented interfaces; only their declarations are used",
          "standard library and atomics behave as specified (library models in checks/models.py)",
          "loops are unrolled twice, then summarised by widening; recursion is cut after two activations"]


# ---------------------------------------------------------------- helpers for rules
from absint import base_type, C as K, TRUE, FALSE, NULL, VOID, isc, root, under, subterms, mkP, mkaddr  # noqa: E402


def hasval(p):
    """has_value of a returned optional / expected: True, False or None (unknown)"""
    if p.ret and p.ret[0] in ("obj", "ref"):
        return p.I.truth(p.st, p.I.read(p.st, ("F", p.ret[1], "#has")))
    return None


def val(p):
    return p.I.read(p.st, ("F", p.ret[1], "#val"))


def calls(p, suffix):
    return [(i, e) for i, e in enumerate(p.tr) if e.k == "call" and (e.f == suffix or e.f.endswith("::" + suffix))]


def evs(p, *kinds):
    return [(i, e) for i, e in enumerate(p.tr) if e.k in kinds]


def idx_of(place):
    """index of an element place of a contiguous container: data[i], *it, *(it + k)"""
    if place[0] == "E":
        return place[2]
    if place[0] == "P":
        t = place[1]
        if t[0] == "it":
            return t[2]
        if t[0] == "op" and t[1] == "+" and t[2][0] == "it" and isc(t[3]):
            return K(t[2][2][1] + t[3][1]) if isc(t[2][2]) else ("op", "+", t[2][2], t[3])
    return None


def mords(o):
    return [x[1] if isinstance(x, tuple) and isc(x) else x for x in (o if isinstance(o, list) else [o]) if x is not None]


def acquires(o):
    o = mords(o)
    return not o or o[0] in (2, 4, 5)


def releases(o):
    o = mords(o)
    return not o or o[0] in (3, 4, 5)


def split(I, st, spec):
    """all ways the specification expression can come out: list of (state, bool)"""
    if isinstance(spec, bool):
        return [(st, spec)]
    if spec[0] == "not":
        return [(s, not b) for s, b in split(I, st, spec[1])]
    if spec[0] in ("and", "or"):
        cur = [(st, spec[0] == "and")]
        for part in spec[1:]:
            nxt = []
            for s, b in cur:
                if b == (spec[0] == "or"):
                    nxt.append((s, b))
                else:
                    nxt += split(I, s, part)
            cur = nxt
        return cur
    return I.branch(st, spec)


def equiv(c, rid, f, spec, inst=None, pre=None, **kw):
    """the boolean function f returns true exactly when spec holds; spec(I, st, path) built over the entry state"""
    n = 0
    for p in c.run(f, **kw):
        if p.out == "abort":
            continue
        if p.out != "ret":
            c.bad(rid, name(f), fwhere(f), "leaves by %s" % p.out, p); continue
        r = p.I.scal(p.st, p.ret)
        for s, b in p.I.branch(p.st, r):
            for s2, want in split(p.I, s.copy(), spec(p.I, s, p)):
                if pre is not None:
                    if not all(x for _, x in split(p.I, s2.copy(), pre(p.I, s2, p))) :
                        if not any(x for _, x in split(p.I, s2.copy(), pre(p.I, s2, p))):
                            continue
                n += 1
                if b != want:
                    p2 = type(p)(s2, p.out, p.ret)
                    c.bad(rid, name(f), fwhere(f), "returns %s although %s is expected when %s" % (bool(b), bool(want), facts(s2)), p2)
                else:
                    c.ok(rid, "%s [%s]" % (inst or name(f), facts(s2)))
    return n


def facts(st):
    return "; ".join("%s is %s" % (show(k), bool(v)) for k, v in list(st.f.items())[-6:])


def inp(n, *path):
    t = ("in", ("A", n))
    for x in path:
        t = ("fld", t, x)
    return t


def gt(I, st, a, b): return I.binop(st, ">", a, b)
def lt(I, st, a, b): return I.binop(st, "<", a, b)
def eq(I, st, a, b): return I.binop(st, "==", a, b)
def ne(I, st, a, b): return I.binop(st, "!=", a, b)


def enum(c, suffix, n):
    """value of enumerator n of the enumeration whose qualified name ends with suffix"""
    for e in c.db.E.values():
        if e["n"].endswith(suffix) and n in e["v"]:
            return int(e["v"][n])
    raise CheckError("anchor vanished: enumerator %s of %s" % (n, suffix))


def errcode(p):
    """numeric code of the error of a returned expected"""
    e = p.I.read(p.st, ("F", p.ret[1], "#err"))
    return e[1][1] if e[0] == "error" and isc(e[1]) else None


def outermost(c, cls, target):
    """methods of cls (constructors and destructor aside) from which the function named target is reached inside the class, and which no other such method calls"""
    def lits(x, out):
        if isinstance(x, dict):
            if x.get("k") == "call" and isinstance(x.get("f"), dict) and x["f"].get("q"): out.add(re.sub(r"<.*>", "", x["f"]["q"]))
            for y in x.values(): lits(y, out)
        elif isinstance(x, list):
            for y in x: lits(y, out)
        return out
    short = cls.rsplit("::", 1)[-1]
    ms = {}
    for f in c.db.F.values():
        if f["sq"].startswith(cls + "::") and "::" not in f["sq"][len(cls) + 2:] and f.get("body") is not None and "Mock" not in f["q"]:
            m = f["sq"][len(cls) + 2:]
            if m not in (short, "~" + short): ms.setdefault(f["sq"], set()).update(lits(f["body"], set()))
    hit = {m for m, s in ms.items() if any(q == target or q.endswith("::" + target) for q in s)}
    if not hit: raise CheckError("anchor vanished: nothing in %s calls %s" % (cls, target))
    while True:
        more = {m for m, s in ms.items() if s & hit} - hit
        if not more: break
        hit |= more
    top = [m for m in hit if not any(m in ms[o] for o in hit if o != m)]
    return [f for m in sorted(top) for f in c.fns(m)]


def devirt(c):
    """callback for inline_virtual: the overrider of a virtual function in the class an object was created as"""
    ov = {m["u"]: m.get("ov") or [] for k in c.db.C.values() for m in k.get("m", [])}

    def above(u):
        out, todo = set(), [u]
        while todo:
            x = todo.pop()
            if x not in out:
                out.add(x); todo += ov.get(x, [])
        return out

    def overrider(cls, usr):
        k = c.db.C.get(cls)
        if k is None: return None
        for m in k.get("m", []):
            if m["u"] == usr or usr in above(m["u"]): return m["u"]
        for b in k.get("bases", []):
            r = overrider(base_type(b["t"]), usr)
            if r is not None: return r
        return None

    def cb(e, st, op, f):
        while op is not None:
            v = st.m.get(("B", op))
            if v is not None and v[0] == "new":
                return overrider(base_type(v[1]), f["u"])
            if op[0] == "P" and op[1][0] == "addr": op = op[1][1]; continue
            return None
        return None
    return cb


def forget(I, st, place, name=None):
    """the contents of place become unknown"""
    for k in [k for k in st.m if under(k, place) or k[0] in ("B", "V") and under(k[1], place)]:
        del st.m[k]
    st.m[("B", place)] = ("in", ("A", name or "any")) if name else I.fresh(st, "any")
