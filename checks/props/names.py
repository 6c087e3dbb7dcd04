"""P23: names of shared objects and texts which stand for values"""
import re
from core import prop, name, fwhere, split, enum, inp, mkaddr, calls, evs
from db import CheckError
from absint import C, isc, show, base_type, strip_targs, subterms

F = lambda p, n: ("F", p, n)
NS = "score::mw::com::impl::"
L = NS + "lola::"
TUS = ["score/mw/com/impl/bindings/lola/*.cpp", "score/mw/com/impl/bindings/lola/messaging/*.cpp", "score/mw/com/impl/bindings/lola/service_discovery/*.cpp",
       "score/mw/com/impl/configuration/*.cpp", "score/mw/com/impl/*.cpp", "score/mw/com/impl/plumbing/*.cpp", "score/memory/shared/*.cpp"]
DIG10, DIG16 = frozenset("0123456789"), frozenset("0123456789abcdef")
ANY = frozenset(chr(i) for i in range(32, 127))


# ------------------------------------------------------------------ texts
def tail(q):
    return q.rsplit("::", 1)[-1]


def items(t):
    """flat list of the pieces of a text term: str | ("num", term, width, fill, base) | ("any", term)"""
    if t[0] == "str":
        return [t[1]]
    if t[0] == "cat":
        return [y for x in t[1:] for y in items(x)]
    if t[0] == "tostr":
        return [str(t[1][1])] if isc(t[1]) else [("num", t[1], C(0), C(32), C(10))]
    if t[0] == "num":
        return [t]
    if t[0] == "chr":
        return [("any1", t[1])]
    if t[0] == "obj" and len(t) > 2 and (t[1].endswith("filesystem::Path") or "basic_string" in t[1]):
        a = t[2]
        return items(a[0] if isinstance(a[0], tuple) else a)
    return [("any", t)]


def norm(t):
    out = []
    for x in items(t):
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        else:
            out.append(x)
    return [x for x in out if x != ""]


def digits(it):
    return DIG16 if it[4] == C(16) else DIG10


def steps(its, width):
    """NFA of a text: list of (charset, loops) positions"""
    r = []
    for x in its:
        if isinstance(x, str):
            r += [(frozenset(c), False) for c in x]
        elif x[0] == "num":
            w = width(x[1])
            fixed = isc(x[2]) and w is not None and x[2][1] >= len(("%x" if x[4] == C(16) else "%d") % w) and x[3] == C(48)
            if fixed:
                r += [(digits(x), False)] * x[2][1]
            else:
                r += [(digits(x), "plus")]
        elif x[0] == "any1":
            r += [(ANY, False)]
        else:
            r += [(ANY, "star")]
    return r


def eps(s, i):
    """positions reachable from i without reading"""
    out = [i]
    while i < len(s) and s[i][1] == "star":
        i += 1
        out.append(i)
    return out


def nxt(s, i):
    """(charset, next) moves of state i: i = position, or (i, "in") inside a plus loop"""
    k, inside = i
    r = []
    for j in eps(s, k) if not inside else [k]:
        if j >= len(s): continue
        cs, lp = s[j]
        if lp == "star": r.append((cs, (j, False)))
        elif lp == "plus": r += [(cs, (j, True)), ]
        else: r.append((cs, (j + 1, False)))
    if inside:
        r = [(s[k][0], (k, True))] + [m for m in nxt(s, (k + 1, False))]
    return r


def final(s, i):
    k, inside = i
    if inside: k += 1
    return len(s) in eps(s, k)


def meet(a, b):
    """do two texts (as NFAs) have a common word"""
    seen, todo = set(), [((0, False), (0, False))]
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x)
        if final(a, x[0]) and final(b, x[1]): return True
        for ca, na in nxt(a, x[0]):
            for cb, nb in nxt(b, x[1]):
                if ca & cb: todo.append((na, nb))
    return False


def unambiguous(its, width):
    """no two different values of the numbers of a text give the same text"""
    for i, x in enumerate(its):
        if isinstance(x, str): continue
        if x[0] == "any" or x[0] == "any1":
            if x[0] == "any" and i != len(its) - 1: return "an unbounded piece (%s) is followed by further text" % show(x[1])
            continue
        n = its[i + 1] if i + 1 < len(its) else None
        w = width(x[1])
        fixed = isc(x[2]) and w is not None and x[2][1] >= len(("%x" if x[4] == C(16) else "%d") % w) and x[3] == C(48)
        if x[3] not in (C(48), C(32)) and x[2] != C(0): return "%s is padded with an unexpected character" % show(x[1])
        if x[4] not in (C(10), C(16)): return "number base"
        if fixed or n is None: continue
        if not isinstance(n, str) or n[0] in digits(x):
            return "the digits of %s run into the next piece" % show(x[1])
    return None


def text(p, v=None):
    v = p.ret if v is None else v
    return norm(p.I.argval(p.st, v) if v[0] in ("obj", "ref") else v)


def showt(its):
    return "".join(x if isinstance(x, str) else "<%s>" % re.sub(r"^.*\.", "", show(x[1])) for x in its)


def determines(r, t, width):
    """two different values of t never give the same value of r"""
    if r == t: return True
    if r[0] == "trunc" and width(t) is not None and width(t) < (1 << r[1]): return determines(r[2], t, width)
    if r[0] == "sgn": return determines(r[2], t, width)
    if r[0] in ("+", "xor") and len(r) == 3 and (isc(r[1]) or isc(r[2])): return determines(r[2] if isc(r[1]) else r[1], t, width)
    return False


def nums(its):
    return [x[1] for x in its if not isinstance(x, str)]


# ------------------------------------------------------------------ types of ids
MAXOF = {"unsigned char": 0xFF, "unsigned short": 0xFFFF, "unsigned int": 0xFFFFFFFF, "unsigned long": 0xFFFFFFFFFFFFFFFF, "int": None}


def widths(c, f):
    def ty(t):
        if t[0] == "in" and t[1][0] == "A":
            if t[1][1] == "this": return f.get("cls") or f["q"].rsplit("::", 1)[0]
            for x in f["p"]:
                if x["n"] == t[1][1]: return base_type(x["t"])
            return None
        if t[0] == "fld":
            b = ty(t[1])
            if t[2].startswith("#T:"): return base_type(t[2][3:])
            if not b: return None
            for k in c.db.cls(b) if b in c.db.classes or True else []:
                for x in k["fields"]:
                    if x["n"] == t[2]: return base_type(x["t"])
        return None

    def w(t):
        try:
            b = ty(t)
        except Exception:
            b = None
        return MAXOF.get(b or "")
    return w


# ------------------------------------------------------------------ flag file helpers: paths as texts
def path_hooks():
    def div(I, st, e, op, vs):
        return [(st, ("cat", I.argval(st, vs[0]), ("str", "/"), I.argval(st, vs[1])))]

    def diveq(I, st, e, op, vs):
        v = ("cat", I.read(st, op), ("str", "/"), I.argval(st, vs[0]))
        I.setobj(st, op, v)
        return [(st, ("ref", op))]
    return {"score::filesystem::operator/": div, "score::filesystem::Path::operator/=": diveq,
            "std::for_each": lambda I, st, e, op, vs: [(st, ("void",))]}


def enum_of(c, suffix):
    return dict(c.db.enum(suffix)) if hasattr(c.db, "enum") else None


@prop("P23", TUS)
def p23(c):
    c.rule("P23.R1", "the name of a shared memory object, marker, flag file or message endpoint contains every part of the identity it is built from, delimited so that different identities give different names, and nothing else")
    c.rule("P23.R2", "names of objects of different kinds can never be equal")
    c.rule("P23.R3", "a consumer names the service's objects by the service and instance of its handle, and a provider by the service and instance it offers; control data is opened writable, data read-only, for the same quality")
    c.rule("P23.R4", "texts of enumeration values are pairwise different, none is contained in a name of another, and reading a text gives the value it was made from")

    langs = []           # (kind, space, items, width)

    def builder(sq, kind, space, consts=("service_id_",), cases=None, drop=()):
        for f in c.fns(sq):
            w = widths(c, f)
            params = [x for x in f["p"] if not re.search(r"Unistd|filesystem", x["t"])]
            rets = [p for p in c.run(f) if p.out == "ret"]
            if not rets:
                raise CheckError("no name from " + f["q"])
            groups = {}
            for p in rets:
                its = text(p)
                why = unambiguous(its, w)
                c.check("P23.R1", why is None, f["q"], fwhere(f), "ambiguous name %s: %s" % (showt(its), why), p)
                roots = [t for t in nums(its)]
                for t in roots:
                    okr = any(y[0] == "in" for y in subterms(t)) and not any(y[0] == "r" for y in subterms(t))
                    c.check("P23.R1", okr, f["q"], fwhere(f), "the name %s contains something other than the identity: %s" % (showt(its), show(t)), p)
                flat = set()
                for x in params:
                    t = ("in", ("A", x["n"]))
                    es = enumval(c, base_type(x["t"]))
                    if es:
                        flat.add(x["n"]); continue
                    if x["n"] == "" : continue
                    fl = classfields(c, base_type(x["t"]))
                    for q in ([F(("A", x["n"]), y) for y in fl] if fl else [None]):
                        tt = t if q is None else ("fld", t, q[2])
                        if base_type(x["t"]) == "bool": continue
                        c.check("P23.R1", any(determines(r, tt, w) for r in roots), f["q"], fwhere(f), "%s is not (wholly) part of the name %s" % (show(tt), showt(its)), p)
                for m in consts:
                    tt = ("fld", ("in", ("A", "this")), m)
                    c.check("P23.R1", tt in roots, f["q"], fwhere(f), "the service id is not part of the name %s" % showt(its), p)
                langs.append((kind, space, its, w, f, p))
                key = tuple(sorted((show(k), v) for k, v in p.st.f.items()))
                groups.setdefault(key, its)
            # different cases of an enumeration parameter give different names
            es = [x for x in params if enumval(c, base_type(x["t"]))]
            vals = list(groups.items())
            for x in es:
                for i in range(len(vals)):
                    for j in range(i):
                        a, b = dict(vals[i][0]), dict(vals[j][0])
                        na = {k: v for k, v in a.items() if x["n"] not in k}; nb = {k: v for k, v in b.items() if x["n"] not in k}
                        if na == nb:
                            c.check("P23.R1", not meet(steps(vals[i][1], w), steps(vals[j][1], w)), f["q"], fwhere(f),
                                    "different values of %s may give the same name: %s and %s" % (x["n"], showt(vals[i][1]), showt(vals[j][1])))

    sid = c.field(L + "ShmPathBuilder", r"short|uint16")
    pid_ = c.field(L + "PartialRestartPathBuilder", r"short|uint16")
    B = L + "ShmPathBuilder::"
    builder(B + "GetDataChannelShmName", "data", "shm", (sid,))
    builder(B + "GetControlChannelShmName", "control", "shm", (sid,))
    builder(B + "GetMethodChannelShmName", "method", "shm", (sid,))
    B = L + "PartialRestartPathBuilder::"
    builder(B + "GetServiceInstanceExistenceMarkerFilePath", "existence marker", "file", (pid_,))
    builder(B + "GetServiceInstanceUsageMarkerFilePath", "usage marker", "file", (pid_,))
    builder(L + "MessagePassingClientCache::CreateMessagePassingName", "message endpoint", "mp", ())
    for i in range(len(langs)):
        for j in range(i):
            a, b = langs[i], langs[j]
            if a[1] == b[1] and a[0] != b[0]:
                c.check("P23.R2", not meet(steps(a[2], a[3]), steps(b[2], b[3])), a[4]["q"], fwhere(a[4]),
                        "a %s and a %s may have the same name: %s / %s" % (a[0], b[0], showt(a[2]), showt(b[2])), a[5])
    # the lock file of a shared memory object is no other object
    flagfiles(c, langs)
    agree(c)
    enums(c)
    for r in ("P23.R1", "P23.R2", "P23.R3", "P23.R4"):
        c.need(r, 3)


def enumval(c, t):
    e = c.db.E.get(t)
    return {k: int(v) for k, v in e["v"].items()} if e else None


def classfields(c, t):
    try:
        ks = c.db.cls(t)
    except CheckError:
        return []
    return [x["n"] for x in ks[0]["fields"]]


def flagfiles(c, langs):
    cls = L + "FlagFile"
    q = enumval(c, NS + "QualityType")
    names = []
    for sq, ops in ((cls + "::~FlagFile", ("Remove",)), (cls + "::Make", ("Open", "Permissions"))):
        for f in c.fns(sq):
            w = widths(c, f)
            ps = c.run(f, hooks=path_hooks(), opaque=lambda s, g: s == cls + "::CreateSearchPath")
            seen = set()
            for p in ps:
                for _, e in evs(p, "call"):
                    if "filesystem" not in e.f or tail(e.f) not in ops or not e.a: continue
                    its = norm(e.a[0])
                    key = (tail(e.f), str(its))
                    if key in seen: continue
                    seen.add(key)
                    why = unambiguous(its, w)
                    c.check("P23.R1", why is None, f["q"], fwhere(f), "ambiguous flag file name %s: %s" % (showt(its), why), p)
                    ns = nums(its)
                    sid = [t for t in ns if term_is(t, "enriched_instance_identifier", "type_deployment_")]
                    iid = [t for t in ns if term_is(t, "enriched_instance_identifier") and t not in sid]
                    dis = [t for t in ns if term_is(t, "disambiguator")]
                    pid = [t for t in ns if any(y[0] == "r" and "getpid" in y[1] for y in subterms(t))]
                    c.check("P23.R1", len(sid) == 1 and len(dis) == 1 and len(pid) == 1 and len(iid) <= 1 and len(ns) == len(sid) + len(iid) + 2, f["q"], fwhere(f),
                            "a flag file is named by service, instance, process, quality and offer: %s" % showt(its), p)
                    qv = quality_of(p, q)
                    names.append((sq, tail(e.f), qv, its, w, f, p, bool(iid)))
            if not seen:
                raise CheckError("no flag file operation in " + sq)
    # the file created is the file removed, and its quality can be read from its name
    made = {(n[2], n[7]): n for n in names if n[1] == "Open"}
    for n in names:
        m = made.get((n[2], n[7]))
        c.check("P23.R1", m is not None and shape(m[3]) == shape(n[3]), n[5]["q"], fwhere(n[5]), "the flag file of an offer is created as %s and used as %s" % (showt(m[3]) if m else "?", showt(n[3])), n[6])
    valid = [k for k in q if "nvalid" not in k]
    for n in made.values():
        for m in made.values():
            if n[2] != m[2] and n[7] == m[7]:
                c.check("P23.R2", not meet(steps(n[3], n[4]), steps(m[3], m[4])), n[5]["q"], fwhere(n[5]), "flag files of different quality may have the same name: %s" % showt(n[3]), n[6])
    parse = c.fns(L + "FlagFileCrawler::ParseQualityTypeFromString")[0]
    pn = parse["p"][0]["n"]
    for n in made.values():
        if n[2] is None: continue
        last = after_slash(n[3])

        def find(I, st, e, op, vs, its=n[3], w=n[4], last=last):
            x = I.argval(st, vs[0])
            if x[0] != "str" or op is None: return None
            a = meet(steps([("any", C(0)), x[1], ("any", C(0))], w), steps(last, w))
            b = definitely(last, x[1])
            out = []
            if not b:
                out.append((st.copy() if a else st, C(0xFFFFFFFFFFFFFFFF)))
            if a:
                out.append((st, C(0)))
            return out
        def setup(I, st, last=last):
            I.setobj(st, ("A", pn), ("cat", ("str", "".join(x if isinstance(x, str) else "0" for x in last))))
        ps = c.run(parse, hooks={"std::basic_string_view::find": find, "std::basic_string::find": find}, setup=setup)
        for p in ps:
            c.check("P23.R4", p.out == "ret" and p.ret == C(n[2]), parse["q"], fwhere(parse),
                    "the quality of the flag file %s is read as %s" % (showt(last), show(p.ret) if p.ret else p.out), p)
    if not made:
        raise CheckError("no flag file is created")


def definitely(its, x):
    return any(isinstance(y, str) and x in y for y in its)


def after_slash(its):
    out = []
    for x in its:
        if isinstance(x, str) and "/" in x:
            out = [x.rsplit("/", 1)[1]]
        else:
            out.append(x)
    return [x for x in out if x != ""]


def shape(its):
    return [x if isinstance(x, str) else (x[0],) + tuple(x[2:]) + (re.sub(r"^.*[.#]", "", re.sub(r"[^.]*:", "", show(x[1]))).strip("_") if not any(y[0] == "r" for y in subterms(x[1])) else "pid",) for x in its]


def term_is(t, *subs):
    s = show(t)
    return all(x in s for x in subs)


def quality_of(p, q):
    """the value of the quality on a path, from its facts"""
    for k, v in p.st.f.items():
        if v and k[0] == "op" and k[1] == "==" and ("uality" in show(k) or "asil" in show(k)) and isc(k[2]):
            return k[2][1]
    return None


def calls_made(f):
    out = []

    def go(x):
        if isinstance(x, dict):
            g = x.get("f")
            if x.get("k") in ("call", "mcall", "opcall", "ctor") or isinstance(g, dict):
                if isinstance(g, dict) and g.get("q"): out.append(re.sub(r"<.*>", "", g["q"]))
            for y in x.values(): go(y)
        elif isinstance(x, list):
            for y in x: go(y)
    go(f.get("body")); go(f.get("ini"))
    return out


def agree(c):
    asil_b = enum(c, "::QualityType", "kASIL_B")
    # ---- consumer
    w0 = lambda t: 0xFFFF
    tmpl = {}
    for kind, sq in (("data", "ShmPathBuilder::GetDataChannelShmName"), ("control", "ShmPathBuilder::GetControlChannelShmName"),
                     ("usage", "PartialRestartPathBuilder::GetServiceInstanceUsageMarkerFilePath"), ("method", "ShmPathBuilder::GetMethodChannelShmName")):
        for f in c.fns(L + sq):
            for p in c.run(f):
                if p.out == "ret":
                    b = any(v and isc(k[2]) and k[2][1] == asil_b for k, v in p.st.f.items() if k[0] == "op" and k[1] == "==")
                    tmpl.setdefault(kind, []).append((b, [x if isinstance(x, str) else ("num", None) + tuple(x[2:]) for x in text(p)]))

    def kinds(its):
        g = [x if isinstance(x, str) else ("num", None) + tuple(x[2:]) for x in its]
        return [(k, b) for k, l in tmpl.items() for b, t in l if t == g]

    def ids(its, f, p, what):
        ns = nums(its)
        c.check("P23.R3", len(ns) >= 2 and term_is(ns[0], "handle", "type_deployment_", "service_id_") and term_is(ns[1], "handle", ".instance_id_.") and "identifier_" not in show(ns[1]), f["q"], fwhere(f),
                "the %s of a consumer is not named by the service and the instance of its handle: %s" % (what, ", ".join(show(x) for x in ns[:2])), p)
    got = set()
    for f in c.fns(L + "Proxy::Create"):
        seen = set()
        for p in c.run(f, opaque=lambda sq, g: "::TransactionLogRollbackExecutor::" in sq or sq == L + "Proxy::Proxy"):
            for _, e in evs(p, "call"):
                if not (e.f.endswith("SharedMemoryFactory::Open") or e.f.endswith("::open")) or not e.a: continue
                its = norm(e.a[0])
                b = None
                for k, v in p.st.f.items():
                    if k[0] == "op" and k[1] == "==" and isc(k[2]) and "asilLevel_" in show(k):
                        if v: b = k[2][1] == asil_b
                        elif k[2][1] == asil_b and b is None: b = False
                key = (e.f, str(its), str(e.a[1:2]), b)
                if key in seen: continue
                seen.add(key)
                ks = kinds(its)
                if e.f.endswith("SharedMemoryFactory::Open"):
                    c.check("P23.R3", bool(ks) and all(k[0] in ("data", "control") for k in ks), f["q"], fwhere(f), "a consumer opens an object which no provider creates: %s" % showt(its), p)
                    for k, kb in ks:
                        got.add(k)
                        c.check("P23.R3", e.a[1] == C(1 if k == "control" else 0), f["q"], fwhere(f), "a consumer opens the %s object with write access %s" % (k, show(e.a[1])), p)
                        if k == "control":
                            c.check("P23.R3", b is not None and kb == b, f["q"], fwhere(f), "a consumer opens the control object of another quality: %s" % showt(its), p)
                else:
                    c.check("P23.R3", any(k[0] == "usage" for k in ks), f["q"], fwhere(f), "a consumer uses a marker file which no provider creates: %s" % showt(its), p)
                    got.add("usage")
                ids(its, f, p, ks[0][0] if ks else "object")
    for k in ("data", "control", "usage"):
        if k not in got: raise CheckError("no use of the %s name in Proxy::Create" % k)
    # the name of the consumer's method channel
    users = 0
    for f in [f for f in c.db.F.values() if f["sq"].startswith(L + "Proxy::") and f.get("body") and any(q == L + "ShmPathBuilder::GetMethodChannelShmName" for q in calls_made(f))]:
        for p in c.run(f, opaque=lambda sq, g: g is not None and (g.get("file") or "").endswith("proxy.cpp") and sq.startswith(L + "Proxy::")):
            if p.out == "ret" and p.ret and p.ret[0] == "obj":
                its = text(p)
                c.check("P23.R3", any(k == "method" for k, _ in kinds(its)), f["q"], fwhere(f), "name of the method channel: %s" % showt(its), p)
                ids(its, f, p, "method channel"); users += 1
                ns = nums(its)
                c.check("P23.R3", len(ns) == 4 and all(term_is(x, "this.", "proxy_instance_identifier_") for x in ns[2:]), f["q"], fwhere(f), "the method channel is not named by the consumer's identity: %s" % showt(its), p)
            elif p.out == "abort":
                sites = [e for _, e in evs(p, "abort")]
                c.check("P23.R3", not any(term_is(k, "identifier_", "instance_id_", "#has") or term_is(k, "instance_deployment_", "instance_id_") for k in p.st.f), f["q"], fwhere(f),
                        "naming the method channel fails for a handle whose deployment has no instance id", p)
    # ---- provider
    IB = re.compile(r"::I(Shm|PartialRestart)PathBuilder::Get(?!.*Directory)")
    fs = [f for f in c.db.F.values() if re.match(r"score/mw/com/impl/bindings/lola/skeleton\w*\.(cpp|h)$", f.get("file") or "") and (f.get("body") or f.get("ini")) and "Mock" not in f["q"]]
    cl = {f["u"]: calls_made(f) for f in fs}
    low = {f["u"] for f in fs if any(IB.search(q) for q in cl[f["u"]])}
    if not low: raise CheckError("anchor vanished: no provider uses the names of its objects")
    method = lambda f: bool(f.get("c")) and "(anonymous" not in f["sq"]
    free = {c.db.F[u]["sq"] for u in low if not method(c.db.F[u])}
    while True:
        more = {f["u"] for f in fs if set(cl[f["u"]]) & free} - low
        if not more: break
        low |= more
        free |= {c.db.F[u]["sq"] for u in more if not method(c.db.F[u])}
    want, seen = {}, {}
    for u in low:
        for q in cl[u]:
            if IB.search(q): want[q] = want.get(q, 0) + 1
    sites = set()
    for u in sorted(low):
        f = c.db.F[u]
        if not method(f): continue

        def rec(sq, cut):
            def h(I, st, e, op, vs):
                a = [I.argval(st, v) for v in vs]
                k = (sq, I.cur[1], I.cur[2])
                sites.add(k)
                judge(f, sq, a)
                return [] if cut else None
            return h

        def judge(f, sq, a):
            t = a[0] if a else C(0)
            good = (term_is(t, "deployment_", "instance_id_") or show(t) == "this." + own.get(f["c"], "?"))
            c.check("P23.R3", good, f["q"], fwhere(f), "a provider names its object (%s) by %s, not by the instance it offers" % (tail(sq), show(t)), None)
        own = {}
        for k in ("Skeleton", "SkeletonMemoryManager"):
            fl = [x["n"] for x in c.db.cls(L + k)[0]["fields"] if re.search(r"unsigned short$|InstanceId$", x["t"]) and "service" not in x["n"].lower()]
            if len(fl) == 1: own[L + k] = fl[0]
        opq = lambda sq, g: g is not None and not sq.endswith("::GetId") and sq not in free and sq != f["sq"] and (g.get("file") or "").endswith(".cpp")
        try:
            c.run(f, opaque=opq, maxpaths=1500, maxsteps=40000, hooks={q: rec(q, False) for q in want})
        except CheckError:
            c.run(f, opaque=opq, hooks={q: rec(q, True) for q in want})
    for q in want:
        if not any(x[0] == q for x in sites): raise CheckError("no use of %s was reached" % q)
    # the provider's own members
    for k in ("Skeleton", "SkeletonMemoryManager"):
        for f in [f for f in c.fns(L + k + "::" + k) if f["p"]]:
            if any("&&" in x["t"] for x in f["p"]): continue
            fl = own.get(L + k)
            if not fl: continue
            for p in c.run(f, opaque=lambda sq, g: g is not None and sq != f["sq"] and (g.get("file") or "").endswith(".cpp") and not sq.endswith("::GetId")):
                if p.out == "ret":
                    v = p.I.read(p.st, F(("A", "this"), fl))
                    c.check("P23.R3", term_is(v, "deployment", "instance_id_") or v == ("in", ("A", "lola_instance_id")), f["q"], fwhere(f), "the provider's instance id is %s" % show(v), p)
    # builders are made for the offered service
    made = 0
    for f in c.fns(NS + "SkeletonBindingFactoryImpl::Create"):
        for p in c.run(f, opaque=lambda sq, g: sq.endswith("lola::Skeleton::Create")):
            for _, e in evs(p, "ctor", "new"):
                t = base_type(str(e.d.get("t") or ""))
                if t in (L + "ShmPathBuilder", L + "PartialRestartPathBuilder") and e.d.get("a"):
                    made += 1
                    c.check("P23.R3", term_is(e.a[0], "type_deployment_", "service_id_"), f["q"], fwhere(f), "a provider's names are built for service %s" % show(e.a[0]), p)
    c.notes.append("provider name uses: %d sites; builders made: %d" % (len(sites), made))


def enums(c):
    # (function, parameter's enumeration, enumerators which need a text of their own)
    one = 0
    for sq in (NS + "ToString", NS + "to_string", L + "ToString", L + "GetQualityTypeString", NS + "operator<<"):
        for f in c.db.byq.get(sq, []):
            if f.get("body") is None or "Mock" in f["q"]: continue
            ps_ = f["p"]
            ep = [x for x in ps_ if enumval(c, base_type(x["t"]))]
            if len(ep) != 1: continue
            stream = [x for x in ps_ if "basic_ostream" in x["t"] or "std::ostream" in x["t"]]
            if len(ps_) == 2 and not stream: continue
            vals = enumval(c, base_type(ep[0]["t"]))
            texts = {}
            for n, v in vals.items():
                def setup(I, st, v=v):
                    I.write(st, ("A", ep[0]["n"]), C(v))
                    if stream: st.m[F(("A", stream[0]["n"]), "#txt")] = ("cat",)
                for p in c.run(f, setup=setup, args={} if "&" in ep[0]["t"] else {ep[0]["n"]: C(v)}):
                    if p.out != "ret":
                        c.check("P23.R4", re.search(r"nvalid|nknown|COUNT|count|None|kInvalid", n) is not None, f["q"], fwhere(f), "there is no text for %s" % n, p)
                        continue
                    its = norm(p.st.m.get(F(("A", stream[0]["n"]), "#txt"), ("cat",))) if stream else text(p)
                    texts.setdefault(n, []).append((its, p))
            one += 1
            for n in texts:
                c.check("P23.R4", len(texts[n]) == 1 and all(isinstance(x, str) for x in texts[n][0][0]), f["q"], fwhere(f), "the text for %s is not fixed" % n, texts[n][0][1])
                for m in texts:
                    if m < n and vals[m] != vals[n]:
                        c.check("P23.R4", texts[n][0][0] != texts[m][0][0], f["q"], fwhere(f), "%s and %s have the same text" % (m, n), texts[n][0][1])
            # reading back
            if sq == NS + "ToString":
                for g in c.db.byq.get(NS + "FromString", []):
                    if base_type(g.get("rt", "")) != base_type(ep[0]["t"]): continue
                    for n, v in vals.items():
                        if n not in texts: continue
                        pn = g["p"][0]["n"]
                        for p in c.run(g, setup=lambda I, st: I.setobj(st, ("A", pn), ("str", "".join(texts[n][0][0])))):
                            c.check("P23.R4", p.out == "ret" and p.ret == C(v), g["q"], fwhere(g), "the text of %s is read as %s" % (n, show(p.ret) if p.out == "ret" else "an error"), p)
    if one < 4: raise CheckError("anchor vanished: texts of enumerations (%d)" % one)
    # hash strings: fixed width hexadecimal numbers
    for k in ("LolaServiceInstanceId",):
        for f in [f for f in c.fns(NS + k + "::" + k) if len(f["p"]) == 1 and MAXOF.get(base_type(f["p"][0]["t"]))]:
            mx = MAXOF[base_type(f["p"][0]["t"])]
            fl = c.field(NS + k, r"basic_string|std::string")
            for p in c.run(f):
                if p.out != "ret": continue
                its = norm(p.I.read(p.st, F(("A", "this"), fl)))
                x = its[0] if its else None
                c.check("P23.R4", len(its) == 1 and isinstance(x, tuple) and x[0] == "num" and isc(x[2]) and x[2][1] >= len(("%x" if x[4] == C(16) else "%d") % mx), f["q"], fwhere(f),
                        "the hash string of an instance id is not of fixed length: %s" % showt(its), p)
