"""The map of known memory regions: version hand-over between one writer and lock-free readers, lookups, registration."""
from core import *
from linear import Lin, evaluate, leaves, values
from absint import C, NULL, FALSE, TRUE, root, under, subterms
import itertools
SHM = "score::memory::shared::"
MAP_ = SHM + "detail::MemoryRegionMapImpl"
REG = SHM + "MemoryResourceRegistry"
oplog = lambda sq, f: sq.startswith("score::mw::log")


def where(e): return e.where()


def regions(n):
    """n disjoint regions in ascending order"""
    def om(I, st, op):
        es = []
        for i in range(n):
            k, v = ("v", "start%d" % i, 0), ("v", "end%d" % i, 0)
            for x in (k, v): I.unsigned.add(x); I.wid[x] = 64
            I.assume(st, ("op", "==", k, C(0)), False); I.assume(st, ("op", "<", k, v), True)
            if i: I.assume(st, ("op", "<", k, es[-1][1]), False); I.assume(st, ("op", "<", es[-1][0], k), True)
            es.append((k, v))
        return es
    return om


def entries(c_om, st, I, home):
    e = st.m.get(("F", home, "#om"))
    if e is None: return None
    return [(k, I.read(st, ("F", ("E", home, C(i)), "second"))) for i, (k, v) in enumerate(e[1])]


@prop("P11", ["score/memory/shared/pointer_arithmetic_util.cpp", "score/memory/shared/memory_region_bounds.cpp", "score/memory/shared/memory_region_map.cpp", "score/memory/shared/memory_resource_registry.cpp"], ["memory"])
def p11(c):
    c.rule("R1", "a new version is built in a slot that is not the current one and that no reader holds or can enter")
    c.rule("R2", "a new version is complete before it can be entered, and can be entered before it becomes current; it is not written afterwards")
    c.rule("R3", "a new version is the current one plus the added region, minus the removed one, or empty; a region that overlaps a known one is refused and changes nothing")
    c.rule("R4", "a lookup reads only the version it has entered, and leaves each version it has entered exactly once, after the last read")
    c.rule("R5", "a lookup finds a known region that contains the address and finds none only if no known region contains it")
    c.rule("R6", "regions change under the exclusive lock of the registry only")
    c.rule("R7", "the registered resources and the known regions agree")
    # the three members, by type
    VER, REF, LAT = c.field(MAP_, r"^(?!.*atomic).*array<.*map<"), c.field(MAP_, r"array<.*atomic"), c.field(MAP_, r"^(?!.*array<).*atomic")
    ft = {x["n"]: x["t"] for x in c.db.cls(MAP_)[0]["fields"]}
    N = {int(m) for x in (VER, REF) for m in re.findall(r", *(\d+)U?L?>\s*$", ft[x])}
    if len(N) != 1: raise CheckError("number of versions is not known: %s" % [ft[x] for x in (VER, REF)])
    N = N.pop()
    this = ("A", "this"); lat = ("F", this, LAT); ver = ("F", this, VER); ref = ("F", this, REF)
    LV = inp("this", LAT, "#v")
    def sizes(st):
        for x in (ver, ref): st.m[("F", x, "#size")] = C(N)
    is_ref = lambda pl: pl is not None and pl[0] == "E" and pl[1] == ref
    real = lambda m: [f for f in c.fns(MAP_ + "::" + m)]
    # ---- readers: the values of the count with which a version is entered
    bound = None; cap = []
    for m in ("GetBoundsFromAddress", "GetSize"):
        for f in real(m):
            for n in (0, 1, 2, 3):
                if m == "GetSize" and n > 1: continue
                def su(I, st, n=n): I.ordmap = regions(n); sizes(st)
                for p in c.run(f, setup=su, loops=n + 2, opaque=oplog, record_reads=True):
                    if p.out != "ret": continue
                    held = {}; read = 0; ent = []
                    first = {}
                    for i, e in enumerate(p.tr):
                        if e.k == "rmw" and is_ref(e.p):
                            if e.op in ("+", "++"):
                                L = Lin(p.I, p.st); o = L.lin(e.old)
                                used = any((x.k == "rmw" and is_ref(x.p) and x.op in ("-", "--") and x.p == e.p) for x in p.tr[i + 1:])
                                acq = p.out == "ret" and used
                                if acq:
                                    first.setdefault(e.p, e)
                                    cap.append((f, p, e, o)); ent.append(e.p)
                                    held[e.p[2]] = held.get(e.p[2], 0) + 1
                                    c.check("R4", ordr(e.order, 2), name(f), where(e), "a version is entered without acquiring its contents", p, inst=m + " [acquire]")
                            elif e.op in ("-", "--"):
                                h = held.get(e.p[2], 0)
                                c.check("R4", h == 1, name(f), where(e), "a version is left that was not entered", p, inst=m + " [leave]")
                                c.check("R4", ordr(e.order, 3), name(f), where(e), "a version is left without releasing it", p, inst=m + " [release]")
                                held[e.p[2]] = h - 1
                        elif e.k in ("call", "rd") or e.k == "index" and e.o == ver:
                            pl = [x for x in ((e.d.get("o"),) if e.k == "call" else (e.d.get("p"),)) if x is not None]
                            for x in pl:
                                if under(x, ver) and x != ver:
                                    y = x
                                    while not (y[0] == "E" and y[1] == ver): y = y[1]
                                    read += 1
                                    c.check("R4", held.get(y[2], 0) == 1, name(f), where(e), "a version is read that is not held", p, inst=m + " [read]")
                    if p.out == "ret":
                        c.check("R4", not any(held.values()), name(f), fwhere(f), "a version is not left", p, inst=m + " [left]")
                        c.check("R4", len(ent) == 1, name(f), fwhere(f), "a version is entered and left %d times" % len(ent), p, inst=m + " [once]")
                        # contents: which version was consulted
                        homes = [k[1] for k in p.st.m if k[0] == "F" and k[2] == "#om" and under(k[1], ver)]
                        if m == "GetSize":
                            c.check("R5", p.ret == C(n), name(f), fwhere(f), "%s regions are counted instead of %d" % (show(p.ret), n), p, inst="size"); continue
                        lookup(c, f, p, n, p.I)
    need_bound = []
    for f, p, e, o in cap:
        need_bound.append((f, p, e, o))
    c.need("R4", 4); c.need("R5", 3)

    def never_entered(v):
        """a reader never enters a version whose count is v or, with other readers waiting, a little higher"""
        for f, p, e, o in need_bound:
            L = Lin(p.I, p.st, wid={e.old: 32})
            if not L.le0(L.add(L.lin(e.old), {1: -v}, 1)) or not L.le0(L.add(L.lin(e.old), {1: -v + 1})): return False
        return bool(need_bound)
    # ---- the initial state
    init = set()
    for f in [f for f in c.fns(MAP_ + "::MemoryRegionMapImpl") if not f["p"]]:
        for p in c.run(f, loops=N + 2, setup=lambda I, st: sizes(st)):
            st = {}
            for e in p.tr:
                if e.k == "astore" and is_ref(e.p) and isc(e.p[2]) and isc(e.v): st[e.p[2][1]] = e.v[1]
            l = p.I.read(p.st, ("F", lat, "#v"))
            l = l[1] if isc(l) else 0
            c.check("R1", sorted(st) == list(range(N)), name(f), fwhere(f), "not every version gets a count at the start", p, inst="initial counts")
            c.check("R1", st.get(l) == 0, name(f), fwhere(f), "the first version cannot be entered", p, inst="first version")
            init |= {v for k, v in st.items() if k != l}
    c.check("R1", bool(init) and all(never_entered(v) for v in init), MAP_, fwhere(f), "a version that was never written can be entered (counts %s)" % sorted(init), None, inst="unwritten versions")
    # ---- writers
    fins = {"UpdateKnownRegion": "add", "RemoveKnownRegion": "remove", "ClearKnownRegions": "clear"}
    for m, kind in fins.items():
        for f in real(m):
            npub = 0
            for n in ((0, 1, 2, 3) if kind != "clear" else (1,)):
                def su(I, st, n=n):
                    I.ordmap = regions(n); I.generic = True; I.plain = [lat]; sizes(st)
                    for x in f["p"]: I.unsigned.add(inp(x["n"])); I.wid[inp(x["n"])] = 64
                    if kind == "add": I.assume(st, ("op", "<", inp(f["p"][0]["n"]), inp(f["p"][1]["n"])), True)
                for p in c.run(f, setup=su, opaque=oplog):
                    if p.out != "ret": 
                        if kind == "add" and p.out == "abort" and writes(p, lat): c.bad("R2", name(f), fwhere(f), "ends the process after publishing", p)
                        continue
                    pub = [e for e in p.tr if e.k == "astore" and e.p == lat]
                    refused = kind == "add" and p.ret == C(0)
                    if kind == "add": known(c, f, p, n, not refused)
                    if refused:
                        c.check("R3", not pub, name(f), fwhere(f), "a refused region is published", p, inst=m + " [refused]"); continue
                    if not c.check("R2", len(pub) == 1, name(f), fwhere(f), "%d versions are published" % len(pub), p, inst=m + " [published]"): continue
                    npub += 1
                    e = pub[0]; ip = p.tr.index(e); idx = e.v
                    c.check("R2", ordr(e.order, 3), name(f), where(e), "the number of the version is published without releasing its contents", p, inst=m + " [release]")
                    # R1: the slot
                    dom = {LV: range(N)}
                    vals = [(env, evaluate(idx, env)) for env in values(p, idx, dom)]
                    c.check("R1", vals and all(v is not None and 0 <= v < N for _, v in vals), name(f), where(e), "the version %s may not exist" % show(idx), p, inst=m + " [range]")
                    c.check("R1", vals and all(v is None or v != env.get(LV) for env, v in vals), name(f), where(e), "the current version may be overwritten", p, inst=m + " [not current]")
                    slot = ("E", ref, idx)
                    got = [x for x in p.tr[:ip] if x.k == "cas" and x.ok and x.p == slot]
                    seen = [x for x in p.tr[:ip] if x.k == "aload" and x.p == slot]
                    if got:
                        g = got[-1]
                        c.check("R1", g.exp == C(0) or p.I.truth(p.st, p.I.binop(p.st, "==", g.exp, C(0))) is True, name(f), where(g), "a version that readers hold is taken", p, inst=m + " [unused]")
                        c.check("R1", isc(g.des) and never_entered(g.des[1]), name(f), where(g), "readers may enter the version while it is written", p, inst=m + " [closed]")
                        c.check("R1", not g.order or ordr(g.order[0], 2), name(f), where(g), "the last reader's reads are not ordered before the overwriting", p, inst=m + " [acquire]")
                        ia = p.tr.index(g)
                    else:
                        ok = seen and any(p.I.truth(p.st, p.I.binop(p.st, "==", x.v, C(v))) is True for x in seen for v in init)
                        c.check("R1", ok, name(f), where(e), "the version is not taken before it is written", p, inst=m + " [never used]")
                        ia = p.tr.index(seen[-1]) if seen else 0
                    # R2: contents, then count, then number
                    home = ("E", ver, idx)
                    wr = [i for i, x in enumerate(p.tr) if x.k in ("call", "wr") and (x.d.get("o") == home or x.k == "wr" and under(x.p, home)) and mutating(x)]
                    opn = [i for i, x in enumerate(p.tr) if x.k == "astore" and x.p == slot]
                    c.check("R2", all(ia < i for i in wr), name(f), fwhere(f), "the version is written before it is taken", p, inst=m + " [taken]")
                    c.check("R2", len(opn) == 1 and p.tr[opn[0]].v == C(0) and opn[0] < ip, name(f), fwhere(f), "the version is not opened to readers before it becomes current", p, inst=m + " [opened]")
                    if opn:
                        c.check("R2", ordr(p.tr[opn[0]].order, 3), name(f), where(p.tr[opn[0]]), "the version is opened without releasing its contents", p, inst=m + " [opened after contents]")
                        c.check("R2", all(i < opn[0] for i in wr), name(f), fwhere(f), "the version is written after it was opened to readers", p, inst=m + " [complete]")
                    others = [x for x in p.tr if x.k in ("call", "wr") and mutating(x) and any(under(y, ver) and not under(y, home) for y in [x.d.get("o") if x.k == "call" else x.p] if y is not None)]
                    c.check("R2", not others, name(f), fwhere(f), "another version is written", p, inst=m + " [others]")
                    # R3: contents
                    old = entries(None, p.st, p.I, ("E", ver, LV)); new = entries(None, p.st, p.I, home)
                    if kind == "clear":
                        c.check("R3", new == [], name(f), fwhere(f), "the regions are not cleared", p, inst=m); continue
                    base = [(("v", "start%d" % i, 0), ("v", "end%d" % i, 0)) for i in range(n)]
                    if kind == "add": want = set(base) | {tuple(inp(x["n"]) for x in f["p"])}
                    else:
                        a = inp(f["p"][0]["n"])
                        want = {b for b in base if p.I.truth(p.st, p.I.binop(p.st, "==", b[0], a)) is not True}
                        c.check("R3", len(want) == n - 1, name(f), fwhere(f), "a region is removed that is not known", p, inst=m + " [known]")
                    c.check("R3", new is not None and set(new) == want and len(new) == len(want), name(f), fwhere(f), "the new version has %s" % [tuple(show(y) for y in x) for x in new or ()], p, inst=m + " [contents, %d regions]" % n)
            if not npub: c.bad("R3", name(f), fwhere(f), "never publishes a version")
    # a removal of a known region is not refused
    c.need("R1", 6); c.need("R2", 6); c.need("R3", 5)
    registry(c)


def ordr(o, want):
    """memory order o (None: sequentially consistent) acquires (2) / releases (3)"""
    if o is None or not isc(o): return True
    return o[1] in ((1, 2, 4, 5) if want == 2 else (3, 4, 5))


def writes(p, pl): return any(e.k == "astore" and e.p == pl for e in p.tr)


def mutating(e):
    return e.k == "wr" or e.f.rsplit("::", 1)[-1] not in ("find", "begin", "end", "cbegin", "cend", "size", "empty", "upper_bound", "lower_bound", "count", "contains", "at")


class Deep(Lin):
    """a longer chain of facts: one of regions in ascending order"""
    def le0(self, x, depth=6): return Lin.le0(self, x, depth)


def known(c, f, p, n, accepted):
    """an added region [s, e) is accepted exactly if it overlaps no known one"""
    s, e = inp(f["p"][0]["n"]), inp(f["p"][1]["n"])
    L = Deep(p.I, p.st, wid={s: 64, e: 64})
    cases = []
    for i in range(n):
        a, b = ("v", "start%d" % i, 0), ("v", "end%d" % i, 0)
        before = L.le0(L.add(L.lin(e), L.lin(a), -1)); after = L.le0(L.add(L.lin(b), L.lin(s), -1))
        cross = L.le0(L.add(L.add(L.lin(a), L.lin(e), -1), {1: 1})) and L.le0(L.add(L.add(L.lin(s), L.lin(b), -1), {1: 1}))
        cases.append((before or after, cross))
    if accepted: c.check("R3", all(x[0] for x in cases) or L.contra(), name(f), fwhere(f), "a region that overlaps a known one is accepted", p, inst="overlap accepted (%d regions)" % n)
    else: c.check("R3", any(x[1] for x in cases) or L.contra(), name(f), fwhere(f), "a region that overlaps no known one is refused", p, inst="overlap refused (%d regions)" % n)


def lookup(c, f, p, n, I):
    a = inp(f["p"][0]["n"]); I.wid[a] = 64; I.unsigned.add(a)
    T = p.ret[1] if p.ret[0] in ("obj", "ref") else None
    if T is None: c.bad("R5", name(f), fwhere(f), "does not return optional bounds", p); return
    L = Deep(I, p.st, wid={a: 64})
    has = I.read(p.st, ("F", T, "#has"))
    if has == C(0):
        for i in range(n):
            s, e = ("v", "start%d" % i, 0), ("v", "end%d" % i, 0)
            out = L.le0(L.add(L.add(L.lin(a), L.lin(s), -1), {1: 1})) or L.le0(L.add(L.lin(e), L.lin(a), -1))
            c.check("R5", out or L.contra(), name(f), fwhere(f), "an address inside a known region is not found", p, inst="not found (%d regions)" % n)
        if not n: c.ok("R5", "no region")
        return
    V = ("F", T, "#val"); fl = [x["n"] for x in c.db.cls(SHM + "MemoryRegionBounds")[0]["fields"]]
    got = {I.read(p.st, ("F", V, x)) for x in fl}
    ok = False
    for i in range(n):
        s, e = ("v", "start%d" % i, 0), ("v", "end%d" % i, 0)
        if got == {s, e}:
            ok = L.le0(L.add(L.lin(s), L.lin(a), -1)) and L.le0(L.add(L.lin(a), L.lin(e), -1))
    c.check("R5", ok or L.contra(), name(f), fwhere(f), "the bounds found are %s, which need not contain the address" % [show(x) for x in got], p, inst="found (%d regions)" % n)


def registry(c):
    M = c.field(REG, r"mutex"); RM = c.field(REG, r"MemoryRegionMap"); TB = c.field(REG, r"map<.*ManagedMemoryResource")
    this = ("A", "this"); mtx = ("F", this, M); rm = ("F", this, RM); tab = ("F", this, TB)
    muts = {MAP_ + "::" + m for m in ("UpdateKnownRegion", "RemoveKnownRegion", "ClearKnownRegions")}
    res = {}
    hooks = {}
    for q in muts:
        def hook(I, st, e, op, vs, q=q):
            I.emit(st, "region", f=q, o=op, a=[I.argval(st, v) for v in vs], held=list(st.lt))
            if q.endswith("UpdateKnownRegion"):
                s2 = st.copy(); return [(st, C(1)), (s2, C(0))]
            return [(st, ("void",))]
        hooks[q] = hook
    # every caller of a mutator is a member of the registry
    n = 0
    for g in list(c.db.F.values()):
        if g.get("body") is None or g["sq"].startswith(MAP_) or "test" in g["file"]: continue
        if any(x in muts for x in callees(c, g)):
            n += 1
            c.check("R6", g["sq"].startswith(REG + "::"), name(g), fwhere(g), "the known regions are changed behind the back of the registry", None, inst=g["sq"])
    pub = {"insert_resource": "insert", "remove_resource": "remove", "clear": "clear"}
    for m, kind in pub.items():
        for f in c.fns(REG + "::" + m):
            some = 0
            for p in c.run(f, hooks=hooks, opaque=oplog):
                if p.out != "ret": continue
                ev = [e for e in p.tr if e.k == "region"]
                for e in ev:
                    c.check("R6", any(l[0] == mtx and not l[1] for l in e.held), name(f), where(e), "the known regions change without the exclusive lock", p, inst=m)
                tabw = [e for e in p.tr if e.k == "call" and e.o == tab and e.f.rsplit("::", 1)[-1] in ("insert", "emplace", "erase", "clear", "operator[]", "try_emplace", "insert_or_assign", "extract")]
                for e in tabw:
                    i = p.tr.index(e)
                    lk = [x for x in p.tr[:i] if x.k in ("lock", "unlock") and x.m == mtx]
                    c.check("R6", lk and lk[-1].k == "lock" and not lk[-1].shared, name(f), where(e), "the registered resources change without the exclusive lock", p, inst=m + " [table]")
                if kind == "clear":
                    some += 1
                    c.check("R7", len(ev) == 1 and ev[0].f.endswith("ClearKnownRegions") and any(e.f.endswith("clear") for e in tabw), name(f), fwhere(f), "not both of the resources and their regions are cleared", p, inst=m); continue
                byp = [(e, p.I.truth(p.st, e.res)) for e in p.tr if e.k == "call" and e.f.endswith("IsOffsetPtrBoundsCheckBypassingEnabled")]
                by = any(b is True for _, b in byp)
                calls_ = lambda s: [e for e in p.tr if e.k == "call" and e.f.endswith("::" + s)]
                if kind == "insert":
                    ins = [e for e in tabw if e.d.get("ins") is not None]
                    if not c.check("R7", len(ins) == 1, name(f), fwhere(f), "the resource is inserted %d times" % len(ins), p, inst=m + " [table]"): continue
                    new = p.I.truth(p.st, ins[0].ins)
                    if new is None:
                        c.check("R7", not ev and p.ret == ins[0].ins, name(f), fwhere(f), "the result does not tell whether the resource was new", p, inst=m + " [bypassing]")
                        c.check("R7", by, name(f), fwhere(f), "a new resource's region is not made known", p, inst=m + " [new]"); continue
                    if not new or by:
                        c.check("R7", not ev, name(f), fwhere(f), "a region is made known for a resource that is not", p, inst=m + " [old or bypassing]")
                        c.check("R7", p.ret == C(1 if new else 0) or p.ret == ins[0].ins, name(f), fwhere(f), "the result does not tell whether the resource was new", p, inst=m + " [result]"); continue
                    some += 1
                    if not c.check("R7", len(ev) == 1 and ev[0].f.endswith("UpdateKnownRegion"), name(f), fwhere(f), "a new resource's region is not made known", p, inst=m + " [new]"): continue
                    b, e_ = calls_("getBaseAddress"), calls_("getEndAddress")
                    c.check("R7", ev[0].a[0] in {x.res for x in b} and ev[0].a[1] in {x.res for x in e_}, name(f), where(ev[0]), "the region made known is %s" % [show(x) for x in ev[0].a], p, inst=m + " [bounds]")
                    objs = {x.o for x in b + e_}
                    c.check("R7", len(objs) == 1, name(f), where(ev[0]), "the bounds are not those of one resource", p, inst=m + " [one resource]")
                else:
                    er = [e for e in tabw if e.f.endswith("erase")]
                    if er and not by:
                        some += 1
                        c.check("R7", len(ev) == 1 and ev[0].f.endswith("RemoveKnownRegion") and ev[0].a[0] in {x.res for x in calls_("getBaseAddress")}, name(f), fwhere(f), "the region of a removed resource stays known", p, inst=m + " [removed]")
                    else:
                        c.check("R7", not ev, name(f), fwhere(f), "a region is removed whose resource is not", p, inst=m + " [kept or bypassing]")
                        fd = [e for e in p.tr if e.k == "call" and e.o == tab and e.f.endswith("find")]
                        if by: c.check("R7", er, name(f), fwhere(f), "a resource is not removed", p, inst=m + " [bypassing]")
            if not some: c.bad("R7", name(f), fwhere(f), "never changes the known regions")
    for m in ("GetBoundsFromAddress", "GetBoundsFromAddressAsInteger"):
        for f in c.fns(REG + "::" + m):
            g = []
            def hk(I, st, e, op, vs):
                I.emit(st, "lookup", o=op, a=I.argval(st, vs[0])); T = I.tmp(st); I.setobj(st, T, ("in", "answer")); return [(st, ("obj", T))]
            for p in c.run(f, hooks={MAP_ + "::GetBoundsFromAddress": hk}):
                l = [e for e in p.tr if e.k == "lookup"]
                ok = len(l) == 1 and l[0].o == rm and l[0].a == inp(f["p"][0]["n"]) and p.ret[0] in ("obj", "ref") and p.I.base(p.st, p.ret[1]) == ("in", "answer")
                c.check("R7", ok, name(f), fwhere(f), "does not answer with the region of the address", p, inst=m)
    c.need("R6", 4); c.need("R7", 8)


def callees(c, g):
    out = set()

    def walk(x):
        if isinstance(x, dict):
            if x.get("k") == "call" and isinstance(x.get("f"), dict) and x["f"].get("q"): out.add(re.sub(r"<.*>", "", x["f"]["q"]))
            for v in x.values(): walk(v)
        elif isinstance(x, list):
            for v in x: walk(v)
    walk(g["body"])
    return out
