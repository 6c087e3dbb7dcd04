"""Move-only handles and sample accounting."""
from core import *
from db import CheckError
import raii
from absint import strip_targs
IMPL = "score::mw::com::impl::"
LOLA = IMPL + "lola::"

HANDLES = [  # class, suffixes of the operations that release (kept opaque)
    ("score::memory::shared::LockFile", ()),
    ("score::memory::shared::detail::MemoryRegionMapImpl::AcquiredRefcountIndex", ()),
    (IMPL + "SampleAllocateeGuard", ()),
    (IMPL + "SampleReferenceGuard", ()),
    (IMPL + "TrackerGuardFactory", ()),
    (LOLA + "SlotDecrementer", ("ConsumerEventDataControlLocalView",)),
    (LOLA + "SampleAllocateePtr", ("EventDataControlComposite",)),
    (IMPL + "SampleAllocateePtr", ("EventDataControlComposite",)),
    (LOLA + "SamplePtr", ("ConsumerEventDataControlLocalView",)),
    (IMPL + "SamplePtr", ("ConsumerEventDataControlLocalView",)),
    ("score::mw::com::gateway::UniqueSocket", ()),
    (LOLA + "FlagFile", ()),
    (IMPL + "MethodSignatureElementPtr", ()),
]
# the sample handle releases what its own destruction releases; these are the resources that must be given back
RELEASES = {"score::memory::shared::LockFile": ("call", "close"), "score::mw::com::gateway::UniqueSocket": ("call", "close"), LOLA + "SlotDecrementer": ("call", "DereferenceEvent"),
            LOLA + "SampleAllocateePtr": ("call", "Discard"), IMPL + "SampleAllocateeGuard": ("rmw", "-"), IMPL + "SampleReferenceGuard": ("rmw", "+"), IMPL + "TrackerGuardFactory": ("rmw", "+"),
            LOLA + "FlagFile": ("call", "Remove"), LOLA + "SamplePtr": ("call", "DereferenceEvent"), IMPL + "SamplePtr": ("rmw", "+"), IMPL + "SampleAllocateePtr": ("rmw", "-")}


@prop("P08", ["score/memory/shared/lock_file.cpp", "score/memory/shared/memory_region_map.cpp", "score/mw/com/impl/sample_allocatee_guard.cpp", "score/mw/com/impl/sample_allocatee_tracker.cpp",
              "score/mw/com/impl/sample_reference_tracker.cpp", "score/mw/com/impl/bindings/lola/*.cpp", "score/mw/com/impl/bindings/lola/service_discovery/**/*.cpp", "score/mw/com/impl/configuration/*.cpp",
              "score/mw/com/gateway/**/unique_socket*.cpp"], ["api", "util"])
def p08(c):
    c.rule("R1", "what a handle releases when destroyed is released exactly once, by the last owner, after any move construction, move assignment or self move")
    c.rule("R2", "destroying an engaged handle releases the resource; destroying an empty one releases nothing")
    c.rule("R3", "handles cannot be copied")
    for cls, opq in HANDLES:
        done = 0; err = None
        for cl in c.db.cls(cls):
            if "Mock" in cl["n"]: continue
            op = (lambda o: lambda sq, f: any(("::" + x + "::") in sq for x in o))(opq)
            try:
                n, eff = raii.conserve(c, "R1", cl, name=cls, opaque=op)
            except CheckError as e:
                err = e; continue
            done += 1
            S = raii.Scen(c, cl, opaque=op)
            X = ("A", "first")
            kinds = {}
            for s in S.dtor(S.start(), X):
                e = S.effects(s, (X,))
                kinds.setdefault(bool(rel(cls, e)), []).append((s, e))
            if cls in RELEASES:
                c.check("R2", True in kinds, cls, "%s:%d" % (cl["file"], cl["l"]), "destruction never releases the resource", inst=cls + " releases")
                c.check("R2", False in kinds, cls, "%s:%d" % (cl["file"], cl["l"]), "an empty handle releases too", inst=cls + " empty handle")
                for s, e in kinds.get(True, []):
                    r = rel(cls, e)
                    c.check("R2", len(r) == (len(r) if cls in (LOLA + "SampleAllocateePtr",) else 1), cls, "%s:%d" % (cl["file"], cl["l"]), "destruction releases %d times" % len(r), inst=cls + " once")
            for m in cl["m"]:
                if m.get("kind") in ("copyctor", "copyassign"):
                    c.check("R3", bool(m.get("del")), cls, "%s:%d" % (cl["file"], cl["l"]), "%s is available" % m["kind"], inst="%s %s deleted" % (cls, m["kind"]))
        if not done:
            raise CheckError("no analysable instantiation of %s (%s)" % (cls, err))


def rel(cls, eff):
    k = RELEASES.get(cls)
    if k is None: return eff
    return [e for e in eff if e[0] == k[0] and (e[1].endswith("::" + k[1]) if k[0] == "call" else e[2] == k[1])]


@prop("P09", ["score/mw/com/impl/sample_*.cpp", "score/mw/com/impl/proxy_event_base.cpp", "score/mw/com/impl/bindings/lola/*.cpp"], ["api"])
def p09(c):
    c.rule("R1", "reserving sample guards takes exactly the granted number from the budget, never more than requested or available")
    c.rule("R2", "a guard is only handed out while the reservation still holds one, and is taken off the reservation")
    c.rule("R3", "the slots collected by one call never exceed the reservation; each comes from one successful reference and is stored once, in strictly falling time order, and is delivered oldest first")
    c.rule("R4", "samples are only requested from the binding with a non-empty reservation of the caller's maximum; every delivered sample consumes one guard and references one slot")
    c.rule("R5", "subscribing sets the sample budget to the requested maximum before the binding subscribes, and only when not subscribed; a different maximum while subscribed is refused without effect")
    c.rule("R6", "unsubscribing or destroying while the application still holds samples terminates")
    T = IMPL + "SampleReferenceTracker"
    AV = c.field(T, "atomic")
    for f in c.fns(T + "::Allocate"):
        want = inp(f["p"][0]["n"])
        for p in c.run(f, loops=3):
            if p.out != "ret" or "widened" in p.st.flags: continue
            I, st = p.I, p.st
            tot, rem = K(0), want; bad = None
            for i, e in evs(p, "cas", "rmw", "astore"):
                if e.k != "cas": bad = "budget changed other than by compare-and-swap"; continue
                if e.ok not in (True, TRUE): continue
                t = I.binop(st, "-", e.exp, e.des, "unsigned long")
                if I.truth(st, lt(I, st, e.exp, t)) is not False: bad = "takes %s of %s available" % (show(t), show(e.exp))
                if I.truth(st, lt(I, st, rem, t)) is not False: bad = "takes %s after %s for a request of %s" % (show(t), show(tot), show(want))
                tot = I.binop(st, "+", tot, t, "unsigned long"); rem = I.binop(st, "-", rem, t, "unsigned long")
            n = I.read(st, ("F", p.ret[1], c.field(IMPL + "TrackerGuardFactory", "unsigned long")))
            if bad is None and I.truth(st, eq(I, st, n, tot)) is not True: bad = "grants %s guards but takes %s from the budget" % (show(n), show(tot))
            c.check("R1", bad is None, name(f), fwhere(f), bad, p, inst="%s granting %s" % (name(f), show(n)))
    for f in c.fns(T + "::Deallocate") if c.db.byq.get(T + "::Deallocate") else []:
        a = inp(f["p"][0]["n"])
        for p in c.run(f):
            r = evs(p, "rmw", "astore", "cas")
            c.check("R1", len(r) == 1 and r[0][1].k == "rmw" and r[0][1].op == "+" and r[0][1].arg == a, name(f), fwhere(f), "gives back %s" % [str(e) for _, e in r], p)
    G = IMPL + "TrackerGuardFactory"
    NF = c.field(G, "unsigned long")
    TF = c.field(G, "SampleReferenceTracker &")
    GT = c.field(IMPL + "SampleReferenceGuard", r"\*")
    for f in c.fns(G + "::TakeGuard"):
        n0 = inp("this", NF)
        for p in c.run(f):
            I, st = p.I, p.st
            n1 = I.read(st, ("F", ("A", "this"), NF))
            if hasval(p) is True:
                c.check("R2", I.truth(st, lt(I, st, K(0), n0)) is True and I.truth(st, eq(I, st, n1, I.binop(st, "-", n0, K(1), "unsigned long"))) is True and
                        I.read(st, ("F", ("F", p.ret[1], "#val"), GT)) != NULL, name(f), fwhere(f), "guard handed out with %s left of %s" % (show(n1), show(n0)), p, inst=name(f) + " hands out")
            else:
                c.check("R2", n1 == n0 and I.truth(st, lt(I, st, K(0), n0)) is False, name(f), fwhere(f), "nothing handed out with %s of %s left" % (show(n1), show(n0)), p, inst=name(f) + " exhausted")
    allocatee(c)
    collector(c)
    new_samples(c)
    subscribe(c)


def allocatee(c):
    c.rule("R7", "every allocated sample is counted once and discounted once; destroying the counter while samples are outstanding terminates")
    T = IMPL + "SampleAllocateeTracker"
    CT = c.field(T, "atomic")
    for m, op in (("Allocate", "+"), ("Deallocate", "-")):
        for f in c.fns(T + "::" + m):
            for p in c.run(f):
                r = evs(p, "rmw", "astore", "cas")
                if p.out == "abort":
                    c.check("R7", m == "Deallocate", name(f), fwhere(f), "aborts", p); continue
                c.check("R7", len(r) == 1 and r[0][1].k == "rmw" and r[0][1].op == op and r[0][1].arg == K(1) and r[0][1].p == ("F", ("A", "this"), CT), name(f), fwhere(f), "counter changed by %s" % [str(e) for _, e in r], p)
                if m == "Allocate":
                    t = p.I.read(p.st, ("F", p.ret[1], c.field(IMPL + "SampleAllocateeGuard", r"\*|optional|reference_wrapper")))
                    c.check("R7", t == mkaddr(("A", "this")), name(f), fwhere(f), "guard is not bound to the counter", p, inst=name(f) + " guard bound")
                else:
                    c.check("R7", p.I.truth(p.st, lt(p.I, p.st, K(0), r[0][1].old)) is True, name(f), fwhere(f), "counts below zero unnoticed", p, inst=name(f) + " never below zero")
    for f in c.fns(T + "::~SampleAllocateeTracker"):
        for p in c.run(f):
            ld = evs(p, "aload")
            z = p.I.truth(p.st, eq(p.I, p.st, ld[-1][1].v, K(0))) if ld else None
            c.check("R7", z is (p.out == "ret"), name(f), fwhere(f), "%s with outstanding samples" % p.out, p, inst=name(f) + " " + p.out)


CONSV = "ConsumerEventDataControlLocalView::"


def has_of(I, st, e):
    return I.truth(st, ("fld", e.res, "#has"))


def rangelist(b, e, cap=8):
    """[(container, index)] designated by the iterators [b, e), or None"""
    if b[0] == "rit" and e[0] == "rit" and b[1] == e[1] and isc(b[2]) and isc(e[2]) and 0 <= b[2][1] - e[2][1] <= cap:
        return [(b[1], i) for i in range(b[2][1] - 1, e[2][1] - 1, -1)]
    def fi(t):
        if t[0] == "it" and isc(t[2]): return t[1], t[2][1]
        if t[0] == "op" and t[1] == "+" and t[2][0] == "it" and isc(t[2][2]) and isc(t[3]): return t[2][1], t[2][2][1] + t[3][1]
    x, y = fi(b), fi(e)
    if x and y and x[0] == y[0] and 0 <= y[1] - x[1] <= cap:
        return [(x[0], i) for i in range(x[1], y[1])]
    return None


def collector(c):
    SC = LOLA + "SlotCollector"
    VEC = c.field(SC, "vector|Vector")
    LTS = c.field(SC, "^unsigned int$")
    rf = [x["n"] for x in c.db.cls(SC + "::SlotIndices")[0]["fields"]]
    last = inp("this", LTS)
    for f in c.fns(SC + "::GetNewSamplesSlotIndices"):
        mx = inp(f["p"][0]["n"])
        for p in c.run(f, opaque=lambda sq, g: CONSV in sq, maxpaths=30000):
            if p.out != "ret": continue
            I, st = p.I, p.st
            got = calls(p, "ReferenceNextEvent")
            taken = []
            for j, (i, e) in enumerate(got):
                lo, hi = e.a[0], e.a[1]
                wid = j > 2 or "widened" in st.flags and j == len(got) - 1 and j > 1
                c.check("R3", lo == last, name(f), e.where(), "search starts at %s instead of the last delivered timestamp" % show(lo), p, inst="lower bound of search %d" % j)
                if j == 0:
                    c.check("R3", hi == K(2**32 - 1), name(f), e.where(), "first search ends at %s" % show(hi), p, inst="upper bound of the first search")
                elif not wid:
                    c.check("R3", tsof(hi, taken[-1]), name(f), e.where(), "the next search is not bounded by the time of the slot taken before", p, inst="upper bound of search %d" % j)
                if has_of(I, st, e) is True: taken.append(("fld", e.res, "#val"))
            if "widened" in st.flags: continue
            n = len(taken)
            if n:
                c.check("R3", I.truth(st, lt(I, st, K(n - 1), mx)) is True, name(f), fwhere(f), "%d slots may be collected for a smaller maximum" % n, p, inst="%d slots within the maximum" % n)
            r = rangelist(I.read(st, ("F", p.ret[1], rf[0])), I.read(st, ("F", p.ret[1], rf[1])))
            dl = None if r is None else [I.read(st, ("E", ct, K(i))) for ct, i in r]
            c.check("R3", dl == taken[::-1], name(f), fwhere(f), "%d slots are referenced but %s are delivered (oldest first expected)" % (n, None if dl is None else [show(x) for x in dl]), p, inst="%d slots delivered" % n)
            fin = I.read(st, ("F", ("A", "this"), LTS))
            if n == 0:
                c.check("R3", fin == last, name(f), fwhere(f), "last delivered time changes although nothing is delivered", p, inst="time unchanged")
            else:
                c.check("R3", any(tsof(fin, t) for t in taken) or fin == last, name(f), fwhere(f), "last delivered time is set to %s" % show(fin), p, inst="last delivered time known")
                ok = tsof(fin, taken[0]) or all(tsge(I, st, fin, t, last) for t in taken)
                c.check("R3", ok, name(f), fwhere(f), "last delivered time %s is older than a delivered sample" % show(fin), p, inst="last delivered time newest of %d" % n)


def tsof(t, slot):
    return isinstance(t, tuple) and slot in set(subterms(t)) and slot != t


def tsge(I, st, fin, slot, last):
    """fin is at least the timestamp of slot, on the facts of st"""
    if tsof(fin, slot): return True
    for k, v in st.f.items():
        if k and k[0] == "op" and k[1] == "<":
            a, b = k[2], k[3]
            if (tsof(a, slot) and b == fin) or (v is False and a == fin and tsof(b, slot)): return True
    cand = [x for k in st.f for x in subterms(k) if isinstance(x, tuple) and x and x[0] == "bv" and tsof(x, slot)]
    return any(I.truth(st, lt(I, st, fin, x)) is False for x in cand)


TRC = lambda sq, g: "::tracing::" in sq or CONSV in sq or "SlotCollector::" in sq or sq.endswith("ProxyEventCommon::GetNewSamplesSlotIndices")


def new_samples(c):
    NF = c.field(IMPL + "TrackerGuardFactory", "unsigned long")
    TF = c.field(IMPL + "TrackerGuardFactory", "SampleReferenceTracker")
    n = 0
    for f in c.fns(IMPL + "ProxyEvent::GetNewSamples"):
        if len(f["p"]) != 2 or n >= (2 if c.tier == "quick" else 99): continue
        n += 1
        mx = inp(f["p"][1]["n"])
        for p in c.run(f, opaque=lambda sq, g: TRC(sq, g) or sq.endswith("TrackerGuardFactory::~TrackerGuardFactory") or sq.endswith("SampleReferenceTracker::Allocate"), snap=lambda k, sq: sq.endswith("::GetNewSamples")):
            I, st = p.I, p.st
            if p.out != "ret": continue
            b = [(i, e) for i, e in calls(p, "GetNewSamples") if "Mock" not in e.f and "IProxyEvent" not in e.f]
            if [1 for i, e in calls(p, "GetNewSamples") if "IProxyEvent" in e.f]: continue      # test double installed
            al = calls(p, "SampleReferenceTracker::Allocate")
            if len(al) != 1 or al[0][1].a[0] != mx:
                c.bad("R4", name(f), fwhere(f), "guards are not reserved exactly once for the caller's maximum", p); continue
            got = ("fld", al[0][1].res, NF)
            if not b:
                c.check("R4", hasval(p) is False and errcode(p) == enum(c, "impl::ComErrc", "kMaxSamplesReached"), name(f), fwhere(f), "returns without asking the binding and without reporting that no sample slot is free", p, inst="no free slot")
                c.check("R4", I.truth(st, lt(I, st, K(0), got)) is False, name(f), fwhere(f), "binding not asked although guards were reserved", p, inst="no free slot, nothing reserved")
                continue
            i, e = b[0]
            avail = e.st and I.read(e.st, ("F", e.ap[1], NF))
            c.check("R4", len(b) == 1 and avail == got and al[0][0] < i, name(f), e.where(), "the reservation handed to the binding is not the one taken", p, inst="reservation handed on")
            c.check("R4", I.truth(e.st, lt(I, e.st, K(0), got)) is True, name(f), e.where(), "binding asked with an empty reservation", p, inst="reservation not empty")
            ok = has_of(I, st, e)
            if ok is True:
                c.check("R4", hasval(p) is True and val(p) == ("fld", e.res, "#val"), name(f), fwhere(f), "the number of delivered samples is not passed on", p, inst="count passed on")
            elif ok is False:
                c.check("R4", hasval(p) is False, name(f), fwhere(f), "failure of the binding is not reported", p, inst="failure passed on")
    L = LOLA + "ProxyEvent::GetNewSamplesImpl"
    for f in c.fns(L):
        tr, rc = f["p"][1]["n"], f["p"][0]["n"]
        for p in c.run(f, opaque=TRC, loops=2, snap=lambda k, sq: k == "invoke"):
            I, st = p.I, p.st
            if p.out == "badopt":
                # more slots than guards: excluded by the bound of the collector (R3) and the limit passed to it
                continue
            if p.out != "ret": continue
            q = calls(p, "GetNewSamplesSlotIndices")
            c.check("R4", len(q) == 1 and q[0][1].a[0] == inp(tr, NF), name(f), fwhere(f), "slots are not limited by the available guards", p, inst=f["q"] + " limited by the guards")
            if "widened" in st.flags or not q: continue
            inv = [e for i, e in evs(p, "invoke") if e.p == ("A", rc) or e.p is not None and root(e.p) == ("A", rc)]
            left = I.read(st, ("F", ("A", tr), NF))
            c.check("R4", I.truth(st, eq(I, st, left, I.binop(st, "-", inp(tr, NF), K(len(inv)), "unsigned long"))) is True, name(f), fwhere(f), "%d samples delivered, guards left %s" % (len(inv), show(left)), p, inst="%s one guard per sample (%d)" % (f["q"], len(inv)))
            b = ("fld", q[0][1].res, "begin")
            SD = c.field(LOLA + "SlotDecrementer", "short|SlotIndex")
            for j, e in enumerate(inv):
                it = b
                for _ in range(j): it = I.binop(st, "+", it, K(1), "long") if False else ("op", "+", it, K(1))
                vals = [v for k, v in e.st.m.items() if e.ap[0] is not None and under(k, e.ap[0]) and k[0] == "F" and k[2] == SD]
                want = [("deref", it), ("deref", ("op", "+", b, K(j)))]
                c.check("R4", len(vals) >= 1 and all(v in want for v in vals), name(f), e.where(), "sample %d does not hold the reference of its slot: %s" % (j, [show(v) for v in vals]), p, inst="%s sample %d holds its slot" % (f["q"], j))
                gd = [v for k, v in e.st.m.items() if e.ap[0] is not None and under(k, e.ap[0]) and k[0] == "F" and k[2] == c.field(IMPL + "SampleReferenceGuard", r"\*")]
                c.check("R4", len(gd) >= 1 and all(v not in (NULL,) for v in gd), name(f), e.where(), "sample %d holds no guard" % j, p, inst="%s sample %d holds a guard" % (f["q"], j))
    c.need("R4", 8)


def subscribe(c):
    T = IMPL + "SampleReferenceTracker"
    AV, MX = c.field(T, "atomic"), c.field(T, "^(const )?unsigned long$")
    PB = IMPL + "ProxyEventBase"
    fl = [("F", ("F", ("A", "this"), x["n"]), y["n"]) for x in c.db.cls(PB)[0]["fields"] if "Flag" in x["t"] for y in c.db.cls(base_type(x["t"]))[0]["fields"]]
    for f in c.fns(PB + "::Subscribe"):
        want = inp(f["p"][0]["n"])
        for p in c.run(f, opaque=TRC):
            I, st = p.I, p.st
            if p.out != "ret" or [1 for i, e in calls(p, "Subscribe") if "IProxyEvent" in e.f]: continue
            b = calls(p, "Subscribe")
            st_ = calls(p, "GetSubscriptionState")
            if not st_: c.bad("R5", name(f), fwhere(f), "subscription state not consulted", p); continue
            ns = I.truth(st, eq(I, st, K(enum(c, "impl::SubscriptionState", "kNotSubscribed")), st_[0][1].res))
            bud = [(i, e) for i, e in evs(p, "astore", "rmw", "cas", "wr") if e.p[0] == "F" and e.p[2] in (AV, MX)]
            setf = [(i, e) for i, e in evs(p, "wr") if e.p in fl]
            if ns is True:
                c.check("R5", len(b) == 1 and b[0][1].a[0] == want, name(f), fwhere(f), "binding not subscribed with the requested maximum", p, inst="binding subscribed")
                c.check("R5", len(bud) == 2 and {e.p[2] for i, e in bud} == {AV, MX} and all(e.k in ("astore", "wr") and e.v == want and i < b[0][0] for i, e in bud), name(f), fwhere(f), "sample budget not set to the requested maximum before the binding subscribes", p, inst="budget set")
                ok = has_of(I, st, b[0][1]) if b else None
                c.check("R5", hasval(p) is ok and bool(setf) is (ok is True) and all(e.v in (TRUE, K(1)) and i > b[0][0] for i, e in setf), name(f), fwhere(f), "subscription reported although the binding %s" % ("succeeded" if ok else "failed"), p, inst="binding %s" % ok)
                if ok is False: c.check("R5", errcode(p) == enum(c, "impl::ComErrc", "kBindingFailure"), name(f), fwhere(f), "wrong error", p, inst="binding failure")
            elif ns is False:
                c.check("R5", not b and not bud, name(f), fwhere(f), "subscribing again while subscribed changes the running subscription", p, inst="already subscribed: no effect")
                mm = [e for i, e in calls(p, "GetMaxSampleCount")]
                if mm:
                    same = I.truth(st, eq(I, st, ("fld", mm[0].res, "#val"), want))
                    c.check("R5", same is not None and hasval(p) is same and bool(setf) is same, name(f), fwhere(f), "different maximum accepted / same maximum refused", p, inst="already subscribed, same maximum %s" % same)
                    if same is False: c.check("R5", errcode(p) == enum(c, "impl::ComErrc", "kMaxSampleCountNotRealizable"), name(f), fwhere(f), "wrong error", p, inst="different maximum")
                else:
                    d = [I.truth(st, eq(I, st, K(enum(c, "impl::SubscriptionState", x)), st_[0][1].res)) for x in ("kSubscribed", "kSubscriptionPending")]
                    c.check("R5", d == [False, False], name(f), fwhere(f), "the maximum of the running subscription is not consulted", p, inst="state outside the enumeration")
            else:
                c.bad("R5", name(f), fwhere(f), "path does not depend on the subscription state", p)
    for f in c.fns(PB + "::Unsubscribe") + c.fns(PB + "::~ProxyEventBase"):
        dt = "~" in f["sq"]
        for p in c.run(f, opaque=TRC):
            I, st = p.I, p.st
            if [1 for i, e in calls(p, "Unsubscribe") if "IProxyEvent" in e.f]: continue
            tr = [e for i, e in evs(p, "aload") if e.p[0] == "F" and e.p[2] == AV]
            used = None
            if tr: used = I.truth(st, lt(I, st, tr[-1].v, I.read(st, ("F", tr[-1].p[1], MX))))
            if p.out == "abort":
                c.check("R6", used is True or not tr, name(f), fwhere(f), "terminates although no sample is held", p, inst=name(f) + " terminates"); continue
            if p.out != "ret": c.bad("R6", name(f), fwhere(f), "leaves by " + p.out, p); continue
            if dt:
                null = I.truth(st, eq(I, st, I.read(st, ("F", ("F", ("A", "this"), c.field(PB, "unique_ptr<.*SampleReferenceTracker")), "#ptr")), NULL))
                c.check("R6", used is False or (null is True and not tr), name(f), fwhere(f), "may finish while samples are held", p, inst=name(f) + " without samples")
            else:
                b = calls(p, "Unsubscribe")
                fi = [I.read(st, x) for x in fl]
                if b:
                    c.check("R6", used is False and tr and evs(p, "aload")[-1][0] > b[0][0], name(f), fwhere(f), "may finish while samples are held", p, inst=name(f) + " without samples")
                    c.check("R6", all(x in (FALSE, K(0)) for x in fi), name(f), fwhere(f), "still marked as subscribed", p, inst=name(f) + " clears the mark")
                else:
                    was = [I.truth(st, ("in", x)) for x in ()]
                    s0 = calls(p, "GetSubscriptionState")
                    no = s0 and I.truth(st, eq(I, st, K(enum(c, "impl::SubscriptionState", "kNotSubscribed")), s0[0][1].res)) is True
                    c.check("R6", no or any(st.f.get(t) is False for t in st.f if t[0] in ("fld", "in")), name(f), fwhere(f), "returns without unsubscribing the binding", p, inst=name(f) + " nothing to do")

