"""P27: offering a service"""
from core import *
from absint import *
from models import F, set_it, put, src_place, targ0
from db import CheckError
import tables
from props.names import enumval
from props.servicedisc import ret_ok, quals, NS, L, THIS
SB = NS + "SkeletonBase"; SK = L + "Skeleton"; MM = L + "SkeletonMemoryManager"


def result(I, st, ok):
    p = I.tmp(st); I.setobj(st, p, ("exp", st.n)); st.n += 1
    st.m[F(p, "#has")] = C(ok)
    return ("obj", p)


def step(what, fails=True):
    """an operation of the layer below: recorded, with both outcomes"""
    def h(I, st, e, op, vs):
        r = []
        for ok in (True, False) if fails else (True,):
            s = st.copy()
            I.emit(s, "of", what=what, o=op, res=ok)
            r.append((s, result(I, s, ok)) if fails else (s, VOID))
        return r
    return h


@prop("P27", ["score/mw/com/impl/skeleton_base.cpp", "score/mw/com/impl/generic_skeleton.cpp", "score/mw/com/impl/bindings/lola/skeleton.cpp", "score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp"], ["api"])
def p27(c):
    c.rule("R1", "a service is announced only after its memory, each of its elements and all its methods are ready; when a step fails the earlier ones are undone, each once, and the error is returned")
    c.rule("R2", "the end of an offer takes back the announcement first, then ends each element and last the binding, once, and only if the service is offered")
    base(c)
    lola(c)
    lifetime(c)


def base(c):
    fs = {x["n"]: x["t"] for x in c.db.cls(SB)[0]["fields"]}
    import re
    ev = [n for n, t in fs.items() if re.search(r"map<.*SkeletonEventBase", t)]; fi = [n for n, t in fs.items() if re.search(r"map<.*SkeletonFieldBase", t)]
    mock = [n for n, t in fs.items() if "ISkeletonBase *" in t]; fl = [n for n, t in fs.items() if t.endswith("FlagOwner")]
    if [len(x) for x in (ev, fi, mock, fl)] != [1] * 4: raise CheckError("anchor vanished: members of SkeletonBase")
    EV, FI = F(THIS, ev[0]), F(THIS, fi[0])
    flag = F(F(THIS, fl[0]), c.field(NS + "FlagOwner", r"^bool$"))

    def hooks():
        h = tables.hooks()
        for k, cl in (("event", "SkeletonEventBase"), ("field", "SkeletonFieldBase")):
            h[NS + cl + "::PrepareOffer"] = step(k); h[NS + cl + "::PrepareStopOffer"] = step("stop " + k, False)
        h[NS + "SkeletonBinding::PrepareOffer"] = step("binding"); h[NS + "SkeletonBinding::PrepareStopOffer"] = step("stop binding", False)

        def verified(I, st, e, op, vs):
            r = []
            for ok in (True, False):
                s = st.copy(); I.emit(s, "of", what="methods", o=op, res=ok); r.append((s, C(ok)))
            return r
        h[NS + "SkeletonBinding::VerifyAllMethodHandlersRegistered"] = verified
        for k in ("IServiceDiscovery", "ServiceDiscovery"):
            h[NS + k + "::OfferService"] = step("announce"); h[NS + k + "::StopOfferService"] = step("withdraw")
        return h

    def setup(offered, ne=2, nf=2):
        def g(I, st):
            tables.fill(I, st, EV, ne, "event"); tables.fill(I, st, FI, nf, "field")
            for t, n, k in ((EV, ne, "event"), (FI, nf, "field")):
                for i in range(n): st.m[F(("E", t, C(i)), "first")] = ("str", "%s%d" % (k, i))
            st.m[F(THIS, mock[0])] = NULL; st.m[flag] = C(offered)
        return g
    n = 0
    unbound = lambda p: p.out != "ret" and not evs(p, "of")      # an element without binding: refused before anything is prepared
    for f in c.fns(SB + "::OfferService"):
        for (ne, nf) in ((2, 2), (0, 1), (1, 0), (0, 0)):
            for p in c.run(f, hooks=hooks(), setup=setup(False, ne, nf)):
                if unbound(p): continue
                n += 1
                bad = offer_rule(p, ne, nf, flag)
                if bad: c.bad("R1", name(f), fwhere(f), bad[1], p)
                else: c.ok("R1", name(f))
        c.rule("R3", "offering a service that is already offered leaves the running offer alone and reports an error")
        for p in c.run(f, hooks=hooks(), setup=setup(True)):
            bad = None
            if unbound(p): continue
            if p.out != "ret": bad = ("ending", "ends otherwise than by returning")
            elif evs(p, "of"): bad = (evs(p, "of")[0][1].what, "performs '%s' on the elements of the running offer" % evs(p, "of")[0][1].what)
            elif ret_ok(p) is not False: bad = ("success", "reports success")
            elif p.I.read(p.st, flag) != TRUE: bad = ("flag", "forgets that the service is offered")
            if bad: c.bad("R3", name(f), fwhere(f), "when the service is already offered, " + bad[1], p)
            else: c.ok("R3", name(f))
    for f in c.fns(SB + "::StopOfferService"):
        for offered in (True, False):
            for (ne, nf) in ((2, 2), (0, 1), (1, 0)):
                for p in c.run(f, hooks=hooks(), setup=setup(offered, ne, nf)):
                    n += 1
                    bad = stop_rule(p, ne, nf, flag, offered)
                    if bad: c.bad("R2", name(f), fwhere(f), bad[1], p)
                    else: c.ok("R2", name(f))
    if not n: raise CheckError("no path of the offering operations analysed")


ELEMENTS = ("event", "field")


def offer_rule(p, ne, nf, flag):
    if p.out != "ret": return ("ending", "ends otherwise than by returning or failing with an error")
    t = [e for i, e in evs(p, "of")]; ok = ret_ok(p)
    if ok is None: return ("result", "the result does not say whether the service is offered")
    done, undone, ann = [], [], None
    for e in t:
        w = e.what
        if w.startswith("stop ") or w == "withdraw":
            k = ("announce", None) if w == "withdraw" else (w[5:], e.o)
            if k[0] == "announce" and (ann is None or not ann.res): return ("withdrawn", "takes back an announcement that was not made")
            if k[0] != "announce" and k not in done: return ("undone", "ends an element whose preparation did not succeed or was not tried: %s" % w)
            if k in undone: return ("undone twice", "ends an element of the failed offer twice: %s" % w)
            if k[0] == "binding" and [x for x in done if x[0] in ELEMENTS and x not in undone]:
                return ("binding undone early", "takes down the binding before the elements prepared on it are ended")
            undone.append(k)
        else:
            if undone: return ("continued", "continues to offer after undoing began")
            k = (w, e.o)
            if w in ELEMENTS and k in done: return ("prepared twice", "prepares the same %s twice" % w)
            if w in ELEMENTS + ("methods", "announce") and not [x for x in done if x[0] == "binding"]: return ("before the binding", "'%s' happens before the binding is prepared" % w)
            if w == "announce":
                if ann: return ("announced twice", "announces the service twice")
                ann = e
                for kk, n in (("event", ne), ("field", nf)):
                    if len([x for x in done if x[0] == kk]) != n: return ("unprepared " + kk, "announces the service although not every %s was prepared successfully" % kk)
                if not [x for x in done if x[0] == "methods"]: return ("methods", "announces the service although it is not known that every method has a handler")
                if not e.res: continue
            if e.res: done.append(k)
    isset = p.I.read(p.st, flag)
    if ok:
        if not ann or not ann.res: return ("not announced", "reports success although the service was not announced")
        if undone: return ("undone after success", "ends '%s' again although the offer succeeded" % undone[0][0])
        if isset != TRUE: return ("flag", "does not remember that the service is offered: the offer would never be ended")
    else:
        if isset != FALSE: return ("flag", "remembers a failed offer as offered")
        if ann and ann.res: return ("announced", "reports failure although the service is announced")
        left = [x for x in done if x[0] in ELEMENTS + ("binding",) and x not in undone]
        if left: return ("left " + left[0][0], "a failed offer leaves the %s prepared" % left[0][0])
        if not [e for e in t if not e.res]: return ("no failure", "reports failure although no step failed")
    return None


def stop_rule(p, ne, nf, flag, offered):
    if p.out != "ret": return ("ending", "ends otherwise than by returning")
    t = [e for i, e in evs(p, "of")]
    if not offered:
        return ("not offered", "performs '%s' although the service is not offered" % t[0].what) if t else None
    w = [e.what for e in t]
    other = [x for x in w if x not in ("withdraw", "stop event", "stop field", "stop binding")]
    if other: return ("prepared", "prepares '%s' while ending the offer" % other[0])
    if w.count("withdraw") != 1: return ("withdraw", "the announcement is taken back %d times" % w.count("withdraw"))
    if w[0] != "withdraw": return ("order", "the service is still announced while '%s' happens" % w[0])
    for k, n in (("stop event", ne), ("stop field", nf)):
        os = [e.o for e in t if e.what == k]
        if len(os) != n or len(set(os)) != n: return (k, "not every %s is ended exactly once" % k[5:])
    if w.count("stop binding") != 1: return ("binding", "the binding is taken down %d times" % w.count("stop binding"))
    if w[-1] != "stop binding": return ("binding first", "the binding is taken down before the elements on it are ended")
    if p.I.read(p.st, flag) != FALSE: return ("flag", "the service still counts as offered afterwards")
    return None



LF = "score::memory::shared::LockFile"
FLK = "score::memory::shared::FlockMutex"


def mem_hooks(c, ms):
    def marker(I, st, e, op, vs):
        r = []
        for ok in (True, False):
            s = st.copy()
            p = I.tmp(s); s.m[F(p, "#has")] = C(ok)
            I.emit(s, "of", what="marker", o=p, res=ok)
            r.append((s, ("obj", p)))
        return r

    def own(I, st, e, op, vs):
        I.emit(st, "of", what="own", o=op, res=True); return [(st, VOID)]

    def reg(k):
        def h(I, st, e, op, vs):
            r = []
            for ok in (True, False):
                s = st.copy(); I.emit(s, "of", what=k, o=I.scal(s, vs[0]), res=ok)
                v = result(I, s, ok); s.m[F(F(v[1], "#val"), "#armed")] = TRUE; r.append((s, v))
            return r
        return h
    h = tables.hooks()
    for k, q in ms.items(): h[q] = step(k, k in ("CreateSharedMemory", "OpenExistingSharedMemory"))
    h[LF + "::CreateOrOpen"] = marker; h[LF + "::TakeOwnership"] = own
    for k in ("RegisterOnServiceMethodSubscribedHandler", "RegisterOnServiceMethodUnsubscribedHandler"): h[L + "IMessagePassingService::" + k] = reg(k)
    return h


def place_of(v):
    """the object named by the value of a reference argument"""
    if v[0] == "fld": return F(place_of(v[1]), v[2])
    if v[0] == "in": return v[1]
    if v[0] == "deref": return mkP(place_of(v[1])) if v[1][0] in ("fld", "in") else v
    return v


def flocks(p):
    """event index -> is the usage marker file exclusively locked by us; plus the file of each lock object"""
    file, held, out = {}, set(), []
    for e in p.tr:
        if e.k == "ctor" and e.f.endswith("FlockMutex") and e.a: file[e.p] = (e.f, place_of(e.a[0]))
        elif e.k == "lock": held.add(e.m)
        elif e.k == "unlock": held.discard(e.m)
        out.append({file[m] for m in held if m in file})
    return out


def lola(c):
    ms = {k: MM + "::" + k for k in ("RemoveStaleSharedMemoryArtefacts", "CreateSharedMemory", "OpenExistingSharedMemory", "CleanupSharedMemoryAfterCrash", "RemoveSharedMemory", "Reset")}
    for q in ms.values(): c.fns(q)
    meth = c.field(SK, r"map<.*SkeletonMethod")
    dep = c.field(SK, r"LolaServiceInstanceDeployment &$"); qf = c.field(SK, r"QualityType$")
    D = L[:-6] + "LolaServiceInstanceDeployment"
    for n in ("inter_vm_support_", "inter_vm_forwarded_"):
        if not [x for x in c.db.cls(D)[0]["fields"] if x["n"] == n]: raise CheckError("anchor vanished: %s of the deployment of an instance" % n)
    qe = enumval(c, NS + "QualityType"); B, Q = qe["kASIL_B"], qe["kASIL_QM"]
    dp = lambda I, st: mkP(I.read(st, F(THIS, dep)))
    lf = [x["n"] for x in c.db.cls(SK)[0]["fields"] if "optional<" in x["t"] and "LockFile" in x["t"]]
    seen, usage = set(), set()
    c.rule("R4", "previous shared memory is only discarded while the usage marker is exclusively locked, i.e. no consumer uses it; otherwise it is reopened and cleaned up; nothing happens without the marker")

    def prep(I, st):
        tables.fill(I, st, F(THIS, meth), nm, "method")
        tables.fill(I, st, F(dp(I, st), "allowed_consumer_"), 0, "consumer")
        st.m[F(THIS, qf)] = C(ql)
        for g in guards: st.m[F(F(THIS, g), "#has")] = FALSE
        st.m[F(F(THIS, prb), "#ptr")] = mkaddr(("X", "paths"))
    guards = [x["n"] for x in c.db.cls(SK)[0]["fields"] if "optional<" in x["t"] and ("Guard" in x["t"] or "ScopeExit" in x["t"])]
    prb = c.field(SK, r"unique_ptr<.*IPartialRestartPathBuilder")
    for f in c.fns(SK + "::PrepareOffer"):
        for nm, ql in ((0, Q), (0, B), (1, Q), (1, B)):
            for p in c.run(f, hooks=mem_hooks(c, ms), setup=prep, opaque=lambda s, g: "FlockMutex::" in s or "::LockFile::" in s):
                if p.out != "ret" and nm and not [e for i, e in evs(p, "of") if e.res is False]: continue   # no messaging, or a deployment of another binding: fatal by design
                I, st = p.I, p.st
                gw = all(I.truth(st, I.read(st, F(dp(I, st), n))) is True for n in ("inter_vm_support_", "inter_vm_forwarded_"))
                for n in lf:
                    if I.read(st, F(F(THIS, n), "#has")) == TRUE and [e for e in p.tr if e.k == "wr" and e.p == F(THIS, n)]: usage.add(n)
                bad = prepare_rule(p, gw, nm, ql, Q, B, seen)
                if bad: c.bad("R4", name(f), fwhere(f), bad, p)
                else: c.ok("R4", name(f))
    for k, t in ((("x", False), "reopens existing memory"), (("x", True), "recreates the memory")):
        if k not in seen: c.bad("R4", SK + "::PrepareOffer", "-", "never %s, whatever the usage of the memory" % t)
    if len(usage) != 1: raise CheckError("anchor vanished: the usage marker of a skeleton")
    U = F(THIS, usage.pop())
    c.rule("R5", "when an offer ends, method handlers are ended first; the memory and the usage marker are removed only while no consumer uses them, and memory owned by a gateway is kept")
    for f in c.fns(SK + "::PrepareStopOffer"):
        for nm in (0, 1):
            def setup(I, st):
                tables.fill(I, st, F(THIS, meth), nm, "method"); st.m[F(U, "#has")] = TRUE
            for p in c.run(f, hooks=mem_hooks(c, ms), setup=setup, opaque=lambda s, g: "FlockMutex::" in s or "::LockFile::" in s):
                I, st = p.I, p.st
                bad = stop_mem_rule(p, I.truth(st, I.read(st, F(dp(I, st), "inter_vm_forwarded_"))), U, nm)
                if bad: c.bad("R5", name(f), fwhere(f), bad, p)
                else: c.ok("R5", name(f))


def prepare_rule(p, gw, nm, qual, Q, B, seen):
    if p.out != "ret": return "ends the process"
    t = evs(p, "of"); ok = ret_ok(p); fl = flocks(p)
    if ok is None: return "the result does not say whether the memory is ready"
    mk = [e for i, e in t if e.what == "marker"]
    mem = [(i, e) for i, e in t if e.what in ("RemoveStaleSharedMemoryArtefacts", "CreateSharedMemory", "OpenExistingSharedMemory", "CleanupSharedMemoryAfterCrash", "RemoveSharedMemory")]
    if len(mk) != 1: return "the usage marker is opened %d times" % len(mk)
    if [i for i, e in mem if i < t[0][0]]: return "the memory is touched before the usage marker exists"
    if not mk[0].res: return ("touches the memory without usage marker" if mem else "succeeds without usage marker") if mem or ok else None
    usage = F(mk[0].o, "#val")
    places = {usage} | {F(e.p, "#val") for e in p.tr if e.k == "wr" and e.p is not None and e.v == ("in", mk[0].o)}
    held = lambda i: any(m.endswith("::ExclusiveFlockMutex") and x in places for m, x in fl[i])
    w = [e.what for i, e in mem]
    if gw:
        if w != ["OpenExistingSharedMemory"]: return "memory owned by a gateway is treated by " + (", ".join(w) or "nothing")
    else:
        if not w: return "no memory is prepared"
        h = held(mem[0][0])
        if any(held(i) != h for i, e in mem): return "the usage lock is given up while the memory is prepared"
        seen.add(("x", h))
        if h and w != ["RemoveStaleSharedMemoryArtefacts", "CreateSharedMemory"]: return "memory that no consumer uses is treated by " + ", ".join(w)
        if not h and w != ["OpenExistingSharedMemory"] + (["CleanupSharedMemoryAfterCrash"] if mem[0][1].res else []): return "memory that consumers may still use is treated by " + ", ".join(w)
    good = all(e.res for i, e in mem)
    reg = [(e.what, e.o, e.res) for i, e in t if e.what.startswith("RegisterOn")]
    if not good: return "reports success although the memory could not be prepared" if ok else ("registers handlers although the memory could not be prepared" if reg else None)
    if not ok: return None if [r for r in reg if not r[2]] else "reports failure although nothing failed"
    if nm:
        want = [Q] + ([B] if qual == B else [])
        for k in ("RegisterOnServiceMethodSubscribedHandler", "RegisterOnServiceMethodUnsubscribedHandler"):
            got = sorted(x[1][1] if x[1][0] == "c" else -1 for x in reg if x[0] == k and x[2])
            if got != sorted(want): return "reports success although the handlers for method subscriptions are registered for %s instead of %s" % (got, want)
    return None


def stop_mem_rule(p, forwarded, U, nm):
    if p.out != "ret": return "ends the process"
    t = evs(p, "of"); fl = flocks(p); file = F(U, "#val")
    held = lambda i: any(m.endswith("::ExclusiveFlockMutex") and x == file for m, x in fl[i])
    ever = any(held(i) for i in range(len(p.tr)))
    rm = [i for i, e in t if e.what == "RemoveSharedMemory"]
    own = [i for i, e in t if e.what == "own"]
    gone = [i for i, e in enumerate(p.tr) if e.k == "dtor" and e.p == file]
    other = [e.what for i, e in t if e.what in ("RemoveStaleSharedMemoryArtefacts", "CreateSharedMemory", "OpenExistingSharedMemory", "CleanupSharedMemoryAfterCrash")]
    if other: return "'%s' happens while the offer ends" % other[0]
    if [i for i in rm if not held(i)]: return "removes the memory although consumers may still use it"
    if [i for i in own if not held(i)]: return "takes ownership of the usage marker although consumers may still use it"
    if not ever and gone: return "gives up the usage marker although consumers may still use the memory"
    if forwarded is None and ever: return "it does not matter whether the memory belongs to a gateway"
    if ever:
        if forwarded and rm: return "removes memory that belongs to a gateway"
        if not forwarded and len(rm) != 1: return "memory that nobody uses any more is left behind"
        if len(own) != 1 or not gone or gone[-1] < own[0]: return "the usage marker is left behind although nobody uses the memory any more"
    exp = [i for i, e in enumerate(p.tr) if e.k == "call" and e.f.endswith("::Scope::Expire")]
    first = min(rm + own) if rm + own else len(p.tr)
    if len({p.tr[i].o for i in exp}) < 2: return "method calls can still arrive after the end of the offer: a handler scope is not ended"
    if max(exp) > first: return "the memory is removed while method calls can still arrive"
    return None


def lifetime(c):
    c.rule("R6", "destroying a skeleton, or assigning another one to it, ends the offer it holds")

    def hooks():
        h = tables.hooks()

        def stop(I, st, e, op, vs):
            I.emit(st, "of", what="stop", o=op, res=True); return [(st, VOID)]
        h[SB + "::StopOfferService"] = stop
        return h
    for sn in ("GenericSkeleton", "SkeletonWrapperClass"):
        cls = [cl for cl in c.db.C.values() if cl.get("q", cl["n"]) == NS + sn and cl.get("fields") is not None and not cl.get("dep")]
        if not cls: raise CheckError("anchor vanished: " + sn)
        for cl in cls:
            own = [x["n"] for x in cl["fields"] if x["t"].endswith("FlagOwner")]
            for kind, what in (("dtor", "destroyed"), ("moveassign", "assigned to")):
                ms = [m for m in cl["m"] if m.get("kind") == kind and not m.get("del")]
                if kind == "moveassign" and not ms and [m for m in cl["m"] if m.get("kind") == "moveassign"]: continue
                fs = [f for f in c.db.F.values() if f and f["u"] in {m["u"] for m in ms} and f.get("body") is not None] if ms else []
                if not fs:
                    c.bad("R6", cl["n"], "%s:%s" % (cl.get("file"), cl.get("l")), "an offered skeleton that is %s leaves its offer behind: nothing ends it" % what); continue
                for f in fs:
                    def setup(I, st):
                        for n in own: st.m[F(F(THIS, n), c.field(NS + "FlagOwner", r"^bool$"))] = TRUE
                    for p in c.run(f, hooks=hooks(), setup=setup):
                        bad = end_rule(p, kind, cl)
                        if bad: c.bad("R6", name(f), fwhere(f), bad, p)
                        else: c.ok("R6", name(f))


def end_rule(p, kind, cl):
    if p.out != "ret": return "ends the process"
    stops = [i for i, e in evs(p, "of")]
    if kind == "dtor": return None if stops else "an offered skeleton can be destroyed without ending its offer"
    over = [i for i, e in enumerate(p.tr) if e.k == "call" and e.f and e.f.endswith("::operator=") or e.k == "wr" and e.p is not None and root(e.p) == root(THIS)]
    if not over: return "ends the offer although nothing is assigned (self-assignment)" if stops else None
    if not stops: return "the offer of a skeleton that is assigned to is not ended"
    if stops[0] > over[0]: return "the offer is ended only after the skeleton was overwritten"
    return None
