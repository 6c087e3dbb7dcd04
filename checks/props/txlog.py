"""Transaction log: recording, rollback, sets of logs and the rollback of a restarted application."""
from core import *
from absint import St
from db import CheckError
LOLA = "score::mw::com::impl::lola::"
TXV = LOLA + "TransactionLogLocalView"
TXS = LOLA + "TransactionLogSet"
TXN = TXS + "::TransactionLogNode"
SLOT = LOLA + "TransactionLogSlot"
CONS = LOLA + "ConsumerEventDataControlLocalView"
ESC = LOLA + "EventSubscriptionControl"
TU = ["score/mw/com/impl/bindings/lola/transaction_log*.cpp", "score/mw/com/impl/bindings/lola/consumer_event_data_control_local_view.cpp", "score/mw/com/impl/bindings/lola/rollback_synchronization.cpp",
      "score/mw/com/impl/bindings/lola/subscription_*.cpp"]
STEPS = {"SubscribeTransactionBegin": (0, 0, 1, 0), "SubscribeTransactionCommit": (1, 0, 1, 1), "SubscribeTransactionAbort": (1, 0, 0, 0), "UnsubscribeTransactionBegin": (1, 1, 0, 1), "UnsubscribeTransactionCommit": (0, 1, 0, 0),
         "ReferenceTransactionBegin": (0, 0, 1, 0), "ReferenceTransactionCommit": (1, 0, 1, 1), "ReferenceTransactionAbort": (1, 0, 0, 0), "DereferenceTransactionBegin": (1, 1, 0, 1), "DereferenceTransactionCommit": (0, 1, 0, 0)}
THIS = ("A", "this")


def get(c, I, st, place, which):
    """value of the begin / end mark of a slot in a state"""
    s = st.copy(); I.steps = 0
    r = I.inline(c.fns(SLOT + "::GetTransaction" + which)[0], s, place, [], [])
    if len(r) != 1: raise CheckError("the %s mark of a slot is not a plain value" % which)
    return I.scal(r[0][0], r[0][1])


def bits(c, I, st, place):
    return tuple(get(c, I, st, place, w) for w in ("Begin", "End"))


def tv(I, st, bs):
    r = tuple(I.truth(st, b) for b in bs)
    return tuple(None if x is None else int(x) for x in r)


def kept(c, I, st, pl):
    for a, b in zip(bits(c, I, St(), pl), bits(c, I, st, pl)):
        if a != b and (I.truth(st, a) is None or I.truth(st, a) != I.truth(st, b)): return False
    return True


class View:
    """places the log view works on"""
    def __init__(self, c):
        self.c = c
        p = [q for f in c.fns(TXV + "::SubscribeTransactionBegin") for q in c.run(f) if q.out == "ret"][0]
        w = [e for i, e in evs(p, "wr", "init")]
        f = c.fns(SLOT + "::SetTransactionBegin")[0]
        q = [x for x in c.run(f)][0]
        fld = [e.p[2] for i, e in evs(q, "wr") if e.p[0] == "F" and e.p[1] == THIS]
        s = [e.p[1] for e in w if e.p[0] == "F" and e.p[2] in fld]
        if not s: raise CheckError("anchor vanished: subscription slot of the transaction log view")
        self.sub = s[0]
        self.cnt = [e.p for e in w if e.p != s[0] and not under(e.p, s[0]) and root(e.p)[0] != "L"]
        f = c.fns(TXV + "::DereferenceTransactionBegin")[0]
        e = [e for p in c.run(f) if p.out == "ret" for i, e in evs(p, "wr") if e.p[0] == "F" and e.p[2] in fld]
        if not e or e[0].p[1][0] != "E": raise CheckError("anchor vanished: reference slots of the transaction log view")
        self.arr = e[0].p[1]
        x = [e for p in c.run(f) if p.out == "ret" for i, e in evs(p, "index")]
        if not x or x[0].size is None: raise CheckError("anchor vanished: number of reference slots")
        self.size = x[0].size

    def slot(self, ix):
        return self.arr[:2] + (ix,) + self.arr[3:]


def nslots(V, I, st):
    n = 0
    while I.truth(st, I.binop(st, "<", K(n), V.size, "unsigned long")) is True: n += 1
    return n, I.truth(st, I.binop(st, "<", K(n), V.size, "unsigned long")) is False


LOGQ = lambda sq, g=None: "LogStream" in sq or "CreateLoggingString" in sq


@prop("P05", TU, ["util"])
def p05(c):
    c.rule("R1", "begin and end marks of a log slot are independent and read back what was stored; a new slot has neither")
    c.rule("R2", "each logging step is only accepted in the state the preceding step left, changes exactly its own mark of exactly the addressed slot, and never leaves the slot array")
    c.rule("R3", "the subscription step records the number of samples asked for")
    c.rule("R4", "rollback undoes each completed reference exactly once, recorded as it does so, and refuses half-done ones")
    c.rule("R5", "rollback withdraws a completed subscription exactly once with the recorded sample count, after all references; a half-done subscription is refused")
    c.rule("R6", "a log reports open transactions exactly if any mark is set")
    c.rule("R7", "subscribing and unsubscribing at the provider happens only inside the matching logged step, which is completed or withdrawn according to the outcome")
    c.rule("R8", "the view works on the marks of the log it was created for")
    # marks
    ctor = [f for f in c.fns(SLOT + "::TransactionLogSlot") if not f["p"]]
    for f in ctor:
        for p in c.run(f):
            b = tv(p.I, p.st, bits(c, p.I, p.st, THIS))
            c.check("R1", b == (0, 0), name(f), fwhere(f), "a new slot has marks %s" % (b,), p, inst="new slot")
    for w in ("Begin", "End"):
        for f in c.fns(SLOT + "::SetTransaction" + w):
            a = inp(f["p"][0]["n"])
            for p in c.run(f):
                old = bits(c, p.I, St(), THIS); new = bits(c, p.I, p.st, THIS)
                me, other = (0, 1) if w == "Begin" else (1, 0)
                s = p.st
                ok = True
                for s2, b in p.I.branch(s.copy(), a):
                    v = tv(p.I, s2, bits(c, p.I, s2, THIS))
                    ok = ok and v[me] == int(b)
                c.check("R1", ok and new[other] == old[other], name(f), fwhere(f), "%s mark reads %s, the other one %s" % (w, show(new[me]), show(new[other])), p, inst="set %s mark" % w)
    V = View(c)
    # steps
    for m, (b0, e0, b1, e1) in STEPS.items():
        for f in c.fns(TXV + "::" + m):
            n = 0
            for p in c.run(f, opaque=LOGQ):
                if p.out == "abort": continue
                if p.out != "ret":
                    c.bad("R2", name(f), fwhere(f), "leaves by " + p.out, p); continue
                I, st = p.I, p.st
                ix = inp(f["p"][0]["n"]) if "eference" in m else None
                pl = V.slot(ix) if ix else V.sub
                pre, post = tv(I, st, bits(c, I, St(), pl)), tv(I, st, bits(c, I, st, pl))
                n += 1
                c.check("R2", pre == (b0, e0), name(f), fwhere(f), "accepted although the marks before it may be %s instead of %s" % (pre, (b0, e0)), p, inst=m + " precondition")
                c.check("R2", post == (b1, e1), name(f), fwhere(f), "leaves the marks %s instead of %s" % (post, (b1, e1)), p, inst=m + " effect")
                out = [e for i, e in evs(p, "wr", "astore", "rmw") if root(e.p)[0] != "L" and not under(e.p, pl) and not any(under(e.p, q) for q in V.cnt)]
                c.check("R2", not out, name(f), out[0].where() if out else fwhere(f), "touches %s" % (show(mkaddr(out[0].p)) if out else ""), p, inst=m + " touches nothing else")
                if ix:
                    c.check("R2", I.truth(st, I.binop(st, "<", ix, V.size, "unsigned long")) is True, name(f), fwhere(f), "the slot index may lie outside the log", p, inst=m + " index")
                if m == "SubscribeTransactionBegin":
                    a = inp(f["p"][0]["n"])
                    cn = [q for q in V.cnt]
                    v = {I.read(st, ("F", q, "#val")) for q in cn} | {I.read(st, q) for q in cn}
                    h = any(x == a or x[0] in ("trunc", "cast") and x[-1] == a for x in v)
                    c.check("R3", h, name(f), fwhere(f), "recorded sample count: %s" % [show(x) for x in v], p, inst="count recorded")
                else:
                    w = [e for i, e in evs(p, "wr") if any(under(e.p, q) for q in V.cnt)]
                    c.check("R3", not w or m == "UnsubscribeTransactionCommit", name(f), fwhere(f), "changes the recorded sample count", p, inst=m + " keeps the count")
            if not n: c.bad("R2", name(f), fwhere(f), "never succeeds")
    if not V.cnt: c.bad("R3", TXV + "::SubscribeTransactionBegin", fwhere(c.fns(TXV + "::SubscribeTransactionBegin")[0]), "the sample count is not recorded")
    # rollback
    err = enum(c, "::ComErrc", "kCouldNotRestartProxy")
    for m in ("RollbackProxyElementLog", "RollbackSkeletonTracingElementLog"):
        for f in c.fns(TXV + "::" + m):
            proxy = m == "RollbackProxyElementLog"
            cbs = [("A", q["n"]) for q in f["p"]]
            tot = 0
            for p in c.run(f, opaque=LOGQ, snap=lambda k, sq: k == "invoke"):
                I, st = p.I, p.st
                if p.out == "abort" and "widened" not in st.flags:
                    b0 = tv(I, st, bits(c, I, St(), V.sub))
                    nocount = b0 == (1, 1) and any(I.truth(st, I.read(St(), ("F", q, "#has"))) is False for q in V.cnt)
                    c.check("R4", proxy and (b0 == (0, 0) or nocount), name(f), fwhere(f), "ends the process instead of reporting the half-done transaction", p, inst=m + " half-done is reported")
                if p.out != "ret" or "widened" in st.flags: continue
                n, exact = nslots(V, I, st)
                tot += 1
                inv = [e for i, e in evs(p, "invoke")]
                ok, sub = hasval(p), None
                good = True
                for e in inv:
                    which = 0 if e.p == cbs[0] or e.fnv == ("in", cbs[0]) else 1
                    if which == 0:
                        k = e.a[0]
                        pl = V.slot(k)
                        b0 = tv(I, st, bits(c, I, St(), pl)); now = tv(I, e.st, bits(c, I, e.st, pl))
                        good &= c.check("R4", b0 == (1, 1), name(f), e.where(), "takes back a reference on slot %s whose marks were %s" % (show(k), b0), p, inst=m + " completed reference undone")
                        good &= c.check("R4", now == (0, 1), name(f), e.where(), "while the reference on slot %s is taken back its marks are %s: a crash there is not noticed" % (show(k), now), p, inst=m + " undoing is recorded")
                        if sub is not None: c.bad("R5", name(f), e.where(), "a reference is taken back after the subscription was withdrawn", p)
                    else:
                        sub = e
                        b0 = tv(I, st, bits(c, I, St(), V.sub)); now = tv(I, e.st, bits(c, I, e.st, V.sub))
                        c.check("R5", b0 == (1, 1) and now == (0, 1), name(f), e.where(), "withdraws a subscription whose marks were %s, marks at that time %s" % (b0, now), p, inst="subscription withdrawn, recorded")
                        a = e.a[0]
                        src = [I.read(St(), ("F", q, "#val")) for q in V.cnt]
                        c.check("R5", a in src, name(f), e.where(), "withdraws %s samples, recorded were %s" % (show(a), [show(x) for x in src]), p, inst="recorded count")
                done = [e.a[0] for e in inv if e is not sub]
                half = False
                for k in range(n):
                    b0, b1 = tv(I, st, bits(c, I, St(), V.slot(K(k)))), tv(I, st, bits(c, I, st, V.slot(K(k))))
                    cnt = done.count(K(k))
                    if b0 == (1, 1):
                        if ok: c.check("R4", cnt == 1 and b1 == (0, 0), name(f), fwhere(f), "slot %d was referenced; it is taken back %d times and left with marks %s" % (k, cnt, b1), p, inst=m + " every reference undone")
                        else: c.check("R4", cnt <= 1, name(f), fwhere(f), "slot %d is taken back twice" % k, p)
                    elif b0 == (0, 0):
                        c.check("R4", b1 == (0, 0), name(f), fwhere(f), "an unused slot gets marks %s" % (b1,), p, inst=m + " unused slot left alone")
                    elif None not in b0:
                        half = True
                        c.check("R4", not ok and b1 == b0, name(f), fwhere(f), "a half-done reference (marks %s) is accepted" % (b0,), p, inst=m + " half-done reference refused")
                    elif ok:
                        c.bad("R4", name(f), fwhere(f), "succeeds without looking at slot %d" % k, p)
                if ok and not exact: c.bad("R4", name(f), fwhere(f), "succeeds without looking at all slots", p)
                b0, b1 = tv(I, st, bits(c, I, St(), V.sub)), tv(I, st, bits(c, I, st, V.sub))
                if proxy and ok:
                    c.check("R5", b1 == (0, 0) and (b0 == (1, 1)) == (sub is not None) and b0 in ((0, 0), (1, 1)), name(f), fwhere(f), "succeeds with subscription marks %s -> %s, withdrawn: %s" % (b0, b1, sub is not None), p, inst="subscription settled")
                if not ok:
                    c.check("R5", sub is None and kept(c, I, st, V.sub), name(f), fwhere(f), "the subscription is changed although rollback fails", p, inst=m + " failure keeps the subscription")
                    c.check("R4", half or proxy and None not in b0 and b0[0] != b0[1], name(f), fwhere(f), "fails although nothing is half-done", p, inst=m + " fails only on half-done")
                    c.check("R4", errcode(p) == err, name(f), fwhere(f), "error code %s" % errcode(p), p, inst=m + " error")
                elif proxy is False:
                    c.check("R5", kept(c, I, st, V.sub), name(f), fwhere(f), "touches the subscription", p, inst=m + " leaves the subscription alone")
            if not tot: raise CheckError("no path through " + m)
    for f in c.fns(TXV + "::ContainsTransactions"):
        for p in c.run(f):
            if "widened" in p.st.flags or p.out != "ret": continue
            I, st = p.I, p.st
            n, exact = nslots(V, I, st)
            r = I.truth(st, I.scal(st, p.ret))
            bs = [tv(I, st, bits(c, I, St(), q)) for q in [V.sub] + [V.slot(K(k)) for k in range(n)]]
            some = any(1 in b for b in bs)
            if r is None: c.bad("R6", name(f), fwhere(f), "answer %s" % show(p.ret), p)
            elif r: c.check("R6", some, name(f), fwhere(f), "reports transactions although the marks are %s" % bs, p, inst="reported only if present")
            else: c.check("R6", exact and all(b == (0, 0) for b in bs), name(f), fwhere(f), "reports no transactions although the marks are %s" % bs, p, inst="all marks looked at")
    # view on the log
    for f in c.fns(TXV + "::TransactionLogLocalView"):
        if len(f["p"]) != 1 or "TransactionLogLocalView" in f["p"][0]["t"]: continue
        lg = ("A", f["p"][0]["n"])
        for p in c.run(f):
            for m, a in (("SubscribeTransactionBegin", 0), ("DereferenceTransactionBegin", 0)):
                g = c.fns(TXV + "::" + m)[0]
                for q in p.I.cont(p.st.copy(), g):
                    if q.out != "ret": continue
                    w = [e for i, e in evs(q, "wr") if root(e.p)[0] != "L" and not under(e.p, THIS)]
                    rt = [e for e in w if owner(e.p) != lg]
                    c.check("R8", w and not rt, name(f), fwhere(f), "the view changes %s" % [show(mkaddr(e.p)) for e in rt], q, inst=m)
    users(c)


def owner(p):
    """root object of a place, through pointers stored in it"""
    while True:
        r = root(p)
        if r[0] != "P": return r
        t = r[1]
        while t and t[0] in ("fld", "it", "op", "adr", "addr", "ld"): t = t[1] if t[0] != "op" else t[2]
        if t[0] == "in": return root(t[1])
        if t[0] in ("A", "F", "E", "L"): return root(t)
        return r


def users(c):
    OPQ = lambda sq, g=None: any(sq.startswith(LOLA + x + "::") for x in ("TransactionLogLocalView", "TransactionLogSet", "EventSubscriptionControl", "EventReceiveHandlerManager", "TransactionLogRegistrationGuard", "SlotCollector")) or LOGQ(sq)
    succ = enum(c, "::SubscribeResult", "kSuccess")
    n = 0
    for m in ("SubscribeEvent", "OnEntry"):
        for f in c.fns(LOLA + "NotSubscribedState::" + m):
            for p in c.run(f, opaque=OPQ):
                if p.out != "ret": continue
                I, st = p.I, p.st
                seq = []
                for i, e in enumerate(p.tr):
                    if e.k == "call" and (e.f.startswith(TXV + "::") or e.f.startswith(ESC + "::")): seq.append((e.f.rsplit("::", 1)[-1], e))
                names = [x[0] for x in seq]
                if not names: continue
                n += 1
                o = {x[1].o for x in seq if x[1].f.startswith(TXV)}
                if m == "SubscribeEvent":
                    r = [x[1].res for x in seq if x[0] == "Subscribe"]
                    ok = len(r) == 1 and I.truth(st, I.binop(st, "==", r[0], K(succ)))
                    want = ["SubscribeTransactionBegin", "Subscribe", "SubscribeTransactionCommit" if ok else "SubscribeTransactionAbort"]
                    c.check("R7", names == want and len(o) == 1 and ok is not None, name(f), fwhere(f), "steps are %s although subscribing %s" % (names, "succeeded" if ok else "failed"), p, inst="subscribe " + ("accepted" if ok else "refused"))
                    a = {x[1].a[0] if x[1].a[0][0] != "trunc" else x[1].a[0][-1] for x in seq if x[1].a}
                    c.check("R7", len(a) == 1, name(f), fwhere(f), "different sample counts are logged and subscribed: %s" % [show(x) for x in a], p, inst="same count logged and subscribed")
                else:
                    c.check("R7", names == ["UnsubscribeTransactionBegin", "Unsubscribe", "UnsubscribeTransactionCommit"] and len(o) == 1, name(f), fwhere(f), "steps are %s" % names, p, inst="unsubscribe")
    if not n: raise CheckError("anchor vanished: no subscription step found")


# ---------------------------------------------------------------- sets of logs
EXE = LOLA + "TransactionLogRollbackExecutor"
GUARD = LOLA + "TransactionLogRegistrationGuard"


def suffix(p, top):
    out = []
    while p != top:
        if p[0] != "F": return None
        out.append(p[2]); p = p[1]
    return tuple(out)


def strip(p, suf):
    for n in suf:
        if p is None or p[0] != "F" or p[2] != n: return None
        p = p[1]
    return p


def opq6(sq, g=None):
    return sq != TXV + "::TransactionLogLocalView" and any(sq.startswith(LOLA + x + "::") for x in ("TransactionLogLocalView", "EventSubscriptionControl", "ConsumerEventDataControlLocalView", "TransactionLogRegistrationGuard")) or LOGQ(sq)


@prop("P06", TU, ["util"])
def p06(c):
    c.rule("R1", "a log is acquired by one atomic swap from free to the acquirer's id, and freed only when it holds no open transaction, as the last access to it")
    c.rule("R2", "a registration hands out exactly the log it acquired, unmarked for rollback and without open transactions; without a free log it reports that the maximum of subscribers is exceeded")
    c.rule("R3", "exactly the active logs of the given application are marked for rollback")
    c.rule("R4", "only marked logs of the given application are rolled back; a log is freed exactly if its rollback succeeded; a failure is not reported as success")
    c.rule("R5", "a log is looked up and unregistered by exactly its own index, within the set, and only while acquired")
    c.rule("R6", "a registration connects the consumer's view with the registered log and undoes both once when it ends")
    c.rule("R7", "after a restart the application's previous process is announced as outdated and its logs are marked, once per service instance and before any rollback, under that instance's lock")
    c.rule("R8", "rollback takes back references and subscriptions on the control data of the very event whose log is rolled back, and a failure is reported")
    c.rule("R9", "all proxies of one service instance get the same lock, and only the first is told that it did not exist")
    ID = NEED = None
    for f in c.fns(TXN + "::TryAcquire"):
        a = inp(f["p"][0]["n"])
        for p in c.run(f):
            if p.out != "ret": continue
            at = [e for i, e in evs(p, "cas", "astore", "rmw")]
            ok = len(at) == 1 and at[0].k == "cas" and at[0].des == a and isc(at[0].exp)
            c.check("R1", ok, name(f), fwhere(f), "acquires by %s" % [e.k for e in at], p, inst="acquire by one swap")
            if not ok: continue
            ID, FREE = suffix(at[0].p, THIS), at[0].exp
            c.check("R1", p.I.truth(p.st, p.I.scal(p.st, p.ret)) is (at[0].ok in (True, TRUE)), name(f), fwhere(f), "reports %s although the swap came out %s" % (show(p.ret), at[0].ok), p, inst="acquire reports the outcome")
            c.check("R1", p.I.truth(p.st, p.I.binop(p.st, "==", a, FREE)) is False, name(f), fwhere(f), "the id of a free log can be acquired", p, inst="acquirer is not the free id")
    if ID is None: raise CheckError("anchor vanished: acquisition of a transaction log")
    for f in c.fns(TXN + "::IsActive"):
        for p in c.run(f):
            ld = [e for i, e in evs(p, "aload") if suffix(e.p, THIS) == ID]
            r = p.I.scal(p.st, p.ret)
            for s, b in p.I.branch(p.st, r):
                c.check("R1", ld and p.I.truth(s, p.I.binop(s, "==", ld[-1].v, FREE)) is (not b), name(f), fwhere(f), "active reported as %s" % b, p, inst="active iff acquired")
    for f in c.fns(TXN + "::MarkNeedsRollback"):
        a = inp(f["p"][0]["n"])
        for p in c.run(f):
            w = [e for i, e in evs(p, "astore", "wr") if suffix(e.p, THIS)]
            c.check("R3", len(w) == 1 and w[0].v == a, name(f), fwhere(f), "stores %s" % [show(e.v) for e in w], p)
            if w: NEED = suffix(w[0].p, THIS)
    for f in c.fns(TXN + "::NeedsRollback"):
        for p in c.run(f):
            ld = [e for i, e in evs(p, "aload") if suffix(e.p, THIS) == NEED]
            c.check("R3", len(ld) == 1 and p.I.scal(p.st, p.ret) == ld[0].v, name(f), fwhere(f), "returns %s" % show(p.ret), p)
    if NEED is None: raise CheckError("anchor vanished: rollback mark")
    node = lambda e, s: strip(e.p, s) if e.p is not None else None
    CT = lambda p, v: p.I.truth(p.st, v)

    def freed(p, f, i, e, nd):
        """rule R1 for a store that frees a log"""
        tr = p.tr
        tx = [x for x in tr[:i] if x.k == "call" and x.f == TXV + "::ContainsTransactions"]
        views = {x.p: x.a[0] for x in tr[:i] if x.k == "ctor" and x.t.endswith("TransactionLogLocalView") and x.a}
        mine = [x for x in tx if p.I.truth(p.st, x.res) is False and viewnode(tr, x) == nd]
        c.check("R1", mine, name(f), e.where(), "frees a log without having seen that it holds no transaction", p, inst=name(f) + " freed only when empty")
        late = [x for x in tr[i + 1:] if x.p is not None and under(x.p, nd) and x.k in ("astore", "cas", "rmw", "wr", "aload")]
        c.check("R1", not late, name(f), e.where(), "touches a log after freeing it", p, inst=name(f) + " freeing comes last")
        fl = [x for x in tr[:i] if x.k in ("astore", "wr") and node(x, NEED) == nd]
        c.check("R1", fl and p.I.truth(p.st, fl[-1].v) is False, name(f), e.where(), "frees a log that is still marked for rollback", p, inst=name(f) + " mark removed")

    def viewnode(tr, call):
        """node whose log the view, the object of a call, was made for"""
        return topnode(viewtarget(c, call))

    def idfacts(p, nd, a, upto):
        """known about the id of a node: (equals the given id, active)"""
        e_, act = None, None
        for x in p.tr[:upto]:
            if x.k == "aload" and node(x, ID) == nd:
                t = p.I.truth(p.st, p.I.binop(p.st, "==", x.v, a))
                if t is not None: e_ = t
                t = p.I.truth(p.st, p.I.binop(p.st, "==", x.v, FREE))
                if t is not None: act = not t
                if e_ is True and p.I.truth(p.st, p.I.binop(p.st, "==", a, FREE)) is False: act = True
            if x.k == "cas" and node(x, ID) == nd and x.ok in (True, TRUE): act = True
        return e_, act

    def nodes(p):
        out = []
        for x in p.tr:
            for s in (ID, NEED):
                n = node(x, s)
                if n is not None and n not in out: out.append(n)
        return out
    # freeing, everywhere in the set
    for m in ("RollbackProxyTransactions", "RollbackSkeletonTracingTransactions", "RegisterProxyElement", "RegisterSkeletonTransactionLog", "Unregister", "MarkTransactionLogsNeedRollback", "GetTransactionLog"):
        for f in c.fns(TXS + "::" + m):
            tot = 0
            for p in c.run(f, opaque=opq6, maxpaths=60000, snap=lambda k, sq: k == 'call' and sq.startswith(TXV)):
                if "widened" in p.st.flags or p.out == "abort": continue
                if p.out != "ret":
                    c.bad("R1", name(f), fwhere(f), "leaves by " + p.out, p); continue
                tot += 1
                I, st = p.I, p.st
                A = [inp(x["n"]) for x in f["p"]]
                fr = [(i, e, node(e, ID)) for i, e in evs(p, "astore", "cas", "rmw") if node(e, ID) is not None and (e.k != "cas" or e.des == FREE)]
                for i, e, nd in fr:
                    if e.k == "astore" and e.v == FREE or e.k == "cas" and e.des == FREE: freed(p, f, i, e, nd)
                    else: c.bad("R1", name(f), e.where(), "changes the id of a log to %s" % show(e.v if e.k == "astore" else e.d.get("des")), p)
                got = [(i, e, node(e, ID)) for i, e in evs(p, "cas") if e.des != FREE and node(e, ID) is not None and e.ok in (True, TRUE)]
                marks = [(i, e, node(e, NEED)) for i, e in evs(p, "astore", "wr") if node(e, NEED) is not None]
                rb = [(i, e) for i, e in evs(p, "call") if e.f.startswith(TXV + "::Rollback")]
                skel = lambda nd: nd is not None and nd[0] == "F" and nd[1] == THIS
                if m != "MarkTransactionLogsNeedRollback":
                    c.check("R3", all(I.truth(st, e.v) is False for i, e, nd in marks), name(f), fwhere(f), "marks a log for rollback", p, inst=m + " marks nothing")
                if m == "MarkTransactionLogsNeedRollback":
                    c.check("R1", not fr and not got, name(f), fwhere(f), "acquires or frees a log", p, inst=m)
                    for nd in nodes(p):
                        mk = [(i, e) for i, e, n in marks if n == nd]
                        same_, act = idfacts(p, nd, A[0], len(p.tr))
                        if mk: c.check("R3", same_ is True and act is True and I.truth(st, mk[-1][1].v) is True, name(f), mk[0][1].where(), "marks a log although it is active: %s and has the id: %s" % (act, same_), p, inst="marked: active and matching")
                        else: c.check("R3", same_ is False or act is False, name(f), fwhere(f), "an active log of the application may stay unmarked", p, inst="unmarked: other or free")
                    nend = [k for k, v in st.f.items()]
                elif m.startswith("Rollback"):
                    okall = []
                    for i, e in rb:
                        nd = viewnode(p.tr, e)
                        h = I.truth(st, ("fld", e.res, "#has")) if e.res is not None else None
                        okall.append((nd, h))
                        if m == "RollbackProxyTransactions":
                            same_, act = idfacts(p, nd, A[0], i)
                            need = [I.truth(st, x.v) for x in p.tr[:i] if x.k == "aload" and node(x, NEED) == nd]
                            c.check("R4", nd is not None and not skel(nd) and same_ is True and act is True and need and need[-1] is True, name(f), e.where(), "rolls back a log: of the application %s, active %s, marked %s" % (same_, act, need), p, inst="only marked logs of the application")
                            c.check("R4", e.f.endswith("RollbackProxyElementLog"), name(f), e.where(), "rolls back by " + e.f, p, inst="with its subscription")
                        else:
                            c.check("R4", skel(nd) and idfacts(p, nd, FREE, i)[1] is True, name(f), e.where(), "rolls back a log that is not the active tracing log", p, inst="active tracing log")
                        n = [x for x in fr if x[2] == nd and x[0] > i]
                        c.check("R4", h is not None and bool(n) == h, name(f), e.where(), "rollback %s, log %s" % ({True: "succeeded", False: "failed", None: "unchecked"}[h], "freed" if n else "kept"), p, inst=m + " freed iff rolled back")
                    c.check("R4", all(any(x[0] == nd for x in okall) for i, e, nd in fr), name(f), fwhere(f), "frees a log without rolling it back", p, inst=m + " only rolled-back logs freed")
                    hs = [h for nd, h in okall]
                    h = hasval(p)
                    if hs and not any(hs): c.check("R4", h is False, name(f), fwhere(f), "a failed rollback is reported as success", p, inst=m + " failure reported")
                    elif all(hs): c.check("R4", h is True, name(f), fwhere(f), "fails although nothing failed", p, inst=m + " success reported")
                    if m == "RollbackProxyTransactions" and not hs:
                        for nd in nodes(p):
                            same_, act = idfacts(p, nd, A[0], len(p.tr))
                            need = [I.truth(st, x.v) for x in p.tr if x.k == "aload" and node(x, NEED) == nd]
                            c.check("R4", same_ is False or need and need[-1] is False, name(f), fwhere(f), "leaves a marked log of the application alone and reports success", p, inst="no marked log is overlooked")
                elif m.startswith("Register"):
                    g = [(i, e) for i, e in evs(p, "ctor") if e.t.endswith("TransactionLogRegistrationGuard") and e.kind != "movector" and len(e.a or ()) == 3]
                    if m == "RegisterProxyElement" and hasval(p) is not True:
                        c.check("R2", not got and not g and hasval(p) is False and errcode(p) == enum(c, "::ComErrc", "kMaxSubscribersExceeded"), name(f), fwhere(f), "fails with error %s; acquired %d logs" % (errcode(p), len(got)), p, inst="no free log")
                        continue
                    ok = len(got) == 1 and len(g) == 1
                    if not c.check("R2", ok, name(f), fwhere(f), "acquires %d logs, creates %d registrations" % (len(got), len(g)), p, inst=m + " one log, one registration"): continue
                    nd = got[0][2]
                    ix = g[0][1].a[1]
                    if m == "RegisterProxyElement":
                        want = idx_of(nd) if nd[0] in ("E", "P") else None
                        c.check("R2", got[0][1].des == A[0] and want is not None and ix == want and not skel(nd), name(f), g[0][1].where(), "acquires log %s, registers index %s" % (show(mkaddr(nd)), show(ix)), p, inst="index of the acquired log")
                        mk = [e for i, e, n in marks if n == nd]
                        tx = [e for i, e in evs(p, "call") if e.f == TXV + "::ContainsTransactions" and viewnode(p.tr, e) == nd]
                        c.check("R2", tx and I.truth(st, tx[-1].res) is False, name(f), fwhere(f), "the log may still hold transactions", p, inst="acquired log is empty")
                        c.check("R2", mk and I.truth(st, mk[-1].v) is False, name(f), fwhere(f), "the acquired log may still be marked for rollback", p, inst="acquired log is unmarked")
                    else:
                        c.check("R2", skel(nd) and isc(ix) and ix[1] == SENT(c), name(f), g[0][1].where(), "registers index %s for log %s" % (show(ix), show(mkaddr(nd))), p, inst="tracing log")
                    c.check("R6", p.I.place(st, ("ref", mkP(g[0][1].a[0]))) in (THIS, mkP(("in", THIS))) or g[0][1].a[0] in (("addr", THIS), THIS) or mkP(g[0][1].a[0]) == THIS, name(f), g[0][1].where(), "registration made with another set: %s" % show(g[0][1].a[0]), p, inst=m + " registration knows this set")
                else:
                    # Unregister / GetTransactionLog
                    if m == "Unregister":
                        nds = [nd for i, e, nd in fr]
                    else:
                        pl = p.ret[1] if p.ret and p.ret[0] == "ref" else None
                        nds = [pl[1]] if pl is not None and pl[0] == "F" else []
                        if nds:
                            c.check("R5", idfacts(p, nds[0], FREE, len(p.tr))[1] is True, name(f), fwhere(f), "hands out a log that may not be acquired", p, inst="only acquired logs are handed out")
                    s = I.truth(st, I.binop(st, "==", A[0], K(SENT(c))))
                    if not c.check("R5", len(nds) == 1 and s is not None, name(f), fwhere(f), "addresses %d logs" % len(nds), p, inst=m + " one log"): continue
                    nd = nds[0]
                    if s: c.check("R5", skel(nd), name(f), fwhere(f), "the tracing index addresses %s" % show(mkaddr(nd)), p, inst=m + " tracing index")
                    else:
                        ix = idx_of(nd) if nd[0] in ("E", "P") else None
                        inb = [e for i, e in evs(p, "index") if e.i == A[0]]
                        c.check("R5", ix == A[0] and inb and all(e.checked or I.truth(st, I.binop(st, "<", e.i, e.size, "unsigned long")) is True for e in inb), name(f), fwhere(f), "index %s addresses log %s" % (show(A[0]), show(ix) if ix else "?"), p, inst=m + " index within the set")
            if not tot: raise CheckError("no path through " + m)
    guard(c)
    executor(c)
    sync(c)


SENTV = {}


def SENT(c):
    """index used for the tracing log: what its registration passes on"""
    if c not in SENTV:
        for f in c.fns(TXS + "::RegisterSkeletonTransactionLog"):
            for p in c.run(f, opaque=opq6):
                for i, e in evs(p, "ctor"):
                    if e.t.endswith("TransactionLogRegistrationGuard") and len(e.a or ()) == 3 and isc(e.a[1]): SENTV[c] = e.a[1][1]
    if c not in SENTV: raise CheckError("anchor vanished: index of the tracing log")
    return SENTV[c]


def guard(c):
    import raii
    OP = lambda sq, g=None: any(sq.startswith(LOLA + x + "::") for x in ("TransactionLogSet", "ConsumerEventDataControlLocalView"))
    S = raii.Scen(c, c.db.cls(GUARD)[0], opaque=OP, snap=lambda k, sq: sq.endswith("::SetTransactionLogLocalView"))
    X, SET, VIEW = ("A", "first"), ("A", "set"), ("A", "view")
    IX = inp("ix")
    n = 0
    for f in c.fns(GUARD + "::TransactionLogRegistrationGuard"):
        if len(f["p"]) != 3: continue
        sts = [s for s, v in S.call(S.start(), f, X, [("ref", SET), IX, ("ref", VIEW)])]
        for s0 in sts:
            class P: pass
            p = P(); p.tr, p.out, p.ret = s0.tr, "ret", None
            ev = [(e.f.rsplit("::", 1)[-1], e) for e in s0.tr if e.k == "call"]
            g = [e for m, e in ev if m == "GetTransactionLog"]; w = [e for m, e in ev if m == "SetTransactionLogLocalView"]
            ok = len(g) == 1 and len(w) == 1 and g[0].o == SET and g[0].a[0] == IX and w[0].o == VIEW and len(ev) == 2
            c.check("R6", ok, name(f), fwhere(f), "calls %s" % [m for m, e in ev], p, inst="view connected with the registered log")
            if ok:
                ap = (w[0].d.get("ap") or [None])[0]
                src = [v for k2, v in w[0].st.m.items() if k2[0] == "F" and ap is not None and under(k2, ap) and isinstance(v, tuple)] + [w[0].a[0]]
                c.check("R6", any(str(g[0].res) in str(x) for x in src), name(f), fwhere(f), "the view gets %s instead of the registered log" % [show(x) for x in src][:2], p, inst="registered log handed to the view")
            k = len(s0.tr)
            for s in S.dtor([s0], X):
                n += 1
                p = P(); p.tr, p.out, p.ret = s.tr, "ret", None
                ev = [(e.f.rsplit("::", 1)[-1], e) for e in s.tr[k:] if e.k == "call"]
                off = [t for t, v in s.f.items() if v and t not in s0.f and "G" in str(t)[:60]]
                if not ev and off: continue      # the test-only switch
                ok = [m for m, e in ev] == ["Unregister", "ClearTransactionLogLocalView"] or [m for m, e in ev] == ["ClearTransactionLogLocalView", "Unregister"]
                ok = ok and all(e.o == (SET if m == "Unregister" else VIEW) and (m != "Unregister" or e.a[0] == IX) for m, e in ev)
                c.check("R6", ok, name(f), fwhere(f), "ending a registration calls %s" % [(m, show(e.o) if e.o else "") for m, e in ev], p, inst="registration undone once")
    if not n: raise CheckError("anchor vanished: registration of a transaction log")
    for f in c.fns(TXS + "::TransactionLogSet"):
        if len(f["p"]) != 3: continue
        a = inp(f["p"][0]["n"])
        for p in c.run(f, opaque=opq6):
            if p.out != "ret": continue
            c.check("R5", p.I.truth(p.st, p.I.binop(p.st, "==", a, K(SENT(c)))) is False, name(f), fwhere(f), "the set may have a log with the tracing index", p, inst="tracing index reserved")


def executor(c):
    OP = lambda sq, g=None: any(sq.startswith(LOLA + x + "::") for x in ("TransactionLogSet", "EventSubscriptionControl", "RollbackSynchronization", "ApplicationIdPidMapping")) or LOGQ(sq) or sq.startswith(CONS + "::") and not sq.endswith("LocalView::ConsumerEventDataControlLocalView")
    CB = []

    def roll(I, st, e, op, vs):
        k = ("r", "rollback", I.tmpn) if hasattr(I, "tmpn") else None
        out = []
        I.emit(st, "rollback", o=op, a=[I.argval(st, v) for v in vs])
        cur = [st]
        for v, nm in ((vs[1], "slot"), (vs[2], "count")):
            nxt = []
            for s in cur:
                r = I.invoke(s, v, [inp(nm)], [])
                nxt += [x for x, _ in r]
            cur = nxt
        for s in cur:
            I.emit(s, "rolledback", o=op)
        return [(s, None) for s in cur]
    hk = {TXS + "::RollbackProxyTransactions": wraphook(roll)}
    tot = done = 0
    for f in c.fns(EXE + "::RollbackTransactionLogs"):
        for p in c.run(f, opaque=OP, hooks=hk, maxpaths=60000, snap=lambda k, sq: k == 'call' and sq.startswith(CONS)):
            I, st = p.I, p.st
            tr = p.tr
            kinds = [(i, e.k if e.k != "call" else e.f.rsplit("::", 1)[-1], e) for i, e in enumerate(tr) if e.k in ("lock", "unlock", "call", "rollback")]
            gm = [(i, e) for i, n, e in kinds if n == "GetMutex"]
            if "widened" in st.flags: continue
            if p.out == "abort":
                reg = [e for i, n, e in kinds if n == "RegisterPid"]
                if reg: c.check("R7", I.truth(st, ("fld", reg[-1].res, "#has")) is False, name(f), fwhere(f), "ends the process although the process could be registered", p, inst="unregistrable process ends")
                continue
            tot += 1
            if not c.check("R7", len(gm) == 1, name(f), fwhere(f), "asks for the lock of the service instance %d times" % len(gm), p, inst="one lock"): continue
            mx, existed = ("fld", gm[0][1].res, "first"), ("fld", gm[0][1].res, "second")
            sid = [x["n"] for x in c.db.cls(EXE)[0]["fields"] if "SkeletonInstanceIdentifier" in x["t"]]
            ex = I.truth(st, existed)
            prep = [(i, n, e) for i, n, e in kinds if n in ("RegisterPid", "NotifyOutdatedNodeId", "MarkTransactionLogsNeedRollback")]
            rbs = [(i, e) for i, n, e in kinds if n == "rollback"]
            hold = 0
            heldat = {}
            for i, n, e in kinds:
                if n == "lock" and gm[0][1].res in subterms(mkaddr(e.m)): hold += 1
                if n == "unlock" and gm[0][1].res in subterms(mkaddr(e.m)): hold -= 1
                heldat[i] = hold
            c.check("R7", all(heldat[i] > 0 for i, n, e in prep) and all(heldat[i] > 0 for i, e in rbs), name(f), fwhere(f), "prepares or rolls back without the lock of the service instance", p, inst="under the lock")
            c.check("R7", hold == 0, name(f), fwhere(f), "returns with the lock held", p, inst="lock released")
            pn = [n for i, n, e in prep]
            if ex is None or ex:
                c.check("R7", not prep and ex is not None, name(f), fwhere(f), "prepares the rollback (%s) although the service instance was handled before" % pn, p, inst="prepared only once")
            else:
                reg = [e for i, n, e in prep if n == "RegisterPid"]
                no = [e for i, n, e in prep if n == "NotifyOutdatedNodeId"]
                mk = [(i, e) for i, n, e in prep if n == "MarkTransactionLogsNeedRollback"]
                if c.check("R7", len(reg) == 1, name(f), fwhere(f), "registers the process %d times" % len(reg), p, inst="process registered"):
                    r = reg[0]
                    c.check("R7", I.truth(st, ("fld", r.res, "#has")) is True, name(f), fwhere(f), "continues although the process could not be registered", p, inst="registration succeeded")
                    pid = r.a[1]
                    prev = ("fld", r.res, "#val")
                    diff = I.truth(st, I.binop(st, "!=", prev, pid))
                    c.check("R7", diff is not None and len(no) == int(diff), name(f), fwhere(f), "previous process differs: %s, announced %d times" % (diff, len(no)), p, inst="outdated process announced iff it differs")
                    for e in no: c.check("R7", prev in e.a and pid not in e.a, name(f), e.where(), "announces %s as outdated" % [show(x) for x in e.a], p, inst="previous process announced")
                c.check("R7", all(i < j for i, n, e in prep for j, x in rbs), name(f), fwhere(f), "rolls back before everything is marked", p, inst="marked before rollback")
                els = [elem(e.o) for i, e in mk]
                rel = [elem(e.o) for i, e in rbs]
                c.check("R7", all(x in els for x in rel), name(f), fwhere(f), "rolls back logs that were not marked", p, inst="all events marked")
                ids = {e.a[0] for i, e in mk} | {e.a[0] for i, e in rbs} | {r.a[0] for r in reg}
                c.check("R7", len(ids) <= 1, name(f), fwhere(f), "different application ids are used: %s" % [show(x) for x in ids], p, inst="one application id")
            for j, (i, e) in enumerate(rbs):
                end = rbs[j + 1][0] if j + 1 < len(rbs) else len(tr)
                cb = [x for x in tr[i:end] if x.k == "call" and (x.f.startswith(CONS + "::") or x.f.startswith(ESC + "::"))]
                me = elem(e.o)
                sl = [x for x in cb if x.f.startswith(CONS)]; su = [x for x in cb if x.f.startswith(ESC)]
                c.check("R8", [x.f.rsplit("::", 1)[-1] for x in sl] == ["DereferenceEventWithoutTransactionLogging"] and sl[0].a == [inp("slot")] or [tuple(x.a) for x in sl] == [(inp("slot"),)] and sl[0].f.endswith("DereferenceEventWithoutTransactionLogging"), name(f), e.where(), "taking back a reference calls %s" % [(x.f.rsplit("::", 1)[-1], [show(y) for y in x.a]) for x in sl], p, inst="reference taken back")
                c.check("R8", [(x.f.rsplit("::", 1)[-1], tuple(x.a)) for x in su] == [("Unsubscribe", (inp("count"),))], name(f), e.where(), "withdrawing a subscription calls %s" % [(x.f.rsplit("::", 1)[-1], [show(y) for y in x.a]) for x in su], p, inst="subscription withdrawn")
                for x in su: c.check("R8", elem(x.o) == me and me is not None, name(f), e.where(), "withdraws the subscription of another event: %s" % show(mkaddr(x.o)), p, inst="same event's subscription")
                if sl:
                    src = owners(sl[0])
                    c.check("R8", src == {me} and me is not None, name(f), e.where(), "takes back references of another event", p, inst="same event's slots")
            hs = hasval(p)
            fails = [e for i, e in enumerate(tr) if e.k == "rolledback" and I.truth(st, ("fld", e.res, "#has")) is False] if False else None
            outcome = [I.truth(st, ("fld", e.res, "#has")) for e in tr if e.k == "rolledback" and e.res is not None]
            c.check("R8", hs == (False not in outcome) and None not in outcome, name(f), fwhere(f), "reports %s although the rollbacks came out %s" % (hs, outcome), p, inst="failure reported")
            if hs: done += 1
            left = [v for t, v in st.f.items()]
    if not tot or not done: raise CheckError("anchor vanished: rollback of the transaction logs")


def wraphook(h):
    def f(I, st, e, op, vs):
        out = []
        for s, _ in h(I, st, e, op, vs):
            t = I.fresh(s, "rolled")
            s.tr[-1].d["res"] = t
            for b in (True, False):
                x = s.copy()
                if I.assume(x, ("fld", t, "#has"), b) is False: continue
                out.append((x, ("obj", I.tmp(x)) if False else t))
        return out
    return f


def viewtarget(c, call):
    """place the log view, object of a call, refers to"""
    st = call.d.get("st")
    if st is None or call.o is None: return None
    for k, v in st.m.items():
        if k[0] not in ("R", "B") and under(k, call.o) and k[0] == "F" and k[2] == "#ref" and isinstance(v, tuple): return pl(v) if v[0] not in ("addr", "adr") else v[1]
    return None


def topnode(p):
    """the log entry (element of the collection or member of the set) a place belongs to"""
    while p is not None:
        if p[0] in ("E", "P") and idx_of(p) is not None: return p
        if p[0] == "F" and p[1] == THIS: return p
        if p[0] == "F": p = p[1]
        else: return None
    return None


def pl(v):
    return v if v[0] in ("A", "F", "E", "L", "P", "B") else mkP(v)


def elem(p):
    """the element of the event map a place belongs to"""
    while p is not None:
        if p[0] in ("E", "P") and idx_of(p) is not None: return p
        if p[0] == "F": p = p[1]
        elif p[0] == "P":
            t = p[1]
            while t[0] in ("fld", "addr", "adr"): t = t[1]
            if t[0] == "in": p = t[1]
            else: return None
        else: return None
    return None


def owners(call):
    """elements of the event map that the object of a call refers to"""
    out = set()
    for k, v in call.st.m.items():
        if k[0] == "F" and under(k, call.o) and isinstance(v, tuple):
            for t in subterms(v):
                if isinstance(t, tuple) and t and t[0] in ("addr", "adr", "it"):
                    x = elem(t[1])
                    if x is not None: out.add(x)
    return out


def sync(c):
    for f in c.fns(LOLA + "RollbackSynchronization::GetMutex"):
        a = inp(f["p"][0]["n"])
        seen = set()
        for p in c.run(f):
            if p.out != "ret": continue
            I, st = p.I, p.st
            lk = [i for i, e in evs(p, "lock")]; ul = [i for i, e in evs(p, "unlock")]
            acc = [i for i, e in evs(p, "call") if "unordered_map" in e.f or "::map::" in e.f]
            c.check("R9", lk and ul and acc and lk[0] < min(acc) and max(acc) < ul[-1], name(f), fwhere(f), "the table of locks is used without its lock", p, inst="table under its lock")
            fi = [e for i, e in evs(p, "call") if e.f.endswith("::find")]
            ins = [e for i, e in evs(p, "call") if e.f.rsplit("::", 1)[-1] in ("emplace", "try_emplace", "insert", "operator[]")]
            sec = I.read(st, ("F", p.ret[1], "second")) if p.ret and p.ret[0] == "obj" else None
            b = I.truth(st, sec) if sec is not None else None
            seen.add(b)
            c.check("R9", b is not None and bool(ins) == (not b), name(f), fwhere(f), "reports existed=%s, created %d" % (b, len(ins)), p, inst="existed iff not created")
    c.check("R9", seen == {True, False}, LOLA + "RollbackSynchronization::GetMutex", fwhere(f), "reports only %s" % seen, inst="both outcomes")
