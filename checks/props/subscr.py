"""Subscription accounting at the provider and the subscription state machine of a consumer."""
from core import *
from linear import Lin
LOLA = "score::mw::com::impl::lola::"
ESC = LOLA + "EventSubscriptionControl"
oplog = lambda sq, f: sq.startswith("score::mw::log")


def lola_lin(p, I, st, word, extra=()):
    """linear forms over the two halves of the subscription state; its topmost byte is zero by the invariant R2 preserves"""
    w = {x: None for x in [word] + list(extra)}
    return Lin(I, st, cuts={x: (16, 24) for x in w}, wid={x: 32 for x in w}, zero={("seg", x, 24, 8) for x in w})


@prop("P07", ["score/mw/com/impl/bindings/lola/event_subscription_control.cpp"], ["util"])
def p07(c):
    c.rule("R1", "a new provider side state starts with no subscribers and no slots and keeps the configured limits")
    c.rule("R2", "subscribing adds exactly one subscriber and the requested slots to the state observed, by one atomic compare and exchange, and reports success exactly then")
    c.rule("R3", "a subscription is only accepted while fewer than the maximum of subscribers are subscribed, and within the slot limit if it is enforced; the sum never leaves its field")
    c.rule("R4", "a refusal is reported only if its limit is exceeded in the state observed")
    c.rule("R5", "unsubscribing removes exactly one subscriber and the given slots from the state observed, by one atomic compare and exchange, and returns only then; it ends the process only when nothing could be removed")
    SF = c.field(ESC, r"atomic")
    state = ("F", ("A", "this"), SF)
    ok_, subs, slot, retry = [enum(c, "lola::SubscribeResult", n) for n in ("kSuccess", "kMaxSubscribersOverflow", "kSlotOverflow", "kUpdateRetryFailure")]
    fc = [f for f in c.fns(ESC + "::EventSubscriptionControl") if len(f.get("p", [])) == 3]
    lim = {}
    for f in fc:
        pn = [x["n"] for x in f["p"]]
        for p in c.run(f):
            F = {x["n"]: p.I.read(p.st, ("F", ("A", "this"), x["n"])) for x in c.db.cls(ESC)[0]["fields"]}
            z = [e for e in p.tr if e.k in ("init", "wr", "astore") and e.p == state]
            v = F[SF]
            c.check("R1", v in (K(0), ("atomic", 0)), name(f), fwhere(f), "the subscription state starts as %s" % show(v), p, inst="initial state")
            for n in pn:
                fld = [k for k, v in F.items() if v == inp(n)]
                c.check("R1", len(fld) == 1, name(f), fwhere(f), "the limit %s is not kept" % n, p, inst="limit " + n)
                if fld: lim[pn.index(n)] = inp("this", fld[0])
    for i in range(3):
        if i not in lim: return
    MS, MX, EN = lim[0], lim[1], lim[2]
    for nm in ("Subscribe", "Unsubscribe"):
        for f in c.fns(ESC + "::" + nm):
            cnt = inp(f["p"][0]["n"])
            for p in c.run(f, loops=1, opaque=oplog):
                at = [e for e in p.tr if e.k in ("aload", "cas", "astore", "rmw") and e.p == state]
                obs = [e.v if e.k == "aload" else e.d["seen"] for e in at if e.k == "aload" or e.k == "cas" and e.d.get("seen")]
                L = lola_lin(p, p.I, p.st, obs[0], obs[1:]) if obs else None
                good = [e for e in at if e.k == "cas" and e.ok]
                R = "R2" if nm == "Subscribe" else "R5"
                if any(e.k in ("astore", "rmw") for e in at):
                    c.bad(R, name(f), fwhere(f), "the state is written other than by compare and exchange", p); continue
                for e in at:
                    if e.k != "cas": continue
                    S, N = {("seg", e.exp, 16, 8): 1}, {("seg", e.exp, 0, 16): 1}
                    if e.exp not in obs:
                        c.bad(R, name(f), fwhere(f), "the exchange does not start from an observed state", p); continue
                    sg = 1 if nm == "Subscribe" else -1
                    want = L.add(L.add(L.lin(e.exp), {1: 65536}, sg), L.lin(cnt), sg)
                    # both halves have to stay inside their fields for the forms to coincide
                    fit = L.within(L.add(S, {1: 1}, sg), 0, 255) and L.within(L.add(N, L.lin(cnt), sg), 0, 65535)
                    c.check(R, fit, name(f), fwhere(f), "the new subscriber or slot number may leave its field", p, inst="fields of the state")
                    if fit:
                        got = L.lin(e.des)
                        c.check(R, got == want, name(f), fwhere(f), "the new state is %s instead of %s" % (L.show(got), L.show(want)), p, inst="new state")
                    o = e.order
                    c.check(R, acquires(o) and releases(o), name(f), fwhere(f), "the exchange does not acquire and release", p, inst="memory order")
                    if nm == "Subscribe":
                        c.check("R3", L.le0(L.add(L.add(S, L.lin(MX), -1), {1: 1})), name(f), fwhere(f), "a subscription is accepted although the maximum of subscribers may be reached", p, inst="subscriber limit")
                        for st, b in p.I.branch(p.st.copy(), EN):
                            if b:
                                L2 = lola_lin(p, p.I, st, obs[0], obs[1:])
                                c.check("R3", L2.le0(L2.add(L2.add(N, L2.lin(cnt)), L2.lin(MS), -1)), name(f), fwhere(f), "a subscription is accepted although it may exceed the slot limit", p, inst="slot limit")
                if p.out == "ret" and nm == "Subscribe":
                    for st, _ in p.I.branch(p.st.copy(), p.I.binop(p.st, "==", p.ret, K(ok_))):
                        pass
                    r = p.ret
                    if not isc(r): c.bad("R2", name(f), fwhere(f), "the result %s is not determined" % show(r), p); continue
                    if (r == K(ok_)) != (len(good) == 1) or len(good) > 1:
                        c.bad("R2", name(f), fwhere(f), "result %s after %d successful exchanges" % (show(r), len(good)), p)
                    else: c.ok("R2", "result %s" % show(r))
                    if r in (K(subs), K(slot)) and not good:
                        just = False
                        for o in obs[-1:] if obs else []:
                            S, N = {("seg", o, 16, 8): 1}, {("seg", o, 0, 16): 1}
                            if r == K(subs): just = L.le0(L.add(L.lin(MX), S, -1))
                            else:
                                sm = L.add(N, L.lin(cnt))
                                just = L.le0(L.add({1: 65536}, sm, -1)) or (p.I.truth(p.st, EN) is True and L.le0(L.add(L.add(L.lin(MS), sm, -1), {1: 1})))
                        c.check("R4", just, name(f), fwhere(f), "a subscription is refused with %s although the limit is not exceeded" % ("too many subscribers" if r == K(subs) else "too many slots"), p, inst="refusal %s" % show(r))
                    elif r == K(retry):
                        c.check("R4", all(e.k != "cas" or not e.ok for e in at), name(f), fwhere(f), "failure after a successful exchange", p, inst="retry failure")
                elif p.out == "ret":
                    c.check("R5", len(good) == 1 and at and at[-1] is good[0], name(f), fwhere(f), "unsubscribing returns after %d successful exchanges" % len(good), p, inst="returns unsubscribed")
                elif p.out == "abort":
                    just = not good
                    c.check(R, just, name(f), fwhere(f), "the process ends after the state was changed", p, inst="no end after success")
                    if nm == "Unsubscribe":
                        # an end before the first exchange needs a state which has nothing to remove, or no attempt being allowed at all
                        o = obs[-1] if obs else None
                        cas = [e for e in at if e.k == "cas"]
                        if not cas and o is not None:
                            S, N = {("seg", o, 16, 8): 1}, {("seg", o, 0, 16): 1}
                            c.check("R5", L.le0(S) or L.le0(L.add(L.add(N, L.lin(cnt), -1), {1: 1})), name(f), fwhere(f), "unsubscribing ends the process although the state holds a subscriber and its slots", p, inst="end of the process")
    for r, n in (("R2", 5), ("R3", 2), ("R4", 3), ("R5", 5)): c.need(r, n)


SSM = LOLA + "SubscriptionStateMachine"
OWN = ("SubscriptionStateMachine", "NotSubscribedState", "SubscribedState", "SubscriptionPendingState", "SubscriptionData", "SubscriptionStateBase",
       "EventReceiveHandlerManager", "SubscriptionStateMachineStateToSubscriptionState")
NEUTRAL = ("score::mw::log", LOLA + "CreateLoggingString", LOLA + "MessageForSubscriptionState", LOLA + "ToString", LOLA + "ElementFqId", "std::", "score::mw::com::impl::Runtime", "score::result", LOLA + "IRuntime::", "score::mw::com::impl::IRuntime")
CLOSED = {LOLA + x for x in ("TransactionLogSet", "TransactionLogLocalView", "EventSubscriptionControl", "TransactionLogRegistrationGuard", "IMessagePassingService", "SlotCollector")}


def p16opq(sq, f):
    if sq.startswith("score::mw::log") or sq.startswith(LOLA + "CreateLoggingString"): return True
    return sq.endswith("::GetBindingRuntime") or any(sq.startswith(k + "::") for k in CLOSED)


@prop("P16", ["score/mw/com/impl/bindings/lola/subscription_*.cpp"], ["util"])
def p16(c):
    c.rule("R1", "every operation of the state machine works under its lock from the first to the last access, and ends in a consistent state: subscription data, log registration and provider availability match the state, and no handler is registered while not subscribed")
    c.rule("R2", "subscribing registers a log and subscribes at the provider exactly once with the requested number, which is kept; a failure is reported and leaves nothing behind")
    c.rule("R3", "subscribing again has no effect and succeeds exactly if the number of samples is the same")
    c.rule("R4", "unsubscribing withdraws the subscription at the provider once with the number it was made with, and the handler; without a subscription it has no effect")
    c.rule("R5", "a provider going away and coming back moves the subscription to pending and back, with the new process used for every later registration")
    c.rule("R6", "a receive handler is registered with messaging exactly while the subscription is active: a pending one is neither lost nor registered twice")
    c.rule("R7", "each change of state is reported once, with the new state, after it took effect; the change handler is given up exactly if it asks for it")
    c.rule("R8", "the recorded number of samples is reported exactly while subscribed or pending, and the state reported is the current one")
    T = ("A", "this")
    fl = lambda *x: ("F", fl(*x[:-1]) if len(x) > 1 else T, x[-1])
    IDX = c.field(SSM, r"std::atomic<.*SubscriptionStateMachineState>"); MTX = c.field(SSM, r"std::mutex"); DATA = c.field(SSM, r"SubscriptionData$")
    RH = c.field(SSM, r"optional<std::weak_ptr<|optional<.*weak_ptr"); CH = c.field(SSM, r"optional<.*(SubscriptionStateChangeHandler|callback<bool|move_only_function<bool)")
    MGR = c.field(SSM, r"EventReceiveHandlerManager"); AV = c.field(SSM, r"^bool$"); GUARD = c.field(SSM, r"optional<.*TransactionLogRegistrationGuard")
    SD = LOLA + "SubscriptionData"; MAX = c.field(SD, r"optional<.*(short|uint16)"); COL = c.field(SD, r"optional<.*SlotCollector")
    EM = LOLA + "EventReceiveHandlerManager"; REG = c.field(EM, r"optional<"); PID = c.field(EM, r"^(int|pid_t|.*pid_t)$")
    st_of = [enum(c, "lola::SubscriptionStateMachineState", n) for n in ("NOT_SUBSCRIBED_STATE", "SUBSCRIPTION_PENDING_STATE", "SUBSCRIBED_STATE")]
    pub = [enum(c, "impl::SubscriptionState", n) for n in ("kNotSubscribed", "kSubscriptionPending", "kSubscribed")]
    NOT, PEND, SUBD = st_of
    optp = {"max": fl(DATA, MAX), "col": fl(DATA, COL), "guard": fl(GUARD), "rh": fl(RH), "ch": fl(CH), "reg": fl(MGR, REG)}

    def setup(I, st): I.plain = (T,)
    ctors = [f for f in c.fns(SSM + "::SubscriptionStateMachine")]
    F = ctors[0]
    cpn = [x["n"] for x in F["p"]]
    bases = [p for p in c.run(F, opaque=p16opq, setup=setup, inline_virtual=devirt(c)) if p.out == "ret"]
    p0 = bases[0]; I = p0.I

    def has(st, k): return I.truth(st, I.read(st, ("F", optp[k], "#has")))

    def start(i):
        st = p0.st.copy(); st.tr = []
        st.m[("F", fl(IDX), "#v")] = K(st_of[i])
        for n in (RH, CH): forget(I, st, fl(n), n)
        pid = fl(MGR, PID); st.m[pid] = ("in", ("A", "pid"))
        if i:
            for k in ("max", "col", "guard", "reg"): forget(I, st, optp[k], k)
            for k in ("max", "col", "guard"): st.m[("F", optp[k], "#has")] = TRUE
            mx = ("in", ("A", "recorded")); st.m[("F", optp["max"], "#val")] = mx
            I.unsigned.add(mx); I.wid[mx] = 16
        st.m[fl(AV)] = K(int(i == 2)) if i else ("in", ("A", "avail"))
        return st

    def run(i, m, args=None):
        f = c.fns(SSM + "::" + m)[0]
        st = start(i)
        r = I.cont(st, f)
        c.entries += 1; c.paths += len(r)
        for p in r: p.I = I; p.fn = f
        for x in I.functions_seen: c.functions.add(x[0])
        return r

    # effects visible outside
    def eff(p):
        out = []
        for i, e in enumerate(p.tr):
            if e.k == "call" and any(e.f.startswith(k + "::") for k in CLOSED):
                n = e.f.rsplit("::", 1)[-1]
                if n not in ("GetTransactionLogIndex", "GetTransactionLog"): out.append((n, e, i))
            elif e.k == "dtor" and e.t in ("TransactionLogRegistrationGuard",) or e.k == "dtor" and (e.t or "").endswith("TransactionLogRegistrationGuard"): out.append(("guard-", e, i))
            elif e.k == "invoke": out.append(("invoke", e, i))
        return out

    def stored(p): return I.read(p.st, ("F", fl(IDX), "#v"))

    for p in bases:
        v = stored(p)
        good = v == K(NOT) and I.truth(p.st, I.read(p.st, fl(AV))) is True and all(I.truth(p.st, I.read(p.st, ("F", optp[k], "#has"))) is False for k in optp)
        c.check("R1", good, SSM, fwhere(F), "a new state machine is not in the unsubscribed state without data, handlers and registrations, and with the provider available", p, inst="initial state")
    NAMES = {NOT: "not subscribed", PEND: "pending", SUBD: "subscribed"}
    ops = ["SubscribeEvent", "UnsubscribeEvent", "StopOfferEvent", "ReOfferEvent", "SetReceiveHandler", "UnsetReceiveHandler", "SetSubscriptionStateChangeHandler", "UnsetSubscriptionStateChangeHandler", "GetMaxSampleCount", "GetCurrentState"]
    for i in range(3):
        for m in ops:
            for p in run(i, m):
                f = p.fn; nm = name(f); w = fwhere(f); tag = "%s while %s" % (m, NAMES[st_of[i]])
                E = eff(p); N = [x[0] for x in E]
                B = lambda r, cond, msg: c.check(r, cond, nm, w, "while %s: %s" % (NAMES[st_of[i]], msg), p, inst="%s: %s" % (tag, msg))
                # ---- locking
                touch = [j for j, e in enumerate(p.tr) if e.k in ("aload", "astore", "wr", "rd") and e.p is not None and under(e.p, T) or e.k in ("call", "invoke") and (e.k == "invoke" or any(e.f.startswith(k + "::") for k in CLOSED))]
                held = [False] * (len(p.tr) + 1); h = False
                for j, e in enumerate(p.tr):
                    if e.k == "lock" and e.m == fl(MTX): h = True
                    elif e.k == "unlock" and e.m == fl(MTX): h = False
                    held[j] = h
                B("R1", all(held[j] for j in touch), "the state is used without the lock")
                if p.out == "abort":
                    B("R5", m == "StopOfferEvent" and i == 1 or m == "SubscribeEvent" and i == 0 or i == 0 and m == "GetMaxSampleCount" or i == 2 and m == "GetMaxSampleCount", "the operation ends the process")
                    continue
                if p.out != "ret": B("R1", False, "leaves by %s" % p.out); continue
                # ---- state invariant
                v = stored(p)
                if not isc(v): B("R1", False, "the new state is unknown"); continue
                j = st_of.index(v[1]) if v[1] in st_of else None
                B("R1", j is not None, "the new state is no valid state")
                if j is None: continue
                for k, msg in (("max", "the recorded number of samples"), ("col", "the slot collector"), ("guard", "the log registration")):
                    x = has(p.st, k)
                    B("R1", x is (j != 0), "afterwards %s does not match the state" % msg)
                av = I.truth(p.st, I.read(p.st, fl(AV)))
                if j: B("R1", av is (j == 2), "afterwards the state does not match the availability of the provider")
                elif has(p.st, "reg") is not False: B("R1", False, "afterwards a handler stays registered with messaging")
                # ---- state change notification
                inv = [x for x in E if x[0] == "invoke"]
                changed = i != j
                chad = I.truth(p.st, ("fld", ("in", ("A", CH)), "#has"))
                if m not in ("SetSubscriptionStateChangeHandler",):
                    if changed and chad is not False:
                        B("R7", len(inv) == 1 and inv[0][1].a[:1] == [K(pub[j])], "a change of state is not reported once with the new state")
                        if len(inv) == 1:
                            e, pos = inv[0][1], inv[0][2]
                            sto = [q for q, x in enumerate(p.tr) if x.k == "astore" and x.p == fl(IDX)]
                            B("R7", sto and sto[-1] < pos, "the change of state is reported before it is in effect")
                            keep = I.truth(p.st, e.res)
                            B("R7", keep is not None and has(p.st, "ch") is keep, "the change handler is not kept exactly if it asks for it")
                    else:
                        B("R7", not inv, "a change of state is reported although none happened")
                        if m != "UnsetSubscriptionStateChangeHandler": B("R7", I.read(p.st, ("F", optp["ch"], "#has")) == ("fld", ("in", ("A", CH)), "#has") or not changed and has(p.st, "ch") is chad, "the change handler is lost")
                if m == "UnsetSubscriptionStateChangeHandler": B("R7", has(p.st, "ch") is False, "the change handler stays")
                if m == "SetSubscriptionStateChangeHandler":
                    hp = ("A", f["p"][0]["n"])
                    B("R7", has(p.st, "ch") is True and any(t == ("in", hp) or t == hp for t in subterms(I.read(p.st, ("F", optp["ch"], "#val")))), "the change handler is not kept")
                # ---- messaging
                regs = [x for x in E if x[0] in ("RegisterEventNotification", "UnregisterEventNotification", "ReregisterEventNotification")]
                rhad = I.truth(p.st, ("fld", ("in", ("A", RH)), "#has"))
                cur = ("reg",) if i else None             # registration alive: entry one
                reg0 = ("fld", ("in", ("A", "reg")), "#has") if i else FALSE
                alive = I.truth(p.st, reg0)
                num = ("fld", ("in", ("A", "reg")), "#val") if i else None
                npid = inp(f["p"][0]["n"]) if m == "ReOfferEvent" and i != 2 else ("in", ("A", "pid"))
                for n, e, pos in regs:
                    pidv = e.a[-1]
                    B("R5", pidv == npid, "messaging is used with the wrong process")
                    if n == "UnregisterEventNotification":
                        B("R6", alive is not False and e.a[2] == num, "a handler is withdrawn under a number it was not registered with")
                        alive = False; num = None
                    elif n == "RegisterEventNotification":
                        B("R6", alive is False, "a handler is registered although one is registered already")
                        alive = True; num = e.res
                    else:
                        B("R6", alive is True, "a registration is renewed although there is none")
                hr = has(p.st, "reg")
                if alive is not None:
                    B("R6", hr is alive and (not alive or I.read(p.st, ("F", optp["reg"], "#val")) == num), "the registration number kept does not match the registration")
                newreg = [x for x in regs if x[0] == "RegisterEventNotification"]

                def handlerarg(e, what):
                    t = e.ap[2]
                    ts = set(subterms(e.a[2]))
                    if t is not None:
                        for q in p.st.m:
                            if under(q, t) or q[0] == "B" and under(q[1], t): ts |= set(subterms(p.st.m[q]))
                    return ts
                if m == "SetReceiveHandler":
                    if i == 2: B("R6", len(newreg) == 1, "the handler is not registered although the subscription is active")
                    else: B("R6", not regs and has(p.st, "rh") is True, "the handler is not kept until the subscription is active")
                elif m == "UnsetReceiveHandler":
                    if i == 2: B("R6", not newreg and hr is False, "the handler stays registered")
                    else: B("R6", has(p.st, "rh") is False and not newreg, "the handler stays pending")
                elif j == 2 and i != 2:          # became active
                    if rhad is True: B("R6", len(newreg) == 1 and has(p.st, "rh") is False, "the pending handler is not registered exactly once when the subscription becomes active")
                    elif rhad is False:
                        B("R6", not newreg, "a handler is registered although none is pending")
                        if i == 1: B("R6", [x[0] for x in regs] == (["ReregisterEventNotification"] if hr is True else []), "the existing registration is not renewed with the provider that came back")
                    else: B("R6", False, "the pending handler is not looked at when the subscription becomes active")
                else:
                    B("R6", not newreg, "a handler is registered although the subscription did not become active")
                    B("R6", I.read(p.st, ("F", optp["rh"], "#has")) == ("fld", ("in", ("A", RH)), "#has") or rhad is not None and has(p.st, "rh") is rhad, "the pending handler is lost")
                # ---- operations
                ctl = [x for x in E if x[0] in ("Subscribe", "Unsubscribe", "RegisterProxyElement")]
                if m == "SubscribeEvent":
                    cnt = inp(f["p"][0]["n"]); okr = hasval(p)
                    if i == 0:
                        rp = [x for x in ctl if x[0] == "RegisterProxyElement"]; sb = [x for x in ctl if x[0] == "Subscribe"]
                        B("R2", len(rp) <= 1 and len(sb) <= 1 and not any(x[0] == "Unsubscribe" for x in ctl), "more than one registration or subscription")
                        succ = len(sb) == 1 and I.truth(p.st, I.binop(p.st, "==", sb[0][1].res, K(0))) is True
                        B("R2", okr is succ, "the outcome reported differs from the provider's")
                        for x in rp: B("R2", x[1].o is not None and [q[1] if q and q[0] == "addr" else q for q in x[1].a] is not None and x[1].ap[0] == ("A", cpn[6]) and x[1].ap[1] == ("A", cpn[3]), "another log or event is registered")
                        for x in sb: B("R2", len(rp) == 1 and rp[0][2] < x[2] and x[1].a == [cnt], "the provider is asked for another number of samples, or before the log is registered")
                        B("R2", succ == (j != 0), "the state does not follow the outcome")
                        if succ:
                            B("R2", j == (2 if av else 1), "the new state does not follow the availability of the provider")
                            B("R2", I.read(p.st, ("F", optp["max"], "#val")) == cnt, "the number recorded is not the requested one")
                            cs = [e for e in p.tr if e.k == "ctor" and (e.t or "").endswith("SlotCollector") and e.kind not in ("movector", "copyctor")]
                            B("R2", len(cs) == 1 and len(cs[0].a) >= 2 and cs[0].a[1] == cnt, "the slot collector is not made for the requested number")
                        else:
                            B("R2", not any(x[0] == "guard-" and False for x in E) and has(p.st, "guard") is False, "a failed attempt keeps its log")
                            B("R2", av == I.truth(p.st, ("in", ("A", "avail"))), "a failed attempt changes the availability")
                    else:
                        B("R3", not ctl and not regs and not changed, "subscribing again has an effect")
                        same = I.truth(p.st, I.binop(p.st, "==", ("in", ("A", "recorded")), cnt))
                        B("R3", same is not None and okr is same, "subscribing again succeeds or fails regardless of the number of samples")
                        B("R3", I.read(p.st, ("F", optp["max"], "#val")) == ("in", ("A", "recorded")), "subscribing again changes the recorded number")
                elif m == "UnsubscribeEvent" and i:
                    un = [x for x in ctl if x[0] == "Unsubscribe"]
                    B("R4", j == 0 and len(un) == 1 and len(ctl) == 1 and un[0][1].a == [("in", ("A", "recorded"))], "the subscription is not withdrawn once with the recorded number")
                    gd = [x for x in E if x[0] == "guard-" and under(x[1].p, optp["guard"])]
                    B("R4", len(un) == 1 and len(gd) == 1 and gd[0][2] > un[0][2], "the log is given up before the subscription is withdrawn, or not once")
                else:
                    B("R4", not ctl, "the operation subscribes or unsubscribes")
                    if m == "StopOfferEvent":
                        B("R5", j == (1 if i == 2 else i) and av is False, "the provider's disappearance is not recorded")
                        B("R5", not regs, "messaging is used while the provider is gone")
                    elif m == "ReOfferEvent" and i != 2:
                        B("R5", j == (2 if i == 1 else 0) and av is True, "the provider's return is not recorded")
                        B("R5", I.read(p.st, fl(MGR, PID)) == npid, "the provider's new process is not kept")
                    else:
                        B("R5", not changed, "the operation changes the state")
                        if i == 0 and m != "ReOfferEvent": B("R5", I.read(p.st, fl(AV)) == ("in", ("A", "avail")), "the operation changes the availability")
                    if not (m == "ReOfferEvent" and i != 2): B("R5", I.read(p.st, fl(MGR, PID)) == ("in", ("A", "pid")), "the operation changes the provider's process")
                if m == "GetMaxSampleCount":
                    hv = hasval(p)
                    B("R8", hv is (i != 0) and (not hv or val(p) == ("in", ("A", "recorded"))), "the number of samples reported is not the recorded one")
                if m == "GetCurrentState":
                    B("R8", p.I.scal(p.st, p.ret) == K(st_of[i]), "another state is reported")
    for r, n in (("R1", 20), ("R2", 6), ("R3", 4), ("R4", 4), ("R5", 6), ("R6", 10), ("R7", 6), ("R8", 5)): c.need(r, n)
