"""Event data slots: status word, consumer referencing, provider allocation."""
from core import *
import slothooks
LOLA = "score::mw::com::impl::lola::"
ESS = LOLA + "EventSlotStatus"
TU = ["score/mw/com/impl/bindings/lola/*event_data_control*.cpp", "score/mw/com/impl/bindings/lola/event_slot_status.cpp"]


def bits(I, st, x, lo, n, w=64):
    return I.fromsegs(I.cutsegs(I.tosegs(x, w), lo, n), w)


@prop("P01", ["score/mw/com/impl/bindings/lola/event_slot_status.cpp"])
def p01(c):
    db = c.db
    DF = c.field(ESS, "unsigned long")
    D = inp("this", DF)
    fn = lambda n, **kw: [f for f in db.fn(ESS + "::" + n) if all(f.get(k) == v for k, v in kw.items())]
    g = {n: fn(n)[0] for n in ("GetReferenceCount", "GetTimeStamp", "IsInvalid", "IsInWriting", "IsUsed", "IsTimeStampBetween", "MarkInvalid", "MarkInWriting", "SetReferenceCount", "SetTimeStamp")}
    c.rule("R1", "reader count and timestamp read back what was stored, for every value")
    c.rule("R2", "the never-published and the being-written encodings are exclusive, recognised by exactly their predicates, and never reported as published")
    c.rule("R3", "the used predicate holds exactly when a reader holds the slot or it is being written")
    c.rule("R4", "a slot is reported inside a timestamp window exactly when published and strictly between both bounds")
    ctors = [f for f in fn("EventSlotStatus") if f.get("body")]
    # constructor / setters followed by the getters
    for f in ctors:
        pn = [p["n"] for p in f.get("p", [])]
        for p in c.run(f):
            if len(pn) == 2:
                want = {"GetTimeStamp": inp(pn[0]), "GetReferenceCount": inp(pn[1])}
            elif len(pn) == 0:
                want = {"GetTimeStamp": K(0), "GetReferenceCount": K(0), "IsInvalid": TRUE, "IsInWriting": FALSE, "IsUsed": FALSE}
            else:
                continue
            for n, w in want.items():
                for q in p.I.cont(p.st.copy(), g[n]):
                    c.check("R1" if pn else "R2", q.ret == w, name(f), fwhere(f), "constructed from (%s), %s reads %s instead of %s" % (", ".join(pn), n, show(q.ret), show(w)), q, inst="ctor(%s) then %s" % (", ".join(pn), n))
    for p in c.run(g["SetReferenceCount"]):
        a = inp(g["SetReferenceCount"]["p"][0]["n"])
        for n, w in (("GetReferenceCount", a), ("GetTimeStamp", None)):
            base = None
            if w is None:
                b = c.run(g["GetTimeStamp"])[0]
                w = b.ret
            for q in p.I.cont(p.st.copy(), g[n]):
                c.check("R1", q.ret == w, name(g["SetReferenceCount"]), fwhere(g["SetReferenceCount"]), "afterwards %s reads %s, expected %s" % (n, show(q.ret), show(w)), q, inst="SetReferenceCount then " + n)
    for p in c.run(g["SetTimeStamp"]):
        a = inp(g["SetTimeStamp"]["p"][0]["n"])
        for q in p.I.cont(p.st.copy(), g["GetTimeStamp"]):
            c.check("R1", q.ret == a, name(g["SetTimeStamp"]), fwhere(g["SetTimeStamp"]), "timestamp reads back %s" % show(q.ret), q, inst="SetTimeStamp then GetTimeStamp")
    # the two special encodings
    enc = {}
    for m, want in (("MarkInvalid", {"IsInvalid": 1, "IsInWriting": 0, "IsUsed": 0, "IsTimeStampBetween": 0}), ("MarkInWriting", {"IsInvalid": 0, "IsInWriting": 1, "IsUsed": 1, "IsTimeStampBetween": 0})):
        for p in c.run(g[m]):
            enc[m] = p.I.read(p.st, ("F", ("A", "this"), DF))
            for n, w in want.items():
                for q in p.I.cont(p.st.copy(), g[n]):
                    r = p.I.scal(q.st, q.ret)
                    c.check("R2", p.I.truth(q.st, r) is bool(w), name(g[n]), fwhere(g[n]), "after %s the predicate %s yields %s" % (m, n, show(r)), q, inst="%s then %s" % (m, n))
    for m, n in (("MarkInvalid", "IsInvalid"), ("MarkInWriting", "IsInWriting")):
        e = enc[m]
        equiv(c, "R2", g[n], lambda I, st, p: eq(I, st, D, e))
    ref = c.run(g["GetReferenceCount"])[0].ret
    ts = c.run(g["GetTimeStamp"])[0].ret
    equiv(c, "R3", g["IsUsed"], lambda I, st, p: ("or", ne(I, st, ref, K(0)), eq(I, st, D, enc["MarkInWriting"])))
    a, b = [x["n"] for x in g["IsTimeStampBetween"]["p"]]
    equiv(c, "R4", g["IsTimeStampBetween"], lambda I, st, p: ("and", ("not", eq(I, st, D, enc["MarkInWriting"])), ("not", eq(I, st, D, enc["MarkInvalid"])),
          gt(I, st, ts, inp(a)), lt(I, st, ts, inp(b))))


TXL = LOLA + "TransactionLogLocalView"
CONS = LOLA + "ConsumerEventDataControlLocalView"
PROV = LOLA + "ProviderEventDataControlLocalView"
SLOTTU = TU + ["score/mw/com/impl/bindings/lola/transaction_log_local_view.cpp"]


def slot_places(p):
    """atomic accesses to slots: place of a slot array element (not the statistics counters)"""
    return [(i, e) for i, e in enumerate(p.tr) if e.k in ("aload", "astore", "cas", "rmw") and idx_of(e.p) is not None]


def opq_txl(sq, f):
    return sq.startswith(TXL + "::")


def tev(p):
    """protocol events of a consumer operation: (kind, slot index, position)"""
    out = []
    for i, e in enumerate(p.tr):
        if e.k == "call" and e.f.startswith(TXL + "::"):
            out.append((e.f.rsplit("::", 1)[-1], e.a[0] if e.a else None, i, e))
        elif e.k in ("cas", "rmw", "astore") and idx_of(e.p) is not None:
            out.append((e.k, idx_of(e.p), i, e))
    return out


@prop("P02", SLOTTU, ["util"])
def p02(c):
    c.rule("R1", "every change of a slot's reader count by a consumer is exactly +1 or -1 on the slot it logged, by one atomic read-modify-write with acquire and release ordering")
    c.rule("R2", "a reference is announced in the transaction log before it is taken and confirmed after; a failed attempt is withdrawn; nothing stays open when the operation returns")
    c.rule("R3", "the slot index handed out is the one that was referenced, and an empty answer leaves no reference behind")
    c.rule("R4", "a slot is only referenced while its status was seen as published")
    hooks = slothooks.status_hooks()
    dfield = ("pred",)
    for f in c.fns(CONS + "::ReferenceNextEvent"):
        for p in c.run(f, opaque=opq_txl, hooks=hooks):
            if p.out not in ("ret",):
                continue
            t = tev(p); open_ = None; held = []; bad = None
            for j, (k, ix, i, e) in enumerate(t):
                if k == "ReferenceTransactionBegin":
                    if open_ is not None: bad = ("R2", "a second reference is announced while one is open")
                    open_ = ix; state = "begun"
                elif k == "cas":
                    if open_ != ix or state != "begun": bad = ("R2", "slot %s is changed without an open announcement for it" % show(ix))
                    if not (e.des == p.I.binop(p.st, "+", e.exp, K(1), "unsigned long")): bad = ("R1", "the new status %s is not the expected status plus one reader" % show(e.des))
                    if not (acquires(e.order) and releases(e.order)): bad = ("R1", "memory order does not acquire and release")
                    if "widened" not in p.st.flags:
                        lv = [x for x in p.tr[:i] if x.k == "aload" and x.v == e.exp]
                        if not lv or idx_of(lv[0].p) != ix: bad = ("R1", "expected status was read from another slot")
                        ok = [x for x in p.st.f if x[0] == "pred" and x[1] == "IsTimeStampBetween" and x[2] == e.exp and p.st.f[x]]
                        ok2 = [x for x in p.st.f if x[0] == "pred" and x[1] in ("IsInvalid", "IsInWriting") and x[2] == e.exp and not p.st.f[x]]
                        if not ok and len(ok2) < 2: bad = ("R4", "slot status was not seen as published before taking the reference")
                    if e.ok is True or e.ok == TRUE:
                        held.append(ix); state = "taken"
                    else:
                        state = "failed"
                elif k == "ReferenceTransactionCommit":
                    if open_ != ix or state != "taken": bad = ("R2", "a reference is confirmed that was not taken")
                    open_ = None
                elif k == "ReferenceTransactionAbort":
                    if open_ != ix or state != "failed": bad = ("R2", "a taken reference is withdrawn from the log")
                    open_ = None
                elif k in ("rmw", "astore"):
                    bad = ("R1", "slot changed other than by compare-and-swap")
                else:
                    bad = ("R2", "unexpected log operation %s" % k)
            if open_ is not None and not bad: bad = ("R2", "returns with an open announcement")
            if bad:
                c.bad(bad[0], name(f), fwhere(f), bad[1], p); continue
            h = hasval(p)
            if h is True:
                c.check("R3", held == [val(p)], name(f), fwhere(f), "returns slot %s but holds %s" % (show(val(p)), [show(x) for x in held]), p, inst="%s returns the referenced slot" % name(f))
            else:
                c.check("R3", not held, name(f), fwhere(f), "returns nothing but keeps a reference on %s" % [show(x) for x in held], p, inst="%s empty-handed" % name(f))
            for r in ("R1", "R2", "R4"):
                if t: c.ok(r, "%s: %s" % (name(f), " ".join(x[0] for x in t[:4])))
    for f in c.fns(CONS + "::ReferenceSpecificEvent"):
        a = inp(f["p"][0]["n"])
        for p in c.run(f, opaque=opq_txl, hooks=hooks):
            if p.out != "ret": continue
            t = tev(p)
            seq = [x[0] for x in t]
            c.check("R2", seq == ["ReferenceTransactionBegin", "rmw", "ReferenceTransactionCommit"] and all(x[1] == a for x in t), name(f), fwhere(f), "log/slot sequence is %s on %s" % (seq, [show(x[1]) for x in t]), p)
            for k, ix, i, e in t:
                if k == "rmw":
                    c.check("R1", e.op == "+" and e.arg == K(1) and acquires(e.order) and releases(e.order), name(f), e.where(), "reader count change is %s%s" % (e.op, show(e.arg)), p)
            lv = [e.v for e in p.tr if e.k == "aload" and idx_of(e.p) == a]
            fs = p.st.f
            ok = any(all(fs.get(("pred", n, v)) is False for n in ("IsInvalid", "IsInWriting")) for v in lv)
            c.check("R4", ok, name(f), fwhere(f), "slot referenced without checking that it is published", p)
    for f in c.fns(CONS + "::DereferenceEvent"):
        a = inp(f["p"][0]["n"])
        for p in c.run(f, opaque=opq_txl, hooks=hooks):
            if p.out != "ret": continue
            t = tev(p)
            seq = [x[0] for x in t]
            c.check("R2", seq == ["DereferenceTransactionBegin", "rmw", "DereferenceTransactionCommit"] and all(x[1] == a for x in t), name(f), fwhere(f), "log/slot sequence is %s on %s" % (seq, [show(x[1]) for x in t]), p)
    for f in c.fns(CONS + "::DereferenceEventWithoutTransactionLogging"):
        a = inp(f["p"][0]["n"])
        for p in c.run(f, opaque=opq_txl, hooks=hooks):
            if p.out != "ret": continue
            t = tev(p)
            c.check("R2", [x[0] for x in t] == ["rmw"] and t[0][1] == a, name(f), fwhere(f), "operations: %s" % [x[0] for x in t], p)
            for k, ix, i, e in t:
                if k == "rmw":
                    c.check("R1", ((e.op == "-" and e.arg == K(1)) or (e.op == "+" and e.arg == K(2**64 - 1))) and releases(e.order) and acquires(e.order), name(f), e.where(), "reader count change is %s%s" % (e.op, show(e.arg)), p)


@prop("P03", SLOTTU, ["util"])
def p03(c):
    c.rule("R1", "the event handed out lies strictly inside the requested window and no other published event seen in that search is newer within the window")
    c.rule("R2", "the number of new events counts exactly the published slots newer than the reference time")
    hooks = slothooks.status_hooks()
    TSMAX = 2**32 - 1
    for f in c.fns(CONS + "::ReferenceNextEvent"):
        lo, hi = [inp(x["n"]) for x in f["p"][:2]]
        # full path sensitivity on the predicate: meaning of the window test from its own body
        for p in c.run(f, opaque=lambda sq, g: opq_txl(sq, g), hooks=hooks):
            if p.out != "ret" or hasval(p) is not True or "widened" in p.st.flags: continue
            I, st = p.I, p.st
            taken = [e for e in p.tr if e.k == "cas" and e.ok in (True, TRUE) and idx_of(e.p) is not None]
            if len(taken) != 1: continue
            v = taken[0].exp
            first = max([i for i, e in enumerate(p.tr) if e.k == "cas" and e.ok not in (True, TRUE)] + [-1])
            loads = [e.v for e in p.tr[first + 1:] if e.k == "aload" and idx_of(e.p) is not None]
            tsf = lambda x: bits(I, st, x, 32, 32)
            # translate the window facts into order facts on timestamps
            s = st.copy()
            inwin = {}
            for t, b in st.f.items():
                if t[0] == "pred" and t[1] == "IsTimeStampBetween":
                    inwin.setdefault(t[2], []).append((t[3], t[4], b))
                    if b:
                        I.assume(s, lt(I, s, t[3], tsf(t[2])), True); I.assume(s, lt(I, s, tsf(t[2]), t[4]), True)
            c.check("R1", I.truth(s, lt(I, s, lo, tsf(v))) is True and I.truth(s, lt(I, s, tsf(v), hi)) is True, name(f), taken[0].where(), "chosen event is not known to lie in the window", p, inst="%s: chosen in window (%d slots scanned)" % (name(f), len(loads)))
            for w in loads:
                if w == v: continue
                bad = True
                for l, h, b in inwin.get(w, []):
                    # outside (l, hi) with l <= chosen timestamp: not newer; inside: not newer if below the chosen one
                    if not b and h == hi and (l == tsf(v) or I.truth(s, lt(I, s, l, tsf(v))) is True or l == lo and I.truth(s, lt(I, s, lo, tsf(v))) is True):
                        bad = False
                    if b and I.truth(s, lt(I, s, tsf(v), tsf(w))) is False:
                        bad = False
                c.check("R1", not bad, name(f), taken[0].where(), "another published event of the window may be newer than the chosen one", p, inst="%s: not older than the other slot seen" % name(f))
    for f in c.fns(CONS + "::GetNumNewEvents"):
        rt = inp(f["p"][0]["n"])
        for p in c.run(f, hooks=hooks):
            if p.out != "ret" or "widened" in p.st.flags: continue
            loads = [e.v for e in p.tr if e.k == "aload"]
            n = 0; unknown = False
            for w in loads:
                r = [b for t, b in p.st.f.items() if t[0] == "pred" and t[1] == "IsTimeStampBetween" and t[2] == w and t[3] == rt and t[4] == K(TSMAX)]
                if len(r) != 1: unknown = True
                elif r[0]: n += 1
            c.check("R2", not unknown and p.ret == K(n), name(f), fwhere(f), "counts %s for %d matching slots" % (show(p.ret), n), p, inst="%d of %d slots" % (n, len(loads)))


@prop("P04", SLOTTU, ["util"])
def p04(c):
    c.rule("R1", "a slot is only claimed for writing by swapping exactly the status that was seen as unused (never published, or published without readers and not being written) for the being-written status")
    c.rule("R2", "the slot handed to the writer is the one claimed; without a successful claim nothing is handed out")
    c.rule("R3", "publishing stores the given timestamp with no readers, with release ordering, on the given slot")
    c.rule("R4", "withdrawing an allocation only resets a slot that is still being written; recovery resets exactly the slots left being written")
    c.rule("R5", "among the reusable slots the one with the oldest timestamp is chosen unless a never-published one exists")
    hooks = slothooks.status_hooks()
    INW = 0xFFFFFFFF
    rb = lambda I, st, v: bits(I, st, v, 0, 32)
    for f in c.fns(PROV + "::AllocateNextSlot"):
        for p in c.run(f, hooks=hooks, maxpaths=60000, loops=1):
            if p.out != "ret": continue
            I, st = p.I, p.st
            acc = [e for i, e in slot_places(p) if e.k != "aload"]
            for e in acc:
                if e.k != "cas":
                    c.bad("R1", name(f), e.where(), "slot changed other than by compare-and-swap", p); continue
                seen = st.f.get(("pred", "IsInvalid", e.exp)) is True
                free = I.rel(st, "==", rb(I, st, e.exp), K(0)) is True or st.f.get(("pred", "IsUsed", e.exp)) is False
                notw = st.f.get(("pred", "IsInWriting", e.exp)) is False or st.f.get(("pred", "IsUsed", e.exp)) is False
                lv = [x for x in p.tr if x.k == "aload" and x.v == e.exp]
                if "widened" in st.flags and not lv: continue
                c.check("R1", (seen or (free and notw)) and e.des == K(INW) and lv and idx_of(lv[0].p) == idx_of(e.p) and acquires(e.order), name(f), e.where(),
                        "claims slot %s: expected %s, new %s, seen unused: %s" % (show(idx_of(e.p)), show(e.exp), show(e.des), bool(seen or (free and notw))), p, inst=name(f) + (" invalid slot" if seen else " reusable slot"))
            won = [e for e in acc if e.k == "cas" and e.ok in (True, TRUE)]
            if hasval(p) is True:
                c.check("R2", len(won) == 1 and idx_of(won[0].p) == val(p), name(f), fwhere(f), "hands out %s, claimed %s" % (show(val(p)), [show(idx_of(x.p)) for x in won]), p, inst=name(f) + " hands out claimed slot")
            else:
                c.check("R2", not won, name(f), fwhere(f), "keeps a claimed slot without handing it out", p, inst=name(f) + " nothing claimed")
    for f in c.fns(PROV + "::FindOldestUnusedSlot") if c.db.byq.get(PROV + "::FindOldestUnusedSlot") else []:
        for p in c.run(f, hooks=hooks):
            if p.out != "ret" or "widened" in p.st.flags or hasval(p) is not True: continue
            I, st = p.I, p.st
            loads = [e for e in p.tr if e.k == "aload"]
            chosen = [e for e in loads if idx_of(e.p) == I.read(st, ("F", ("F", p.ret[1], "#val"), "slot_index"))]
            if len(chosen) != 1: 
                c.bad("R5", name(f), fwhere(f), "result is not one of the scanned slots", p); continue
            v = chosen[0].v
            if st.f.get(("pred", "IsInvalid", v)) is True:
                c.ok("R5", "never-published slot chosen"); continue
            for e in loads:
                if e.v == v: continue
                w = e.v
                excl = I.rel(st, "==", rb(I, st, w), K(0)) is False or st.f.get(("pred", "IsInWriting", w)) is True or st.f.get(("pred", "IsUsed", w)) is True
                older = I.truth(st, lt(I, st, bits(I, st, w, 32, 32), bits(I, st, v, 32, 32)))
                c.check("R5", st.f.get(("pred", "IsInvalid", w)) is not True and (excl or older is False), name(f), fwhere(f), "an older reusable slot may have been passed over", p, inst="oldest reusable slot chosen")
    for f in c.fns(PROV + "::EventReady"):
        ix, ts = [inp(x["n"]) for x in f["p"]]
        for p in c.run(f, hooks=hooks):
            if p.out != "ret": continue
            a = [e for i, e in slot_places(p) if e.k != "aload"]
            ok = len(a) == 1 and a[0].k == "astore" and idx_of(a[0].p) == ix and releases(a[0].order)
            v = a[0].v if a else K(0)
            c.check("R3", ok and rb(p.I, p.st, v) == K(0) and bits(p.I, p.st, v, 32, 32) == ts, name(f), fwhere(f), "publishes %s" % (show(v)), p)
    for f in c.fns(PROV + "::Discard"):
        ix = inp(f["p"][0]["n"])
        for p in c.run(f, hooks=hooks):
            if p.out != "ret": continue
            ld = [e for e in p.tr if e.k == "aload" and idx_of(e.p) == ix]
            w = [e for i, e in slot_places(p) if e.k != "aload"]
            inw = any(p.st.f.get(("pred", "IsInWriting", e.v)) is True or (e.k == "cas") for e in ld) or any(e.k == "cas" and e.exp == K(INW) for e in w)
            c.check("R4", all(idx_of(e.p) == ix and (e.v if e.k == "astore" else e.des) == K(0) for e in w) and bool(w) == bool(inw), name(f), fwhere(f), "slot %s in writing: %s, writes: %d" % (show(ix), inw, len(w)), p, inst=name(f) + (" resets" if w else " leaves alone"))
    for f in c.fns(PROV + "::RemoveAllocationsForWriting"):
        for p in c.run(f, hooks=hooks):
            if "widened" in p.st.flags: continue
            ld = [e for e in p.tr if e.k == "aload" and idx_of(e.p) is not None]
            w = [e for i, e in slot_places(p) if e.k != "aload"]
            for e in ld:
                inw = p.st.f.get(("pred", "IsInWriting", e.v))
                mine = [x for x in w if idx_of(x.p) == idx_of(e.p)]
                good = all((x.v if x.k == "astore" else x.des) == K(0) for x in mine) and (inw is not None) and (bool(mine) == inw)
                c.check("R4", good, name(f), e.where(), "slot being written: %s, writes: %d" % (inw, len(mine)), p, inst=name(f) + (" resets" if mine else " leaves alone"))
