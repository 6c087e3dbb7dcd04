"""Message passing client connection."""
import re
from core import *
from absint import St
from db import CheckError
MP = "score::message_passing::"


class PathLike:
    def __init__(self, I, st, fn, what):
        self.I, self.st, self.tr, self.out, self.ret, self.fn, self.what = I, st, st.tr, "ret", None, fn, what


def closures(c, p, roots=("A", "P", "G")):
    """closures left reachable by a path: stored in non-local memory, or handed to an opaque callee -> {lam id: (state, place)}"""
    out = {}
    for k, v in p.st.m.items():
        if k[0] == "F" and k[2] == "#lam" and root(k[1])[0] in roots:
            q = k[1]
            while q[0] == "F" and str(q[2]).startswith("#"): q = q[1]
            out.setdefault((v, q[2] if q[0] == "F" else "stored"), (p.st, k[1]))
    for e in p.tr:
        s = e.d.get("st")
        if s is None or e.k not in ("call", "invoke", "queued"): continue
        for a in (e.d.get("ap") or ()):
            if a is None: continue
            for k, v in s.m.items():
                if k[0] == "F" and k[2] == "#lam" and under(k[1], a):
                    q = k[1]
                    while q[0] == "F" and str(q[2]).startswith("#"): q = q[1]
                    out.setdefault((v, q[2] if q[0] == "F" else e.f), (s, k[1]))
    return out


def called(e):
    """functions called directly in the body of a closure"""
    out = set()

    def walk(x):
        if isinstance(x, dict):
            if x.get("k") == "call" and isinstance(x.get("f"), dict) and x["f"].get("q"): out.add(x["f"]["q"])
            for y in x.values(): walk(y)
        elif isinstance(x, list):
            for y in x: walk(y)
    walk(e.get("body")); walk(e.get("inst"))
    return out


def run_closure(c, I, src, place, what, nargs=None, keep=()):
    """run a closure with unknown arguments from an arbitrary later state of everything but its captures"""
    lam = src.m[("F", place, "#lam")]
    e, sq, file = I.lams[lam[1]]
    st = St()
    for k, v in src.m.items():
        q = k[1] if k[0] == "B" else k
        if k[0] != "R" and (under(q, place) or any(under(q, x) for x in keep)):
            st.m[k] = v
    st.n = src.n + 1000
    body = e
    ps = e["p"]
    if e.get("generic"):
        ins = list(e.get("inst", ()))
        if not ins: raise CheckError("closure in %s is never instantiated" % sq)
        ps = ins[0]["p"]
    vs = []
    for i, q in enumerate(ps):
        vs.append(("ref", ("A", "arg%d" % i)) if I.is_class(q["t"]) or q["t"].endswith("&") else ("in", ("A", "arg%d" % i)))
    I.fin = []; I.stack = []; I.frame = None; I.steps = 0
    I.cur = (sq, file, e["l"])
    r = I.call_lambda(st, place, vs, [])
    if r is None: raise CheckError("cannot interpret the closure in %s" % sq)
    for x in I.functions_seen: c.functions.add(x[0])
    c.paths += len(r); c.entries += 1
    fn = {"sq": "closure in " + sq, "q": "closure in " + sq, "file": file, "l": e["l"], "p": ps}
    return [PathLike(I, s, fn, what) for s, v in r], lam[1]


@prop("P17", ["score/message_passing/*.cpp"], ["util"])
def p17(c):
    c.rule("R1", "a message is transmitted or queued only if it fits the negotiated size and the connection is ready, it is the message given, and success is reported exactly then; a refused message has no effect and the documented error")
    c.rule("R2", "every queue element taken from the free pool or the send queue goes back to one of them exactly once")
    c.rule("R3", "no callback is run while the connection's lock is held, and no empty callback is run")
    c.rule("R4", "a connection reports stopped only after it is detached from the engine, its descriptor is closed, and every pending and queued request was answered with an error exactly once")
    c.rule("R5", "waiting for a reply is refused on the callback thread; the reply copied never exceeds the caller's buffer, the result covers what was copied, and the caller's buffer is not reachable any more when it returns")
    c.rule("R6", "the first stop reason wins: it only changes from none by compare-and-swap, only the winner starts stopping, and the winner always brings the connection down")
    c.rule("R7", "destruction ends only after the connection was seen stopped and the final state callback has finished")
    c.rule("R8", "pending reply, send queue and free pool are only touched under the lock")
    c.rule("R9", "a queued message is always waited for: whenever the lock is given up, the queue is empty or a reply is outstanding; arming never displaces an outstanding reply")
    c.rule("R10", "a peer's message is handled by its kind: a reply completes the outstanding request, a notification goes to the notification callback, everything else, a lost peer and an unexpected reply stop the connection")
    c.rule("R12", "a call that made its reply callback reachable and gave up the lock returns without waiting only after seeing, under the lock again, that the callback is still its own")
    c.rule("R11", "the connection becomes ready only with a descriptor obtained from the engine and its endpoint handed over for registration; failed attempts either retry or stop")
    N = MP + "detail::ClientConnection"
    W, MX = c.field(N, "^std::optional<score::cpp::callback"), c.field(N, "^std::mutex$")
    STA, RES = c.field(N, "atomic<.*::State>"), c.field(N, "atomic<.*StopReason>")
    MAXS = inp("this", "max_send_size_")
    TH = ("A", "this")
    lists = c.field(N, "intrusive_list<", 2)
    SIZE = None
    pool = None
    ctor = [f for f in c.fns(N + "::ClientConnection") if len(f["p"]) == 3]
    for f in ctor:
        for p in c.run(f, opaque=OPQ):
            for i, e in evs(p, "call"):
                if e.f.endswith("::assign") and e.o is not None and e.o[0] == "F" and e.o[2] in lists: pool = e.o[2]
                if e.f.endswith("::push_back") and e.o is not None and e.o[0] == "F" and e.o[2] in lists: pool = e.o[2]
            for k, v in p.st.m.items():
                if k[0] == "F" and k[1] == TH and v == inp(f["p"][1]["n"], "max_send_size"): SIZE = k[2]
            c.check("R6", p.I.read(p.st, ("F", ("F", TH, STA), "#v")) == K(enum(c, "IClientConnection::State", "kStopped")), name(f), fwhere(f), "does not start out stopped", p, inst="initial state")
    if pool is None or SIZE is None: raise CheckError("anchor vanished: pool or size limit of " + N)
    MAXS = inp("this", SIZE)
    queue = [x for x in lists if x != pool][0]
    Wp, Qp, Pp, Mp, Sp, Rp = (("F", TH, x) for x in (W, queue, pool, MX, STA, RES))
    S = {x: K(enum(c, "IClientConnection::State", x)) for x in ("kStarting", "kReady", "kStopping", "kStopped")}
    SR = {x: K(enum(c, "IClientConnection::StopReason", x)) for x in ("kNone", "kUserRequested", "kClosedByPeer", "kIoError", "kPermission")}
    snap = lambda kind, sq: kind == "invoke" or sq.endswith("EnqueueCommand") or sq.endswith("SendProtocolMessage") or sq.endswith("RegisterPosixEndpoint")
    kw = dict(opaque=OPQ, snap=snap, record_reads=True, maxpaths=60000)
    entries, seen = [], set()
    hooks = {f["sq"]: (lambda I, st, e, op, vs: [(st, ("void",))]) for f in c.db.F.values() if re.match(MP + r"Log(Debug|Info|Warn|Error|Fatal)$", f["sq"])}

    def entry(m, f, ps):
        entries.append((m, f, ps))
        todo = ps
        while todo:
            nxt = []
            for p in todo:
                for (v, w), (s, pl) in closures(c, p).items():
                    e, sq, file = p.I.lams[v[1]]
                    if not sq.startswith(N) or v[1] in seen: continue
                    if not any(x["k"] == "this" for x in e.get("cap", ())): continue
                    seen.add(v[1])
                    qs, lid = run_closure(c, p.I, s, pl, w)
                    entries.append(("closure", qs[0].fn if qs else p.fn, qs)); nxt += qs
                    if qs and all(any(x.k == "astore" and x.p == Sp and x.v == S["kStopped"] for x in q.tr) for q in qs):
                        stopclosures.add(e["l"])
                        for g in called(e):        # the member function that tears the connection down: decided here, a step elsewhere
                            if g.startswith(N + "::"): hooks[g] = lambda I, st, e, op, vs: (I.emit(st, "teardown"), [(st, VOID)])[1]
            todo = nxt
    for f in c.fns(N + "::SendWaitReply"):
        for p in c.run(f, relock=True, **kw):
            pub = [i for i, e in evs(p, "call") if e.f.endswith("::SendProtocolMessage")]
            if p.out != "ret" or not pub: continue
            gave = any(e.k == "unlock" and e.m == Mp for e in p.tr[:pub[0]])
            waited = any(e.k == "cvwait" for e in p.tr)
            own = any(b and t[0] == "op" and t[1] == "==" and any(x and x[0] == "addr" and root(x[1])[0] in ("L", "T") for x in subterms(t)) for t, b in p.st.f.items())
            c.check("R12", waited or not gave or own, name(f), fwhere(f), "returns without waiting although the reply callback may just be running on another thread", p, inst="gave %s waited %s own %s" % (gave, waited, own))
    stopclosures = set()
    for m in ("Stop", "Send", "SendWaitReply", "SendWithCallback", "GetState", "GetStopReason", "Start", "Restart", "~ClientConnection"):
        for f in c.fns(N + "::" + m):
            entry(m, f, c.run(f, hooks=hooks, **kw))
    c.notes.append("entries: " + ", ".join("%s (%d paths)" % (m, len(ps)) for m, f, ps in entries))
    dis = [(m, f, ps) for m, f, ps in entries for p in ps[:1] if getattr(p, "what", "") == "disconnect"]
    if not dis: raise CheckError("anchor vanished: no disconnect handler is registered")
    for m, f, ps in dis:
        for p in ps:
            c.check("R6", any(e.k == "teardown" or e.k == "astore" and e.p == Sp and e.v == S["kStopped"] for e in p.tr), name(f), fwhere(f), "losing the endpoint does not bring the connection down", p, inst="disconnect handler")
    for m, f, ps in entries:
        for p in ps: client_path(c, m, f, p, dict(N=N, Wp=Wp, Qp=Qp, Pp=Pp, Mp=Mp, Sp=Sp, Rp=Rp, S=S, SR=SR, MAXS=MAXS, stop=stopclosures, NC=c.field(N, r'^score::cpp::callback<void \(score::cpp::span'), REPLY=K(enum(c, 'ServerToClient', 'REPLY')), NOTIFY=K(enum(c, 'ServerToClient', 'NOTIFY'))))


OPQ = lambda sq, g: "::Log" in sq or "LogWarnOnTimeout" in sq


def client_path(c, m, f, p, D):
    I, st = p.I, p.st
    Wp, Qp, Pp, Mp, Sp, Rp, S, SR = (D[k] for k in ("Wp", "Qp", "Pp", "Mp", "Sp", "Rp", "S", "SR"))
    w = fwhere(f); nm = name(f)
    if p.out == "abort": return
    T = lambda t: I.truth(st, t)
    msg = inp(f["p"][0]["n"]) if f["p"] else None
    held = 0
    bal = {}
    sends, queued, invoked, popped_q, waited, armed, armed_reply = [], [], [], [], False, False, False
    cas_ok = None; kstopping = kstopped = down = None
    cleanup = closed = None
    finalize = 0; last_state = None; fin_after = False
    wcur = ("fld", ("in", TH_), None)
    answered = []
    dirty = False
    is_dtor = m.startswith("~")
    for i, e in enumerate(p.tr):
        if e.k == "lock":
            if e.m == Mp: held += 1
            elif "finalize" in str(e.m) or e.m[0] == "F" and root(e.m) != ("A", "this"):
                finalize += 1
                if last_state == S["kStopped"]: fin_after = True
        elif e.k == "unlock":
            if e.m == Mp: held -= 1
            else: finalize -= 1
        elif e.k == "cvwait": waited = True
        elif e.k in ("aload",) and e.p == Sp:
            last_state = S["kStopped"] if T(I.binop(st, "==", e.v, S["kStopped"])) is True else e.v
            fin_after = False
        elif e.k in ("rd", "wr") and e.p is not None and (under(e.p, Wp) or under(e.p, Qp) or under(e.p, Pp)):
            c.check("R8", held > 0 or is_dtor, nm, e.where(), "%s is touched without the lock" % show(mkaddr(e.p)), p, inst="%s %s" % (m, show(mkaddr(e.p))[:40]))
        if e.k == "call":
            fn = e.f.rsplit("::", 1)[-1]
            if e.o is not None and (e.o == Qp or e.o == Pp):
                c.check("R8", held > 0 or is_dtor and not D.get("x"), nm, e.where(), "%s of %s without the lock" % (fn, show(mkaddr(e.o))), p, inst="%s %s %s" % (m, fn, show(mkaddr(e.o))))
                if fn.startswith("pop_"):
                    el = e.d.get("el"); bal[e.o] = bal.get(e.o, 0) - 1; dirty = True
                    if e.o == Qp: popped_q.append(e)
                elif fn.startswith("push_"):
                    bal[e.o] = bal.get(e.o, 0) + 1; dirty = True
                    if e.o == Qp: queued.append((i, e))
            if fn == "SendProtocolMessage": sends.append((i, e))
            elif fn == "CleanUpOwner": cleanup = i
            elif fn == "CloseClientConnection": closed = i
            elif fn == "UnregisterPosixEndpoint": down = i
            elif fn == "assert_fail_dbg" and m in ("Send", "SendWaitReply", "SendWithCallback"):
                c.bad("R9", nm, e.where(), "sending is armed although a reply is still outstanding", p)
            elif fn == "EnqueueCommand":
                lam = [v for k, v in e.d["st"].m.items() if e.d.get("ap") and len(e.d["ap"]) > 2 and e.d["ap"][2] and k[0] == "F" and k[2] == "#lam" and under(k[1], e.d["ap"][2])]
                if any(I.lams[v[1]][0]["l"] in D["stop"] for v in lam): down = i
        if e.k == "teardown": down = i
        if e.k == "invoke":
            invoked.append((i, e))
            c.check("R3", held == 0, nm, e.where(), "a callback is run while the connection's lock is held", p, inst="%s runs %s" % (m, show(e.fnv)[:50]))
            s = e.d.get("st") or st
            cb = e.fnv
            setv = I.truth(s, ("fld", cb, "#set"))
            c.check("R3", setv is True, nm, e.where(), "%s is run without having been seen callable" % show(cb), p, inst="%s callable %s" % (m, show(cb)[:50]))
        if e.k == "cas" and e.p == Rp:
            if e.d.get("ok"): cas_ok = (i, e)
        if e.k in ("astore", "cas", "rmw") and e.p == Rp:
            if e.k == "astore":
                c.check("R6", e.v == SR["kNone"] and (m == "Start" or m == "Restart" and last_state == S["kStopped"]), nm, e.where(), "the stop reason is overwritten with %s" % show(e.v), p, inst="%s clears the reason" % m)
            elif e.k == "cas":
                c.check("R6", T(I.binop(st, "==", e.exp, SR["kNone"])) is True and T(I.binop(st, "==", e.des, SR["kNone"])) is False, nm, e.where(), "the stop reason changes from %s to %s" % (show(e.exp), show(e.des)), p, inst="%s sets the reason" % m)
            else: c.bad("R6", nm, e.where(), "the stop reason is modified", p)
        if e.k == "astore" and e.p == Sp:
            if e.v == S["kStopping"]:
                c.check("R6", cas_ok is not None, nm, e.where(), "stopping starts without having set the stop reason", p, inst="%s stopping" % m); kstopping = i
            if e.v == S["kStopped"]: kstopped = i
            if e.v == S["kReady"]:
                c.check("R11", any(x.k == "call" and (x.f.endswith("::RegisterPosixEndpoint") or x.f.endswith("::EnqueueCommand") and any(y.k == "call" and y.f.endswith("TryOpenClientConnection") for y in p.tr[:j])) for j, x in enumerate(p.tr[:i])), nm, e.where(), "ready without a registered endpoint", p, inst="%s ready" % m)
    # conservation
    if not is_dtor and dirty:
        c.check("R2", sum(bal.values()) == 0, nm, w, "%d queue elements are taken and not returned" % -sum(bal.values()), p, inst="%s balance" % m)
    # outcome of send requests
    if m in ("Send", "SendWaitReply", "SendWithCallback"):
        big = T(I.binop(st, "<", D["MAXS"], ("fld", msg, "#size")))
        rd = [e.v for e in p.tr if e.k == "aload" and e.p == Sp]
        ready = T(I.binop(st, "==", rd[-1], S["kReady"])) if rd else None
        for i, e in sends + queued:
            c.check("R1", big is False and ready is True, nm, e.where(), "a message is passed on although it was not seen to fit (too large: %s) on a ready connection (%s)" % (big, ready), p, inst=m + " guarded")
        for i, e in sends: c.check("R1", len(e.a) > 2 and e.a[2] == msg, nm, e.where(), "sends %s" % show(e.a[2]), p, inst=m + " message")
        c.check("R1", len(sends) + len(queued) <= 1, nm, w, "the message is sent or queued more than once", p, inst=m + " once")
        for i, e in queued:
            asg = [x for j, x in evs(p, "call") if j < i and x.f.endswith("::assign") and x.o is not None and "message" in str(x.o) or j < i and x.f.endswith("vector::operator=")]
            c.check("R1", any(show(msg) in show(a) for x in asg for a in x.a), nm, e.where(), "the queued element does not carry the message", p, inst=m + " queued message")
        hv = hasval(p)
        took = bool(queued) or any(has_of(I, st, e) is True for i, e in sends)
        if m != "SendWaitReply" and hv is not None:
            c.check("R1", hv == took, nm, w, "reports %s although the message was %s" % ("success" if hv else "an error", "accepted" if took else "not accepted"), p, inst=m + " honest")
        elif m != "SendWaitReply" and not queued and len(sends) == 1:
            r = I.read(st, ("F", p.ret[1], "#has"))
            c.check("R1", r == ("fld", sends[0][1].res, "#has"), nm, w, "reports something else than the outcome of sending", p, inst=m + " honest")
        elif m != "SendWaitReply": c.bad("R1", nm, w, "reports %s" % show(p.ret), p)
        if not took and not sends and (hv is False or m == "SendWaitReply"):
            err = I.read(st, ("F", p.ret[1], "#err"))
            call = [e for e in p.tr if e.k == "call" and e.f.endswith("createFromErrno")]
            code = call[-1].a[0][1] if call and isc(call[-1].a[0]) else None
            incb = [e for e in p.tr if e.k == "call" and e.f.endswith("IsOnCallbackThread")]
            cbk = m == "SendWaitReply" and any(T(e.res) is True for e in incb)
            want = 11 if cbk else 90 if big is True else 22 if ready is False else 105
            c.check("R1", code == want, nm, w, "refused with error %s, expected %s" % (code, want), p, inst="%s refusal %d" % (m, want))
            c.check("R1", not dirty and not any(e.k == "wr" and under(e.p, ("A", "this")) for e in p.tr), nm, w, "a refused message has an effect", p, inst="%s refusal without effect" % m)
        if m == "SendWaitReply":
            incb = [j for j, e in evs(p, "call") if e.f.endswith("IsOnCallbackThread") and T(e.res) is False]
            for i, e in sends + queued: c.check("R5", incb and incb[0] < i, nm, e.where(), "waits for a reply without having excluded the callback thread", p, inst=m + " off the callback thread")
            left = [k for k, v in st.m.items() if k[0] == "F" and k[2] == "#lam" and under(k[1], ("A", "this")) and any(kk[0] == "F" and kk[1] == k[1] and str(kk[2]).startswith("#ref") for kk in st.m)]
            if not waited:
                live = [k for k in left if not (under(k[1], Wp) and T(I.read(st, ("F", Wp, "#has"))) is False) and not (root(k[1]) == ("A", "this") and k[1][0] == "F" and pool_elem(k[1], Pp))]
                c.check("R5", not live, nm, w, "returns while its reply callback can still run: %s" % [show(mkaddr(k[1])) for k in live][:2], p, inst=m + " callback gone")
            else: c.ok("R5", m + " waits")
            for i, e in sends + queued: reply_callback(c, nm, f, p, e, st)
    opn = [(i, e) for i, e in evs(p, "call") if e.f.endswith("::TryOpenClientConnection")]
    if opn:
        i0, e = opn[0]
        tried = [x for x in p.tr[i0:] if x.k in ("aload", "cas") and x.p == Rp]
        des = [x.des for x in p.tr[i0:] if x.k == "cas" and x.p == Rp]
        enq = [x for x in p.tr[i0:] if x.k == "call" and x.f.endswith("::EnqueueCommand") and down != p.tr.index(x)]
        reg = [x for x in p.tr[i0:] if x.k == "call" and x.f.endswith("::RegisterPosixEndpoint")]
        if has_of(I, st, e) is True:
            PE = ("F", TH_, [x["n"] for x in c.db.cls(D["N"])[0]["fields"] if x["t"].endswith("PosixEndpointEntry")][0])
            fdv = ("fld", e.res, "#val")
            c.check("R11", len(reg) + len(enq) == 1, nm, w, "the endpoint is not handed over for registration exactly once", p, inst="%s registered" % m)
            wrs = {x.p: x.v for x in p.tr[i0:] if x.k == "wr"}
            c.check("R11", wrs.get(("F", PE, "fd")) == fdv, nm, w, "the endpoint is registered with descriptor %s" % show(wrs.get(("F", PE, "fd")) or K(0)), p, inst="%s endpoint descriptor" % m)
            c.check("R11", any(wrs.get(("F", TH_, x["n"])) == fdv for x in c.db.cls(D["N"])[0]["fields"]), nm, w, "the descriptor obtained is not kept", p, inst="%s descriptor kept" % m)
            c.check("R11", wrs.get(("F", PE, "owner")) in (mkaddr(TH_), inp("this")), nm, w, "the endpoint does not belong to the connection", p, inst="%s endpoint owner" % m)
            ready = [x for x in p.tr[i0:] if x.k == "astore" and x.p == Sp and x.v == S["kReady"]]
            c.check("R11", len(ready) == 1, nm, w, "connected but not ready", p, inst="%s becomes ready" % m)
        else:
            codes = [x.res for i, x in evs(p, "call") if x.f.endswith("GetOsDependentErrorCode")]
            retry = any(T(I.binop(st, "==", x, K(v))) is True for x in codes for v in (11, 111, 2))
            acc = any(T(I.binop(st, "==", x, K(13))) is True for x in codes)
            c.check("R11", (len(enq) == 1 and not tried) if retry else (bool(tried) and not enq), nm, w, "a failed attempt (can be repeated: %s) %s" % (retry, "is not repeated" if not enq else "is repeated %d times" % len(enq)), p, inst="%s failed attempt, repeat %s" % (m, retry))
            c.check("R11", all(x == (SR["kPermission"] if acc else SR["kIoError"]) for x in des), nm, w, "stops with reason %s (permission denied: %s)" % ([show(x) for x in des], acc), p, inst="%s failed attempt reason" % m)
            c.check("R11", not reg and not [x for x in p.tr[i0:] if x.k == "astore" and x.p == Sp and x.v == S["kReady"]], nm, w, "ready although no connection was opened", p, inst="%s failed attempt not ready" % m)
    rcv = [e for i, e in evs(p, "call") if e.f.endswith("::ReceiveProtocolMessage")]
    if rcv:
        e = rcv[0]
        got = has_of(I, st, e)
        tried = [x for x in p.tr if x.k in ("aload", "cas") and x.p == Rp]
        des = [x.des for x in tried if x.k == "cas"]
        runs = [x.fnv for i, x in invoked]
        wv = ("fld", ("fld", inp("this"), Wp[2]), "#val")
        if got is False:
            code = [x.res for i, x in evs(p, "call") if x.f.endswith("GetOsDependentErrorCode")]
            again = any(T(I.binop(st, "==", x, K(11))) is True for x in code); pipe = any(T(I.binop(st, "==", x, K(32))) is True for x in code)
            want = SR["kClosedByPeer"] if pipe else SR["kIoError"]
            c.check("R10", bool(tried) != again and all(x == want for x in des), nm, w, "a failed reception (try again: %s, peer gone: %s) %s" % (again, pipe, "does not stop the connection" if not tried else "stops it with reason %s" % [show(x) for x in des]), p, inst="failed reception %s %s" % (again, pipe))
            c.check("R10", not [x for x in runs if "state_callback" not in show(x)], nm, w, "runs a callback although nothing was received", p, inst="failed reception runs nothing")
        else:
            code = I.read(st, e.ap[1]) if e.ap[1] is not None else None
            rep = T(I.binop(st, "==", code, D["REPLY"])); not_ = T(I.binop(st, "==", code, D["NOTIFY"]))
            body = [x for x in runs if "state_callback" not in show(x)]
            has = T(("fld", ("fld", inp("this"), Wp[2]), "#has"))
            if rep is True:
                mine = [x for x in body if x == wv]
                cal = T(("fld", wv, "#set"))
                if has is True and cal is not False: c.check("R10", len(mine) == 1 and not tried, nm, w, "a reply completes the outstanding request %d times%s" % (len(mine), ", and stops the connection" if tried else ""), p, inst="expected reply")
                else: c.check("R10", not mine and tried and all(x == SR["kIoError"] for x in des), nm, w, "an unexpected reply is accepted", p, inst="unexpected reply")
                for i, x in invoked:
                    if x.fnv == wv:
                        s = x.d.get("st") or st
                        c.check("R10", x.ap and x.ap[0] is not None and I.truth(s, I.read(s, ("F", x.ap[0], "#has"))) is True and I.read(s, ("F", x.ap[0], "#val")) == ("fld", e.res, "#val"), nm, x.where(), "the reply handed over is not the message received", p, inst="reply handed over")
            elif not_ is True:
                c.check("R10", not tried and len(body) <= 1 and all(x == inp("this", D["NC"]) for x in body) and (bool(body) or T(("fld", inp("this", D["NC"]), "#set")) is False), nm, w, "a notification runs %s" % [show(x) for x in body], p, inst="notification")
                for i, x in invoked:
                    if x.fnv == inp("this", D["NC"]): c.check("R10", x.a and x.a[0] == ("fld", e.res, "#val"), nm, x.where(), "the notification handed over is not the message received: %s" % show(x.a[0]), p, inst="notification handed over")
            else:
                c.check("R10", rep is False and not_ is False and tried and not body and all(x == SR["kIoError"] for x in des), nm, w, "a message of unknown kind is accepted", p, inst="unknown kind")
    # answers at stop
    if kstopped is not None:
        c.check("R4", cleanup is not None and cleanup < kstopped, nm, w, "reports stopped while still known to the engine", p, inst="%s detached" % m)
        c.check("R4", closed is not None and closed < kstopped or any(T(I.binop(st, "==", inp("this", n), K(-1))) is True for n in [x["n"] for x in c.db.cls(D["N"])[0]["fields"] if x["t"] == "int"]), nm, w, "reports stopped with an open descriptor", p, inst="%s closed" % m)
        errs = [e for i, e in invoked if i < kstopped and "state_callback" not in show(e.fnv) and e.ap and e.ap[0] is not None]
        neg = [e for e in errs if I.truth(e.d.get("st") or st, I.read(e.d.get("st") or st, ("F", e.ap[0], "#has"))) is False]
        c.check("R4", len(neg) == len(errs), nm, w, "a pending request is answered with something else than an error", p, inst="%s error" % m)
        want = []
        wv = ("fld", ("fld", inp("this"), Wp[2]), "#val")
        if T(("fld", ("fld", inp("this"), Wp[2]), "#has")) is True and T(("fld", wv, "#set")) is not False: want.append(wv)
        got = [e.fnv for e in neg]
        for x in want: c.check("R4", got.count(x) == 1, nm, w, "the outstanding request is answered %d times" % got.count(x), p, inst="%s outstanding answered" % m)
        nq = len(popped_q)
        setq = [t for t, b in st.f.items() if b and t[0] == "fld" and t[2] == "#set" and Qp[2] in show(t)]
        c.check("R4", len([x for x in got if Qp[2] in show(x)]) == len(setq), nm, w, "%d of %d queued requests are answered" % (len([x for x in got if Qp[2] in show(x)]), len(setq)), p, inst="%s queued answered" % m)
        sz = I.read(st, ("F", Qp, "#size"))
        c.check("R4", T(I.binop(st, "==", sz, K(0))) is True, nm, w, "messages stay queued", p, inst="%s queue drained" % m)
        sc = [(i, e) for i, e in invoked if i > kstopped]
        c.check("R4", not any(T(("fld", e.fnv, "#set")) is False for i, e in sc), nm, w, "", p, inst="%s state callback" % m)
    if cas_ok is not None:
        c.check("R6", kstopping is not None and (down is not None or kstopped is not None), nm, w, "the stop reason is set but the connection is not brought down", p, inst="%s brought down" % m)
    if is_dtor:
        c.check("R7", last_state == S["kStopped"] and fin_after, nm, w, "destruction ends without the connection having been seen stopped and the final callback awaited", p, inst="destruction")
    # an answered request gives up the reply slot
    ww = [(i, e) for i, e in evs(p, "wr") if e.p == Wp]
    for i, e in invoked:
        if e.fnv == ("fld", ("fld", inp("this"), Wp[2]), "#val"):
            c.check("R9", ww, nm, e.where(), "a request is answered but keeps the reply slot", p, inst="%s slot given up" % m)
        elif Qp[2] in show(e.fnv) and ww and ww[-1][0] < i:
            c.check("R9", ww[-1][1].v[0] == "nullopt", nm, e.where(), "a request is answered but keeps the reply slot", p, inst="%s slot given up" % m)
    # queue is waited for
    touched = any(e.k == "wr" and under(e.p, Wp) for e in p.tr) or queued or popped_q
    if touched and not is_dtor:
        has = T(I.read(st, ("F", Wp, "#has"))); empty = T(I.binop(st, "==", I.read(st, ("F", Qp, "#size")), K(0)))
        if not queued and not popped_q and has is False and T(("fld", ("fld", inp("this"), Wp[2]), "#has")) is False and m != "SendWaitReply": return
        if waited: return
        c.check("R9", has is True or empty is True, nm, w, "messages may stay queued with nothing outstanding (outstanding %s, queue empty %s)" % (has, empty), p, inst="%s leaves nothing behind" % m)


TH_ = ("A", "this")


def pool_elem(pl, Pp):
    while pl[0] in ("F", "E"):
        if pl == Pp: return True
        pl = pl[1]
    return False


def has_of(I, st, e):
    return I.truth(st, ("fld", e.res, "#has"))


def reply_callback(c, nm, f, p, e, st):
    """the closure completing a request that waits for its reply, run at the moment it may first be called"""
    if "st" not in e.d: return
    I = p.I
    s0 = e.d["st"].copy()
    s0.tr = []
    pls = [k[1] for k, v in s0.m.items() if k[0] == "F" and k[2] == "#lam" and under(k[1], ("A", "this"))]
    buf = inp(f["p"][1]["n"])
    arg = ("A", "answer")
    for pl in pls:
        I.fin = []; I.stack = []; I.frame = None; I.steps = 0
        I.cur = (f["sq"], f["file"], f["l"])
        r = I.call_lambda(s0.copy(), pl, [("ref", arg)], [])
        if r is None: raise CheckError("cannot interpret the reply callback")
        for s, v in r:
            q = PathLike(I, s, f, "reply")
            ok = I.truth(s, ("fld", ("in", arg), "#has"))
            n = ("fld", ("fld", ("in", arg), "#val"), "#size")
            mc = [x for x in s.tr if x.k == "mem" and x.f in ("memcpy", "memmove")]
            fits = I.truth(s, I.binop(s, "<", ("fld", buf, "#size"), n))
            note = [x for x in s.tr if x.k == "notify"]
            c.check("R5", note, nm, e.where(), "the waiting caller is not woken by its answer", q, inst="reply wakes")
            for x in mc:
                c.check("R5", ok is True and fits is False and x.a[2] == n, nm, x.where(), "copies %s bytes of the reply without having seen that they fit" % show(x.a[2]), q, inst="reply copied")
            if ok is True and fits is False: c.check("R5", len(mc) == 1, nm, e.where(), "the reply is not copied", q, inst="reply copied once")
            if ok is not True or fits is not False: c.check("R5", not mc, nm, e.where(), "copies although there is no fitting reply", q, inst="no copy")
