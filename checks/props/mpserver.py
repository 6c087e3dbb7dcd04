"""Message passing on Linux: frames on the wire, timed commands of the engine, server connections and descriptors."""
from core import *
from absint import iovecs
from props.mpclient import closures, run_closure, called, MP
ENG = MP + "UnixDomainEngine"
SRV = MP + "detail::UnixDomainServer"
TCQ = MP + "detail::TimedCommandQueue"
TUS = ["score/message_passing/*.cpp", "score/message_passing/unix_domain/*.cpp"]
LOG = lambda sq, g: "::Log" in sq


def nolog(c):
    import re
    return {f["sq"]: (lambda I, st, e, op, vs: [(st, VOID)]) for f in c.db.F.values() if re.match(MP + r"Log(Debug|Info|Warn|Error|Fatal)$", f["sq"])}


def dep(t):
    """the underlying places of a term, spans copied to locals included"""
    return t


def span_parts(I, st, v):
    if v[0] in ("ref", "obj"):
        return I.read(st, ("F", v[1], "#data")), I.read(st, ("F", v[1], "#size"))
    return ("fld", v, "#data"), ("fld", v, "#size")


def plus(I, st, t, n):
    return I.binop(st, "+", t, K(n), "unsigned long")


@prop("P18", TUS, ["util"])
def p18(c):
    c.rule("R1", "a frame is sent by one system call that covers kind, exact length and the whole payload; success is reported exactly if all of it was sent, and a payload whose length cannot be represented is refused")
    c.rule("R2", "a message is delivered only if its header and its payload were received completely and the payload fits the receive buffer, which is never written beyond its end; everything else is an error")
    c.rule("R3", "the receive buffer is grown to what an endpoint may receive before that endpoint is polled, and every connection declares the size negotiated for its direction")
    c.rule("R4", "a server sends a reply or notification exactly if it fits the negotiated size, with its own kind, and reports the outcome of sending")
    c.rule("R5", "a server hands every request to the reply handler and every one-way message to the other, unchanged, and anything else ends the connection")
    snap = lambda k, sq: sq.endswith("::sendmsg") or sq.endswith("::recvmsg") or k == "invoke"
    hooks = nolog(c)
    # ---- sending
    for f in c.fns(ENG + "::SendProtocolMessage"):
        fd, code, msg = (x["n"] for x in f["p"])
        S, Dt = inp(msg, "#size"), inp(msg, "#data")
        for p in c.run(f, opaque=LOG, snap=snap):
            if p.out != "ret": continue
            I, st = p.I, p.st
            T = lambda t: I.truth(st, t)
            snd = calls(p, "sendmsg")
            hv = hasval(p)
            fits = T(I.binop(st, "<", K(65535), S))
            for i, e in snd:
                v = iovecs(I, e.d["st"], mkP(e.a[1]))
                s = e.d["st"]
                if v is None: raise CheckError("cannot follow the buffers handed to sendmsg in " + f["q"])
                v = [x for x in v if x[1] != FALSE]
                okc = len(v) == 3 and v[0][1] == K(1) and v[0][0][0] == "addr" and I.read(s, v[0][0][1]) == inp(code)
                c.check("R1", okc, name(f), e.where(), "the frame does not start with the kind", p, inst="kind")
                if len(v) == 3:
                    n = I.read(s, v[1][0][1]) if v[1][0][0] == "addr" else None
                    c.check("R1", v[1][1] == K(2) and n is not None and (n == S or n == ("trunc", 16, S) or n == ("op", "trunc", 16, S) or "trunc" in show(n) and S in list(subterms(n)) and fits is False), name(f), e.where(), "the length field is %s (%s bytes)" % (show(n) if n else "unknown", show(v[1][1])), p, inst="length field")
                    c.check("R1", v[2][0] == Dt and v[2][1] == S, name(f), e.where(), "the payload sent is %s, %s bytes" % (show(v[2][0]), show(v[2][1])), p, inst="payload")
                c.check("R1", fits is False, name(f), e.where(), "a payload whose length does not fit the length field is sent", p, inst="length representable")
                c.check("R1", e.a[0] == inp(fd), name(f), e.where(), "sent to another descriptor", p, inst="descriptor")
            if snd:
                r = snd[0][1].res
                good = T(("fld", r, "#has")) is True and T(I.binop(st, "==", ("fld", r, "#val"), plus(I, st, S, 3))) is True
                bad = T(("fld", r, "#has")) is False or T(I.binop(st, "==", ("fld", r, "#val"), plus(I, st, S, 3))) is False
                c.check("R1", len(snd) == 1 and (good if hv is True else bad if hv is False else False), name(f), fwhere(f), "reports %s although the frame %s" % ("success" if hv else "an error", "was sent completely" if good else "was not seen to be sent completely"), p, inst="honest")
            else:
                c.check("R1", hv is False and fits is True, name(f), fwhere(f), "the message is not sent and %s is reported" % ("success" if hv else "an error"), p, inst="refused")
    # ---- receiving
    B = c.field(ENG, r"vector<(unsigned char|std::uint8_t|uint8_t)")
    buf = ("F", ("A", "this"), B)
    for f in c.fns(ENG + "::ReceiveProtocolMessage"):
        fd, code = (x["n"] for x in f["p"])
        good = 0
        for p in c.run(f, opaque=LOG, snap=snap):
            if p.out != "ret": continue
            I, st = p.I, p.st
            T = lambda t: I.truth(st, t)
            rc = [e for i, e in calls(p, "recvmsg")]
            hv = hasval(p)
            lens = None
            for j, e in enumerate(rc):
                s = e.d["st"]; v = iovecs(I, s, mkP(e.a[1]))
                if v is None: raise CheckError("cannot follow the buffers handed to recvmsg in " + f["q"])
                c.check("R2", e.a[0] == inp(fd), name(f), e.where(), "received from another descriptor", p, inst="descriptor")
                wa = e.a[2][1] if len(e.a) > 2 and isc(e.a[2]) else None
                c.check("R2", wa is None or wa & enum(c, "Socket::MessageFlag", "kWaitAll"), name(f), e.where(), "a partial read is possible", p, inst="whole read")
                if j == 0:
                    ok = len(v) == 2 and v[0][0] == ("addr", ("A", code)) and v[0][1] == K(1) and v[1][1] == K(2) and v[1][0][0] == "addr"
                    c.check("R2", ok, name(f), e.where(), "the header read is not kind and length", p, inst="header")
                    if ok: lens = v[1][0][1]; hdr = e
                else:
                    n = I.read(s, lens) if lens else None
                    c.check("R2", T(("fld", hdr.res, "#has")) is True and T(I.binop(st, "==", ("fld", hdr.res, "#val"), K(3))) is True, name(f), e.where(), "the payload is read although the header was not seen complete", p, inst="header complete")
                    c.check("R2", len(v) == 1 and v[0][0] in (("addr", buf), I.read(s, ("F", buf, "#data"))) and v[0][1] == n, name(f), e.where(), "the payload read does not go to the receive buffer with the announced length", p, inst="payload")
                    # the bound must have been established on the value itself
                    sz = I.read(s, ("F", buf, "#size"))
                    c.check("R2", n is not None and I.truth(s, I.binop(s, "<", sz, n)) is False, name(f), e.where(), "the announced length may exceed the receive buffer", p, inst="payload bounded")
            if hv is None: c.bad("R2", name(f), fwhere(f), "reports neither success nor an error", p); continue
            if hv:
                e = rc[0] if rc else None
                c.check("R2", e is not None and T(("fld", e.res, "#has")) is True and T(I.binop(st, "==", ("fld", e.res, "#val"), K(3))) is True, name(f), fwhere(f), "success although the header was not received completely", p, inst="success header")
                if not rc: continue
                if len(rc) == 1:
                    n = I.read(st, lens) if lens else None
                    d, m = span_parts(I, st, ("ref", ("F", p.ret[1], "#val")))
                    c.check("R2", n is not None and T(I.binop(st, "==", n, FALSE)) is True and T(I.binop(st, "==", m, FALSE)) is True, name(f), fwhere(f), "success without reading the payload of a message that has one", p, inst="empty message")
                else:
                    n = I.read(rc[1].d["st"], lens)
                    d, m = span_parts(I, st, ("ref", ("F", p.ret[1], "#val")))
                    c.check("R2", T(("fld", rc[1].res, "#has")) is True and T(I.binop(st, "==", ("fld", rc[1].res, "#val"), n)) is True, name(f), fwhere(f), "success although the payload was not received completely", p, inst="payload complete")
                    c.check("R2", d in (("addr", buf), I.read(st, ("F", buf, "#data")), mkaddr(buf)) and m == n, name(f), fwhere(f), "the message delivered is %s, %s bytes" % (show(d), show(m)), p, inst="message delivered")
                    good += 1
            else:
                e = rc[-1] if rc else None
                full = e is not None and T(("fld", e.res, "#has")) is True
                if full and len(rc) == 1:
                    n = I.read(st, lens)
                    ok = T(I.binop(st, "==", ("fld", e.res, "#val"), K(3))) is False or T(I.binop(st, "==", ("fld", e.res, "#val"), FALSE)) is True or T(I.binop(st, "<", I.read(st, ("F", buf, "#size")), n)) is True
                    c.check("R2", ok, name(f), fwhere(f), "a complete message that fits is refused", p, inst="refusal")
                elif full:
                    n = I.read(rc[1].d["st"], lens)
                    c.check("R2", T(I.binop(st, "==", ("fld", e.res, "#val"), n)) is False, name(f), fwhere(f), "a completely received message is refused", p, inst="refusal")
        if not good: raise CheckError("no successful reception found in " + f["q"])
    # ---- buffer size
    for f in c.fns(ENG + "::RegisterPosixEndpoint"):
        mx = inp(f["p"][0]["n"], "max_receive_size")
        for p in c.run(f, opaque=LOG):
            if p.out != "ret": continue
            I, st = p.I, p.st
            rs = [e for i, e in calls(p, "resize") if e.o == buf]
            sz = I.truth(st, I.binop(st, "<", inp("this", B, "#size"), mx))
            ok = rs and rs[-1].a[0] == mx or not rs and sz is False
            if rs and rs[-1].a[0] != mx: ok = I.truth(st, I.binop(st, "<", rs[-1].a[0], mx)) is False
            c.check("R3", bool(ok), name(f), fwhere(f), "the receive buffer stays smaller than the endpoint's messages", p, inst="buffer grown")
            c.check("R3", not rs or sz is True or I.truth(st, I.binop(st, "<", rs[-1].a[0], inp("this", B, "#size"))) is False, name(f), fwhere(f), "the receive buffer shrinks while other endpoints use it", p, inst="buffer not shrunk")
    # ---- server limits
    lim = {}
    for f in c.fns(SRV + "::UnixDomainServer"):
        if len(f["p"]) != 3: continue
        for p in c.run(f, opaque=LOG):
            for k, v in p.st.m.items():
                for w in ("max_send_size", "max_reply_size", "max_notify_size"):
                    if k[0] == "F" and k[1] == ("A", "this") and v == inp(f["p"][1]["n"], w): lim[w] = k[2]
    if len(lim) != 3: raise CheckError("anchor vanished: the size limits of " + SRV)
    kind = {"Reply": K(enum(c, "ServerToClient", "REPLY")), "Notify": K(enum(c, "ServerToClient", "NOTIFY"))}
    for m, w in (("Reply", "max_reply_size"), ("Notify", "max_notify_size")):
        for f in c.fns(SRV + "::ServerConnection::" + m):
            msg = inp(f["p"][0]["n"])
            n = 0
            for p in c.run(f, opaque=lambda sq, g: LOG(sq, g) or sq.endswith("::SendProtocolMessage")):
                if p.out != "ret": continue
                I, st = p.I, p.st
                sv = [x["n"] for x in c.db.cls(SRV + "::ServerConnection")[0]["fields"] if "UnixDomainServer &" in x["t"] or x["t"].rstrip().endswith("UnixDomainServer&")]
                if len(sv) != 1: raise CheckError("anchor vanished: reference to the server in ServerConnection")
                L = I.read(st, ("F", mkP(inp("this", sv[0])), lim[w]))
                big = I.truth(st, I.binop(st, "<", L, ("fld", msg, "#size")))
                sd = calls(p, "SendProtocolMessage")
                hv = hasval(p)
                if sd:
                    e = sd[0][1]; n += 1
                    c.check("R4", big is False, name(f), e.where(), "a message is sent that was not seen to fit the negotiated size", p, inst=m + " fits")
                    c.check("R4", len(sd) == 1 and e.a[1] == kind[m] and e.a[2] == msg, name(f), e.where(), "sends %s of kind %s" % (show(e.a[2]), show(e.a[1])), p, inst=m + " message")
                    r = I.read(st, ("F", p.ret[1], "#has")) if p.ret[0] in ("obj", "ref") else ("fld", p.ret, "#has")
                    c.check("R4", r == ("fld", e.res, "#has") or I.truth(st, r) is not None and I.truth(st, r) == I.truth(st, ("fld", e.res, "#has")), name(f), fwhere(f), "reports something else than the outcome of sending", p, inst=m + " honest")
                else:
                    c.check("R4", big is True and hv is False and errcode(p) in (None, 90), name(f), fwhere(f), "nothing is sent although the message was not seen too large, or success is reported", p, inst=m + " refused")
            if not n: raise CheckError("nothing is sent in " + f["q"])
    # ---- endpoint declarations and dispatch (through the handlers registered for a new connection)
    conn = connections(c, hooks, "R3")
    for p, ep in conn:
        srv = p.I.read(p.st, ("F", ep, "max_receive_size"))
        c.check("R3", srv == ("fld", inp("this"), lim["max_send_size"]) or srv[0] == "fld" and srv[2] == lim["max_send_size"], SRV, fwhere(p.fn), "a connection announces %s as the largest message" % show(srv), p, inst="server connection size")
    for f in c.fns(MP + "detail::ClientConnection::ClientConnection"):
        if len(f["p"]) != 3: continue
        for p in c.run(f, opaque=LOG, hooks=hooks):
            I, st = p.I, p.st
            rp, nt = inp(f["p"][1]["n"], "max_reply_size"), inp(f["p"][1]["n"], "max_notify_size")
            own = [(k, v) for k, v in st.m.items() if k[0] == "F" and k[1] == ("A", "this") and any(x in (rp, nt) for x in subterms(v))]
            if len(own) == 1:
                k, v = own[0]
                c.check("R3", I.truth(st, I.binop(st, "<", v, rp)) is False and I.truth(st, I.binop(st, "<", v, nt)) is False, name(f), fwhere(f), "the client's receive limit is %s, which may be less than what the server sends" % show(v), p, inst="client receive limit")
    n = 0
    REQ, SND = K(enum(c, "ClientToServer", "REQUEST")), K(enum(c, "ClientToServer", "SEND"))
    seen = set()
    cb = dict(zip(("connect", "disconnect", "sent", "reply"), server_callbacks(c)))
    for p0, ep in conn[:1]:
        for (v, w), (s, pl) in closures(c, p0, roots=("A", "P", "G", "H")).items():
            if w != "input" or root(pl)[0] != "H": continue
            hk = dict(hooks)
            def recv(I, st, e, op, vs):
                I.emit(st, "recv", code=vs[1][1])
                I.havoc(st, vs[1][1])
                q = I.tmp(st); I.setobj(st, q, ("r", "received", st.n)); st.tr[-1].d["res"] = ("r", "received", st.n); st.tr[-1].d["cv"] = I.read(st, vs[1][1])
                return [(st, ("obj", q))]
            hk[ENG + "::ReceiveProtocolMessage"] = recv
            hk[ENG + "::UnregisterPosixEndpoint"] = lambda I, st, e, op, vs: (I.emit(st, "unregister", o=vs[0][1]), [(st, VOID)])[1]
            qs, lid = run_handler(c, p0.I, s, pl, w, hk)
            for p in qs:
                if p.out == "abort": continue
                I, st = p.I, p.st
                rv = evs(p, "recv"); un = evs(p, "unregister")
                c.check("R5", len(rv) == 1, SRV, fwhere(p.fn), "%d messages are read per event" % len(rv), p, inst="one message")
                if not rv: continue
                e = rv[0][1]; r = e.res
                got = I.truth(st, ("fld", r, "#has"))
                isreq, issnd = I.truth(st, I.binop(st, "==", e.cv, REQ)), I.truth(st, I.binop(st, "==", e.cv, SND))
                hs = [(x, "reply" if x.f.endswith("::OnMessageSentWithReply") else "sent") for i, x in evs(p, "call") if x.f.endswith("::OnMessageSentWithReply") or x.f.endswith("::OnMessageSent")]
                for i, x in evs(p, "invoke"):
                    w2 = [k for k in ("sent", "reply") if x.fnv[0] == "fld" and x.fnv[2] == cb[k]]
                    if w2: hs.append((x, w2[0]))
                if got is not True:
                    c.check("R5", not hs and len(un) == 1, SRV, fwhere(p.fn), "a lost connection is not ended", p, inst="lost connection"); continue
                want = "reply" if isreq else "sent" if issnd else None
                c.check("R5", [h for x, h in hs] == ([want] if want else []), SRV, fwhere(p.fn), "a message of kind %s goes to %s" % (want or "unknown", [h for x, h in hs] or "nobody"), p, inst="dispatch %s" % want)
                for x, h in hs:
                    n += 1
                    mv = x.a[1] if len(x.a) > 1 else None
                    ok = mv == ("fld", r, "#val") or mv is not None and any(t == ("fld", r, "#val") or t == r for t in subterms(mv)) or x.d.get("ap") and len(x.ap) > 1 and x.ap[1] is not None and I.read(st, ("F", x.ap[1], "#data")) == ("fld", ("fld", r, "#val"), "#data")
                    c.check("R5", bool(ok), SRV, x.where(), "the handler gets %s instead of the message" % show(mv), p, inst="message " + h)
                    okh = I.truth(st, ("fld", x.res, "#has"))
                    c.check("R5", okh is not None and okh == (not un), SRV, fwhere(p.fn), "the connection is %s although the handler %s" % ("ended" if un else "kept", "succeeded" if okh else "failed"), p, inst="handler outcome " + h)
                if not hs: c.check("R5", len(un) == 1, SRV, fwhere(p.fn), "a message of unknown kind does not end the connection", p, inst="unknown kind")
    if not n: raise CheckError("no dispatch of a message found")


def run_handler(c, I, s, pl, w, hk):
    old = dict(I.hooks); I.hooks.update(hk)
    try:
        return run_closure(c, I, s, pl, w)
    finally:
        I.hooks.clear(); I.hooks.update(old)


def server_callbacks(c):
    """fields of the server that hold connect, disconnect, sent, sent-with-reply callbacks: what StartListening stores its parameters in"""
    r = [None] * 4
    for f in c.fns(SRV + "::StartListening"):
        ps = [x["n"] for x in f["p"]]
        for p in c.run(f, opaque=LOG, hooks=dict(nolog(c))):
            for k, v in p.st.m.items():
                q = k[1] if k[0] == "B" else k
                for i, n in enumerate(ps):
                    if v == inp(n) and q[0] == "F" and q[1] == ("A", "this"): r[i] = q[2]
    if None in r: raise CheckError("anchor vanished: callbacks of " + SRV)
    return r


def listener(c, hooks):
    """paths of the handler run for a new connection: the input closure of the listening endpoint"""
    out = []
    for f in c.fns(SRV + "::StartListening"):
        hk = dict(hooks)
        hk[ENG + "::EnqueueCommand"] = lambda I, st, e, op, vs: None
        for p in c.run(f, opaque=lambda sq, g: LOG(sq, g) or sq.endswith("::EnqueueCommand"), snap=lambda k, sq: sq.endswith("::EnqueueCommand"), hooks=hooks):
            if not calls(p, "EnqueueCommand"): continue
            for (v, w), (s, pl) in closures(c, p).items():
                if w == "input": return p, run_handler(c, p.I, s, pl, w, hooks)[0]
    raise CheckError("anchor vanished: no handler for new connections is registered")


def connections(c, hooks, rid):
    """(path, place of the endpoint) for every way a new connection is registered with the engine"""
    hk = dict(hooks)

    def reg(I, st, e, op, vs):
        I.emit(st, "register", ep=vs[0][1])
        return [(st, VOID)]
    hk[ENG + "::RegisterPosixEndpoint"] = reg
    p0, ps = listener(c, hk)
    r = [(p, e.ep) for p in ps for i, e in evs(p, "register")]
    if not r: raise CheckError("anchor vanished: new connections are not registered")
    c.conn_paths = ps; c.listen_path = p0
    return r


def until(I, st, e, flds):
    return I.read(st, ("F", e, flds["until"]))


def evalt(t, env):
    """value of an integer term for given values of its leaves; None if it cannot be told"""
    if t in env: return env[t]
    if isc(t): return t[1]
    h = t[0]
    if h in ("trunc", "strunc") and isinstance(t[1], int):
        a = evalt(t[2], env)
        if a is None: return None
        a &= (1 << t[1]) - 1
        return a - (1 << t[1]) if h == "strunc" and a >> (t[1] - 1) else a
    if h == "op":
        a = [evalt(x, env) for x in t[2:]]
        if None in a: return None
        o = t[1]
        try:
            if o == "+": return sum(a)
            if o == "-": return a[0] - a[1] if len(a) == 2 else -a[0]
            if o == "*": return a[0] * a[1]
            if o == "/": return int(a[0] / a[1])
            if o == "<": return int(a[0] < a[1])
            if o == "<=": return int(a[0] <= a[1])
            if o == "==": return int(a[0] == a[1])
        except ZeroDivisionError: return None
    return None


def held(tr, i):
    h = set()
    for e in tr[:i]:
        if e.k == "lock": h.add(e.m)
        elif e.k == "unlock": h.discard(e.m)
    return h


@prop("P20", TUS, ["util"])
def p20(c):
    c.rule("R1", "a command is entered once with its own time, owner and callback, behind every command due no later and before every later one, with the queue locked")
    c.rule("R2", "processing runs each due command once, in queue order, removed from the queue before and with the queue unlocked, and leaves one that is not due; it reports the time of the next command, or none only if the queue is empty")
    c.rule("R3", "cleaning up removes exactly the commands of the given owner and releases their callbacks with the queue unlocked")
    c.rule("R4", "the callback thread never sleeps past the time of the next command and never indefinitely while one is queued")
    c.rule("R5", "entering a command wakes the callback thread up, after the command is queued")
    c.rule("R6", "cleaning up an owner from another thread is finished on the callback thread, endpoints included, before the call returns")
    c.rule("R7", "the callback thread processes the queue before each wait and gives input only to endpoints with something to do, until it is asked to quit")
    cls = TCQ
    qf = c.field(cls, r"intrusive_list<"); Q = ("F", ("A", "this"), qf)
    mx = c.field(cls, r"^(std::)?(mutable )?(std::)?mutex$")
    MX = ("F", ("A", "this"), mx)
    flds = {}
    snap = lambda k, sq: k == "invoke" or sq.endswith("::insert") or sq.endswith("::push_back") or sq.endswith("::push_front") or sq.endswith("::poll")
    INS = ("insert", "push_back", "push_front")
    for m, shift in (("RegisterTimedEntry", 0), ("RegisterImmediateEntry", 1)):
        for f in c.fns(cls + "::" + m):
            ps = [x["n"] for x in f["p"]]
            en = ("A", ps[0]); T, CB, OW = (None if shift else ps[1]), ps[2 - shift], ps[3 - shift]
            n = 0
            for p in c.run(f, snap=snap):
                if p.out != "ret": continue
                I, st = p.I, p.st
                ins = [(i, e) for x in INS for i, e in calls(p, x) if e.o == Q]
                c.check("R1", len(ins) == 1, name(f), fwhere(f), "the command is queued %d times" % len(ins), p, inst=m + " once")
                if len(ins) != 1: continue
                i, e = ins[0]; s = e.d["st"]; n += 1
                c.check("R1", MX in held(p.tr, i), name(f), e.where(), "the queue is changed without its lock", p, inst=m + " locked")
                epl = [v for v in e.ap if v] or [mkP(x) for x in e.a if x and x[0] == "addr"]
                c.check("R1", en in epl or en in [mkP(x) for x in e.a if x and x[0] == "addr"], name(f), e.where(), "another entry is queued", p, inst=m + " entry")
                t = None
                for k, v in s.m.items():
                    q = k[1] if k[0] == "B" else k
                    if q[0] == "F" and q[1] == en:
                        if T and v == inp(T): flds["until"] = q[2]
                        if v == inp(OW): flds["owner"] = q[2]
                        if v == inp(CB): flds["callback"] = q[2]
                if "owner" not in flds or "callback" not in flds or "until" not in flds:
                    c.bad("R1", name(f), e.where(), "the entry does not get its own time, owner and callback", p); continue
                own, cb, t = (I.read(s, ("F", en, flds[x])) for x in ("owner", "callback", "until"))
                c.check("R1", own == inp(OW) and cb == inp(CB), name(f), e.where(), "the entry is queued with owner %s and callback %s" % (show(own), show(cb)), p, inst=m + " content")
                if T: c.check("R1", t == inp(T), name(f), e.where(), "the entry is queued for %s" % show(t), p, inst=m + " time")
                else: c.check("R1", not any(x and x[0] == "in" for x in subterms(t)), name(f), e.where(), "an immediate command is queued for %s" % show(t), p, inst=m + " time")
                # position
                from models import epl as elp
                size = I.read(s, ("F", Q, "#size"))
                idx = e.a[0][2] if e.f.endswith("::insert") and e.a[0][0] == "it" else size if e.f.endswith("push_back") else FALSE if e.f.endswith("push_front") else None
                if idx is None: raise CheckError("cannot follow the position of an insertion in " + f["q"])
                later = lambda j: I.truth(s, I.binop(s, "<", t, until(I, s, elp(I, s, Q, j), flds)))
                if "widened" in s.flags and not isc(idx) and idx != size: continue
                for j in range(4):
                    inq = I.truth(s, I.binop(s, "<", K(j), size))
                    if isc(idx) and j < idx[1] or idx == size and inq is True and j < 2:
                        c.check("R1", later(K(j)) is False, name(f), e.where(), "the command is queued behind one that may be later", p, inst=m + " not overtaken by later ones")
                    elif isc(idx) and j == idx[1]:
                        c.check("R1", inq is False or later(K(j)) is True, name(f), e.where(), "the command is queued before one that may be due no later", p, inst=m + " first come first served")
                if idx == size and not any(I.truth(s, I.binop(s, "<", K(j), size)) is False for j in range(4)) and "widened" not in s.flags:
                    c.bad("R1", name(f), e.where(), "the command is queued at the end although later ones may be queued", p)
            if not n: raise CheckError("nothing is queued by " + f["q"])
    if len(flds) < 3: return
    # ---- processing
    n = 0
    for f in c.fns(cls + "::ProcessQueue"):
        now = f["p"][0]["n"]
        for p in c.run(f, relock=True, snap=snap):
            if p.out != "ret": continue
            I, st = p.I, p.st
            popped = []
            for i, e in enumerate(p.tr):
                if e.k == "call" and e.o == Q:
                    c.check("R2", MX in held(p.tr, i), name(f), e.where(), "the queue is used without its lock", p, inst="locked")
                    if e.f.endswith("::pop_front"):
                        el = e.d.get("el")
                        if el is None: raise CheckError("cannot follow the removed command in " + f["q"])
                        due = I.truth(st, I.binop(st, "<", inp(now), until(I, st, el, flds)))
                        c.check("R2", due is False, name(f), e.where(), "a command is removed that was not seen due", p, inst="due")
                        popped.append([el, 0])
                    elif e.f.rsplit("::", 1)[-1] in ("erase", "remove_if", "remove_and_dispose_if", "clear", "clear_and_dispose", "pop_back", "insert", "push_back", "push_front"):
                        c.bad("R2", name(f), e.where(), "processing changes the queue by " + e.f.rsplit("::", 1)[-1], p)
                elif e.k == "invoke":
                    n += 1
                    c.check("R2", MX not in held(p.tr, i), name(f), e.where(), "a command runs with the queue locked", p, inst="unlocked")
                    w = [x for x in popped if e.fnv == ("fld", ("in", x[0]), flds["callback"]) or e.fnv == I.read(st, ("F", x[0], flds["callback"])) or e.fnv[0] == "fld" and e.fnv[2] == flds["callback"] and mkP(e.fnv[1]) == x[0] or show(e.fnv) == show(("fld", ("in", x[0]), flds["callback"]))]
                    c.check("R2", len(w) == 1 and popped.index(w[0]) == len(popped) - 1, name(f), e.where(), "runs %s, which is not the command just removed" % show(e.fnv), p, inst="the removed command")
                    if w: w[0][1] += 1
                    c.check("R2", e.a and (e.a[0] == inp(now)), name(f), e.where(), "a command is given %s as the time" % (show(e.a[0]) if e.a else "nothing"), p, inst="time")
            for el, k in popped:
                c.check("R2", k == 1, name(f), fwhere(f), "a removed command runs %d times" % k, p, inst="once")
            # result
            from models import epl as elp
            size = I.read(st, ("F", Q, "#size"))
            I.unsigned.add(size)
            empty = I.truth(st, I.binop(st, "==", FALSE, size))
            ret = I.read(st, p.ret[1]) if p.ret[0] in ("obj", "ref") else p.ret
            front = until(I, st, elp(I, st, Q, FALSE), flds)
            if ret == front:
                c.check("R2", empty is False and I.truth(st, I.binop(st, "<", inp(now), front)) is True, name(f), fwhere(f), "returns although the first command may be due", p, inst="next command")
            else:
                dflt = not any(x and x[0] in ("in", "fld") for x in subterms(ret))
                c.check("R2", empty is True and dflt, name(f), fwhere(f), "reports %s although commands may be queued" % show(ret), p, inst="queue empty")
    if not n: raise CheckError("no command runs in " + cls)
    # ---- clean up
    n = 0
    for f in c.fns(cls + "::CleanUpOwner"):
        ow = inp(f["p"][0]["n"])
        for p in c.run(f, snap=snap):
            if p.out != "ret": continue
            I, st = p.I, p.st
            done = False
            for i, e in enumerate(p.tr):
                if e.k in ("listrm", "listkeep"):
                    n += 1
                    own = I.truth(st, I.binop(st, "==", ("fld", ("in", e.el), flds["owner"]), ow))
                    if own is None: own = I.truth(st, I.binop(st, "==", I.read(st, ("F", e.el, flds["owner"])), ow))
                    c.check("R3", MX in held(p.tr, i) and own is (e.k == "listrm"), name(f), e.where(), "a command %s although its owner %s" % ("is removed" if e.k == "listrm" else "stays", "matches" if own else "does not match" if own is False else "was not compared"), p, inst="removed iff owned")
                    if e.k == "listrm":
                        em = [j for j, x in enumerate(p.tr) if j > i and x.k == "wr" and x.p == ("F", e.el, flds["callback"])]
                        c.check("R3", len(em) >= 1 and not any(MX in held(p.tr, j) for j in em), name(f), e.where(), "the callback of a removed command is %s" % ("not released" if not em else "released with the queue locked"), p, inst="callback released")
                if e.k == "call" and e.o == Q and e.f.rsplit("::", 1)[-1] in ("remove_if", "remove_and_dispose_if", "clear_and_dispose", "erase", "clear"):
                    done = True
                    c.check("R3", e.f.rsplit("::", 1)[-1] not in ("clear", "clear_and_dispose"), name(f), e.where(), "every command is removed", p, inst="only this owner's")
            c.check("R3", done, name(f), fwhere(f), "nothing is removed", p, inst="removes")
    if not n: raise CheckError("no removal of a command found in " + cls + "::CleanUpOwner")
    engine_queue(c)


def engine_queue(c):
    pollf = c.field(ENG, r"vector<.*pollfd"); PF = ("F", ("A", "this"), pollf)
    epf = c.field(ENG, r"vector<.*PosixEndpointEntry ?\*"); EP = ("F", ("A", "this"), epf)
    pipe = c.field(ENG, r"array<.*2"); PIPE = ("F", ("A", "this"), pipe)
    tq = ("F", ("A", "this"), c.field(ENG, r"TimedCommandQueue"))
    flag = c.field(ENG, r"^bool$")

    def nexttime(I, st, e, op, vs):
        st.n += 1; t = ("r", "next", st.n); p = I.tmp(st); I.setobj(st, p, t)
        I.emit(st, "pq", o=op, a=[I.argval(st, v) for v in vs], res=t)
        return [(st, ("obj", p))]
    seen = []

    def poll(I, st, e, op, vs):
        st.n += 1; r = ("r", "poll", st.n); n = sum(1 for x in st.tr if x.k == "poll")
        I.emit(st, "poll", a=[I.argval(st, v) for v in vs], res=r)
        seen.append((I, st if n else st.copy()))
        if n: return []
        p = I.tmp(st); I.setobj(st, p, r); I.havoc(st, PF)
        I.emit(st, "polled", n=st.n, entry=I.read(st, ("E", PF, FALSE)))
        return [(st, ("obj", p))]
    hooks = dict(nolog(c)); hooks[TCQ + "::ProcessQueue"] = nexttime; hooks["score::os::SysPoll::poll"] = poll
    loop = outermost(c, ENG, "SysPoll::poll")
    opq = lambda sq, g: LOG(sq, g) or sq.endswith("egisterPosixEndpoint")
    kick = None
    for f in loop:
        ps = c.run(f, opaque=opq, hooks=hooks, snap=lambda k, sq: sq.endswith("egisterPosixEndpoint"))
        for p in ps:
            for (v, w), (s, pl) in closures(c, p).items():
                if w == "input": kick = (p, s, pl, w)
    INT = [-2**40, -2**31, -1500, -1, 0, 1, 7, 10**6, 2**31 - 3, 2**31 - 2, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**40]
    none = 0
    for I, st in seen:
        last = max(i for i, e in enumerate(st.tr) if e.k == "poll")
        prev = max([i for i, e in enumerate(st.tr[:last]) if e.k == "poll"], default=-1)
        e = st.tr[last]
        pq = [x for x in st.tr[prev + 1:last] if x.k == "pq"]
        c.check("R7", len(pq) >= 1 and pq[-1].o == tq, ENG, e.where(), "waits without processing the command queue first", None, inst="queue processed before waiting")
        if not pq: continue
        c.check("R7", e.a[0] == mkaddr(PF) or e.a[0] == I.read(st, ("F", PF, "#data")) or e.a[0][0] == "addr" and under(e.a[0][1], PF), ENG, e.where(), "waits for other descriptors", None, inst="descriptors")
        nx, tmo = pq[-1].res, e.a[2]
        c.check("R7", pq[-1].a and "now" in show(pq[-1].a[0]), ENG, pq[-1].where(), "processes the queue for the time %s" % show(pq[-1].a[0] if pq[-1].a else ()), None, inst="present time")
        # what the remaining time is: the integral value derived from (next - now)
        idle = any(b is True and t[0] == "op" and t[1] == "==" and nx in t[2:] for t, b in st.f.items())
        if isc(tmo) and tmo[1] < 0 or idle:
            none += idle
            c.check("R4", idle, ENG, e.where(), "waits indefinitely although a command may be queued", None, inst="indefinite only if empty"); continue
        dist = [x for x in st.tr[prev + 1:last] if x.k == "call" and x.f.rsplit("::", 1)[-1] in ("duration_cast", "ceil", "floor", "round")]
        if len(dist) != 1: raise CheckError("cannot follow how the time to wait is derived in " + loop[0]["q"])
        src = dist[0].a[0] if dist[0].a else ()
        c.check("R4", nx in list(subterms(src)) and src[0] == "op" and src[1] == "-" and src[2] == nx and "now" in show(src[3]), ENG, dist[0].where(), "the time to wait is derived from %s" % show(src), None, inst="remaining time")
        unit = c.db.F.get(dist[0].d.get("u"), {}).get("ret") or c.db.F.get(dist[0].d.get("u"), {}).get("q", "") or ""
        leaves = {x for t in [tmo] + list(st.f) for x in subterms(t) if x and x[0] in ("r", "fld", "in", "pure") and dist[0].res in list(subterms(x))}
        big = {x for x in leaves if not any(x != y and x in list(subterms(y)) for y in leaves)}
        lv = [x for x in big]
        if len(lv) != 1: raise CheckError("cannot follow how the time to wait is derived in " + loop[0]["q"])
        ok = 0
        for d in INT:
            env = {lv[0]: d}
            if any(evalt(t, env) is not None and bool(evalt(t, env)) != b for t, b in st.f.items() if lv[0] in list(subterms(t))): continue
            r = evalt(tmo, env)
            if r is None: raise CheckError("cannot evaluate the time to wait in " + loop[0]["q"])
            ok += 1
            c.check("R4", 0 <= r <= max(d, 0) + 1, ENG, e.where(), "waits %d ms although the next command is due in %d ms" % (r, d), None, inst="wait for %d ms" % d)
    if not none: raise CheckError("no indefinite wait found in " + ENG)
    # ---- input
    n = 0
    for I, st in seen:
        pd = [(i, x) for i, x in enumerate(st.tr) if x.k == "polled"]
        if not pd: continue
        i0, pv = pd[0]
        pl = [x for x in st.tr if x.k == "poll"][0]
        some = I.truth(st, I.binop(st, "<", FALSE, ("fld", pl.res, "#val"))) is True and I.truth(st, ("fld", pl.res, "#has")) is True
        for x in st.tr[i0:]:
            if x.k != "invoke": continue
            n += 1
            own = x.p[1] if x.p and x.p[0] == "F" else None
            fld = x.p[2] if own else None
            c.check("R7", fld == "input", ENG, x.where(), "an endpoint's %s is run for an event" % fld, None, inst="input")
            rd = [t for t, b in st.f.items() if b is False and t[0] == "op" and t[1] == "==" and FALSE in t[2:] and any(y[0] == "fld" and y[2] == "revents" for y in t[2:] if y)]
            ix = own[1] if own and own[0] == "P" else None
            ok = ix is not None and any(y[0] == "fld" and y[2] == "revents" and show(y[1]).endswith("[%s]" % show(k)) for t in rd for y in t[2:] if y for k in subterms(ix) if k and k[0] in ("c", "w", "v", "op"))
            if ix is not None and not ok:
                k = show(ix).rsplit("[", 1)[-1].rstrip("]")
                ok = any(show(y[1]).endswith("[%s]" % k) for t in rd for y in t[2:] if y and y[0] == "fld" and y[2] == "revents")
            c.check("R7", some and ok, ENG, x.where(), "input is given to an endpoint without an event", type("T", (), dict(tr=st.tr, out="", ret=None)), inst="only with an event")
        for k in (0, 1):
            for t, b in st.f.items():
                if t[0] == "op" and t[1] == "==" and FALSE in t[2:] and b is False and any(y and y[0] == "fld" and y[2] == "revents" and show(y[1]).endswith("[%d]" % k) for y in t[2:]):
                    c.check("R7", any(x.k == "invoke" and show(x.p).endswith("[%d].input" % k) for x in st.tr[i0:]), ENG, pl.where(), "an endpoint with an event gets no input", None, inst="every event")
        sz = [t[2][1] for t, b in st.f.items() if some and b is True and t[0] == "op" and t[1] == "<" and isc(t[2]) and show(t[3]).endswith("#size")]
        for k in range(max(sz, default=-1) + 1):
            c.check("R7", any(y and y[0] == "fld" and y[2] == "revents" and show(y[1]).endswith("[%d]" % k) for t in st.f for y in (t[2:] if t[0] == "op" else ()) if isinstance(y, tuple)), ENG, pl.where(), "the events of an endpoint are not looked at", None, inst="events examined")
    if not n: raise CheckError("no endpoint gets input in " + ENG)
    # ---- wake-up and quitting
    if kick is None: raise CheckError("anchor vanished: no input handler for the wake-up pipe")
    snap = lambda k, sq: sq.endswith("::write")

    def reg(I, st, e, op, vs):
        I.emit(st, "queued", o=op, a=[I.argval(st, v) for v in vs], fn=e["f"]["q"] if isinstance(e.get("f"), dict) else "", ap=[v[1] if v[0] in ("ref", "obj") else None for v in vs])
        st.tr[-1].d["st"] = st.copy()
        return [(st, VOID)]

    def sent(p):
        r = []
        for i, e in calls(p, "write"):
            if len(e.a) == 3 and e.a[1][0] == "addr": r.append((i, e, p.I.read(e.d["st"], e.a[1][1])))
        return r
    quit_ = set()
    for f in c.db.F.values():
        if f["sq"] == ENG + "::~UnixDomainEngine" and f.get("body") is not None:
            for p in c.run(f, snap=snap, opaque=LOG, hooks=hooks):
                for i, e, v in sent(p): quit_.add(v)
                jo = calls(p, "join"); cl = [i for i, e in calls(p, "close")]
                c.check("R7", bool(jo) and sent(p) and sent(p)[0][0] < jo[0][0] and all(i > jo[0][0] for i in cl), name(f), fwhere(f), "the callback thread is not told to quit and waited for before its descriptors are closed", p, inst="quit and join")
    if len(quit_) != 1: raise CheckError("cannot tell what makes the callback thread quit")
    quit_ = quit_.pop()
    qs, lid = run_handler(c, kick[0].I, kick[1], kick[2], kick[3], hooks)
    got = set()
    for p in qs:
        I, st = p.I, p.st
        now = I.read(st, ("F", ("A", "this"), flag))
        rdv = calls(p, "read")
        set_ = now == TRUE
        f = [b for t, b in st.f.items() if t[0] == "op" and t[1] == "==" and quit_ in t[2:]]
        oth = [b for t, b in st.f.items() if t[0] == "op" and t[1] == "==" and quit_ not in t[2:]]
        isq = f[0] if f else False if True in oth else None
        if isq is None and oth and not any(oth): isq = "other"
        c.check("R7", len(rdv) == 1 and isq is not None and (set_ if isq in (True, "other") else not set_), ENG, fwhere(kick[0].fn), "the request to quit is %s" % ("ignored" if isq else "seen although something else was sent"), p, inst="quit request")
        got.add(set_)
    if got != {True, False}: c.bad("R7", ENG, fwhere(kick[0].fn), "the callback thread can%s be asked to quit" % ("not" if True not in got else " only"))
    hooks2 = dict(nolog(c))
    for m in ("RegisterTimedEntry", "RegisterImmediateEntry"): hooks2[TCQ + "::" + m] = reg
    for f in c.fns(ENG + "::EnqueueCommand"):
        ps = [x["n"] for x in f["p"]]
        for p in c.run(f, snap=snap, opaque=LOG, hooks=hooks2):
            if p.out != "ret": continue
            q = evs(p, "queued"); w = [x for x in sent(p) if x[2] != quit_ and x[1].a[0] == inp("this", pipe) or x[2] != quit_ and "[1]" in show(x[1].a[0])]
            c.check("R5", len(q) == 1 and q[0][1].o == tq and [show(a) for a in q[0][1].a] == ps, name(f), fwhere(f), "the command is queued as %s" % [show(a) for i, e in q for a in e.a], p, inst="queued")
            c.check("R5", q and any(i > q[0][0] for i, e, v in w), name(f), fwhere(f), "the callback thread is not woken up after the command is queued", p, inst="woken up")
    # ---- owner clean-up
    cleaned = []

    def qclean(I, st, e, op, vs):
        I.emit(st, "qclean", o=op, a=[I.argval(st, v) for v in vs]); return [(st, VOID)]
    hooks3 = dict(hooks2); hooks3[TCQ + "::CleanUpOwner"] = qclean
    for f in c.fns(ENG + "::CleanUpOwner"):
        ow = inp(f["p"][0]["n"]); kinds = set()
        for p in c.run(f, snap=snap, opaque=LOG, hooks=hooks3):
            if p.out != "ret": continue
            I, st = p.I, p.st
            null = I.truth(st, I.binop(st, "==", ow, NULL))
            q, cl = evs(p, "queued"), evs(p, "qclean")
            same = [b for t, b in st.f.items() if t[0] == "op" and t[1] == "==" and any(y and y[0] == "r" and "get_id" in str(y[1]) for y in t[2:])]
            if null:
                kinds.add("null")
                c.check("R6", not q and not cl, name(f), fwhere(f), "something is cleaned up for no owner", p, inst="no owner"); continue
            if same and same[0]:
                kinds.add("direct"); cleanup_path(c, f, p, PF, EP, tq, ow); c.check("R6", not q, name(f), fwhere(f), "the callback thread waits for itself", p, inst="callback thread"); continue
            kinds.add("wait")
            c.check("R6", len(q) == 1 and not cl and not evs(p, "invoke"), name(f), fwhere(f), "endpoints or commands are cleaned up on a foreign thread", p, inst="foreign thread")
            wt = [i for i, e in enumerate(p.tr) if e.k == "call" and e.f.rsplit("::", 1)[-1] in ("wait", "get")] + [i for i, e in evs(p, "cvwait")]
            w = [i for i, e, v in sent(p) if v != quit_]
            c.check("R6", q and w and wt and q[0][0] < min(w) < max(wt), name(f), fwhere(f), "returns without waiting for the clean-up it asked the callback thread for", p, inst="waits")
            if not q: continue
            s = q[0][1].d["st"]
            done = False
            for (v, wv), (s2, pl) in closures(c, p).items():
                if not any(x is not None and under(pl, x) for x in q[0][1].ap): continue
                hk = dict(hooks3)
                rs, lid = run_handler(c, I, s2, pl, wv, hk)
                for r in rs:
                    if r.out == "abort": continue
                    done = True
                    r.fn = f
                    cleanup_path(c, f, r, PF, EP, tq, ow)
                    dn = [i for i, e in enumerate(r.tr) if e.k == "call" and e.f.rsplit("::", 1)[-1] in ("set_value",)] + [i for i, e in evs(r, "notify")]
                    ql = [i for i, e in evs(r, "qclean")]
                    c.check("R6", len(dn) == 1 and ql and dn[0] > max(ql), name(f), fwhere(f), "the waiting call is released %s" % ("before the clean-up is finished" if dn else "never"), r, inst="released afterwards")
            if not done:
                for e in p.tr: pass
                raise CheckError("cannot follow the clean-up command of " + f["q"])
        if kinds != {"null", "direct", "wait"}: c.bad("R6", name(f), fwhere(f), "only these ways to clean up an owner exist: %s" % sorted(kinds))


def cleanup_path(c, f, p, PF, EP, tq, ow):
    I, st = p.I, p.st
    ql = evs(p, "qclean")
    c.check("R6", len(ql) == 1 and ql[0][1].o == tq and (ql[0][1].a[0] == ow or "owner" in show(ql[0][1].a[0])), name(f), fwhere(f), "the owner's commands are not cleaned up", p, inst="commands")
    er = [e for i, e in calls(p, "erase")]
    for k in (0, 1):
        rem = any(e.k == "wr" and e.p == ("E", EP, K(k)) and e.v == NULL for e in p.tr)
        fd = [y for t, b in st.f.items() if t[0] == "op" for y in t[2:] if isinstance(y, tuple) and y and y[0] == "fld" and y[2] == "fd" and show(y[1]).endswith("[%d]" % k)]
        live = [I.truth(st, I.binop(st, "==", fd[0], K(-1))) is not True and I.truth(st, I.binop(st, "<", fd[0], FALSE)) is not True] if fd else []
        own = [b for t, b in st.f.items() if t[0] == "op" and t[1] == "==" and any(y and y[0] == "fld" and y[2] == "owner" and show(y[1]).endswith("[%d]" % k) for y in t[2:])]
        insz = [b for t, b in st.f.items() if t[0] == "op" and t[1] == "<" and t[2] == K(k) and show(t[3]).endswith("#size")]
        if not insz or not insz[0]: continue
        want = live and live[0] and own and own[0]
        if fd and rem and I.truth(st, I.binop(st, "==", fd[0], K(-1))) is not False: want = False
        if k and any(e.k == "invoke" for e in p.tr) and not live: continue
        c.check("R6", bool(want) == rem, name(f), fwhere(f), "an endpoint %s although %s" % ("stays" if want else "is removed", "it is the owner's" if want else "it was not seen to be the owner's"), p, inst="endpoints removed iff owned")
    c.check("R6", "widened" in st.flags or any(t[0] == "op" and t[1] == "<" and b is False and show(t[3]).endswith("#size") for t, b in st.f.items()), name(f), fwhere(f), "not every endpoint is looked at", p, inst="all endpoints")


def released(p, v):
    return [i for i, e in calls(p, "close") if e.a and e.a[0] == v]


@prop("P21", TUS, ["util"])
def p21(c):
    c.rule("R1", "opening a client connection returns the connected descriptor, or closes it exactly once and reports the error")
    c.rule("R2", "listening either is reported, with the listening descriptor kept and its endpoint entered for the callback thread in the server's name, or is refused with the descriptor closed once and forgotten")
    c.rule("R3", "stopping first removes everything the server owns from the callback thread, then closes the listening descriptor once and forgets it; a server that does not listen does nothing")
    c.rule("R4", "an accepted descriptor ends up closed exactly once or owned by a connection that is registered under the server's name and keeps itself alive; a refused connection is told nothing")
    c.rule("R5", "a connection that was accepted is told of its end exactly once, before its descriptor is closed; a removed endpoint ends its connection")
    c.rule("R6", "the polled descriptors and their endpoints stay in step: a registered endpoint takes a free or a new slot of both, a removed one leaves both before its owner is told")
    hooks = nolog(c)
    opq = lambda sq, g: LOG(sq, g) or sq.endswith("::EnqueueCommand") or sq.endswith("::CleanUpOwner")
    ME = mkaddr(("A", "this"))
    # ---- client
    for f in c.fns(ENG + "::TryOpenClientConnection"):
        for p in c.run(f, opaque=opq, hooks=hooks):
            if p.out != "ret": continue
            I, st = p.I, p.st
            so, co = calls(p, "socket"), calls(p, "connect")
            hv = hasval(p)
            if len(so) != 1: c.bad("R1", name(f), fwhere(f), "opens %d sockets" % len(so), p); continue
            fd = ("fld", so[0][1].res, "#val"); op = I.truth(st, ("fld", so[0][1].res, "#has"))
            con = co and co[0][1].a[0] == fd and I.truth(st, ("fld", co[0][1].res, "#has"))
            n = len(released(p, fd)); oth = len(calls(p, "close")) - n
            if hv: c.check("R1", con is True and n == 0 and not oth and val(p) == fd, name(f), fwhere(f), "returns %s although it %s" % (show(val(p)), "was closed" if n else "is not the connected descriptor"), p, inst="connected")
            elif hv is False: c.check("R1", not oth and (n == 0 if not op else n == 1 and con is False), name(f), fwhere(f), "the descriptor is closed %d times although opening failed" % n, p, inst="failed %s" % ("connect" if op else "socket"))
            else: c.bad("R1", name(f), fwhere(f), "outcome not decided", p)
    # ---- listening
    sfd = None
    fields = [x["n"] for x in c.db.cls(SRV)[0]["fields"]]
    okpaths = []
    for f in c.fns(SRV + "::StartListening"):
        for p in c.run(f, opaque=opq, hooks=hooks, snap=lambda k, sq: sq.endswith("::EnqueueCommand")):
            if p.out != "ret": continue
            I, st = p.I, p.st
            so = calls(p, "socket"); hv = hasval(p)
            if len(so) != 1: c.bad("R2", name(f), fwhere(f), "opens %d sockets" % len(so), p); continue
            fd = ("fld", so[0][1].res, "#val"); op = I.truth(st, ("fld", so[0][1].res, "#has"))
            if sfd is None:
                w = [x for x in fields if I.read(st, ("F", ("A", "this"), x)) == fd]
                if len(w) == 1: sfd = w[0]
            bi, li = calls(p, "bind"), calls(p, "listen")
            good = all(x and x[0][1].a[0] == fd and I.truth(st, ("fld", x[0][1].res, "#has")) is True for x in (bi, li)) and bi and bi[0][0] < li[0][0]
            n = len(released(p, fd)); oth = len(calls(p, "close")) - n
            okpaths.append((f, p, fd, op, good, n, oth, hv))
    if sfd is None: 
        c.bad("R2", SRV + "::StartListening", "", "the listening descriptor is not kept"); return
    for f, p, fd, op, good, n, oth, hv in okpaths:
        I, st = p.I, p.st
        now = I.read(st, ("F", ("A", "this"), sfd))
        eq_ = calls(p, "EnqueueCommand")
        if hv:
            c.check("R2", good and not n and not oth and now == fd, name(f), fwhere(f), "success is reported although the server does not listen or forgets its descriptor", p, inst="listening")
            c.check("R2", len(eq_) == 1, name(f), fwhere(f), "the endpoint is entered %d times" % len(eq_), p, inst="entered")
            for i, e in eq_:
                reg = []
                c.check("R2", e.a and e.a[-1] == ME, name(f), e.where(), "the endpoint is entered in the name of %s" % show(e.a[-1]), p, inst="owner of the command")
                for (v, w), (s, pl) in closures(c, p).items():
                    if not any(x is not None and under(pl, x) for x in e.ap): continue
                    hk = dict(hooks)
                    hk[ENG + "::RegisterPosixEndpoint"] = lambda I, st, e, op, vs: (I.emit(st, "register", ep=vs[0][1]), [(st, VOID)])[1]
                    rs, lid = run_handler(c, I, s, pl, w, hk)
                    for r in rs:
                        rg = evs(r, "register"); reg.append(len(rg))
                        for j, x in rg:
                            c.check("R2", I.read(s, ("F", x.ep, "fd")) == fd and I.read(s, ("F", x.ep, "owner")) == ME, name(f), x.where(), "the endpoint registered is not the server's own", r, inst="endpoint")
                c.check("R2", reg and set(reg) == {1}, name(f), e.where(), "the command does not register the endpoint once", p, inst="registered once")
        elif hv is False:
            bad = not good
            c.check("R2", bad and not eq_ and not oth and (n == 1 if op else n == 0), name(f), fwhere(f), "refused with the descriptor closed %d times" % n, p, inst="refused")
            if op: c.check("R2", I.truth(st, I.binop(st, "<", now, FALSE)) is True, name(f), fwhere(f), "the closed descriptor is kept", p, inst="forgotten")
        else: c.bad("R2", name(f), fwhere(f), "outcome not decided", p)
    # ---- stopping
    cur = inp("this", sfd)
    for m in ("StopListening", "~UnixDomainServer"):
        for f in c.fns(SRV + "::" + m):
            for p in c.run(f, opaque=opq, hooks=hooks):
                if p.out != "ret": continue
                I, st = p.I, p.st
                lis = I.truth(st, I.binop(st, "<", cur, FALSE))
                cl, cu = calls(p, "close"), calls(p, "CleanUpOwner")
                if lis is True or lis is None and I.truth(st, I.binop(st, "==", cur, K(-1))) is True:
                    c.check("R3", not cl, name(f), fwhere(f), "a server that does not listen closes a descriptor", p, inst=m + " not listening"); continue
                c.check("R3", len(cl) == 1 and cl[0][1].a[0] == cur, name(f), fwhere(f), "the listening descriptor is closed %d times" % len(cl), p, inst=m + " closed")
                c.check("R3", len(cu) == 1 and cu[0][1].a[0] == ME and bool(cl) and cu[0][0] < cl[0][0], name(f), fwhere(f), "the server's endpoints and commands are not removed before the descriptor is closed", p, inst=m + " cleaned up first")
                if m[0] != "~": c.check("R3", I.truth(st, I.binop(st, "<", I.read(st, ("F", ("A", "this"), sfd)), FALSE)) is True, name(f), fwhere(f), "the closed descriptor is kept", p, inst=m + " forgotten")
    # ---- new connections
    conn = connections(c, hooks, "R4")
    W = c.listen_path.fn
    n = 0
    cb = dict(zip(("connect", "disconnect", "sent", "reply"), server_callbacks(c)))
    told = lambda p: [(i, e) for i, e in enumerate(p.tr) if e.k == "call" and e.f.endswith("::OnDisconnect") or e.k == "invoke" and (show(e.fnv).endswith(cb["disconnect"]) or "disconnect" == (e.p or ("",))[-1])]
    for p in c.conn_paths:
        if p.out == "abort": continue
        I, st = p.I, p.st
        ac = calls(p, "accept")
        c.check("R4", len(ac) == 1 and ac[0][1].a[0] == cur, name(W), fwhere(W), "%d connections are accepted per event" % len(ac), p, inst="one accept")
        if len(ac) != 1: continue
        fd = ("fld", ac[0][1].res, "#val"); got = I.truth(st, ("fld", ac[0][1].res, "#has"))
        cl = released(p, fd); oth = len(calls(p, "close")) - len(cl)
        iv = [(i, e) for i, e in evs(p, "invoke") if show(e.fnv).endswith(cb["connect"])]
        rg = evs(p, "register"); nw = [(i, e) for i, e in evs(p, "new")]; dl = evs(p, "delete")
        if got is not True:
            c.check("R4", got is False and not cl and not oth and not iv and not rg, name(W), fwhere(W), "a failed accept is not ignored", p, inst="failed accept"); continue
        ok = len(iv) == 1 and I.truth(st, ("fld", iv[0][1].res, "#has")) is True
        if ok:
            n += 1
            c.check("R4", len(rg) == 1 and not cl and not oth and not dl, name(W), fwhere(W), "an accepted connection is %s" % ("closed" if cl or dl else "registered %d times" % len(rg)), p, inst="accepted")
            for i, e in rg:
                s = st
                c.check("R4", I.read(s, ("F", e.ep, "fd")) == fd and I.read(s, ("F", e.ep, "owner")) == ME, name(W), e.where(), "the endpoint gets descriptor %s and owner %s" % (show(I.read(s, ("F", e.ep, "fd"))), show(I.read(s, ("F", e.ep, "owner")))), p, inst="endpoint")
                H = root(e.ep)
                keep = [k for k, v in st.m.items() if k[0] == "F" and k[2] == "#ptr" and v[0] in ("addr", "new") and (v == mkaddr(H) or mkP(v) == H)]
                c.check("R4", any(root(k) == H or root(k)[0] in ("A", "P") for k in keep), name(W), e.where(), "nothing owns the accepted connection", p, inst="kept alive")
                for t in evs(p, "lock")[:1]: c.check("R4", t[0] < iv[0][0] and t[1].m in held(p.tr, i) and t[1].m in held(p.tr, iv[0][0]), name(W), e.where(), "accepting and registering is not one step", p, inst="one step")
        else:
            c.check("R4", len(cl) == 1 and not oth and not rg, name(W), fwhere(W), "the descriptor of a connection that is not accepted is closed %d times" % len(cl), p, inst="refused" if iv else "unidentified")
            c.check("R4", not told(p), name(W), fwhere(W), "a refused connection is told of its end", p, inst="refused told nothing")
            c.check("R4", len(nw) == len(dl), name(W), fwhere(W), "a refused connection is not destroyed", p, inst="destroyed")
    if not n: raise CheckError("no accepted connection found")
    # ---- end of a connection
    CC = SRV + "::ServerConnection"
    kinds = set()
    udf = None
    for f in c.fns(CC + "::~ServerConnection"):
        for p in c.run(f, opaque=opq, hooks=hooks):
            if p.out != "ret": continue
            I, st = p.I, p.st
            t, cl = told(p), calls(p, "close")
            acc = [b for x, b in st.f.items() if x[0] == "fld" and x[2] == "#has" and x[1][0] == "fld" and x[1][1] == ("in", ("A", "this"))]
            if not acc: c.bad("R5", name(f), fwhere(f), "does not look at whether the connection was accepted", p); continue
            kinds.add(acc[0])
            c.check("R5", len(t) == (1 if acc[0] else 0), name(f), fwhere(f), "a connection that was %saccepted is told of its end %d times" % ("" if acc[0] else "not ", len(t)), p, inst="told %s" % acc[0])
            c.check("R5", len(cl) == 1 and all(i < cl[0][0] for i, e in t), name(f), fwhere(f), "the descriptor is closed %d times, or before the end is told" % len(cl), p, inst="closed")
    if kinds != {True, False}: c.bad("R5", CC, "", "not both kinds of connections occur")
    n = 0
    for p, ep in conn[:1]:
        H = root(ep)
        for (v, w), (s, pl) in closures(c, p, roots=("A", "P", "G", "H")).items():
            if root(pl) != H or w not in ("input", "disconnect"): continue
            if w == "disconnect":
                I = p.I
                kp = [k for k, v in s.m.items() if k[0] == "F" and k[2] == "#ptr" and root(k) == H and (v == mkaddr(H) or mkP(v) == H)]
                old = dict(I.hooks); I.hooks.update(hooks)
                try: rs, lid = run_closure(c, I, s, pl, w, keep=[k for k in kp])
                finally: I.hooks.clear(); I.hooks.update(old)
                for r in rs:
                    if r.out == "abort": continue
                    n += 1
                    d = evs(r, "delete") + [x for x in calls(r, "reset")]
                    c.check("R5", len(d) >= 1, SRV, fwhere(W), "a removed endpoint does not end its connection", r, inst="removed endpoint")
    if not n: raise CheckError("anchor vanished: no disconnect handler of a connection")
    # ---- endpoint registry
    pollf = c.field(ENG, r"vector<.*pollfd"); PF = ("F", ("A", "this"), pollf)
    epf = c.field(ENG, r"vector<.*PosixEndpointEntry ?\*"); EP = ("F", ("A", "this"), epf)
    lst = ("F", ("A", "this"), c.field(ENG, r"intrusive_list<"))
    kinds = set()
    GROW = ("emplace_back", "push_back")
    for f in c.fns(ENG + "::RegisterPosixEndpoint"):
        en = ("A", f["p"][0]["n"]); fdin = inp(f["p"][0]["n"], "fd")
        for p in c.run(f, opaque=opq, hooks=hooks):
            if p.out != "ret": continue
            I, st = p.I, p.st
            me = [b for t, b in st.f.items() if t[0] == "op" and t[1] == "==" and any("get_id" in show(y) for y in t[2:])]
            c.check("R6", True in me, name(f), fwhere(f), "the registry is changed outside the callback thread", p, inst="callback thread")
            g1 = [e for x in GROW for i, e in calls(p, x) if e.o == PF]; g2 = [e for x in GROW for i, e in calls(p, x) if e.o == EP]
            s1 = {}; s2 = {}
            for e in p.tr:
                if e.k == "wr" and e.p[0] == "E" and e.p[1] == EP: s2[e.p[2]] = e.v
                if e.k == "wr" and under(e.p, PF) and e.p != PF:
                    q = e.p
                    while q[0] != "E": q = q[1]
                    s1[q[2]] = I.read(st, ("F", q, "fd"))
            if g1 or g2:
                kinds.add("new")
                c.check("R6", len(g1) == 1 and len(g2) == 1 and not s1 and not s2, name(f), fwhere(f), "a new slot is added to only one of the two lists", p, inst="new slot")
                if g1 and g2:
                    c.check("R6", any(a == mkaddr(en) or a == en for a in g2[0].a) or mkaddr(en) in g2[0].a, name(f), g2[0].where(), "another endpoint is entered", p, inst="endpoint")
            else:
                kinds.add("free")
                c.check("R6", len(s1) == 1 and list(s1) == list(s2) and list(s1.values()) == [fdin] and list(s2.values()) == [mkaddr(en)], name(f), fwhere(f), "descriptor slots %s and endpoint slots %s are filled" % ([show(x) for x in s1], [show(x) for x in s2]), p, inst="free slot")
                for k in s1:
                    free = [b for t, b in st.f.items() if t[0] == "op" and t[1] in ("<", "==") and any(y and y[0] == "fld" and y[2] == "fd" and show(y[1]).endswith("[%s]" % show(k)) for y in t[2:] if isinstance(y, tuple))]
                    c.check("R6", True in free, name(f), fwhere(f), "a slot is reused that was not seen to be free", p, inst="slot was free")
            ls = [e for x in ("push_back", "push_front", "insert") for i, e in calls(p, x) if e.o == lst]
            c.check("R6", len(ls) == 1, name(f), fwhere(f), "the endpoint is listed %d times" % len(ls), p, inst="listed")
    if "new" not in kinds: raise CheckError("registering never adds a slot")
    n = 0
    for f in c.fns(ENG + "::UnregisterPosixEndpoint"):
        en = ("A", f["p"][0]["n"])
        for p in c.run(f, opaque=opq, hooks=hooks):
            if p.out != "ret": continue
            I, st = p.I, p.st
            eqs = [(t, b) for t, b in st.f.items() if t[0] == "op" and t[1] == "==" and any(y == mkaddr(en) or y == ("addr", en) for y in t[2:])]
            found = any(b for t, b in eqs)
            iv = [i for i, e in evs(p, "invoke")]
            w = {(e.p[0], e.p[1], e.p[2]): i for i, e in evs(p, "wr") if e.p[0] == "E" and e.p[1] == EP and e.v == NULL}
            fdw = [(e.p[1], i) for i, e in evs(p, "wr") if e.p[0] == "F" and e.p[2] == "fd" and I.truth(st, I.binop(st, "<", e.v, FALSE)) is True]
            rvw = [(e.p[1], i) for i, e in evs(p, "wr") if e.p[0] == "F" and e.p[2] == "revents" and e.v == FALSE]
            er = [i for x in ("erase", "remove_if", "remove_and_dispose_if") for i, e in calls(p, x) if e.o == lst]
            if not found:
                c.check("R6", not w and not fdw and not iv and not er, name(f), fwhere(f), "something else is removed", p, inst="unknown endpoint"); continue
            n += 1
            idx = [k[2] for k in w]
            c.check("R6", len(w) == 1 and len(fdw) == 1 and len(rvw) == 1 and len(er) == 1 and fdw[0][0][0] == "E" and fdw[0][0][2] == idx[0] and rvw[0][0] == fdw[0][0], name(f), fwhere(f), "the endpoint is not removed from every list", p, inst="removed everywhere")
            if w: c.check("R6", any(b and any(show(y).endswith("[%s]" % show(idx[0])) for y in t[2:]) for t, b in eqs), name(f), fwhere(f), "another endpoint's slot is cleared", p, inst="own slot")
            last = max(list(w.values()) + [i for _, i in fdw] + [i for _, i in rvw] + er, default=0)
            has = [b for t, b in st.f.items() if "disconnect" in show(t) and show(t).endswith("#set")]
            c.check("R6", len(iv) == (1 if True in has else 0) and all(i > last for i in iv), name(f), fwhere(f), "the owner is told %d times, or before the endpoint is removed" % len(iv), p, inst="told afterwards")
    if not n: raise CheckError("no endpoint is ever removed")
