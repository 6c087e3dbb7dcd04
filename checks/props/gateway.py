"""P29: messages between gateways"""
import re
from core import *
from absint import *
from models import F, src_place
from db import CheckError
import tables
from props.names import enumval, calls_made
from props.servicedisc import ret_ok, THIS
GW = "score::mw::com::gateway::"
T = "score/mw/com/gateway/transport_layer/sample/"
FR = GW + "MessageFramer"
HD = GW + "MessageHeader"
SO = "score::os::Socket::"


def at(v):
    """address -> (object, offset)"""
    o = 0
    while v is not None and v[0] == "op" and v[1] == "+" and v[3][0] == "c": o += v[3][1]; v = v[2]
    if v is not None and v[0] == "op" and v[1] == "+" and v[2][0] == "c": o += v[2][1]; v = v[3]
    if v is None or v[0] == "c": return None, None
    k = mkP(v)
    if isinstance(k, tuple) and k and k[0] == "E" and k[2][0] == "c": return k[1], o + k[2][1]
    return k, o


def expected(I, s, ok, val=None):
    p = I.tmp(s); I.setobj(s, p, ("exp", s.n)); s.n += 1
    s.m[F(p, "#has")] = C(ok)
    if ok: s.m[F(p, "#val")] = val
    return ("obj", p)


def transfer(what, zero):
    """sending or receiving part of a stream: all of it, a part of it, an error, and for receiving the end of the stream"""
    def h(I, st, e, op, vs):
        a, n = I.scal(st, vs[1]), I.scal(st, vs[2])
        r = []
        if n[0] != "c": I.emit(st, "io", what=what, a=a, n=None, res=None); return [(st, expected(I, st, False))]
        n = n[1]
        for k in [n] + ([n - 3] if n > 3 else []) + ([0] if zero else []) + [None]:
            s = st.copy()
            I.emit(s, "io", what=what, a=a, n=n, res=k)
            r.append((s, expected(I, s, k is not None, C(k or 0))))
        return r
    return h


def stream(ts, parts):
    """do the transfers move exactly the given [(object, size)] in this order?  -> moved all, problem"""
    i, o = 0, 0
    for j, e in enumerate(ts):
        if e.n is None: return False, "moves a number of bytes that is not known"
        if i >= len(parts): return False, "moves more bytes than the message has"
        b, k = at(e.a)
        if parts[i][0] is not None and b != parts[i][0]: return False, "moves bytes that are not part of the message"
        if k != o: return False, "continues at byte %s of a part of which %d bytes were moved" % (k, o)
        if o + e.n != parts[i][1]: return False, "moves %d bytes where %d are left" % (e.n, parts[i][1] - o)
        if not e.res:
            return False, None if j == len(ts) - 1 else "goes on after the stream has failed"
        o += e.res
        if o == parts[i][1]: i, o = i + 1, 0
    return i == len(parts), None


class Put:
    """a field of one byte that is assigned to its place in the buffer"""
    def __init__(self, b, o, f, v): self.b, self.o, self.n, self.f, self.v = b, o, 1, f, v


def wire(layout, vals):
    """memcpy between the fields of a header and a buffer; layout is learned (sending) or used (receiving)"""
    def h(I, st, e, op, vs):
        d, s, n = [I.scal(st, v) for v in vs[:3]]
        if n[0] != "c": return None
        df = isinstance(mkP(d), tuple) and mkP(d)[0] == "F"; sf = isinstance(mkP(s), tuple) and mkP(s)[0] == "F"
        if sf and not df and d[0] != "c":
            b, o = at(d)
            I.emit(st, "put", b=b, o=o, n=n[1], f=mkP(s)[2], v=I.read(st, mkP(s)))
            return [(st, d)]
        if df and not sf and s[0] != "c":
            b, o = at(s); f = layout.get((o, n[1]))
            I.emit(st, "get", b=b, o=o, n=n[1], f=mkP(d)[2])
            if f in vals: st.m[mkP(d)] = C(vals[f])
            return [(st, d)]
        return None
    return h


def framing(c):
    hf = {x["n"]: x["t"] for x in c.db.cls(HD)[0]["fields"]}
    ty = [n for n, t in hf.items() if t.endswith("MessageType")]; sz = [n for n in hf if "size" in n]; sq = [n for n in hf if n not in ty + sz]
    if [len(x) for x in (ty, sz, sq)] != [1, 1, 1]: raise CheckError("anchor vanished: fields of the message header")
    ty, sz, sq = ty[0], sz[0], sq[0]
    width = {ty: 1, sz: 4, sq: 4}; total = sum(width.values())
    bufs = {x["n"]: int(re.search(r",\s*(\d+)", x["t"]).group(1)) for x in c.db.cls(FR)[0]["fields"] if strip_targs(x["t"]) == "std::array"}
    layout = {}
    mh = c.field(GW + "TransportMessage", r"MessageHeader$")
    for f in c.fns(FR + "::SendMessage"):
        msg = [x["n"] for x in f["p"] if "TransportMessage" in x["t"]][0]
        for n in (0, 1, 5):
            def ser(I, st, e, op, vs):
                I.emit(st, "ser", b=vs[0][1] if vs[0][0] in ("ref", "obj") else None, o=st.copy()); return [(st, C(n))]
            hk = {SO + "sendto": transfer("send", False), GW + "TransportMessage::Serialize": ser}
            for k in ("memcpy", "std::memcpy"): hk[k] = wire({}, {})
            k = 0
            for p in c.run(f, hooks=hk, loops=8, setup=lambda I, st: [st.m.__setitem__(F(F(("A", msg), mh), x), inp(x)) for x in hf]):
                ts = [e for i, e in evs(p, "io")]; pu = [e for i, e in evs(p, "put")]; se = [e for i, e in evs(p, "ser")]
                if pu: pu = pu + [Put(pu[0].b, k[2][1], x, v) for k, v in list(p.st.m.items()) for x in hf
                                   if isinstance(k, tuple) and k[0] == "E" and k[1] == pu[0].b and k[2][0] == "c" and v == inp(x) and width[x] == 1]
                ok = ret_ok(p); bad = None; k += 1
                if p.out != "ret": bad = "sending a message ends the process"
                elif n == 0: bad = "a message that cannot be written is sent" if ts or ok is not False else None
                else:
                    lay = {(e.o, e.n): e.f for e in pu}; bs = {e.b for e in pu}
                    if sorted((x, y) for (x, y), z in lay.items()) != spread([width[lay[k]] for k in sorted(lay)]) or {z: y for (x, y), z in lay.items()} != width: bad = "the header does not hold each of its fields once"
                    elif len(bs) != 1: bad = "the header is written to several places"
                    else:
                        layout.update(lay); got = {e.f: e.v for e in pu}
                        sp = se[0].o.m.get(F(se[0].b, "#data")) if se and se[0].b else None
                        body = at(sp)[0] if sp is not None else None
                        done, bad = stream(ts, [(list(bs)[0], total), (body, n)])
                        if not bad and got[sz] != C(n): bad = "the header announces another size than the one of the message"
                        if not bad and got[sq] != inp(sq): bad = "the header carries another sequence number"
                        if not bad and got[ty] != inp(ty): bad = "the header carries another kind of message"
                        if not bad and ok is not done: bad = "success is reported although the message was not sent completely" if ok else "an error is reported although the message was sent"
                if bad: c.bad("R1", name(f), fwhere(f), bad, p)
                else: c.ok("R1", name(f))
            if not k: raise CheckError("sending a message: no path analysed")
    receiving(c, hf, (ty, sz, sq), total, layout, bufs, mh)


def spread(ws):
    r, o = [], 0
    for w in ws: r.append((o, w)); o += w
    return r


def receiving(c, hf, names, total, layout, bufs, mh):
    ty, sz, sq = names
    kinds = enumval(c, GW + "MessageType")
    inv = [v for n, v in kinds.items() if "nvalid" in n]
    des = {f["sq"] for f in c.db.F.values() if f and f.get("c", "").startswith(GW) and f["sq"].endswith("::Deserialize")} | {GW + "TransportMessage::Deserialize"}
    for f in c.fns(FR + "::ReceiveMessage"):
        for kind in sorted(set(kinds.values()) | {126}):
            for size in (0, 4) if kind not in (min(kinds.values()), 126) else (0, 4, 4096, min(bufs.values()), max(bufs.values()) + 1, 4294967295):
                def d(I, st, e, op, vs):
                    r = []
                    for ok in (True, False):
                        s = st.copy(); b = vs[0][1] if vs[0][0] in ("ref", "obj") else None
                        I.emit(s, "des", a=s.m.get(F(b, "#data")), n=s.m.get(F(b, "#size")), res=ok, obj=op); r.append((s, C(ok)))
                    return r
                def recv(I, st, e, op, vs, do=transfer("recv", True)):
                    b, o = at(I.scal(st, vs[1])); r = do(I, st, e, op, vs)
                    for (o, w), x in layout.items():
                        if w == 1 and b is not None and b not in [F(THIS, y) for y in bufs]:
                            for s, v in r: s.m[("E", b, C(o))] = C({ty: kind, sz: size, sq: 77}[x])
                    return r
                hk = {SO + "recv": recv}
                for k in des: hk[k] = d
                for k in ("memcpy", "std::memcpy"): hk[k] = wire(layout, {ty: kind, sz: size, sq: 77})
                n = 0
                for p in c.run(f, hooks=hk, loops=8):
                    n += 1
                    bad = received(p, kind, size, total, kinds, inv, bufs, mh, names)
                    if bad: c.bad("R2", name(f), fwhere(f), bad, p)
                    else: c.ok("R2", name(f))
                if not n: raise CheckError("receiving a message: no path analysed")


def received(p, kind, size, total, kinds, inv, bufs, mh, names):
    ty, sz, sq = names
    if p.out != "ret": return "a message ends the process of its receiver"
    ts = [e for i, e in evs(p, "io")]; ge = [e for i, e in evs(p, "get")]; de = [e for i, e in evs(p, "des")]
    hb = ge[0].b if ge else None
    body = None; room = None
    for e in ts:
        b = at(e.a)[0]
        if b is not None and b[0] == "F" and b[2] in bufs: body, room = b, bufs[b[2]]
    if room is not None and size > room: return "a message longer than the buffer is received into it"
    done, bad = stream(ts, [(hb, total)] + ([(body, size)] if size and body else []))
    if bad: return bad
    if ge and not {sz, sq} <= {e.f for e in ge}: return "the header is not read as it is written"
    pl = p.ret[1] if p.ret[0] in ("obj", "ref") else None
    ptr = p.st.m.get(F(pl, "#ptr")) if pl else None
    if ptr is None: return "it is not certain whether a message was received"
    none = ptr == NULL or ptr == FALSE
    good = done and (not size or body is not None) and kind in kinds.values() and kind not in inv
    if size and good:
        if not de: return None if none and size > min(bufs.values()) else "the content of a message is not read"
        e = de[-1]
        if e.n != C(size): return "the content of a message is read from %s of its %d bytes" % (show(e.n) if e.n else "?", size)
        if e.a is None or at(e.a) != (body, 0): return "the content of a message is read from elsewhere"
        good = e.res
    if not good: return None if none else "a message is handed out which was not received completely, or is not one"
    if none: return "a message that was received is dropped"
    o = mkP(ptr)
    if p.st.m.get(F(F(o, mh), ty)) != C(kind): return "a message of another kind is handed out"
    if p.st.m.get(F(F(o, mh), sq)) != C(77): return "the message handed out has another sequence number"
    return None


def contents(c):
    """what a message consists of is written and read completely, and means the same to its receiver"""
    mh = c.field(GW + "TransportMessage", r"MessageHeader$")
    orders = {}
    for f in c.db.F.values():
        if not f or not f["sq"].endswith("::GetSerializeMembers") or not f.get("c", "").startswith(GW) or f.get("body") is None: continue
        for p in c.run(f):
            r = p.ret[1] if p.ret and p.ret[0] in ("obj", "ref") else None
            got, i = [], 0
            while r and F(r, "#%d" % i) in p.st.m:
                k = mkP(p.st.m[F(r, "#%d" % i)]); i += 1
                got.append(k[2] if isinstance(k, tuple) and k[0] == "F" and k[1] == THIS else "?")
            want = members(c, f["c"], mh)
            if sorted(got) != sorted(want): c.bad("R3", name(f), fwhere(f), "of the members %s those sent or received are %s" % (", ".join(want), ", ".join(got) or "none"), p)
            elif orders.setdefault(f["c"], got) != got: c.bad("R3", name(f), fwhere(f), "members are received in another order than they are sent", p)
            else: c.ok("R3", name(f))
    if not orders: raise CheckError("anchor vanished: members of messages")
    for q, k in list(c.db.C.items()):
        if q.startswith(GW) and q not in orders and "Mock" not in q and q != GW + "TransportMessage" and mh in inherited(c, q) and k.get("fields"):
            c.bad("R3", q, "-", "the members %s of a message are not sent" % ", ".join(x["n"] for x in k["fields"]))
    n = 0
    for f in c.db.F.values():
        if not f or f["sq"] not in (GW + "Serialize", GW + "Deserialize") or len(f.get("p") or ()) != 3 or "trivially" not in f["p"][2]["t"]: continue
        t = base_type(f["p"][0]["t"]); n += 1
        bad = raw(c, t, [])
        if bad: c.bad("R3", name(f), fwhere(f), "%s is sent as raw bytes although it holds %s, which means nothing to the receiver" % (t, bad))
        else: c.ok("R3", t)
    if not n: raise CheckError("anchor vanished: values sent as raw bytes")


def members(c, q, mh):
    r = []
    for k in c.db.cls(q):
        for b in k.get("bases") or ():
            b = strip_targs(base_type(b["t"] if isinstance(b, dict) else b))
            if b.startswith(GW): r += members(c, b, mh)
        return r + [x["n"] for x in k["fields"] if x["n"] != mh]
    return r


def inherited(c, q):
    r = []
    for b in (c.db.C.get(q) or {}).get("bases") or ():
        b = strip_targs(base_type(b["t"] if isinstance(b, dict) else b))
        if b.startswith(GW): r += [x["n"] for x in (c.db.C.get(b) or {}).get("fields", ())] + inherited(c, b)
    return r


def raw(c, t, seen):
    """does a value of type t hold something that only has a meaning in the process it is from?"""
    if t.endswith(("*", "&", ")")): return "an address"
    b = base_type(t); s = strip_targs(b)
    if t in seen: return None
    if s == "std::array": return raw(c, targ0(b), seen + [t])
    if s.startswith(("std::", "score::cpp::")): return "a " + s
    k = c.db.C.get(b) or c.db.C.get(s)
    for x in (k or {}).get("fields", ()):
        bad = raw(c, x["t"], seen + [t])
        if bad: return bad
    return None


TR = GW + "PendingRequestTracker"
BT = GW + "BidirectionalTransport"


def waiting(c):
    """requests that wait for their acknowledgement"""
    tab = c.field(TR, r"map<"); mx = c.field(TR, r"std::mutex$"); TB = F(THIS, tab); M = F(THIS, mx)
    ent = [x["n"] for k in c.db.cls(base_type(targ0([x["t"] for x in c.db.cls(TR)[0]["fields"] if x["n"] == tab][0], 1))) for x in k["fields"]]
    if len(ent) != 1: raise CheckError("anchor vanished: acknowledgement of a request")
    hk = tables.hooks()

    def runs(n, there, acked, **kw):
        for f in c.fns(TR + "::" + n):
            arg = [x["n"] for x in f["p"] if "int" in x["t"]]

            def setup(I, st):
                tables.fill(I, st, TB, 2 if there else 1, "request")
                for i in range(2 if there else 1):
                    e = ("E", TB, C(i)); st.m[F(e, "first")] = C(40 + i); st.m[F(F(e, "second"), ent[0])] = C(acked)
            for p in c.run(f, hooks=dict(hk), setup=setup, args={arg[0]: C(41)} if arg else {}):
                t = {}
                for i in range(tables.size(p.st, TB) or 0):
                    e = ("E", TB, C(i)); k = p.st.m.get(F(e, "first")); t[k[1] if k and k[0] == "c" else k] = p.I.truth(p.st, p.I.read(p.st, F(F(e, "second"), ent[0])))
                lk = [e for i, e in evs(p, "lock")]
                bad = "a request is looked up without the lock" if not any(e.m == M for e in lk) else None
                yield f, p, t, bad

    def judge(f, p, bad):
        if p.out != "ret": bad = "the process ends"
        if bad: c.bad("R4", name(f), fwhere(f), bad, p)
        else: c.ok("R4", name(f))
    for there in (True, False):
        for acked in (True, False):
            o = {40: acked}
            for f, p, t, bad in runs("RegisterPendingRequest", there, acked): judge(f, p, bad or (None if t == {**o, 41: False} else "a request that starts is not waiting for its acknowledgement, or another one is changed"))
            for f, p, t, bad in runs("ErasePendingRequest", there, acked): judge(f, p, bad or (None if t == o else "a request that ended is kept, or another one is lost"))
            for f, p, t, bad in runs("ResetAcknowledgement", there, acked): judge(f, p, bad or (None if t == ({**o, 41: False} if there else o) else "the acknowledgement of the request is kept, or another one is changed"))
            for f, p, t, bad in runs("Acknowledge", there, acked):
                nt = [e for i, e in evs(p, "notify")]
                judge(f, p, bad or ("the acknowledgement is not recorded for exactly its request" if t != ({**o, 41: True} if there else o) else None) or ("the waiting request is not woken up" if there and not any(e.all for e in nt) else None))
            for f, p, t, bad in runs("WaitForAck", there, acked):
                w = [e for i, e in evs(p, "cvwait")]; ok = ret_ok(p)
                if bad: pass
                elif not there: bad = "success is reported for a request that does not exist" if ok is not False else None
                elif acked and ok is not True: bad = "a request that was acknowledged is reported as failed"
                elif ok is not False and t.get(41, p.I.truth(p.st, p.I.read(p.st, F(F(("E", TB, C(1)), "second"), ent[0])))) is not True: bad = "success is reported for a request that was not acknowledged"
                elif any(not e.timed for e in w): bad = "the wait for an acknowledgement has no time limit"
                judge(f, p, bad)


def step(what, val=None):
    def h(I, st, e, op, vs):
        r = []
        for ok in (True, False) if val is None else (val,):
            s = st.copy()
            I.emit(s, "of", what=what, a=[I.scal(s, v) if v[0] not in ("ref", "obj") else v for v in vs], o=s.copy(), res=ok)
            r.append((s, expected(I, s, ok) if val is None else val if isinstance(val, tuple) else VOID))
        return r
    return h


def locked(p, m):
    h, out = 0, []
    for e in p.tr:
        if e.k == "lock" and e.m == m: h += 1
        elif e.k == "unlock" and e.m == m: h -= 1
        out.append(h > 0)
    return out


def requests(c):
    it = GW + "IPendingRequestTracker::"; fr = GW + "IMessageFramer::"
    hk = {it + "GetNextSequenceNumber": step("next", C(5)), it + "WaitForAck": step("wait")}
    for n in ("RegisterPendingRequest", "ErasePendingRequest", "ResetAcknowledgement", "Acknowledge", "NotifyAll"): hk[it + n] = step(n, True)
    hk[fr + "SendMessage"] = step("send")
    mh = c.field(GW + "TransportMessage", r"MessageHeader$")
    hf = {x["n"]: x["t"] for x in c.db.cls(HD)[0]["fields"]}
    ty = [n for n, t in hf.items() if t.endswith("MessageType")][0]; sq = [n for n in hf if "seq" in n]
    if not sq: raise CheckError("anchor vanished: sequence number")
    sq = sq[0]
    locks = [x["n"] for x in c.db.cls(BT)[0]["fields"] if x["t"] == "std::mutex"]

    def judge(f, p, bad, rule="R5"):
        if p.out != "ret": bad = "the process ends"
        if bad: c.bad(rule, name(f), fwhere(f), bad, p)
        else: c.ok(rule, name(f))
    sends = {}
    for f in c.fns(BT + "::SendRequest"):
        msg = [x["n"] for x in f["p"] if "TransportMessage" in x["t"]][0]
        for p in c.run(f, hooks=dict(hk), loops=4):
            t = [(i, e) for i, e in evs(p, "of")]; w = [e.what for i, e in t]; ok = ret_ok(p); bad = None
            held = {m: locked(p, F(THIS, m)) for m in locks}
            last = [e for i, e in t if e.what == "wait"]
            for i, e in t:
                if e.what == "send":
                    sends[p] = {m for m in locks if held[m][i]}
                    if e.o.m.get(F(F(("A", msg), mh), sq)) != C(5): bad = "the request is sent under another number than it waits for"
                elif e.what not in ("next", "NotifyAll"):
                    if not e.a or e.a[0] != C(5): bad = "another request than the one sent is handled"
                    if e.what == "wait" and any(held[m][i] for m in locks): bad = "nothing else can be sent while a request waits"
            for i, e in enumerate(w):
                if e == "send" and "RegisterPendingRequest" not in w[:i]: bad = bad or "the request is sent before it waits for its acknowledgement"
                if e == "wait" and (i == 0 or w[i - 1] != "send" or not t[i - 1][1].res): bad = bad or "a request waits that was not sent"
                if e == "send" and "ErasePendingRequest" in w[:i] and "RegisterPendingRequest" not in w[w[:i].index("ErasePendingRequest"):i]: bad = bad or "a request that ended is sent again"
                if e == "wait" and t[i][1].res and "send" in w[i:]: bad = bad or "a request that was acknowledged is sent again"
            if "RegisterPendingRequest" in w and (w.count("ErasePendingRequest") != w.count("RegisterPendingRequest") or w[-1] in ("wait", "send", "RegisterPendingRequest")): bad = bad or "a request that ended keeps waiting for its acknowledgement"
            if ok is not bool(last and last[-1].res and w[::-1].index("wait") < (w[::-1].index("send") if "send" in w else 99)): bad = bad or "a request is reported as %s although it was %sacknowledged" % ("successful" if ok else "failed", "not " if ok else "")
            judge(f, p, bad)
    if not sends: raise CheckError("sending a request: no path analysed")
    for n in ("SendNotification",):
        for f in c.fns(BT + "::" + n):
            for p in c.run(f, hooks=dict(hk)):
                t = evs(p, "of"); ok = ret_ok(p); bad = None
                for i, e in t:
                    if e.what == "send": sends[p] = {m for m in locks if locked(p, F(THIS, m))[i]}
                if ok is not any(e.what == "send" and e.res for i, e in t): bad = "a notification is reported as sent although it was not, or the other way round"
                if len([1 for i, e in t if e.what == "send"]) > 1: bad = "a notification is sent twice"
                judge(f, p, bad)
    incoming(c, hk, mh, ty, sq, judge, sends, locks)
    common = set.intersection(*sends.values())
    for p, m in sends.items():
        if not common: judge(p.fn, p, "messages may be sent at the same time and mix on the stream")
        else: judge(p.fn, p, None)


def incoming(c, hk, mh, ty, sq, judge, sends, locks):
    kinds = enumval(c, GW + "MessageType")
    queue = [x["n"] for x in c.db.cls(BT)[0]["fields"] if strip_targs(x["t"]) in ("std::queue", "std::deque", "std::list")]
    if len(queue) != 1: raise CheckError("anchor vanished: queue of received messages")
    qp = F(THIS, queue[0]); h = dict(hk)
    for k in ("std::queue::push", "std::queue::emplace", "std::deque::push_back", "std::deque::emplace_back", "std::list::push_back"): h[k] = step("queue", True)
    for f in c.fns(BT + "::HandleIncomingMessage"):
        msg = f["p"][0]["n"]; O = ("X", "message")
        for kn, kind in kinds.items():
            if "nvalid" in kn: continue
            resp, req = "Response" in kn or "Ack" in kn, "Request" in kn

            def setup(I, st):
                st.m[F(("A", msg), "#ptr")] = mkaddr(O)
                st.m[F(F(O, mh), ty)] = C(kind); st.m[F(F(O, mh), sq)] = C(9)
                for k in c.db.cls(GW + "AckResponse"):
                    for x in k["fields"]: st.m[F(O, x["n"])] = C(6)
            seen = set()
            for p in c.run(f, hooks=dict(h), setup=setup):
                t = evs(p, "of"); w = [e.what for i, e in t]; bad = None
                seen.update(w)
                for i, e in t:
                    if e.what == "send": sends[p] = {m for m in locks if locked(p, F(THIS, m))[i]}
                if resp:
                    if w != ["Acknowledge"] or t[0][1].a[0] != C(6): bad = "an acknowledgement does not reach the request it is for"
                elif "Acknowledge" in w: bad = "a message that is not an acknowledgement acknowledges a request"
                elif req:
                    if "queue" in w and w[:w.index("queue")] != ["send"]: bad = "a request is handled that was not acknowledged"
                    if "send" in w:
                        a = t[w.index("send")][1]; b = a.a[1][1] if a.a[1][0] in ("ref", "obj") else None
                        ids = [a.o.m.get(F(b, x["n"])) for k in c.db.cls(GW + "AckResponse") for x in k["fields"]] if b else []
                        if ids != [C(9)]: bad = "another request than the one received is acknowledged"
                        if a.res and "queue" not in w: bad = "a request is acknowledged but not handled"
                elif "send" in w: bad = "a notification is acknowledged"
                if w.count("queue") > 1: bad = "a message is handled twice"
                for i, e in t:
                    if e.what == "queue" and not any(locked(p, F(THIS, m))[i] for m in locks): bad = "a received message is queued without the lock"
                if "queue" in w and not any(e.k == "notify" for e in p.tr[t[w.index("queue")][0]:]): bad = bad or "the handling of a queued message is not started"
                judge(f, p, bad)
            if not resp and "queue" not in seen: judge(f, p, "a message that was received is never handled")


def wakeups(c):
    """a waiting thread must not miss that what it waits for has happened"""
    for cls in (TR, BT):
        pairs = {}; fs = [f for f in c.db.F.values() if f and f.get("c") == cls and f.get("body") is not None and not f.get("lam") and any("condition_variable" in x for x in calls_made(f))]
        runs = {}
        for f in fs:
            ps = c.run(f, hooks={}); runs[f["u"]] = (f, ps)
            for p in ps:
                for i, e in evs(p, "cvwait"): pairs[e.cv] = e.m
        if not pairs: raise CheckError("anchor vanished: waiting threads of " + cls)
        n = 0
        for f, ps in runs.values():
            for p in ps:
                for i, e in evs(p, "notify"):
                    m = pairs.get(e.cv)
                    if m is None: continue
                    n += 1
                    if any(x.k == "lock" and x.m == m for x in p.tr[:i]): c.ok("R6", name(f))
                    else: c.bad("R6", name(f), fwhere(f), "wakes up a waiting thread without ever taking its lock, so that the thread misses it between looking and waiting", p)
        if not n: raise CheckError("anchor vanished: wake-ups of " + cls)


@prop("P29", [T + "*.cpp", T + "messages/*.cpp"])
def p29(c):
    c.rule("R1", "sending a message sends the header, which announces the kind, number and size, and then the content, completely and in order; success is reported exactly then, and a message that cannot be written is not sent at all")
    c.rule("R2", "receiving reads exactly the header and the announced content, never more than there is room for, and hands out the message, with its kind and number, exactly if it was received and read completely")
    framing(c)
    c.rule("R3", "every member of a message is sent and received, in the same order, and what is sent as raw bytes holds no address")
    contents(c)
    c.rule("R4", "a request counts as acknowledged exactly if the acknowledgement for its number has come since it started; all this under the lock")
    waiting(c)
    c.rule("R5", "a request waits under its number before it is sent, succeeds exactly if it is acknowledged, and waits no longer when it has ended; a received request is acknowledged and handled once; messages are sent one at a time")
    requests(c)
    c.rule("R6", "a thread that waits for an acknowledgement, a message or the end does not miss it")
    wakeups(c)
