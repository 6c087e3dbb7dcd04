"""P28: who may use the memory of a service"""
import re
from core import *
from absint import *
from models import F, src_place
from db import CheckError
import tables
from props.names import enumval, calls_made
from props.offering import result, MM
from props.servicedisc import ret_ok, NS, L, THIS
SMF = "score::memory::shared::SharedMemoryFactory"
D = NS + "LolaServiceInstanceDeployment"


def name_hook(c, base):
    def h(I, st, e, op, vs):
        a = tuple(I.scal(st, v) for v in vs)
        return [(st, ("str", "%s|%s" % (base, ",".join(str(x[1]) if x[0] == "c" else show(x) for x in a))))]
    return h


def create(I, st, e, op, vs):
    r = []
    for ok in (True, False):
        s = st.copy()
        I.emit(s, "of", what="create", a=list(vs), o=s.copy(), res=ok)
        p = I.tmp(s); s.m[F(p, "#ptr")] = mkaddr(("X", "mem%d" % s.n)) if ok else NULL; s.n += 1
        r.append((s, ("obj", p)))
    return r


CONF = [((1, (10, 11)), (2, (20,))), ((2, (20, 21, 22)), (1, (10,))), ((1, (10,)),), ((2, (20, 10)),), ((1, ()), (2, ())), ()]     # level (1: QM, 2: ASIL-B), users


def hooks0(c):
    h = tables.hooks()
    for k in ("IShmPathBuilder", "ShmPathBuilder"):
        h[L + k + "::GetControlChannelShmName"] = name_hook(c, "control"); h[L + k + "::GetDataChannelShmName"] = name_hook(c, "data")
    h[SMF + "::Create"] = create; h[SMF + "::Open"] = create
    return h


def consumer_side(c, hk, LV):
    fs = [f for f in c.db.F.values() if f and f.get("body") is not None and f["file"].endswith("lola/proxy.cpp") and SMF + "::Open" in calls_made(f)]
    if not fs: raise CheckError("anchor vanished: opening the memory of a service in the proxy")
    for f in fs:
        qi = [x["n"] for x in f["p"] if base_type(x["t"]).endswith("QualityType")]
        di = [x["n"] for x in f["p"] if "LolaServiceInstanceDeployment" in x["t"]]
        for conf in CONF[:4] + [()]:
            for strict in (False, True):
                for q in (1, 2):
                    def setup(I, st):
                        d = ("A", di[0])
                        st.m[F(d, "strict_permissions_")] = C(strict)
                        T = F(d, "allowed_provider_"); tables.fill(I, st, T, len(conf), "provider")
                        for i, (k, us) in enumerate(conf):
                            e = ("E", T, C(i)); st.m[F(e, "first")] = C(LV[k])
                            tables.fill(I, st, F(e, "second"), len(us), "uid%d" % i)
                            for j, u in enumerate(us): st.m[("E", F(e, "second"), C(j))] = C(u)
                    for p in c.run(f, hooks=hk, setup=setup, args={qi[0]: C(LV[q])}):
                        t = [e for i, e in evs(p, "of")]
                        if p.out != "ret": c.bad("R4", name(f), fwhere(f), "a memory that cannot be opened ends the process", p); continue
                        bad = None
                        for e in t: bad = bad or consumer_open(e, q, conf, strict, LV, di[0])
                        if bad: c.bad("R4", name(f), fwhere(f), bad, p)
                        elif t: c.ok("R4", name(f))


def consumer_open(e, q, conf, strict, LV, d):
    k = which(e, LV)
    if k not in ("data", "control%d" % q): return "a consumer opens memory that is not the data or the control memory of its own level"
    rw = e.a[1] if e.a[1][0] == "c" else None
    lv = "data" if k == "data" else "control"
    if rw is None: return "it is not certain how the %s memory is opened" % lv
    if lv == "data" and rw != FALSE: return "a consumer opens the data memory writable"
    if lv == "control" and rw != TRUE: return "a consumer opens its control memory read-only"
    cfg = [us for l, us in conf if l == q]
    if len(e.a) < 3: got = None
    else:
        pl = e.a[2][1] if e.a[2][0] in ("ref", "obj") else None
        has = e.o.m.get(F(pl, "#has")) if pl else None
        if has is None: return "it is not certain which providers are accepted"
        got = None
        if has == TRUE:
            n = e.o.m.get(F(F(pl, "#val"), "#size")); a = e.o.m.get(F(F(pl, "#val"), "#data"))
            if n == C(0): got = ()
            elif n is None or n[0] != "c" or a is None: return "it is not certain which providers are accepted"
            else:
                T = F(("A", d), "allowed_provider_")
                own = [i for i, (l, us) in enumerate(conf) if within(mkP(a), F(("E", T, C(i)), "second"))]
                got = tuple(conf[own[0]][1][:n[1]]) if own else None
                if not own: return "the accepted providers are not those configured"
    if cfg: return None if got == tuple(cfg[0]) else "memory of providers other than those configured for the level is accepted"
    if strict: return None if got == () else "memory of any provider is accepted although permissions are strict"
    return None if got is None else "providers are refused although none are configured and permissions are not strict"


def method_memory(c, R, W):
    """the memory through which a proxy calls methods: shared by the proxy and the provider only"""
    hk = tables.hooks()
    hk.update({SMF + "::Create": create, SMF + "::Open": create, SMF + "::RemoveStaleArtefacts": lambda I, st, e, op, vs: [(st, VOID)]})
    uid = c.field(L + "ServiceDataStorage", r"uid_t$|^unsigned int$")
    for what, file in (("Open", "lola/skeleton.cpp"), ("Create", "lola/proxy.cpp")):
        fs = [f for f in c.db.F.values() if f and f.get("body") is not None and f["file"].endswith(file) and SMF + "::" + what in calls_made(f)]
        if what == "Open": fs = [f for f in fs if any(base_type(x["t"]).endswith(("uid_t", "unsigned int")) for x in f["p"])]
        if not fs: raise CheckError("anchor vanished: the memory for method calls")
        for f in fs:
            n = 0
            for p in c.run(f, hooks=dict(hk), opaque=lambda s, g: bool(g) and s.startswith(NS) and "lambda" not in s and not about_users(c.db, g)):
                for i, e in evs(p, "of"):
                    n += 1
                    bad = opened_for(e, f) if what == "Open" else made_for(e, uid, R, W)
                    if bad: c.bad("R5", name(f), fwhere(f), bad, p)
                    else: c.ok("R5", name(f))
            if not n: raise CheckError("the memory for method calls: no path analysed")


def about_users(db, g):
    g = db.F.get(g.get("u")) or g
    ts = [g.get("rt") or ""] + [x["t"] for x in g.get("p") or () if x["t"].endswith("&") and not x["t"].startswith("const ")]
    return any("ermission" in t or re.search(r"\b(uid_t|unsigned int)\b", t) for t in ts)


def users_in(o, v):
    """the users a list holds, None if that is not known"""
    if v is None: return None
    n = o.m.get(F(v, "#size"))
    if n is None or n[0] != "c": return None
    a = o.m.get(F(v, "#data"))
    return [o.m.get(("E", v, C(i))) if a is None else o.m.get(("E", mkP(a), C(i))) for i in range(n[1])]


def opened_for(e, f):
    if e.a[1] != TRUE: return "the provider opens the memory of the calls read-only"
    pl = e.a[2][1] if len(e.a) > 2 and e.a[2][0] in ("ref", "obj") else None
    if pl is None or e.o.m.get(F(pl, "#has")) == FALSE: return "the provider takes calls from memory that anybody may have made"
    us = users_in(e.o, F(pl, "#val")) if e.o.m.get(F(pl, "#has")) == TRUE else None
    if us is None: return "it is not certain whose memory the provider takes calls from"
    uid = [inp(x["n"]) for x in f["p"] if base_type(x["t"]).endswith(("uid_t", "unsigned int"))]
    return None if us and all(u in uid for u in us) else "the provider takes calls from memory which the calling process has not made"


def made_for(e, uid, R, W):
    pl = e.a[3][1] if len(e.a) > 3 and e.a[3][0] in ("ref", "obj") else None
    alt = e.o.m.get(F(pl, "#alt")) if pl else None
    if alt is None: return "the access rights of the memory of the calls are not known"
    if "map<" not in alt[1]: return "the memory of the calls is accessible to everybody"
    m = F(pl, "#T:" + alt[1]); got = {}
    for i in range(tables.size(e.o, m) or 0):
        el = ("E", m, C(i)); pr = e.o.m.get(F(el, "first")); us = users_in(e.o, F(el, "second"))
        if pr is None or pr[0] != "c" or us is None: return "the access rights of the memory of the calls are not known"
        got.setdefault(pr[1], []).extend(us)
    for us in got.values():
        for u in us:
            n = u and (u[1] if u[0] == "in" else u)
            if not n or n[0] not in ("F", "fld") or n[2] != uid: return "somebody else than the provider may use the memory of the calls"
    if not got.get(R) or not got.get(W): return "the provider may not read and write the memory of the calls"
    return None


def within(k, p):
    while isinstance(k, tuple) and k:
        if k == p: return True
        k = k[1] if len(k) > 1 and k[0] in ("F", "E", "B") else None
    return False


@prop("P28", ["score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp", "score/mw/com/impl/bindings/lola/proxy.cpp", "score/mw/com/impl/bindings/lola/skeleton.cpp"])
def p28(c):
    c.rule("R1", "control memory of a level is readable and writable by the consumers configured for that level only, data memory is readable by the configured consumers and writable by none; without configured consumers nobody, or, unless permissions are strict, everybody has that access")
    c.rule("R2", "an offer creates the control memory of each level of the service and its data memory, under the names and with the sizes of that service, and fails if one of them cannot be created")
    c.rule("R3", "reopening uses the same memory objects, and removing removes exactly them")
    c.rule("R4", "a consumer opens the control memory of its own level, the data memory read-only, and only memory made by the providers configured for that level; if none are configured, any provider, or under strict permissions none")
    c.rule("R5", "the memory of the method calls of a consumer is accessible to its provider only, and the provider takes calls from memory only which the calling user has made")
    qe = enumval(c, NS + "QualityType"); B, Q = qe["kASIL_B"], qe["kASIL_QM"]; LV = {1: Q, 2: B}
    dep = c.field(MM, r"LolaServiceInstanceDeployment &$"); qf = c.field(MM, r"QualityType$")
    pm = enumval(c, "score::os::Acl::Permission")
    if not pm: raise CheckError("anchor vanished: permissions")
    R, W = pm["kRead"], pm["kWrite"]
    have = {x["n"] for x in c.db.cls(D)[0]["fields"]}
    SZ = {"data": "shared_memory_size_", "control1": "control_qm_memory_size_", "control2": "control_asil_b_memory_size_"}
    for n in tuple(SZ.values()) + ("allowed_consumer_", "strict_permissions_"):
        if n not in have: raise CheckError("anchor vanished: %s of the deployment of an instance" % n)
    consumer_side(c, hooks0(c), LV)
    method_memory(c, R, W)
    paths = [x["n"] for x in c.db.cls(MM)[0]["fields"] if base_type(x["t"]).startswith("std::optional<std::basic_string") or base_type(x["t"]) == "std::optional<std::string>"]

    def fresh(I, st, ql):          # a manager that has not offered anything
        st.m[F(THIS, qf)] = C(ql)
        for n in paths: st.m[F(F(THIS, n), "#has")] = FALSE

    def hooks():
        h = tables.hooks()
        h[L + "IShmPathBuilder::GetControlChannelShmName"] = name_hook(c, "control"); h[L + "IShmPathBuilder::GetDataChannelShmName"] = name_hook(c, "data")
        h[SMF + "::Create"] = create; h[SMF + "::Open"] = create

        def remove(I, st, e, op, vs):
            I.emit(st, "rm", a=text(st, vs[0])); return [(st, VOID)]
        h[SMF + "::Remove"] = remove
        return h
    for ql in (Q, B):
        levels = [1] if ql == Q else [1, 2]
        for conf in CONF:
            for strict in (False, True):
                def setup(I, st):
                    fresh(I, st, ql)
                    d = mkP(I.read(st, F(THIS, dep)))
                    st.m[F(d, "strict_permissions_")] = C(strict)
                    for n in SZ.values(): st.m[F(F(d, n), "#has")] = TRUE; st.m[F(F(d, n), "#val")] = ("str", n)
                    T = F(d, "allowed_consumer_"); tables.fill(I, st, T, len(conf), "consumer")
                    for i, (q, us) in enumerate(conf):
                        e = ("E", T, C(i)); st.m[F(e, "first")] = C(LV[q])
                        tables.fill(I, st, F(e, "second"), len(us), "uid%d" % i)
                        for j, u in enumerate(us): st.m[("E", F(e, "second"), C(j))] = C(u)
                for f in c.fns(MM + "::CreateSharedMemory"):
                    n = 0
                    for p in c.run(f, hooks=hooks(), setup=setup):
                        t = [e for i, e in evs(p, "of")]
                        if p.out != "ret" and not t: continue          # a size calculation that does not exist
                        if p.out != "ret":
                            c.bad("R2", name(f), fwhere(f), "creating the memory ends the process", p); continue
                        n += 1
                        bad = None
                        for e in t:
                            b = access(e, conf, strict, R, W, LV)
                            if b: c.bad("R1", name(f), fwhere(f), b, p); bad = b
                        if not bad: c.ok("R1", name(f))
                        want = ["control%d" % k for k in levels] + ["data"]
                        bad = made(p, t, want, LV, SZ)
                        if bad: c.bad("R2", name(f), fwhere(f), bad, p)
                        else: c.ok("R2", name(f))
                        if ret_ok(p) is True and conf == CONF[0]: removed(c, p, hooks, [which(e, LV) for e in t])
                    if not n: raise CheckError("creating the memory of a service: no path analysed")
        for f in c.fns(MM + "::OpenExistingSharedMemory"):
            for p in c.run(f, hooks=hooks(), setup=lambda I, st: fresh(I, st, ql)):
                t = [e for i, e in evs(p, "of")]
                if p.out != "ret":
                    if not [e for e in t if not e.res]: continue       # memory without content
                    c.bad("R3", name(f), fwhere(f), "a memory that cannot be reopened ends the process", p); continue
                bad = made(p, t, ["control%d" % k for k in levels] + ["data"], LV, None)
                if bad: c.bad("R3", name(f), fwhere(f), bad.replace("created", "reopened"), p)
                else: c.ok("R3", name(f))
                if ret_ok(p) is True: removed(c, p, hooks, [which(e, LV) for e in t])


def text(st, v):
    x = st.m.get(("B", v[1])) if v[0] in ("ref", "obj") else v
    return x[1] if x is not None and x[0] == "str" else None


def which(e, LV):
    s = text(e.o, e.a[0])
    if s is None: return None
    if s.startswith("data|"): return "data"
    for k, v in LV.items():
        if s.startswith("control|") and s.endswith(",%d" % v): return "control%d" % k
    return None


def access(e, conf, strict, R, W, LV):
    k = which(e, LV)
    if k is None: return "a memory object is created under a name that is not the one of the service"
    pl = e.a[3][1] if e.a[3][0] in ("ref", "obj") else None
    alt = e.o.m.get(F(pl, "#alt")) if pl else None
    if alt is None: return "the access rights of the %s memory are not known" % k
    world = alt[1].split("::")[-1] if "map<" not in alt[1] else None
    users = set(u for q, us in conf for u in us if k == "data" or k == "control%d" % q)
    what = "data" if k == "data" else "control"
    lv = {"data": "data", "control1": "QM control", "control2": "ASIL-B control"}[k]
    if world:
        if users: return "the %s memory is accessible to everybody although consumers are configured" % lv
        if strict: return "the %s memory is accessible to everybody although permissions are strict" % lv
        if world != ("WorldReadable" if what == "data" else "WorldWritable"): return "the %s memory is %s" % (lv, world)
        return None
    m = F(pl, "#T:" + alt[1]); got = {}
    for i in range(tables.size(e.o, m) or 0):
        el = ("E", m, C(i)); pr = e.o.m.get(F(el, "first")); sec = F(el, "second")
        vals = [e.o.m.get(("E", sec, C(j))) for j in range(tables.size(e.o, sec) or 0)]
        if pr is None or pr[0] != "c" or any(v is None or v[0] != "c" for v in vals): return "the access rights of the %s memory are not known" % lv
        got.setdefault(pr[1], set()).update(v[1] for v in vals)
    want = {R: users} if what == "data" else {R: users, W: users}
    for perm, nm in ((R, "read"), (W, "write")):
        w, g = want.get(perm, set()), got.get(perm, set())
        if g - w: return "users that are not its configured consumers may %s the %s memory" % (nm, lv)
        if w - g: return "configured consumers may not %s the %s memory" % (nm, lv)
    if set(got) - {R, W} and any(got[x] for x in set(got) - {R, W}): return "further access rights are given on the %s memory" % lv
    if not users and not strict: return "nobody may access the %s memory although no consumers are configured and permissions are not strict" % lv
    return None


def made(p, t, want, LV, SZ):
    got = [which(e, LV) for e in t]
    ok = ret_ok(p)
    if None in got: return "a memory object is created under a name that is not the one of the service"
    if len(set(got)) != len(got): return "a memory object is created twice"
    if set(got) - set(want): return "memory is created for a level the service does not have"
    if SZ:
        for e, k in zip(t, got):
            v = p.I.scal(e.o, e.a[2])
            if v != ("str", SZ[k]): return "the %s memory is created with a size that is not its own" % k
    failed = [k for e, k in zip(t, got) if not e.res]
    if ok is True and failed: return "success although the %s memory could not be created" % failed[0]
    if ok is True and set(got) != set(want): return "success although the %s memory was not created" % sorted(set(want) - set(got))[0]
    if ok is False and not failed: return "failure although every memory object could be created"
    if ok is None: return "the result does not say whether the memory was created"
    return None


def removed(c, p, hooks, want):
    keep = {k: v for k, v in p.st.m.items() if rooted(k)}
    for f in c.fns(MM + "::RemoveSharedMemory"):
        for q in c.run(f, hooks=hooks(), setup=lambda I, st: st.m.update(keep)):
            got = [e.a for i, e in evs(q, "rm")]
            made_ = [text(e.o, e.a[0]) for i, e in evs(p, "of")]
            if q.out != "ret": c.bad("R3", name(f), fwhere(f), "removing the memory ends the process", q)
            elif [g for g in got if g not in made_]: c.bad("R3", name(f), fwhere(f), "removes memory that is not the one of the offer", q)
            elif [m for m in made_ if m not in got]: c.bad("R3", name(f), fwhere(f), "leaves memory of the offer behind", q)
            else: c.ok("R3", name(f))


def rooted(k):
    if isinstance(k, tuple) and k and k[0] == "B": k = k[1]
    return isinstance(k, tuple) and len(k) > 1 and k[0] in ("F", "E") and root(k) == root(THIS)
