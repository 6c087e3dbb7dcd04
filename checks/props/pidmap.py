"""P12: the table of process ids of applications in shared memory"""
from core import *
from absint import St, mkaddr
from db import CheckError
LOLA = "score::mw::com::impl::lola::"
ENT = LOLA + "ApplicationIdPidMappingEntry"
MAP = LOLA + "ApplicationIdPidMapping"
TU = ["score/mw/com/impl/bindings/lola/application_id*.cpp", "score/mw/com/impl/bindings/lola/transaction_log_rollback_executor.cpp",
      "score/mw/com/impl/bindings/lola/service_data_control.cpp"]
HOME = ("F", ("A", "entries"), "data")
THIS = ("A", "this")
RELEASE, ACQUIRE = 3, 2


def order(o, want):
    o = o if isinstance(o, (list, tuple)) and o and not isinstance(o[0], str) else [o]
    x = o[0]
    if isinstance(x, tuple) and x and x[0] == "c": x = x[1]
    return x is None or x in ((1, 2, 4, 5) if want == ACQUIRE else (3, 4, 5))


@prop("P12", TU, ["util"])
def p12(c):
    c.rule("R1", "status and application id of an entry are read back exactly as they were set, for every id and every status")
    c.rule("R2", "a new entry is unused")
    c.rule("R3", "an entry is only changed if it was seen to belong to the calling application, or after it was taken by one atomic swap from unused to being updated for the calling application")
    c.rule("R4", "the process id is stored before the entry becomes used, and the entry is used for the calling application with the given process id on success")
    c.rule("R5", "the previous process id is returned exactly if a used entry of the application was found, otherwise the own one; nothing is returned only if nothing was changed")
    c.rule("R6", "an unused entry is only taken after all entries were seen not to belong to the application, so it never has two")
    c.rule("R7", "every entry is considered, every unused one is tried, and a lost race is followed by another attempt")
    c.rule("R8", "the table registers in all of its entries and with exactly the given ids")
    st_ = c.db.E[[k for k in c.db.E if k.endswith("ApplicationIdPidMappingEntry::MappingEntryStatus")][0]]["v"] if [k for k in c.db.E if k.endswith("ApplicationIdPidMappingEntry::MappingEntryStatus")] else None
    st_ = st_ and {k: int(v) for k, v in st_.items()}
    if not st_: raise CheckError("anchor vanished: status values of a mapping entry")
    for x in ("kUnused", "kUsed", "kUpdating"):
        if x not in st_: raise CheckError("anchor vanished: status " + x)
    UNUSED, USED, UPD = (st_[x] for x in ("kUnused", "kUsed", "kUpdating"))
    c.check("R1", len(set(st_.values())) == len(st_), ENT, "", "two statuses have the same value: %s" % st_, inst="statuses are distinct")
    get = c.fns(ENT + "::GetStatusAndApplicationIdAtomic")[0]
    keyf = c.field(ENT, r"atomic<")
    pidf = c.field(ENT, r"^(pid_t|int|__pid_t)$")
    KEY = ("F", THIS, keyf)

    def decode(I, key):
        """(status, application id) an entry with this key stands for"""
        s = St(); s.m[("F", KEY, "#v")] = key
        plain = I.plain; I.plain = [KEY]
        try:
            rs = I.inline(get, s, THIS, [], [])
        finally: I.plain = plain
        if len(rs) != 1: raise CheckError("reading an entry's key is not a plain computation")
        s, v = rs[0]
        pl = v[1] if v[0] == "obj" else None
        if pl is None: raise CheckError("reading an entry's key does not yield a pair")
        return I.read(s, ("F", pl, "first")), I.read(s, ("F", pl, "second"))

    # R1: set then get
    for f in c.fns(ENT + "::SetStatusAndApplicationIdAtomic"):
        s_, a_ = [inp(q["n"]) for q in f["p"]]
        for p in c.run(f):
            w = [e for i, e in evs(p, "astore", "wr", "rmw", "cas")]
            ok = len(w) == 1 and w[0].k == "astore" and w[0].p == KEY
            c.check("R1", ok, name(f), w[0].where() if w else fwhere(f), "changes %s" % [show(mkaddr(e.p)) for e in w], p, inst="one atomic store of the key")
            if not ok: continue
            c.check("R4", order(w[0].d.get("order"), RELEASE), name(f), w[0].where(), "the status is stored without release ordering", p, inst="status published with release")
            s, a = decode(p.I, w[0].v)
            same = p.I.truth(p.st, eq(p.I, p.st, s, s_)) is True and p.I.truth(p.st, eq(p.I, p.st, a, a_)) is True
            c.check("R1", same, name(f), fwhere(f), "setting (%s, %s) reads back (%s, %s)" % (show(s_), show(a_), show(s), show(a)), p, inst="set then get")
    for f in c.fns(ENT + "::CreateKey"):
        s_, a_ = [inp(q["n"]) for q in f["p"]]
        for p in c.run(f):
            s, a = decode(p.I, p.I.scal(p.st, p.ret))
            same = p.I.truth(p.st, eq(p.I, p.st, s, s_)) is True and p.I.truth(p.st, eq(p.I, p.st, a, a_)) is True
            c.check("R1", same, name(f), fwhere(f), "a key of (%s, %s) stands for (%s, %s)" % (show(s_), show(a_), show(s), show(a)), p, inst="key then get")
    for p in c.run(get):
        ld = [e for i, e in evs(p, "aload") if e.p == KEY]
        c.check("R1", len(ld) == 1, name(get), fwhere(get), "status and id are read by %d loads" % len(ld), p, inst="one load")
        if ld: c.check("R1", order(ld[0].d.get("order"), ACQUIRE), name(get), ld[0].where(), "the key is read without acquire ordering", p, inst="load acquires")
    # R2
    cl = c.db.cls(ENT)[0]
    fk = [x for x in cl["fields"] if x["n"] == keyf][0]
    fn = [f for f in c.fns(LOLA + "detail::RegisterPid") if "AtomicIndirectorMock" not in (f.get("targs") or "") + f["q"]]
    I0 = c.run(get)[0].I
    ini = fk.get("init") or {}
    args = ini.get("a") or []
    zero = ("c", 0)
    if args:
        r = I0.ev(args[0], St())
        if len(r) != 1: raise CheckError("initial key of an entry is not a plain value")
        zero = I0.scal(r[0][0], r[0][1])
    z = decode(I0, zero)
    c.check("R2", I0.truth(St(), eq(I0, St(), z[0], ("c", UNUSED))) is True, ENT, "", "a newly created entry has status %s" % show(z[0]), inst="a new entry is unused")
    # registration
    for f in fn:
        names = [q["n"] for q in f["p"]]
        if len(names) != 4: raise CheckError("anchor vanished: parameters of RegisterPid")
        app, pid = inp(names[2]), inp(names[3])
        ps = c.run(f, args={names[0]: ("it", HOME, ("c", 0)), names[1]: ("it", HOME, ("c", 2))}, maxpaths=60000, opaque=lambda sq, g=None: "LogStream" in sq)
        entry = lambda pl, fld: pl[1] if pl[0] == "F" and pl[2] == fld and pl[1][0] == "E" and root(pl)[1:] == root(HOME)[1:] else None
        home = None
        took = found = none = 0
        memo = {}
        for p in ps:
            if p.out == "abort": continue
            I, st = p.I, p.st
            if p.out != "ret":
                c.bad("R5", name(f), fwhere(f), "leaves by " + p.out, p); continue
            mine, own, seen_not, state = set(), {}, {}, {}
            stored = {}
            change = 0
            taken = oldpid = None
            def meaning(v):
                if v not in memo: memo[v] = decode(I, v)
                return memo[v]
            T = lambda a, b: I.truth(st, eq(I, st, a, b))
            tried = set(); lost = 0; last = None; looks = {}
            for e in p.tr:
                if e.k not in ("aload", "astore", "rmw", "cas", "wr"): continue
                if root(e.p)[0] in ("L", "T"): continue
                en = entry(e.p, keyf)
                if e.k == "aload" and en is not None:
                    s, a = meaning(e.v)
                    if last is not None:
                        c.check("R7", False, name(f), e.where(), "an unused entry is passed over without an attempt to take it", p, inst="every unused entry is tried")
                    looks[en] = looks.get(en, 0) + 1
                    m = T(a, app)
                    used, upd, un = T(s, ("c", USED)), T(s, ("c", UPD)), T(s, ("c", UNUSED))
                    state[en] = (used, upd, un, m)
                    if m is True and used is True: mine.add(en); own[en] = "used"
                    elif m is True and upd is True: mine.add(en); own[en] = "upd"
                    if m is False or (used is False and upd is False) or un is True: seen_not[en] = True
                    last = en if un is True and mine == set() else None
                    continue
                if e.k == "cas" and en is not None:
                    last = None
                    tried.add(en)
                    es, ea = meaning(e.exp); ds, da = meaning(e.des)
                    c.check("R3", T(es, ("c", UNUSED)) is True, name(f), e.where(), "takes an entry of status %s" % show(es), p, inst="takes unused entries only")
                    c.check("R3", T(ds, ("c", UPD)) is True and T(da, app) is True, name(f), e.where(), "takes an entry as (%s, %s)" % (show(ds), show(da)), p, inst="taken for the application, being updated")
                    miss = [show(mkaddr(x)) for x in allentries(HOME) if x not in seen_not]
                    c.check("R6", not miss, name(f), e.where(), "takes an unused entry although %s may belong to the application" % miss, p, inst="no entry of the application exists")
                    if e.ok in (True, TRUE): own[en] = "taken"; taken = en
                    else: lost += 1
                    if e.ok in (True, TRUE): c.check("R3", order((e.d.get("order") or [None])[0], ACQUIRE), name(f), e.where(), "an entry is taken without acquire ordering", p, inst="taking acquires")
                    continue
                if e.k in ("astore", "rmw") and en is not None:
                    ok = e.k == "astore" and en in own
                    c.check("R3", ok, name(f), e.where(), "changes the status of %s which was neither found nor taken" % show(mkaddr(en)), p, inst="only own entries change status")
                    if e.k != "astore": continue
                    s, a = meaning(e.v)
                    change += 1
                    c.check("R3", T(a, app) is True, name(f), e.where(), "an entry becomes one of application %s" % show(a), p, inst="entry stays the application's")
                    if T(s, ("c", USED)) is True:
                        c.check("R4", stored.get(en) == pid, name(f), e.where(), "the entry becomes used with process id %s" % (show(stored[en]) if en in stored else "of its previous owner"), p, inst="process id before used")
                        own[en] = "used"
                    else: c.bad("R4", name(f), e.where(), "the entry becomes %s" % show(s), p)
                    continue
                en = entry(e.p, pidf)
                if e.k == "wr" and en is not None:
                    change += 1
                    c.check("R3", en in own, name(f), e.where(), "changes the process id of %s which was neither found nor taken" % show(mkaddr(en)), p, inst="only own entries change process id")
                    stored[en] = e.v; continue
                c.bad("R3", name(f), e.where(), "changes %s" % show(mkaddr(e.p)), p)
            if "widened" in st.flags and not hasval(p): none += 1
            hv = hasval(p)
            if hv:
                r = I.scal(st, val(p))
                x = [en for en in own]
                good = len(x) == 1 and own[x[0]] == "used" and stored.get(x[0]) == pid
                c.check("R4", good, name(f), fwhere(f), "reports success with %s" % {show(mkaddr(k)): v for k, v in own.items()}, p, inst="used with the given process id")
                if not x: continue
                wasused = x[0] in mine and state[x[0]][0] is True
                if wasused:
                    found += 1
                    c.check("R5", r == I.read(St(), ("F", x[0], pidf)), name(f), fwhere(f), "returns %s instead of the previous process id" % show(r), p, inst="found: previous process id")
                else:
                    took += 1
                    c.check("R5", r == pid, name(f), fwhere(f), "returns %s instead of the own process id" % show(r), p, inst="newly registered: own process id")
            else:
                none += 1
                c.check("R5", not change and not own, name(f), fwhere(f), "fails although an entry was found or taken", p, inst="failure changes nothing")
                c.check("R7", len(looks) == 2, name(f), fwhere(f), "fails without having looked at all entries", p, inst="all entries considered")
                c.check("R7", last is None, name(f), fwhere(f), "an unused entry is passed over without an attempt to take it", p, inst="every unused entry is tried")
                if lost: c.check("R7", min(looks.values()) >= 3, name(f), fwhere(f), "gives up after the first lost race", p, inst="a lost race is followed by another attempt")
        if not took: c.bad("R7", name(f), fwhere(f), "no entry is ever taken")
        if not found: c.bad("R5", name(f), fwhere(f), "an existing entry is never found")
    # R8
    n = 0
    for f in c.fns(MAP + "::RegisterPid"):
        a, b = [inp(q["n"]) for q in f["p"]]
        for p in c.run(f, opaque=lambda sq, g=None: sq.endswith("detail::RegisterPid") or "LogStream" in sq):
            cs = [e for i, e in evs(p, "call") if e.f.split("<")[0].endswith("RegisterPid")]
            fake = [e for i, e in evs(p, "call", "invoke") if "Fake" in getattr(e, "f", "")]
            if p.out == "abort" or fake: continue
            n += 1
            ok = len(cs) == 1 and len(cs[0].a) >= 4 and cs[0].a[2] == a and cs[0].a[3] == b
            c.check("R8", ok, name(f), fwhere(f), "registers %s" % [[show(x) for x in e.a] for e in cs], p, inst="given ids")
            if ok:
                x, y = cs[0].a[0], cs[0].a[1]
                if y[0] == "op" and y[1] == "+" and x in (y[2], y[3]) and x[0] == "addr" and x[1][0] == "E" and x[1][2] == ("c", 0):
                    y = ("it", x[1][1], y[3] if y[2] == x else y[2])
                x, y = [("it", z[1][1], z[1][2]) if z[0] == "addr" and z[1][0] == "E" else z for z in (x, y)]
                full = x[0] == y[0] == "it" and x[1] == y[1] and x[2] == ("c", 0) and y[2] == p.I.read(p.st, ("F", x[1], "#size"))
                c.check("R8", full and p.I.scal(p.st, p.ret) == cs[0].res or ret_of(p, cs[0]), name(f), fwhere(f), "registers in %s..%s and returns %s" % (show(x), show(y), show(p.ret)), p, inst="whole table, result passed on")
    if not n: raise CheckError("anchor vanished: registration in the mapping")


def allentries(h):
    return [("E", h, ("c", i)) for i in (0, 1)]


def ret_of(p, e):
    return p.ret == e.res or (p.ret[0] == "obj" and e.res[0] == "obj") or show(p.ret).find(show(e.res)) >= 0
