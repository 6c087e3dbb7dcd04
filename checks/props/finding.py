"""P26: finding services"""
from core import *
from absint import *
from models import F, set_it, put, src_place, targ0
from db import CheckError
import dirhooks, tables
from props.names import path_hooks, text, norm, showt, enumval
from props.servicedisc import ret_ok, quals, okval, TU as SDTU, NS, L, FF, CL, EI, THIS, mutexes
KI = L + "KnownInstancesContainer"
CR = L + "FlagFileCrawler"


class Ids:
    """identifiers with chosen service and instance numbers"""
    def __init__(self, c):
        self.c = c
        self.idf = c.field(EI, r"^score::mw::com::impl::InstanceIdentifier$")
        self.dep = c.field(NS + "InstanceIdentifier", r"ServiceInstanceDeployment \*$")
        self.typ = c.field(NS + "InstanceIdentifier", r"ServiceTypeDeployment \*$")
        self.inst = c.field(EI, r"^std::optional<.*ServiceInstanceId")
        self.q = c.field(EI, r"QualityType$")
        self.tb = c.field(NS + "ServiceTypeDeployment", r"^(const )?std::variant<|BindingInformation")
        self.ib = c.field(NS + "ServiceInstanceId", r"^(const )?std::variant<|BindingInformation")
        ft = lambda cls, n: base_type([x["t"] for x in c.db.cls(cls)[0]["fields"] if x["n"] == n][0])
        self.ta = targ0(ft(NS + "ServiceTypeDeployment", self.tb), 0)
        if self.ta not in c.db.C: raise CheckError("anchor vanished: deployment of a service type")
        self.sid = [x["n"] for x in c.db.C[self.ta]["fields"] if base_type(x["t"]) in ("unsigned short", "unsigned int", "std::uint16_t", "std::uint32_t")]
        self.iid = [x["n"] for x in c.db.cls(NS + "LolaServiceInstanceId")[0]["fields"] if base_type(x["t"]) in ("unsigned short", "std::uint16_t")]
        self.db_ = c.field(NS + "ServiceInstanceDeployment", r"^(const )?std::variant<|BindingInformation")
        self.da = targ0(ft(NS + "ServiceInstanceDeployment", self.db_), 0)
        if self.da not in c.db.C: raise CheckError("anchor vanished: deployment of a service instance")
        self.din = c.field(self.da, r"^std::optional<.*InstanceId")
        if len(self.sid) != 1 or len(self.iid) != 1: raise CheckError("anchor vanished: numbers of services and instances")

    def write(self, I, st, p, service, instance, quality=None):
        T = ("X", "type%s" % service); D = ("X", "deployment%s%s" % (service, "" if instance is None else "/%s" % instance))
        st.m[F(F(p, self.idf), self.dep)] = mkaddr(D); st.m[F(F(p, self.idf), self.typ)] = mkaddr(T)
        alt = self.ta
        v = F(T, self.tb)
        st.m[F(v, "#alt")] = ("str", alt); st.m[F(F(v, "#T:" + alt), self.sid[0])] = C(service)
        if instance is None:           # the configuration names no instance
            v = F(D, self.db_); st.m[F(v, "#alt")] = ("str", self.da)
            st.m[F(F(F(v, "#T:" + self.da), self.din), "#has")] = FALSE
        o = F(p, self.inst)
        st.m[F(o, "#has")] = C(instance is not None)
        if instance is not None: self.instance(st, F(o, "#val"), instance)
        if quality is not None: st.m[F(p, self.q)] = C(quality)

    def instance(self, st, p, n):
        alt = NS + "LolaServiceInstanceId"
        v = F(p, self.ib)
        st.m[F(v, "#alt")] = ("str", alt); st.m[F(F(v, "#T:" + alt), self.iid[0])] = C(n)

    def service(self, I, st, p):
        """(service, instance) of an enriched identifier at p; instance None if it names none"""
        t = I.read(st, F(F(p, self.idf), self.typ))
        T = ("X", "type%s")
        sv = None
        if t[0] == "&" or True:
            s = I.read(st, F(F(F(mkP(t), self.tb), "#T:" + self.ta), self.sid[0]))
            sv = s[1] if s[0] == "c" else show(s)
        has = I.read(st, F(F(p, self.inst), "#has"))
        if has == FALSE: return sv, None
        n = self.number(I, st, F(F(p, self.inst), "#val"))
        return sv, (n[1] if n[0] == "c" else show(n)) if has == TRUE else "?"

    def number(self, I, st, p):
        """instance number of a ServiceInstanceId at p"""
        v = F(p, self.ib)
        return I.read(st, F(F(v, "#T:" + NS + "LolaServiceInstanceId"), self.iid[0]))


@prop("P26", SDTU + ["score/mw/com/impl/configuration/service_instance_id.cpp", "score/mw/com/impl/configuration/lola_service_instance_id.cpp"], ["api"])
def p26(c):
    c.rule("R1", "the set of known instances contains exactly the instances that were added or merged and not removed, and yields a handle for each that matches")
    c.rule("R2", "looking for offers watches a directory before it reads it, returns every watch with the instance it stands for, and finds an instance for a quality exactly if its marker for that quality exists")
    c.rule("R3", "every marker made or removed in a watched directory makes its instance known or unknown for the marker's quality; lost events and vanished directories end the process")
    c.rule("R4", "a search is told exactly when the handles that match it changed, with the current ones")
    c.rule("R5", "a search that ended is told nothing more and forgotten, its watches are taken back when no other search needs them; the others keep theirs")
    c.rule("R6", "starting and ending a search and handling events use the tables under one lock")
    c.rule("R7", "starting a search tells at once of the matching offers that are there, and only of those; it is registered with the watches for its directories, or nothing changed and an error is returned; ending it is noted; looking once reports the matching offers")
    known(c)
    crawl(c)
    W = World(c)
    locks = {}
    for f, m in [*worker(c, W), *searches(c, W)]:
        if m is not None: locks[f["q"]] = (f, locks[f["q"]][1] & m if f["q"] in locks else m)
    ms = {m for f, x in locks.values() for m in x}
    best = max(ms, key=lambda m: sum(m in x for f, x in locks.values()), default=None)
    for f, x in locks.values(): c.check("R6", best in x, f["q"], fwhere(f), "the tables of the searches are used without the lock that the other operations hold")
    if len(locks) < 3: raise CheckError("anchor vanished: operations on searches")


BITS = {}
BASE = {10: {1, 2}, 20: {3}}


def known(c):
    ids = Ids(c)
    kf = c.field(KI, r"^std::(unordered_)?(map|set)<")
    T = F(THIS, kf)
    hid = c.field(NS + "HandleType", r"InstanceIdentifier$"); hin = c.field(NS + "HandleType", r"ServiceInstanceId$")

    def load(I, st, t, content):
        tables.fill(I, st, t, len(content), "svc")
        for i, (s, ins) in enumerate(content.items()):
            e = ("E", t, C(i))
            st.m[F(e, "first")] = C(s)
            tables.fill(I, st, F(e, "second"), len(ins), "ins")
            for j, n in enumerate(sorted(ins)): st.m[("E", F(e, "second"), C(j))] = C(n)

    def content(I, st, t):
        r = {}
        for i in range(tables.size(st, t) or 0):
            e = ("E", t, C(i)); s = I.read(st, F(e, "first"))
            n = tables.size(st, F(e, "second"))
            if n is None or s[0] != "c" or s[1] in r: return None
            v = [I.read(st, ("E", F(e, "second"), C(j))) for j in range(n)]
            if any(x[0] != "c" for x in v) or len(set(v)) != n: return None
            if v: r[s[1]] = {x[1] for x in v}
        return r
    h = tables.hooks()
    def cases(name, arg=True):
        n = 0
        for f in c.fns(KI + "::" + name):
            for start in ({}, BASE):
                for s, i in ((10, 1), (10, 7), (20, 3), (30, 1), (10, None), (30, None)):
                    def setup(I, st):
                        load(I, st, T, start)
                        ids.write(I, st, ("A", f["p"][0]["n"]), s, i)
                    for p in c.run(f, hooks=h, setup=setup):
                        if p.out != "ret": continue
                        n += 1
                        yield f, {k: set(v) for k, v in start.items()}, s, i, p
        if not n: raise CheckError("no path through " + name)
    what = lambda s, i: "instance %s of service %s" % ("any" if i is None else i, s)
    for f, m, s, i, p in cases("Insert"):
        new = i is not None and i not in m.get(s, ())
        if new: m.setdefault(s, set()).add(i)
        r = content(p.I, p.st, T)
        c.check("R1", r == m, f["q"], fwhere(f), "after adding %s the known instances are %s instead of %s" % (what(s, i), r, m), p)
        c.check("R1", p.I.scal(p.st, p.ret) == C(new), f["q"], fwhere(f), "adding %s tells %s" % (what(s, i), show(p.ret)), p)
    for f, m, s, i, p in cases("Remove"):
        if i in m.get(s, ()):
            m[s].discard(i)
            if not m[s]: del m[s]
        r = content(p.I, p.st, T)
        c.check("R1", r == m, f["q"], fwhere(f), "after removing %s the known instances are %s instead of %s" % (what(s, i), r, m), p)
    for f, m, s, i, p in cases("GetKnownHandles"):
        want = sorted(m.get(s, set()) if i is None else m.get(s, set()) & {i})
        r = content(p.I, p.st, T)
        c.check("R1", r == m, f["q"], fwhere(f), "asking for %s changes the known instances" % what(s, i), p)
        n = p.I.read(p.st, ("F", p.ret[1], "#size"))
        got = []
        for k in range(n[1] if isc(n) else 0):
            e = ("E", p.ret[1], C(k))
            d = p.I.read(p.st, F(F(e, hid), ids.dep))
            got.append((p.I.read(p.st, F(F(e, hid), ids.typ)) == mkaddr(("X", "type%s" % s)), ids.number(p.I, p.st, F(e, hin))))
        c.check("R1", isc(n) and sorted(x[1][1] if isc(x[1]) else show(x[1]) for x in got) == want and all(x[0] for x in got), f["q"], fwhere(f), "asking for %s gives handles for %s instead of %s" % (what(s, i), [show(x[1]) for x in got], want), p)
    for f in c.fns(KI + "::Merge"):
        O = ("A", f["p"][0]["n"])
        n = 0
        for a in ({}, BASE):
            for b in ({}, {10: {2, 5}}, {30: {1}}, {20: {3}, 40: {9, 8}}):
                def setup(I, st): load(I, st, T, a); load(I, st, F(O, kf), b)
                for p in c.run(f, hooks=h, setup=setup):
                    if p.out != "ret": continue
                    n += 1
                    m = {k: a.get(k, set()) | b.get(k, set()) for k in {**a, **b}}
                    r = content(p.I, p.st, T)
                    c.check("R1", r == m, f["q"], fwhere(f), "merging %s into %s gives %s" % (b, a, r), p)
        if not n: raise CheckError("no path through Merge")


def content_of(c):
    kf = c.field(KI, r"^std::(unordered_)?(map|set)<")
    def content(I, st, t):
        r = {}; t = F(t, kf)
        for i in range(tables.size(st, t) or 0):
            e = ("E", t, C(i)); s = I.read(st, F(e, "first"))
            n = tables.size(st, F(e, "second"))
            if n is None or s[0] != "c": return None
            v = [I.read(st, ("E", F(e, "second"), C(j))) for j in range(n)]
            if any(x[0] != "c" for x in v): return None
            if v: r[s[1]] = {x[1] for x in v}
        return r
    return content


def crawl_hooks(c, ids, q, results=lambda what, st: (True, False), watched=lambda place: None):
    """the file system as the crawler sees it: one entry per directory; results yields the outcomes of an operation"""
    h = path_hooks(); del h["std::for_each"]; h.update(dirhooks.entries(1)); h.update(tables.hooks())

    def outcome(what, val):
        def g(I, st, e, op, vs):
            r = []
            for ok in results(what, st):
                s = st.copy(); p = I.tmp(s)
                I.setobj(s, p, ("exp", s.n)); s.n += 1
                s.m[F(p, "#has")] = C(ok)
                x = val(I, s, F(p, "#val") if ok else None, vs)
                I.emit(s, "sd", what=what, res=ok, x=x)
                r.append((s, ("obj", p)))
            return r
        return g

    def path(I, st, p, vs):
        i = ids.service(I, st, src_place(I, st, vs[0]))
        if p is not None: I.setobj(st, p, ("str", "@%s/%s" % i))
        return i

    def wd(I, st, p, vs):
        n = watched(norm(I.argval(st, vs[0])))
        if n is None: n = 5 + sum(1 for e in st.tr if e.k == "sd" and e.what == "watch" and e.res)
        if p is not None: I.setobj(st, p, C(100 + n))
        return n, norm(I.argval(st, vs[0])), I.scal(st, vs[1])
    h[FF + "::CreateSearchPath"] = outcome("dir", path)
    h["score::os::InotifyInstance::AddWatch"] = outcome("watch", wd)

    def exists(I, st, e, op, vs):
        p = src_place(I, st, vs[0])
        r = []
        for b in results("exists", st):
            s = st.copy(); I.emit(s, "sd", what="exists", x=(ids.service(I, s, p), I.read(s, F(p, ids.q))), res=b); r.append((s, C(b)))
        return r
    h[FF + "::Exists"] = exists
    h["score::filesystem::DirectoryEntry::Status"] = outcome("status", lambda I, st, p, vs: None)

    def scan(I, st, e, op, vs):
        I.emit(st, "sd", what="scan", x=None, res=True)
        return h0(I, st, e, op, vs)
    h0 = h["score::filesystem::begin"]; h["score::filesystem::begin"] = scan

    def num(I, st, e, op, vs):
        r = []
        for ok in results("number", st):
            s = st.copy(); p = I.tmp(s); I.setobj(s, p, ("fc", s.n)); s.n += 1
            s.m[F(p, "ec")] = C(0 if ok else 22)
            if ok: s.m[src_place(I, s, vs[2])] = C(7)
            I.emit(s, "sd", what="number", x=7, res=ok)
            r.append((s, ("obj", p)))
        return r
    h["std::from_chars"] = num

    def ftype(I, st, e, op, vs):
        D = [int(v["v"]["kDirectory"]) for k, v in c.db.E.items() if k.endswith("filesystem::FileType")][0]
        s2 = st.copy()
        I.emit(st, "sd", what="directory", res=True, x=None); I.emit(s2, "sd", what="directory", res=False, x=None)
        return [(st, C(D)), (s2, C(D + 1))]
    h["score::filesystem::FileStatus::Type"] = ftype
    return h


def crawl(c):
    ids = Ids(c); q = quals(c); content = content_of(c)
    m = [v["v"] for k, v in c.db.E.items() if k.endswith("os::Inotify::EventMask")]
    if not m: raise CheckError("anchor vanished: what a watch tells of")
    BITS.update({k: int(v) for k, v in m[0].items()})
    h = crawl_hooks(c, ids, q)
    for name in ("CrawlAndWatch", "Crawl"):
        watch = name == "CrawlAndWatch"
        for f in c.fns(CR + "::" + name):
            for start in ((10, 3), (10, None)):
                def setup(I, st): ids.write(I, st, ("A", f["p"][0]["n"]), start[0], start[1], q["ASIL_QM"])
                n = 0
                for p in c.run(f, hooks=h, setup=setup, opaque=lambda s, g: s == L + "GetSearchPathForIdentifier"):
                    if p.out != "ret": continue
                    sd = [e for i, e in evs(p, "sd")]
                    ok = ret_ok(p)
                    n += 1
                    w = {}; cur = None; seen = set(); fail = False; ex = {}
                    for e in sd:
                        if e.what == "dir": cur = e.x if e.res else None; fail |= not e.res
                        elif e.what == "watch":
                            c.check("R2", cur is not None, f["q"], fwhere(f), "a watch is set on an unknown directory", p)
                            m = e.x[2]
                            c.check("R2", m == C(BITS["kInCreate"] | BITS["kInDelete"]), f["q"], fwhere(f), "the watch does not tell of markers that are %s" % ("made" if not (isc(m) and m[1] & BITS["kInCreate"]) else "removed"), p)
                            if e.res: w[cur] = e.x[0]
                            fail |= not e.res
                        elif e.what == "scan": c.check("R2", not watch or (start[0], None) in w, f["q"], fwhere(f), "the directory of the service is read before it is watched, offers made in between are missed", p)
                        elif e.what == "exists":
                            ex[(e.x[0], e.x[1])] = e.res
                            c.check("R2", not watch or e.x[0] in w, f["q"], fwhere(f), "markers of instance %s are looked for before its directory is watched, offers made in between are missed" % (e.x[0],), p)
                    if not watch: c.check("R2", not w, f["q"], fwhere(f), "looking once leaves a watch behind", p)
                    if fail or ok is False:
                        c.check("R2", ok is False, f["q"], fwhere(f), "success although a directory could not be watched", p)
                        c.check("R2", fail or any(e.what == "status" and not e.res for e in sd), f["q"], fwhere(f), "failure although nothing failed", p)
                        continue
                    hit = [start] if start[1] is not None else [(start[0], 7)] if any(e.what == "number" and e.res for e in sd) and any(e.what == "directory" and e.res for e in sd) else []
                    c.check("R2", set(ex) == {(x, C(q[k])) for x in hit for k in ("ASIL_B", "ASIL_QM")}, f["q"], fwhere(f), "for %s the markers of %s are looked for" % (hit, sorted(str(k[0]) + show(k[1]) for k in ex)), p)
                    v = F(p.ret[1], "#val")
                    if watch:
                        t = F(v, "#0")
                        got = {}
                        for i in range(tables.size(p.st, t) or 0):
                            e = ("E", t, C(i))
                            got[ids.service(p.I, p.st, F(e, "second"))] = p.I.scal(p.st, ("ref", F(e, "first")))
                        want = {start, *hit}
                        c.check("R2", set(w) == want, f["q"], fwhere(f), "watched are %s instead of %s" % (sorted(map(str, w)), sorted(map(str, want))), p)
                        c.check("R2", got == {k: C(100 + x) for k, x in w.items()}, f["q"], fwhere(f), "the watches returned stand for %s" % sorted(str((k, show(v))) for k, v in got.items()), p)
                        v = F(v, "#1")
                    for x in ("asil_b", "asil_qm"):
                        want = {}
                        for k, b in ex.items():
                            if b and k[1] == C(q[x.upper()]): want.setdefault(k[0][0], set()).add(k[0][1])
                        r = content(p.I, p.st, F(v, x))
                        c.check("R2", r == want, f["q"], fwhere(f), "instances found for %s are %s although the markers say %s" % (x, r, want), p)
                if not n: raise CheckError("no path through " + f["q"])


class World:
    """searches, watches, known and obsolete entries of the service discovery with chosen numbers"""
    def __init__(self, c):
        self.c = c; self.ids = Ids(c); self.q = quals(c); self.content = content_of(c)
        self.uid = c.field(NS + "FindServiceHandle", r"unsigned long|size_t")
        fs = {x["n"]: base_type(x["t"]) for x in c.db.cls(CL)[0]["fields"]}

        def one(rx, among=fs):
            import re
            r = [n for n, t in among.items() if re.search(rx, t)]
            if len(r) != 1: raise CheckError("anchor vanished: member of type %s" % rx)
            return r[0]
        self.one = one
        self.obs = F(THIS, one(r"^std::(unordered_)?set<score::mw::com::impl::FindServiceHandle\b"))
        n = one(r"^std::(unordered_)?map<score::mw::com::impl::FindServiceHandle\b"); self.sea = F(THIS, n); st_ = c.db.C[targ0(fs[n], 1)]
        n = one(r"^std::(unordered_)?map<score::os::InotifyWatchDescriptor\b"); self.wat = F(THIS, n); wt = c.db.C[targ0(fs[n], 1)]
        n = one(r"^std::(unordered_)?map<score::mw::com::impl::lola::LolaServiceInstanceIdentifier\b"); self.wid = F(THIS, n); it = c.db.C[targ0(fs[n], 1)]
        self.kno = F(THIS, one(r"KnownInstancesContainer"))
        g = lambda cl: {x["n"]: base_type(x["t"]) for x in cl["fields"]}
        self.s_w = one(r"^std::(unordered_)?set<score::os::Inotify", g(st_)); self.s_cb = one(r"callback|function|Function", g(st_)); self.s_id = one(r"EnrichedInstanceIdentifier$", g(st_)); self.s_h = one(r"^std::(unordered_)?set<score::mw::com::impl::HandleType", g(st_))
        self.w_id = one(r"EnrichedInstanceIdentifier$", g(wt)); self.w_s = one(r"^std::(unordered_)?set<score::mw::com::impl::FindServiceHandle", g(wt))
        self.i_w = one(r"^std::optional<score::os::Inotify", g(it)); self.i_c = one(r"^std::(unordered_)?set<score::os::Inotify", g(it))
        lsi = g(c.db.cls(L + "LolaServiceInstanceIdentifier")[0])
        self.l_s = one(r"^(unsigned (short|int)|std::uint\d+_t)$", lsi); self.l_i = one(r"^std::optional<", lsi)
        self.kf = c.field(KI, r"^std::(unordered_)?(map|set)<")
        self.hid = c.field(NS + "HandleType", r"InstanceIdentifier$"); self.hin = c.field(NS + "HandleType", r"ServiceInstanceId$")

    # -- writing a world into a state
    def load(self, I, st, w):
        tables.fill(I, st, self.obs, len(w["obsolete"]), "o")
        for i, s in enumerate(w["obsolete"]): st.m[F(("E", self.obs, C(i)), self.uid)] = C(s)
        tables.fill(I, st, self.sea, len(w["searches"]), "s")
        for i, (n, s) in enumerate(w["searches"].items()):
            e = ("E", self.sea, C(i)); v = F(e, "second")
            st.m[F(F(e, "first"), self.uid)] = C(n)
            self.set(I, st, F(v, self.s_w), s["watches"], self.wd)
            I.setobj(st, F(v, self.s_cb), ("handler", n))
            self.ids.write(I, st, F(v, self.s_id), s["id"][0], s["id"][1], self.q[s["q"]])
            self.set(I, st, F(v, self.s_h), s["told"], lambda I, st, p, x: self.handle(I, st, p, s["id"][0], x))
        tables.fill(I, st, self.wat, len(w["watches"]), "w")
        for i, (n, x) in enumerate(w["watches"].items()):
            e = ("E", self.wat, C(i)); v = F(e, "second")
            self.wd(I, st, F(e, "first"), n)
            self.ids.write(I, st, F(v, self.w_id), x["id"][0], x["id"][1], self.q["Invalid"])
            self.set(I, st, F(v, self.w_s), x["searches"], lambda I, st, p, y: st.m.__setitem__(F(p, self.uid), C(y)))
        tables.fill(I, st, self.wid, len(w["paths"]), "i")
        for i, (k, x) in enumerate(w["paths"].items()):
            e = ("E", self.wid, C(i)); v = F(e, "second")
            st.m[F(F(e, "first"), self.l_s)] = C(k[0])
            st.m[F(F(F(e, "first"), self.l_i), "#has")] = C(k[1] is not None)
            st.m[F(F(F(e, "first"), self.l_i), "#val")] = C(k[1] or 0)
            st.m[F(F(v, self.i_w), "#has")] = C(x["main"] is not None)
            if x["main"] is not None: self.wd(I, st, F(F(v, self.i_w), "#val"), x["main"])
            self.set(I, st, F(v, self.i_c), x["children"], self.wd)
        for x in ("asil_b", "asil_qm"):
            t = F(F(self.kno, x), self.kf); m = w[x]
            tables.fill(I, st, t, len(m), "k")
            for i, (s, ins) in enumerate(m.items()):
                e = ("E", t, C(i)); st.m[F(e, "first")] = C(s)
                self.set(I, st, F(e, "second"), sorted(ins), lambda I, st, p, y: st.m.__setitem__(p, C(y)))

    def wd(self, I, st, p, n): I.setobj(st, p, C(100 + n))

    def handle(self, I, st, p, svc, n):
        tmp = I.tmp(st); self.ids.write(I, st, tmp, svc, n)
        I.copyobj(st, F(tmp, self.ids.idf), F(p, self.hid)); self.ids.instance(st, F(p, self.hin), n)

    def guard(self, p):
        """the mutexes held at every use of the tables"""
        own = {self.obs, self.sea, self.wat, self.wid, *(F(F(self.kno, x), self.kf) for x in ("asil_b", "asil_qm"))}
        own = [(i, e) for i, e in enumerate(p.tr) if e.k in ("tabuse", "tabput", "tabrm") and e.o in own]
        r = None
        for i, e in own:
            h = {}
            for x in p.tr[:i]:
                if x.k in ("lock", "unlock"): h[x.m] = h.get(x.m, 0) + (1 if x.k == "lock" else -1)
            h = {m for m, n in h.items() if n > 0}
            r = h if r is None else r & h
        return r

    def set(self, I, st, t, xs, put_):
        tables.fill(I, st, t, len(xs), "x")
        for i, x in enumerate(xs): put_(I, st, ("E", t, C(i)), x)

    # -- reading it back
    def all(self, st, t): return [("E", t, C(i)) for i in range(tables.size(st, t) or 0)]

    def num(self, I, st, p, off=0):
        x = I.scal(st, ("ref", p)); return x[1] - off if x[0] == "c" else show(x)

    def handles(self, I, st, t): return sorted((self.ids.number(I, st, F(e, self.hin))[1] for e in self.all(st, t)), key=str)

    def dump(self, I, st):
        w = {"obsolete": [self.num(I, st, F(e, self.uid)) for e in self.all(st, self.obs)], "searches": {}, "watches": {}, "paths": {}}
        for e in self.all(st, self.sea):
            v = F(e, "second"); cb = st.m.get(("B", F(v, self.s_cb)))
            w["searches"][self.num(I, st, F(F(e, "first"), self.uid))] = {"watches": sorted(self.num(I, st, x, 100) for x in self.all(st, F(v, self.s_w))), "id": self.ids.service(I, st, F(v, self.s_id)), "told": self.handles(I, st, F(v, self.s_h)), "cb": cb}
        for e in self.all(st, self.wat):
            v = F(e, "second")
            w["watches"][self.num(I, st, F(e, "first"), 100)] = {"id": self.ids.service(I, st, F(v, self.w_id)), "searches": sorted(self.num(I, st, F(x, self.uid)) for x in self.all(st, F(v, self.w_s)))}
        for e in self.all(st, self.wid):
            v = F(e, "second"); k = F(e, "first")
            has = I.read(st, F(F(k, self.l_i), "#has"))
            key = (self.num(I, st, F(k, self.l_s)), self.num(I, st, F(F(k, self.l_i), "#val")) if has == TRUE else None)
            m = I.read(st, F(F(v, self.i_w), "#has"))
            w["paths"][key] = {"main": self.num(I, st, F(F(v, self.i_w), "#val"), 100) if m == TRUE else None, "children": sorted(self.num(I, st, x, 100) for x in self.all(st, F(v, self.i_c)))}
        for x in ("asil_b", "asil_qm"): w[x] = self.content(I, st, F(self.kno, x))
        return w

    def watch_of(self, place):
        """the watch the operating system has on a directory already"""
        t = place[1] if place[0] == "str" else None
        for n, x in (self.now or {"watches": {}})["watches"].items():
            if t == "@%s/%s" % x["id"]: return n

    # -- what surrounds the service discovery
    def hooks(self):
        c = self.c; self.fails = 0; self.now = None; self.stops = {}
        h = crawl_hooks(c, self.ids, self.q, lambda what, st: (sum(1 for e in st.tr if e.k == "sd" and e.what in ("dir", "watch") and not e.res) >= self.fails,) if what in ("dir", "watch") else (True,) if what == "status" else (True, False), self.watch_of)

        def told(I, st, e, op, vs):
            if op is None or (st.m.get(("B", op)) or ("",))[0] != "handler": return None
            hs = src_place(I, st, vs[0]); k = src_place(I, st, vs[1])
            I.emit(st, "sd", what="told", res=True, x=(st.m[("B", op)][1], tuple(self.handles(I, st, hs)), self.num(I, st, F(k, self.uid))))
            j = self.stops.get(st.m[("B", op)][1])
            if j is not None:
                n = tables.size(st, self.obs)
                tables.fill(I, st, self.obs, n + 1, "o"); st.m[F(("E", self.obs, C(n)), self.uid)] = C(j)
            return [(st, VOID)]
        for k in ("score::cpp::callback", "score::cpp::move_only_function", "std::function"): h[k + "::operator()"] = told

        def eqsets(I, st, e, op, vs):
            t = [base_type(I.argtype(a)) if a else "" for a in e["a"]]
            if not all("set<score::mw::com::impl::HandleType" in x for x in t): return None
            a, b = [self.handles(I, st, src_place(I, st, v)) for v in vs]
            return [(st, C(a == b))]
        h["std::operator=="] = eqsets

        def find(I, st, e, op, vs):
            a = I.argval(st, ("ref", op)) if op is not None else None; b = I.argval(st, vs[0])
            if a is None or a[0] != "str" or b[0] != "str" or len(vs) > 1 and I.scal(st, vs[1]) != C(0): return None
            k = a[1].find(b[1])
            return [(st, C(k if k >= 0 else (1 << 64) - 1))]
        h["std::basic_string_view::find"] = h["std::basic_string::find"] = find
        eq0 = h["std::operator=="]
        h["std::operator!="] = lambda I, st, e, op, vs: (lambda r: None if r is None else [(s, C(v == FALSE)) for s, v in r])(eq0(I, st, e, op, vs))

        def unwatch(I, st, e, op, vs):
            I.emit(st, "sd", what="unwatch", res=True, x=self.num(I, st, src_place(I, st, vs[0]), 100))
            return None
        h["score::os::InotifyInstance::RemoveWatch"] = unwatch
        return h


SVC, OTHER = 10, 20


def base_world():
    return {"obsolete": [], "asil_b": {}, "asil_qm": {SVC: {3}},
            "searches": {1: {"watches": [0], "id": (SVC, 3), "q": "ASIL_QM", "told": [3]}},
            "watches": {0: {"id": (SVC, 3), "searches": [1]}},
            "paths": {(SVC, 3): {"main": 0, "children": []}, (SVC, None): {"main": None, "children": [0]}}}


def worker(c, W):
    h = W.hooks()
    RM = {k: int(v) for k, v in [v["v"] for k, v in c.db.E.items() if k.endswith("os::InotifyEvent::ReadMask")][0].items()}

    def run(w, events):
        def submit(I, st, e, op, vs):
            W.load(I, st, w); W.now = w
            return [(s, ("sym", "task")) for s, r in I.invoke(st, vs[0], [("sym", "token")], [])]

        def stop(I, st, e, op, vs):
            n = sum(1 for x in st.tr if x.k == "sd" and x.what == "round")
            if n == 0: I.emit(st, "sd", what="round", x=None, res=True)
            return [(st, C(n > 0))]

        def read(I, st, e, op, vs):
            p = I.tmp(st); I.setobj(st, p, ("exp", st.n)); st.n += 1
            st.m[F(p, "#has")] = C(events is not None)
            v = F(p, "#val")
            I.setobj(st, v, ("events",)); st.m[F(v, "#size")] = C(len(events or ()))
            for i, (wd, mask, name) in enumerate(events or ()):
                x = ("E", v, C(i)); I.setobj(st, x, ("event", wd, tuple(mask), name))
            return [(st, ("obj", p))]

        def part(k):
            def g(I, st, e, op, vs):
                b = st.m.get(("B", op)) if op is not None else None
                if b is None or b[0] != "event": return None
                if k == 0:
                    p = I.tmp(st); W.wd(I, st, p, b[1]); return [(st, ("obj", p))]
                return [(st, C(sum(RM[m] for m in b[2])) if k == 1 else ("str", b[3]))]
            return g
        hh = dict(h)
        hh["score::concurrency::Executor::Submit"] = submit
        hh["score::cpp::stop_token::stop_requested"] = stop
        hh["score::os::InotifyInstance::Read"] = read
        for k, n in enumerate(("GetWatchDescriptor", "GetMask", "GetName")): hh["score::os::InotifyEvent::" + n] = part(k)
        fs = [g for g in c.fns(CL + "::ServiceDiscoveryClient") if g["kind"] == "ctor" and len(g["p"]) > 1]
        if not fs: raise CheckError("anchor vanished: constructor of the service discovery")
        for f in fs:
            ps = c.run(f, hooks=hh, opaque=lambda s, g: s == L + "GetSearchPathForIdentifier")
            for p in ps: yield f, p, [e.x for i, e in evs(p, "sd") if e.what == "told"], [e.x for i, e in evs(p, "sd") if e.what == "unwatch"]
    n = 0
    for wname, w, evl, W.fails, *stops in scenarios():
        W.stops = stops[0] if stops else {}
        for events in evl:
            what = "%s, events %s" % (wname, "could not be read" if events is None else [(a, "+".join(x[3:] for x in b), d) for a, b, d in events])
            for f, p, told, un in run(w, events):
                if p.out not in ("ret", "abort"): continue
                n += 1
                yield f, W.guard(p)
                stop_, m, gone = model(W, w, events, [e for i, e in evs(p, "sd")])
                if stop_:
                    c.check("R3", p.out == "abort", f["q"], fwhere(f), "%s: the process goes on although %s" % (what, stop_), p)
                    continue
                if not c.check("R3", p.out == "ret", f["q"], fwhere(f), "%s: the process ends" % what, p): continue
                g = W.dump(p.I, p.st)
                for x in ("asil_b", "asil_qm"):
                    c.check("R3", g[x] == m[x], f["q"], fwhere(f), "%s: known for %s are %s instead of %s" % (what, x, g[x], m[x]), p)
                ended = {W.stops[x[0]] for x in told if x[0] in W.stops}
                for i, x in enumerate(told):
                    c.check("R5", not any(W.stops.get(y[0]) == x[0] for y in told[:i]), f["q"], fwhere(f), "%s: search %d is told something after it ended" % (what, x[0]), p)
                c.check("R5", sorted(g["searches"]) == sorted(m["searches"]) and set(g["obsolete"]) == ended, f["q"], fwhere(f), "%s: running searches are %s instead of %s" % (what, sorted(g["searches"]), sorted(m["searches"])), p)
                c.check("R5", sorted(un) == sorted(gone), f["q"], fwhere(f), "%s: watches %s are taken back instead of %s" % (what, un, gone), p)
                c.check("R5", {k: (v["id"], v["searches"]) for k, v in g["watches"].items()} == {k: (v["id"], sorted(v["searches"])) for k, v in m["watches"].items()}, f["q"], fwhere(f), "%s: watches are %s instead of %s" % (what, g["watches"], m["watches"]), p)
                for k, v in m["searches"].items():
                    h_ = g["searches"].get(k)
                    if h_ is None or k in ended: continue
                    c.check("R5", h_["watches"] == sorted(v["watches"]), f["q"], fwhere(f), "%s: search %d has the watches %s instead of %s" % (what, k, h_["watches"], v["watches"]), p)
                    calls = [list(x[1]) for x in told if x[0] == k]
                    now = sorted(i for i in g[v["q"].lower()].get(v["id"][0], ()) if v["id"][1] in (None, i))
                    seq = [sorted(v["told"])] + calls
                    c.check("R4", all(a != b for a, b in zip(seq, seq[1:])), f["q"], fwhere(f), "%s: search %d is told of the same handles twice" % (what, k), p)
                    c.check("R4", seq[-1] == now and h_["told"] == now, f["q"], fwhere(f), "%s: search %d was told last of %s but known are %s" % (what, k, seq[-1], now), p)
                for k, x in g["paths"].items():
                    c.check("R5", x["main"] is None or g["watches"].get(x["main"], {}).get("id") == k, f["q"], fwhere(f), "%s: directory %s is taken for watched by %s" % (what, k, x["main"]), p)
                    c.check("R5", all(y in g["watches"] for y in x["children"]), f["q"], fwhere(f), "%s: below directory %s the watches %s are taken for set" % (what, k, x["children"]), p)
                for k, x in g["watches"].items():
                    c.check("R5", x["id"][1] is None or k in g["paths"].get((x["id"][0], None), {"children": ()})["children"], f["q"], fwhere(f), "%s: watch %d of an instance is not known to belong to its service" % (what, k), p)
                c.check("R4", all(x[0] in m["searches"] and x[2] == x[0] for x in told), f["q"], fwhere(f), "%s: told are %s" % (what, told), p)
    if n < 30: raise CheckError("too few paths through the worker")


def scenarios():
    """(name, world, lists of events, number of looks at directories that fail)"""
    QM, B = "11_asil-qm_5", "11_asil-b_5"
    CR_, DL, IG = ["kInCreate"], ["kInDelete"], ["kInIgnored"]
    a = base_world()
    one = [None, [], [(0, CR_, QM)], [(0, CR_, B)], [(0, DL, QM)], [(0, DL, B)], [(0, DL, "junk")], [(0, CR_, "junk")], [(9, CR_, QM)], [(9, DL, QM)], [(0, IG, "")], [(0, ["kInQOverflow"], "")], [(0, CR_, B), (9, ["kInQOverflow"], "")],
           [(0, DL, QM), (0, CR_, QM)], [(0, CR_, QM), (0, DL, QM)], [(0, ["kInAccess"], QM)]]
    yield "one search", a, one, 0
    b = base_world()
    b["asil_qm"] = {}; b["searches"][1]["told"] = []
    yield "one search, nothing offered", b, [[(0, CR_, QM)], [(0, DL, QM)], [(0, CR_, B)], [(0, CR_, QM), (0, DL, QM)]], 0
    t = base_world()
    t["searches"][2] = {"watches": [0], "id": (SVC, 3), "q": "ASIL_B", "told": [3]}; t["watches"][0]["searches"] = [1, 2]; t["asil_b"] = {SVC: {3}, OTHER: {8}}
    yield "two searches", t, [[(0, DL, QM)], [(0, DL, B)], [(0, DL, B), (0, DL, QM)], None], 0
    yield "two searches, the end of the second is requested when the first is told", {**t, "asil_b": {}, "searches": {**t["searches"], 2: {**t["searches"][2], "q": "ASIL_QM"}}}, [[(0, DL, QM)]], 0, {1: 2}
    yield "two searches, the end of the first is requested when the second is told", {**t, "asil_b": {}, "searches": {**t["searches"], 2: {**t["searches"][2], "q": "ASIL_QM"}}}, [[(0, DL, QM)]], 0, {2: 1}
    for obs in ([1], [2], [1, 2], [7]):
        x = {**t, "obsolete": obs}
        yield "two searches, of which %s ended" % obs, x, [None, [], [(0, DL, QM)]], 0
    y = base_world()
    y["searches"] = {4: {"watches": [1, 0], "id": (SVC, None), "q": "ASIL_QM", "told": [3]}}
    y["watches"] = {1: {"id": (SVC, None), "searches": [4]}, 0: {"id": (SVC, 3), "searches": [4]}}
    y["paths"] = {(SVC, None): {"main": 1, "children": [0]}, (SVC, 3): {"main": 0, "children": []}}
    yield "search for any instance", y, [[(0, DL, QM)], [(0, CR_, B)], [(1, CR_, "7")], [(1, DL, "3")], [(1, CR_, "7"), (0, DL, QM)]], 0
    yield "search for any instance that ended", {**y, "obsolete": [4]}, [[], [(1, CR_, "7")]], 0
    yield "search for any instance while the first look at a directory fails", y, [[(1, CR_, "7")]], 1
    yield "search for any instance while no directory can be watched", y, [[(1, CR_, "7")]], 99


def model(W, w, events, sd):
    """what the worker has to make of it: (why it has to end the process, world afterwards, watches taken back)"""
    import copy
    m = copy.deepcopy(w); gone = []

    def quality(name): return "asil_b" if "asil-b" in name else "asil_qm" if "asil-qm" in name else None
    for s in m["obsolete"]:
        if s not in m["searches"]: continue
        for x in m["searches"][s]["watches"]:
            m["watches"][x]["searches"].remove(s)
            if not m["watches"][x]["searches"]:
                sv, ins = m["watches"][x]["id"]
                for k in ("asil_b", "asil_qm"):
                    if ins in m[k].get(sv, ()):
                        m[k] = {**m[k], sv: m[k][sv] - {ins}}
                gone.append(x); del m["watches"][x]
        del m["searches"][s]
    m["obsolete"] = []
    why = None
    if events is not None:
        if any("kInQOverflow" in e[1] for e in events): why = "events were lost"
        for wd, mask, nm in events if not why else ():
            if wd not in m["watches"]: continue
            sv, ins = m["watches"][wd]["id"]
            if "kInDelete" in mask:
                if ins is None: why = "the directory of an instance vanished"; break
                k = quality(nm)
                if k: m[k] = {**m[k], sv: m[k].get(sv, set()) - {ins}}
            elif "kInCreate" in mask:
                if ins is not None:
                    k = quality(nm)
                    if k: m[k] = {**m[k], sv: m[k].get(sv, set()) | {ins}}
                elif any(e.what == "number" and e.res for e in sd):
                    ws = [e for e in sd if e.what == "watch" and e.res]
                    if not ws: why = "a directory could not be watched"; break
                    new = ws[-1].x[0]
                    m["watches"][new] = {"id": (sv, 7), "searches": list(m["watches"][wd]["searches"])}
                    for s in m["watches"][wd]["searches"]: m["searches"][s]["watches"] = m["searches"][s]["watches"] + [new]
                    for e in sd:
                        if e.what == "exists" and e.res:
                            k = {W.q["ASIL_B"]: "asil_b", W.q["ASIL_QM"]: "asil_qm"}[e.x[1][1]]
                            m[k] = {**m[k], sv: m[k].get(sv, set()) | {7}}
    for k in ("asil_b", "asil_qm"): m[k] = {a: b for a, b in m[k].items() if b}
    return why, m, gone


def searches(c, W):
    """starting a search, ending one, looking once"""
    import copy
    h = W.hooks(); a = base_world(); QMS = {"ASIL_QM": "asil_qm", "ASIL_B": "asil_b"}
    opq = lambda s, g: s == L + "GetSearchPathForIdentifier"
    none = {"obsolete": [], "asil_b": {}, "asil_qm": {}, "searches": {}, "watches": {}, "paths": {}}
    y = [x[1] for x in scenarios() if x[0] == "search for any instance"][0]
    b = {**a, "asil_b": {SVC: {3, 4}}}
    W.stops = {}
    view = lambda g: {k: g[k] for k in ("obsolete", "watches", "asil_b", "asil_qm")} | {"searches": {k: (v["watches"], v["id"], v["told"], v["cb"]) for k, v in g["searches"].items()}}

    def start(f, w, ident, q):
        def setup(I, st):
            W.load(I, st, w); W.now = w
            for x in f["p"]:
                t = base_type(x["t"]); v = ("A", x["n"])
                if t.endswith("FindServiceHandle"): st.m[F(v, W.uid)] = C(9)
                elif t.endswith("EnrichedInstanceIdentifier"): W.ids.write(I, st, v, ident[0], ident[1], W.q[q])
                else: I.setobj(st, v, ("handler", 9))
        return c.run(f, hooks=h, setup=setup, opaque=opq)

    def before(w):
        st = St(); I = Interp(c.db)
        W.load(I, st, w)
        return view(W.dump(I, st))
    n = 0
    for f in c.fns(CL + "::StartFindService"):
        for wname, w in (("nothing", none), ("one search", a), ("one search, also offered for the other quality", b), ("a search for any instance", y)):
            for ident in ((SVC, 3), (SVC, 4), (SVC, None)):
                for q in ("ASIL_QM", "ASIL_B"):
                    for W.fails in (0, 99) if q == "ASIL_QM" else (0,):
                        what = "with %s, starting to look for %s of service %d (%s)" % (wname, "any instance" if ident[1] is None else "instance %d" % ident[1], ident[0], q)
                        for p in start(f, w, ident, q):
                            if p.out == "abort": c.check("R7", False, f["q"], fwhere(f), what + " ends the process", p)
                            if p.out != "ret": continue
                            n += 1
                            yield f, W.guard(p)
                            sd = [e for i, e in evs(p, "sd")]; told = [e.x for e in sd if e.what == "told"]
                            g = W.dump(p.I, p.st); v = view(g)
                            if ret_ok(p) is not True:
                                c.check("R7", v == before(w) and not told, f["q"], fwhere(f), what + " fails but leaves something behind or tells of offers", p)
                                c.check("R7", any(e.what in ("dir", "watch") and not e.res for e in sd) or any(e.what == "status" and not e.res for e in sd), f["q"], fwhere(f), what + " fails although nothing failed", p)
                                continue
                            found = {"asil_b": {}, "asil_qm": {}}
                            for e in sd:
                                if e.what == "exists" and e.res:
                                    m = found["asil_b" if e.x[1] == C(W.q["ASIL_B"]) else "asil_qm"]; m.setdefault(e.x[0][0], set()).add(e.x[0][1])
                            kn = {x: {k: set(w[x].get(k, ())) | set(found[x].get(k, ())) for k in {**w[x], **found[x]}} for x in found}
                            c.check("R7", all(v[x] == kn[x] for x in kn), f["q"], fwhere(f), what + ": known are %s instead of %s" % ({x: v[x] for x in kn}, kn), p)
                            looked = any(e.what == "dir" for e in sd)
                            there = (found if looked else w)[QMS[q]].get(SVC, ())
                            want = sorted(i for i in there if ident[1] in (None, i))
                            c.check("R7", told == ([(9, tuple(want), 9)] if want else []), f["q"], fwhere(f), what + " tells %s although there are %s" % (told, want), p)
                            s = g["searches"].get(9)
                            if not c.check("R7", s is not None, f["q"], fwhere(f), what + ": the search is not registered", p): continue
                            c.check("R7", s["told"] == want and s["id"] == ident and s["cb"] == ("handler", 9), f["q"], fwhere(f), what + " registers %s" % (s,), p)
                            # directories it has to watch: its own and, for any instance, those of the instances found in it
                            wid = {x["id"]: k for k, x in g["watches"].items()}
                            need = {ident}
                            if ident[1] is None: need |= {k for k in wid if k[0] == SVC and k[1] is not None} if not looked else {e.x[0] for e in sd if e.what == "exists"}
                            c.check("R7", len(wid) == len(g["watches"]) and need <= set(wid) and s["watches"] == sorted(wid[k] for k in need), f["q"], fwhere(f), what + ": the search has the watches %s for %s" % (s["watches"], sorted(map(str, need))), p)
                            c.check("R7", all((9 in x["searches"]) == (k in s["watches"]) for k, x in g["watches"].items()), f["q"], fwhere(f), what + ": watches are %s" % (g["watches"],), p)
                            c.check("R7", {k: x for k, x in v["searches"].items() if k != 9} == before(w)["searches"] and not v["obsolete"], f["q"], fwhere(f), what + " changes other searches", p)
                            for k, x in w["watches"].items():
                                c.check("R7", k in g["watches"] and sorted(z for z in g["watches"][k]["searches"] if z != 9) == sorted(x["searches"]), f["q"], fwhere(f), what + " changes the watches of other searches", p)
                            for k, x in g["watches"].items():
                                c.check("R7", x["id"][1] is None or k in g["paths"].get((x["id"][0], None), {"children": ()})["children"], f["q"], fwhere(f), what + ": watch %d of an instance is not known to belong to its service" % k, p)
                            for k, x in g["paths"].items():
                                c.check("R7", (x["main"] is None or wid.get(k) == x["main"]) and all(z in g["watches"] for z in x["children"]), f["q"], fwhere(f), what + ": directory %s is taken for watched by %s" % (k, x), p)
    if n < 40: raise CheckError("too few paths through the start of a search")
    W.fails = 0
    for f in c.fns(CL + "::StopFindService"):
        for w in (a, {**a, "obsolete": [5]}):
            def setup(I, st):
                W.load(I, st, w); W.now = w
                st.m[F(("A", f["p"][0]["n"]), W.uid)] = C(1)
            for p in c.run(f, hooks=h, setup=setup):
                if p.out != "ret": continue
                yield f, W.guard(p)
                g = view(W.dump(p.I, p.st))
                c.check("R7", ret_ok(p) is True and set(g["obsolete"]) == {1, *w["obsolete"]} and {k: x for k, x in g.items() if k != "obsolete"} == {k: x for k, x in before(w).items() if k != "obsolete"}, f["q"], fwhere(f), "the end of a search is not noted, or more than that happens", p)
    k = 0
    for f in c.fns(CL + "::FindService"):
        for ident in ((SVC, 3), (SVC, None)):
            for q in ("ASIL_QM", "ASIL_B"):
                def setup(I, st):
                    W.load(I, st, a); W.now = a
                    W.ids.write(I, st, ("A", f["p"][0]["n"]), ident[0], ident[1], W.q[q])
                for p in c.run(f, hooks=h, setup=setup, opaque=opq):
                    if p.out != "ret": continue
                    k += 1
                    sd = [e for i, e in evs(p, "sd")]
                    c.check("R7", view(W.dump(p.I, p.st)) == before(a) and not any(e.what in ("told", "watch") for e in sd), f["q"], fwhere(f), "looking once leaves something behind", p)
                    if ret_ok(p) is not True: continue
                    want = sorted(e.x[0][1] for e in sd if e.what == "exists" and e.res and e.x[1] == C(W.q[q]))
                    v = F(p.ret[1], "#val"); m = p.I.read(p.st, F(v, "#size"))
                    got = [W.ids.number(p.I, p.st, F(("E", v, C(i)), W.hin)) for i in range(m[1] if isc(m) else 0)]
                    c.check("R7", isc(m) and sorted(x[1] if isc(x) else show(x) for x in got) == want, f["q"], fwhere(f), "looking once yields %s although there are %s" % ([show(x) for x in got], want), p)
    if not k: raise CheckError("no path through FindService")
