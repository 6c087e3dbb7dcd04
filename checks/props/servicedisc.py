"""P25: offering, finding and the markers of offered services"""
from core import *
from absint import *
from models import F, set_it, put, src_place
from db import CheckError
import dirhooks, tables
from props.names import path_hooks, text, norm, showt, enumval
NS = "score::mw::com::impl::"
L = NS + "lola::"
FF = L + "FlagFile"
CL = L + "ServiceDiscoveryClient"
EI = NS + "EnrichedInstanceIdentifier"
D_ = "score/mw/com/impl/bindings/lola/service_discovery/"
TU = [D_ + "*.cpp", D_ + "client/*.cpp", "score/mw/com/impl/enriched_instance_identifier.cpp", "score/mw/com/impl/instance_identifier.cpp",
      "score/mw/com/impl/service_discovery.cpp", "score/mw/com/impl/find_service_handle.cpp", "score/mw/com/impl/handle_type.cpp", "score/mw/com/impl/configuration/quality_type.cpp"]
THIS = ("A", "this")


def fsops(p, *names):
    return [(i, e) for i, e in evs(p, "call") if "filesystem::" in e.f and e.f.rsplit("::", 1)[-1] in names]


def okval(p, e):
    """did the recorded operation succeed on this path: True, False, None"""
    r = e.res
    return p.I.truth(p.st, p.I.read(p.st, ("F", r[1], "#has")) if r[0] in ("obj", "ref") else ("fld", r, "#has"))


def ret_ok(p):
    return hasval(p)


def quals(c):
    q = enumval(c, NS + "QualityType")
    r = {k[1:] if k.startswith("k") else k: int(v) for k, v in c.db.E[NS + "QualityType"]["v"].items()}
    for x in ("ASIL_B", "ASIL_QM", "Invalid"):
        if x not in r: raise CheckError("anchor vanished: quality " + x)
    return r


@prop("P25", TU, ["api"])
def p25(c):
    c.rule("R1", "the marker of an offer is created with read permission for everybody after stale markers were removed; it exists afterwards exactly if making it succeeded")
    c.rule("R2", "the marker is removed exactly once, when the object which stands for the offer ends; a moved-from object removes nothing")
    c.rule("R3", "a successful offer is kept, once, with one marker per quality it serves; a failed one leaves no marker and no entry; an instance offered already is refused")
    c.rule("R4", "ending an offer takes its markers away: all of them, or only the one for the lower quality; ending an offer which does not exist fails")
    markers(c)
    offers(c)


def markers(c):
    q = quals(c)
    bits = [v["v"] for k, v in c.db.E.items() if k.endswith("os::Stat::Mode")]
    if not bits: raise CheckError("anchor vanished: permissions of files")
    bits = {k: int(v) for k, v in bits[0].items()}
    h = path_hooks(); del h["std::for_each"]; h.update(dirhooks.entries(1))
    REG = [int(v["v"]["kRegular"]) for k, v in c.db.E.items() if k.endswith("filesystem::FileType")]
    if not REG: raise CheckError("anchor vanished: types of files")

    def look(I, st, e, op, vs):
        x = I.argval(st, vs[0])
        if x[0] != "str": return None
        s2 = st.copy()
        I.emit(st, "sd", what="name", x=x[1], res=True); I.emit(s2, "sd", what="name", x=x[1], res=False)
        return [(st, C(0)), (s2, C((1 << 64) - 1))]

    def ftype(I, st, e, op, vs):
        s2 = st.copy()
        I.emit(st, "sd", what="regular", res=True); I.emit(s2, "sd", what="regular", res=False)
        return [(st, C(REG[0])), (s2, C(REG[0] + 1))]
    h["std::basic_string::find"] = look
    h["std::basic_string_view::find"] = look
    h["score::filesystem::FileStatus::Type"] = ftype

    def stale(p, f):
        """what was seen of the entry of the directory against what was done with it"""
        seen = {e.what: e for i, e in evs(p, "sd")}
        st_ok = [okval(p, e) for i, e in evs(p, "call") if e.f.endswith("DirectoryEntry::Status")]
        want = bool(st_ok and st_ok[0] and seen.get("regular") and seen["regular"].res and seen.get("name") and seen["name"].res)
        return want, seen
    for f in c.fns(FF + "::Make"):
        ps = [p for p in c.run(f, hooks=h, opaque=lambda s, g: s == FF + "::CreateSearchPath") if p.out in ("ret", "abort")]
        n = 0
        for p in ps:
            if p.out != "ret": continue
            opened = [(i, e) for i, e in fsops(p, "Open") if okval(p, e)]
            per = fsops(p, "Permissions")
            rem = fsops(p, "Remove")
            mk = [(i, e) for i, e in evs(p, "call") if e.f == FF + "::CreateSearchPath" or e.f.endswith("::CreateDirectories")]
            ok = ret_ok(p)
            want, seen = stale(p, f)
            dels = [(i, e) for i, e in rem if not any(norm(e.a[0]) == norm(x.a[0]) for j, x in opened)]
            c.check("R1", bool(dels) == want, f["q"], fwhere(f), "a marker of the same service and quality is %s" % ("not removed before a new one is made" if want else "removed although it is none"), p)
            if "name" in seen:
                for i, e in opened:
                    t = norm(e.a[0])
                    c.check("R1", any(isinstance(x, str) and seen["name"].x in x for x in t), f["q"], e.where(), "markers called %s are cleared but %s is made" % (seen["name"].x, showt(t)), p)
            if not c.check("R1", ok is not None, f["q"], fwhere(f), "it is not known whether the marker was made", p): continue
            if ok:
                n += 1
                if not c.check("R1", len(opened) == 1, f["q"], fwhere(f), "success is reported although the marker was not created", p): continue
                i, e = opened[0]
                v = ("F", p.ret[1], "#val")
                c.check("R2", p.I.read(p.st, ("F", v, c.field(FF, r"^bool$"))) == TRUE, f["q"], fwhere(f), "the object which stands for the offer does not remove the marker when it ends", p)
                for m in [x["n"] for x in c.db.cls(FF)[0]["fields"] if base_type(x["t"]) in ("unsigned long", "unsigned int", "std::uint64_t")]:
                    want = [inp(y["n"]) for y in f["p"] if base_type(y["t"]) == base_type([x["t"] for x in c.db.cls(FF)[0]["fields"] if x["n"] == m][0])]
                    c.check("R2", p.I.read(p.st, ("F", v, m)) in want, f["q"], fwhere(f), "the object which stands for the offer knows another number of the offer than its marker", p)
                path = norm(e.a[0])
                good = [x for j, x in per if j > i and okval(p, x) and norm(x.a[0]) == path]
                c.check("R1", len(good) >= 1, f["q"], e.where(), "success is reported although the marker %s was not made readable" % showt(path), p)
                for x in good:
                    m = x.a[1]
                    c.check("R1", isc(m) and all(m[1] & bits[k] for k in ("kReadUser", "kReadGroup", "kReadOthers")) and not any(m[1] & bits[k] for k in ("kWriteGroup", "kWriteOthers")), f["q"], x.where(),
                            "everybody may read a marker and only its owner may write it: %s" % show(m), p)
                c.check("R1", any(j < i and okval(p, x) for j, x in mk), f["q"], e.where(), "the marker is created before its directory", p)
                c.check("R1", all(j < i for j, x in rem), f["q"], e.where(), "a marker is removed after the new one was created", p)
                c.check("R1", all(okval(p, x) for j, x in rem), f["q"], e.where(), "success is reported although a stale marker remained", p)
            else:
                for i, e in opened:
                    path = norm(e.a[0])
                    c.check("R1", any(j > i and norm(x.a[0]) == path for j, x in rem), f["q"], e.where(), "the offer failed but its marker %s remains" % showt(path), p)
        if not n: raise CheckError("no successful path through " + f["q"])
    # end of the offer
    for f in c.fns(FF + "::~FlagFile"):
        own = c.field(FF, r"^bool$")
        for b in (True, False):
            def setup(I, st, b=b): st.m[("F", THIS, own)] = C(b)
            ps = c.run(f, hooks=path_hooks(), setup=setup)
            for p in ps:
                if p.out not in ("ret", "abort"): continue
                rem = fsops(p, "Remove")
                if not b:
                    c.check("R2", not rem and p.out == "ret", f["q"], fwhere(f), "an object which stands for no offer %s" % ("removes a marker" if rem else "ends the process"), p)
                    continue
                c.check("R2", len(rem) == 1, f["q"], fwhere(f), "the marker of the offer is removed %d times" % len(rem), p)
                for i, e in rem:
                    c.check("R2", okval(p, e) is (p.out == "ret"), f["q"], e.where(), "a marker which cannot be removed goes unnoticed" if p.out == "ret" else "ends the process although the marker was removed", p)
    for f in [g for g in c.db.F.values() if g.get("kind") == "movector" and g.get("cls") == FF]:
        o = ("A", f["p"][0]["n"])
        for b in (True, False):
            def setup(I, st, b=b): st.m[("F", o, own)] = C(b)
            for p in c.run(f, setup=setup):
                g = p.I.read(p.st, ("F", THIS, own)); l = p.I.read(p.st, ("F", o, own))
                c.check("R2", p.out == "ret" and g == C(b) and l == FALSE, f["q"], fwhere(f), "moving an offer's object: the new one %s, the old one %s" % tuple("removes the marker" if x == TRUE else "does not" for x in (g, l)), p)
    c.need("R2", 6)


# ------------------------------------------------------------------ offering and its end
def mutexes(c, cls): return [x["n"] for x in c.db.cls(cls)[0]["fields"] if "mutex" in x["t"]]


def offers(c):
    q = quals(c)
    tf = c.field(CL, r"^std::(unordered_)?map<.*FlagFile")
    T = ("F", THIS, tf)
    cont = targ0([x["t"] for x in c.db.cls(CL)[0]["fields"] if x["n"] == tf][0], 1)
    opt = [x["n"] for x in (c.db.C.get(cont) or {"fields": []})["fields"]]
    if sorted(opt) != ["asil_b", "asil_qm"]: raise CheckError("anchor vanished: " + cont)
    flag = c.field(FF, r"^bool$"); eif = c.field(FF, r"EnrichedInstanceIdentifier$")

    def make(outcome):
        def h(I, st, e, op, vs):
            out = []
            lvl = I.read(st, ("F", src_place(I, st, vs[0]), idq))
            for ok in outcome:
                s = st.copy()
                p = I.tmp(s)
                I.emit(s, "sd", what="make", lvl=lvl, res=ok, id=src_place(I, s, vs[0]), dis=I.scal(s, vs[1]))
                s.m[("F", p, "#has")] = C(ok)
                if ok:
                    s.m[("F", ("F", p, "#val"), flag)] = TRUE
                    s.m[("F", ("F", ("F", p, "#val"), eif), idq)] = lvl
                out.append((s, ("obj", p)))
            return out
        return h

    idq = c.field(EI, r"QualityType$")

    def gone(I, st, p):
        if I.read(st, F(p, flag)) == TRUE: I.emit(st, "sd", what="gone", lvl=I.read(st, ("F", F(p, eif), idq)), res=p)
        return [st]
    inst = NS + "ServiceInstanceDeployment"
    lf = c.field(inst, r"QualityType$")
    df = c.field(NS + "InstanceIdentifier", r"ServiceInstanceDeployment \*$")
    DEP = ("X", "deployment")
    LV = {"ASIL_B": [q["ASIL_B"], q["ASIL_QM"]], "ASIL_QM": [q["ASIL_QM"]], "Invalid": []}
    held = lambda p, i: sum({"lock": 1, "unlock": -1}.get(e.k, 0) for e in p.tr[:i] if e.k in ("lock", "unlock") and e.m in muts) > 0
    muts = {("F", THIS, m) for m in mutexes(c, CL)}

    def prepare(known, qual=None, n=1):
        def setup(I, st):
            a = ("A", f["p"][0]["n"])
            st.m[("F", a, df)] = mkaddr(DEP)
            if qual is not None: st.m[("F", DEP, lf)] = C(q[qual])
            tables.fill(I, st, T, n, "old")
            if known:
                I.copyobj(st, a, ("F", ("E", T, C(0)), "first"))
        return setup

    def guarded(r, p):
        for i, e in [(i, e) for i, e in enumerate(p.tr) if e.k == "tabuse" and e.o == T]:
            c.check(r, held(p, i), f["q"], fwhere(f), "the table of the offers is used without its lock", p)
    n = 0
    for f in c.fns(CL + "::OfferService"):
        h = tables.hooks(); h[FF + "::Make"] = make((True, False)); h["~" + FF] = gone
        for qual in LV:
            for known in (False, True):
                for p in c.run(f, hooks=h, setup=prepare(known, qual, 1 if known else 0)):
                    if p.out != "ret": continue
                    n += 1
                    sd = [e for i, e in evs(p, "sd")]
                    mk = [e for e in sd if e.what == "make"]; lost = [e for e in sd if e.what == "gone"]
                    ok = ret_ok(p); left = tables.ids(p.st, T)
                    guarded("R3", p)
                    if known:
                        c.check("R3", ok is False and not mk and left == [("id", "old", 0)], f["q"], fwhere(f), "offering an instance which is offered already %s" % ("succeeds" if ok else "makes or loses a marker"), p)
                        continue
                    lv = [e.lvl for e in mk]
                    c.check("R3", ok is (bool(mk) and all(e.res for e in mk)), f["q"], fwhere(f), "%s is reported although %s" % ("success" if ok else "failure", "the markers %s be made" % ("could not" if ok else "could")), p)
                    c.check("R3", left == ([("id", "new", 0)] if ok else []), f["q"], fwhere(f), "after %s offer %d markers are kept" % ("a successful" if ok else "a failed", len(left)), p)
                    for e in mk:
                        steps = [x for j, x in evs(p, "rmw") if root(x.p) == THIS and x.op in "+-" and isc(x.arg) and x.arg != C(0)]
                        c.check("R3", any(e.dis in (x.old, x.new) for x in steps), f["q"], fwhere(f), "two offers may make markers with the same number", p)
                    if ok:
                        c.check("R3", sorted(map(show, lv)) == sorted(str(x) for x in LV[qual]), f["q"], fwhere(f), "a service of quality %s is offered for the qualities %s" % (qual, [show(x) for x in lv]), p)
                        c.check("R3", not lost, f["q"], fwhere(f), "a marker of a successful offer is removed at once", p)
                        for x in ("asil_b", "asil_qm"):
                            o = ("F", ("F", ("E", T, C(0)), "second"), x)
                            want = q[x.upper()] in LV[qual]
                            g = p.I.read(p.st, ("F", o, "#has"))
                            good = g == C(want) and (not want or p.I.read(p.st, ("F", ("F", ("F", o, "#val"), eif), idq)) == C(q[x.upper()]) and p.I.read(p.st, ("F", ("F", o, "#val"), flag)) == TRUE)
                            c.check("R3", good, f["q"], fwhere(f), "the marker for %s is not kept as the one for %s" % (x, x), p)
                        k = ("F", ("E", T, C(0)), "first")
                        a = tables.leaves(p.I, p.st, ("ref", k), NS + "InstanceIdentifier")
                        b = tables.leaves(p.I, p.st, ("ref", ("A", f["p"][0]["n"])), NS + "InstanceIdentifier")
                        c.check("R3", a == b, f["q"], fwhere(f), "the offer is kept under another identifier than the offered one", p)
                    else:
                        c.check("R3", sorted(show(e.lvl) for e in mk if e.res) == sorted(show(e.lvl) for e in lost), f["q"], fwhere(f), "a marker remains although offering failed", p)
                    for e in mk:
                        a = tables.leaves(p.I, p.st, ("ref", e.id), EI)
                        c.check("R3", any(x in a for x in tables.leaves(p.I, p.st, ("ref", ("F", ("A", f["p"][0]["n"]), df)), NS + "ServiceInstanceDeployment *")), f["q"], fwhere(f), "a marker for another instance than the offered one is made", p)
    if n < 10: raise CheckError("too few paths through OfferService")
    sel = {k: int(v) for k, v in c.db.E[NS + "IServiceDiscovery::QualityTypeSelector"]["v"].items()}
    n = 0
    for f in c.fns(CL + "::StopOfferService"):
        h = tables.hooks(); h["~" + FF] = gone
        for known in (False, True):
            for nm, sv in sel.items():
                def setup(I, st):
                    prepare(known)(I, st) if known else prepare(known, None, 0)(I, st)
                    for x in ("asil_b", "asil_qm"):
                        o = ("F", ("F", ("E", T, C(0)), "second"), x)
                        st.m[("F", o, "#has")] = TRUE; st.m[("F", ("F", o, "#val"), flag)] = TRUE; st.m[("F", ("F", ("F", o, "#val"), eif), idq)] = C(q[x.upper()])
                for p in c.run(f, hooks=h, setup=setup, args={1: C(sv)}):
                    if p.out != "ret": continue
                    n += 1
                    ok = ret_ok(p); left = tables.ids(p.st, T)
                    guarded("R4", p)
                    if not known:
                        c.check("R4", ok is False and not left, f["q"], fwhere(f), "ending an offer which does not exist succeeds", p)
                        continue
                    c.check("R4", ok is True, f["q"], fwhere(f), "ending an offer fails", p)
                    if nm == "kBoth":
                        c.check("R4", left == [], f["q"], fwhere(f), "the offer remains although it was to end for both qualities", p)
                    else:
                        o = ("F", ("E", T, C(0)), "second")
                        g = [p.I.read(p.st, ("F", ("F", o, x), "#has")) for x in ("asil_b", "asil_qm")]
                        lost = [e.lvl for i, e in evs(p, "sd") if e.what == "gone"]
                        c.check("R4", len(left) == 1 and g == [TRUE, FALSE] and lost == [C(q["ASIL_QM"])], f["q"], fwhere(f), "ending the offer for the lower quality ends %s" % [show(x) for x in lost], p)
    if n < 4: raise CheckError("too few paths through StopOfferService")
