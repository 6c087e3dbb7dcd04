"""Offset pointers: bounds checks, copies between memory regions, arithmetic and comparison."""
from core import *
from linear import Lin
from absint import C, NULL, FALSE, TRUE, root
SHM = "score::memory::shared::"
OP = SHM + "OffsetPtr"
oplog = lambda sq, f: sq.startswith("score::mw::log")
U64 = (1 << 64) - 1
I63 = (1 << 63) - 1
NUL = 1                                     # placeholder, the representation is taken from the source


def lin(p, st=None, extra=()):
    st = st or p.st
    return Lin(p.I, st, wid={x: 64 for x in extra})


def addr_of(place): return mkaddr(place)


class Regions:
    """answers of the map of known regions: any address lies in no region or in one with any bounds around it"""
    def __init__(self, c, checking=True, steady=False):
        self.steady = steady                # the known regions do not change meanwhile
        b = c.db.cls(SHM + "MemoryRegionBounds")[0]
        self.checking = checking
        fl = [x["n"] for x in b["fields"]]
        self.get = None
        # which field is start and which is end: by what the public getters return
        self.S, self.E = [self._getter(c, n) for n in ("GetStartAddress", "GetEndAddress")]
        self.hooks = {SHM + "detail::MemoryRegionMapImpl::GetBoundsFromAddress": self.lookup,
                      SHM + "detail_offset_ptr::IsBoundsCheckingEnabled": lambda I, st, e, op, vs: [(st, C(1 if self.checking else 0))]}

    def _getter(self, c, n):
        f = c.fns(SHM + "MemoryRegionBounds::" + n)[0]
        r = {p.ret for p in c.run(f) if p.out == "ret"}
        if len(r) != 1 or list(r)[0][0] != "fld": raise CheckError("anchor vanished: %s does not return a member" % n)
        return list(r)[0][2]

    def lookup(self, I, st, e, op, vs):
        a = I.argval(st, vs[0]); out = []
        if self.steady and a[0] == "addr" and root(a[1])[0] in ("L", "T"):
            T = I.tmp(st); st.m[("F", T, "#has")] = FALSE      # variables of the function live on its stack
            return [(st, ("obj", T))]
        prev = [x for x in st.tr if x.k == "lookup" and x.a == a] if self.steady else []
        if prev:
            T = I.tmp(st); st.m[("F", T, "#has")] = TRUE if prev[0].has else FALSE
            if prev[0].has: st.m[("F", ("F", T, "#val"), self.S)] = prev[0].s; st.m[("F", ("F", T, "#val"), self.E)] = prev[0].e
            return [(st, ("obj", T))]
        st.n += 1; k = st.n
        if a not in I.wid: I.wid[a] = 64
        s = st.copy(); T = I.tmp(s); s.m[("F", T, "#has")] = FALSE
        I.emit(s, "lookup", a=a, has=False, s=None, e=None)
        out.append((s, ("obj", T)))
        s = st.copy(); T = I.tmp(s); s.m[("F", T, "#has")] = TRUE
        S, E = ("v", "start", k), ("v", "end", k)
        for x in (S, E): I.wid[x] = 64; I.unsigned.add(x)
        V = ("F", T, "#val"); s.m[("F", V, self.S)] = S; s.m[("F", V, self.E)] = E
        I.emit(s, "lookup", a=a, has=True, s=S, e=E)
        for s0, z in I.branch(s, I.binop(s, "==", S, C(0))):
            if z: continue
            for s1, b in I.branch(s0, I.binop(s0, "<", a, S)):
                if b: continue
                for s2, b in I.branch(s1, I.binop(s1, "<", E, a)):
                    if not b:
                        for s3, z in I.branch(s2, I.binop(s2, "==", E, C(0))):
                            if not z: out.append((s3, ("obj", T)))
        return out


def exact(c, rid, f, want, lo, hi, what, pre=None, canon=False):
    """f returns the mathematical value of want, within lo..hi, or ends the process"""
    n = 0
    for p in c.run(f, opaque=oplog):
        if p.out == "abort": continue
        if p.out != "ret": c.bad(rid, name(f), fwhere(f), "leaves by " + p.out, p); continue
        n += 1
        L = lin(p, extra=[inp(x["n"]) for x in f["p"]] )
        L.wid = {inp(x["n"]): 64 for x in f["p"] if x["t"].replace("const ", "").strip().startswith("unsigned") or "*" in x["t"]}
        got, w = L.lin(p.ret), L.lin(want(p))
        d = L.add(got, w, -1)
        same = all(v % (1 << 64) == 0 for v in d.values()) and set(d) <= {1} or L.le0(d) and L.le0(L.add({}, d, -1))
        if not c.check(rid, same, name(f), fwhere(f), "the result is %s, which is not %s" % (L.show(got), L.show(w)), p, inst=what): continue
        if canon:
            a, sg = canon(p)
            # a representative within the result type that is not beyond the signed operand in the direction of the operation
            r1 = L.le0(L.add(L.lin(a), got, -1)) if sg > 0 else L.le0(L.add(got, L.lin(a), -1))
            c.check(rid, r1, name(f), fwhere(f), "an overflow is not noticed", p, inst=what + " [no wrap]")
        else:
            c.check(rid, d == {} or L.within(w, lo, hi), name(f), fwhere(f), "the result %s has wrapped" % L.show(got), p, inst=what + " [no wrap]")
            ok = L.within(got, lo, hi)
            c.check(rid, ok, name(f), fwhere(f), "the result %s may leave %d..%d" % (L.show(got), lo, hi), p, inst=what + " [range]")
    if not n: c.bad(rid, name(f), fwhere(f), "never returns a result")


def nullrep(c):
    """the offset which stands for null: the one for which operator bool is false"""
    r = set()
    fs = [f for f in c.fns(OP + "::operator bool") if not f["p"]]
    for f in fs[:1]:
        for p in c.run(f):
            if p.out != "ret": continue
            for st, b in p.I.branch(p.st, p.ret):
                if not b:
                    for k, v in st.f.items():
                        if v and k[0] == "op" and k[1] == "==" and isc(k[2]): r.add((k[2][1], k[3]))
    if len(r) != 1: raise CheckError("anchor vanished: representation of null offset pointers")
    return r.pop()


def insts(c, m, n=None):
    """instantiations of a member of OffsetPtr, one per kind of pointed-to type"""
    fs = [f for f in c.fns(OP + "::" + m) if n is None or len(f["p"]) == n]
    pick = {}
    for f in fs:
        k = re.search(r"OffsetPtr<(.*?)>::", f["q"])
        pick.setdefault((k.group(1) if k else f["q"], tuple(x["t"] for x in f["p"]), f.get("rt")), f)
    return [f for k, f in sorted(pick.items(), key=lambda x: str(x[0])) if k[0] in ("vfinst::Obj", "const vfinst::Obj", "unsigned int", "void")]


def targ(f):
    m = re.match(r".*?OffsetPtr<(.*?)>::", f["q"])
    return m.group(1) if m else None


@prop("P10", ["score/memory/shared/offset_ptr.cpp", "score/memory/shared/offset_ptr_bounds_check.cpp", "score/memory/shared/pointer_arithmetic_util.cpp", "score/memory/shared/memory_region_bounds.cpp", "score/memory/shared/memory_resource_registry.cpp"], ["memory"])
def p10(c):
    c.rule("R1", "address and offset arithmetic yields the mathematically exact result or ends the process")
    c.rule("R2", "an accessor hands out an address only if the whole object it stands for, and the offset pointer itself, lie inside their memory region")
    c.rule("R3", "an accessor hands out the address its offset stands for, null exactly for the null pointer, and never refuses a null pointer or an object inside the region")
    c.rule("R4", "what is checked is what is used: the offset is read from memory once")
    c.rule("R5", "a copied or assigned pointer points to the same object; copied out of a region it keeps the bounds of that region, copied between pointers outside of regions it keeps their bounds, in a region it has none of its own")
    c.rule("R6", "moving a pointer by n elements moves it by exactly n times the element size or ends the process, and keeps its bounds")
    c.rule("R7", "comparing and subtracting pointers compares and subtracts the addresses they stand for")
    c.rule("R8", "bounds are set as given, and either both of them are valid or none is")
    nul, offt = nullrep(c)
    OFF = offt[2]; BND = c.field(OP, r"MemoryRegionBounds")
    off = inp("this", OFF)
    # ---- R1
    two = lambda a, op, b: (lambda p: p.I.binop(p.st, op, a, b, "__int128"))
    def pn(f, i): return inp(f["p"][i]["n"])
    for f in c.fns(SHM + "AddOffsetToPointerAsInteger"): exact(c, "R1", f, two(pn(f, 0), "+", pn(f, 1)), 0, U64, name(f))
    for f in c.fns(SHM + "SubtractOffsetFromPointerAsInteger"): exact(c, "R1", f, two(pn(f, 0), "-", pn(f, 1)), 0, U64, name(f))
    for f in c.fns(SHM + "AddSignedOffsetToPointerAsInteger"): exact(c, "R1", f, two(pn(f, 0), "+", pn(f, 1)), 0, U64, name(f))
    for f in c.fns(SHM + "SubtractPointersBytes"): exact(c, "R1", f, two(pn(f, 0), "-", pn(f, 1)), -I63 - 1, I63, name(f))
    wide = lambda fs: [f for f in fs if f["p"][0]["t"] in ("long", "std::ptrdiff_t", "unsigned long")]
    for f in wide(c.fns(SHM + "AddUnsignedToSigned")): exact(c, "R1", f, two(pn(f, 0), "+", pn(f, 1)), -I63 - 1, I63, name(f), canon=lambda p, f=f: (pn(f, 0), 1))
    for f in wide(c.fns(SHM + "SubtractUnsignedFromSigned")): exact(c, "R1", f, two(pn(f, 0), "-", pn(f, 1)), -I63 - 1, I63, name(f), canon=lambda p, f=f: (pn(f, 0), -1))
    for f in wide(c.fns(SHM + "AbsoluteValue")):
        for p in c.run(f):
            if p.out != "ret": continue
            L = Lin(p.I, p.st); v = L.lin(pn(f, 0)); g = L.lin(p.ret)
            neg = L.le0(L.add(v, {1: 1})); pos = L.le0(L.add({}, v, -1))
            want = L.add({}, v, -1) if neg else v if pos else None
            e = L.add(g, want, -1) if want is not None else {0: 1}
            c.check("R1", e == {} or L.le0(e) and L.le0(L.add({}, e, -1)), name(f), fwhere(f), "the absolute value is %s" % show(p.ret), p, inst="absolute value")
    c.need("R1", 12)
    # ---- R2, R3, R4
    this = ("A", "this"); A = mkaddr(this)
    acc = []
    for m in ("get", "operator*", "operator->", "operator[]"): acc += insts(c, m)
    acc += [f for f in c.db.F.values() if re.match(r".*OffsetPtr<.*>::operator .*\*$", f["q"]) and f.get("body") is not None and "vfinst::Obj" in f["q"] and f["sq"].startswith(OP + "::operator ")]
    acc = [f for f in acc if sizeof(c, f, targ(f)) is not None]
    if len(acc) < 8: raise CheckError("anchor vanished: accessors of OffsetPtr (%d)" % len(acc))
    for checking in (True, False):
        R = Regions(c, checking)
        for f in acc:
            ref = f["sq"].split("::")[-1] in ("operator*", "operator[]")
            idx = inp(f["p"][0]["n"]) if f["sq"].endswith("operator[]") else None
            T = targ(f)
            rt = (f.get("rt") or "").replace("const ", "").rstrip(" *&")
            size = None
            szt = inp(f["p"][0]["n"]) if f["sq"].endswith("::get") and f["p"] else None
            tag = "%s of %s" % (f["sq"].split("::")[-1], T)
            nret = 0
            for p in c.run(f, hooks=R.hooks, opaque=oplog, record_reads=True):
                I = p.I
                reads = [e for e in p.tr if e.k == "rd" and e.p == ("F", this, OFF)]
                c.check("R4", len(reads) <= 1, name(f), fwhere(f), "the offset is read %d times, it may change between check and use" % len(reads), p, inst=tag)
                isnull = I.truth(p.st, I.binop(p.st, "==", off, C(nul)))
                L = lin(p, extra=[A]); L.wid[A] = 64
                if szt is not None: L.wid[szt] = 64
                if p.out == "ret":
                    nret += 1
                    r = mkaddr(p.ret[1]) if p.ret[0] == "ref" else p.ret
                    if r in (NULL, FALSE):
                        if idx is not None: c.bad("R3", name(f), fwhere(f), "a reference to nothing is handed out", p); continue
                        c.check("R3", isnull is True and not ref, name(f), fwhere(f), "nothing is handed out for a pointer that is not null", p, inst=tag + " [null]")
                        continue
                    es = sizeof(c, f, T)
                    want = L.add(L.lin(A), L.lin(off))
                    if idx is not None: want = L.add(want, L.lin(I.binop(p.st, "*", idx, C(es), "__int128")))
                    g = L.lin(r)
                    if not c.check("R3", g == want, name(f), fwhere(f), "the address handed out is %s instead of %s" % (L.show(g), L.show(want)), p, inst=tag + " [address]"): continue
                    if idx is None: c.check("R3", isnull is False, name(f), fwhere(f), "an address is handed out for a null pointer", p, inst=tag + " [not null]")
                    if not checking: continue
                    n = L.lin(szt) if szt is not None else {1: es}
                    lk = [e for e in p.tr if e.k == "lookup"]
                    own = [e for e in lk if L.lin(e.a) == L.lin(A)]
                    if not c.check("R2", len(own) >= 1, name(f), fwhere(f), "the region of the pointer is not looked up", p, inst=tag + " [region]"): continue
                    inside = own[0].has
                    if inside:
                        S, E = L.lin(own[0].s), L.lin(own[0].e)
                        c.check("R2", L.le0(L.add(L.add(L.lin(A), {1: opsize(c, f)}), E, -1)), name(f), fwhere(f), "the offset pointer itself may reach beyond its region", p, inst=tag + " [pointer]")
                    else:
                        S, E = [L.lin(inp("this", BND, x)) for x in (R.S, R.E)]
                        have = I.truth(p.st, I.binop(p.st, "==", inp("this", BND, R.S), C(0)))
                        have2 = I.truth(p.st, I.binop(p.st, "==", inp("this", BND, R.E), C(0)))
                        end = [e for e in lk if L.lin(e.a) == L.add(L.lin(A), {1: opsize(c, f)})]
                        c.check("R2", end and not end[0].has, name(f), fwhere(f), "a pointer that reaches into a region is not refused", p, inst=tag + " [pointer]")
                        if have is True or have2 is True: continue
                    c.check("R2", L.le0(L.add(S, g, -1)), name(f), fwhere(f), "the object may start before the region", p, inst=tag + " [start]")
                    c.check("R2", L.le0(L.add(L.add(g, n), E, -1)), name(f), fwhere(f), "the object may reach beyond the region", p, inst=tag + " [end]")
                elif p.out == "abort":
                    if isnull is True and idx is None and not ref:
                        c.bad("R3", name(f), fwhere(f), "a null pointer is refused", p); continue
                    es = sizeof(c, f, T); n = L.lin(szt) if szt is not None else {1: es}
                    tgt = L.add(L.lin(A), L.lin(off))
                    if idx is not None: tgt = L.add(tgt, L.lin(I.binop(p.st, "*", idx, C(es), "__int128")))
                    lk = [e for e in p.tr if e.k == "lookup"]
                    own = [e for e in lk if L.lin(e.a) == L.lin(A)]
                    if checking and own and own[0].has:
                        S, E = L.lin(own[0].s), L.lin(own[0].e)
                        why = [L.le0(L.add(E, L.add(L.lin(A), {1: opsize(c, f) - 1}), -1)), L.le0(L.add(L.add(tgt, {1: 1}), S, -1)), L.le0(L.add(E, L.add(L.add(tgt, n), {1: -1}), -1)), L.le0(L.add(tgt, {1: 1}))]
                        why.append(isnull is True)
                        if idx is not None: why.append(L.le0(L.add(L.add(tgt, L.lin(A), -1), {1: -1})))
                        why.append(not any(why) and L.contra())
                        c.check("R3", any(why), name(f), fwhere(f), "an object inside the region is refused" + ("" if any(why) else " " + facts(p.st)), p, inst=tag + " [refusal]")
            if not nret: c.bad("R3", name(f), fwhere(f), "never hands out an address")
    c.need("R2", 20); c.need("R3", 20); c.need("R4", 8)

    # ---- R5
    PT = lambda t: "OffsetPtr<" in t
    def bounds(p, place):
        v = p.I.read(p.st, ("F", ("F", place, BND), R0.S)), p.I.read(p.st, ("F", ("F", place, BND), R0.E))
        return v
    R0 = Regions(c)
    cps = [f for f in insts(c, "OffsetPtr", 1) + insts(c, "operator=", 1) if PT(f["p"][0]["t"]) and "&&" not in f["p"][0]["t"]]
    raw = [f for f in insts(c, "OffsetPtr", 1) + insts(c, "operator=", 1) if not PT(f["p"][0]["t"])]
    if len(cps) < 4 or len(raw) < 2: raise CheckError("anchor vanished: copies of offset pointers (%d, %d)" % (len(cps), len(raw)))
    for checking in (True, False):
        R = Regions(c, checking)
        for f in cps:
            o = ("A", f["p"][0]["n"]); O = mkaddr(o); oo = inp(f["p"][0]["n"], OFF)
            tag = "%s of %s" % (f["sq"].split("::")[-1], targ(f) + " from " + f["p"][0]["t"])
            for p in c.run(f, hooks=R.hooks, opaque=oplog):
                if p.out == "abort": continue
                if p.out not in ("ret", "end", "fall"): c.bad("R5", name(f), fwhere(f), "leaves by " + p.out, p); continue
                L = Lin(p.I, p.st, wid={A: 64, O: 64})
                if L.contra(1) or at0(p, L): continue
                if p.I.truth(p.st, p.I.binop(p.st, "==", A, O)) is True:
                    same = p.I.read(p.st, ("F", this, OFF)) in (off, oo) and bounds(p, this) in ((inp("this", BND, R.S), inp("this", BND, R.E)), (inp(f["p"][0]["n"], BND, R.S), inp(f["p"][0]["n"], BND, R.E)))
                    c.check("R5", same, name(f), fwhere(f), "assigning a pointer to itself changes it", p, inst=tag + " [self]"); continue
                no = p.I.read(p.st, ("F", this, OFF)); nb = bounds(p, this)
                isnull = p.I.truth(p.st, p.I.binop(p.st, "==", oo, C(nul)))
                if isnull is None and L.le0(L.add(L.lin(oo), {1: 1})): isnull = False
                if isnull is None: c.bad("R5", name(f), fwhere(f), "a null pointer is not told apart", p); continue
                if isnull:
                    c.check("R5", no == C(nul), name(f), fwhere(f), "the copy of a null pointer is not null", p, inst=tag + " [null]"); continue
                g, w = L.lin(no), L.add(L.add(L.lin(O), L.lin(oo)), L.lin(A), -1)
                d = L.add(g, w, -1)
                c.check("R5", d == {} or L.le0(d) and L.le0(L.add({}, d, -1)), name(f), fwhere(f), "the copy points to another address: offset %s instead of %s" % (L.show(g), L.show(w)), p, inst=tag + " [same object]")
                c.check("R5", p.I.truth(p.st, p.I.binop(p.st, "==", no, C(nul))) is False or L.le0(L.add(g, {1: 1})), name(f), fwhere(f), "the offset may coincide with the representation of null", p, inst=tag + " [not null]")
                if not checking: continue
                lk = {}
                for e in p.tr:
                    if e.k == "lookup": lk.setdefault(e.a, e)
                if A not in lk or O not in lk:
                    c.bad("R5", name(f), fwhere(f), "the regions of both pointers are not looked up", p); continue
                if lk[A].has: want = (C(0), C(0)); k = "into a region"
                elif lk[O].has: want = (lk[O].s, lk[O].e); k = "out of a region"
                else: want = (inp(f["p"][0]["n"], BND, R.S), inp(f["p"][0]["n"], BND, R.E)); k = "outside of regions"
                c.check("R5", nb == want, name(f), fwhere(f), "copied %s the bounds are %s instead of %s" % (k, [show(x) for x in nb], [show(x) for x in want]), p, inst=tag + " [" + k + "]")
        for f in raw:
            a = inp(f["p"][0]["n"]); tag = "%s of %s" % (f["sq"].split("::")[-1], f["p"][0]["t"])
            for p in c.run(f, hooks=R.hooks, opaque=oplog):
                if p.out == "abort": continue
                L = Lin(p.I, p.st, wid={A: 64, a: 64})
                no = p.I.read(p.st, ("F", this, OFF)); nb = bounds(p, this)
                c.check("R5", nb == (C(0), C(0)), name(f), fwhere(f), "a pointer that was set to an address keeps old bounds", p, inst=tag + " [bounds]")
                z = p.I.truth(p.st, p.I.binop(p.st, "==", a, NULL))
                if z is None: c.bad("R5", name(f), fwhere(f), "a null pointer is not told apart", p); continue
                if z: c.check("R5", no == C(nul), name(f), fwhere(f), "null is not represented as null", p, inst=tag + " [null]"); continue
                d = L.add(L.lin(no), L.add(L.lin(a), L.lin(A), -1), -1)
                c.check("R5", d == {} or L.le0(d) and L.le0(L.add({}, d, -1)), name(f), fwhere(f), "the offset is %s" % show(no), p, inst=tag + " [address]")
                c.check("R5", p.I.truth(p.st, p.I.binop(p.st, "==", no, C(nul))) is False or L.le0(L.add(L.lin(no), {1: 1})), name(f), fwhere(f), "the offset may coincide with the representation of null", p, inst=tag + " [not null]")
    c.need("R5", 20)
    # ---- R6
    mv = {"operator+=": 1, "operator-=": -1, "operator++": 1, "operator--": -1}
    for m, sg in mv.items():
        for f in insts(c, m):
            if targ(f) == "void": continue
            es = sizeof(c, f, targ(f)); post = m in ("operator++", "operator--") and len(f["p"]) == 1
            n = inp(f["p"][0]["n"]) if "=" in m else C(1)
            tag = m + (" postfix" if post else "") + " of " + targ(f)
            k = 0
            for p in c.run(f, hooks=Regions(c).hooks, opaque=oplog):
                if p.out != "ret": continue
                k += 1
                L = Lin(p.I, p.st, wid={A: 64})
                if L.contra(1) or at0(p, L): continue
                g = L.lin(p.I.read(p.st, ("F", this, OFF)))
                nn = L.lin(n); d = L.add(L.add(g, L.lin(off), -1), {x: v * es for x, v in nn.items()}, -sg)
                zero = all(v % (1 << 64) == 0 for v in d.values()) and set(d) <= {1} or L.le0(d) and L.le0(L.add({}, d, -1))
                if not c.check("R6", zero, name(f), fwhere(f), "the offset moves to %s" % L.show(g), p, inst=tag): continue
                # the representative is the one without a wrap: not beyond the old offset in the wrong direction
                up = L.le0(L.add({}, nn, -1)) if sg > 0 else L.le0(nn)
                down = L.le0(nn) if sg > 0 else L.le0(L.add({}, nn, -1))
                ok = up and L.le0(L.add(L.lin(off), g, -1)) or down and L.le0(L.add(g, L.lin(off), -1))
                c.check("R6", ok, name(f), fwhere(f), "an overflow of the offset is not noticed", p, inst=tag + " [no wrap]")
                c.check("R6", bounds(p, this) == (inp("this", BND, R0.S), inp("this", BND, R0.E)), name(f), fwhere(f), "moving the pointer changes its bounds", p, inst=tag + " [bounds]")
                if post:
                    r = p.ret[1] if p.ret[0] == "obj" else None
                    if r is None: c.bad("R6", name(f), fwhere(f), "does not return a pointer", p); continue
                    t = L.add(L.lin(mkaddr(r)), L.lin(p.I.read(p.st, ("F", r, OFF))))
                    L.wid[mkaddr(r)] = 64; L.wid[A] = 64
                    if p.I.truth(p.st, p.I.binop(p.st, "==", off, C(nul))) is True: continue
                    t = L.add(L.lin(mkaddr(r)), L.lin(p.I.read(p.st, ("F", r, OFF))))
                    d = L.add(t, L.add(L.lin(A), L.lin(off)), -1)
                    c.check("R6", d == {} or L.le0(d) and L.le0(L.add({}, d, -1)), name(f), fwhere(f), "the pointer returned is not the old one", p, inst=tag + " [result]")
                elif p.ret[0] == "ref": c.check("R6", p.ret[1] == this, name(f), fwhere(f), "does not return the pointer itself", p, inst=tag + " [result]")
            if not k: c.bad("R6", name(f), fwhere(f), "never returns")
    c.need("R6", 12)
    # ---- R7
    def target(I, st, f, i):
        """address the i-th operand stands for"""
        x = f["p"][i]
        if PT(x["t"]):
            pl = ("A", x["n"]); o = inp(x["n"], OFF)
            return [(s, NULL if z else I.binop(s, "+", mkaddr(pl), o, "__int128")) for s, z in I.branch(st, I.binop(st, "==", o, C(nul)))]
        if "nullptr_t" in x["t"]: return [(st, NULL)]
        return [(st, inp(x["n"]))]
    n7 = 0
    for m in ("==", "!=", "<", "<=", ">", ">="):
        for f in c.fns(SHM + "operator" + m):
            if len(f["p"]) != 2 or not any("OffsetPtr<vfinst::Obj>" in x["t"] for x in f["p"]): continue
            n7 += 1
            for p in c.run(f, opaque=oplog, hooks=Regions(c).hooks):
                if p.out != "ret": continue
                I = p.I
                for st, b in I.branch(p.st.copy(), p.ret):
                    for s1, t1 in target(I, st.copy(), f, 0):
                        for s2, t2 in target(I, s1.copy(), f, 1):
                            L = Lin(I, s2, wid={mkaddr(("A", x["n"])): 64 for x in f["p"]})
                            if L.contra(1): continue
                            if NULL in (t1, t2) and t1 != t2 and m in ("==", "!="):
                                # a pointer that is not null and stands for address 0 does not exist in practice, both answers are consistent
                                q = t1 if t2 == NULL else t2
                                if q[0] == "op": continue
                            d = L.add(L.lin(t1), L.lin(t2), -1); e = L.add({}, d, -1)
                            op, w = {"!=": ("==", not b), ">=": ("<", not b), ">": ("<=", not b)}.get(m, (m, bool(b)))
                            if op == "==": ok = (L.le0(d) and L.le0(e)) if w else self_ne(L, d)
                            elif op == "<": ok = L.le0(L.add(d, {1: 1})) if w else L.le0(e)
                            else: ok = L.le0(d) if w else L.le0(L.add(e, {1: 1}))
                            c.check("R7", ok, name(f), fwhere(f), "returns %s for the addresses %s and %s" % (bool(b), show(t1), show(t2)), p, inst="%s (%s, %s)" % (m, f["p"][0]["t"], f["p"][1]["t"]))
    for f in c.fns(SHM + "operator-"):
        if len(f["p"]) != 2 or not all("Obj" in x["t"] for x in f["p"]) or not any(PT(x["t"]) for x in f["p"]): continue
        n7 += 1
        for p in c.run(f, opaque=oplog, hooks=Regions(c).hooks):
            if p.out != "ret": continue
            for s1, t1 in target(p.I, p.st.copy(), f, 0):
                for s2, t2 in target(p.I, s1.copy(), f, 1):
                    L = Lin(p.I, s2, wid={mkaddr(("A", x["n"])): 64 for x in f["p"]})
                    r = p.ret; k = 32
                    if r[0] == "op" and r[1] == "/" and isc(r[3]): r, k = r[2], 32 // r[3][1] if r[3][1] and 32 % r[3][1] == 0 else 0
                    elif isc(r): r = C(r[1] * 32); k = 1
                    else: k = 0
                    w = L.add(L.lin(t1), L.lin(t2), -1); d = L.add(L.lin(r), w, -1)
                    c.check("R7", k == 1 and (d == {} or L.le0(d) and L.le0(L.add({}, d, -1)) or L.contra()), name(f), fwhere(f), "the difference of %s and %s is %s" % (show(t1), show(t2), show(p.ret)), p, inst="difference (%s, %s)" % (f["p"][0]["t"], f["p"][1]["t"]))
    if n7 < 8: raise CheckError("anchor vanished: comparisons of offset pointers (%d)" % n7)
    # ---- free operators and exchange
    def tgt(p, L, place, o):
        L.wid[mkaddr(place)] = 64
        return L.add(L.lin(mkaddr(place)), L.lin(o))
    for m in ("operator+", "operator-"):
        for f in c.fns(SHM + m):
            ks = [i for i, x in enumerate(f["p"]) if x["t"].endswith("OffsetPtr<vfinst::Obj>")]
            if len(f["p"]) != 2 or len(ks) != 1 or (m == "operator-" and ks != [0]): continue
            a, n = f["p"][ks[0]]["n"], inp(f["p"][1 - ks[0]]["n"])
            for p in c.run(f, opaque=oplog, hooks=Regions(c, False).hooks):
                if p.out != "ret": continue
                L = Lin(p.I, p.st, wid={A: 64})
                if L.contra(1) or at0(p, L): continue
                if p.ret[0] != "obj": c.bad("R6", name(f), fwhere(f), "does not return a pointer", p); continue
                o = p.I.read(p.st, ("F", p.ret[1], OFF))
                if o == C(nul): continue
                pl = [k[1] for k, v in p.st.m.items() if k[0] == "B" and v == inp(a)] or [("A", a)]
                w = L.add(tgt(p, L, pl[0], inp(a, OFF)), {x: v * 32 for x, v in L.lin(n).items()}, 1 if m == "operator+" else -1)
                d = L.add(tgt(p, L, p.ret[1], o), w, -1)
                zero = all(v % (1 << 64) == 0 for v in d.values()) and set(d) <= {1} or any(L.le0(L.add(d, {1: k})) and L.le0(L.add({1: -k}, d, -1)) for k in (0, 1 << 64, -(1 << 64))) or L.contra()
                c.check("R6", zero, name(f), fwhere(f), "the result stands for %s bytes off the expected address" % L.show(d) + facts(p.st), p, inst="%s (%s)" % (m, ", ".join(x["t"] for x in f["p"])))
    for f in c.fns(SHM + "swap"):
        if len(f["p"]) != 2 or "vfinst::Obj" not in f["p"][0]["t"]: continue
        l, r = f["p"][0]["n"], f["p"][1]["n"]
        for p in c.run(f, opaque=oplog, hooks=Regions(c, False).hooks):
            if p.out == "abort": continue
            L = Lin(p.I, p.st)
            if L.contra(1) or at0(p, L) or p.I.truth(p.st, p.I.binop(p.st, "==", mkaddr(("A", l)), mkaddr(("A", r)))) is True: continue
            for x, y in ((l, r), (r, l)):
                o = p.I.read(p.st, ("F", ("A", x), OFF)); w0 = inp(y, OFF)
                if p.I.truth(p.st, p.I.binop(p.st, "==", w0, C(nul))) is True:
                    c.check("R5", o == C(nul), name(f), fwhere(f), "a null pointer is lost when pointers are exchanged", p, inst="swap [null]"); continue
                d = L.add(tgt(p, L, ("A", x), o), tgt(p, L, ("A", y), w0), -1)
                c.check("R5", d == {} or L.le0(d) and L.le0(L.add({}, d, -1)) or L.contra(), name(f), fwhere(f), "exchanged pointers point elsewhere", p, inst="swap")
        R = Regions(c, steady=True)
        for p in c.run(f, opaque=oplog, hooks=R.hooks):
            if p.out == "abort": continue
            L = Lin(p.I, p.st)
            if at0(p, L) or p.I.truth(p.st, p.I.binop(p.st, "==", mkaddr(("A", l)), mkaddr(("A", r)))) is True or L.contra(1): continue
            lk = {}
            for e in p.tr:
                if e.k == "lookup": lk.setdefault(e.a, []).append(e)
            for x, y in ((l, r), (r, l)):
                if p.I.truth(p.st, p.I.binop(p.st, "==", inp(y, OFF), C(nul))) is True: continue
                ex, ey = lk.get(mkaddr(("A", x))), lk.get(mkaddr(("A", y)))
                known = lambda es: es and len({e.has for e in es}) == 1
                if not ex: c.bad("R5", name(f), fwhere(f), "the region of an exchanged pointer is not looked up, it loses its bounds", p); continue
                if not known(ex) or ey and not known(ey): continue       # the regions change in between
                nb = bounds(p, ("A", x))
                if ex[0].has: want = [(C(0), C(0))]
                elif not ey: want = []
                elif ey[0].has: want = [(e.s, e.e) for e in ey]
                else: want = [(inp(y, BND, R.S), inp(y, BND, R.E))]
                if ex[0].has or ey: c.check("R5", nb in want, name(f), fwhere(f), "an exchanged pointer has the bounds %s" % [show(z) for z in nb], p, inst="swap [bounds]")
                else: c.bad("R5", name(f), fwhere(f), "the region of an exchanged pointer is not looked up, it loses its bounds", p)
    # ---- R8
    B = SHM + "MemoryRegionBounds"
    fb = [(f, ("A", "this")) for f in c.fns(B + "::MemoryRegionBounds") if len(f["p"]) in (0, 2) and "&" not in str([x["t"] for x in f["p"]])] + [(f, ("A", "this")) for f in c.fns(B + "::Set") + c.fns(B + "::Reset")]
    for f, _ in fb:
        for p in c.run(f, opaque=oplog):
            s_, e_ = [p.I.read(p.st, ("F", this, x)) for x in (R0.S, R0.E)]
            w = tuple(inp(x["n"]) for x in f["p"]) or (C(0), C(0))
            Z = [p.I.truth(p.st, p.I.binop(p.st, "==", x, C(0))) for x in w]
            if p.out == "abort":
                c.check("R8", None not in Z and Z[0] != Z[1], name(f), fwhere(f), "bounds that are both valid or both invalid are refused", p, inst=name(f) + " [refusal]"); continue
            c.check("R8", all(a == b or p.I.truth(p.st, p.I.binop(p.st, "==", a, b)) is True for a, b in zip((s_, e_), w)), name(f), fwhere(f), "the bounds are not stored as given", p, inst=name(f) + " [stored]")
            c.check("R8", None not in Z and Z[0] == Z[1], name(f), fwhere(f), "bounds of which only one is valid are accepted", p, inst=name(f) + " [consistent]")
    for f in c.fns(B + "::has_value"):
        equiv(c, "R8", f, lambda I, st, p: neither(I, st, inp("this", R0.S), inp("this", R0.E)), inst="has_value")
    for m in ("==", "!="):
        for f in c.fns(SHM + "operator" + m):
            if not all("MemoryRegionBounds" in x["t"] for x in f["p"]): continue
            equiv(c, "R8", f, lambda I, st, p, f=f: conj(I, st, m == "!=", *[I.binop(st, "==", inp(f["p"][0]["n"], x), inp(f["p"][1]["n"], x)) for x in (R0.S, R0.E)]), inst="bounds " + m)


def neither(I, st, a, b):
    za, zb = I.truth(st, I.binop(st, "==", a, C(0))), I.truth(st, I.binop(st, "==", b, C(0)))
    if za is True or zb is True: return C(0)
    if za is False and zb is False: return C(1)
    return I.binop(st, "!=", b if za is False else a, C(0))


def conj(I, st, neg, *ts):
    v = [I.truth(st, t) for t in ts]
    r = C(0) if False in v else C(1) if all(v) else ts[v.index(None)]
    return I.neg(r) if neg else r


def at0(p, L):
    """an object would have to live at address 0"""
    return any(v and k[0] == "op" and k[1] == "==" and NULL in (k[2], k[3]) and "op" in (k[2][0], k[3][0]) for k, v in p.st.f.items())


def self_ne(L, d):
    return L.le0(L.add(d, {1: 1})) or L.le0(L.add({1: 1}, d, -1)) or ne_fact(L, d)


def ne_fact(L, d):
    """the difference is known not to be zero"""
    for f, v in L.st.f.items():
        if not v and f[0] == "op" and f[1] == "==":
            x = L.add(L.lin(f[2]), L.lin(f[3]), -1)
            if x == d or x == L.add({}, d, -1): return True
    return False


SIZES = {"vfinst::Obj": 32, "unsigned int": 4, "char": 1, "unsigned char": 1}


def sizeof(c, f, T):
    t = (T or "").replace("const ", "").strip()
    if t == "void": t = (f.get("rt") or "").replace("const ", "").rstrip(" *&")
    for k in c.db.Cq.get(t, []) if isinstance(c.db.Cq.get(t), list) else []:
        if k.get("size"): return k["size"]
    if t in SIZES: return SIZES[t]
    if t == "void": return 0
    return None


def opsize(c, f):
    r = {k.get("size") for k in c.db.cls(OP) if k.get("size")}
    if len(r) != 1: raise CheckError("size of offset pointers is not known")
    return r.pop()
