"""Shared memory objects: the blocks handed out in them, and how they are created, opened, shared and removed."""
from core import *
from linear import Lin, ongrid, leaves
from absint import C, NULL, FALSE, TRUE, St
import models
SHM = "score::memory::shared::"
RES = SHM + "SharedMemoryResource"
FAC = SHM + "SharedMemoryFactoryImpl"
THIS = ("A", "this")
OPA = lambda sq, g=None: sq.startswith("score::mw::log") or "LogStream" in sq or sq.endswith("::insert_resource") or sq.endswith("::remove_resource")


def alts(t):
    r = []; i = 0
    while models.targ0(t, i): r.append(base_type(models.targ0(t, i))); i += 1
    return r


def T(I, st, a, b): return I.truth(st, eq(I, st, a, b))


def align(I, st, e, op, vs):
    """std::align: null if it does not fit, otherwise the first aligned address at or after the start, which it then stores as the start"""
    al, n = I.scal(st, vs[0]), I.scal(st, vs[1])
    ps, sp = [v[1] if v[0] in ("ref", "obj") else None for v in vs[2:4]]
    if ps is None or sp is None: raise CheckError("std::align without variables for start and space")
    start, space = I.read(st, ps), I.read(st, sp)
    st.n += 1
    pad = ("v", "padding", st.n); I.unsigned.add(pad); I.wid[pad] = 64
    I.emit(st, "align", al=al, n=n, start=start, space=space, pad=pad)
    out = [(st.copy(), NULL)]
    r = I.binop(st, "+", start, pad)
    I.assume(st, ("op", "==", r, NULL), False)
    st.m[ps] = r; st.m[sp] = I.binop(st, "-", space, pad)
    return out + [(st, r)]


SIZES = {"vfinst::Obj": (32, 8), "vfinst::Wide": (128, 64), "vfinst::Odd": (3, 1)}      # of the types in inst/memory.cpp
AH = {"std::align": align}


@prop("P14", ["score/memory/shared/shared_memory_resource.cpp", "score/memory/shared/memory_resource_proxy.cpp", "score/memory/shared/memory_region_bounds.cpp", "score/memory/shared/pointer_arithmetic_util.cpp", "score/memory/shared/new_delete_delegate_resource.cpp",
              "score/memory/shared/lock_file.cpp", "score/memory/shared/memory_resource_registry.cpp"], ["memory"])
def p14(c):
    c.rule("R1", "a block starts at the first suitably aligned address after everything allocated before")
    c.rule("R2", "a block is handed out only after the allocation counter was moved, in one atomic step, from the value the block was computed from to the end of the block")
    c.rule("R3", "the counter starts behind the management data, and nothing else changes it")
    c.rule("R4", "no block reaches beyond the size of the shared memory object")
    c.rule("R5", "the proxy and the allocators request exactly the size and alignment of what is stored, from the resource of their own identifier")
    c.rule("R6", "the number of bytes reported as allocated is what the counter advanced since the start; the dry run counts as the real allocation does")
    c.rule("R7", "the size calculated for a sequence of blocks is what their allocation takes")
    CB = c.field(RES, r"ControlBlock \*$")
    cls = RES + "::ControlBlock"
    CNT = c.field(cls, r"atomic<")
    fl = {x["n"]: x["t"] for x in c.db.cls(RES)[0]["fields"]}
    U64 = [n for n, t in fl.items() if t == "unsigned long"]
    PTR = [n for n, t in fl.items() if t == "void *"]
    # roles of the members, from what the public getters give back
    def getter(m):
        ps = [p for p in c.run(c.fns(RES + "::" + m)[0], opaque=OPA) if p.out == "ret"]
        return ps
    b = [p.I.scal(p.st, p.ret) for p in getter("getBaseAddress")]
    BASE = next((n for n in PTR if all(x == inp("this", n) for x in b)), None)
    b = [p.I.scal(p.st, p.ret) for p in getter("getUsableBaseAddress")]
    START = next((n for n in PTR if b and all(x == inp("this", n) for x in b)), None)
    if BASE is None or START is None: raise CheckError("anchor vanished: base addresses of a shared memory resource")
    base = inp("this", BASE)
    SZ = None
    for p in getter("getEndAddress"):
        l = Lin(p.I, p.st).lin(p.I.scal(p.st, p.ret))
        for n in U64:
            if any(a != 1 and a[-1] == inp("this", n) or a != 1 and a[1] == inp("this", n) for a in l): SZ = n
    if SZ is None: raise CheckError("anchor vanished: size of a shared memory resource")
    size = inp("this", SZ)
    W = {base: 64, size: 64}
    counter = ("F", mkP(inp("this", CB)), CNT)
    # R3: initialisation
    MG = None
    for f in c.fns(RES + "::initializeInternalsInSharedMemory"):
        for p in c.run(f, opaque=OPA):
            if p.out != "ret": continue
            I, st = p.I, p.st
            cb = I.read(st, ("F", THIS, CB)); l = Lin(I, st, wid=W)
            c.check("R3", T(I, st, cb, base) is True, name(f), fwhere(f), "the control block is at %s" % show(cb), p, inst="control block at the base address")
            w = [e for i, e in evs(p, "astore", "rmw", "cas") if e.p[0] == "F" and e.p[2] == CNT]
            v = w[-1].v if w and w[-1].k == "astore" else None
            if v is None or not isc(v): c.bad("R3", name(f), fwhere(f), "the counter starts with %s" % (show(v) if v else None), p); continue
            MG = v[1]
            need = c.db.cls(cls)[0].get("size") or 0
            c.check("R3", MG >= max(need, 16) and MG % 16 == 0, name(f), w[-1].where(), "the first block starts %d bytes behind the base address" % MG, p, inst="first block behind the control block, fully aligned")
            s = l.lin(I.scal(st, I.read(st, ("F", THIS, START))))
            c.check("R3", s == l.add(l.lin(base), {1: MG}), name(f), fwhere(f), "usable memory starts at %s" % l.show(s), p, inst="usable start behind the management data")
    if MG is None: raise CheckError("anchor vanished: initial counter")
    # opening
    for f in c.fns(RES + "::loadInternalsFromSharedMemory"):
        for p in c.run(f, opaque=OPA):
            if p.out != "ret": continue
            I, st = p.I, p.st; l = Lin(I, st)
            cb = I.scal(st, I.read(st, ("F", THIS, CB))); bs = I.scal(st, I.read(st, ("F", THIS, BASE)))
            c.check("R3", T(I, st, cb, bs) is True, name(f), fwhere(f), "the control block is taken to be at %s" % show(cb), p, inst="open: control block at the base address")
            l.wid[bs] = 64
            s = l.lin(I.scal(st, I.read(st, ("F", THIS, START))))
            c.check("R3", s == l.add(l.lin(bs), {1: MG}), name(f), fwhere(f), "usable memory starts at %s" % l.show(s), p, inst="open: same usable start as the creator's")
            w = [e for i, e in evs(p, "astore", "rmw", "cas", "wr", "init", "pnew") if root(e.p) != THIS and root(e.p)[0] not in ("L", "T") and "mmap" in str(e.p)]
            c.check("R3", not w, name(f), w[0].where() if w else fwhere(f), "opening changes the shared memory", p, inst="opening changes nothing in the memory")
    # R1, R2, R4: allocation
    n = 0
    for f in c.fns(RES + "::do_allocate"):
        nb, al = [inp(q["n"]) for q in f["p"]]

        def setup(I, st):
            for x in (base, size, nb, al): I.unsigned.add(x); I.wid[x] = 64
            for x in (base, size, nb): I.assume(st, ("op", "<", x, C(1 << 61)), True)
            I.assume(st, ("op", "==", base, C(0)), False)
            I.assume(st, ("op", "<", C(MG), size), True)
        for p in c.run(f, setup=setup, hooks=AH, opaque=OPA, maxpaths=100000):
            if p.out != "ret": continue
            I, st = p.I, p.st; r = I.scal(st, p.ret)
            al_ = [e for i, e in evs(p, "align")]
            cas = [(i, e) for i, e in evs(p, "cas") if e.p == counter]
            oth = [e for i, e in evs(p, "astore", "rmw", "wr", "cas") if e.p != counter and root(e.p)[0] not in ("L", "T") or e.p == counter and e.k in ("astore", "rmw")]
            l = Lin(I, st, wid={**W, nb: 64})
            for v in [e.exp for _, e in cas]: l.wid.setdefault(v, 64)
            # the counter never exceeds the size, which R4 maintains
            for _, e in cas: I.assume(st, ("op", "<=", e.exp, size), True) if I.truth(st, ("op", "<=", e.exp, size)) is None else None
            l._facts = None
            if l.contra(): continue
            n += 1
            c.check("R3", not oth, name(f), oth[0].where() if oth else fwhere(f), "allocating changes %s" % [show(mkaddr(e.p)) for e in oth], p, inst="only the counter changes")
            good = [(i, e) for i, e in cas if e.ok in (True, TRUE)]
            c.check("R2", len(good) == 1 and good[0][1] is cas[-1][1], name(f), fwhere(f), "hands out a block after %d successful changes of the counter" % len(good), p, inst="one successful compare-and-swap")
            if len(good) != 1: continue
            e = good[0][1]; a = [x for x in al_ if p.tr.index(x) < good[0][0]]
            if not a: raise CheckError("do_allocate: block not computed by std::align")
            a = a[-1]
            A, N = l.lin(e.exp), l.lin(e.des)
            where_ = l.add(l.lin(r), l.lin(base), -1)
            c.check("R1", T(I, st, a.al, al) is True and T(I, st, a.n, nb) is True, name(f), a.where(), "aligns %s bytes to %s" % (show(a.n), show(a.al)), p, inst="requested size and alignment")
            l.wid[a.pad] = 64
            st_ = l.add(l.lin(a.start), l.lin(base), -1)
            c.check("R2", st_ == A, name(f), e.where(), "the block is computed from counter value %s, the counter is moved from %s" % (l.show(st_), l.show(A)), p, inst="computed from the value which is replaced")
            c.check("R1", where_ == l.add(A, {("seg", a.pad, 0, 64): 1}), name(f), fwhere(f), "hands out the address base + %s" % l.show(where_), p, inst="first aligned address behind the counter")
            end = l.add(where_, l.lin(nb))
            c.check("R2", N == end, name(f), e.where(), "the counter is moved to %s, the block ends at %s" % (l.show(N), l.show(end)), p, inst="counter moved to the end of the block")
            sp = l.add(l.lin(a.space), l.lin(a.start))
            c.check("R4", sp == l.add(l.lin(base), l.lin(size)), name(f), a.where(), "the block may reach up to %s" % l.show(sp), p, inst="bounded by the end of the object")
    if not n: raise CheckError("anchor vanished: no block is ever handed out")
    for f in c.fns(RES + "::do_deallocate"):
        for p in c.run(f, opaque=OPA):
            w = [e for i, e in evs(p, "astore", "rmw", "cas", "wr") if root(e.p)[0] not in ("L", "T")]
            c.check("R3", not w, name(f), w[0].where() if w else fwhere(f), "giving a block back changes %s, which may hand out memory still in use" % [show(mkaddr(e.p)) for e in w], p, inst="giving back changes nothing")
    # R6
    for f in c.fns(RES + "::GetUserAllocatedBytes"):
        for p in c.run(f, opaque=OPA):
            if p.out != "ret": continue
            ld = [e for i, e in evs(p, "aload") if e.p == counter]
            l = Lin(p.I, p.st)
            for e in ld: l.wid[e.v] = 64
            ok = len(ld) == 1 and l.lin(p.I.scal(p.st, p.ret)) == l.add(l.lin(ld[0].v), {1: -MG})
            c.check("R6", ok, name(f), fwhere(f), "reports %s" % show(p.ret), p, inst="counter minus management data")
    # dry run
    ND = SHM + "NewDeleteDelegateMemoryResource"
    nf = {x["n"]: x["t"] for x in c.db.cls(ND)[0]["fields"]}
    SUM = None
    for p in c.run(c.fns(ND + "::GetUserAllocatedBytes")[0]):
        for k, t in nf.items():
            if p.I.scal(p.st, p.ret) == inp("this", k): SUM = k
    if SUM is None: raise CheckError("anchor vanished: sum of allocated bytes")
    m = 0
    for f in c.fns(ND + "::do_allocate"):
        nb, al = [inp(q["n"]) for q in f["p"]]
        sm = inp("this", SUM)

        def setup(I, st):
            for x in (sm, nb, al): I.unsigned.add(x); I.wid[x] = 64; I.assume(st, ("op", "<", x, C(1 << 60)), True)
            I.assume(st, ("op", "==", al, C(0)), False)
        for p in c.run(f, setup=setup, hooks=AH, opaque=OPA, maxpaths=100000, inline_virtual=lambda e, st, op, g: g["u"] if op == THIS else None):
            if p.out != "ret": continue
            I, st = p.I, p.st; l = Lin(I, st, wid={sm: 64, nb: 64, al: 64})
            if l.contra(): continue
            a = [e for i, e in evs(p, "align")]
            if not a: raise CheckError("dry run: block not computed by std::align")
            a = a[-1]; l.wid[a.pad] = 64; m += 1
            need = l.add(l.add(l.lin(nb), l.lin(al)), l.add(l.lin(a.space), {1: 1}), -1)
            c.check("R6", l.le0(need), name(f), a.where(), "the dry run fails for lack of space, %s is available" % l.show(l.lin(a.space)), p, inst="dry run: room for any padding")
            new = l.lin(I.scal(st, I.read(st, ("F", THIS, SUM))))
            c.check("R6", T(I, st, a.al, al) is True and T(I, st, a.n, nb) is True, name(f), a.where(), "aligns %s bytes to %s" % (show(a.n), show(a.al)), p, inst="dry run: requested size and alignment")
            off = l.add(l.lin(a.start), l.lin(sm), -1)
            c.check("R6", set(off) <= {1} and off.get(1, 0) % 16 == 0, name(f), a.where(), "counts the padding from %s" % l.show(l.lin(a.start)), p, inst="dry run: padding from an aligned start")
            want = l.add(l.add(l.lin(sm), l.lin(nb)), {("seg", a.pad, 0, 64): 1})
            c.check("R6", new == want, name(f), fwhere(f), "counts %s instead of %s" % (l.show(new), l.show(want)), p, inst="dry run: size and padding counted")
            up = [e for i, e in calls(p, "allocate")]
            ok = len(up) == 1 and up[0].a[:2] == [nb, al]
            c.check("R6", ok and I.scal(st, p.ret) == up[0].res, name(f), fwhere(f), "takes %s from the upstream resource" % [[show(x) for x in e.a] for e in up], p, inst="dry run: block of the requested size and alignment")
    if not m: raise CheckError("anchor vanished: dry run allocation")
    # R5 proxy
    PX = SHM + "MemoryResourceProxy"
    ident = c.field(PX, r"unsigned long")
    flag = {q.ret for q in c.run(c.fns(PX + "::EnableBoundsChecking")[0]) if q.out == "ret"}
    if len(flag) != 1: raise CheckError("anchor vanished: whether bounds are checked")
    flag = flag.pop(); me = mkaddr(THIS)

    def field(n):
        r = {p.ret for p in c.run(c.fns(SHM + "MemoryRegionBounds::" + n)[0]) if p.out == "ret"}
        if len(r) != 1 or list(r)[0][0] != "fld": raise CheckError("anchor vanished: %s does not return a member" % n)
        return list(r)[0][2]
    S, E = ("v", "start", 0), ("v", "end", 0)
    fS, fE = field("GetStartAddress"), field("GetEndAddress")

    def region(I, st, e, op, vs):
        out = []
        for has in (0, 1):
            s = st.copy(); t = I.tmp(s); s.m[("F", t, "#has")] = C(has)
            for x in (S, E): I.wid[x] = 64; I.unsigned.add(x)
            V = ("F", t, "#val"); s.m[("F", V, fS)] = S; s.m[("F", V, fE)] = E
            I.emit(s, "region", a=I.argval(s, vs[0]), has=has)
            out.append((s, ("obj", t)))
        return out
    for f in c.fns(PX + "::allocate"):
        nb, al = [inp(q["n"]) for q in f["p"]]
        k = 0; ks = 0
        for p in c.run(f, hooks={SHM + "MemoryResourceRegistry::GetBoundsFromIdentifier": region}, opaque=lambda sq, g=None: OPA(sq) or sq.startswith(SHM + "MemoryResourceRegistry::")):
            if p.out != "ret": continue
            at = [e for i, e in calls(p, "at")]
            al_ = [e for i, e in calls(p, "allocate")]
            k += 1
            ok = len(at) >= 1 and at[-1].a == [inp("this", ident)]
            c.check("R5", ok, name(f), fwhere(f), "asks for the resource %s" % [[show(x) for x in e.a] for e in at], p, inst="own resource")
            ok = len(al_) == 1 and al_[0].a[:2] == [nb, al] and p.I.scal(p.st, p.ret) == al_[0].res
            c.check("R5", ok and al_[0].o is not None and at and mkaddr(al_[0].o) == at[-1].res, name(f), fwhere(f), "allocates %s" % [[show(x) for x in e.a] for e in al_], p, inst="given size and alignment")
            reg = [e for i, e in evs(p, "region")]
            if p.I.truth(p.st, flag) is False: continue
            ks += 1
            p.I.wid[me] = 64; p.I.unsigned.add(me)
            l = Lin(p.I, p.st, wid={S: 64, E: 64, me: 64})
            ok = any(e.has and e.a == inp("this", ident) for e in reg) and l.le0(l.add(l.lin(S), l.lin(me), -1)) and l.le0(l.add(l.lin(me), l.lin(E), -1))
            c.check("R5", ok, name(f), fwhere(f), "allocates although the proxy need not lie in the region of its resource", p, inst="proxy inside the region it names")
        if not k or not ks: raise CheckError("anchor vanished: allocation through the proxy")
    AL = SHM + "PolymorphicOffsetPtrAllocator"
    # R7
    pad = lambda n, a: (n + a - 1) // a * a
    AN = (1, 2, 4, 8, 16, 32, 64)
    for f in c.fns(SHM + "CalculateAlignedSize"):
        n, a = [inp(q["n"]) for q in f["p"]]; k = 0
        ps = c.run(f, opaque=OPA, setup=lambda I, st: [(I.unsigned.add(x), I.wid.__setitem__(x, 64)) for x in (n, a)])
        for env, r in ongrid(ps, {n: [0] + [x + d for x in (1, 17, 64, 1000, 1 << 40) for d in range(0, 65)], a: AN}):
            want = pad(env[n], env[a]); k += 1
            bad = [p for p, v in r if p.out != "ret" or v is None or v % (1 << 64) != want]
            if not r: raise CheckError("%s: no path for given values" % name(f))
            if bad or k == 1: c.check("R7", not bad, name(f), fwhere(f), "%d bytes aligned to %d are computed as %s" % (env[n], env[a], [v for p, v in r]), r[0][0], inst="padded size")
            if bad: break
    k = 0
    for f in c.fns(SHM + "CalculateAlignedSizeOfSequence"):
        A = ("A", f["p"][0]["n"])
        for m in range(0, 4):
            ps = c.run(f, opaque=OPA, loops=6, maxpaths=20000, setup=lambda I, st: st.m.__setitem__(("F", A, "#size"), C(m)))
            dom = {}; role = {}
            for p in ps:
                for t in [p.I.scal(p.st, p.ret)] * (p.out == "ret") + list(p.st.f):
                    for x in leaves(t):
                        q = re.search(r"::(\w+)$", x[1]) if x[0] in ("pure", "r") and isinstance(x[1], str) else None
                        i = re.search(r"\[(\d+)\]", show(x))
                        if not q or not i: raise CheckError("%s depends on %s" % (name(f), show(x)))
                        role[x] = (int(i.group(1)), q.group(1))
            SZ_ = (0, 1, 8, 12, 13) if m < 3 else (1, 8, 13)
            for env, r in ongrid(ps, {x: SZ_ if y[1] == "Size" else AN[:5] if m < 3 else (1, 4, 16) for x, y in role.items()}):
                d = {y: env[x] for x, y in role.items()}
                want = 0
                for i in range(m): want = pad(want, d.get((i, "Alignment"), 1)) + d.get((i, "Size"), 0)
                bad = [p for p, v in r if p.out != "ret" or v != want]; k += 1
                if not r: raise CheckError("%s: no path for given values" % name(f))
                if bad: c.bad("R7", name(f), fwhere(f), "the size of blocks %s is computed as %s instead of %d" % (sorted(d.items()), [v for p, v in r], want), r[0][0]); break
            else: c.ok("R7", "size of %d blocks in sequence" % m)
    if not k: raise CheckError("anchor vanished: size of a sequence of blocks")
    k = 0; ks = set()
    for f in c.fns(AL + "::allocate"):
        nb = inp(f["p"][0]["n"])
        for p in c.run(f, opaque=lambda sq, g=None: OPA(sq) or sq == PX + "::allocate"):
            if p.out != "ret": continue
            sm = [e for i, e in evs(p, "safemath") if e.op == "*" and nb in e.a]
            al_ = [e for i, e in calls(p, "MemoryResourceProxy::allocate")] + [e for i, e in evs(p, "call", "new") if getattr(e, "f", "").endswith("malloc")]
            if not al_: continue
            k += 1
            sz, an = SIZES.get(re.search(r"Allocator<(.*?)>", f["q"]).group(1), (None, None))
            if sz is not None and len(sm):
                ks.add(sz)
                c.check("R5", C(sz) in sm[-1].a, name(f), fwhere(f), "multiplies %s for elements of %d bytes" % ([show(x) for x in sm[-1].a], sz), p, inst="size of an element")
                if len(al_[0].a) > 1: c.check("R5", al_[0].a[1] == C(an), name(f), fwhere(f), "aligns elements to %s instead of %d" % (show(al_[0].a[1]), an), p, inst="alignment of an element")
                elif al_[0].f.endswith("MemoryResourceProxy::allocate"): c.bad("R5", name(f), fwhere(f), "does not ask for the alignment of the elements", p)
            ok = len(al_) == 1 and len(sm) >= 1 and al_[0].a[0] == sm[-1].v and p.I.truth(p.st, sm[-1].fits) is True
            c.check("R5", ok, name(f), fwhere(f), "allocates %s for %s elements" % (show(al_[0].a[0]), show(nb)), p, inst="number of elements times their size, checked")
    if not k or len(ks) < 3: raise CheckError("anchor vanished: polymorphic allocator")
    k = set()
    for f in c.fns(SHM + "ManagedMemoryResource::construct"):
        ty = re.sub(r"\s*[*]$", "", f["rt"]); sz, an = SIZES.get(ty, (None, None))
        if sz is None: continue
        for p in c.run(f, opaque=OPA):
            if p.out != "ret": continue
            al_ = [e for i, e in calls(p, "allocate")]
            k.add(ty)
            ok = len(al_) == 1 and al_[0].a[:2] == [C(sz), C(an)] and al_[0].o == THIS and p.I.scal(p.st, p.ret) == al_[0].res
            c.check("R5", ok, name(f), fwhere(f), "for an object of %d bytes aligned to %d takes %s" % (sz, an, [[show(x) for x in e.a] for e in al_]), p, inst="block for a constructed object")
    if len(k) < 3: raise CheckError("anchor vanished: construction of objects in a memory resource")


STR = "std::basic_string<char, std::char_traits<char>, std::allocator<char>>"


def result(I, s, ok, val=None):
    p = I.tmp(s); I.setobj(s, p, ("exp", s.n)); s.n += 1; s.m[("F", p, "#has")] = TRUE if ok else FALSE
    if ok and val is not None: s.m[("F", p, "#val")] = val
    return ("obj", p)


def os_hooks(max_lock_failures=1, stat=False):
    def fopen(I, st, e, op, vs):
        out = []
        fails = sum(1 for x in st.tr if x.k == "fopen" and not x.ok)
        for ok in (1, 0) if fails < max_lock_failures else (1,):
            s = st.copy(); s.n += 1; fd = ("v", "fd", s.n)
            if ok: I.assume(s, ("op", "==", fd, C(-1)), False)
            I.emit(s, "fopen", a=[I.argval(s, v) for v in vs], ok=ok, fd=fd); out.append((s, result(I, s, ok, fd)))
        return out

    def allow(I, st, e, op, vs):
        I.emit(st, "allow", a=[I.argval(st, v) for v in vs], o=op); return [(st, result(I, st, True))]
    return {"score::os::Fcntl::open": fopen, "score::os::Stat::stat": lambda I, st, e, op, vs: [(st, result(I, st, stat))],
            "score::os::Stat::chmod": lambda I, st, e, op, vs: [(st, result(I, st, True))], "score::os::Unistd::close": mute("close"), "score::os::Unistd::unlink": mute("unlink"),
            "score::os::IAccessControlList::AllowUser": allow, "score::os::AccessControlList::AllowUser": allow}


def mute(k):
    def h(I, st, e, op, vs):
        I.emit(st, k, a=[I.argval(st, v) for v in vs]); return [(st, result(I, st, True))]
    return h


def has(p, e):
    """whether the operation of event e succeeded: True, False or None"""
    return p.I.truth(p.st, p.I.read(p.st, ("F", mkP(e.res), "#has"))) if e.res is not None and e.res[0] in ("obj", "ref") else \
        p.I.truth(p.st, ("fld", e.res, "#has")) if e.res is not None else None


def locked(p, path):
    """intervals of the trace during which the lock file at path is held: created exclusively, until unlinked"""
    r = []
    for i, e in enumerate(p.tr):
        if e.k == "fopen" and e.ok and e.a[0] == path and e.excl: r.append([i, len(p.tr), e.fd])
        if e.k == "unlink" and e.a[0] == path and r: r[-1][1] = i
    return r


@prop("P15", ["score/memory/shared/shared_memory_resource.cpp", "score/memory/shared/shared_memory_factory_impl.cpp", "score/memory/shared/lock_file.cpp", "score/memory/shared/pointer_arithmetic_util.cpp", "score/memory/shared/memory_resource_proxy.cpp"])
def p15(c):
    c.rule("R1", "a shared memory object is created only if it did not exist, under its own name, while its lock file is held")
    c.rule("R2", "the lock file is held from before the object is opened until it is initialised, or loaded")
    c.rule("R3", "an object gets its full size before it is mapped, and its management data before its user initialises it, which happens exactly once")
    c.rule("R4", "access is granted exactly to the users and for the operations given")
    c.rule("R5", "opening maps the whole object with the access asked for, and changes nothing")
    rd = {k: enum(c, "os::Stat::Mode", "kRead" + k) for k in ("User", "Group", "Others")}
    wr = {k: enum(c, "os::Stat::Mode", "kWrite" + k) for k in ("User", "Group", "Others")}
    O = lambda n: enum(c, "os::Fcntl::Open", n)
    PR, PW = enum(c, "Mman::Protection", "kRead"), enum(c, "Mman::Protection", "kWrite")
    MODE = {"WorldWritable": sum(rd.values()) + sum(wr.values()), "WorldReadable": sum(rd.values()) + wr["User"], "map": rd["User"] + wr["User"]}
    excl = O("kCreate") | O("kExclusive")
    BASE = None
    for p in c.run(c.fns(RES + "::getBaseAddress")[0], opaque=OPA):
        v = p.I.scal(p.st, p.ret)
        if v[0] == "fld": BASE = v[2]
    OWN = next((p.I.scal(p.st, p.ret)[2] for p in c.run(c.fns(RES + "::getOwnerUid")[0], opaque=OPA) if p.out == "ret"), None)
    CB = c.field(RES, r"ControlBlock \*$")
    CNT = c.field(RES + "::ControlBlock", r"atomic<")
    paths = {}

    def prep(p):
        for e in p.tr:
            if e.k == "fopen": e.d["excl"] = isc(e.a[1]) and e.a[1][1] & excl == excl

    def scenario(f, perm=None, typed=False):
        def setup(I, st):
            for q in f["p"]:
                P = ("A", q["n"])
                if "TypedMemory" in q["t"]:
                    if not typed: st.m[("F", P, "#ptr")] = NULL
                    else: I.assume(st, ("op", "==", I.read(st, ("F", P, "#ptr")), NULL), False)
                elif "variant" in q["t"] and perm:
                    a = [x for x in alts(base_type(q["t"])) if perm in x][0]
                    st.m[("F", P, "#alt")] = ("str", a)
                    if perm == "map":
                        m = ("F", P, "#T:" + a); st.m[("F", m, "#size")] = C(2)
                        for i, k in enumerate((2, 1)): st.m[("F", ("F", ("E", m, C(i)), "second"), "#size")] = C(k)
                elif q["t"].replace("const ", "") == "unsigned long":
                    x = inp(q["n"]); I.unsigned.add(x); I.wid[x] = 64; I.assume(st, ("op", "<", x, C(1 << 60)), True)
        return setup
    opq = lambda sq, g=None: OPA(sq) or sq.endswith("MemoryResourceRegistry::getInstance") or sq.endswith("AcquireTypedMemoryDaemonUid")
    for m in ("Create", "CreateAnonymous", "Open"):
        for f in c.fns(RES + "::" + m):
            named = m != "CreateAnonymous"
            ip = next((inp(q["n"]) for q in f["p"] if base_type(q["t"]) == STR), None)
            cb = next((q["n"] for q in f["p"] if "callback" in q["t"] and "shared_ptr" in q["t"]), None)
            rw = next((inp(q["n"]) for q in f["p"] if q["t"].endswith("bool")), None)
            us = next((inp(q["n"]) for q in f["p"] if q["n"] != "shared_memory_resource_id" and q["t"].replace("const ", "") == "unsigned long" and (named or q is not f["p"][0])), None)
            done = 0
            for perm in ("WorldWritable", "WorldReadable", "map") if m != "Open" else (None,):
                for typed in (False, True):
                    for p in c.run(f, setup=scenario(f, perm, typed), opaque=opq, hooks=os_hooks(), maxpaths=60000):
                        prep(p)
                        if p.out != "ret": continue
                        I, st = p.I, p.st
                        ok = hasval(p)
                        so = [(i, e) for i, e in calls(p, "shm_open")]
                        an = calls(p, "OpenAnonymous") + [(i, e) for i, e in calls(p, "AllocateAndOpenAnonymousTypedMemory") if has(p, e) is True]
                        mm = calls(p, "mmap"); inv = [(i, e) for i, e in evs(p, "invoke") if str(inp(cb)) in str(e.d)] if cb else []
                        tr = calls(p, "ftruncate"); seal = calls(p, "Seal")
                        locks = [(e.a[0], e.excl) for i, e in evs(p, "fopen")]
                        tag = m + (" " + perm if perm else "") + (" in typed memory" if typed else "")
                        # the lock file
                        if named:
                            for a, x in locks:
                                c.check("R1", x, name(f), fwhere(f), "the lock file is not created exclusively", p, inst=m + " lock file exclusive")
                                paths.setdefault(str(a).replace(str(ip), "<path>"), (f, a))
                                c.check("R1", any(y == ip for y in sub(a)), name(f), fwhere(f), "the lock file %s is not the one of the object" % show(a), p, inst=m + " lock file of the object")
                            L = locked(p, locks[-1][0]) if locks else []
                            held = lambda i: any(a < i < b for a, b, _ in L)
                            fds = [e.fd for i, e in evs(p, "fopen") if e.ok]
                            cl = [e.a[0] for i, e in evs(p, "close") if e.a[0] in fds]
                            c.check("R2", sorted(map(str, cl)) == sorted(map(str, fds)) and all(b < len(p.tr) for a, b, _ in L), name(f), fwhere(f), "returns with the lock file held or open", p, inst=m + " lock released")
                        else:
                            held = lambda i: True
                        for i, e in so:
                            fl = e.a[1]
                            c.check("R1", named and e.a[0] == ip, name(f), e.where(), "opens the object %s" % show(e.a[0]), p, inst=m + " own name")
                            c.check("R2", held(i), name(f), e.where(), "the object is opened without its lock file being held", p, inst=m + " lock held when opened")
                            if m != "Open":
                                al = [x for x in calls(p, "AllocateNamedTypedMemory") if has(p, x[1]) is True]
                                want = O("kReadWrite") | O("kExclusive") | (0 if al else O("kCreate"))
                                c.check("R1", fl == C(want), name(f), e.where(), "creates the object with flags %s" % show(fl), p, inst=tag + " flags")
                                c.check("R4", e.a[2] == C(MODE[perm]), name(f), e.where(), "creates the object with access mode %s instead of %s" % (show(e.a[2]), oct(MODE[perm])), p, inst=tag + " mode")
                            else:
                                b = I.truth(st, rw)
                                want = O("kReadWrite") if b else O("kReadOnly")
                                c.check("R5", b is not None and fl == C(want), name(f), e.where(), "opens the object with flags %s although read-write is %s" % (show(fl), b), p, inst="open flags")
                        if named and not any(e.ok for i, e in evs(p, "fopen")):
                            c.check("R1", ok is False and not so and not mm and not inv, name(f), fwhere(f), "goes on although the lock file is held by another process", p, inst=m + " refused while locked"); continue
                        if named and so and has(p, so[-1][1]) is False:
                            c.check("R1", ok is False and not mm and not inv and not tr and not calls(p, "shm_unlink"), name(f), fwhere(f), "goes on although the object could not be opened", p, inst=m + " refused"); continue
                        c.check("R1", ok is True, name(f), fwhere(f), "fails although the object was opened", p, inst=m + " succeeds")
                        if ok is not True: continue
                        c.check("R1", len(so) == (1 if named else 0) and (named or len(an) == 1), name(f), fwhere(f), "opens %d objects" % len(so + an), p, inst=m + " one object")
                        if len(so + an) != 1: continue
                        done += 1
                        oe = (so + an)[0][1]
                        fd = ("fld", oe.res, "#val") if oe.res[0] in ("r", "pure") else None
                        fd = I.read(st, ("F", mkP(oe.res), "#val")) if fd is None else fd
                        isfd = lambda x: x == fd or str(x).find(str(oe.res)) >= 0
                        sz = l = None
                        res = val(p)
                        obj = mkP(I.read(st, ("F", ("F", p.ret[1], "#val"), "#ptr")))
                        c.check("R3", len(mm) == 1, name(f), fwhere(f), "maps the object %d times" % len(mm), p, inst=m + " mapped once")
                        if len(mm) != 1: continue
                        i, e = mm[0]
                        l = Lin(I, st, wid={us: 64} if us else None)
                        if m == "Open":
                            b = I.truth(st, rw); prot = PR | PW if b else PR
                            fs = [x for _, x in calls(p, "fstat") if isfd(x.a[0])]
                            c.check("R5", len(fs) >= 1 and e.a[1][0] == "fld" and e.a[1][2] == "st_size", name(f), e.where(), "maps %s bytes" % show(e.a[1]), p, inst="whole object mapped")
                            w = [x for x in p.tr if x.k in ("wr", "init", "astore", "rmw", "cas", "pnew") and under_mem(x.p, obj, BASE, CB, p)]
                            c.check("R5", not w and not tr and not seal and not [x for x in evs(p, "allow", "invoke")] and not calls(p, "fchmod"), name(f), fwhere(f), "opening changes the object", p, inst="open changes nothing")
                        else:
                            prot = PR | PW
                            sz = l.lin(e.a[1]); mg = l.add(sz, l.lin(us), -1)
                            c.check("R3", set(mg) <= {1} and mg.get(1, 0) >= 16, name(f), e.where(), "maps %s bytes for %s bytes of user data" % (l.show(sz), show(us)), p, inst=m + " room for user data and management data")
                        c.check("R3" if m != "Open" else "R5", e.a[2] == C(prot) and e.a[3] == C(enum(c, "Mman::Map", "kShared")) and isfd(e.a[4]) and e.a[5] == C(0), name(f), e.where(), "maps the object as %s" % [show(x) for x in e.a], p, inst=m + " mapping")
                        c.check("R2", held(i), name(f), e.where(), "the object is mapped after its lock file was released", p, inst=m + " lock held when mapped")
                        if m != "Open":
                            mem = [x for x in calls(p, "AllocateNamedTypedMemory") + calls(p, "AllocateAndOpenAnonymousTypedMemory") if has(p, x[1]) is True]
                            grow = [(k, x, x.a[1]) for k, x in tr] + [(k, x, x.a[1]) for k, x in seal if has(p, x) is not False]
                            if not mem:
                                c.check("R3", any(k < i and isfd(x.a[0]) and l.lin(v) == sz for k, x, v in grow), name(f), e.where(), "the object is mapped without having got the size %s" % l.show(sz), p, inst=m + " size set before mapping")
                            else:
                                c.check("R3", any(k < i and x.a[0] == e.a[1] for k, x in mem), name(f), e.where(), "typed memory is allocated in another size than mapped", p, inst=m + " size allocated")
                            st_ = [(k, x) for k, x in evs(p, "astore") if x.p[0] == "F" and x.p[2] == CNT]
                            c.check("R3", len(inv) == 1 and inv[0][0] > i, name(f), fwhere(f), "initialises the object %d times" % len(inv), p, inst=m + " initialised once, after mapping")
                            if len(inv) == 1:
                                c.check("R3", any(i < k < inv[0][0] for k, x in st_), name(f), inv[0][1].where(), "the user initialises the object before the management data", p, inst=m + " management data before user data")
                                c.check("R2", held(inv[0][0]), name(f), inv[0][1].where(), "the object is initialised after its lock file was released", p, inst=m + " lock held when initialised")
                                ar = [I.read(st, ("F", mkP(a), "#ptr")) if a[0] != "ptr" else None for a in inv[0][1].a]
                            # access
                            if not mem:
                                fc = calls(p, "fchmod")
                                if perm == "WorldWritable":
                                    c.check("R4", any(isfd(x.a[0]) and x.a[1] == C(MODE[perm]) and (not inv or k < inv[0][0]) for k, x in fc), name(f), fwhere(f), "the access mode is left to the umask", p, inst=m + " world writable despite umask")
                                for k, x in fc: c.check("R4", x.a[1] == C(MODE[perm]), name(f), x.where(), "changes the access mode to %s" % show(x.a[1]), p, inst=m + " mode kept")
                                al = [x for _, x in evs(p, "allow")]
                                got = []
                                for x in al: got.append(tuple(x.a[:2]))
                                want = []
                                if perm == "map":
                                    q = next(q for q in f["p"] if "variant" in q["t"]); a = [y for y in alts(base_type(q["t"])) if "map" in y][0]
                                    M_ = ("F", ("A", q["n"]), "#T:" + a)
                                    for i1, k in enumerate((2, 1)):
                                        en = ("E", M_, C(i1))
                                        for j in range(k): want.append((I.read(st, ("E", ("F", en, "second"), C(j))), I.read(st, ("F", en, "first"))))
                                c.check("R4", sorted(map(str, got)) == sorted(map(str, want)), name(f), fwhere(f), "allows %s instead of %s" % ([tuple(show(y) for y in x) for x in got], [tuple(show(y) for y in x) for x in want]), p, inst=tag + " access list")
                                for x in al:
                                    k = p.tr.index(x)
                                    c.check("R4", not inv or k < inv[0][0], name(f), x.where(), "access is granted after the object was initialised", p, inst=m + " access before use")
                        # owner
                        if OWN:
                            ow = I.read(st, ("F", obj, OWN))
                            fs = [x for _, x in calls(p, "fstat") if isfd(x.a[0])]
                            gc = [x for _, x in calls(p, "GetCreatorUid") if has(p, x) is True]
                            if fs: c.check("R5", (ow[0] == "fld" and ow[2] == "st_uid") if not gc else str(gc[-1].res) in str(ow), name(f), fwhere(f), "takes %s for the owner" % show(ow), p, inst=m + " owner")
                            else: c.bad("R5", name(f), fwhere(f), "the owner of the object is not determined", p)
            if not done: raise CheckError("anchor vanished: %s never succeeds" % name(f))
    done = set()
    for f in c.fns(RES + "::CreateOrOpen"):
        cb = next(q["n"] for q in f["p"] if "callback" in q["t"] and "shared_ptr" in q["t"]); ip = next(inp(q["n"]) for q in f["p"] if base_type(q["t"]) == STR)
        for p in c.run(f, setup=scenario(f, "WorldReadable", False), opaque=opq, hooks=os_hooks(), maxpaths=60000):
            prep(p)
            if p.out != "ret": continue
            locks = [e.a[0] for i, e in evs(p, "fopen")]
            for a in locks: paths.setdefault(str(a).replace(str(ip), "<path>"), (f, a))
            L = locked(p, locks[-1]) if locks else []
            held = lambda i: any(a < i < b for a, b, _ in L)
            so = calls(p, "shm_open"); mm = calls(p, "mmap"); inv = [(i, e) for i, e in evs(p, "invoke") if str(inp(cb)) in str(e.d)]
            create = [isc(e.a[1]) and e.a[1][1] & O("kCreate") != 0 for i, e in so]
            good = [has(p, e) if has(p, e) is not None else bool(p.I.truth(p.st, ("fld", e.res, "#has"))) for i, e in so]
            ok = hasval(p)
            c.check("R2", all(held(i) for i, e in so + mm + inv), name(f), fwhere(f), "works on the object without holding its lock file", p, inst="CreateOrOpen: lock held")
            c.check("R1", all(e.a[0] == ip for i, e in so) and (not so or not create[0]), name(f), fwhere(f), "does not try to open the object first", p, inst="CreateOrOpen: opens first")
            c.check("R3", len(mm) == (1 if ok else 0) and sum(1 for g in good if g) == (1 if ok else 0), name(f), fwhere(f), "maps %d objects, opened are %d" % (len(mm), sum(1 for g in good if g)), p, inst="CreateOrOpen: one object")
            made = any(g and k for g, k in zip(good, create))
            done.add(made)
            c.check("R3", len(inv) == (1 if made else 0), name(f), fwhere(f), "initialises %d times an object that was %s" % (len(inv), "created" if made else "opened"), p, inst="CreateOrOpen: initialised iff created")
            tr = calls(p, "ftruncate")
            c.check("R3", len(tr) == (1 if made else 0), name(f), fwhere(f), "sets the size of an object that was %s %d times" % ("created" if made else "opened", len(tr)), p, inst="CreateOrOpen: size set iff created")
    if done != {True, False}: raise CheckError("anchor vanished: CreateOrOpen")
    if len(paths) > 1:
        f, a = list(paths.values())[-1]
        c.bad("R1", name(f), fwhere(f), "creating and opening use different lock files: %s" % sorted(paths))
    else: c.ok("R1", "same lock file for creating and opening")

    # destruction
    c.rule("R6", "an object that is no longer used is unregistered, unmapped and closed exactly once; removing it removes the name of that object only")
    BASEV = inp("this", BASE)
    ID = VARF = None
    fdm = [x["n"] for x in c.db.cls(RES)[0]["fields"] if x["t"] == "int"]
    if len(fdm) != 1: raise CheckError("anchor vanished: file descriptor of a shared memory resource")
    FD = fdm[0]
    VARF = c.field(RES, r"std::variant<")
    TMP = c.field(RES, r"shared_ptr<.*TypedMemory")
    n = 0
    for f in c.fns(RES + "::~SharedMemoryResource"):
        for p in c.run(f, opaque=opq, hooks=os_hooks()):
            if p.out != "ret": continue
            I, st = p.I, p.st; n += 1
            mapped = I.truth(st, ("op", "==", BASEV, NULL)); opened = I.truth(st, ("op", "==", inp("this", FD), C(-1)))
            if mapped and opened is False: continue      # no object stays opened without being mapped
            rem = calls(p, "remove_resource"); mu = calls(p, "munmap"); cl = evs(p, "close")
            c.check("R6", mapped is not None and len(rem) == (0 if mapped else 1), name(f), fwhere(f), "unregisters %d resources although the memory is %smapped" % (len(rem), "not " if mapped else ""), p, inst="unregistered iff registered")
            for i, e in rem: c.check("R6", I.scal(st, e.a[0]) == inp("this", MID(c)), name(f), e.where(), "unregisters the resource %s" % show(e.a[0]), p, inst="own registration")
            c.check("R6", opened is not None and len(cl) == (0 if opened else 1) and len(mu) == (0 if opened else 1) or opened is None and len(cl) == 1, name(f), fwhere(f), "closes %d files and removes %d mappings" % (len(cl), len(mu)), p, inst="closed and unmapped once")
            for i, e in cl: c.check("R6", e.a[0] == inp("this", FD), name(f), e.where(), "closes %s" % show(e.a[0]), p, inst="own file")
            for i, e in mu:
                c.check("R6", e.a[0] == BASEV and e.a[1] == inp("this", SIZE(c, BASE)), name(f), e.where(), "unmaps %s bytes at %s" % (show(e.a[1]), show(e.a[0])), p, inst="own mapping")
                c.check("R6", all(k < i for k, _ in rem), name(f), e.where(), "the memory is unmapped while it is still registered", p, inst="unregistered before unmapping")
    if not n: raise CheckError("anchor vanished: destruction of a shared memory resource")
    n = 0
    for f in c.fns(RES + "::UnlinkFilesystemEntry"):
        for named in (True, False):
            def setup(I, st):
                a = alts(next(x["t"] for x in c.db.cls(RES)[0]["fields"] if x["n"] == VARF))
                st.m[("F", ("F", THIS, VARF), "#alt")] = ("str", a[0 if named else 1])
            for p in c.run(f, opaque=opq, hooks=os_hooks(), setup=setup):
                if p.out != "ret": continue
                u = calls(p, "shm_unlink") + calls(p, "Unlink"); n += 1
                c.check("R6", len(u) == (1 if named else 0) and all(VARF in show(e.a[0]) for i, e in u) and not evs(p, "unlink"), name(f), fwhere(f), "removes %s" % [show(e.a[0]) for i, e in u], p, inst="removes its own name" if named else "an object without name removes none")
    if not n: raise CheckError("anchor vanished: removal of the name of a shared memory resource")
    # lock files
    c.rule("R7", "a lock file is closed once, and removed once if it is owned, by the object which holds it last; after a failure nothing is left")
    LF = SHM + "LockFile"
    lf = {x["n"]: x["t"] for x in c.db.cls(LF)[0]["fields"]}
    lfd = next((k for k, t in lf.items() if t in ("int", "const int")), None); lown = next((k for k, t in lf.items() if t.endswith("bool")), None); lpath = next((k for k, t in lf.items() if base_type(t) == STR), None)
    if None in (lfd, lown, lpath): raise CheckError("anchor vanished: members of a lock file")
    state = lambda p, o: tuple(p.I.read(p.st, ("F", o, x)) for x in (lfd, lown, lpath))
    n = 0

    def gone(p, f, o, tag):
        """what the object o held before is closed, and removed if owned"""
        v, w, q = inp(o, lfd), inp(o, lown), inp(o, lpath)
        has_ = p.I.truth(p.st, ("op", "==", v, C(-1))); own = p.I.truth(p.st, w)
        cl, un = [e.a[0] for i, e in evs(p, "close")], [e.a[0] for i, e in evs(p, "unlink")]
        c.check("R7", has_ is not None and cl == ([] if has_ else [v]), name(f), fwhere(f), "closes %s" % [show(x) for x in cl], p, inst=tag + ": closed once")
        c.check("R7", has_ is True and not un or has_ is False and own is not None and len(un) == (1 if own else 0) and all(lpath in show(x) for x in un), name(f), fwhere(f), "removes %s" % [show(x) for x in un], p, inst=tag + ": removed if owned")
    for f in [x for x in c.fns(LF + "::~LockFile")]:
        for p in c.run(f, opaque=opq, hooks=os_hooks()):
            if p.out == "ret": n += 1; gone(p, f, "this", "destruction")
    for f in c.fns(LF + "::LockFile"):
        if len(f["p"]) == 1 and f["p"][0]["t"].endswith("&&"):
            o = f["p"][0]["n"]
            for p in c.run(f, opaque=opq, hooks=os_hooks()):
                if p.out != "ret": continue
                n += 1
                c.check("R7", state(p, THIS)[:2] == (inp(o, lfd), inp(o, lown)) and p.I.read(p.st, ("F", ("A", o), lfd)) == C(-1), name(f), fwhere(f), "moved into: %s, moved from: %s" % ([show(x) for x in state(p, THIS)], [show(x) for x in state(p, ("A", o))]), p, inst="move: handed over")
                c.check("R7", not evs(p, "close", "unlink") and inp(o, lpath) in list(sub(state(p, THIS)[2])) or state(p, THIS)[2] == inp(o, lpath), name(f), fwhere(f), "the path becomes %s" % show(state(p, THIS)[2]), p, inst="move: path")
    for f in c.fns(LF + "::operator="):
        if not f["p"][0]["t"].endswith("&&"): continue
        o = f["p"][0]["n"]
        for p in c.run(f, opaque=opq, hooks=os_hooks()):
            if p.out != "ret" or p.I.truth(p.st, ("op", "==", mkaddr(THIS), mkaddr(("A", o)))) is True: continue
            n += 1
            gone(p, f, "this", "move assignment")
            c.check("R7", state(p, THIS)[:2] == (inp(o, lfd), inp(o, lown)) and p.I.read(p.st, ("F", ("A", o), lfd)) == C(-1), name(f), fwhere(f), "moved into: %s, moved from: %s" % ([show(x) for x in state(p, THIS)], [show(x) for x in state(p, ("A", o))]), p, inst="move assignment: handed over")
    for m, ex, cr in (("Create", 1, 1), ("CreateOrOpen", 0, 1), ("Open", 0, 0)):
        for f in c.fns(LF + "::" + m):
            ip = inp(f["p"][0]["n"]); to = inp(f["p"][1]["n"]) if len(f["p"]) > 1 else None
            h = dict(os_hooks(1)); del h["score::os::Stat::chmod"]
            for p in c.run(f, opaque=opq, hooks=h):
                if p.out != "ret": continue
                n += 1
                fo = [e for i, e in evs(p, "fopen")]; fl = fo[0].a[1] if fo else None
                want = O("kReadOnly") | (O("kCreate") if cr else 0) | (O("kExclusive") if ex else 0)
                c.check("R7", len(fo) == 1 and fo[0].a[0] == ip and fl == C(want), name(f), fwhere(f), "opens %s" % [[show(x) for x in e.a] for e in fo], p, inst=m + ": flags")
                if len(fo) != 1: continue
                h_ = hasval(p); cm = [e for i, e in calls(p, "chmod")]
                good = bool(fo[0].ok) and all(has(p, e) is not False for e in cm)
                c.check("R7", h_ is good, name(f), fwhere(f), "returns %s although the file was %sopened" % ("a lock file" if h_ else "nothing", "" if good else "not "), p, inst=m + ": result")
                cl, un = [e.a[0] for i, e in evs(p, "close")], [e.a[0] for i, e in evs(p, "unlink")]
                if h_:
                    o = ("F", p.ret[1], "#val")
                    c.check("R7", state(p, o) == (fo[0].fd, C(1) if ex else to if to is not None else C(0), ip) and not cl and not un, name(f), fwhere(f), "returns %s, closes %s" % ([show(x) for x in state(p, o)], [show(x) for x in cl]), p, inst=m + ": holds the opened file")
                elif fo[0].ok: c.check("R7", cl == [fo[0].fd] and (un == [ip] if ex else True), name(f), fwhere(f), "after a failure closes %s and removes %s" % ([show(x) for x in cl], [show(x) for x in un]), p, inst=m + ": nothing left after failure")
    if n < 8: raise CheckError("anchor vanished: lock files")

    # the factory
    c.rule("R8", "the factory shares one object per path, hands out only objects owned by this user or a listed one, and removes and forgets exactly the path given")
    MAP = c.field(FAC, r"unordered_map<|std::map<")
    MTX = c.field(FAC, r"std::(shared_|recursive_)?mutex")
    fo = lambda sq, g=None: sq.startswith(RES + "::") and not sq.endswith("GetLockFilePath") or OPA(sq) or sq.endswith("AcquireTypedMemoryDaemonUid")

    def known(p):
        """the object which the factory found under the path, None if there is none"""
        r = set()
        for k, v in p.st.f.items():
            for t in sub(k):
                if t and t[0] == "lockedptr" and MAP in str(t) and p.I.truth(p.st, ("op", "==", t, NULL)) is False: r.add(t)
        return r.pop() if len(r) == 1 else None

    def inlock(p, es, f):
        a = [i for i, e in evs(p, "lock") if e.m == ("F", THIS, MTX)]; b = [i for i, e in evs(p, "unlock") if e.m == ("F", THIS, MTX)]
        for i, e in es: c.check("R8", any(x < i for x in a) and not any(x < i for x in b), name(f), e.where(), "%s outside of the lock" % e.f.rsplit("::", 1)[-1], p, inst="under the lock")
    for m in ("Open", "Create", "CreateOrOpen"):
        n = 0
        for f in c.fns(FAC + "::" + m):
            pth = next(q["n"] for q in f["p"] if base_type(q["t"]) == STR)
            ispath = lambda t: t == inp(pth) or t[0] == "addr" and t[1] == ("A", pth)
            for p in c.run(f, opaque=fo, maxpaths=60000):
                if p.out != "ret": continue
                n += 1; I, st = p.I, p.st
                ptr = I.read(st, ("F", p.ret[1], "#ptr")); null = I.truth(st, ("op", "==", ptr, NULL)) if ptr != NULL else True
                mk = [(i, e) for i, e in enumerate(p.tr) if e.k == "call" and e.f in (RES + "::Open", RES + "::Create", RES + "::CreateOrOpen")]
                kn = known(p)
                mapc = [(i, e) for i, e in enumerate(p.tr) if e.k == "call" and e.o is not None and MAP in str(e.o)]
                inlock(p, mk + mapc, f)
                c.check("R8", len(mk) <= 1 and all(e.f.endswith("::" + m) and ispath(e.a[0]) for i, e in mk), name(f), fwhere(f), "makes the objects %s" % [show(e.a[0]) for i, e in mk], p, inst=m + ": its own path")
                c.check("R8", not (mk and kn is not None), name(f), fwhere(f), "makes an object although one is known under the path", p, inst=m + ": known object reused")
                made = None
                if mk:
                    made = has(p, mk[0][1])
                    if made is None: made = any(("fld", mk[0][1].res, "#has") == k and v for k, v in st.f.items())
                    fl = [q for q in f["p"]]
                    for q in fl:
                        if q["t"].endswith("bool") and m == "Open": c.check("R8", mk[0][1].a[1] == inp(q["n"]), name(f), mk[0][1].where(), "opens with %s" % show(mk[0][1].a[1]), p, inst="access passed on")
                        if q["t"].replace("const ", "") == "unsigned long": c.check("R8", inp(q["n"]) in mk[0][1].a, name(f), mk[0][1].where(), "creates with %s" % [show(x) for x in mk[0][1].a], p, inst="size passed on")
                        if "variant" in q["t"] or "AccessControl" in q["t"]: c.check("R8", any(root_in(x, q["n"]) for x in mk[0][1].a + [mkaddr(y) for y in mk[0][1].ap if y]), name(f), mk[0][1].where(), "the permissions are not passed on", p, inst="permissions passed on")
                em = [(i, e) for i, e in mapc if e.f.rsplit("::", 1)[-1] in ("emplace", "insert", "try_emplace", "insert_or_assign", "operator[]")]
                if made:
                    newp = [t for t in sub(ptr) if t == mk[0][1].res] or null
                    c.check("R8", len(em) == 1 and ispath(em[0][1].a[0]) and em[0][0] > mk[0][0], name(f), fwhere(f), "a new object is not remembered under its path", p, inst=m + ": new object remembered")
                else: c.check("R8", not em, name(f), fwhere(f), "remembers an object which was not made", p, inst=m + ": nothing else remembered")
                obj = kn if kn is not None else mk[0][1].res if made else None
                if not null:
                    c.check("R8", obj is not None and obj in set(sub(ptr)) and not (m == "Create" and kn is not None), name(f), fwhere(f), "hands out %s" % show(ptr), p, inst=m + ": object handed out")
                if obj is None or m == "Create" and kn is not None:
                    c.check("R8", null is True, name(f), fwhere(f), "hands out %s although nothing could be made" % show(ptr), p, inst=m + ": nothing handed out")
                    if kn is None and not mk: c.check("R8", any(v and "_ptr" in str(k) and k[0] == "op" and k[1] == "==" and NULL in k[2:] for k, v in st.f.items()), name(f), fwhere(f), "refuses without reason", p, inst=m + ": refused only without memory provider")
                    continue
                # owner
                ow = [e.res for i, e in calls(p, "getOwnerUid")]
                me = [e.res for i, e in calls(p, "getuid")]
                al = next((k for k, v in st.f.items() if k[0] == "fld" and k[2] == "#has" and "rovider" in str(k)), None)
                asked = st.f.get(al) if al else None
                eqs = [(k, v) for k, v in st.f.items() if k[0] == "op" and k[1] == "==" and any(x in ow for x in k[2:])]
                other = lambda k: next(x for x in k[2:] if x not in ow) if k[2] != k[3] else k[2]
                good = any(v and (other(k) in me or any(root_in(x, q["n"]) for q in f["p"] for x in [other(k)])) for k, v in eqs)
                if m == "Create": continue
                c.check("R8", asked is not None, name(f), fwhere(f), "whether the owner is restricted is not asked", p, inst=m + ": restriction asked for")
                if asked and not null: c.check("R8", good, name(f), fwhere(f), "hands out an object of any owner", p, inst=m + ": owner checked")
                if null: c.check("R8", bool(asked) and not good and any(other(k) in me for k, v in eqs), name(f), fwhere(f), "refuses an object of an allowed owner", p, inst=m + ": refused only for the owner")
        if not n: raise CheckError("anchor vanished: %s of the factory" % m)
    n = 0
    for f in c.fns(FAC + "::CreateAnonymous"):
        for p in c.run(f, opaque=fo, maxpaths=60000):
            if p.out != "ret": continue
            ptr = p.I.read(p.st, ("F", p.ret[1], "#ptr")); n += 1
            mk = calls(p, "SharedMemoryResource::CreateAnonymous")
            ok = len(mk) == 1 and p.I.truth(p.st, ("fld", mk[0][1].res, "#has"))
            if ok: c.check("R8", mk[0][1].res in set(sub(ptr)) and [inp(q["n"]) for q in f["p"] if q["t"].endswith("long")] == mk[0][1].a[:2], name(f), fwhere(f), "hands out %s" % show(ptr), p, inst="anonymous object handed out")
            else: c.check("R8", ptr == NULL, name(f), fwhere(f), "hands out %s" % show(ptr), p, inst="no anonymous object")
    if not n: raise CheckError("anchor vanished: CreateAnonymous of the factory")
    n = 0
    for f in c.fns(FAC + "::Remove"):
        pth = f["p"][0]["n"]; ispath = lambda t: t == inp(pth)
        for p in c.run(f, opaque=fo):
            if p.out != "ret": continue
            n += 1; kn = known(p)
            mapc = [(i, e) for i, e in enumerate(p.tr) if e.k == "call" and e.o is not None and MAP in str(e.o)]
            un = calls(p, "UnlinkFilesystemEntry"); er = [(i, e) for i, e in mapc if e.f.endswith("::erase")]
            inlock(p, mapc + un, f)
            if kn is not None:
                c.check("R8", len(un) == 1 and mkaddr(un[0][1].o) == kn, name(f), fwhere(f), "removes %s" % [show(mkaddr(e.o)) for i, e in un], p, inst="Remove: the object of the path")
                c.check("R8", any(ispath(e.a[0]) or "it" == e.a[0][0] and inp(pth) in set(sub(e.a[0])) for i, e in er), name(f), fwhere(f), "a removed object stays known", p, inst="Remove: forgotten")
            else: c.check("R8", not un, name(f), fwhere(f), "removes an object that is not known", p, inst="Remove: unknown path")
    if not n: raise CheckError("anchor vanished: Remove of the factory")
    n = 0
    for f in c.fns(FAC + "::RemoveStaleArtefacts"):
        pth = f["p"][0]["n"]
        for p in c.run(f, opaque=fo, hooks={"score::os::Unistd::unlink": mute("unlink")}):
            if p.out != "ret": continue
            n += 1
            un = evs(p, "unlink"); sh = calls(p, "shm_unlink") + calls(p, "Unlink")
            c.check("R8", known(p) is None, name(f), fwhere(f), "removes an object in use", p, inst="stale: not in use")
            lp = set(paths) if paths else set()
            c.check("R8", len(un) == 1 and str(un[0][1].a[0]).replace(str(inp(pth)), "<path>") in lp, name(f), fwhere(f), "removes the lock files %s" % [show(e.a[0]) for i, e in un], p, inst="stale: its lock file")
            c.check("R8", len(sh) == 1 and sh[0][1].a[0] == inp(pth), name(f), fwhere(f), "removes the objects %s" % [show(e.a[0]) for i, e in sh], p, inst="stale: its object")
    if not n: raise CheckError("anchor vanished: removal of stale objects")


def sub(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple): yield from sub(x)


def under_mem(pl, obj, base, cb, p):
    """place lies in the mapped memory"""
    r = root(pl)
    return r[0] == "P" and "mmap" in str(r)


def MID(c):
    r = {p.I.scal(p.st, p.ret) for f in c.fns(RES + "::GetMemoryIdentifier") for p in c.run(f, opaque=OPA) if p.out == "ret"} if (RES + "::GetMemoryIdentifier") in c.db.byq else set()
    if len(r) == 1 and list(r)[0][0] == "fld": return list(r)[0][2]
    # the member handed to the proxy in the memory
    for f in c.fns(RES + "::initializeInternalsInSharedMemory"):
        for p in c.run(f, opaque=OPA):
            for e in p.tr:
                if e.k == "init" and e.d.get("v") and e.v[0] == "fld" and e.v[1] == inp("this"): return e.v[2]
    raise CheckError("anchor vanished: identifier of a shared memory resource")


def SIZE(c, BASE):
    U64 = [x["n"] for x in c.db.cls(RES)[0]["fields"] if x["t"] == "unsigned long"]
    for p in c.run(c.fns(RES + "::getEndAddress")[0], opaque=OPA):
        if p.out != "ret": continue
        l = Lin(p.I, p.st).lin(p.I.scal(p.st, p.ret))
        for n in U64:
            if any(a != 1 and inp("this", n) in (a[-1], a[1]) for a in l): return n
    raise CheckError("anchor vanished: size of a shared memory resource")


def root_in(t, n):
    return any(x == ("A", n) for x in sub(t))
