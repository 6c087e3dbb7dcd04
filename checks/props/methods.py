"""P24: method calls: arguments and results travel through the memory both sides agreed on, one call per queue position"""
import re
from core import *
from linear import evaluate
from absint import C, NULL, FALSE, TRUE, St, base_type, strip_targs, show, subterms, mkaddr, under
import offhooks
NS = "score::mw::com::impl::"
L = NS + "lola::"
PB = NS + "ProxyMethodBinding::"
THIS = ("A", "this")
OPA = lambda sq, g=None: sq.startswith("score::mw::log") or "LogStream" in sq
# sizes and alignments of the types in inst/util.cpp and inst/api.cpp
SIZE = {"unsigned char": (1, 1), "unsigned short": (2, 2), "unsigned int": (4, 4), "int": (4, 4), "long": (8, 8), "unsigned long": (8, 8),
        "vfinst::P3": (3, 1), "vfinst::P12": (12, 4), "vfinst::P32": (32, 16)}


def place(ta):
    """the layout of one value after the other: size, alignment and offsets"""
    off = 0; al = 1; offs = []
    for t in ta:
        s, a = SIZE[t]
        off = -(-off // a) * a
        offs.append(off); off += s; al = max(al, a)
    return -(-off // al) * al, al, offs


def known(f):
    return f.get("ta") and all(t in SIZE for t in f["ta"])


def align(I, st, e, op, vs):
    """std::align on concrete numbers"""
    al, n = I.scal(st, vs[0]), I.scal(st, vs[1])
    ps, sp = [v[1] if v[0] in ("ref", "obj") else None for v in vs[2:4]]
    if ps is None or sp is None: raise CheckError("std::align without variables for start and space")
    start, space = I.scal(st, ("ref", ps)), I.scal(st, ("ref", sp))
    if not all(x[0] == "c" for x in (al, n, start, space)): return None
    pad = -start[1] % al[1]
    if space[1] < n[1] + pad: return [(st, NULL)]
    st.m[ps] = C(start[1] + pad); st.m[sp] = C(space[1] - pad)
    return [(st, C(start[1] + pad))]


def span(st, p, data, size):
    st.m[("F", p, "#data")] = data if isinstance(data, tuple) else C(data)
    st.m[("F", p, "#size")] = size if isinstance(size, tuple) else C(size)


def spanof(f, base, size):
    pn = [x["n"] for x in f["p"] if "span<" in x["t"]][0]
    def setup(I, st):
        span(st, ("A", pn), base, size)
    return setup


@prop("P24", ["score/mw/com/impl/methods/*.cpp", "score/mw/com/impl/util/*.cpp", "score/mw/com/impl/bindings/lola/methods/*.cpp", "score/mw/com/impl/bindings/lola/proxy_method.cpp",
              "score/mw/com/impl/bindings/lola/skeleton_method.cpp", "score/mw/com/impl/bindings/lola/proxy.cpp", "score/memory/shared/pointer_arithmetic_util.cpp"], ["util", "api"])
def p24(c):
    c.rule("R1", "arguments are written, read and sized with one layout: each at the first aligned place after the previous one, all inside the announced size")
    c.rule("R2", "nothing is written when the buffer is too small or overlaps the argument itself")
    c.rule("R3", "a call queue takes memory for all its positions from the given resource, hands out exactly the bytes of one position and gives the memory back once")
    c.rule("R4", "a pointer to an argument or result marks its flag while it owns it; only the last owner clears it")
    c.rule("R5", "arguments are only allocated at a queue position where no argument or result is in use, and all of them there")
    c.rule("R6", "a call passes the queue position of its arguments, after they were stored, and returns the result of that position; a failed call leaves nothing marked")
    c.rule("R7", "the binding refuses calls and buffers while not subscribed, and otherwise uses its own storages, quality and identity")
    c.rule("R11", "before the first call every position holds a constructed value at the place of every argument and of the result")
    c.rule("R8", "the provider's handler gets the result buffer and the arguments of the called position, in the order of the signature")
    c.rule("R9", "handlers registered for a client are tied to that client's process: replaced when it restarts, dropped when it unsubscribes, kept under the lock")
    c.rule("R10", "shared memory of a client's methods is kept per application process and given up with it")
    layout(c); queue(c); pointers(c); allocation(c); calling(c); initialised(c); binding(c); provider(c)


# ------------------------------------------------------------------------------------------------ layout
def layout(c):
    n = 0
    for f in c.fns(NS + "CreateDataTypeSizeInfoFromTypes"):
        if not known(f): continue
        S, A, _ = place(f["ta"])
        for p in c.run(f):
            v = p.I.read(p.st, p.ret[1]) if p.ret and p.ret[0] in ("obj", "ref") else None
            if p.out != "ret" or v is None or v[0] != "obj": raise CheckError("cannot follow CreateDataTypeSizeInfoFromTypes<%s>" % ", ".join(f["ta"]))
            c.check("R1", tuple(v[2]) == (C(S), C(A)), name(f), fwhere(f), "size and alignment of (%s) are %s, expected %d and %d" % (", ".join(f["ta"]), show(v), S, A), inst="size of (%s)" % ", ".join(f["ta"]))
        n += 1
    if n < 6: raise CheckError("anchor vanished: CreateDataTypeSizeInfoFromTypes instantiated for %d known lists of types" % n)
    for sq, one in ((NS + "DeserializeArgs", False), (NS + "DeserializeArg", True)):
        n = 0
        for f in c.fns(sq):
            if not known(f): continue
            S, A, offs = place(f["ta"]); n += 1
            for base in (64, 64 + A, 64 + 3 * A):
                for p in c.run(f, setup=spanof(f, base, S)):
                    if p.out != "ret":
                        c.bad("R1", name(f), fwhere(f), "reading (%s) from a buffer of the announced size fails" % ", ".join(f["ta"]), p); continue
                    got = [p.I.scal(p.st, p.ret)] if one else [p.I.read(p.st, ("F", p.ret[1], "#%d" % i)) for i in range(len(offs))]
                    for i, (g, o) in enumerate(zip(got, offs)):
                        c.check("R1", g == C(base + o), name(f), fwhere(f), "value %d of (%s) is read at %s of a buffer at %d, expected offset %d" % (i, ", ".join(f["ta"]), show(g), base, o), p,
                                inst="read (%s) at %d" % (", ".join(f["ta"]), base))
        if not n: raise CheckError("anchor vanished: no known instantiation of " + sq)
    n = 0
    for f in c.fns(NS + "SerializeArgs"):
        ar = f["p"][1:]
        ta = [base_type(x["t"].replace("&", "")).strip() for x in ar]
        if not all(t in SIZE for t in ta): continue
        S, A, offs = place(ta); n += 1
        given = {1 + k: ("ref", ("A", "arg%d" % k)) for k in range(len(ar))}
        end = offs[-1] + SIZE[ta[-1]][0]
        for base in (64, 64 + A):
            for size in (S, end, end - 1):
                for at in (1 << 20, 1 << 21):
                    def setup(I, st, base=base, size=size):
                        span(st, ("A", f["p"][0]["n"]), base, size)
                    ps = c.run(f, args=given, setup=setup, hooks={"std::align": align})
                    adr = {}
                    for k in range(len(ar)): adr[("addr", ("A", "arg%d" % k))] = at + 64 * k
                    good = [p for p in ps if consistent(p, adr)]
                    if not good: raise CheckError("no path of SerializeArgs agrees with addresses of its arguments")
                    for p in good:
                        w = [(e.d["a"], e) for e in p.tr if e.k == "mem"]
                        for i, (a, e) in enumerate(w):
                            c.check("R1", i < len(offs) and a[0] == C(base + offs[i]) and a[2] == C(SIZE[ta[i]][0]) and len(a) == 3 and isarg(a[1], ar, i), name(f), e.where(), "value %d of (%s) is written to %s, expected offset %d of the buffer at %d" % (i, ", ".join(ta), show(a[0]), offs[min(i, len(offs) - 1)], base), p,
                                    inst="write (%s) at %d" % (", ".join(ta), base))
                            c.check("R2", a[0][0] == "c" and a[2][0] == "c" and a[0][1] + a[2][1] <= base + size, name(f), e.where(), "a value is written beyond the end of the buffer", p, inst="write inside %d bytes" % size)
                        if size >= end:
                            c.check("R1", p.out == "ret" and len(w) == len(offs), name(f), fwhere(f), "writing (%s) into a buffer of %d bytes %s" % (", ".join(ta), size, "does not return" if p.out != "ret" else "writes %d values" % len(w)), p, inst="complete write (%s)" % ", ".join(ta))
                        else:
                            c.check("R2", p.out != "ret", name(f), fwhere(f), "writing (%s) into a buffer of %d bytes succeeds" % (", ".join(ta), size), p, inst="too small (%s)" % ", ".join(ta))
        # an argument which lies in the buffer
        k = len(ar) - 1
        ps = c.run(f, args=given, setup=lambda I, st: span(st, ("A", f["p"][0]["n"]), 256, S + 64), hooks={"std::align": align})
        for pos, over in ((256, True), (256 + S, True), (256 + S + 63, True), (256 - SIZE[ta[k]][0] + 1, True), (256 - SIZE[ta[k]][0], False), (256 + S + 64, False), (128, False), (1 << 20, False)):
            adr = {("addr", ("A", "arg%d" % j)): (1 << 24) + 64 * j for j in range(k)}
            adr[("addr", ("A", "arg%d" % k))] = pos
            for p in [p for p in ps if consistent(p, adr)]:
                c.check("R2", (p.out != "ret") == over, name(f), fwhere(f), "an argument %s the buffer is %s" % ("inside" if over else "outside of", "accepted" if over else "refused"), p,
                        inst="overlap (%s) %d" % (", ".join(ta), pos))
    if not n: raise CheckError("anchor vanished: no known instantiation of SerializeArgs")


def isarg(t, ar, i):
    return t == ("addr", ("A", "arg%d" % i))


def consistent(p, env):
    return all(evaluate(k, env) in (None, int(bool(v))) for k, v in p.st.f.items())


# ------------------------------------------------------------------------------------------------ call queue
def is_info(t, meth, obj):
    """t is the Size() or Alignment() of the type information obj"""
    return len(t) > 2 and t[0] == "pure" and str(t[1]).endswith("::" + meth) and obj in tuple(subterms(t))


def product(t, xs):
    """t is the product of two terms which satisfy the predicates xs"""
    return t[0] == "op" and t[1] == "*" and any(all(f(a) for f, a in zip(xs, o)) for o in ((t[2], t[3]), (t[3], t[2])))


KINDS = (("in_arg_type_info", "GetInArgValuesQueueStorage", "GetInArgValuesElementStorage", "argument"), ("return_type_info", "GetReturnValueQueueStorage", "GetReturnValueElementStorage", "result"))


def queue(c):
    import raii
    Q = L + "TypeErasedCallQueue"
    S = raii.Scen(c, c.db.cls(Q)[0], hooks=offhooks.hooks(), opaque=OPA)
    ctor = [f for f in c.fns(Q + "::TypeErasedCallQueue") if len(f["p"]) == 2]
    if not ctor: raise CheckError("anchor vanished: constructor of TypeErasedCallQueue")
    ctor = ctor[0]
    order = [i for i, x in enumerate(ctor["p"]) if "MemoryResource" in x["t"]] + [i for i, x in enumerate(ctor["p"]) if "ElementInfo" in x["t"]]
    if len(order) != 2: raise CheckError("anchor vanished: parameters of TypeErasedCallQueue")
    a = [None, None]; a[order[0]] = ("ref", ("A", "res")); a[order[1]] = ("ref", ("A", "info"))
    X = ("A", "first")
    fw = fwhere(ctor)
    n = 0
    for st, _ in S.call(S.start(), ctor, X, a):
        al = [e for e in st.tr if e.k == "call" and e.f.endswith("::allocate")]
        mem = {}
        for k, storage, _, what in KINDS:
            h = S.I.truth(st, inp("info", k, "#has"))
            mine = [e for e in al if is_info(e.a[1], "Alignment", inp("info", k, "#val"))]
            if h is None: raise CheckError("construction of a call queue does not decide on " + k)
            n += 1
            c.check("R3", len(mine) == int(h), name(ctor), fw, "%d blocks are allocated for the %s queue" % (len(mine), what), inst="one block for %s %s" % (what, h))
            for e in mine:
                c.check("R3", e.o == ("A", "res") and product(e.a[0], (lambda t: is_info(t, "Size", inp("info", k, "#val")), lambda t: t == inp("info", "queue_size"))), name(ctor), e.where(),
                        "the %s queue takes %s bytes from %s" % (what, show(e.a[0]), show(e.o)), inst="size of the %s queue" % what)
                mem[k] = (e.res, e.a[0])
        c.check("R3", len(al) == len(mem), name(ctor), fw, "more blocks allocated than queues", inst="blocks")
        for k, storage, _, what in KINDS:
            for f in c.fns(Q + "::" + storage):
                for s2, v in S.call([st], f, X):
                    h = S.I.truth(s2, S.I.read(s2, ("F", v[1], "#has")))
                    c.check("R3", h == (k in mem), name(f), fwhere(f), "storage of the %s queue %s" % (what, "missing" if k in mem else "given without a queue"), inst=storage + str(k in mem))
                    if h and k in mem:
                        d = S.I.read(s2, ("F", ("F", v[1], "#val"), "#data")); z = S.I.read(s2, ("F", ("F", v[1], "#val"), "#size"))
                        c.check("R3", (d, z) == mem[k], name(f), fwhere(f), "storage of the %s queue is (%s, %s), not the block allocated for it" % (what, show(d), show(z)), inst=storage)
        for s2 in S.dtor([st], X):
            de = [e for e in s2.tr[len(st.tr):] if e.k == "call" and e.f.endswith("::deallocate")]
            want = [x for x in mem.values() if S.I.truth(s2, ("op", "==", x[0], NULL)) is not True and s2.f.get(("op", "==", NULL, x[0])) is not True]
            c.check("R3", sorted(map(str, [(e.a[0], e.a[1]) for e in de])) == sorted(map(str, want)) and all(e.o == ("A", "res") for e in de), Q + "::~TypeErasedCallQueue", fw,
                    "destruction gives back %s" % ", ".join("(%s, %s)" % (show(e.a[0]), show(e.a[1])) for e in de), inst="memory given back once")
    if n < 4: raise CheckError("construction of a call queue: too few cases")
    for k, _, elem, what in KINDS:
        for f in c.fns(L + elem):
            sp = [x["n"] for x in f["p"] if "span<" in x["t"]][0]; inf = [x["n"] for x in f["p"] if "ElementInfo" in x["t"]][0]; pos = [x["n"] for x in f["p"] if x["n"] not in (sp, inf)][0]
            element(c, f, c.run(f, opaque=OPA), k, what, inp(sp, "#data"), inp(sp, "#size"), (inf,), ("in", ("A", pos)))


def element(c, f, ps, k, what, data, size, info, pos, rid="R3", good=lambda p: True, more={}):
    """the storage of one position, on a grid of sizes: returned paths give base + position * Size, everything out of range ends the process"""
    szt = [t for p in ps for key in list(p.st.f) for t in subterms(key) if is_info(t, "Size", inp(info[0], *(info[1:] + (k, "#val"))))]
    if not szt: raise CheckError("%s does not look at the size of the type" % f["q"])
    szt = szt[0]
    has = inp(info[0], *(info[1:] + (k, "#has"))); qs = inp(info[0], *(info[1:] + ("queue_size",)))
    for sz in (1, 8, 24):
        for q in (1, 2, 5):
            for st_ in (sz * q, sz * q + 1, sz * q - 1, sz * (q + 1)):
                for i in (0, 1, q - 1, q, q + 1):
                    env = {szt: sz, qs: q, size: st_, pos: i, data: 4096, has: 1}; env.update(more)
                    r = [p for p in ps if consistent(p, env)]
                    rets = [p for p in r if p.out == "ret" and good(p)]
                    okay = i < q and st_ == sz * q
                    c.check(rid, bool(rets) == okay, name(f), fwhere(f), "position %d of %d with elements of %d bytes in %d bytes is %s" % (i, q, sz, st_, "refused" if okay else "accepted"), inst="%s range" % what)
                    for p in rets:
                        v = p.ret[1] if hasval(p) is None else ("F", p.ret[1], "#val")
                        d = evaluate(p.I.read(p.st, ("F", v, "#data")), env); z = evaluate(p.I.read(p.st, ("F", v, "#size")), env)
                        c.check(rid, d == 4096 + i * sz and z == sz, name(f), fwhere(f), "position %d with elements of %d bytes is at offset %s with %s bytes" % (i, sz, d if d is None else d - 4096, z), p, inst="%s element" % what)


# ------------------------------------------------------------------------------------------------ pointers to arguments and results
EP = NS + "MethodSignatureElementPtr"


def pointers(c):
    import raii
    n = 0
    for cl in c.db.cls(EP):
        if cl["n"] == cl["sq"]: continue
        elem = targ(cl["n"])
        S = raii.Scen(c, cl); X, Y = ("A", "first"), ("A", "second"); FL = ("A", "flag")
        fw = "%s:%d" % (cl["file"], cl["l"])
        def flag(s): return S.I.read(s, FL)
        ctors = [f for f in c.fns(EP + "::MethodSignatureElementPtr") if f.get("c") == cl["n"] or cl["n"] + "::" in f["q"]]
        main = [f for f in ctors if len(f["p"]) == 3]
        if not main or any(not [f for f in c.fns(EP + "::" + m) if cl["n"] + "::" in f["q"] or f.get("c") == cl["n"]] for m in ("get", "GetQueuePosition")): continue
        n += 1
        def meth(s, x, m):
            fs = [f for f in c.fns(EP + "::" + m) if cl["n"] + "::" in f["q"] or f.get("c") == cl["n"]]
            if not fs: raise CheckError("anchor vanished: %s::%s" % (cl["n"], m))
            r = S.call([s], fs[0], x)
            if len(r) != 1: raise CheckError("%s has %d outcomes" % (fs[0]["q"], len(r)))
            return S.I.scal(r[0][0], r[0][1])
        def state(s, x): return meth(s, x, "get"), meth(s, x, "GetQueuePosition")
        def built():
            out = []
            for f in main:
                s0 = S.start()[0]
                a = [("ref", ("A", "elem")), ("ref", FL), ("in", ("A", "pos"))]
                a = [a[0] if not re.match(r"bool\b", x["t"]) and "&" in x["t"] else a[1] if "&" in x["t"] else a[2] for x in f["p"]]
                out += [s for s, _ in S.call([s0], f, X, a)]
            return out
        for s in built():
            c.check("R4", flag(s) == C(1) and state(s, X) == (("addr", ("A", "elem")), ("in", ("A", "pos"))), cl["n"], fw, "a new pointer leaves its flag at %s and gives %s" % (show(flag(s)), [show(t) for t in state(s, X)]), inst=elem + " new")
            for d in S.dtor([s], X):
                c.check("R4", flag(d) == C(0), cl["n"], fw, "the flag stays set after the only owner is gone", inst=elem + " destroyed")
            # a used position stays what another owner made of it
            moves = [(S.mctor, "move construction")] if raii.member(cl, "movector") else []
            for mv, what in moves:
                for m in mv([s], Y, X):
                    c.check("R4", flag(m) == C(1) and state(m, Y) == (("addr", ("A", "elem")), ("in", ("A", "pos"))), cl["n"], fw, "after %s the flag is %s and the new owner gives %s" % (what, show(flag(m)), [show(t) for t in state(m, Y)]), inst="%s %s" % (elem, what))
                    for d in S.dtor([m], X):
                        c.check("R4", flag(d) == C(1), cl["n"], fw, "a moved-from pointer clears the flag", inst="%s %s: source first" % (elem, what))
                        for e in S.dtor([d], Y): c.check("R4", flag(e) == C(0), cl["n"], fw, "the flag stays set after the last owner is gone", inst="%s %s: target last" % (elem, what))
                    for d in S.dtor([m], Y):
                        c.check("R4", flag(d) == C(0), cl["n"], fw, "the flag stays set after the owner is gone", inst="%s %s: target first" % (elem, what))
                        S.I.write(d, FL, C(1)) if hasattr(S.I, "write") else d.m.__setitem__(FL, C(1))
                        for e in S.dtor([d], X): c.check("R4", flag(e) == C(1), cl["n"], fw, "a moved-from pointer clears the flag of a later call", inst="%s %s: source last" % (elem, what))
        for m in cl["m"]:
            if m.get("kind") in ("copyctor", "copyassign"): c.check("R4", bool(m.get("del")), cl["n"], fw, "%s is available" % m["kind"], inst="%s %s" % (elem, m["kind"]))
            if m.get("kind") == "moveassign" and not m.get("del"): c.bad("R4", cl["n"], fw, "move assignment cannot rebind the flag and leaves it with the wrong owner")
    if n < 2: raise CheckError("anchor vanished: instantiations of MethodSignatureElementPtr")
    # taking over another pointer's position for another element
    k = 0
    for f in c.fns(EP + "::MethodSignatureElementPtr"):
        if len(f["p"]) != 2 or "MethodSignatureElementPtr<" not in f["p"][1]["t"]: continue
        k += 1
        src = [cl for cl in c.db.cls(EP) if base_type(f["p"][1]["t"]).rstrip("& ") == cl["n"]]
        if not src: raise CheckError("cannot find the class of " + f["p"][1]["t"])
        S = raii.Scen(c, src[0]); X, Y, FL = ("A", "first"), ("A", "second"), ("A", "flag")
        main = [g for g in c.fns(EP + "::MethodSignatureElementPtr") if len(g["p"]) == 3 and (g.get("c") == src[0]["n"] or src[0]["n"] + "::" in g["q"])][0]
        a = [("ref", FL) if re.match(r"bool\b", x["t"]) else ("ref", ("A", "elem")) if "&" in x["t"] else ("in", ("A", "pos")) for x in main["p"]]
        for s, _ in S.call(S.start(), main, X, a):
            for m, _ in S.call([s], f, Y, [("ref", ("A", "elem2")), ("ref", X)]):
                for d in S.dtor([m], X):
                    c.check("R4", S.I.read(d, FL) == C(1), name(f), fwhere(f), "the pointer whose position was taken over clears the flag", inst="taken over: source")
                    own = [cl for cl in c.db.cls(EP) if f.get("c") == cl["n"] or cl["n"] + "::" in f["q"]]
                    if not own: raise CheckError("cannot find the class of " + f["q"])
                    S2 = raii.Scen(c, own[0])
                    for e in S2.dtor([d], Y): c.check("R4", S2.I.read(e, FL) == C(0), name(f), fwhere(f), "the flag stays set after the last owner is gone", inst="taken over: target")
    if not k: raise CheckError("anchor vanished: converting constructor of MethodSignatureElementPtr")


def targ(t):
    import models
    return base_type(models.targ0(t, 0))


# ------------------------------------------------------------------------------------------------ queue positions
BASE = {"GetInArgsBuffer": 1 << 16, "GetReturnValueBuffer": 1 << 18}


def bufhooks():
    def buf(nm):
        def h(I, st, e, op, vs):
            pos = I.scal(st, vs[0])
            out = []
            for okay in (1, 0):
                s = st.copy(); s.n += 1
                p = I.tmp(s); I.setobj(s, p, ("new", "expected", s.n)); s.n += 1
                s.m[("F", p, "#has")] = C(okay)
                if okay: span(s, ("F", p, "#val"), C(BASE[nm] + 1024 * pos[1]) if pos[0] == "c" else I.binop(s, "+", C(BASE[nm]), I.binop(s, "*", C(1024), pos)), 1024)
                else: s.m[("F", p, "#err")] = ("err", nm, s.n); s.m[("B", ("F", p, "#err"))] = ("err", nm, s.n)
                I.emit(s, "vf_" + nm, pos=pos, ok=okay)
                out.append((s, ("obj", p)))
            return out
        return h
    def call(I, st, e, op, vs):
        out = []
        for okay in (1, 0):
            s = st.copy(); s.n += 1
            p = I.tmp(s); I.setobj(s, p, ("new", "expected", s.n)); s.n += 1
            s.m[("F", p, "#has")] = C(okay)
            if not okay: s.m[("F", p, "#err")] = ("err", "DoCall", s.n); s.m[("B", ("F", p, "#err"))] = ("err", "DoCall", s.n)
            I.emit(s, "vf_DoCall", pos=I.scal(s, vs[0]), ok=okay)
            out.append((s, ("obj", p)))
        return out
    return {PB + "GetInArgsBuffer": buf("GetInArgsBuffer"), PB + "GetReturnValueBuffer": buf("GetReturnValueBuffer"), PB + "DoCall": call}


def setsizes(st, infl, rfl, q, n):
    if infl is not None:
        st.m[("F", infl, "#size")] = C(q)
        for i in range(q): st.m[("F", ("E", infl, C(i)), "#size")] = C(n)
    if rfl is not None: st.m[("F", rfl, "#size")] = C(q)


def flags(I, st, infl, rfl, q, n):
    """the flags of every position"""
    return [([I.read(st, ("E", ("E", infl, C(i)), C(j))) for j in range(n)] if infl is not None else []) + ([I.read(st, ("E", rfl, C(i)))] if rfl is not None else []) for i in range(q)]


def before(I, infl, rfl, q, n):
    return flags(I, St(), infl, rfl, q, n)


def busy(p, b):
    """is one of the initial flags known to be set: True, False (all known to be clear) or None"""
    t = [p.I.truth(p.st, x) for x in b]
    return True if True in t else False if all(x is False for x in t) else None


def same(p, now, b):
    return now == b or now[0] == "c" and p.I.truth(p.st, b) is bool(now[1])


def allocation(c):
    Q = 2
    err = enum_full(c)
    n = 0
    fs = c.fns(NS + "detail::AllocateImpl")
    for f in fs:
        if not known(f): continue
        k = len(f["ta"]); _, A, offs = place(f["ta"]); n += 1
        FI, FR = ("A", "inflags"), ("A", "rflags")
        args = {}
        for i, x in enumerate(f["p"]):
            args[i] = ("ref", FI) if "array<bool" in x["t"] else ("ref", FR) if "DynamicArray<bool" in x["t"] else ("ref", ("A", "binding"))
        if sorted(map(str, args.values())) != sorted(map(str, [("ref", FI), ("ref", FR), ("ref", ("A", "binding"))])): raise CheckError("anchor vanished: parameters of AllocateImpl")
        ps = c.run(f, args=args, setup=lambda I, st: setsizes(st, FI, FR, Q, k), hooks=bufhooks())
        seen = set()
        for p in ps:
            if p.out != "ret": c.bad("R5", name(f), fwhere(f), "allocating arguments ends the process", p); continue
            b = before(p.I, FI, FR, Q, k); now = flags(p.I, p.st, FI, FR, Q, k)
            h = hasval(p)
            pos = [e.d["pos"] for e in p.tr if e.k == "vf_GetInArgsBuffer"]
            seen.add(h)
            if h:
                okay = len(pos) == 1 and pos[0][0] == "c" and pos[0][1] < Q
                c.check("R5", okay, name(f), fwhere(f), "arguments are allocated without exactly one buffer", p, inst="one buffer")
                if not okay: continue
                x = pos[0][1]
                c.check("R5", busy(p, b[x]) is False, name(f), fwhere(f), "arguments are allocated at a position which may still be in use", p, inst="free position")
                for i in range(k):
                    e = ("F", ("F", p.ret[1], "#val"), "#%d" % i)
                    fl = roles(c, f["ta"][i])
                    ptr, act, qp = [p.I.read(p.st, ("F", e, z)) for z in fl]
                    c.check("R5", ptr == C(BASE["GetInArgsBuffer"] + 1024 * x + offs[i]), name(f), fwhere(f), "argument %d points to %s, expected offset %d of the buffer of its position" % (i, show(ptr), offs[i]), p, inst="storage of the arguments")
                    c.check("R5", qp == C(x), name(f), fwhere(f), "argument %d carries position %s, not %d" % (i, show(qp), x), p, inst="position of the arguments")
                    c.check("R5", act == ("addr", ("E", ("E", FI, C(x)), C(i))), name(f), fwhere(f), "argument %d guards flag %s" % (i, show(act)), p, inst="flag of the arguments")
                    c.check("R5", now[x][i] == C(1), name(f), fwhere(f), "argument %d is not marked as in use" % i, p, inst="flags set")
                c.check("R5", all(same(p, now[i][j], b[i][j]) for i in range(Q) for j in range(k + 1) if i != x or j == k), name(f), fwhere(f), "flags of other positions or results change", p, inst="other flags")
            else:
                free = [i for i in range(Q) if busy(p, b[i]) is not True]
                c.check("R5", all(same(p, now[i][j], b[i][j]) for i in range(Q) for j in range(k + 1)), name(f), fwhere(f), "a failed allocation changes flags", p, inst="failed: flags")
                if not pos:
                    c.check("R5", not free and errcode(p) in err, name(f), fwhere(f), "allocation fails %s" % ("although a position is free" if free else "with error %s" % errcode(p)), p, inst="queue full")
                else:
                    c.check("R5", fromerr(p, "GetInArgsBuffer"), name(f), fwhere(f), "the error of the binding is replaced", p, inst="error forwarded")
        if seen != {True, False}: raise CheckError("allocation of arguments never %s" % ("fails" if False not in seen else "succeeds"))
    if not n: raise CheckError("anchor vanished: AllocateImpl")


def enum_full(c):
    e = enum(c, "ComErrc", "kCallQueueFull")
    return (e, str(e), C(e) if isinstance(e, int) else e)


def fromerr(p, nm):
    t = p.I.read(p.st, ("F", p.ret[1], "#err")) if p.ret and p.ret[0] in ("obj", "ref") else None
    return t is not None and any(isinstance(x, tuple) and x[:2] == ("err", nm) for x in subterms(t))


def roles(c, t):
    """members of MethodSignatureElementPtr<t>: element, flag, position"""
    cl = [x for x in c.db.cls(EP) if x["n"] != x["sq"] and targ(x["n"]) == base_type(t)]
    if not cl: raise CheckError("anchor vanished: MethodSignatureElementPtr<%s>" % t)
    f = cl[0]["fields"]
    r = [[x["n"] for x in f if x["t"].endswith("*")], [x["n"] for x in f if x["t"].startswith("bool")], [x["n"] for x in f if x["t"] in ("unsigned long", "std::size_t", "size_t")]]
    if any(len(x) != 1 for x in r): raise CheckError("anchor vanished: members of MethodSignatureElementPtr")
    return [x[0] for x in r]


# ------------------------------------------------------------------------------------------------ the call itself
def calling(c):
    Q = 2
    BND = c.field(NS + "ProxyMethodBase", r"unique_ptr<.*ProxyMethodBinding"); FRN = c.field(NS + "ProxyMethodBase", r"DynamicArray<bool")
    dis = enum(c, "ComErrc", "kMethodBindingDisabled"); full = enum(c, "ComErrc", "kCallQueueFull")
    seen = set()
    for f in c.fns(NS + "ProxyMethod::operator()"):
        m = re.search(r"ProxyMethod<(.*) \((.*)\)>::operator", f["q"])
        if not m: raise CheckError("cannot read the signature of " + f["q"])
        R = m.group(1); A = [x.strip() for x in m.group(2).split(",") if x.strip()]
        if not (R == "void" or R in SIZE) or not all(a in SIZE for a in A): continue
        byptr = bool(A) and "MethodSignatureElementPtr" in f["p"][0]["t"]
        seen.add((R == "void", bool(A), byptr))
        offs = place(A)[2]; k = len(A)
        cl = [x for x in c.db.cls(NS + "ProxyMethod") if x["n"].endswith("<%s (%s)>" % (R, ", ".join(A)))]
        if not cl: raise CheckError("cannot find the class of " + f["q"])
        fin = [x["n"] for x in cl[0]["fields"] if "array<bool" in x["t"]]
        if bool(fin) != bool(A): raise CheckError("anchor vanished: flags of the arguments in " + cl[0]["n"])
        FI = ("F", THIS, fin[0]) if fin else None
        FR = ("F", THIS, FRN)
        sig = "%s(%s)%s" % (R, ", ".join(A), " by pointer" if byptr else "")
        args = {i: ("ref", ("A", "arg%d" % i)) for i in range(k)}
        if not byptr: args = {i: ("ref", ("A", "arg%d" % i)) for i in range(k)}
        for at in ([(0,) * k, (1,) * k, (0, 1)[:k]] if byptr else [None]):
            def setup(I, st, at=at):
                setsizes(st, FI, FR, Q, k)
                if byptr:
                    for i in range(k):
                        e, fl, qp = roles(c, A[i]); a = ("A", "arg%d" % i)
                        st.m[("F", a, e)] = C(BASE["GetInArgsBuffer"] + 1024 * at[i] + offs[i]); st.m[("F", a, fl)] = ("addr", ("E", ("E", FI, C(at[i])), C(i))); st.m[("F", a, qp)] = C(at[i])
                        st.m[("E", ("E", FI, C(at[i])), C(i))] = C(1)
            ps = c.run(f, args=args, setup=setup, hooks=bufhooks(), opaque=OPA)
            calls_ok = 0
            for p in ps:
                null = p.I.truth(p.st, ("op", "==", p.I.read(St(), ("F", ("F", THIS, BND), "#ptr")), NULL)) if not byptr else None
                ev = [e for e in p.tr if e.k.startswith("vf_")]
                kinds = [e.k for e in ev]
                if at is not None and len(set(at)) > 1:
                    c.check("R6", "vf_DoCall" not in kinds, name(f), fwhere(f), "arguments of different queue positions are called with", p, inst=sig + " mixed positions"); continue
                if p.out != "ret":
                    c.bad("R6", name(f), fwhere(f), "calling %s ends the process" % sig, p); continue
                do = [e for e in ev if e.k == "vf_DoCall"]
                fails = [e for e in ev if not e.d["ok"]]
                h = hasval(p)
                I0 = p.I
                b = before(I0, FI, FR, Q, k)
                if byptr: b[at[0]][:k] = [C(1)] * k
                now = flags(I0, p.st, FI, FR, Q, k)
                c.check("R6", len(do) <= 1 and all(e is ev[-1] for e in fails), name(f), fwhere(f), "the call goes on after a failure", p, inst=sig + " stops at failure")
                pos = set(e.d["pos"] for e in ev)
                c.check("R6", len(pos) <= 1 and all(x[0] == "c" and 0 <= x[1] < Q for x in pos), name(f), fwhere(f), "one call uses queue positions %s" % ", ".join(show(x) for x in pos), p, inst=sig + " one position")
                if byptr and pos: c.check("R6", pos == {C(at[0])}, name(f), fwhere(f), "the call is made for another position than that of its arguments", p, inst=sig + " position of the arguments")
                if pos and (FI is not None or R != "void"):
                    x = list(pos)[0][1]
                    if not byptr: c.check("R6", busy(p, b[x]) is False, name(f), fwhere(f), "a call uses a position which may still be in use", p, inst=sig + " free position")
                if h or R == "void" and do and do[-1].d["ok"]:
                    calls_ok += 1
                    okay = len(do) == 1 and do[0].d["ok"] and not fails
                    c.check("R6", okay, name(f), fwhere(f), "success is reported without a successful call", p, inst=sig + " called")
                    if not okay: continue
                    x = do[0].d["pos"][1]; di = p.tr.index(do[0])
                    if A and not byptr:
                        for i in range(k):
                            w = [j for j, e in enumerate(p.tr) if e.k == "wr" and e.d["p"] == mkP(C(BASE["GetInArgsBuffer"] + 1024 * x + offs[i]))]
                            c.check("R6", w and w[-1] < di and p.tr[w[-1]].d["v"] == ("in", ("A", "arg%d" % i)), name(f), fwhere(f), "argument %d is not stored at its place before the call" % i, p, inst=sig + " arguments stored")
                    if R != "void":
                        rb = [e for e in ev if e.k == "vf_GetReturnValueBuffer"]
                        ro = roles(c, R)
                        ptr, act, qp = [p.I.read(p.st, ("F", ("F", p.ret[1], "#val"), z)) for z in ro]
                        c.check("R6", len(rb) >= 1 and ptr == C(BASE["GetReturnValueBuffer"] + 1024 * x), name(f), fwhere(f), "the result points to %s, not the result buffer of the called position" % show(ptr), p, inst=sig + " result storage")
                        c.check("R6", act == ("addr", ("E", FR, C(x))) and qp == C(x), name(f), fwhere(f), "the result guards %s at position %s" % (show(act), show(qp)), p, inst=sig + " result flag")
                        c.check("R6", now[x][-1] == C(1), name(f), fwhere(f), "the result is not marked as in use", p, inst=sig + " result marked")
                    keep = [(i, j) for i in range(Q) for j in range(len(now[i])) if i != x or (j == len(now[i]) - 1 and R == "void")]
                    c.check("R6", all(same(p, now[i][j], b[i][j]) for i, j in keep), name(f), fwhere(f), "flags of other positions change", p, inst=sig + " other positions")
                    c.check("R6", byptr or all(now[x][i] == C(0) or same(p, now[x][i], b[x][i]) for i in range(k)), name(f), fwhere(f), "the arguments stay marked as in use after the call", p, inst=sig + " arguments released")
                else:
                    if fails: c.check("R6", fromerr(p, fails[-1].k[3:]), name(f), fwhere(f), "the error of a failed step is replaced", p, inst=sig + " error forwarded")
                    elif not ev:
                        e = errcode(p)
                        c.check("R6", e == dis or e == full and all(busy(p, x) is True for x in b), name(f), fwhere(f), "refused with error %s although a position is free" % e, p, inst=sig + " refused")
                    else: c.bad("R6", name(f), fwhere(f), "a successful call is reported as failed", p)
                    if not byptr: c.check("R6", all(same(p, now[i][j], b[i][j]) for i in range(Q) for j in range(len(now[i]))), name(f), fwhere(f), "a failed call leaves positions marked as in use", p, inst=sig + " failed: flags")
                    else: c.check("R6", all(same(p, now[i][j], b[i][j]) for i in range(Q) for j in range(len(now[i])) if (i, j) not in [(at[0], z) for z in range(k)]), name(f), fwhere(f), "a failed call marks positions as in use", p, inst=sig + " failed: flags")
            if (at is None or len(set(at)) < 2) and not calls_ok: raise CheckError("no successful path through " + f["q"])
    if len(seen) < 6: raise CheckError("anchor vanished: instantiations of ProxyMethod (%d kinds)" % len(seen))


def initialised(c):
    n = 0
    PB_ = None
    for f in c.fns(NS + "ProxyMethod::InitializeInArgsAndReturnValues"):
        m = re.search(r"ProxyMethod<(.*) \((.*)\)>::", f["q"])
        if not m: raise CheckError("cannot read the signature of " + f["q"])
        R = m.group(1); A = [x.strip() for x in m.group(2).split(",") if x.strip()]
        if not (R == "void" or R in SIZE) or not all(a in SIZE for a in A): continue
        n += 1
        offs = place(A)[2]; sig = "%s(%s)" % (R, ", ".join(A))
        good = 0
        for p in c.run(f, hooks=bufhooks(), opaque=OPA):
            if p.out != "ret":
                c.bad("R11", name(f), fwhere(f), "preparing %s ends the process" % sig, p); continue
            ev = [e for e in p.tr if e.k.startswith("vf_")]
            new = [e for e in p.tr if e.k in ("pnew", "new")]
            if hasval(p):
                good += 1
                poss = sorted(set(e.d["pos"][1] if e.d["pos"][0] == "c" else -1 for e in ev)) or [0]
                c.check("R11", all(e.d["ok"] for e in ev) and poss == list(range(len(poss))), name(f), fwhere(f), "%s is ready although a buffer is missing" % sig, p, inst=sig + " buffers")
                want = [mkP(C(BASE["GetInArgsBuffer"] + 1024 * x + o)) for x in poss for o in offs] + ([mkP(C(BASE["GetReturnValueBuffer"] + 1024 * x)) for x in poss] if R != "void" else [])
                wt = [t for x in poss for t in A] + [R for x in poss if R != "void"]
                got = [(e.d["p"], base_type(e.d["t"])) for e in new if e.k == "pnew"]
                c.check("R11", sorted(map(repr, got)) == sorted(repr((a, base_type(b))) for a, b in zip(want, wt)), name(f), fwhere(f), "%s: values are constructed at %s" % (sig, ", ".join(show(x) for x, _ in got)), p, inst=sig + " constructed in place")
            else:
                bad = [e for e in ev if not e.d["ok"]]
                c.check("R11", not ev or bool(bad), name(f), fwhere(f), "preparing %s fails although every buffer is there" % sig, p, inst=sig + " failure")
                if bad: c.check("R11", fromerr(p, bad[-1].k[3:]), name(f), fwhere(f), "the error of a missing buffer is replaced", p, inst=sig + " error forwarded")
        if not good: raise CheckError("no successful path through " + f["q"])
    if n < 4: raise CheckError("anchor vanished: ProxyMethod::InitializeInArgsAndReturnValues")


# ------------------------------------------------------------------------------------------------ binding: client side
def binding(c):
    PM = L + "ProxyMethod"
    fl = c.db.cls(PM)[0]["fields"]
    sub = c.field(PM, r"atomic"); inf = c.field(PM, r"ElementInfo"); asil = c.field(PM, r"QualityType"); ident = c.field(PM, r"ProxyMethodInstanceIdentifier")
    failed = enum(c, "ComErrc", "kBindingFailure")
    setter = c.fns(PM + "::SetInArgsAndReturnStorages")[0]
    p = c.run(setter)[0]
    stor = {}
    for x in fl:
        if "optional<" not in x["t"]: continue
        v = p.I.read(p.st, ("F", ("F", ("F", THIS, x["n"]), "#val"), "#data"))
        for i, q in enumerate(setter["p"]):
            if v == inp(q["n"], "#val", "#data"): stor[i] = x["n"]
    c.check("R7", sorted(stor) == [0, 1], name(setter), fwhere(setter), "the storages are not both kept", p, inst="storages kept")
    if sorted(stor) != [0, 1]: return
    dsub = {}
    for m, want in (("MarkSubscribed", True), ("MarkUnsubscribed", False)):
        f = c.fns(PM + "::" + m)[0]
        for p in c.run(f):
            c.check("R7", p.I.truth(p.st, p.I.read(p.st, ("F", ("F", THIS, sub), "#v"))) is want, name(f), fwhere(f), m + " does not set the state", p, inst=m)
    def subscribed(p):
        t = [e.v for e in p.tr if e.k == "aload" and e.p == ("F", THIS, sub)]
        return p.I.truth(p.st, t[0]) if t else None
    for i, (m, k, _, what) in enumerate((("GetInArgsBuffer",) + KINDS[0][:1] + (0, "argument"), ("GetReturnValueBuffer",) + KINDS[1][:1] + (0, "result"))):
        f = c.fns(PM + "::" + m)[0]
        ps = c.run(f, opaque=OPA)
        for p in ps:
            if subscribed(p) is not True:
                c.check("R7", subscribed(p) is False and p.out == "ret" and hasval(p) is False and errcode(p) == failed, name(f), fwhere(f), "a buffer is given while not subscribed", p, inst=m + " unsubscribed")
        st_ = inp("this", stor[i], "#val")
        yes = [p for p in ps if subscribed(p) is True]
        if not yes: raise CheckError("%s never gives a buffer" % f["q"])
        for p in yes:
            if p.out == "ret":
                c.check("R7", hasval(p) is True and p.I.truth(p.st, inp("this", stor[i], "#has")) is True and p.I.truth(p.st, inp("this", inf, k, "#has")) is True, name(f), fwhere(f), "a buffer is given without storage or type", p, inst=m + " storage")
        element(c, f, yes, k, what, ("fld", st_, "#data"), ("fld", st_, "#size"), ("this", inf), ("in", ("A", f["p"][0]["n"])), rid="R7", more={inp("this", stor[i], "#has"): 1})
    f = c.fns(PM + "::DoCall")[0]
    done = 0
    for p in c.run(f, opaque=OPA, hooks={L + "Proxy::GetSourcePid": lambda I, st, e, op, vs: [(st, ("pid", op))]}):
        cm = [e for e in p.tr if e.k == "call" and e.f.endswith("::CallMethod")]
        if subscribed(p) is False:
            c.check("R7", not cm and p.out == "ret" and hasval(p) is False and errcode(p) == failed, name(f), fwhere(f), "a method is called while not subscribed", p, inst="call unsubscribed")
        elif p.out == "ret":
            done += 1
            c.check("R7", subscribed(p) is True and len(cm) == 1, name(f), fwhere(f), "%d calls are made" % len(cm), p, inst="one call")
            for e in cm:
                q = [x for x in e.a if isinstance(x, tuple) and x[0] == "pid"]
                c.check("R7", inp("this", asil) in e.a and inp("this", ident) in e.a and ("in", ("A", f["p"][0]["n"])) in e.a and len(q) == 1, name(f), e.where(), "the call is made with %s" % ", ".join(show(x) for x in e.a), p, inst="own identity")
                c.check("R7", p.I.read(p.st, p.ret[1]) == e.res or hasval(p) == p.I.truth(p.st, ("fld", e.res, "#has")), name(f), e.where(), "the outcome of the call is not returned", p, inst="outcome")
    if not done: raise CheckError("no call through " + f["q"])


# ------------------------------------------------------------------------------------------------ provider side
OPR = lambda sq, g=None: OPA(sq) or sq == NS + "GetBindingRuntime"
SM = L + "SkeletonMethod"
GRID = 16                                # bytes of one position in the provider's queues


def provider(c):
    handlers(c); called(c); registered(c); resources(c)


def handlers(c):
    """what the handler given by the user gets to see"""
    RH = NS + "SkeletonMethodBinding::RegisterHandler"
    n = 0; kinds = set()
    for f in c.fns(NS + "SkeletonMethod::RegisterHandlerImpl"):
        m = re.search(r"SkeletonMethod<(.*) \((.*)\)>::RegisterHandlerImpl", f["q"])
        if not m: raise CheckError("cannot read the signature of " + f["q"])
        R = m.group(1); A = [x.strip() for x in m.group(2).split(",") if x.strip()]
        if not all(a in SIZE for a in A): continue
        n += 1
        offs = place(A)[2]
        fn = f["p"][0]["n"]
        sig = "%s(%s)" % (R if len(R) < 20 else "...", ", ".join(A))
        def hook(I, st, e, op, vs):
            I.emit(st, "vf_registered")
            for nm, b in (("ins", BASE["GetInArgsBuffer"]), ("outs", BASE["GetReturnValueBuffer"])):
                q = ("F", ("A", nm), "#val"); st.m[("F", q, "#data")] = C(b); st.m[("F", q, "#size")] = C(256)
            out = []
            for s, v in I.invoke(st, vs[0], [("in", ("A", "quality")), ("ref", ("A", "ins")), ("ref", ("A", "outs"))], []):
                I.emit(s, "vf_done"); out.append((s, ("obj", I.tmp(s))))
            return out
        done = 0
        for p in c.run(f, hooks={RH: hook}, opaque=OPA):
            null = [e for e in p.tr if e.k == "vf_registered"]
            inv = [e for e in p.tr if e.k == "invoke" and e.d["fnv"] == ("in", ("A", fn))]
            if p.out != "ret":
                need = ([inp("ins", "#has")] if A else []) + ([inp("outs", "#has")] if R != "void" else [])
                c.check("R8", not inv and (not null or any(p.I.truth(p.st, x) is False for x in need)), name(f), fwhere(f), "handler of %s: the process ends although arguments and result are there" % sig, p, inst=sig + " needs its storage")
                continue
            if not null: raise CheckError("anchor vanished: %s registers no handler" % f["q"])
            done += 1
            c.check("R8", len(inv) == 1, name(f), fwhere(f), "handler of %s: called %d times for one call" % (sig, len(inv)), p, inst=sig + " called once")
            for e in inv:
                ap = list(e.d["ap"]); q = e.d["a"][0] == ("in", ("A", "quality")) if e.d["a"] else False
                if q: ap = ap[1:]
                kinds.add((q, R == "void", bool(A)))
                want = ([mkP(C(BASE["GetReturnValueBuffer"]))] if R != "void" else []) + [mkP(C(BASE["GetInArgsBuffer"] + o)) for o in offs]
                c.check("R8", ap == want, name(f), e.where(), "handler of %s: gets %s" % (sig, ", ".join(show(x) for x in e.d["a"])), p, inst=sig + " result and arguments in order")
        if not done: raise CheckError("no handler call through " + f["q"])
    if len(kinds) < 6: raise CheckError("anchor vanished: kinds of method handlers (%d)" % len(kinds))


def called(c):
    """what the binding hands to the registered handler for a queue position"""
    f = c.fns(SM + "::OnProxyMethodSubscribeFinished")[0]
    ps = f["p"]
    inf = [x["n"] for x in ps if "ElementInfo" in x["t"]][0]
    stor = [x["n"] for x in ps if "optional<" in x["t"]]
    qual = [x["n"] for x in ps if "QualityType" in x["t"]][0]
    cb = c.field(SM, r"optional<.*callback|optional<.*function|TypeErasedHandler")
    RM = L + "IMessagePassingService::RegisterMethodCallHandler"
    ei = c.db.cls(L + "TypeErasedCallQueue::TypeErasedElementInfo")[0]["fields"]
    opts = [x["n"] for x in ei if "optional" in x["t"]]; qs = [x["n"] for x in ei if "optional" not in x["t"]]
    if len(stor) != 2 or len(opts) != 2 or len(qs) != 1: raise CheckError("anchor vanished: parameters of OnProxyMethodSubscribeFinished")
    Q = 2
    sizes = [(GRID, 8), (12, 4)]
    def info(k):
        def h(I, st, e, op, vs):
            w = [i for i in (0, 1) if ("fld", ("in", ("A", inf)), opts[i]) in subterms(I.read(st, op))]
            return [(st, C(sizes[w[0]][k]))] if len(w) == 1 else None
        return h
    sized = {n: info(k) for k, n in enumerate(("score::memory::DataTypeSizeInfo::Size", "score::memory::DataTypeSizeInfo::Alignment"))}
    for has in ((0, 0), (1, 0), (0, 1), (1, 1)):
        for pos in range(Q + 1):
            def hook(I, st, e, op, vs):
                out = []
                for s, v in I.invoke(st, vs[2], [C(pos)], []):
                    I.emit(s, "vf_done"); out.append((s, ("obj", I.tmp(s))))
                return out
            def setup(I, st):
                q = ("A", inf)
                st.m[("F", q, qs[0])] = C(Q)
                for i in (0, 1):
                    st.m[("F", ("F", q, opts[i]), "#has")] = C(has[i])
                    span(st, ("F", ("A", stor[i]), "#val"), 1024 * (i + 1), sizes[i][0] * Q)
            done = 0
            for p in c.run(f, hooks={RM: hook, **sized}, opaque=lambda sq, g=None: OPR(sq) or sq.endswith("CleanUpOldHandlers"), setup=setup):
                inv = [e for e in p.tr if e.k == "invoke" and under_cb(e, cb)]
                fin = [e for e in p.tr if e.k == "vf_done"]
                hc = p.I.truth(p.st, inp("this", cb, "#has"))
                hs = [p.I.truth(p.st, inp(stor[i], "#has")) for i in (0, 1)]
                if p.out != "ret" and not inv:
                    why = hc is False or pos >= Q and any(has) or any(has[i] and hs[i] is False for i in (0, 1))
                    c.check("R8", why, name(f), fwhere(f), "a call of position %d of %d ends the provider" % (pos, Q), p, inst="call accepted")
                    continue
                if not fin: continue
                c.check("R8", hc is True, name(f), fwhere(f), "a client is served without a handler", p, inst="handler needed")
                if pos >= Q:
                    c.check("R8", not any(has), name(f), fwhere(f), "position %d of %d is served" % (pos, Q), p, inst="position outside the queue"); continue
                done += 1
                c.check("R8", len(inv) == 1, name(f), fwhere(f), "the handler is called %d times" % len(inv), p, inst="handler called")
                for e in inv:
                    c.check("R8", e.d["a"][0] == inp(qual), name(f), e.where(), "the handler gets quality %s" % show(e.d["a"][0]), p, inst="quality of the call")
                    for i in (0, 1):
                        a = e.d["ap"][1 + i]
                        h = p.I.truth(p.st, p.I.read(p.st, ("F", a, "#has")))
                        d, z = [p.I.read(p.st, ("F", ("F", a, "#val"), k)) for k in ("#data", "#size")]
                        good = h is False if not has[i] else h is True and d == C(1024 * (i + 1) + pos * sizes[i][0]) and z == C(sizes[i][0])
                        c.check("R8", good, name(f), e.where(), "position %d: %s storage is %s, size %s" % (pos, ("argument", "result")[i], show(d), show(z)), p, inst="storage of the position")
            if not done and pos < Q: raise CheckError("no served call through " + f["q"])


def under_cb(e, cb):
    p = e.d["p"]
    while isinstance(p, tuple) and p and p[0] in ("F", "E", "P"):
        if p == ("F", THIS, cb): return True
        p = p[1]
    return False


# ------------------------------------------------------------------------------------------------ handlers per client
import tables
APP, CNT = "application_id", "proxy_instance_counter"


def elem(m, i, *n):
    p = ("E", m, C(i))
    for x in n: p = ("F", p, x)
    return p


def setkey(c, st, place, t, vals):
    """give every scalar of a key a concrete value; vals by member name, the rest 0"""
    t = base_type(t)
    k = c.db.C.get(t)
    if not k or not k.get("fields"): return False
    for x in k["fields"]:
        p = ("F", place, x["n"])
        if not setkey(c, st, p, x["t"], vals): st.m[p] = C(vals.pop(x["n"], 0))
    return True


def guardmap(c):
    G = c.field(SM, r"map<.*ProxyMethodInstanceIdentifier")
    t = [x["t"] for x in c.db.cls(SM)[0]["fields"] if x["n"] == G][0]
    for x in (APP, CNT):
        if x not in [y["n"] for y in c.db.cls(L + "ProxyInstanceIdentifier")[0]["fields"]]: raise CheckError("anchor vanished: ProxyInstanceIdentifier::" + x)
    return ("F", THIS, G)


def registered(c):
    G = guardmap(c)
    MX = ("F", THIS, c.field(SM, r"mutex"))
    PMI = L + "ProxyMethodInstanceIdentifier"
    f = c.fns(SM + "::OnProxyMethodSubscribeFinished")[0]
    key = [x["n"] for x in f["p"] if "ProxyMethodInstanceIdentifier" in x["t"]][0]
    pid = [x["n"] for x in f["p"] if re.search(r"\bpid_t\b|^int$", x["t"])]
    uid = [x["n"] for x in f["p"] if re.search(r"\buid_t\b|^unsigned int$", x["t"])]
    qual = [x["n"] for x in f["p"] if "QualityType" in x["t"]][0]
    if len(pid) != 1 or len(uid) != 1: raise CheckError("anchor vanished: process and user of OnProxyMethodSubscribeFinished")
    cb = c.field(SM, r"optional<.*callback|optional<.*function|TypeErasedHandler")
    done = 0
    # entries: (application, instance, process); the new one is application 1, instance 5, process 30
    for ents in ([], [(1, 4, 30)], [(1, 0, 20)], [(1, 4, 40)], [(1, 4, 20)], [(2, 5, 30)], [(1, 5, 20)], [(1, 4, 20), (2, 4, 20)], [(2, 5, 30), (1, 5, 20)], [(1, 4, 30), (2, 5, 20)], [(1, 4, 20), (1, 3, 20)]):
        def setup(I, st):
            tables.fill(I, st, G, len(ents))
            for i, (a, n, pd) in enumerate(ents):
                setkey(c, st, elem(G, i, "first"), PMI, {APP: a, CNT: n}); st.m[elem(G, i, "second", "first")] = C(pd)
            setkey(c, st, ("A", key), PMI, {APP: 1, CNT: 5})
        stale = [i for i, (a, n, pd) in enumerate(ents) if a == 1 and pd != 30]
        what = "clients %s" % (ents,)
        for p in c.run(f, setup=setup, hooks=tables.hooks(), opaque=OPR, args={pid[0]: C(30)}):
            reg = [e for e in p.tr if e.k == "call" and e.f.endswith("::RegisterMethodCallHandler")]
            rm = [e for e in p.tr if e.k == "tabrm" and e.d["o"] == G]
            if p.out != "ret":
                c.check("R9", p.I.truth(p.st, inp("this", cb, "#has")) is False, name(f), fwhere(f), "a client's subscription ends the provider, " + what, p, inst="accepted"); continue
            c.check("R9", p.I.truth(p.st, inp("this", cb, "#has")) is True and len(reg) == 1, name(f), fwhere(f), "%d handlers are registered" % len(reg), p, inst="one registration")
            if len(reg) != 1: continue
            r = reg[0]; ri = p.tr.index(r)
            c.check("R9", r.a[0] == inp(qual) and r.a[3] == inp(uid[0]) and r.d["ap"][1] is not None and tables.leaves(p.I, p.st, ("ref", r.d["ap"][1]), PMI) == tables.leaves(p.I, p.st, ("ref", ("A", key)), PMI),
                    name(f), r.where(), "the handler is registered with quality %s, user %s" % (show(r.a[0]), show(r.a[3])), p, inst="registered for the client")
            gone = [e.d["id"][2] for e in rm]
            c.check("R9", sorted(gone) == stale and all(p.tr.index(e) < ri for e in rm), name(f), fwhere(f), "handlers %s are dropped, those of the restarted client are %s (%s)" % (gone, stale, what), p, inst="stale handlers dropped first")
            for e in p.tr:
                if e.k in ("tabrm", "tabput") and e.d["o"] == G:
                    c.check("R9", locked(p, e, MX), name(f), e.where(), "the handlers change without their mutex", p, inst="under the mutex")
            ok = p.I.truth(p.st, ("fld", r.res, "#has"))
            h = hasval(p)
            c.check("R9", h == ok, name(f), fwhere(f), "the outcome of the registration is not returned", p, inst="outcome returned")
            left = tables.ids(p.st, G)
            new = [i for i, x in enumerate(left) if x[1] == "new"]
            c.check("R9", len(new) == (1 if ok else 0), name(f), fwhere(f), "the registration is kept %d times" % len(new), p, inst="registration kept")
            for i in new:
                done += 1
                g = elem(G, i, "second", "second")
                kept = any(("fld", r.res, "#val") in list(subterms(v)) for k, v in p.st.m.items() if isinstance(v, tuple) and under(k[1] if k[0] == "B" else k, g))
                c.check("R9", p.I.read(p.st, elem(G, i, "second", "first")) == C(30) and kept, name(f), fwhere(f), "the registration is not kept with the process of the client", p, inst="kept with its process")
            if not ok:
                I0 = p.I; x = I0.read(p.st, ("F", ("F", p.ret[1], "#err"), "#v"))
                e0 = I0.read(p.st, ("F", p.ret[1], "#err"))
                c.check("R9", ("fld", r.res, "#err") in list(subterms(e0)), name(f), fwhere(f), "the error of the registration is replaced by " + show(e0), p, inst="error forwarded")
    if not done: raise CheckError("no registration through " + f["q"])
    for m in ("OnProxyMethodUnsubscribe", "OnProxyMethodUnsubscribeFinished", "UnregisterMethodCallHandlers"):
        f = c.fns(SM + "::" + m)[0]
        for k in (0, 1):                     # client 4 is registered, client 5 only if k
            def setup(I, st):
                tables.fill(I, st, G, 1 + k)
                for i in range(1 + k):
                    setkey(c, st, elem(G, i, "first"), PMI, {APP: 1, CNT: 4 + i}); st.m[elem(G, i, "second", "first")] = C(30)
                if f["p"]: setkey(c, st, ("A", f["p"][0]["n"]), PMI, {APP: 1, CNT: 5})
            want = [] if m.startswith("Unregister") else [0]
            for p in c.run(f, setup=setup, hooks=tables.hooks(), opaque=OPR):
                if p.out != "ret":
                    c.check("R9", not k and m == "OnProxyMethodUnsubscribe", name(f), fwhere(f), m + " ends the provider", p, inst=m + " accepted"); continue
                left = [x[2] for x in tables.ids(p.st, G)]
                c.check("R9", left == want, name(f), fwhere(f), "%s leaves the handlers of clients %s" % (m, [4 + i for i in left]), p, inst=m)
                for e in p.tr:
                    if e.k == "tabrm": c.check("R9", locked(p, e, MX), name(f), e.where(), "the handlers change without their mutex", p, inst="under the mutex")


def locked(p, e, m):
    d = 0
    for x in p.tr:
        if x is e: return d > 0
        if x.k == "lock" and x.d["m"] == m and not x.d.get("shared"): d += 1
        if x.k == "unlock" and x.d["m"] == m: d -= 1
    return False


# ------------------------------------------------------------------------------------------------ memory per client
def resources(c):
    MR = L + "MethodResourceMap"
    R = ("F", THIS, c.field(MR, r"map"))
    PII = L + "ProxyInstanceIdentifier"
    inn = [x for x in c.db.C.values() if x["n"].startswith(MR + "::") and x.get("fields") and any("map<" in y["t"] for y in x["fields"])]
    if len(inn) != 1: raise CheckError("anchor vanished: memory of one process in MethodResourceMap")
    im = [x["n"] for x in inn[0]["fields"] if "map<" in x["t"]][0]; pd = [x["n"] for x in inn[0]["fields"] if "map<" not in x["t"]][0]
    def fillin(I, st, ents):
        tables.fill(I, st, R, len(ents))
        for i, (a, pid, ns) in enumerate(ents):
            st.m[elem(R, i, "first")] = C(a); st.m[elem(R, i, "second", pd)] = C(pid)
            m = elem(R, i, "second", im); tables.fill(I, st, m, len(ns))
            for j, n in enumerate(ns): st.m[elem(m, j, "first")] = C(n); st.m[("F", elem(m, j, "second"), "#ptr")] = ("in", ("A", "old%d_%d" % (a, n)))
    def state(p):
        out = set()
        for i in range(tables.size(p.st, R)):
            a = p.I.read(p.st, elem(R, i, "first")); pid = p.I.read(p.st, elem(R, i, "second", pd)); m = elem(R, i, "second", im)
            for j in range(tables.size(p.st, m) or 0):
                out.add((show(a), show(pid), show(p.I.read(p.st, elem(m, j, "first"))), show(p.I.read(p.st, ("F", elem(m, j, "second"), "#ptr")))))
        return out
    def rows(ents): return set((str(a), str(pid), str(n), show(("in", ("A", "old%d_%d" % (a, n))))) for a, pid, ns in ents for n in ns)
    ops = [("Contains", "R10"), ("Insert", "R10"), ("CleanUpOldRegions", "R10"), ("Remove", "R10"), ("Clear", "R10")]
    tabs = [[], [(1, 40, [0])], [(1, 30, [4])], [(1, 30, [5])], [(1, 30, [4, 5])], [(1, 20, [4])], [(1, 20, [5])], [(2, 30, [5])], [(2, 30, [5]), (1, 30, [4])], [(1, 20, [5, 4]), (2, 20, [4])], [(2, 30, [4]), (1, 30, [5])]]
    for m, rid in ops:
        f = c.fns(MR + "::" + m)[0]
        q = [x["n"] for x in f["p"] if "ProxyInstanceIdentifier" in x["t"]]; pp = [x["n"] for x in f["p"] if re.search(r"\bpid_t\b|^(const )?int$", x["t"])]; sp = [x["n"] for x in f["p"] if "shared_ptr" in x["t"]]
        for ents in tabs:
            mine = [(a, pid, ns) for a, pid, ns in ents if a == 1]
            has = any(pid == 30 and 5 in ns for a, pid, ns in mine); stale = any(pid != 30 for a, pid, ns in mine)
            if m == "Insert" and (has or stale): continue           # the map is cleaned up before
            def setup(I, st):
                fillin(I, st, ents)
                if q: setkey(c, st, ("A", q[0]), PII, {APP: 1, CNT: 5})
            ok = 0
            for p in c.run(f, setup=setup, hooks=tables.hooks(), opaque=OPA, args={x: C(30) for x in pp}):
                what = "%s with %s" % (m, ents)
                if p.out != "ret":
                    c.check(rid, m == "CleanUpOldRegions" and has, name(f), fwhere(f), what + " ends the provider", p, inst=m + " accepted"); ok += 1; continue
                ok += 1
                now = state(p); was = rows(ents)
                if m == "Contains": c.check(rid, p.I.truth(p.st, p.ret) is has and now == was, name(f), fwhere(f), what + " answers " + show(p.ret), p, inst=m)
                elif m == "Clear": c.check(rid, not now, name(f), fwhere(f), what + " keeps memory", p, inst=m)
                elif m == "Remove": c.check(rid, now == set(x for x in was if (x[0], x[2]) != ("1", "5")), name(f), fwhere(f), what + " leaves %d" % len(now), p, inst=m)
                elif m == "Insert": c.check(rid, now == was | {("1", "30", "5", show(inp(sp[0], "#ptr")))}, name(f), fwhere(f), what + " leaves %s" % sorted(now), p, inst=m)
                else:
                    c.check(rid, not has and now == (set(x for x in was if x[0] != "1") if stale else was), name(f), fwhere(f), what + " leaves %d" % len(now), p, inst=m)
                    c.check(rid, p.ret == C(int(enum(c, "CleanUpResult", "OLD_REGIONS_REMOVED" if stale else "NO_REGIONS_REMOVED"))), name(f), fwhere(f), what + " reports " + show(p.ret), p, inst=m + " reported")
            if not ok: raise CheckError("no path through %s with %s" % (f["q"], ents))
