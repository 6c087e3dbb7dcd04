"""Abstract semantics of the standard library and base library vocabulary types used by the repository."""
import re
from absint import C, TRUE, FALSE, NULL, VOID, isc, base_type, strip_targs, is_ref, targ0, mkP, mkaddr, root, under, PURE_CTOR, subterms

OPT = {"std::optional", "std::_Optional_base", "std::_Optional_payload"}
EXP = {"score::cpp::expected"}
UNEXP = {"score::cpp::unexpected", "score::Unexpected"}
UPTR = {"std::unique_ptr"}
SPTR = {"std::shared_ptr", "std::__shared_ptr", "std::__shared_ptr_access", "std::weak_ptr", "std::__weak_ptr"}
FUN = {"score::cpp::callback", "score::cpp::move_only_function", "std::function", "score::safecpp::CopyableScopedFunction", "score::safecpp::MoveOnlyScopedFunction", "std::_Bind_front", "std::_Bind"}
SEQ = {"std::vector", "std::array", "std::list", "std::deque", "std::initializer_list", "score::containers::DynamicArray", "score::containers::NonRelocatableVector", "score::cpp::span", "std::__cxx11::list",
       "score::containers::intrusive_list", "std::queue", "std::stack", "score::json::List"}
MAP = {"std::map", "std::unordered_map", "std::multimap", "std::unordered_multimap", "score::json::Object"}
SET = {"std::set", "std::unordered_set", "std::multiset", "std::unordered_multiset"}
STR = {"std::basic_string", "std::__cxx11::basic_string", "std::basic_string_view", "score::safecpp::zstring_view"}
GUARD = {"std::lock_guard", "std::scoped_lock", "std::unique_lock", "std::shared_lock"}
ATOM = {"std::atomic", "std::__atomic_base", "std::atomic_flag", "std::__atomic_float"}
PAIR = {"std::pair", "std::tuple", "std::_Tuple_impl", "std::_Head_base"}
IT = ("std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator", "std::__detail::_Node_iterator", "std::__detail::_Node_const_iterator", "__gnu_cxx::__normal_iterator", "std::_List_iterator", "std::_List_const_iterator",
      "std::__detail::_Node_iterator_base", "std::reverse_iterator", "score::containers::intrusive_list::iterator", "score::containers::intrusive_list::const_iterator", "std::_Deque_iterator", "std::move_iterator")
SCOPEEXIT = {"score::utils::ScopeExit"}
REFW = {"std::reference_wrapper"}
VAR = {"std::variant"}


def F(p, n):
    return ("F", p, n)


def cls_of(f):
    c = f.get("c")
    return strip_targs(c) if c else None


def src_place(I, st, v):
    return v[1] if v[0] in ("ref", "obj") else I.place(st, v)


def put(I, st, dst, v, t=None):
    """store value v (any kind) into place dst"""
    if v[0] in ("ref", "obj"):
        if v[1] == dst:
            return
        if t is not None and not I.is_class(t):
            x = I.read(st, v[1]); I.kill(st, dst); st.m[dst] = x
            return
        I.copyobj(st, v[1], dst)
        x = st.m.get(v[1])
        if x is not None:
            st.m[dst] = x
    else:
        I.kill(st, dst)
        st.m[dst] = v
        st.m[("B", dst)] = v


def template_ctors(db):
    """instantiated constructor templates by class"""
    r = getattr(db, "_tctors", None)
    if r is None:
        r = {}
        for fn in db.F.values():
            if fn.get("kind") == "ctor" and fn.get("pat") and "#" in fn["u"] and fn.get("ta"): r.setdefault(base_type(fn.get("c") or ""), []).append(fn)
        db._tctors = r
    return r


def put_constructed(I, st, dst, t, vs, argn):
    """construct an object of type t from args vs in dst, running the repository constructor when there is one"""
    t = base_type(t)
    if not I.is_class(t):
        st.m[dst] = I.scal(st, vs[0]) if vs else (NULL if t.endswith("*") else FALSE)
        return [st]
    if len(vs) == 1:
        a = vs[0]
        at = base_type(I.argtype(argn[0])) if argn and argn[0] else ""
        if at == t:
            return copy_or_move(I, st, dst, t, a, argn[0] if argn else None)
        r = construct(I, st, dst, t, strip_targs(t), {"kind": "ctor", "q": t, "u": "", "pt": [at], "c": t}, vs, argn)
        if r is not None:
            return r
    c = I.db.C.get(t)
    cand = []
    if c:
        for m in c.get("m", ()):
            if m.get("kind") in ("ctor", "defctor") and m["u"] in I.db.F:
                np = len(m["pt"])
                if np == len(vs) or (np > len(vs) and False):
                    cand.append(m)
        if vs and not cand:
            for fn in template_ctors(I.db).get(t, ()):
                if len(fn["p"]) == len(vs): cand.append({"kind": "ctor", "u": fn["u"], "pt": [x["t"] for x in fn["p"]]})
    if len(cand) > 1 and argn:
        best = None
        ats = [base_type(I.argtype(a)) if a else "" for a in argn]
        for m in cand:
            sc = sum(1 for a, b in zip(ats, m["pt"]) if a and a == base_type(b))
            if best is None or sc > best[0]:
                best = (sc, m)
        cand = [best[1]]
    if cand:
        fn = I.db.F[cand[0]["u"]]
        f = {"kind": cand[0]["kind"], "q": fn["q"], "u": fn["u"], "pt": cand[0]["pt"], "c": t, "repo": 1}
        return I.construct(st, dst, t, f, vs, argn)
    if c and vs and c.get("repo") and not c["fields"] and len(c.get("bases", ())) == 1:
        for b in c.get("bases", ()):                 # inherited constructors
            bc = I.db.C.get(base_type(b["t"]))
            bm = [m for m in (bc or {}).get("m", ()) if m.get("kind") == "ctor" and len(m["pt"]) == len(vs) and m["u"] in I.db.F and I.can_inline(I.db.F[m["u"]])]
            if len(bm) == 1:
                I.setobj(st, dst, ("new", t, st.n)); st.n += 1
                return [x for x, _ in I.inline(I.db.F[bm[0]["u"]], st, dst, vs, argn)]
    if not vs:
        r = construct(I, st, dst, t, strip_targs(t), {"kind": "defctor", "q": t, "u": "", "pt": [], "c": t}, vs, argn)
        if r is not None:
            return r
    if len(vs) == 1 and vs[0][0] in ("ref", "obj") and not c:
        put(I, st, dst, vs[0])
        return [st]
    if c and c.get("repo") and not any(m.get("kind") in ("ctor",) for m in c.get("m", ())) and len(vs) <= len(c["fields"]) and vs:
        I.setobj(st, dst, ("new", t, st.n)); st.n += 1
        for v, fl in zip(vs, c["fields"]):
            put(I, st, F(dst, fl["n"]), v, fl["t"])
        return [st]
    I.emit(st, "ctor", t=t, p=dst, f=strip_targs(t), a=[I.argval(st, v) for v in vs], kind="ctor")
    I.setobj(st, dst, ("new", t, st.n)); st.n += 1
    return [st]


def copy_or_move(I, st, dst, t, v, node=None):
    """copy/move construct dst (type t) from v, using the repository's move constructor for rvalues when it exists"""
    if not I.is_class(t):
        st.m[dst] = I.scal(st, v)
        return [st]
    c = I.db.C.get(base_type(t))
    if c and c.get("repo") and v[0] in ("ref", "obj"):
        want = "copyctor"
        n = node
        while n is not None and n.get("k") in ("full", "cast", "icast", "load"):
            n = n.get("e")
        if v[0] == "obj" or (n and (n.get("k") == "tmp" or (n.get("k") == "call" and n.get("f") and strip_targs(n["f"]["q"]) in ("std::move", "std::forward")))):
            want = "movector"
        for w in (want, "copyctor", "movector"):
            for m in c.get("m", ()):
                if m.get("kind") == w and m["u"] in I.db.F and not m.get("del"):
                    fn = I.db.F[m["u"]]
                    f = {"kind": w, "q": fn["q"], "u": fn["u"], "pt": m["pt"], "c": t, "repo": 1}
                    return I.construct(st, dst, t, f, [v], [node])
        if want == "movector" and not c.get("tc") and not c.get("bases") and c.get("fields") and not any(m.get("kind") in ("dtor", "copyctor", "movector") and not m.get("impl") for m in c.get("m", ())):
            # the implicit move constructor: member by member
            put(I, st, dst, v, t)
            cur = [st]
            for x in c["fields"]:
                if is_ref(x["t"]): continue
                src = ("obj", F(v[1], x["n"]))
                nx = []
                for s in cur: nx += copy_or_move(I, s, F(dst, x["n"]), x["t"], src) if not opt_like(x["t"]) else construct(I, s, F(dst, x["n"]), x["t"], strip_targs(base_type(x["t"])), {"kind": "movector", "q": x["t"], "u": "", "pt": [x["t"] + " &&"], "c": x["t"]}, [src], [None])
                cur = nx
            return cur
    if strip_targs(t) in UPTR | SPTR and v[0] in ("ref", "obj"):
        k = {"kind": "movector", "q": t, "u": "", "pt": [t + " &&"], "c": t}
        return construct(I, st, dst, t, strip_targs(t), k, [v], [node])
    if strip_targs(base_type(t)) in ("std::tuple", "std::pair") and v[0] in ("ref", "obj"):
        n = node
        while n is not None and n.get("k") in ("full", "cast", "icast", "load"):
            n = n.get("e")
        if v[0] == "obj" or (n and (n.get("k") == "tmp" or (n.get("k") == "call" and n.get("f") and strip_targs(n["f"]["q"]) in ("std::move", "std::forward")))):
            return move_tuple(I, st, v[1], dst, t, "movector")
    if strip_targs(base_type(t)) in ("std::vector", "std::list", "std::deque") and v[0] in ("ref", "obj"):
        n = node
        while n is not None and n.get("k") in ("full", "cast", "icast", "load"):
            n = n.get("e")
        if n and (n.get("k") == "tmp" or (n.get("k") == "call" and n.get("f") and strip_targs(n["f"]["q"]) in ("std::move", "std::forward"))):
            return construct(I, st, dst, t, strip_targs(base_type(t)), {"kind": "movector", "q": t, "u": "", "pt": [t + " &&"], "c": t}, [v], [node])
    put(I, st, dst, v, t)
    return [st]


def opt_like(t): return strip_targs(base_type(t)) == "std::optional"


def value_type(I, t, i=0):
    return targ0(t, i)


# ------------------------------------------------------------------------------------------------ construction
STREAMS = {"std::basic_stringstream", "std::basic_ostringstream", "std::__cxx11::basic_stringstream", "std::__cxx11::basic_ostringstream"}


def construct(I, st, p, t, sc, f, vs, argn):
    kind = f.get("kind")
    pt = f.get("pt") or []
    if sc in STREAMS and (kind == "defctor" or not vs):
        I.emit(st, "ctor", t=t, p=p, f=f.get("q"), a=[], kind="defctor")
        I.setobj(st, p, ("sstream", st.n)); st.n += 1
        st.m[F(p, "#txt")] = ("cat",)
        return [st]
    if sc in OPT and sc == "std::optional":
        vt = targ0(t)
        if kind == "defctor" or not vs:
            I.setobj(st, p, ("opt", st.n)); st.n += 1
            st.m[F(p, "#has")] = FALSE
            return [st]
        a0 = base_type(pt[0]) if pt else ""
        if a0.startswith("std::nullopt_t"):
            I.setobj(st, p, ("opt", st.n)); st.n += 1
            st.m[F(p, "#has")] = FALSE
            return [st]
        if strip_targs(a0) == "std::optional" and (kind in ("copyctor", "movector") or strip_targs(vt) != "std::optional"):
            src = src_place(I, st, vs[0])
            has = I.read(st, F(src, "#has"))
            if kind == "movector" or (pt and pt[0].rstrip().endswith("&&")):
                cc = I.db.C.get(base_type(vt))
                if cc is not None and cc.get("repo") and not cc.get("tc"):
                    out = []
                    for s, b in I.branch(st, has):
                        I.setobj(s, p, ("opt", s.n)); s.n += 1
                        s.m[F(p, "#has")] = C(b)
                        if b:
                            out += copy_or_move(I, s, F(p, "#val"), vt, ("obj", F(src, "#val")))
                        else:
                            out.append(s)
                    return out
            I.copyobj(st, src, p)
            st.m[F(p, "#has")] = has
            return [st]
        I.setobj(st, p, ("opt", st.n)); st.n += 1
        st.m[F(p, "#has")] = TRUE
        if a0.startswith("std::in_place_t") or a0 == "const std::in_place_t":
            return put_constructed(I, st, F(p, "#val"), vt, vs[1:], argn[1:])
        return put_constructed(I, st, F(p, "#val"), vt, vs[:1], argn[:1])
    if sc in EXP:
        vt = targ0(t)
        if not vs:
            I.setobj(st, p, ("exp", st.n)); st.n += 1
            st.m[F(p, "#has")] = TRUE
            if strip_targs(base_type(vt or "")) == "score::cpp::span":
                return span_construct(I, st, F(p, "#val"), [], [], f)
            if vt and vt != "void" and not I.is_class(base_type(vt)):
                st.m[F(p, "#val")] = NULL if vt.endswith("*") else FALSE
            return [st]
        at = base_type(I.argtype(argn[0])) if argn and argn[0] else base_type(pt[0]) if pt else ""
        sat = strip_targs(at); spt = strip_targs(base_type(pt[0])) if pt else ""
        if spt == "score::cpp::unexpect_t":
            I.setobj(st, p, ("exp", st.n)); st.n += 1
            st.m[F(p, "#has")] = FALSE
            put(I, st, F(p, "#err"), vs[1] if len(vs) > 1 else ("unk",))
            return [st]
        if sat in UNEXP or spt in UNEXP:
            src = src_place(I, st, vs[0])
            I.setobj(st, p, ("exp", st.n)); st.n += 1
            st.m[F(p, "#has")] = FALSE
            I.copyobj(st, F(src, "#err"), F(p, "#err"))
            return [st]
        if sat in EXP or spt in EXP:
            src = src_place(I, st, vs[0])
            has = I.read(st, F(src, "#has"))
            I.copyobj(st, src, p)
            st.m[F(p, "#has")] = has
            return [st]
        I.setobj(st, p, ("exp", st.n)); st.n += 1
        st.m[F(p, "#has")] = TRUE
        a = list(vs)
        if spt == "std::in_place_t":
            a = a[1:]; argn = argn[1:]
        return put_constructed(I, st, F(p, "#val"), vt, a, argn)
    if sc in UNEXP:
        if kind in ("copyctor", "movector") or (argn and argn[0] and strip_targs(base_type(I.argtype(argn[0]))) in UNEXP):
            I.copyobj(st, src_place(I, st, vs[0]), p)
            return [st]
        I.setobj(st, p, ("unexp", st.n)); st.n += 1
        if vs:
            put(I, st, F(p, "#err"), vs[0])
        return [st]
    if sc in UPTR or sc in SPTR:
        return ptr_construct(I, st, p, t, sc, f, vs, argn)
    if sc in REFW:
        if kind in ("copyctor", "movector"):
            I.copyobj(st, src_place(I, st, vs[0]), p)
        else:
            I.setobj(st, p, ("refw", st.n)); st.n += 1
            st.m[F(p, "#ref")] = mkaddr(src_place(I, st, vs[0]))
        return [st]
    if sc in FUN:
        I_place = None
        if not vs or (pt and base_type(pt[0]).startswith("std::nullptr_t")):
            I.setobj(st, p, ("fun", st.n)); st.n += 1
            st.m[F(p, "#set")] = FALSE
            return [st]
        if kind in ("copyctor", "movector") or (argn and argn[0] and strip_targs(base_type(I.argtype(argn[0]))) == sc):
            src = src_place(I, st, vs[0])
            I.copyobj(st, src, p)
            if kind == "movector" or (pt and pt[0].rstrip().endswith("&&")):
                I.kill(st, src)
                st.m[("B", src)] = ("moved", st.n); st.n += 1
                st.m[F(src, "#set")] = FALSE
            return [st]
        a = vs[-1]
        at = base_type(I.argtype(argn[-1])) if argn and argn[-1] else ""
        if strip_targs(at) in FUN and a[0] in ("ref", "obj"):
            I.copyobj(st, a[1], p)
            return [st]
        I.setobj(st, p, ("fun", st.n)); st.n += 1
        st.m[F(p, "#set")] = TRUE
        if len(vs) > 1:
            put(I, st, F(p, "#scope"), vs[0])
        put(I, st, F(p, "#fn"), a)
        if a[0] not in ("ref", "obj"):
            st.m[F(p, "#fn")] = a
        return [st]
    if sc in SCOPEEXIT:
        if kind == "movector":
            src = src_place(I, st, vs[0])
            I.copyobj(st, src, p)
            I.kill(st, src)
            st.m[F(src, "#armed")] = FALSE
            return [st]
        I.setobj(st, p, ("sexit", st.n)); st.n += 1
        if not vs:
            st.m[F(p, "#armed")] = FALSE
            return [st]
        st.m[F(p, "#armed")] = TRUE
        put(I, st, F(p, "#fn"), vs[0])
        return [st]
    if sc in GUARD:
        if not vs:
            I.setobj(st, p, ("guard", st.n)); st.n += 1
            st.m[F(p, "#owns")] = FALSE
            st.m[F(p, "#m")] = NULL
            return [st]
        if kind == "movector":
            src = src_place(I, st, vs[0])
            for n in ("#owns", "#m", "#n"):
                if F(src, n) in st.m or n != "#n":
                    st.m[F(p, n)] = I.read(st, F(src, n))
            st.m[F(src, "#owns")] = FALSE
            return [st]
        I.setobj(st, p, ("guard", st.n)); st.n += 1
        tag = strip_targs(base_type(pt[-1])) if pt else ""
        ms = vs
        mode = "lock"
        if tag in ("std::defer_lock_t", "std::adopt_lock_t", "std::try_to_lock_t"):
            ms = vs[:-1]; mode = tag
        if sc == "std::scoped_lock" and pt and strip_targs(base_type(pt[0])) == "std::adopt_lock_t":
            ms = vs[1:]; mode = "std::adopt_lock_t"
        ps = [src_place(I, st, v) for v in ms]
        shared = sc == "std::shared_lock"
        st.m[F(p, "#m")] = mkaddr(ps[0]) if ps else NULL
        if len(ps) > 1:
            st.m[F(p, "#n")] = C(len(ps))
            for i, q in enumerate(ps):
                st.m[F(p, "#m%d" % i)] = mkaddr(q)
        if mode == "std::defer_lock_t":
            st.m[F(p, "#owns")] = FALSE
            return [st]
        if mode == "std::try_to_lock_t":
            r = I.fresh(st, "trylock")
            out = []
            for s, b in I.branch(st, r):
                s.m[F(p, "#owns")] = C(b)
                if b:
                    do_lock(I, s, ps[0], shared, argn[0] if argn else None)
                out.append(s)
            return out
        st.m[F(p, "#owns")] = TRUE
        if mode == "lock":
            cur = [st]
            for i, q in enumerate(ps):
                nx = []
                for s in cur:
                    nx += do_lock(I, s, q, shared, argn[i] if i < len(argn) else None)
                cur = nx
            return cur
        return [st]
    if sc in ATOM:
        I.setobj(st, p, ("atomic", st.n)); st.n += 1
        if vs:
            put(I, st, F(p, "#v"), vs[0])
            if not I.is_class(targ0(t)):
                st.m[F(p, "#v")] = I.scal(st, vs[0])
        return [st]
    if sc == "std::pair" or sc == "std::tuple":
        if kind in ("copyctor", "movector"):
            src = src_place(I, st, vs[0])
            return move_tuple(I, st, src, p, t, kind)
        at = strip_targs(base_type(I.argtype(argn[0]))) if argn and argn[0] else ""
        if len(vs) == 1 and at in ("std::pair", "std::tuple") and sc in ("std::pair", "std::tuple") and strip_targs(targ0(t)) != at:
            src = src_place(I, st, vs[0])
            I.copyobj(st, src, p)
            return [st]
        I.setobj(st, p, ("tup", st.n)); st.n += 1
        if pt and strip_targs(base_type(pt[0])) == "std::piecewise_construct_t":
            out = [st]
            for i, n in ((1, "first"), (2, "second")):
                nx = []
                for s in out:
                    src = src_place(I, s, vs[i])
                    k = 0
                    av = []
                    while ("F", src, "#%d" % k) in s.m:
                        x = s.m[("F", src, "#%d" % k)]
                        av.append(("ref", mkP(x)) if x[0] == "addr" else x)
                        k += 1
                    nx += put_constructed(I, s, F(p, n), targ0(t, i - 1), av, [None] * len(av))
                out = nx
            return out
        cur = [st]
        for i, v in enumerate(vs):
            n = ("first", "second")[i] if sc == "std::pair" else "#%d" % i
            et = targ0(t, i)
            nx = []
            for s in cur:
                if is_ref(et):
                    s.m[F(p, n)] = mkaddr(src_place(I, s, v))
                    nx.append(s)
                elif base_type(I.argtype(argn[i]) if argn[i] else "") == base_type(et):
                    nx += copy_or_move(I, s, F(p, n), et, v, argn[i])
                else:
                    nx += put_constructed(I, s, F(p, n), et, [v], [argn[i]])
            cur = nx
        if not vs:
            for i, n in enumerate(("first", "second") if sc == "std::pair" else ["#%d" % k for k in range(8)]):
                et = targ0(t, i)
                if et and not I.is_class(et):
                    st.m[F(p, n)] = FALSE if not et.endswith("*") else NULL
        return cur
    if sc in STR:
        if kind == "defctor" or not vs:
            I.setobj(st, p, ("str", ""))
            return [st]
        v = I.argval(st, vs[0])
        if len(vs) == 1 or (len(vs) == 2 and strip_targs(base_type(pt[-1])).startswith("std::allocator")):
            I.setobj(st, p, ("str", v[1]) if v[0] == "str" else v)
        else:
            av = tuple(I.argval(st, x) for x in vs)
            I.setobj(st, p, ("strof",) + av)
        return [st]
    if sc in SEQ or sc in MAP or sc in SET:
        if kind in ("copyctor", "movector"):
            src = src_place(I, st, vs[0])
            I.copyobj(st, src, p)
            if kind == "movector" and sc not in ("score::cpp::span", "std::array", "std::initializer_list"):
                I.setobj(st, src, ("movedc", st.n)); st.n += 1
                st.m[F(src, "#size")] = FALSE
            return [st]
        if sc == "score::cpp::span":
            return span_construct(I, st, p, vs, argn, f)
        if sc == "std::array":
            I.setobj(st, p, ("arr", st.n)); st.n += 1
            m = re.match(r"\d+", targ0(t, 1))
            if m:
                st.m[F(p, "#size")] = C(int(m.group(0)))
            return [st]
        at0 = base_type(I.argtype(argn[0]) if argn[0] else "") if vs else ""
        if strip_targs(at0) == "std::initializer_list" or at0.endswith("]") and pt and strip_targs(base_type(pt[0])) == "std::initializer_list":
            src = src_place(I, st, vs[0])
            I.copyobj(st, src, p)
            if sc in SET and isc(st.m.get(F(p, "#size"), VOID)): st.m[F(p, "#tab")] = TRUE
            if sc in MAP:
                return [mapinit(I, st, src, p)]
            return [st]
        if vs and strip_targs(base_type(I.argtype(argn[0]) if argn[0] else "")) == "score::containers::DynamicArray":
            I.copyobj(st, src_place(I, st, vs[0]), p)
            return [st]
        I.setobj(st, p, ("cont", st.n)); st.n += 1
        st.m[F(p, "#size")] = FALSE
        if vs and sc in SEQ and pt and I.ibits(pt[0]):
            st.m[F(p, "#size")] = I.scal(st, vs[0])
            if sc == "score::containers::NonRelocatableVector":
                st.m[F(p, "#cap")] = I.scal(st, vs[0])
                st.m[F(p, "#size")] = FALSE
            n = I.scal(st, vs[0])
            if sc == "std::vector" and len(vs) > 1 and isc(n) and 0 < n[1] <= 8 and base_type(pt[1]) == base_type(targ0(t)):
                for k in range(n[1]): put(I, st, ("E", p, C(k)), vs[1], targ0(t))
        elif len(vs) >= 2 and (base_type(pt[0]).endswith("*") or strip_targs(base_type(pt[0])).startswith(("std::_", "__gnu"))):
            a, b = [itval(I, st, v) for v in vs[:2]]
            if sc in SEQ | SET and a[0] == "it" and b[0] == "it" and a[1] == b[1] is not None and isc(a[2]) and isc(b[2]) and 0 <= b[2][1] - a[2][1] <= 8:
                for k in range(b[2][1] - a[2][1]): put(I, st, ("E", p, C(k)), ("ref", epl(I, st, a[1], C(a[2][1] + k))), targ0(t))
                st.m[F(p, "#size")] = C(b[2][1] - a[2][1])
                if sc in SET: st.m[F(p, "#tab")] = TRUE
                return [st]
            st.m[F(p, "#size")] = I.fresh(st, "size")
            I.emit(st, "call", f=sc + "::" + sc.rsplit("::", 1)[-1], u="", o=p, a=[I.argval(st, v) for v in vs], ap=[], res=None)
        return [st]
    if sc.startswith(IT):
        if vs:
            put(I, st, p, vs[0])
        else:
            I.setobj(st, p, ("it", None, None))
        return [st]
    if sc in VAR:
        if kind in ("copyctor", "movector"):
            I.copyobj(st, src_place(I, st, vs[0]), p)
            return [st]
        I.setobj(st, p, ("var", st.n)); st.n += 1
        if not vs:
            st.m[F(p, "#alt")] = ("str", base_type(targ0(t, 0)))
            return [st]
        at = base_type(I.argtype(argn[0])) if argn and argn[0] else ""
        a = vs; an = argn
        if strip_targs(at).startswith("std::in_place_type_t"):
            at = base_type(targ0(at)); a = vs[1:]; an = argn[1:]
        at = alt_of(t, at)
        st.m[F(p, "#alt")] = ("str", at)
        return put_constructed(I, st, F(p, "#T:" + at), at, a, an)
    if sc == "score::result::Error":
        if kind in ("copyctor", "movector"):
            I.copyobj(st, src_place(I, st, vs[0]), p)
        elif kind == "defctor":
            return None
        else:
            I.setobj(st, p, ("error",) + tuple(I.argval(st, v) for v in vs))
        return [st]
    if sc == "score::cpp::vf_overload":
        return None
    if sc in ("std::default_delete", "std::allocator", "std::equal_to", "std::hash", "std::less"):
        return [st]
    if sc in PURE_CTOR and kind not in ("copyctor", "movector"):
        I.setobj(st, p, ("obj", sc, tuple(I.argval(st, v) for v in vs)))
        return [st]
    if sc in PURE_CTOR:
        I.copyobj(st, src_place(I, st, vs[0]), p)
        return [st]
    return None


def alt_of(t, at):
    """alternative of variant type t selected for an initialiser of type at"""
    i = 0; alts = []
    while True:
        a = targ0(t, i)
        if not a:
            break
        alts.append(base_type(a)); i += 1
    if at in alts:
        return at
    for a in alts:
        if strip_targs(a) == strip_targs(at):
            return a
    return at


def mapinit(I, st, src, p):
    n = st.m.get(F(src, "#size"))
    st.m[F(p, "#size")] = n if n is not None else I.fresh(st, "size")
    st.m[F(p, "#static")] = TRUE
    return st


def move_tuple(I, st, src, dst, t, kind):
    cur = [st]
    names = ["first", "second"] if strip_targs(base_type(t)) == "std::pair" else ["#%d" % i for i in range(12)]
    I.copyobj(st, src, dst)
    for i, n in enumerate(names):
        et = targ0(t, i)
        if not et:
            break
        c = I.db.C.get(base_type(et))
        if kind == "movector" and not is_ref(et) and (strip_targs(base_type(et)) in UPTR | SPTR or (c is not None and c.get("repo") and not c.get("tc"))):
            nx = []
            for s in cur:
                I.kill(s, F(dst, n))
                nx += copy_or_move(I, s, F(dst, n), et, ("obj", F(src, n)))
            cur = nx
    return cur


def span_construct(I, st, p, vs, argn, f):
    I.setobj(st, p, ("span", st.n)); st.n += 1
    if not vs:
        st.m[F(p, "#data")] = NULL
        st.m[F(p, "#size")] = FALSE
        return [st]
    at = base_type(I.argtype(argn[0])) if argn[0] else ""
    v = vs[0]
    if at.endswith("*") or len(vs) == 2:
        st.m[F(p, "#data")] = I.scal(st, v)
        st.m[F(p, "#size")] = I.scal(st, vs[1]) if len(vs) > 1 else I.fresh(st, "size")
        return [st]
    src = src_place(I, st, v)
    if strip_targs(at) == "score::cpp::span":
        I.copyobj(st, src, p)
        return [st]
    st.m[F(p, "#data")] = mkaddr(src)
    st.m[F(p, "#size")] = size_of(I, st, src)
    return [st]


def size_of(I, st, p):
    v = I.read(st, F(p, "#size"))
    if not isc(v):
        I.unsigned.add(v)
    return v


def do_lock(I, st, m, shared, node):
    if I.relock and any(e.k == "unlock" and e.m == m for e in st.tr):
        havoc_shared(I, st)
    I.emit(st, "lock", m=m, shared=shared)
    st.lt.append((m, shared))
    return [st]


def do_unlock(I, st, m):
    I.emit(st, "unlock", m=m)
    for i in range(len(st.lt) - 1, -1, -1):
        if st.lt[i][0] == m:
            del st.lt[i]
            break
    return st


def ptr_construct(I, st, p, t, sc, f, vs, argn):
    pt = f.get("pt") or []
    kind = f.get("kind")
    if not vs or (pt and base_type(pt[0]) in ("std::nullptr_t", "nullptr_t")):
        I.setobj(st, p, ("ptr", st.n)); st.n += 1
        st.m[F(p, "#ptr")] = NULL
        return [st]
    at = strip_targs(base_type(I.argtype(argn[0]))) if argn and argn[0] else ""
    spt = strip_targs(base_type(pt[0])) if pt else ""
    if kind in ("copyctor", "movector") or spt in UPTR | SPTR or at in UPTR | SPTR:
        src = src_place(I, st, vs[0])
        v = I.read(st, F(src, "#ptr"))
        I.setobj(st, p, ("ptr", st.n)); st.n += 1
        if sc in SPTR and len(vs) == 2:
            st.m[F(p, "#ptr")] = I.scal(st, vs[1])      # aliasing constructor
            return [st]
        st.m[F(p, "#ptr")] = v
        for k in ("#deleter",):
            if F(src, k) in st.m or any(under(x, F(src, k)) for x in st.m if x[0] not in ("B", "R")):
                I.copyobj(st, F(src, k), F(p, k))
        if kind == "movector" or (pt and pt[0].rstrip().endswith("&&")):
            st.m[F(src, "#ptr")] = NULL
        return [st]
    I.setobj(st, p, ("ptr", st.n)); st.n += 1
    st.m[F(p, "#ptr")] = I.scal(st, vs[0])
    if len(vs) > 1 and sc in UPTR:
        put(I, st, F(p, "#deleter"), vs[1])
    return [st]


# ------------------------------------------------------------------------------------------------ destruction
def destroy(I, st, p, t, sc):
    if sc in UPTR:
        v = I.read(st, F(p, "#ptr"))
        return release_ptr(I, st, v, targ0(t), F(p, "#deleter"))
    if sc in SPTR:
        if sc in ("std::shared_ptr", "std::__shared_ptr"):
            v = I.read(st, F(p, "#ptr"))
            if v != NULL and I.rel(st, "==", v, NULL) is not True:
                I.emit(st, "shared_release", ptr=v, t=targ0(t))
        return [st]
    if sc in OPT:
        vt = targ0(t)
        has = I.read(st, F(p, "#has"))
        if not needs(I, vt):
            return [st]
        out = []
        for s, b in I.branch(st, has):
            out += I.destroy(s, F(p, "#val"), vt) if b else [s]
        return out
    if sc in EXP:
        vt = targ0(t)
        if not needs(I, vt):
            return [st]
        has = I.read(st, F(p, "#has"))
        out = []
        for s, b in I.branch(st, has):
            out += I.destroy(s, F(p, "#val"), vt) if b else [s]
        return out
    if sc in ("std::pair", "std::tuple"):
        cur = [st]
        names = ["first", "second"] if sc == "std::pair" else ["#%d" % i for i in range(12)]
        for i, n in reversed(list(enumerate(names))):
            et = targ0(t, i)
            if et and not is_ref(et) and needs(I, et):
                nx = []
                for s in cur:
                    nx += I.destroy(s, F(p, n), et)
                cur = nx
        return cur
    if sc in GUARD:
        owns = I.read(st, F(p, "#owns"))
        out = []
        for s, b in I.branch(st, owns):
            if b:
                n = s.m.get(F(p, "#n"))
                if n is not None:
                    for i in range(n[1]):
                        do_unlock(I, s, mkP(s.m[F(p, "#m%d" % i)]))
                else:
                    m = I.read(s, F(p, "#m"))
                    if m != NULL:
                        do_unlock(I, s, mkP(m))
            out.append(s)
        return out
    if sc in SCOPEEXIT:
        armed = I.read(st, F(p, "#armed"))
        out = []
        for s, b in I.branch(st, armed):
            if b:
                out += [x for x, _ in I.invoke(s, ("ref", F(p, "#fn")), [], [])]
            else:
                out.append(s)
        return out
    if sc in FUN or sc in STR or sc in UNEXP or sc in REFW or sc in ATOM or sc.startswith(IT) or sc.startswith(("score::result::", "std::allocator", "std::basic_", "std::__cxx11", "score::filesystem", "std::chrono", "score::json", "std::exception",
                                                                        "score::mw::log", "std::ostringstream", "std::stringstream", "score::cpp::pmr::polymorphic_allocator")):
        return [st]
    if sc in VAR:
        I.emit(st, "dtor", t=t, p=p)
        return [st]
    if sc in SEQ or sc in MAP or sc in SET:
        n = I.read(st, F(p, "#size"))
        et = targ0(t)
        if isc(n) and n[1] <= 4 and sc in SEQ and needs(I, et) and sc != "score::cpp::span":
            cur = [st]
            for i in range(n[1]):
                nx = []
                for s in cur:
                    nx += I.destroy(s, ("E", p, C(i)), et)
                cur = nx
            return cur
        if not (isc(n) and n[1] == 0) and sc != "score::cpp::span":
            I.emit(st, "dtor", t=t, p=p)
        return [st]
    if "(lambda at" in t or t.startswith("(lambda") or "lambda" in t:
        return [st]
    return None


def needs(I, t):
    t = base_type(t)
    if not t or not I.is_class(t) or t == "score::cpp::blank" or t == "void":
        return False
    sc = strip_targs(t)
    if sc in UPTR or sc in SPTR or sc in GUARD or sc in SCOPEEXIT:
        return True
    if sc in OPT | EXP | PAIR or sc in SEQ:
        i = 0
        while targ0(t, i):
            if needs(I, targ0(t, i)):
                return True
            i += 1
            if i > 8: break
        return False
    if sc in STR or sc in FUN or sc in REFW:
        return False
    c = I.db.C.get(t)
    return bool(c and c.get("repo") and not c.get("td"))


def release_ptr(I, st, v, t, deleter=None):
    """unique_ptr gives up its pointee -> states"""
    if v == NULL:
        return [st]
    r = I.rel(st, "==", v, NULL)
    if r is True:
        return [st]
    out = []
    for s, b in (I.branch(st, ("op", "!", ("op", "==") + I.canon(v, NULL))) if r is None and v[0] != "addr" else [(st, True)]):
        if not b:
            out.append(s)
            continue
        if deleter is not None and any(under(x, deleter) for x in s.m if x[0] not in ("B", "R")):
            out += [x for x, _ in I.invoke(s, ("ref", deleter), [v], [])]
            continue
        I.emit(s, "delete", p=mkP(v), t=t)
        if v[0] == "addr":
            out += I.destroy(s, mkP(v), t)
        else:
            out.append(s)
    return out


# ------------------------------------------------------------------------------------------------ calls
def opt_place(I, st, op):
    return F(op, "#val")


def ret_ref(st, p):
    return [(st, ("ref", p))]


def elem(I, st, op, idx):
    """place of element idx of container place op"""
    d = st.m.get(F(op, "#data"))
    if d is not None:
        return ("E", mkP(d), idx)
    return epl(I, st, op, idx)


def epl(I, st, c, idx):
    """element place; the elements of an intrusive list are objects living elsewhere, whatever their position"""
    if c in I.intrusive:
        v = st.m.get(F(c, "#lver"), ("c", 0))[1]
        return mkP(I.read(st, F(("E", c, idx), "#link%d" % v)))
    return ("E", c, idx)


def setlink(I, st, c, idx, p):
    st.m[F(("E", c, idx), "#link%d" % st.m.get(F(c, "#lver"), ("c", 0))[1])] = mkaddr(p)


def relink(I, st, c):
    """positions in the list c changed"""
    if c in I.intrusive:
        st.n += 1
        st.m[F(c, "#lver")] = ("c", st.n)


def spanlike(e, f):
    return strip_targs(f.get("c") or "") == "score::cpp::span"


def elem_of(I, st, f, op, idx):
    if spanlike(None, f):
        return ("E", mkP(I.read(st, F(op, "#data"))), idx)
    return ("E", op, idx)


def itval(I, st, v):
    x = I.scal(st, v) if v[0] not in ("ref", "obj") else (st.m.get(v[1]) if st.m.get(v[1]) is not None and st.m.get(v[1])[0] in ("it", "rit") else I.read(st, v[1]))
    return x


def deref_it(I, st, x, t):
    """place an iterator term refers to"""
    if x[0] == "it" and x[1] is not None:
        return epl(I, st, x[1], x[2])
    if x[0] == "rit":
        return epl(I, st, x[1], I.binop(st, "-", x[2], TRUE, "unsigned long"))
    return ("P", x)


def it_binop(I, st, op, a, b):
    if a[0] == "rit" and b[0] == "rit" and a[1] == b[1]:
        return it_binop(I, st, op, ("it", b[1], b[2]), ("it", a[1], a[2])) if op not in ("==", "!=") else I.binop(st, op, a[2], b[2], "unsigned long")
    if a[0] == "it" and b[0] == "it" and a[1] == b[1]:
        x, y = a[2], b[2]
        size = I.read(st, F(a[1], "#size")) if a[1] is not None else None
        if op in ("==", "!="):
            # k == size is, for forward iteration, the negation of k < size
            r = None
            for k, n in ((x, y), (y, x)):
                if n == size and not isc(n) and k != n:
                    r = I.neg(I.binop(st, "<", k, n, "unsigned long"))
                    break
            if r is None:
                r = I.binop(st, "==", x, y, "unsigned long")
            return r if op == "==" else I.neg(r)
        if op == "-":
            return I.binop(st, "-", x, y, "long")
        return I.binop(st, op, x, y, "long")
    if op == "!=":
        return I.neg(I.binop(st, "==", a, b))
    return I.binop(st, op, a, b, "long")


def set_it(st, p, x):
    st.m[("B", p)] = x
    st.m.pop(p, None)


def range_of(I, st, a, b):
    """container and bounds of the iterator range [a, b)"""
    x, y = itval(I, st, a), itval(I, st, b)
    if x[0] == "it" and y[0] == "it":
        return x[1], x[2], y[2]
    return ("P", x), FALSE, ("rsize", x, y)


def algo(I, st, name, vs, argn):
    c, lo, hi = range_of(I, st, vs[0], vs[1])
    if not isc(hi):
        I.unsigned.add(hi)
    pred = vs[2] if len(vs) > 2 else None
    out = []

    def nonempty(s, k, h):
        return I.branch(s, I.binop(s, "<", k, h, "unsigned long"))

    if name in ("find_if", "any_of", "none_of", "all_of", "find", "find_if_not"):
        neg = name in ("all_of", "find_if_not")
        # up to two symbolic elements, then the exhausted range
        cur = [(st, lo)]
        for rnd in range(I.loops + 1):
            nx = []
            for s, k in cur:
                for s2, b in nonempty(s, k, hi):
                    if not b:
                        out.append((s2, None)); continue
                    if rnd == I.loops:
                        s2.flags.add("widened")
                        k2 = I.fresh(s2, "idx")
                        kk = k2
                        s3 = s2.copy()
                        out.append((s3, None))
                        I.unsigned.add(k2)
                        if not I.assume(s2, I.binop(s2, "<", k2, hi, "unsigned long"), True) or not I.assume(s2, I.binop(s2, "<", k2, k, "unsigned long"), False): continue
                    else:
                        kk = k
                    el = ("ref", epl(I, s2, c, kk))
                    if name == "find":
                        rs = [(s2, I.binop(s2, "==", I.scal(s2, el), I.argval(s2, pred)))]
                    else:
                        rs = [(x, I.scal(x, v)) for x, v in I.invoke(s2, pred, [el], [None])]
                    for s3, v in rs:
                        for s4, t in I.branch(s3, v):
                            if t != neg:
                                out.append((s4, kk))
                            elif rnd < I.loops:
                                nx.append((s4, I.binop(s4, "+", kk, TRUE, "unsigned long")))
            cur = nx
        res = []
        for s, k in out:
            if name in ("find_if", "find", "find_if_not"):
                p = I.tmp(s)
                set_it(s, p, ("it", c, hi if k is None else k))
                res.append((s, ("obj", p)))
            elif name == "any_of":
                res.append((s, C(k is not None)))
            elif name == "all_of":
                res.append((s, C(k is None)))
            else:
                res.append((s, C(k is None)))
        return res
    if name == "for_each":
        cur = [(st, lo)]
        for rnd in range(I.loops + 1):
            nx = []
            for s, k in cur:
                for s2, b in nonempty(s, k, hi):
                    if not b:
                        out.append((s2, VOID)); continue
                    if rnd == I.loops:
                        s2.flags.add("widened")
                        out.append((s2, VOID)); continue
                    for s3, _ in I.invoke(s2, pred, [("ref", epl(I, s2, c, k))], [None]):
                        nx.append((s3, I.binop(s3, "+", k, TRUE, "unsigned long")))
            cur = nx
        return [(s, pred) for s, _ in out]
    return None


def call(I, st, e, f, sq, op, vs, argn, dst):
    n = sq.rsplit("::", 1)[-1]
    k = sq.find("::operator ")
    if k >= 0 and sq[k + 11:k + 14] not in ("new", "del"):
        n = sq[k + 2:]                     # conversion operator
    c = cls_of(f)
    if c is None:
        return free_call(I, st, e, f, sq, n, vs, argn, dst)
    if op is not None and F(op, "#txt") in st.m:
        if n == "operator<<":
            return stream_out(I, st, op, vs[0], argn[0], (f.get("pt") or [""])[0])
        if n == "str" and not vs:
            return [(st, st.m[F(op, "#txt")])]
        if n == "str":
            st.m[F(op, "#txt")] = ("cat", I.argval(st, vs[0]))
            return [(st, VOID)]
        if n in ("width", "fill") and vs:
            st.m[F(op, "#" + n)] = I.scal(st, vs[0])
            return [(st, VOID)]
    # ---- conversions / members
    if c in OPT:
        return optional(I, st, e, f, n, op, vs, argn)
    if c in EXP:
        return expected(I, st, e, f, n, op, vs, argn)
    if c in UNEXP:
        if n in ("error", "value"):
            return ret_ref(st, F(op, "#err"))
        if n == "operator=":
            I.copyobj(st, src_place(I, st, vs[0]), op)
            return ret_ref(st, op)
        return None
    if c in UPTR or c in SPTR:
        return smart(I, st, e, f, n, op, vs, argn, c)
    if c in REFW:
        if n == "get" or n.startswith("operator"):
            if n == "operator=":
                I.copyobj(st, src_place(I, st, vs[0]), op)
                v = st.m.get(F(src_place(I, st, vs[0]), "#ref"))
                if v is not None: st.m[F(op, "#ref")] = v
                if not I.local(op): I.emit(st, "wr", p=op, v=I.read(st, F(op, "#ref")))
                return ret_ref(st, op)
            if n == "operator()":
                return I.invoke(st, ("ref", mkP(I.read(st, F(op, "#ref")))), vs, argn)
            return ret_ref(st, mkP(I.read(st, F(op, "#ref"))))
    if c in FUN:
        return function(I, st, e, f, n, op, vs, argn)
    if c in GUARD:
        return guard(I, st, e, f, n, op, vs, c)
    if c in ("std::mutex", "std::recursive_mutex", "std::shared_mutex", "std::timed_mutex", "std::shared_timed_mutex", "std::__shared_mutex_pthread", "std::__mutex_base"):
        if n in ("lock", "lock_shared"):
            do_lock(I, st, op, n == "lock_shared", None); return [(st, VOID)]
        if n in ("unlock", "unlock_shared"):
            do_unlock(I, st, op); return [(st, VOID)]
        if n.startswith("try_lock"):
            out = []
            for s, b in I.branch(st, I.fresh(st, "trylock")):
                if b: do_lock(I, s, op, "shared" in n, None)
                out.append((s, C(b)))
            return out
    if c in ("std::condition_variable", "std::condition_variable_any"):
        return condvar(I, st, e, n, op, vs, argn)
    if c in ATOM:
        return atomic(I, st, e, f, n, op, vs, argn)
    if c == "score::concurrency::AtomicIndirectorReal" or c == "score::concurrency::AtomicIndirectorMock":
        return atomic(I, st, e, f, n, src_place(I, st, vs[0]), vs[1:], argn[1:])
    if (c in SEQ or c in MAP or c in SET) and op is None:
        return None
    if c in SEQ or c in MAP or c in SET:
        return container(I, st, e, f, sq, n, op, vs, argn, c)
    if c.startswith(IT):
        return iterator(I, st, e, f, n, op, vs, argn)
    if c in STR:
        return string(I, st, e, f, n, op, vs, argn)
    if c in ("std::pair", "std::tuple"):
        if n == "operator=":
            src = src_place(I, st, vs[0])
            a0 = base_type(f["pt"][0]) if f.get("pt") else ""
            if any(st.m.get(F(op, k), ("x",))[0] == "addr" for k in ("#0", "first")) and strip_targs(a0) in ("std::tuple", "std::pair"):
                # std::tie(...) = tuple
                for i in range(8):
                    k = F(op, "#%d" % i)
                    if k in st.m and st.m[k][0] == "addr":
                        s = F(src, "#%d" % i)
                        if s not in st.m and strip_targs(a0) == "std::pair":
                            s = F(src, ("first", "second")[i])
                        I.copyobj(st, s, mkP(st.m[k])); st.m[mkP(st.m[k])] = I.read(st, s)
                return ret_ref(st, op)
            I.copyobj(st, src, op)
            if not I.local(op): I.emit(st, "wr", p=op, v=I.read(st, src))
            return ret_ref(st, op)
        if n == "swap":
            return swap(I, st, ("ref", op), vs[0])
        return None
    if c == "std::variant":
        if n == "operator=":
            at = base_type(I.argtype(argn[0])) if argn and argn[0] else ""
            if strip_targs(at) == "std::variant":
                I.copyobj(st, src_place(I, st, vs[0]), op)
                if not I.local(op): I.emit(st, "wr", p=op, v=I.read(st, op))
                return ret_ref(st, op)
            I.kill(st, op)
            at = alt_of(f["c"], at)
            st.m[("B", op)] = ("var", st.n); st.n += 1
            st.m[F(op, "#alt")] = ("str", at)
            if not I.local(op): I.emit(st, "wr", p=op, v=I.argval(st, vs[0]))
            return [(s, ("ref", op)) for s in put_constructed(I, st, F(op, "#T:" + at), at, vs, argn)]
        if n == "index":
            return [(st, ("altidx", I.read(st, F(op, "#alt"))))]
        return None
    if c in SCOPEEXIT:
        if n in ("release", "Release", "dismiss"):
            st.m[F(op, "#armed")] = FALSE
            return [(st, VOID)]
        if n == "operator=":
            src = src_place(I, st, vs[0])
            out = []
            for s in destroy(I, st, op, "score::utils::ScopeExit", "score::utils::ScopeExit"):
                I.copyobj(s, src, op)
                I.kill(s, src); s.m[F(src, "#armed")] = FALSE
                out.append((s, ("ref", op)))
            return out
    if c == "std::numeric_limits":
        return None
    if c == "score::result::Error":
        if n in ("operator*", "operator int", "operator score::result::ErrorCode", "Message", "UserMessage"):
            return [(st, ("pure", sq, I.read(st, op), (), 0))]
        if n == "operator=":
            I.copyobj(st, src_place(I, st, vs[0]), op); return ret_ref(st, op)
    if c == "std::hash":
        return [(st, ("pure", "std::hash", targ0(f.get("c", "")) or None, tuple(I.argval(st, v) for v in vs), 0))]
    if c in ("std::equal_to",):
        return [(st, I.binop(st, "==", I.argval(st, vs[0]), I.argval(st, vs[1])))]
    if c == "score::cpp::vf_ignore" or c == "std::_Swallow_assign" or c.endswith("ignore_t"):
        if n == "operator=":
            return ret_ref(st, op) if op is not None else [(st, VOID)]
    if c.startswith("score::safe_math::"):
        if c.endswith("VfCast") or "Vf" in c:
            return expected(I, st, e, f, n, op, vs, argn)
        return None
    if c.startswith("std::chrono::"):
        if n in ("count", "time_since_epoch"):
            return [(st, ("pure", sq, I.read(st, op), (), 0))]
        if n == "now":
            return [(st, I.fresh(st, "now"))]
        if n == "operator=":
            put(I, st, op, vs[0]); return ret_ref(st, op)
        if n in ("zero", "min", "max"):
            return [(st, ("pure", sq, None, (), 0))]
        return [(st, ("pure", sq, I.read(st, op) if op is not None else None, tuple(I.argval(st, v) for v in vs), 0))]
    if f.get("kind") in ("copyassign", "moveassign") and not f.get("repo") and op is not None:
        I.copyobj(st, src_place(I, st, vs[0]), op)
        if not I.local(op):
            I.emit(st, "wr", p=op, v=I.read(st, op))
        return ret_ref(st, op)
    if n == "operator()" and op is not None and not f.get("repo"):
        r = I.call_lambda(st, op, vs, argn)
        if r is not None:
            return r
    if n == "operator()" and op is not None:
        r = I.call_lambda(st, op, vs, argn)
        if r is not None:
            return r
        return None
    return None


def assign_val(I, st, dst, t, v, node):
    """assign v to the (live) object at dst of type t, using the repository's assignment operator when there is one"""
    c = I.db.C.get(base_type(t))
    if c and c.get("repo") and v[0] in ("ref", "obj"):
        want = "copyassign"
        nn = node
        while nn is not None and nn.get("k") in ("full", "cast", "icast"):
            nn = nn.get("e")
        if v[0] == "obj" or (nn and (nn.get("k") == "tmp" or (nn.get("k") == "call" and nn.get("f") and strip_targs(nn["f"]["q"]) in ("std::move", "std::forward")))):
            want = "moveassign"
        for w in (want, "copyassign", "moveassign"):
            for m in c.get("m", ()):
                if m.get("kind") == w and m["u"] in I.db.F and not m.get("del"):
                    fn = I.db.F[m["u"]]
                    if fn.get("def"):
                        continue
                    return [s for s, _ in I.inline(fn, st, dst, [v], [node])]
    if strip_targs(base_type(t)) in UPTR:
        return [s for s, _ in smart(I, st, {}, {"c": t, "pt": [t + " &&"], "kind": "moveassign"}, "operator=", dst, [v], [node], "std::unique_ptr")]
    put(I, st, dst, v, t)
    return [st]


def optional(I, st, e, f, n, op, vs, argn):
    t = f["c"]
    vt = targ0(t)
    hasp = F(op, "#has")
    if n in ("has_value", "operator bool", "_M_is_engaged"):
        return [(st, I.read(st, hasp))]
    if n in ("value", "operator*", "operator->", "_M_get"):
        if n == "value":
            out = []
            for s, b in I.branch(st, I.read(st, hasp)):
                if b:
                    out.append((s, ("ref", F(op, "#val"))))
                else:
                    I.emit(s, "badopt", p=op)
                    I.fin.append((s, "badopt"))
            return out
        if I.truth(st, I.read(st, hasp)) is False:
            I.emit(st, "badopt", p=op)
            I.fin.append((st, "badopt"))
            return []
        if n == "operator->":
            return [(st, mkaddr(F(op, "#val")))]
        return ret_ref(st, F(op, "#val"))
    if n == "value_or":
        out = []
        for s, b in I.branch(st, I.read(st, hasp)):
            if not I.is_class(vt):
                out.append((s, I.read(s, F(op, "#val")) if b else I.scal(s, vs[0])))
            else:
                p = I.tmp(s)
                put(I, s, p, ("ref", F(op, "#val")) if b else vs[0])
                out.append((s, ("obj", p)))
        return out

    def clear(s):
        out = []
        if not needs(I, vt):
            return [s]
        for s2, b in I.branch(s, I.read(s, hasp)):
            out += I.destroy(s2, F(op, "#val"), vt) if b else [s2]
        return out

    def note(s, v):
        if not I.local(op):
            I.emit(s, "wr", p=op, v=v)
    if n == "reset":
        out = []
        for s in clear(st):
            I.kill(s, op); s.m[("B", op)] = ("opt", s.n); s.n += 1
            s.m[hasp] = FALSE
            note(s, ("nullopt",))
            out.append((s, VOID))
        return out
    if n == "emplace":
        out = []
        for s in clear(st):
            I.kill(s, op); s.m[("B", op)] = ("opt", s.n); s.n += 1
            s.m[hasp] = TRUE
            for s2 in put_constructed(I, s, F(op, "#val"), vt, vs, argn):
                note(s2, I.read(s2, F(op, "#val")))
                out.append((s2, ("ref", F(op, "#val"))))
        return out
    if n == "operator=":
        a0 = base_type((f.get("pt") or [""])[0])
        if a0.startswith("std::nullopt_t"):
            out = []
            for s in clear(st):
                I.kill(s, op); s.m[("B", op)] = ("opt", s.n); s.n += 1
                s.m[hasp] = FALSE
                note(s, ("nullopt",))
                out.append((s, ("ref", op)))
            return out
        if strip_targs(a0) == "std::optional":
            src = src_place(I, st, vs[0])
            if not needs(I, vt):
                h = I.read(st, F(src, "#has"))
                I.copyobj(st, src, op)
                st.m[hasp] = h
                note(st, I.read(st, src))
                return ret_ref(st, op)
            out = []
            for s, sb in I.branch(st, I.read(st, F(src, "#has"))):
                for s2, db in I.branch(s, I.read(s, hasp)):
                    if sb and db:
                        for s3 in assign_val(I, s2, F(op, "#val"), vt, ("obj", F(src, "#val")), None):
                            out.append((s3, ("ref", op)))
                    elif sb:
                        s2.m[hasp] = TRUE
                        for s3 in copy_or_move(I, s2, F(op, "#val"), vt, ("obj", F(src, "#val"))):
                            out.append((s3, ("ref", op)))
                    elif db:
                        for s3 in I.destroy(s2, F(op, "#val"), vt):
                            s3.m[hasp] = FALSE
                            out.append((s3, ("ref", op)))
                    else:
                        out.append((s2, ("ref", op)))
            for s, _ in out:
                note(s, I.read(s, src))
            return out
        # value assignment
        if needs(I, vt):
            out = []
            for s, b in I.branch(st, I.read(st, hasp)):
                if b:
                    for s2 in assign_val(I, s, F(op, "#val"), vt, vs[0], argn[0] if argn else None):
                        note(s2, I.argval(s2, vs[0]))
                        out.append((s2, ("ref", op)))
                else:
                    s.m[hasp] = TRUE
                    for s2 in put_constructed(I, s, F(op, "#val"), vt, vs, argn):
                        note(s2, I.argval(s2, vs[0]))
                        out.append((s2, ("ref", op)))
            return out
        I.kill(st, op); st.m[("B", op)] = ("opt", st.n); st.n += 1
        st.m[hasp] = TRUE
        out = []
        for s in put_constructed(I, st, F(op, "#val"), vt, vs, argn):
            note(s, I.read(s, F(op, "#val")))
            out.append((s, ("ref", op)))
        return out
    if n == "swap":
        return swap(I, st, ("ref", op), vs[0])
    return None


def expected(I, st, e, f, n, op, vs, argn):
    t = f["c"]
    vt = targ0(t)
    hasp = F(op, "#has")
    if n in ("has_value", "operator bool"):
        return [(st, I.read(st, hasp))]
    if n in ("value", "operator*", "operator->"):
        if n == "value" or True:
            if I.truth(st, I.read(st, hasp)) is False:
                I.emit(st, "badopt", p=op)
                I.fin.append((st, "badopt"))
                return []
            I.emit(st, "unwrap", p=op, has=I.read(st, hasp), known=I.truth(st, I.read(st, hasp)))
            I.assume(st, I.read(st, hasp), True)
        if base_type(vt) == "void":
            return [(st, VOID)]
        if n == "operator->":
            return [(st, mkaddr(F(op, "#val")))]
        return ret_ref(st, F(op, "#val"))
    if n == "error":
        return ret_ref(st, F(op, "#err"))
    if n == "value_or":
        out = []
        for s, b in I.branch(st, I.read(st, hasp)):
            if not I.is_class(vt):
                out.append((s, I.read(s, F(op, "#val")) if b else I.scal(s, vs[0])))
            else:
                p = I.tmp(s)
                put(I, s, p, ("ref", F(op, "#val")) if b else vs[0])
                out.append((s, ("obj", p)))
        return out
    if n == "operator=":
        at = strip_targs(base_type(I.argtype(argn[0]))) if argn and argn[0] else ""
        src = src_place(I, st, vs[0])
        if at in UNEXP:
            I.kill(st, op); st.m[hasp] = FALSE
            I.copyobj(st, F(src, "#err"), F(op, "#err"))
        elif at in EXP:
            h = I.read(st, F(src, "#has"))
            I.copyobj(st, src, op)
            st.m[hasp] = h
        else:
            I.kill(st, op); st.m[hasp] = TRUE
            put(I, st, F(op, "#val"), vs[0])
        if not I.local(op): I.emit(st, "wr", p=op, v=I.read(st, src))
        return ret_ref(st, op)
    if n in ("and_then", "transform", "or_else", "map"):
        out = []
        for s, b in I.branch(st, I.read(st, hasp)):
            if b == (n != "or_else"):
                a = ("ref", F(op, "#val")) if n != "or_else" else ("ref", F(op, "#err"))
                args = [] if base_type(vt) == "void" and n != "or_else" else [a]
                for s2, v in I.invoke(s, vs[0], args, [None] * len(args)):
                    if n in ("transform", "map"):
                        p = I.tmp(s2)
                        I.setobj(s2, p, ("exp", s2.n)); s2.n += 1
                        s2.m[F(p, "#has")] = TRUE
                        if v != VOID: put(I, s2, F(p, "#val"), v)
                        v = ("obj", p)
                    out.append((s2, v))
            else:
                p = I.tmp(s)
                I.setobj(s, p, ("exp", s.n)); s.n += 1
                s.m[F(p, "#has")] = C(b)
                if not b: I.copyobj(s, F(op, "#err"), F(p, "#err"))
                else: I.copyobj(s, F(op, "#val"), F(p, "#val")); s.m[F(p, "#val")] = I.read(s, F(op, "#val"))
                out.append((s, ("obj", p)))
        return out
    return None


def smart(I, st, e, f, n, op, vs, argn, c):
    pp = F(op, "#ptr")
    if n in ("get", "operator->", "_M_get"):
        return [(st, I.read(st, pp))]
    if n in ("operator*",):
        return ret_ref(st, mkP(I.read(st, pp)))
    if n == "operator[]":
        return ret_ref(st, ("E", mkP(I.read(st, pp)), I.scal(st, vs[0])))
    if n == "operator bool":
        return [(st, I.neg(I.binop(st, "==", I.read(st, pp), NULL)))]
    if n == "release":
        v = I.read(st, pp)
        st.m[pp] = NULL
        return [(st, v)]
    if n == "lock":
        p = I.tmp(st)
        I.setobj(st, p, ("ptr", st.n)); st.n += 1
        v = ("lockedptr", I.read(st, pp), st.n)
        st.m[F(p, "#ptr")] = v
        return [(st, ("obj", p))]
    if n == "expired":
        return [(st, I.fresh(st, "expired"))]
    if n == "use_count":
        return [(st, I.fresh(st, "use_count"))]
    if n == "get_deleter":
        return ret_ref(st, F(op, "#deleter"))
    if n == "swap":
        return swap(I, st, ("ref", op), vs[0])
    if n in ("reset", "operator="):
        old = I.read(st, pp)
        a0 = base_type((f.get("pt") or [""])[0]) if f.get("pt") else ""
        src = None
        if not vs or (a0 in ("std::nullptr_t", "nullptr_t")):
            new = NULL
        elif strip_targs(a0) in UPTR | SPTR or (n == "operator=" and vs[0][0] in ("ref", "obj")):
            src = src_place(I, st, vs[0])
            new = I.read(st, F(src, "#ptr"))
        else:
            new = I.scal(st, vs[0])
        st.m[pp] = new
        if src is not None and (f.get("kind") == "moveassign" or (f.get("pt") or [""])[0].rstrip().endswith("&&")) and src != op:
            st.m[F(src, "#ptr")] = NULL
        if not I.local(op):
            I.emit(st, "wr", p=op, v=new)
        out = []
        if c in UPTR and src != op:
            for s in release_ptr(I, st, old, targ0(f.get("c", "")), F(op, "#deleter")):
                out.append((s, ("ref", op)))
            return out
        if c in SPTR and old != NULL and c in ("std::shared_ptr", "std::__shared_ptr"):
            I.emit(st, "shared_release", ptr=old, t=targ0(f.get("c", "")))
        return ret_ref(st, op)
    return None


def function(I, st, e, f, n, op, vs, argn):
    if n == "operator()":
        return I.invoke(st, ("ref", op), vs, argn)
    if n in ("operator bool",):
        return [(st, I.read(st, F(op, "#set")))]
    if n == "empty":
        return [(st, I.neg(I.read(st, F(op, "#set"))))]
    if n == "operator=":
        a0 = base_type((f.get("pt") or [""])[0])
        if a0 in ("std::nullptr_t", "nullptr_t"):
            I.kill(st, op); st.m[("B", op)] = ("fun", st.n); st.n += 1
            st.m[F(op, "#set")] = FALSE
        else:
            src = src_place(I, st, vs[0])
            if st.m.get(F(src, "#lam")) is not None:
                I.kill(st, op); st.m[("B", op)] = ("fun", st.n); st.n += 1
                I.copyobj(st, src, F(op, "#fn")); st.m[F(op, "#set")] = TRUE
            else:
                I.copyobj(st, src, op)
                if f.get("kind") == "moveassign":
                    I.kill(st, src); st.m[("B", src)] = ("moved", st.n); st.n += 1
                    st.m[F(src, "#set")] = FALSE
        if not I.local(op):
            I.emit(st, "wr", p=op, v=I.read(st, op))
        return ret_ref(st, op)
    return None


def guard(I, st, e, f, n, op, vs, c):
    m = mkP(I.read(st, F(op, "#m")))
    shared = c == "std::shared_lock"
    if n == "lock":
        st.m[F(op, "#owns")] = TRUE
        do_lock(I, st, m, shared, None)
        return [(st, VOID)]
    if n == "unlock":
        st.m[F(op, "#owns")] = FALSE
        do_unlock(I, st, m)
        return [(st, VOID)]
    if n == "try_lock":
        out = []
        for s, b in I.branch(st, I.fresh(st, "trylock")):
            s.m[F(op, "#owns")] = C(b)
            if b: do_lock(I, s, m, shared, None)
            out.append((s, C(b)))
        return out
    if n in ("owns_lock", "operator bool"):
        return [(st, I.read(st, F(op, "#owns")))]
    if n == "mutex":
        return [(st, I.read(st, F(op, "#m")))]
    if n == "release":
        v = I.read(st, F(op, "#m"))
        st.m[F(op, "#owns")] = FALSE
        return [(st, v)]
    if n == "operator=":
        out = []
        for s in destroy(I, st, op, "std::unique_lock", "std::unique_lock"):
            src = src_place(I, s, vs[0])
            for k in ("#owns", "#m"):
                s.m[F(op, k)] = I.read(s, F(src, k))
            s.m[F(src, "#owns")] = FALSE
            out.append((s, ("ref", op)))
        return out
    return None


def havoc_shared(I, st):
    """another thread may have run: forget everything known about non-local memory"""
    for c in I.intrusive:
        relink(I, st, c)
    for k in list(st.m):
        p = k[1] if k[0] == "B" else k
        if k[0] == "R":
            continue
        if root(p)[0] in ("A", "P", "G"):
            # keep constructor-established references and constants of const globals
            if root(p)[0] == "G" or (k[0] != "B" and st.m[k][0] == "addr" and (root(st.m[k][1])[0] not in ("L", "T") or str(k[2]).startswith("#ref"))):
                continue
            del st.m[k]
            st.m[("B", p)] = I.fresh(st, "shared")
            if p[0] == "F" and p[2] == "#size": I.unsigned.add(st.m[("B", p)])
    # locals captured by reference in a closure may be written by whoever runs it
    esc, todo = set(), [v for k, v in st.m.items() if (k[0] == "F" and str(k[2]).startswith("#ref") or k[0] != "R" and root(k[1] if k[0] == "B" else k)[0] in ("A", "P", "G")) and v and v[0] == "addr"]
    while todo:
        p = todo.pop()[1]
        if root(p)[0] not in ("L", "T") or root(p) in esc:
            continue
        esc.add(root(p))
        todo += [v for k, v in st.m.items() if k[0] not in ("R",) and root(k[1] if k[0] == "B" else k) == root(p) and v and v[0] == "addr"]
    for k in list(st.m):
        p = k[1] if k[0] == "B" else k
        if k[0] != "R" and root(p) in esc and k[0] != "B" and st.m[k][0] not in ("addr", "lam") and not (k[0] == "F" and str(k[2]).startswith("#") and str(k[2]) not in ("#has", "#val", "#err", "#size", "#v")):
            del st.m[k]
            st.m[("B", p)] = I.fresh(st, "shared")
            if p[0] == "F" and p[2] == "#size": I.unsigned.add(st.m[("B", p)])
    seen = set()
    for t in list(st.f):
        for x in subterms(t):
            if x and x[0] in ("fld", "in") and x not in seen:
                seen.add(x)
                p = term_place(x)
                if p is not None and p[0] != "A" and root(p)[0] in ("A", "P", "G") and ("B", p) not in st.m and p not in st.m and I.read(st, p) == x:
                    st.m[("B", p)] = I.fresh(st, "shared")
                    if p[0] == "F" and p[2] == "#size": I.unsigned.add(st.m[("B", p)])


def term_place(t):
    """place whose entry value the term denotes"""
    if t[0] == "in":
        return t[1]
    if t[0] == "fld":
        b = term_place(t[1])
        return None if b is None else F(b, t[2])
    return None


def condvar(I, st, e, n, op, vs, argn):
    if n in ("notify_one", "notify_all"):
        I.emit(st, "notify", cv=op, all=n == "notify_all")
        return [(st, VOID)]
    if n in ("wait", "wait_for", "wait_until"):
        lk = src_place(I, st, vs[0])
        m = mkP(I.read(st, F(lk, "#m")))
        pred = vs[-1] if (n == "wait" and len(vs) > 1) or (n != "wait" and len(vs) > 2) else None
        out = []
        cur = [st]
        if pred is not None:
            cur = []
            for s, v in I.invoke(st, pred, [], []):
                for s2, b in I.branch(s, I.scal(s, v)):
                    if b:
                        I.emit(s2, "cvwait", cv=op, m=m, pred=True, timed=n != "wait", blocked=False)
                        out.append((s2, TRUE if n != "wait" else VOID))
                    else:
                        cur.append(s2)
        for s in cur:
            do_unlock(I, s, m)
            I.emit(s, "cvwait", cv=op, m=m, pred=pred is not None, timed=n != "wait", blocked=True)
            havoc_shared(I, s)
            do_lock(I, s, m, False, None)
            if pred is None:
                out.append((s, VOID if n == "wait" else I.fresh(s, "cvstatus")))
            else:
                for s2, v in I.invoke(s, pred, [], []):
                    for s3, b in I.branch(s2, I.scal(s2, v)):
                        if b:
                            out.append((s3, TRUE if n != "wait" else VOID))
                        elif n != "wait":
                            out.append((s3, FALSE))
        return out
    return None


def atomic(I, st, e, f, n, p, vs, argn):
    vp = F(p, "#v")
    shared = not I.local(p) and I.shared(p) and not any(under(p, o) for o in I.plain)
    sv = lambda v: I.scal(st, v)
    order = [I.scal(st, v) for v in vs if v[0] == "c" or True]
    at = targ0(f.get("c", "")) if strip_targs(f.get("c", "") or "") in ATOM else ""

    def load(s):
        if not shared:
            return I.read(s, vp)
        s.n += 1
        r = ("ld", p, s.n)
        b = I.ibits(at) if at else None
        if b and not b[1]:
            I.unsigned.add(r)
        return r
    if n == "load" or n.startswith("operator ") and n not in ("operator new",):
        r = load(st)
        I.emit(st, "aload", p=p, v=r, order=order[0] if n == "load" and order else None)
        return [(st, r)]
    if n in ("store", "operator="):
        v = sv(vs[0])
        if n == "operator=" and f.get("kind") in ("copyassign", "moveassign"):
            v = I.read(st, F(src_place(I, st, vs[0]), "#v"))
        st.m[vp] = v
        I.emit(st, "astore", p=p, v=v, order=order[1] if n == "store" and len(order) > 1 else None)
        return [(st, v)] if n == "operator=" else [(st, VOID)]
    if n in ("compare_exchange_strong", "compare_exchange_weak"):
        ep = src_place(I, st, vs[0])
        exp = I.read(st, ep)
        des = I.scal(st, vs[1])
        known = I.read(st, vp) if not shared else None
        out = []
        if known is not None:
            for s, b in I.branch(st, I.binop(st, "==", known, exp)):
                if b:
                    s.m[vp] = des
                else:
                    I.write(s, ep, known, quiet=True)
                I.emit(s, "cas", p=p, exp=exp, des=des, ok=b)
                out.append((s, C(b)))
            return out
        s2 = st.copy()
        st.m[vp] = des
        I.emit(st, "cas", p=p, exp=exp, des=des, ok=True, weak=n.endswith("weak"), ep=ep, order=order[2:])
        out.append((st, TRUE))
        s2.n += 1
        r = ("ld", p, s2.n)
        if exp in I.unsigned: I.unsigned.add(r)
        I.emit(s2, "cas", p=p, exp=exp, des=des, ok=False, weak=n.endswith("weak"), ep=ep, seen=r, order=order[2:])
        I.kill(s2, ep)
        s2.m[ep] = r
        s2.m[("B", ep)] = r
        out.append((s2, FALSE))
        return out
    if n in ("fetch_add", "fetch_sub", "fetch_or", "fetch_and", "fetch_xor", "operator++", "operator--", "operator+=", "operator-=", "operator|=", "operator&=", "exchange"):
        o = load(st)
        if n == "exchange":
            nv = sv(vs[0]); opn = "="
        elif n in ("operator++", "operator--"):
            opn = n[-1]; nv = I.binop(st, opn, o, TRUE, at or "unsigned long")
        else:
            opn = {"fetch_add": "+", "fetch_sub": "-", "fetch_or": "|", "fetch_and": "&", "fetch_xor": "^"}.get(n) or n[-2]
            nv = I.binop(st, opn, o, sv(vs[0]), at or "unsigned long")
        st.m[vp] = nv
        I.emit(st, "rmw", p=p, op=opn, old=o, new=nv, arg=sv(vs[0]) if vs and n not in ("operator++", "operator--") else TRUE, order=order[1] if n.startswith("fetch") and len(order) > 1 else None)
        if n in ("operator++", "operator--") and not vs or n in ("operator+=", "operator-=", "operator|=", "operator&="):
            return [(st, nv)]
        return [(st, o)]
    if n == "test_and_set":
        r = load(st)
        st.m[vp] = TRUE
        I.emit(st, "rmw", p=p, op="=", old=r, new=TRUE)
        return [(st, r)]
    if n == "clear":
        st.m[vp] = FALSE
        I.emit(st, "astore", p=p, v=FALSE)
        return [(st, VOID)]
    if n in ("is_lock_free",):
        return [(st, I.fresh(st, "lf"))]
    return None


def bump(I, st, op, size=None):
    s = size if size is not None else I.fresh(st, "size")
    if not isc(s):
        I.unsigned.add(s)
    st.m[F(op, "#size")] = s
    return s


def keyidx(I, st, op, key):
    return ("find", key, I.read(st, F(op, "#ver")) if F(op, "#ver") in st.m else 0)


def remove_if(I, st, c, size, vs, n, sq, f):
    """remove_if(pred), remove_and_dispose_if(pred, disposer), clear_and_dispose(disposer) of an intrusive list, two elements"""
    pred = vs[0] if n != "clear_and_dispose" else None
    disp = vs[-1] if n != "remove_if" else None
    out, cur = [], [(st, FALSE, 0)]
    for rnd in range(I.loops + 1):
        nx = []
        for s, k, gone in cur:
            for s2, b in I.branch(s, I.binop(s, "<", k, size, "unsigned long")):
                if not b or rnd == I.loops:
                    if b: s2.flags.add("widened")
                    if gone:
                        bump(I, s2, c); relink(I, s2, c)
                    I.emit(s2, "call", f=sq, u=f["u"], o=c, a=[], ap=[], res=None, gone=gone)
                    out.append((s2, VOID)); continue
                p = epl(I, s2, c, k)
                for s3, v in (I.invoke(s2, pred, [("ref", p)], [None]) if pred is not None else [(s2, TRUE)]):
                    for s4, t in I.branch(s3, I.scal(s3, v)):
                        k2 = I.binop(s4, "+", k, TRUE, "unsigned long")
                        if not t:
                            I.emit(s4, "listkeep", o=c, el=p); nx.append((s4, k2, gone)); continue
                        I.emit(s4, "listrm", o=c, el=p)
                        for s5, _ in (I.invoke(s4, disp, [mkaddr(p)], [None]) if disp is not None else [(s4, VOID)]):
                            nx.append((s5, k2, gone + 1))
        cur = nx
    return out


def container(I, st, e, f, sq, n, op, vs, argn, c):
    if "intrusive_list" in c and n in ("insert", "erase", "splice", "swap", "operator="):
        I.intrusive.add(op)
        r = container_op(I, st, e, f, sq, n, op, vs, argn, c)
        for s, _ in r or ():
            relink(I, s, op)
        return r
    return container_op(I, st, e, f, sq, n, op, vs, argn, c)


def om_get(I, st, op):
    """entries of an ordered map with known contents, or None"""
    if F(op, "#om") not in st.m:
        r = I.ordmap(I, st, op)
        if r is None: return None
        om_set(I, st, op, r)
    return st.m[F(op, "#om")][1]


def om_set(I, st, op, ents):
    for k in list(st.m):
        pl = k[1] if k[0] == "B" else k
        if k[0] != "R" and pl[0] != "R" and under(pl, op) and pl != op: del st.m[k]
    st.m[F(op, "#om")] = ("om", tuple(ents)); st.m[F(op, "#size")] = C(len(ents))
    for i, (k, v) in enumerate(ents):
        st.m[("B", F(("E", op, C(i)), "first"))] = k; st.m[("B", F(("E", op, C(i)), "second"))] = v


def om_refresh(I, st, op, ents):
    """values may have been written through iterators"""
    return [(k, I.read(st, F(("E", op, C(i)), "second"))) for i, (k, v) in enumerate(ents)]


def ordered_op(I, st, e, f, sq, n, op, vs, argn, c):
    if c != "std::map": return None
    ents = om_get(I, st, op)
    if n == "operator=":
        src = src_place(I, st, vs[0])
        es = om_get(I, st, src)
        if es is None: return None
        es = om_refresh(I, st, src, es)
        om_set(I, st, op, es)
        I.emit(st, "call", f=sq, u=f["u"], o=op, a=[], ap=[src], res=None)
        return [(st, ("ref", op))]
    if ents is None: return None

    def it(s, i):
        p = I.tmp(s); set_it(s, p, ("it", op, C(i))); return (s, ("obj", p))

    def scan(s0, op_, key):
        """(state, first index i with 'entry i satisfies op_', exact?)"""
        cur, out = [s0], []
        for i, (k, v) in enumerate(ents):
            nx = []
            for s in cur:
                t = I.binop(s, "==", k, key) if op_ == "==" else I.binop(s, "<", key, k) if op_ == ">" else I.neg(I.binop(s, "<", k, key))
                for s2, b in I.branch(s, t):
                    (out if b else nx).append((s2, i) if b else s2)
            cur = nx
        return out, cur
    def log(s, res=None, **kw): I.emit(s, "call", f=sq, u=f["u"], o=op, a=[I.argval(s, v) for v in vs], ap=[v[1] if v[0] in ("ref", "obj") else None for v in vs], res=res, **kw)
    if n in ("find", "count", "contains", "lower_bound", "upper_bound"):
        log(st)
        hit, miss = scan(st, {"lower_bound": ">=", "upper_bound": ">"}.get(n, "=="), I.argval(st, vs[0]))
        if n in ("count", "contains"): return [(s, TRUE) for s, i in hit] + [(s, FALSE) for s in miss]
        return [it(s, i) for s, i in hit] + [it(s, len(ents)) for s in miss]
    if n == "clear":
        log(st); om_set(I, st, op, []); return [(st, VOID)]
    if n == "erase" and len(vs) == 1:
        log(st); cur = om_refresh(I, st, op, ents)
        x = I.argval(st, vs[0])
        v = st.m.get(("B", vs[0][1])) if vs[0][0] in ("ref", "obj") else x
        if v is not None and v[0] == "it":
            if v[1] != op or not isc(v[2]) or v[2][1] >= len(cur): return None
            i = v[2][1]; om_set(I, st, op, cur[:i] + cur[i + 1:]); return [it(st, i)]
        hit, miss = scan(st, "==", x)
        for s, i in hit: om_set(I, s, op, cur[:i] + cur[i + 1:])
        return [(s, TRUE) for s, i in hit] + [(s, FALSE) for s in miss]
    if n in ("insert", "emplace", "try_emplace", "insert_or_assign", "operator[]", "at"):
        cur = om_refresh(I, st, op, ents)
        key = val = None
        if n in ("operator[]", "at"): key, val = I.argval(st, vs[0]), FALSE
        elif len(vs) == 2: key, val = I.argval(st, vs[0]), I.argval(st, vs[1])
        elif len(vs) == 1 and vs[0][0] in ("ref", "obj"):
            src = src_place(I, st, vs[0])
            key, val = I.read(st, F(src, "first")), I.read(st, F(src, "second"))
        if key is None: return None
        log(st, key=key)
        hit, miss = scan(st, "==", key)
        out = []

        def res(s, i, b):
            if n in ("operator[]", "at"): return (s, ("ref", F(("E", op, C(i)), "second")))
            p = I.tmp(s); I.setobj(s, p, ("tup", s.n)); s.n += 1
            set_it(s, F(p, "first"), ("it", op, C(i))); s.m[F(p, "second")] = C(b)
            return (s, ("obj", p))
        for s, i in hit:
            if n == "insert_or_assign": om_set(I, s, op, cur[:i] + [(cur[i][0], val)] + cur[i + 1:])
            out.append(res(s, i, 0))
        for s in miss:
            if n == "at": continue
            cs = [s]
            for i in range(len(cur) + 1):
                nx = []
                for s1 in cs:
                    bs = I.branch(s1, I.binop(s1, "<", key, cur[i][0])) if i < len(cur) else [(s1, True)]
                    for s2, b in bs:
                        if not b: nx.append(s2); continue
                        om_set(I, s2, op, cur[:i] + [(key, val)] + cur[i:]); out.append(res(s2, i, 1))
                cs = nx
        return out
    return None


def container_op(I, st, e, f, sq, n, op, vs, argn, c):
    t = f["c"]
    span = c == "score::cpp::span"
    home = mkP(I.read(st, F(op, "#data"))) if span else op
    size = size_of(I, st, op)
    if "intrusive_list" in c:
        I.intrusive.add(op)
        if n in ("remove_if", "remove_and_dispose_if", "clear_and_dispose"):
            return remove_if(I, st, op, size, vs, n, sq, f)
        if n == "iterator_to":
            p = I.tmp(st)
            k = I.fresh(st, "idx")
            set_it(st, p, ("it", op, k))
            setlink(I, st, op, k, vs[0][1])
            return [(st, ("obj", p))]

    if I.ordmap and c in ("std::map", "std::set"):
        r = ordered_op(I, st, e, f, sq, n, op, vs, argn, c)
        if r is not None: return r
        size = size_of(I, st, op)

    def el(idx):
        return epl(I, st, home, idx)

    def mk_it(s, idx):
        p = I.tmp(s)
        if span and not isc(size):
            s.m.setdefault(F(home, "#size"), size)
        elif span:
            s.m.setdefault(F(home, "#size"), size)
        set_it(s, p, ("it", home, idx))
        return (s, ("obj", p))
    pt = f.get("pt") or []
    if n in ("size", "length"):
        return [(st, size)]
    if n == "capacity":
        return [(st, I.read(st, F(op, "#cap")))]
    if n == "max_size":
        return [(st, ("pure", sq, None, (), 0))]
    if n == "empty":
        return [(st, I.binop(st, "==", size, FALSE, "unsigned long"))]
    if n in ("begin", "cbegin"):
        return [mk_it(st, FALSE)]
    if n in ("end", "cend"):
        return [mk_it(st, size)]
    if n in ("rbegin", "crbegin", "rend", "crend"):
        p = I.tmp(st)
        set_it(st, p, ("rit", home, size if n.endswith("begin") else FALSE))
        return [(st, ("obj", p))]
    if n == "data":
        if span:
            return [(st, I.read(st, F(op, "#data")))]
        return [(st, mkaddr(home))]
    if n == "front":
        return ret_ref(st, el(FALSE))
    if n == "back":
        return ret_ref(st, el(I.binop(st, "-", size, TRUE, "unsigned long")))
    if n in ("operator[]", "at"):
        if c in MAP:
            k = keyidx(I, st, op, I.argval(st, vs[0]))
            I.emit(st, "call", f=sq, u=f["u"], o=op, a=[I.argval(st, v) for v in vs], ap=[], res=None)
            if n == "at":
                I.assume(st, ("op", "<", k, size), True)
            return ret_ref(st, F(el(k), "second"))
        i = I.scal(st, vs[0])
        if not isc(i): I.unsigned.add(i)
        I.emit(st, "index", o=home, i=i, size=size, checked=n == "at")
        if n == "at":
            I.assume(st, I.binop(st, "<", i, size, "unsigned long"), True)
        return ret_ref(st, el(i))
    if n in ("first", "last", "subspan"):
        p = I.tmp(st)
        a = [I.scal(st, v) for v in vs]
        I.setobj(st, p, ("span", st.n)); st.n += 1
        I.emit(st, "subspan", o=home, size=size, a=a, kind=n)
        if n == "first":
            st.m[F(p, "#data")] = I.read(st, F(op, "#data")); st.m[F(p, "#size")] = a[0]
        else:
            off = a[0] if n == "subspan" else I.binop(st, "-", size, a[0], "unsigned long")
            st.m[F(p, "#data")] = I.binop(st, "+", I.read(st, F(op, "#data")), off, "unsigned long")
            st.m[F(p, "#size")] = a[1] if n == "subspan" and len(a) > 1 and not (isc(a[1]) and a[1][1] in (-1, 18446744073709551615)) else (I.binop(st, "-", size, off, "unsigned long") if n == "subspan" else a[0])
        return [(st, ("obj", p))]
    if n in ("find", "count", "contains") and (c in MAP or c in SET):
        k = keyidx(I, st, op, I.argval(st, vs[0]))
        I.unsigned.add(k)
        I.emit(st, "call", f=sq, u=f["u"], o=op, a=[I.argval(st, v) for v in vs], ap=[], res=("it", home, k))
        if n == "find":
            r = mk_it(st, k)
            # the element found carries the key
            if c in MAP:
                key = F(el(k), "first")
                if key not in st.m and ("B", key) not in st.m:
                    st.m[("B", key)] = I.argval(st, vs[0])
            else:
                if el(k) not in st.m:
                    st.m[("B", el(k))] = I.argval(st, vs[0])
            return [r]
        return [(st, I.binop(st, "<", k, size, "unsigned long"))]
    if n in ("lower_bound", "upper_bound"):
        k = (n, I.argval(st, vs[0]), I.read(st, F(op, "#ver")) if F(op, "#ver") in st.m else 0)
        I.emit(st, "call", f=sq, u=f["u"], o=op, a=[I.argval(st, v) for v in vs], ap=[], res=("it", home, k))
        return [mk_it(st, k)]
    if n == "equal_range":
        a = [I.argval(st, v) for v in vs]
        I.emit(st, "call", f=sq, u=f["u"], o=op, a=a, ap=[], res=None)
        p = I.tmp(st)
        I.setobj(st, p, ("tup", st.n)); st.n += 1
        set_it(st, F(p, "first"), ("it", home, ("eqlo", a[0])))
        set_it(st, F(p, "second"), ("it", home, ("eqhi", a[0])))
        return [(st, ("obj", p))]
    if n in ("push_back", "emplace_back", "push_front", "emplace_front", "push", "emplace") and c in SEQ:
        ev = I.emit(st, "call", f=sq, u=f["u"], o=op, a=[I.argval(st, v) for v in vs], ap=[v[1] if v[0] in ("ref", "obj") else None for v in vs], res=None)
        et = targ0(t)
        idx = size if n.endswith("back") or n in ("push", "emplace") else I.fresh(st, "idx")
        if n.endswith("front"):
            I.kill(st, el(FALSE)); idx = FALSE
            relink(I, st, op)
        bump(I, st, op, I.binop(st, "+", size, TRUE, "unsigned long"))
        out = []
        if "intrusive" in c:
            setlink(I, st, op, idx, vs[0][1]); return [(st, VOID)]
        states = put_constructed(I, st, el(idx), et, vs, argn) if n.startswith("emplace") else copy_or_move(I, st, el(idx), et, vs[0], argn[0] if argn else None)
        for s in states:
            out.append((s, ("ref", el(idx))))
        return out
    if n in ("pop_back", "pop_front", "pop"):
        I.emit(st, "call", f=sq, u=f["u"], o=op, a=[], ap=[], res=None, el=el(FALSE) if n == "pop_front" and op in I.intrusive else None)
        bump(I, st, op)
        for k in list(st.m):
            pl = k[1] if k[0] == "B" else k
            if k[0] != "R" and pl[0] == "E" and pl[1] == op:
                del st.m[k]
        relink(I, st, op)
        return [(st, VOID)]
    if n == "clear":
        relink(I, st, op)
        ev = I.emit(st, "call", f=sq, u=f["u"], o=op, a=[], ap=[], res=None)
        I.kill(st, op)
        st.m[("B", op)] = ("cont", st.n); st.n += 1
        bump(I, st, op, FALSE)
        return [(st, VOID)]
    if n in ("erase", "extract"):
        a = [I.argval(st, v) for v in vs]
        I.emit(st, "call", f=sq, u=f["u"], o=op, a=a, ap=[v[1] if v[0] in ("ref", "obj") else None for v in vs], res=None)
        st.n += 1
        st.m[F(op, "#ver")] = ("ver", st.n)
        bump(I, st, op)
        if c in SEQ or (pt and strip_targs(base_type(pt[0])).startswith(IT)):
            return [mk_it(st, ("after", st.n))]
        return [(st, I.fresh(st, "erased"))]
    if n in ("insert", "emplace", "try_emplace", "insert_or_assign") and (c in MAP or c in SET):
        a = [I.argval(st, v) for v in vs]
        r = I.fresh(st, "inserted")
        key = None
        if a:
            key = a[0]
            v0 = src_place(I, st, vs[0]) if vs[0][0] in ("ref", "obj") else None
            at = strip_targs(base_type(I.argtype(argn[0]))) if argn and argn[0] else ""
            if at == "std::pair" and v0 is not None:
                key = I.read(st, F(v0, "first"))
            elif at == "std::piecewise_construct_t" and len(vs) > 1:
                t1 = src_place(I, st, vs[1])
                x = st.m.get(F(t1, "#0"))
                key = I.read(st, mkP(x)) if x is not None and x[0] == "addr" else x or key
        k = keyidx(I, st, op, key)
        present = I.binop(st, "<", k, size, "unsigned long")
        multi = "multi" in c
        ev = I.emit(st, "call", f=sq, u=f["u"], o=op, a=a, ap=[v[1] if v[0] in ("ref", "obj") else None for v in vs], res=r, key=key, ins=I.neg(present))
        out = []
        for s, b in ([(st, False)] if multi else I.branch(st, present)):
            if not b:
                st2 = s
                st2.n += 1
                s.m[F(op, "#ver")] = ("ver", s.n)
                bump(I, s, op)
                k2 = keyidx(I, s, op, key)
                I.unsigned.add(k2)
                I.assume(s, ("op", "<", k2, I.read(s, F(op, "#size"))), True)
                if key is not None:
                    s.m[("B", F(("E", op, k2), "first"))] = key
                states = [s]
                et = targ0(t, 1) if c in MAP else ""
                if c in MAP and n in ("emplace", "insert", "try_emplace", "insert_or_assign"):
                    at = strip_targs(base_type(I.argtype(argn[0]))) if argn and argn[0] else ""
                    if at == "std::pair" and vs[0][0] in ("ref", "obj"):
                        put(I, s, F(("E", op, k2), "second"), ("ref", F(vs[0][1], "second")))
                    elif at == "std::piecewise_construct_t" and len(vs) > 2:
                        t2 = src_place(I, s, vs[2])
                        av = []
                        i = 0
                        while F(t2, "#%d" % i) in s.m:
                            x = s.m[F(t2, "#%d" % i)]
                            av.append(("ref", mkP(x)) if x[0] == "addr" else x)
                            i += 1
                        states = put_constructed(I, s, F(("E", op, k2), "second"), et, av, [None] * len(av))
                    elif len(vs) > 1:
                        states = put_constructed(I, s, F(("E", op, k2), "second"), et, vs[1:], argn[1:])
                elif c in SET and key is not None:
                    put(I, s, ("E", op, k2), vs[0])
            else:
                k2 = k
                states = [s]
            for s2 in states:
                p = I.tmp(s2)
                if multi or (pt and strip_targs(base_type(pt[0])).startswith(IT)):
                    set_it(s2, p, ("it", op, k2))
                else:
                    I.setobj(s2, p, ("tup", s2.n)); s2.n += 1
                    set_it(s2, F(p, "first"), ("it", op, k2))
                    s2.m[F(p, "second")] = C(not b)
                out.append((s2, ("obj", p)))
        return out
    if n in ("insert", "assign", "append") and c in SEQ:
        I.emit(st, "call", f=sq, u=f["u"], o=op, a=[I.argval(st, v) for v in vs], ap=[v[1] if v[0] in ("ref", "obj") else None for v in vs], res=None)
        bump(I, st, op)
        if n == "insert":
            return [mk_it(st, ("ins", st.n))]
        return [(st, VOID)]
    if n in ("reserve", "shrink_to_fit"):
        I.emit(st, "call", f=sq, u=f["u"], o=op, a=[I.argval(st, v) for v in vs], ap=[], res=None)
        return [(st, VOID)]
    if n == "resize":
        I.emit(st, "call", f=sq, u=f["u"], o=op, a=[I.argval(st, v) for v in vs], ap=[], res=None)
        bump(I, st, op, I.scal(st, vs[0]))
        return [(st, VOID)]
    if n == "fill":
        return None
    if n == "swap":
        return swap(I, st, ("ref", op), vs[0])
    if n == "operator=":
        src = src_place(I, st, vs[0])
        at = strip_targs(base_type(I.argtype(argn[0]))) if argn and argn[0] else ""
        sz = size_of(I, st, src)
        I.copyobj(st, src, op)
        st.m[F(op, "#size")] = sz
        if f.get("kind") == "moveassign" and c not in ("score::cpp::span", "std::array") and src != op:
            I.setobj(st, src, ("movedc", st.n)); st.n += 1
            st.m[F(src, "#size")] = FALSE
        if not I.local(op): I.emit(st, "wr", p=op, v=I.read(st, op))
        return ret_ref(st, op)
    return None


def iterator(I, st, e, f, n, op, vs, argn):
    x = itval(I, st, ("ref", op))
    if n == "operator*":
        return ret_ref(st, deref_it(I, st, x, None))
    if n == "operator->":
        return [(st, mkaddr(deref_it(I, st, x, None)))]
    if n in ("operator++", "operator--"):
        if x[0] == "it" and x[1] is not None:
            new = ("it", x[1], I.binop(st, n[-1], x[2], TRUE, "unsigned long"))
        elif x[0] == "rit":
            new = ("rit", x[1], I.binop(st, "-" if n[-1] == "+" else "+", x[2], TRUE, "unsigned long"))
        else:
            new = ("op", n[-1], x, TRUE)
        set_it(st, op, new)
        if vs:
            p = I.tmp(st)
            set_it(st, p, x)
            return [(st, ("obj", p))]
        return ret_ref(st, op)
    if n in ("operator+", "operator-", "operator+=", "operator-="):
        o = n.replace("operator", "")
        y = itval(I, st, vs[0])
        if y[0] in ("it", "rit"):
            return [(st, it_binop(I, st, "-", x, y))]
        new = ("it", x[1], I.binop(st, o[0], x[2], y, "unsigned long")) if x[0] == "it" else ("rit", x[1], I.binop(st, "-" if o[0] == "+" else "+", x[2], y, "unsigned long")) if x[0] == "rit" else ("op", o[0], x, y)
        if "=" in o:
            set_it(st, op, new)
            return ret_ref(st, op)
        p = I.tmp(st)
        set_it(st, p, new)
        return [(st, ("obj", p))]
    if n in ("operator==", "operator!=", "operator<"):
        return [(st, it_binop(I, st, n.replace("operator", ""), x, itval(I, st, vs[0])))]
    if n == "base" and x[0] == "rit":
        p = I.tmp(st)
        set_it(st, p, ("it", x[1], x[2]))
        return [(st, ("obj", p))]
    if n == "operator[]":
        if x[0] == "it":
            return ret_ref(st, ("E", x[1], I.binop(st, "+", x[2], I.scal(st, vs[0]), "unsigned long")))
    if n == "operator=":
        set_it(st, op, itval(I, st, vs[0]))
        if not I.local(op): I.emit(st, "wr", p=op, v=itval(I, st, vs[0]))
        return ret_ref(st, op)
    return None


def string(I, st, e, f, n, op, vs, argn):
    b = I.read(st, op)
    if n in ("operator=", "assign"):
        v = I.argval(st, vs[0])
        I.setobj(st, op, v)
        if not I.local(op): I.emit(st, "wr", p=op, v=v)
        return ret_ref(st, op)
    if n in ("size", "length"):
        if b[0] == "str":
            return [(st, C(len(b[1])))]
        r = ("strlen", b); I.unsigned.add(r)
        return [(st, r)]
    if n == "empty":
        if b[0] == "str":
            return [(st, C(len(b[1]) == 0))]
        return [(st, I.binop(st, "==", ("strlen", b), FALSE))]
    if n in ("c_str", "data", "operator basic_string_view", "begin", "end", "cbegin", "cend") or n.startswith("operator std::basic_string_view") or n.startswith("operator basic_string"):
        return [(st, b if n not in ("begin", "end", "cbegin", "cend") else ("it", ("P", b), FALSE if n.endswith("begin") else ("strlen", b)))]
    if n in ("append", "operator+=", "push_back"):
        I.setobj(st, op, ("cat", b) + tuple(I.argval(st, v) for v in vs))
        if not I.local(op): I.emit(st, "wr", p=op, v=I.read(st, op))
        return ret_ref(st, op)
    if n in ("operator[]", "at", "front", "back"):
        return ret_ref(st, ("E", ("P", b), I.scal(st, vs[0]) if vs else FALSE))
    if n == "compare" and len(vs) == 1:
        y = I.argval(st, vs[0])
        out = []
        for s, q in I.branch(st, I.binop(st, "==", b, y)):
            if q:
                out.append((s, C(0))); continue
            out += [(s2, C(-1 if less else 1)) for s2, less in I.branch(s, I.binop(s, "<", b, y))]
        return out
    if f.get("const"):
        return [(st, ("pure", n, b, tuple(I.argval(st, v) for v in vs), 0))]
    return None


def swap(I, st, a, b):
    pa, pb = src_place(I, st, a), src_place(I, st, b)
    t = I.tmp(st)
    va, vb = I.read(st, pa), I.read(st, pb)
    I.copyobj(st, pa, t)
    I.copyobj(st, pb, pa)
    I.copyobj(st, t, pb)
    if pa in st.m or True:
        if not any(under(k, t) and k != t for k in st.m if k[0] not in ("B", "R")):
            st.m[pa] = vb
            st.m[pb] = va
    I.kill(st, t)
    for p in (pa, pb):
        if not I.local(p):
            I.emit(st, "wr", p=p, v=I.read(st, p))
    return [(st, VOID)]


def put_text(I, st, p, item, ty):
    """append one formatted item to the text of a string stream"""
    w = st.m.pop(F(p, "#width"), C(0))
    fill = st.m.get(F(p, "#fill"), C(32))
    base = st.m.get(F(p, "#base"), C(10))
    if item[0] == "c" and ty == "char":
        item = ("str", chr(item[1] & 255))
    elif ty == "char":
        item = ("chr", item)
    elif ty == "num":
        item = ("str", str(item[1])) if isc(item) and base == C(10) else ("num", item, w, fill, base)
    if item[0] == "str" and isc(w) and w[1] > len(item[1]) and isc(fill):
        item = ("str", chr(fill[1]) * (w[1] - len(item[1])) + item[1])
    elif w != C(0) and item[0] != "num":
        item = ("padded", item, w, fill)
    old = st.m.get(F(p, "#txt"), ("cat",))
    st.m[F(p, "#txt")] = old + (item,)


def stream_out(I, st, p, v, node, pt):
    """operator<< of an output stream whose text is followed"""
    t = base_type(pt or (I.argtype(node) if node else "") or "")
    if t.startswith("std::_Setw"):
        st.m[F(p, "#width")] = I.argval(st, v)[1]
    elif t.startswith("std::_Setfill"):
        st.m[F(p, "#fill")] = I.argval(st, v)[1]
    elif "(" in t:                                     # manipulator
        x = I.scal(st, v)
        nm = str(x[1]).rsplit("::", 1)[-1] if x[0] == "fn" else ""
        if "hex" in nm: st.m[F(p, "#base")] = C(16)
        elif "dec" in nm: st.m[F(p, "#base")] = C(10)
        elif "oct" in nm: st.m[F(p, "#base")] = C(8)
        else: put_text(I, st, p, ("manip", x), "?")
    elif t in ("char", "signed char", "unsigned char"):
        put_text(I, st, p, I.scal(st, v), "char")
    elif I.is_class(t) or t.endswith("*") or t.endswith("]"):
        put_text(I, st, p, I.argval(st, v), "str")
    else:
        put_text(I, st, p, I.scal(st, v), "num")
    return ret_ref(st, p)


def free_call(I, st, e, f, sq, n, vs, argn, dst):
    if sq in ("std::setw", "std::setfill"):
        return [(st, (sq[5:], I.scal(st, vs[0])))]
    if sq == "std::operator<<" and len(vs) == 2:
        p = src_place(I, st, vs[0])
        pt = f.get("pt") or ["", ""]
        if F(p, "#txt") in st.m:
            return stream_out(I, st, p, vs[1], argn[1], pt[1])
    if sq in ("std::move", "std::forward", "std::as_const", "std::launder", "std::ref", "std::cref", "std::move_if_noexcept"):
        if sq in ("std::ref", "std::cref"):
            p = I.tmp(st)
            I.setobj(st, p, ("refw", st.n)); st.n += 1
            st.m[F(p, "#ref")] = mkaddr(src_place(I, st, vs[0]))
            return [(st, ("obj", p))]
        if sq == "std::launder":
            return [(st, I.scal(st, vs[0]))]
        return [(st, ("ref", src_place(I, st, vs[0])))]
    if sq in ("std::addressof", "std::__addressof"):
        return [(st, mkaddr(src_place(I, st, vs[0])))]
    if sq == "std::swap":
        return swap(I, st, vs[0], vs[1])
    if sq == "std::exchange":
        p = src_place(I, st, vs[0])
        t = base_type(e.get("t", ""))
        if not I.is_class(t):
            o = I.read(st, p)
            I.write(st, p, I.scal(st, vs[1]))
            return [(st, o)]
        d = I.tmp(st)
        out = []
        for s in copy_or_move(I, st, d, t, ("obj", p)):
            for s2 in assign_val(I, s, p, t, vs[1], argn[1]):
                out.append((s2, ("obj", d)))
        return out
    if sq in ("std::make_unique", "std::make_shared", "std::allocate_shared", "score::cpp::pmr::make_unique", "score::cpp::pmr::make_shared"):
        t = e["t"]
        et = targ0(t)
        a, an = vs, argn
        if "pmr" in sq or sq == "std::allocate_shared":
            a, an = vs[1:], argn[1:]
        st.n += 1
        h = ("H", st.n)
        I.emit(st, "new", p=h, t=et)
        if et.endswith("]"):
            I.setobj(st, h, ("cont", st.n))
            if a: st.m[F(h, "#size")] = I.scal(st, a[0])
            st.tr[-1].d["n"] = I.scal(st, a[0]) if a else None
            states = [st]
        else:
            states = put_constructed(I, st, h, et, a, an)
        out = []
        for s in states:
            p = I.tmp(s)
            I.setobj(s, p, ("ptr", s.n)); s.n += 1
            s.m[F(p, "#ptr")] = mkaddr(h)
            out.append((s, ("obj", p)))
        return out
    if sq in ("std::make_pair", "std::make_tuple", "std::tie", "std::forward_as_tuple"):
        p = I.tmp(st)
        I.setobj(st, p, ("tup", st.n)); st.n += 1
        cur = [st]
        for i, v in enumerate(vs):
            k = ("first", "second")[i] if sq == "std::make_pair" else "#%d" % i
            nx = []
            for s in cur:
                if sq in ("std::tie", "std::forward_as_tuple"):
                    s.m[F(p, k)] = mkaddr(src_place(I, s, v)); s.m[F(p, "#tie")] = TRUE; nx.append(s)
                else:
                    nx += copy_or_move(I, s, F(p, k), targ0(e["t"], i), v, argn[i])
            cur = nx
        return [(s, ("obj", p)) for s in cur]
    if sq == "std::get":
        ta = f.get("ta") or []
        p = src_place(I, st, vs[0])
        at = base_type(I.argtype(argn[0])) if argn[0] else ""
        pt = base_type((f.get("pt") or [""])[0])
        owner = strip_targs(pt) or strip_targs(at)
        if owner == "std::variant":
            alt = alt_name(pt or at, ta)
            I.emit(st, "varget", p=p, alt=alt)
            return ret_ref(st, F(p, "#T:" + alt))
        if ta and re.match(r"^\d+$", ta[0]):
            i = int(ta[0])
            if owner == "std::pair":
                q = F(p, ("first", "second")[i])
            elif owner == "std::array":
                q = ("E", p, C(i))
            else:
                q = F(p, "#%d" % i)
                if q not in st.m and F(p, ("first", "second")[i] if i < 2 else "") in st.m:
                    q = F(p, ("first", "second")[i])
            et = targ0(pt, i)
            if is_ref(et) or (q in st.m and st.m[q][0] == "addr" and owner == "std::tuple" and not base_type(et).endswith("*")):
                return ret_ref(st, mkP(I.read(st, q)))
            return ret_ref(st, q)
        return None
    if sq in ("std::get_if", "std::holds_alternative"):
        ta = f.get("ta") or []
        if sq == "std::get_if":
            x = I.scal(st, vs[0])
            p = mkP(x)
            vt = base_type((f.get("pt") or [""])[0])
            vt = vt[:-1].strip() if vt.endswith("*") else vt
            vt = base_type(vt)
        else:
            p = src_place(I, st, vs[0])
            vt = base_type((f.get("pt") or [""])[0])
        alt = alt_name(vt, ta)
        out = []
        for s, b in I.branch(st, I.binop(st, "==", I.read(st, F(p, "#alt")), ("str", alt))):
            if sq == "std::get_if":
                out.append((s, mkaddr(F(p, "#T:" + alt)) if b else NULL))
            else:
                out.append((s, C(b)))
        return out
    if sq == "std::visit":
        return visit(I, st, e, f, vs, argn)
    if sq == "score::cpp::overload":
        p = I.tmp(st)
        I.setobj(st, p, ("overload", st.n)); st.n += 1
        st.m[F(p, "#n")] = C(len(vs))
        for i, v in enumerate(vs):
            put(I, st, F(p, "#o%d" % i), v)
        return [(st, ("obj", p))]
    if sq in ("std::invoke", "std::apply", "score::cpp::invoke"):
        if sq == "std::apply":
            p = src_place(I, st, vs[1])
            at = base_type((f.get("pt") or ["", ""])[1])
            a = []
            i = 0
            while targ0(at, i):
                q = F(p, "#%d" % i)
                if is_ref(targ0(at, i)) or (q in st.m and st.m[q][0] == "addr" and not base_type(targ0(at, i)).endswith("*")):
                    a.append(("ref", mkP(I.read(st, q))))
                else:
                    a.append(("ref", q))
                i += 1
            return I.invoke(st, vs[0], a, [None] * len(a))
        return I.invoke(st, vs[0], vs[1:], argn[1:])
    if sq in ("std::find_if", "std::any_of", "std::all_of", "std::none_of", "std::for_each", "std::find", "std::find_if_not") and len(vs) == 3:
        r = algo(I, st, n, vs, argn)
        if r is not None:
            return r
    if sq in ("std::begin", "std::cbegin", "std::end", "std::cend", "std::size", "std::empty", "std::data", "score::cpp::begin", "score::cpp::end", "std::rbegin", "std::rend"):
        a = src_place(I, st, vs[0])
        t = base_type((f.get("pt") or [""])[0])
        return container(I, st, e, {"c": t, "u": "", "pt": []}, sq, n, a, [], [], strip_targs(t))
    if sq in ("score::cpp::at",):
        a = src_place(I, st, vs[0])
        t = base_type((f.get("pt") or [""])[0])
        return container(I, st, e, {"c": t, "u": "", "pt": []}, sq, "at", a, vs[1:], argn[1:], strip_targs(t))
    if sq == "std::make_reverse_iterator":
        x = itval(I, st, vs[0])
        if x[0] == "it" and x[1] is not None:
            p = I.tmp(st)
            set_it(st, p, ("rit", x[1], x[2]))
            return [(st, ("obj", p))]
        return None
    if sq == "std::distance":
        x, y = itval(I, st, vs[0]), itval(I, st, vs[1])
        if x[0] in ("it", "rit") and y[0] == x[0]:
            return [(st, it_binop(I, st, "-", y, x))]
    if sq in ("std::next", "std::prev"):
        x = itval(I, st, vs[0])
        d = I.scal(st, vs[1]) if len(vs) > 1 else TRUE
        p = I.tmp(st)
        o = "+" if sq == "std::next" else "-"
        if x[0] == "rit": o = "-" if o == "+" else "+"
        if x[0] == "rit":
            set_it(st, p, ("rit", x[1], I.binop(st, o, x[2], d, "unsigned long")))
            return [(st, ("obj", p))]
        set_it(st, p, ("it", x[1], I.binop(st, o, x[2], d, "unsigned long")) if x[0] == "it" else ("op", o, x, d))
        if base_type(e.get("t", "")).endswith("*") and x[0] != "it":
            return [(st, I.binop(st, o, x, d, "unsigned long"))]
        return [(st, ("obj", p))]
    if sq == "std::advance":
        x = itval(I, st, vs[0])
        d = I.scal(st, vs[1])
        p = src_place(I, st, vs[0])
        if x[0] == "it":
            set_it(st, p, ("it", x[1], I.binop(st, "+", x[2], d, "unsigned long")))
        else:
            st.m[p] = I.binop(st, "+", x, d, "unsigned long")
        return [(st, VOID)]
    if sq == "std::distance":
        return [(st, it_binop(I, st, "-", itval(I, st, vs[1]), itval(I, st, vs[0])))]
    if sq in ("std::abs", "abs", "labs", "std::labs") and len(vs) == 1 and (e.get("t") or "") in ("int", "long", "long long"):
        return absolute(I, st, I.argval(st, vs[0]))
    if sq in ("std::min", "std::max") and len(vs) == 2:
        a, b = I.argval(st, vs[0]), I.argval(st, vs[1])
        out = []
        for s, less in I.branch(st, I.binop(st, "<", b, a, "unsigned long")):
            pick = vs[1] if less == (sq == "std::min") else vs[0]
            if sq == "std::max":
                pick = vs[0] if less else vs[1]
            out.append((s, ("ref", src_place(I, s, pick))))
        return out
    if n.startswith("operator") and n[8:] in ("==", "!=", "<", ">", "<=", ">=", "-", "+", "&", "|", "^") and len(vs) == 2 and not f.get("repo"):
        return free_op(I, st, e, f, n[8:], vs, argn)
    if n.startswith("operator") and n[8:] in ("|=", "&="):
        p = src_place(I, st, vs[0])
        v = I.binop(st, n[8], I.read(st, p), I.argval(st, vs[1]), e.get("t", "int"))
        I.write(st, p, v)
        return ret_ref(st, p)
    if sq in ("score::MakeUnexpected", "score::cpp::make_unexpected", "score::result::MakeUnexpected"):
        p = I.tmp(st)
        st.n += 1
        I.setobj(st, p, ("unexp", st.n))
        a0 = vs[0]
        t = base_type(e.get("t", ""))
        code = I.argval(st, a0)
        at = base_type(I.argtype(argn[0])) if argn and argn[0] else ""
        if strip_targs(at) == "score::result::Error" or not sq.endswith("MakeUnexpected") :
            put(I, st, F(p, "#err"), a0)
        else:
            st.m[("B", F(p, "#err"))] = ("error", code, ("str", at))
        if strip_targs(t) in EXP:
            st.m[F(p, "#has")] = FALSE
        return [(st, ("obj", p))]
    if n == "MakeError" and not f.get("repo"):
        return [(st, ("error", I.argval(st, vs[0]), ("str", base_type(I.argtype(argn[0])) if argn and argn[0] else "")))]
    if sq in ("std::make_optional",):
        p = I.tmp(st)
        I.setobj(st, p, ("opt", st.n)); st.n += 1
        st.m[F(p, "#has")] = TRUE
        out = []
        for s in put_constructed(I, st, F(p, "#val"), targ0(e["t"]), vs, argn):
            out.append((s, ("obj", p)))
        return out
    if sq.startswith("score::safe_math::"):
        return safe_math(I, st, e, f, n, vs, argn)
    if sq in ("std::static_pointer_cast", "std::dynamic_pointer_cast", "std::const_pointer_cast", "std::reinterpret_pointer_cast"):
        p = I.tmp(st)
        I.setobj(st, p, ("ptr", st.n)); st.n += 1
        st.m[F(p, "#ptr")] = I.read(st, F(src_place(I, st, vs[0]), "#ptr"))
        return [(st, ("obj", p))]
    if sq in ("std::atomic_load_explicit", "std::atomic_load"):
        p = mkP(I.scal(st, vs[0]))
        return atomic(I, st, e, {"c": ""}, "load", p, vs[1:], argn[1:])
    if sq in ("std::atomic_store", "std::atomic_store_explicit"):
        p = mkP(I.scal(st, vs[0]))
        return atomic(I, st, e, {"c": ""}, "store", p, vs[1:], argn[1:])
    if sq == "std::lock":
        for v in vs:
            q = src_place(I, st, v)
            if F(q, "#m") in st.m:
                st.m[F(q, "#owns")] = TRUE
                do_lock(I, st, mkP(st.m[F(q, "#m")]), False, None)
            else:
                do_lock(I, st, q, False, None)
        return [(st, VOID)]
    if sq in ("memcpy", "std::memcpy", "memmove", "std::memmove", "memset", "std::memset"):
        a = [I.scal(st, v) for v in vs]
        I.emit(st, "mem", f=n, a=a)
        if a[0][0] == "addr":
            if n in ("memcpy", "memmove"):
                src = mkP(a[1])
                v = ("bytes", I.read(st, src) if a[1][0] == "addr" else a[1])
                I.kill(st, a[0][1]); st.m[("B", a[0][1])] = v
            else:
                I.havoc(st, a[0][1])
        return [(st, a[0])]
    if sq in ("std::to_string", "std::to_integer", "score::cpp::to_underlying", "std::to_underlying"):
        v = I.argval(st, vs[0])
        if sq == "std::to_string":
            return [(st, ("str", str(v[1])) if isc(v) else ("tostr", v))]
        return [(st, v)]
    return None


def alt_name(vt, ta):
    if ta and re.match(r"^\d+$", ta[0]):
        return base_type(targ0(vt, int(ta[0])))
    return base_type(ta[0]) if ta else "?"


def visit(I, st, e, f, vs, argn):
    vis, var = vs[0], vs[1]
    vp = src_place(I, st, var)
    vt = base_type(I.argtype(argn[1])) if argn[1] else ""
    if strip_targs(vt) != "std::variant":
        vt = base_type((f.get("pt") or ["", ""])[1])
    alts = []
    i = 0
    while targ0(vt, i):
        alts.append(base_type(targ0(vt, i))); i += 1
    visp = src_place(I, st, vis)
    out = []
    rest = [st]
    alt = None
    for k, a in enumerate(alts):
        nx = []
        for s in rest:
            br = I.branch(s, I.binop(s, "==", I.read(s, F(vp, "#alt")), ("str", a))) if k < len(alts) - 1 else [(s, True)]
            for s2, b in br:
                if not b:
                    nx.append(s2); continue
                arg = ("ref", F(vp, "#T:" + a))
                n = s2.m.get(F(visp, "#n"))
                done = None
                if n is not None:
                    for j in range(n[1]):
                        q = F(visp, "#o%d" % j)
                        lam = s2.m.get(F(q, "#lam"))
                        if lam is None:
                            continue
                        le = I.lams[lam[1]][0]
                        if le.get("generic"):
                            for ins in le.get("inst", ()):
                                if ins["p"] and base_type(ins["p"][0]["t"]) == a:
                                    fn = {"u": ins["u"], "sq": "lambda", "file": I.lams[lam[1]][2], "l": le["l"], "p": ins["p"], "rt": ins["rt"], "body": ins["body"]}
                                    done = I.inline(fn, s2, None, [arg], [None], lamplace=(q, lam[1]))
                        elif le["p"] and base_type(le["p"][0]["t"]) == a:
                            done = I.inline({"u": le["u"], "sq": "lambda in " + I.lams[lam[1]][1], "file": I.lams[lam[1]][2], "l": le["l"], "p": le["p"], "rt": le["rt"], "body": le["body"]}, s2, None, [arg], [None], lamplace=(q, lam[1]))
                        if done is not None:
                            break
                else:
                    lam = s2.m.get(F(visp, "#lam"))
                    if lam is not None:
                        le = I.lams[lam[1]][0]
                        for ins in (le.get("inst") or [le]):
                            if ins.get("p") and base_type(ins["p"][0]["t"]) == a:
                                fn = {"u": ins.get("u", le["u"]), "sq": "lambda in " + I.lams[lam[1]][1], "file": I.lams[lam[1]][2], "l": le["l"], "p": ins["p"], "rt": ins["rt"], "body": ins["body"]}
                                done = I.inline(fn, s2, None, [arg], [None], lamplace=(visp, lam[1]))
                                break
                    else:
                        # visitor class with operator()
                        ct = base_type(I.argtype(argn[0])) if argn[0] else ""
                        c = I.db.C.get(ct)
                        for m in (c or {}).get("m", ()):
                            if m["n"] == "operator()" and m["u"] in I.db.F and m["pt"] and base_type(m["pt"][0]) == a:
                                done = I.inline(I.db.F[m["u"]], s2, visp, [arg], [None])
                                break
                if done is None:
                    s2.n += 1
                    I.emit(s2, "invoke", p=visp, fnv=("visit",), a=[I.argval(s2, arg)])
                    done = [(s2, ("r", "visit", s2.n))]
                out += done
        rest = nx
    return out


def free_op(I, st, e, f, op, vs, argn):
    a, b = vs
    ta = strip_targs(base_type(I.argtype(argn[0]))) if argn[0] else ""
    tb = strip_targs(base_type(I.argtype(argn[1]))) if argn[1] else ""
    pt = [strip_targs(base_type(x)) for x in (f.get("pt") or ["", ""])]
    ta = ta or pt[0]; tb = tb or pt[1]
    if op in ("==", "!=", "<", ">", "<=", ">="):
        def key(v, t):
            if t in UPTR | SPTR:
                return I.read(st, F(src_place(I, st, v), "#ptr"))
            if t in ("std::nullptr_t", "nullptr_t"):
                return NULL
            return None
        ka, kb = key(a, ta), key(b, tb)
        if ka is not None or kb is not None:
            return [(st, I.binop(st, op, ka if ka is not None else I.scal(st, a), kb if kb is not None else I.scal(st, b)))]
        x, y = itval(I, st, a), itval(I, st, b)
        if x[0] in ("it", "rit") or y[0] in ("it", "rit") or ta.startswith(IT):
            return [(st, it_binop(I, st, op, x, y))]
        if "std::optional" in (ta, tb) and op in ("==", "!="):
            if "std::nullopt_t" in (ta, tb) or "std::nullopt_t" in pt:
                o = a if ta == "std::optional" else b
                h = I.read(st, F(src_place(I, st, o), "#has"))
                return [(st, I.neg(h) if op == "==" else h)]
            if ta == tb:
                pa, pb = src_place(I, st, a), src_place(I, st, b)
                out = []
                for s, ha in I.branch(st, I.read(st, F(pa, "#has"))):
                    for s2, hb in I.branch(s, I.read(s, F(pb, "#has"))):
                        if ha != hb: r = FALSE
                        elif not ha: r = TRUE
                        else: r = eqval(I, s2, F(pa, "#val"), F(pb, "#val"))
                        out.append((s2, r if op == "==" else I.neg(r)))
                return out
            o, v = (a, b) if ta == "std::optional" else (b, a)
            po = src_place(I, st, o)
            out = []
            for s, h in I.branch(st, I.read(st, F(po, "#has"))):
                r = FALSE if not h else eqval(I, s, F(po, "#val"), src_place(I, s, v))
                out.append((s, r if op == "==" else I.neg(r)))
            return out
        if ta == "std::tuple" and tb == "std::tuple" and op in ("==", "!=", "<"):
            pa, pb = src_place(I, st, a), src_place(I, st, b)
            conj = TRUE
            n = 0
            els = []
            while F(pa, "#%d" % n) in st.m and F(pb, "#%d" % n) in st.m:
                xa, xb = st.m[F(pa, "#%d" % n)], st.m[F(pb, "#%d" % n)]
                xa = I.read(st, mkP(xa)) if F(pa, "#tie") in st.m or xa[0] == "addr" else xa
                xb = I.read(st, mkP(xb)) if F(pb, "#tie") in st.m or xb[0] == "addr" else xb
                els.append((xa, xb))
                n += 1
            if els:
                if op == "<":
                    out = []
                    cur = [st]
                    for xa, xb in els:
                        nx = []
                        for s in cur:
                            for s2, lt in I.branch(s, I.binop(s, "<", xa, xb)):
                                if lt: out.append((s2, TRUE)); continue
                                for s3, gt in I.branch(s2, I.binop(s2, "<", xb, xa)):
                                    if gt: out.append((s3, FALSE))
                                    else: nx.append(s3)
                        cur = nx
                    return out + [(s, FALSE) for s in cur]
                out = []
                cur = [st]
                for xa, xb in els:
                    nx = []
                    for s in cur:
                        for s2, q in I.branch(s, I.binop(s, "==", xa, xb)):
                            if q: nx.append(s2)
                            else: out.append((s2, C(op != "==")))
                    cur = nx
                return out + [(s, C(op == "==")) for s in cur]
    va, vb = I.argval(st, a), I.argval(st, b)
    if op == "+" and (ta in STR or tb in STR or "basic_string" in e.get("t", "")):
        if va[0] == "str" and vb[0] == "str":
            return [(st, ("str", va[1] + vb[1]))]
        return [(st, ("cat", va, vb))]
    if op in ("-", "+") and (ta.startswith(IT)):
        if va[0] in ("it", "rit") and vb[0] == va[0]:
            return [(st, it_binop(I, st, op, va, vb))]
        if va[0] == "rit":
            return [(st, ("rit", va[1], I.binop(st, "-" if op == "+" else "+", va[2], vb, "unsigned long")))]
        if va[0] == "it":
            return [(st, ("it", va[1], I.binop(st, op, va[2], vb, "unsigned long")))]
    return [(st, I.binop(st, op, va, vb, e.get("t", "int")))]


def eqval(I, st, pa, pb):
    return I.binop(st, "==", I.read(st, pa), I.read(st, pb))


def absolute(I, st, v):
    """the absolute value: the value or its negation, by its sign"""
    if isc(v): return [(st, C(abs(v[1])))]
    return [(s, I.binop(s, "-", C(0), v, "__int128") if neg else v) for s, neg in I.branch(st, I.binop(st, "<", v, C(0)))]


def safe_math(I, st, e, f, n, vs, argn):
    a = [I.argval(st, v) for v in vs]
    t = e["t"]
    if n in ("Abs", "Absolute") and "Result" not in t and "xpected" not in t:
        return absolute(I, st, a[0])
    if n in ("CmpEqual", "CmpNotEqual", "CmpLess", "CmpLessEqual", "CmpGreater", "CmpGreaterEqual"):
        op = {"CmpEqual": "==", "CmpNotEqual": "!=", "CmpLess": "<", "CmpLessEqual": "<=", "CmpGreater": ">", "CmpGreaterEqual": ">="}[n]
        return [(st, I.binop(st, op, a[0], a[1]))]
    p = I.tmp(st)
    opn = {"Add": "+", "Subtract": "-", "Multiply": "*", "Divide": "/", "Cast": "cast", "Negate": "neg", "Absolute": "abs"}.get(n, n)
    if len(a) == 2:
        v = I.binop(st, opn, a[0], a[1], "__int128")
    else:
        v = a[0]
    I.setobj(st, p, ("exp", st.n)); st.n += 1
    fits = ("fits", opn) + tuple(a)
    st.m[F(p, "#has")] = fits
    st.m[F(p, "#val")] = v
    I.emit(st, "safemath", op=opn, a=a, v=v, fits=fits)
    return [(st, ("obj", p))]
