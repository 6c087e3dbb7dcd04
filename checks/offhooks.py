"""offset pointers as plain pointers: their own behaviour is decided by P10"""
from absint import C, base_type
S = "score::memory::shared::OffsetPtr::"


def _isoff(t):
    return "OffsetPtr<" in base_type(t)


def _content(I, st, v):
    return I.read(st, ("F", v[1], "#off"))


def hooks():
    def ctor(I, st, f, p, vs):
        if f.get("kind") in ("copyctor", "movector") and vs or (len(vs) == 1 and f.get("pt") and _isoff(f["pt"][0])):
            v = _content(I, st, vs[0])
        else:
            v = I.scal(st, vs[0]) if vs else C(0)
        I.kill(st, p)
        st.m[("B", p)] = ("new", "score::memory::shared::OffsetPtr", st.n); st.n += 1
        st.m[("F", p, "#off")] = v
        return [(st, None)]

    def assign(I, st, e, op, vs):
        a = vs[0]
        if a[0] in ("ref", "obj") and ("F", a[1], "#off") in st.m or a[0] in ("ref", "obj") and _isoff((e.get("f", {}).get("pt") or [""])[0]):
            v = _content(I, st, a)
        else:
            v = I.scal(st, a)
        st.m[("F", op, "#off")] = v
        return [(st, ("ref", op))]

    def get(I, st, e, op, vs):
        return [(st, I.read(st, ("F", op, "#off")))]

    def cmp(neg):
        def h(I, st, e, op, vs):
            pt = e.get("f", {}).get("pt") or []
            xs = list(vs)
            if op is not None or len(pt) != len(xs) or not any(_isoff(t) for t in pt): return None
            ts = [_content(I, st, x) if _isoff(t) else C(0) if "nullptr_t" in t else I.scal(st, x) for x, t in zip(xs, pt)]
            return [(st, I.binop(st, "!=" if neg else "==", *ts))]
        return h
    return {S + "OffsetPtr": ctor, S + "operator=": assign, S + "get": get, S + "operator->": get,
            "score::memory::shared::operator==": cmp(False), "score::memory::shared::operator!=": cmp(True)}
