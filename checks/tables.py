"""Associative containers with known contents: a few entries with concrete keys, whatever the order of iteration.

`fill` marks a container; `hooks` gives its operations their meaning.  Entries are identified by '#id' so that what
survived, what was added and what was taken out can be read from the final state (`ids`)."""
from absint import *
from models import F, set_it, itval, put, targ0, src_place, put_constructed


def fill(I, st, op, n, tag="e"):
    st.m[F(op, "#tab")] = TRUE
    st.m[F(op, "#size")] = C(n)
    for i in range(n): st.m[F(("E", op, C(i)), "#id")] = ("id", tag, i)


def marked(I, st, op):
    if F(op, "#tab") in st.m: return True
    if st.m.get(F(op, "#size")) == FALSE:              # just made and empty: as good as marked
        st.m[F(op, "#tab")] = TRUE
        return True
    p = op
    while p[0] in ("F", "E"):
        p = p[1]
        if F(p, "#tab") in st.m:
            if F(op, "#size") not in st.m: st.m[F(op, "#size")] = C(0)
            st.m[F(op, "#tab")] = TRUE
            return True
    return False


def size(st, op):
    n = st.m.get(F(op, "#size"))
    return n[1] if n is not None and n[0] == "c" else None


def ids(st, op):
    return [st.m.get(F(("E", op, C(i)), "#id")) for i in range(size(st, op) or 0)]


def leaves(I, st, v, t):
    """the scalars that make up a key of type t"""
    t = base_type(t)
    if t.startswith("std::optional<") and v[0] in ("ref", "obj"):
        h = I.read(st, F(v[1], "#has"))
        return [h] + ([C(0)] if h == FALSE else leaves(I, st, ("ref", F(v[1], "#val")), targ0(t, 0)))
    c = I.db.C.get(t)
    if not c or not c.get("fields"):
        return [I.scal(st, v) if v[0] in ("ref", "obj") else v]
    p = v[1] if v[0] in ("ref", "obj") else None
    if p is None:
        p = I.tmp(st); st.m[("B", p)] = v
    out = []
    for x in c["fields"]: out += leaves(I, st, ("ref", ("F", p, x["n"])), x["t"])
    return out


def same(I, st, a, b):
    """[(state, equal?)]"""
    cur, out = [st], []
    for x, y in zip(a, b):
        nx = []
        for s in cur:
            for s2, t in I.branch(s, I.binop(s, "==", x, y)):
                if t: nx.append(s2)
                else: out.append((s2, False))
        cur = nx
    return [(s, True) for s in cur] + out


def hooks(kinds=("std::unordered_map", "std::map", "std::unordered_set", "std::set")):
    def handler(kind, n):
        ismap = kind.endswith("map")
        def h(I, st, e, op, vs):
            if op is None or not marked(I, st, op): return None
            f = e["f"]; kt = targ0(f["c"], 0); mt = targ0(f["c"], 1) if ismap else None
            N = size(st, op)
            if N is None: return None
            I.emit(st, "tabuse", o=op, n=n)
            an = list(e["a"])[1:] if len(e.get("a") or ()) == len(vs) else [None] * (len(vs) - 1)
            el = lambda i: ("E", op, C(i))
            kp = (lambda i: F(el(i), "first")) if ismap else el

            def it(s, i):
                p = I.tmp(s); set_it(s, p, ("it", op, C(i))); return (s, ("obj", p))

            def search(s0, key):
                cur, hit = [s0], []
                for i in range(N):
                    nx = []
                    for s in cur:
                        for s2, b in same(I, s, leaves(I, s, ("ref", kp(i)), kt), key):
                            if b: hit.append((s2, i))
                            else: nx.append(s2)
                    cur = nx
                return hit, cur

            def drop(s, i):
                I.emit(s, "tabrm", o=op, id=s.m.get(F(el(i), "#id")), p=el(i), first=I.read(s, F(el(i), "second")) if ismap else None)
                for j in range(i, N - 1):
                    I.kill(s, el(j)); I.copyobj(s, el(j + 1), el(j))
                I.kill(s, el(N - 1))
                s.m[F(op, "#size")] = C(N - 1)

            if n in ("find", "count", "contains"):
                hit, miss = search(st, leaves(I, st, vs[0], kt))
                if n == "find": return [it(s, i) for s, i in hit] + [it(s, N) for s in miss]
                return [(s, TRUE) for s, i in hit] + [(s, FALSE) for s in miss]
            if n == "clear":
                for i in range(N): I.emit(st, "tabrm", o=op, id=st.m.get(F(el(i), "#id")), p=el(i), first=None)
                for i in range(N): I.kill(st, el(i))
                st.m[F(op, "#size")] = FALSE
                return [(st, VOID)]
            if n == "erase" and len(vs) == 1:
                v = st.m.get(("B", vs[0][1])) if vs[0][0] in ("ref", "obj") else None
                if v is not None and v[0] == "it":
                    if v[1] != op or v[2][0] != "c" or v[2][1] >= N: return None
                    drop(st, v[2][1]); return [it(st, v[2][1])]
                hit, miss = search(st, leaves(I, st, vs[0], kt))
                for s, i in hit: drop(s, i)
                return [(s, TRUE) for s, i in hit] + [(s, FALSE) for s in miss]
            if n == "extract":
                v = st.m.get(("B", vs[0][1])) if vs[0][0] in ("ref", "obj") else None
                if v is not None and v[0] == "it":
                    if v[1] != op or v[2][0] != "c" or v[2][1] >= N: return None
                    hit, miss = [(st, v[2][1])], []
                else: hit, miss = search(st, leaves(I, st, vs[0], kt))
                out = []
                for s, i in hit:
                    nd = I.tmp(s); I.setobj(s, nd, ("node", s.n)); s.n += 1
                    for part in ("first", "second") if ismap else ("first",): I.copyobj(s, F(el(i), part) if ismap else el(i), F(nd, part))
                    if not ismap or not I.is_class(base_type(kt)): s.m[F(nd, "first")] = I.read(s, kp(i))
                    s.m[F(nd, "#full")] = TRUE
                    drop(s, i); out.append((s, ("obj", nd)))
                for s in miss:
                    nd = I.tmp(s); I.setobj(s, nd, ("node", s.n)); s.n += 1
                    s.m[F(nd, "#full")] = FALSE
                    out.append((s, ("obj", nd)))
                return out
            if n == "merge":
                src = vs[0][1]
                if not marked(I, st, src) or size(st, src) is None: return None
                todo, out = [(st, 0)], []
                while todo:
                    s, i = todo.pop()
                    if i >= size(s, src): out.append((s, VOID)); continue
                    N0 = size(s, op); e0 = ("E", src, C(i))
                    cur = [s]
                    for j in range(N0):
                        nx = []
                        for x in cur:
                            for x2, b in same(I, x, leaves(I, x, ("ref", F(el(j), "first") if ismap else el(j)), kt), leaves(I, x, ("ref", F(e0, "first") if ismap else e0), kt)):
                                (todo.append((x2, i + 1)) if b else nx.append(x2))
                        cur = nx
                    for x in cur:
                        I.kill(x, el(N0)); I.copyobj(x, e0, el(N0))
                        if not ismap and not I.is_class(base_type(kt)): x.m[el(N0)] = I.read(x, e0)
                        x.m[F(op, "#size")] = C(N0 + 1)
                        m0 = size(x, src)
                        for j in range(i, m0 - 1): I.kill(x, ("E", src, C(j))); I.copyobj(x, ("E", src, C(j + 1)), ("E", src, C(j)))
                        I.kill(x, ("E", src, C(m0 - 1))); x.m[F(src, "#size")] = C(m0 - 1)
                        todo.append((x, i))
                return out
            if n == "insert" and len(vs) == 1 and vs[0][0] in ("ref", "obj") and F(vs[0][1], "#full") in st.m:
                nd = vs[0][1]
                if st.m[F(nd, "#full")] != TRUE: return None
                hit, miss = search(st, leaves(I, st, ("ref", F(nd, "first")), kt))
                out = []
                for s, i in hit + [(s, None) for s in miss]:
                    p = I.tmp(s); I.setobj(s, p, ("tup", s.n)); s.n += 1
                    s.m[F(p, "inserted")] = C(i is None)
                    if i is None:
                        i = N
                        s.m[F(op, "#size")] = C(N + 1); I.kill(s, el(i))
                        for part in ("first", "second") if ismap else ("first",):
                            d = F(el(i), part) if ismap else el(i)
                            I.copyobj(s, F(nd, part), d)
                            if F(nd, part) in s.m: s.m[d] = s.m[F(nd, part)]
                        s.m[F(el(i), "#id")] = ("id", "new", i); s.m[F(nd, "#full")] = FALSE
                        I.emit(s, "tabput", o=op, p=el(i))
                    set_it(s, F(p, "position"), ("it", op, C(i)))
                    out.append((s, ("obj", p)))
                return out
            if n == "insert" and len(vs) == 2:
                a, b = itval(I, st, vs[0]), itval(I, st, vs[1])
                if not (a[0] == "it" and b[0] == "it" and a[1] == b[1] and a[1] is not None and a[2][0] == "c" and b[2][0] == "c"): return None
                cur = [st]
                for k in range(a[2][1], b[2][1]):
                    src = ("ref", ("E", a[1], C(k))); nx = []
                    for s in cur:
                        r = h(I, s, {**e, "a": ()}, op, [src])
                        if r is None: return None
                        nx += [x for x, _ in r]
                    cur = nx
                return [(s, VOID) for s in cur]
            if n in ("insert", "emplace", "try_emplace", "insert_or_assign", "operator[]", "at"):
                pair = ismap and n in ("insert", "emplace") and len(vs) == 1
                kv = ("ref", F(src_place(I, st, vs[0]), "first")) if pair else vs[0]
                hit, miss = search(st, leaves(I, st, kv, kt))
                out = []

                def res(s, i, new):
                    if n in ("operator[]", "at"): return (s, ("ref", F(el(i), "second")))
                    p = I.tmp(s); I.setobj(s, p, ("tup", s.n)); s.n += 1
                    set_it(s, F(p, "first"), ("it", op, C(i))); s.m[F(p, "second")] = C(new)
                    return (s, ("obj", p))
                for s, i in hit:
                    ss = [s]
                    if n == "insert_or_assign":
                        I.emit(s, "tabput", o=op, p=el(i)); I.kill(s, F(el(i), "second"))
                        ss = put_constructed(I, s, F(el(i), "second"), mt, vs[1:], an)
                    out += [res(x, i, 0) for x in ss]
                for s in miss:
                    if n == "at": continue
                    i = N
                    s.m[F(op, "#size")] = C(N + 1)
                    I.kill(s, el(i))
                    put(I, s, kp(i), kv, kt)
                    ss = [s]
                    if ismap:
                        if pair: put(I, s, F(el(i), "second"), ("ref", F(src_place(I, s, vs[0]), "second")), mt)
                        else: ss = put_constructed(I, s, F(el(i), "second"), mt, list(vs[1:]), an)
                    for x in ss:
                        x.m[F(el(i), "#id")] = ("id", "new", i)
                        I.emit(x, "tabput", o=op, p=el(i))
                        out.append(res(x, i, 1))
                return out
            return None
        return h
    def node(part):
        def h(I, st, e, op, vs):
            if op is None or F(op, "#full") not in st.m: return None
            if part == "#full": return [(st, st.m[F(op, "#full")])]
            if part == "#empty": return [(st, C(st.m[F(op, "#full")] == FALSE))]
            return [(st, ("ref", F(op, part)))]
        return h
    r = {k + "::" + n: handler(k, n) for k in kinds for n in ("extract", "merge", "find", "count", "contains", "clear", "erase", "insert", "emplace", "try_emplace", "insert_or_assign", "operator[]", "at")}
    for n, part in (("key", "first"), ("mapped", "second"), ("value", "first"), ("operator bool", "#full"), ("empty", "#empty")):
        r["std::_Node_handle::" + n] = r["std::_Node_handle_common::" + n] = node(part)
    return r
