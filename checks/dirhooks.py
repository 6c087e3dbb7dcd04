"""The file system as an oracle: a directory with a given number of entries, texts for paths, results of operations."""
from absint import *
from models import F, set_it, itval

DIR = ("B", ("dir",))


def paths():
    def cat(I, st, e, op, vs):
        return [(st, ("cat", I.argval(st, vs[0]), ("str", "/"), I.argval(st, vs[1])))]

    def append(I, st, e, op, vs):
        if op is None: return None
        v = ("cat", I.argval(st, ("ref", op)), ("str", "/"), I.argval(st, vs[0]))
        I.setobj(st, op, v)
        return [(st, ("ref", op))]
    return cat, append


def entries(n):
    """hooks which give every directory n entries"""
    def it(k):
        def h(I, st, e, op, vs):
            p = I.tmp(st); set_it(st, p, ("it", DIR, C(k)))
            st.m[F(DIR, "#size")] = C(n)
            return [(st, ("obj", p))]
        return h
    pos = lambda I, st, v: (lambda x: x[2][1] if x is not None and x[0] == "it" and x[1] == DIR and x[2][0] == "c" else None)(itval(I, st, v))

    def cmp(eq):
        def h(I, st, e, op, vs):
            a = pos(I, st, ("ref", op)) if op is not None else pos(I, st, vs[0]); b = pos(I, st, vs[-1])
            return None if a is None or b is None else [(st, C((a == b) == eq))]
        return h

    def nxt(I, st, e, op, vs):
        a = pos(I, st, ("ref", op)) if op is not None else None
        if a is None: return None
        set_it(st, op, ("it", DIR, C(a + 1)))
        return [(st, ("ref", op))]

    def at(I, st, e, op, vs):
        a = pos(I, st, ("ref", op)) if op is not None else None
        return None if a is None or a >= n else [(st, ("ref", ("E", DIR, C(a))))]
    K = "score::filesystem::DirectoryIterator::"
    return {"score::filesystem::begin": it(0), "score::filesystem::end": it(n), K + "operator!=": cmp(False), K + "operator==": cmp(True), K + "operator++": nxt, K + "operator*": at, K + "operator->": at}
