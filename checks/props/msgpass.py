"""Message passing: futures, client connections."""
import re
from core import *
from db import CheckError
MP = "score::message_passing::"


def same(p, dst, src, t):
    """the object at dst equals the entry value of the object at src (has / value / error parts of sum types)"""
    I, st = p.I, p.st
    if not re.search(r"expected|optional|Result<", t):
        return I.read(st, dst) == ("in", src)
    h, hs = I.read(st, ("F", dst, "#has")), ("fld", ("in", src), "#has")
    if I.truth(st, h) is not None and I.truth(st, h) == I.truth(st, hs): h = hs
    part = {True: ["#val"], False: ["#err"], None: ["#val", "#err"]}[I.truth(st, hs)]
    return h == hs and all(I.read(st, ("F", dst, k)) == ("fld", ("in", src), k) for k in part)


@prop("P19", ["score/message_passing/non_allocating_future/*.cpp", "score/message_passing/*.cpp"], ["util"])
def p19(c):
    c.rule("R1", "a future is not ready when it is created")
    c.rule("R2", "the ready flag is only touched under the future's lock; it is only ever set, never cleared")
    c.rule("R3", "setting the flag is followed by waking all waiters before the lock is given up; nothing of the future is touched afterwards")
    c.rule("R4", "a value is stored before the future becomes ready, and it is the value given")
    c.rule("R5", "waiting returns only after the flag was seen set under the lock, and waits on the same condition and lock the setter uses")
    N = MP + "detail::NonAllocatingFuture"
    roots = {}
    fl = None
    for cl in c.db.cls(N):
        for x in cl["fields"]:
            if base_type(x["t"]) == "bool" or "atomic" in x["t"]: fl = x["n"]
    if fl is None: raise CheckError("anchor vanished: no flag in " + N)
    vf = [x["n"] for x in c.db.cls(N)[0]["fields"] if x["t"].endswith("&") and "utex" not in x["t"] and "condition" not in x["t"]]
    vf = vf[0] if vf else None
    VALUE = lambda p: mkP(p.I.read(p.st, ("F", ("A", "this"), vf)))
    FLAG = ("F", ("A", "this"), fl)
    for f in c.fns(N + "::NonAllocatingFuture"):
        if len(f["p"]) < 2 or f.get("del"): continue
        for p in c.run(f):
            w = [e for i, e in evs(p, "init", "wr", "astore") if e.p == FLAG]
            c.check("R1", p.out == "ret" and w and p.I.truth(p.st, w[-1].v) is False, name(f), fwhere(f), "the flag starts as %s" % (show(w[-1].v) if w else "unset"), p)
    for m in ("MarkReady", "UpdateValueMarkReady", "Wait"):
        for f in c.fns(N + "::" + m):
            for p in c.run(f, record_reads=True):
                held, mx, cv, setat, woken, done, seen = [], set(), set(), None, False, False, None
                if p.out != "ret":
                    c.bad("R5" if m == "Wait" else "R3", name(f), fwhere(f), "leaves by " + p.out, p); continue
                for i, e in enumerate(p.tr):
                    if e.k == "lock": held.append(e.m); mx.add(e.m)
                    elif e.k == "unlock":
                        if e.m in held: held.remove(e.m)
                        if (setat is not None or seen is not None and p.I.truth(p.st, seen) is True) and not held and m != "Wait": done = True
                        if setat is None and not done: woken = False
                    elif e.k == "cvwait":
                        cv.add(e.cv); mx.add(e.m)
                        c.check("R5", e.m in held or e.blocked and p.tr[i - 1].k == "unlock" and p.tr[i - 1].m == e.m, name(f), e.where(), "waits without holding the lock", p, inst=name(f) + " wait under lock")
                        if not e.pred: seen = None
                    elif e.k == "notify":
                        cv.add(e.cv)
                        c.check("R3", not done, name(f), e.where(), "waiters are woken after the lock was given up: the future may be gone", p, inst=name(f) + " wake under lock")
                        if e.all: woken = True
                    elif e.p is not None and e.p == FLAG:
                        c.check("R2", held, name(f), e.where(), "the ready flag is touched without the lock", p, inst=name(f) + " flag under lock")
                        if e.k in ("wr", "astore"):
                            c.check("R2", p.I.truth(p.st, e.v) is True, name(f), e.where(), "the ready flag is set to %s" % show(e.v), p, inst=name(f) + " only set")
                            setat = i
                        elif e.k in ("rd", "aload"): seen = e.v
                    elif e.k == "wr" and (root(e.p) == ("A", "this") or under(e.p, VALUE(p))):
                        c.check("R4", setat is None, name(f), e.where(), "the value is stored after the future was marked ready", p, inst=name(f) + " store before ready")
                    if done and e.k in ("rd", "wr") and e.p is not None and root(e.p) == ("A", "this"):
                        c.bad("R3", name(f), e.where(), "touches the future after a waiter may have returned", p)
                if m == "Wait":
                    c.check("R5", seen is not None and p.I.truth(p.st, seen) is True and setat is None, name(f), fwhere(f), "returns although the flag was not seen set", p, inst=name(f) + " returns ready")
                    roots.setdefault(f["q"].rsplit("::", 1)[0], []).append((f, mx, cv))
                else:
                    c.check("R3", (setat is not None or seen is not None and p.I.truth(p.st, seen) is True) and woken, name(f), fwhere(f), "the flag is not set and all waiters woken", p, inst=name(f) + " sets and wakes")
                    roots.setdefault(f["q"].rsplit("::", 1)[0], []).append((f, mx, cv))
                    if m == "UpdateValueMarkReady":
                        ok = same(p, VALUE(p), ("A", f["p"][0]["n"]), f["p"][0]["t"])
                        c.check("R4", ok, name(f), fwhere(f), "the value stored is not the one given", p, inst=name(f) + " value")
                c.check("R2", not held, name(f), fwhere(f), "returns with the lock held", p, inst=name(f) + " lock released")
    for q, xs in roots.items():
        mm, vv = set().union(*(x[1] for x in xs)), set().union(*(x[2] for x in xs))
        c.check("R5", len(mm) == 1 and len(vv) == 1, q, fwhere(xs[0][0]), "setter and waiter use different locks or conditions: %s" % ([show(mkaddr(y)) for y in mm | vv]), inst=q)
