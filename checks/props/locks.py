"""Lock files, advisory file locks."""
from core import *
from db import CheckError
import raii
SHM = "score::memory::shared::"


@prop("P13", ["score/memory/shared/lock_file.cpp", "score/memory/shared/flock/*.cpp"], ["memory"])
def p13(c):
    c.rule("R1", "opening a lock file: creating is exclusive, opening never creates, and the handle owns exactly the descriptor and path it opened; it removes the file only if it owns it")
    c.rule("R2", "no descriptor survives a failed opening, and an exclusively created file does not either")
    c.rule("R3", "releasing a lock file closes its descriptor once, and removes the file exactly if it is owned")
    c.rule("R4", "file mutexes lock, try and unlock their own descriptor: exclusive mutexes exclusively, shared ones shared, trying never blocks")
    c.rule("R5", "trying reports success exactly if the lock was obtained, and failure only if it is held elsewhere; every other failure terminates")
    c.rule("R6", "a mutex-with-lock holds nothing when created, reports exactly whether it obtained the lock, and releases exactly what it obtained when destroyed, while its mutex still exists")
    LF = SHM + "LockFile"
    FD, PA, OW = c.field(LF, "^int$"), c.field(LF, "string"), c.field(LF, "bool")
    CREAT, EXCL, WR = (enum(c, "Fcntl::Open", n) for n in ("kCreate", "kExclusive", "kReadWrite"))
    for fn, create, excl in (("Create", True, True), ("CreateOrOpen", True, False), ("Open", False, False)):
        for f in c.fns(LF + "::" + fn):
            for p in c.run(f):
                I, st = p.I, p.st
                if p.out != "ret":
                    c.bad("R1", name(f), fwhere(f), "leaves by " + p.out, p); continue
                op = calls(p, "Fcntl::open")
                if len(op) != 1 or not isc(op[0][1].a[1]):
                    c.bad("R1", name(f), fwhere(f), "the file is not opened exactly once", p); continue
                e = op[0][1]; fl = e.a[1][1]
                c.check("R1", e.a[0] == inp(f["p"][0]["n"]), name(f), e.where(), "opens %s" % show(e.a[0]), p, inst=name(f) + " path")
                c.check("R1", bool(fl & CREAT) == create and bool(fl & EXCL) == excl, name(f), e.where(), "opens with flags %d" % fl, p, inst=name(f) + " flags")
                opened = has_of(I, st, e)
                fd = ("fld", e.res, "#val")
                if hasval(p) is True:
                    o = ("F", p.ret[1], "#val")
                    own = I.read(st, ("F", o, OW))
                    want = {"Create": TRUE, "Open": FALSE}.get(fn) or inp(f["p"][1]["n"])
                    c.check("R1", opened is True, name(f), fwhere(f), "handle returned although opening failed", p, inst=name(f) + " success only if opened")
                    c.check("R1", I.read(st, ("F", o, FD)) == fd, name(f), fwhere(f), "handle holds descriptor %s" % show(I.read(st, ("F", o, FD))), p, inst=name(f) + " descriptor")
                    c.check("R1", I.read(st, ("F", o, PA)) == inp(f["p"][0]["n"]), name(f), fwhere(f), "handle holds path %s" % show(I.read(st, ("F", o, PA))), p, inst=name(f) + " path kept")
                    c.check("R1", own == want, name(f), fwhere(f), "ownership is %s, expected %s" % (show(own), show(want)), p, inst=name(f) + " ownership")
                    c.check("R2", not calls(p, "Unistd::close") and not calls(p, "Unistd::unlink"), name(f), fwhere(f), "the handle handed out was already closed", p, inst=name(f) + " handed out open")
                else:
                    cl = [x for i, x in calls(p, "Unistd::close") if x.a[0] == fd]
                    ul = [x for i, x in calls(p, "Unistd::unlink")]
                    if I.truth(st, eq(I, st, fd, K(-1))) is True: continue      # a successful open does not return -1
                    if opened is False:
                        c.check("R2", not cl and not ul, name(f), fwhere(f), "closes or removes although opening failed", p, inst=name(f) + " not opened")
                    else:
                        c.check("R2", len(cl) == 1, name(f), fwhere(f), "the descriptor just opened is not closed when a later step fails", p, inst=name(f) + " failure after opening")
                        if excl: c.check("R2", len(ul) == 1, name(f), fwhere(f), "the file just created is left behind when a later step fails", p, inst=name(f) + " failure after creating")
                        else: c.check("R2", not ul or fn == "CreateOrOpen" and all(I.truth(st, inp(f["p"][1]["n"])) is True for _ in ul), name(f), fwhere(f), "removes a file that is not owned", p, inst=name(f) + " failure leaves the file")
    for cl in c.db.cls(LF):
        S = raii.Scen(c, cl); X = ("A", "first")
        fd, own, pa = inp("first", FD), inp("first", OW), inp("first", PA)
        for s in S.dtor(S.start(), X):
            cs = [e for e in s.tr if e.k == "call" and e.f.endswith("Unistd::close")]
            us = [e for e in s.tr if e.k == "call" and e.f.endswith("Unistd::unlink")]
            none = S.I.truth(s, S.I.binop(s, "==", fd, K(-1)))
            o = S.I.truth(s, own)
            P = type("P", (), {}); P.tr, P.out, P.ret = s.tr, "ret", None
            w = "%s:%d" % (cl["file"], cl["l"])
            c.check("R3", none is not None and len(cs) == (0 if none else 1) and all(e.a[0] == fd for e in cs), LF + "::~LockFile", w, "descriptor closed %d times" % len(cs), P, inst="close, empty=%s" % none)
            c.check("R3", (len(us) == 0 if none or o is False else len(us) == 1 if o else False) and all(e.a[0] == pa for e in us), LF + "::~LockFile", w, "file removed %d times (owned: %s)" % (len(us), o), P, inst="remove, empty=%s owned=%s" % (none, o))
    FM = SHM + "FlockMutex"
    fdf = c.field(FM, "^int$")
    EX, SH, NB, UN = (enum(c, "Fcntl::Operation", n) for n in ("kLockExclusive", "kLockShared", "kLockNB", "kUnLock"))
    for cls, kind in (("ExclusiveFlockMutex", EX), ("SharedFlockMutex", SH)):
        for cl in c.db.cls(SHM + cls):
            S = raii.Scen(c, cl); X = ("A", "first")
            for f in c.fns(SHM + cls + "::" + cls):
                if f.get("kind") in ("copyctor", "movector"): continue
                for s0, _ in S.call(S.start(), f, X, [("ref", ("A", "file"))]):
                    for m, want in (("lock", kind), ("try_lock", kind | NB), ("unlock", UN)):
                        for g in c.fns(SHM + cls + "::" + m):
                            for s, v in S.call([s0], g, X):
                                fl = [e for e in s.tr if e.k == "call" and e.f.endswith("Fcntl::flock")]
                                P = type("P", (), {}); P.tr, P.out, P.ret = s.tr, "ret", None
                                ok = len(fl) == 1 and fl[0].a[0] == inp("file", FD) and fl[0].a[1] == K(want)
                                c.check("R4", ok, name(g), fwhere(g), "operates with %s, expected operation %d on the descriptor of the lock file" % ([[show(a) for a in e.a] for e in fl], want), P, inst=name(g))
    for m in ("lock", "try_lock", "unlock"):
        for f in c.fns(FM + "::" + m):
            for p in c.run(f):
                fl = [e for i, e in calls(p, "Fcntl::flock")]
                if len(fl) != 1:
                    c.bad("R5", name(f), fwhere(f), "not exactly one file lock operation", p); continue
                ok = has_of(p.I, p.st, fl[0])
                if ok is True:
                    c.check("R5", p.out == "ret" and (m != "try_lock" or p.I.scal(p.st, p.ret) == TRUE), name(f), fwhere(f), "success of the operation reported as %s" % (show(p.ret) if p.ret else p.out), p, inst=name(f) + " success")
                elif m == "try_lock" and p.out == "ret":
                    wb = [e for i, e in calls(p, "createFromErrnoFlockSpecific") if e.a[0] == K(11)]
                    cmp_ = [e for i, e in evs(p, "call") if e.f.endswith("operator==") and p.I.truth(p.st, e.res) is True or e.f.endswith("operator!=") and p.I.truth(p.st, e.res) is False]
                    c.check("R5", p.I.scal(p.st, p.ret) == FALSE and bool(wb) and bool(cmp_), name(f), fwhere(f), "failure other than 'held elsewhere' does not terminate / is reported as success", p, inst=name(f) + " held elsewhere")
                else:
                    c.check("R5", p.out == "abort", name(f), fwhere(f), "failure of the operation is ignored", p, inst=name(f) + " failure terminates")
    ML = SHM + "FlockMutexAndLock"
    for cl in c.db.cls(ML):
        own = [f for f in c.fns(ML + "::" + "FlockMutexAndLock") if f["q"].startswith(cl["n"] + "::") and f.get("kind") not in ("copyctor", "movector")]
        tl = [f for f in c.fns(ML + "::TryLock") if f["q"].startswith(cl["n"] + "::")]
        if not own or not tl: continue
        T = re.search(r"<(.*)>", cl["n"]).group(1).strip()
        S = raii.Scen(c, cl, opaque=lambda sq, g: sq in tuple(T + x for x in ("::lock", "::try_lock", "::unlock")))
        X = ("A", "first")
        w = "%s:%d" % (cl["file"], cl["l"])
        fields = [x for x in cl["fields"]]
        mi = [i for i, x in enumerate(fields) if base_type(x["t"]) == T]

        def held(s):
            """(balance, last result) of the lock operations on the trace"""
            b, bad = 0, None
            for e in s.tr:
                if e.k == "lock": b += 1
                elif e.k == "unlock": b -= 1
                elif e.k == "call" and e.f == T + "::lock": b += 1
                elif e.k == "call" and e.f == T + "::unlock": b -= 1
                elif e.k == "call" and e.f == T + "::try_lock":
                    r = S.I.truth(s, e.res)
                    if r is None: bad = "result of try_lock not examined"
                    b += 1 if r else 0
                if b < 0: bad = "released although not held"
                if b > 1: bad = "acquired twice"
                m = e.m if e.k in ("lock", "unlock") else (e.o if e.k == "call" and e.f.startswith(T + "::") else None)
                if m is not None and not (under(m, X) and mi and m == ("F", X, fields[mi[0]]["n"])): bad = "operates on a different mutex"
            return b, bad

        def P(s):
            p = type("P", (), {}); p.tr, p.out, p.ret = s.tr, "ret", None
            return p
        c.check("R6", len(mi) == 1, cl["n"], w, "the object does not hold its mutex by value", inst=cl["n"] + " owns its mutex")
        for s0, _ in S.call(S.start(), own[0], X, [("ref", ("A", "file"))]):
            b, bad = held(s0)
            c.check("R6", b == 0 and not bad, cl["n"] + " constructor", fwhere(own[0]), bad or "holds the lock already when created", P(s0), inst=cl["n"] + " created unlocked")
            for s in S.dtor([s0], X):
                b, bad = held(s)
                c.check("R6", b == 0 and not bad, cl["n"] + " destructor", w, bad or "lock balance %d after destruction" % b, P(s), inst=cl["n"] + " destroyed without locking")
            res = set()
            for s1, v in S.call([s0], tl[0], X):
                res.add(S.I.truth(s1, S.I.scal(s1, v)))
                b, bad = held(s1)
                r = S.I.truth(s1, S.I.scal(s1, v))
                c.check("R6", not bad and r is bool(b) and any(e.k == "lock" or e.k == "call" and e.f.endswith("lock") for e in s1.tr) or (not bad and r is False and b == 0), name(tl[0]), fwhere(tl[0]), bad or "reports %s while the lock is %sheld" % (r, "" if b else "not "), P(s1), inst="%s TryLock %s" % (cl["n"], r))
                for s in S.dtor([s1], X):
                    b, bad = held(s)
                    c.check("R6", b == 0 and not bad, cl["n"] + " destructor", w, bad or "the lock is still held after destruction", P(s), inst="%s released after TryLock %s" % (cl["n"], r))
            c.check("R6", True in res, name(tl[0]), fwhere(tl[0]), "never obtains the lock", inst=cl["n"] + " TryLock can succeed")
        # members are destroyed in reverse order: the guard must follow the mutex it refers to
        gi = [i for i, x in enumerate(fields) if "unique_lock" in x["t"] or "guard" in x["t"] or "lock<" in x["t"]]
        if mi and gi:
            c.check("R6", mi[0] < gi[0], cl["n"], w, "the mutex is destroyed before the lock that releases it", inst=cl["n"] + " member order")


def has_of(I, st, e):
    return I.truth(st, ("fld", e.res, "#has"))
