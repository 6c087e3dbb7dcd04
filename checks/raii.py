"""Resource conservation of movable handles: whatever is released by destroying a handle is released exactly once after any
sequence of moves, on the object that ended up owning it."""
import re
from absint import *
from absint import St
from core import Ctx, show, fwhere
from db import CheckError


def member(cls, kind):
    for m in cls["m"]:
        if m.get("kind") == kind and not m.get("del"):
            return m
    return None


class Scen:
    def __init__(self, c, cls, maxpaths=4000, hooks=None, effect=None, **kw):
        self.c, self.cls = c, cls
        self.I = Interp(c.db, maxpaths=maxpaths, maxsteps=2000000, **kw)
        if hooks: self.I.hooks.update(hooks)
        self.I.fin = []; self.I.steps = 0; self.I.stack = []; self.I.frame = None; self.I.fid = 0
        self.effect = effect
        self.I.plain = (("A", "first"), ("A", "second"))

    def start(self):
        return [St()]

    def _run(self, sts, f):
        out = []
        for s in sts:
            self.I.fin = []; self.I.stack = []; self.I.frame = None
            self.I.cur = (self.cls["sq"], self.cls["file"], self.cls["l"])
            try:
                out += f(s.copy())
            except Limit as e:
                raise CheckError("analysis limit exceeded in %s (%s)" % (self.cls["sq"], e))
            # aborting paths end the process: nothing left to release
        for x in self.I.functions_seen: self.c.functions.add(x[0])
        self.c.paths += len(out)
        return out

    def call(self, sts, fn, this, args=()):
        """call fn (constructor or method) on this with argument values -> states; the value is left in st.lastret"""
        out = []
        for s in sts:
            self.I.fin = []; self.I.stack = []; self.I.frame = None
            self.I.cur = (fn["sq"], fn["file"], fn["l"])
            try:
                for x, v in self.I.inline(fn, s.copy(), this, list(args), []):
                    out.append((x, v))
            except Limit as e:
                raise CheckError("analysis limit exceeded in %s (%s)" % (fn["sq"], e))
        for x in self.I.functions_seen: self.c.functions.add(x[0])
        self.c.paths += len(out); self.c.entries += 1
        return out

    def dtor(self, sts, p):
        return self._run(sts, lambda s: self.I.destroy(s, p, self.cls["n"]))

    def move_member(self, s, kind, dst, src, cls):
        m = member(cls, kind)
        if m is None:
            raise CheckError("%s has no %s" % (cls["sq"], kind))
        fn = self.I.db.F.get(m["u"])
        if fn is not None and self.I.can_inline(fn):
            return [x for x, _ in self.I.inline(fn, s, dst, [("ref", src)], [])]
        if not (m.get("def") or m.get("impl")):
            raise CheckError("no body of the %s of %s" % (kind, cls["n"]))
        cur = [s]                     # defaulted: memberwise
        for b in cls["bases"]:
            bc = self.I.db.C.get(base_type(b["t"]))
            if bc is not None and (bc["fields"] or bc["bases"]):
                cur = [y for x in cur for y in self.move_member(x, kind, dst, src, bc)]
        for f in cls["fields"]:
            fd, fs = ("F", dst, f["n"]), ("F", src, f["n"])
            fc = self.I.db.C.get(base_type(f["t"]))
            if fc is not None and fc.get("repo") and member(fc, kind):
                cur = [y for x in cur for y in self.move_member(x, kind, fd, fs, fc)]
            else:
                if fc is not None or re.search(r"unique_ptr|shared_ptr|optional|variant|function|vector|string", f["t"]):
                    raise CheckError("no body of the %s of %s, needed for its member %s" % (kind, cls["n"], f["n"]))
                for x in cur:
                    self.I.copyobj(x, fs, fd)
        return cur

    def mctor(self, sts, dst, src):
        return self._run(sts, lambda s: self.move_member(s, "movector", dst, src, self.cls))

    def massign(self, sts, dst, src):
        return self._run(sts, lambda s: self.move_member(s, "moveassign", dst, src, self.cls))

    def effects(self, st, own):
        out = []
        for e in st.tr:
            d = None
            if e.p is not None and e.k in ("rmw", "astore", "cas") and any(under(e.p, o) for o in own):
                continue
            if self.effect is not None:
                d = self.effect(self.I, st, e)
            elif e.k in ("rmw", "astore", "cas"):
                d = (e.k, e.p, e.op, e.arg if e.k == "rmw" else (e.v if e.k == "astore" else e.des))
            elif e.k == "call":
                d = ("call", e.f, tuple(e.a or ()))
            elif e.k == "dtor" and not e.t.startswith("std::"):
                d = ("dtor", e.t, None)
            elif e.k in ("delete", "free"):
                d = (e.k, e.p)
            elif e.k == "wr" and not any(under(e.p, o) for o in own):
                d = ("wr", e.p, e.v)
            if d is not None and root(e.p)[0] != "L" if e.p else d is not None:
                out.append(d)
        return out


def conserve(c, rid, cls, name=None, effect=None, ignore=(), **kw):
    """rule rid: moves of cls conserve what its destruction releases"""
    S = Scen(c, cls, effect=effect, **kw)
    X, Y = ("A", "first"), ("A", "second")
    own = (X, Y)
    where = "%s:%d" % (cls["file"], cls["l"])
    name = name or cls["sq"]

    def norm(l): return sorted(re.sub(r"('(?:r|v|new)', '[^']*'), \d+", r"\1, #", str(x)) for x in l if not (x[0] == "call" and any(x[1].endswith(i) for i in ignore)))
    base = {}
    for o in own:
        base[o] = [(s, S.effects(s, own)) for s in S.dtor(S.start(), o)]
    nontriv = any(e for s, e in base[X])

    def expect(st, objs):
        """combinations of what destroying objs releases, for the facts of st"""
        cur = [(st.copy(), [])]
        for o in objs:
            nxt = []
            for s, acc in cur:
                for bs, eff in base[o]:
                    n = s.copy(); good = True
                    for t, v in bs.f.items():
                        if S.I.truth(n, t) is (not v) or S.I.assume(n, t, v) is False:
                            good = False; break
                    if good: nxt.append((n, acc + eff))
            cur = nxt
        return cur

    def compare(sts, objs, what):
        n = 0
        for s in sts:
            got = norm(S.effects(s, own))
            for es, want in expect(s, objs):
                n += 1
                w = norm(want)
                if got != w:
                    extra = [x for x in got if x not in w or got.count(x) > w.count(x)]
                    miss = [x for x in w if x not in got or got.count(x) < w.count(x)]
                    class P: pass
                    p = P(); p.tr = s.tr; p.out = "ret"; p.ret = None
                    c.bad(rid, name, where, "%s: %s%s" % (what, "released twice / too much: %s " % extra[:2] if extra else "", "never released: %s" % miss[:2] if miss else ""), p)
                else:
                    c.ok(rid, "%s: %s (%d releases)" % (name, what, len(w)))
        return n
    n = 0
    if member(cls, "movector"):
        s = S.mctor(S.start(), Y, X); s = S.dtor(s, X); s = S.dtor(s, Y)
        n += compare(s, [X], "move construction, then both destroyed")
        s = S.mctor(S.start(), Y, X); s = S.dtor(s, Y); s = S.dtor(s, X)
        n += compare(s, [X], "move construction, then both destroyed in reverse")
    if member(cls, "moveassign"):
        s = S.massign(S.start(), Y, X); s = S.dtor(s, X); s = S.dtor(s, Y)
        n += compare(s, [X, Y], "move assignment, then both destroyed")
        s = S.massign(S.start(), Y, Y); s = S.dtor(s, Y)
        n += compare(s, [Y], "self move assignment, then destroyed")
    return n, nontriv
