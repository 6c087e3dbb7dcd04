"""Modular view of the slot status class: its predicates (whose meaning is decided by P01) are single terms."""
from absint import *

ESS = "score::mw::com::impl::lola::EventSlotStatus"


def data(I, st, op):
    c = I.db.cls(ESS)[0]["fields"]
    return I.read(st, ("F", op, c[0]["n"]))


def pred(name):
    def h(I, st, e, op, vs):
        a = tuple(I.argval(st, v) for v in vs)
        d = data(I, st, op)
        if d == C(0) and name == "IsInvalid": return [(st, TRUE)]
        if d == C(0) and name in ("IsInWriting", "IsUsed"): return [(st, FALSE)]
        if d == C(0xFFFFFFFF) and name == "IsInWriting": return [(st, TRUE)]
        if d == C(0xFFFFFFFF) and name == "IsInvalid": return [(st, FALSE)]
        return [(st, ("pred", name, d) + a)]
    return h


def status_hooks(names=("IsTimeStampBetween", "IsInvalid", "IsInWriting", "IsUsed")):
    return {ESS + "::" + n: pred(n) for n in names}
