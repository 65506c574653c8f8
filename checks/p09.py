"""Stored offsets point at what they refer to."""
from sa import wcheck

LEVEL = "proof"
RULE = (
    "Abstract interpretation of the MIR of the writing half of the runtime crate with the growable buffer summarised as a byte string growing at its front. Obligations: each stored offset equals (position of the object) - (position of the field holding it) as an exact linear identity; the vtable offset of a table is the distance from the table to its vtable; the root offset of a finished buffer points at the root object; the position returned for every prepared object is the one it was written at."
)
TRUSTED = wcheck.TRUSTED


LAYOUT = ("union values", "element step", "element order", "element write")  # vectors of offsets


def check(store, rep):
    n, sp, eng, c = wcheck.run(store, rep, ("offset", "pos", ("value", "field")) + tuple(("layout", d) for d in LAYOUT), (("vector", 8), ("write", 8), ("create", 2), ("finish", 1), ("table", 1), ("current_offset", 1)))
    bad = [p for p, ok in sp.steps.items() if not ok]
    for p in bad:
        rep.ob(False, "offset:%s:loop" % p, "the loop of %s that writes the offsets could not be matched to \"offset i refers to object i\"" % p)
