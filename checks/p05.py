"""Values are written faithfully, in little-endian order."""
from sa import wcheck

LEVEL = "proof"
RULE = (
    "Abstract interpretation of the MIR of the writing half of the runtime crate with the growable buffer summarised as a byte string growing at its front. Obligations: every scalar writer stores the little-endian bytes of the value it was given, at its full width; booleans are stored as 0 or 1; string and byte vectors store exactly the bytes of their argument; every element of a slice, array or bulk vector is stored once, at its own index; forwarding implementations (references, boxes, options) write the value they wrap."
)
TRUSTED = wcheck.TRUSTED


LAYOUT = ("string", "byte vector", "vector", "union values", "union tags", "element step", "element order", "element write")


def check(store, rep):
    n, sp, eng, c = wcheck.run(store, rep, ("value", "elide") + tuple(("layout", d) for d in LAYOUT), (("write", 8), ("scalar", 20), ("write_values", 8), ("forwarding", 10), ("str", 6), ("bytes", 4)))
    bad = [p for p, ok in sp.steps.items() if not ok]
    for p in bad:
        rep.ob(False, "value:%s:loop" % p, "the loop of %s that writes the elements could not be matched to \"element i goes to place i\"" % p)
    rep.floor("element loops", len(sp.steps), 6)
