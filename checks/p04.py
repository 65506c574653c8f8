"""Everything is written at its alignment."""
from sa import wcheck

LEVEL = "proof"
RULE = (
    "Abstract interpretation of the MIR of the writing half of the runtime crate with the growable buffer summarised as a byte string growing at its front. Obligations at every exit and loop head: length + promised bytes is kept; the recorded alignment mask only grows; each reserved write starts at a multiple of the alignment asked for, with no more padding than needed; every length prefix, offset and table starts on 4; elements of vectors start on their own alignment; a table's fields start on the alignment collected from its entries."
)
TRUSTED = wcheck.TRUSTED


def check(store, rep):
    n, sp, eng, c = wcheck.run(store, rep, ("align",), (("vector", 8), ("write_values", 8), ("create", 2)), align=True)
    from collections import Counter
    kinds = Counter(k[2] for k in eng.obs if k[0] == "align")
    for k, least in (("aligned write", 1), ("padding", 1), ("object start", 10), ("element alignment", 3), ("object alignment", 1), ("entry alignment", 2), ("alignment recorded", 1)):
        rep.floor("sites of `%s`" % k, kinds.get(k, 0), least)
