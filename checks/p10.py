"""Objects have the documented layout."""
from sa import wcheck

LEVEL = "proof"
RULE = (
    "Abstract interpretation of the MIR of the writing half of the runtime crate with the growable buffer summarised as a byte string growing at its front. Obligations: a vector is its element count followed by its elements and nothing else; a string its byte count, bytes and a zero terminator; a vtable its own size, the object's size and the slots; a table the vtable offset followed by its entries in the order they were announced; a table entry lands in the slot asked for; a finished buffer starts with the root offset, followed by the identifier when one is given."
)
TRUSTED = wcheck.TRUSTED


TABLES = ("empty table", "vtable bytes", "vtable extent", "vtable header", "object size", "vtable offset", "slot", "entry room", "vtable size", "table", "root offset", "finished buffer")


def check(store, rep):
    n, sp, eng, c = wcheck.run(store, rep, ("layout", ("value", "field")) + tuple(("offset", d) for d in TABLES), (("vector", 8), ("union", 6), ("vtable", 1), ("table", 1), ("table default", 1), ("entry", 1), ("object write", 1), ("finish", 1), ("str", 6), ("bytes", 4), ("create", 2)))
