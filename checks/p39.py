"""Vectors read from a buffer behave like slices of their elements."""
from sa import rtcheck, vecspec

LEVEL = "proof"
RULE = (
    "Abstract interpretation of the MIR of the vector types of the runtime crate and their iterators, with struct invariants inferred over all reading functions. A vector denotes the elements lying STRIDE bytes apart from its start (a union "
    "vector: tags 1 and values 4 bytes apart). Obligations at every exit: indexing by a number or any range type, first/last, splitting and len give what the slice operation of that name gives, as exact identities on element ranges, and nothing "
    "exactly when the index is out of range; iterators, chunks, exact chunks with their remainder and windows, from either end, with any skip and any size, return the right range of elements and keep exactly the rest; len, count and "
    "size_hint are the number of items left (m items of size c: m*c >= n > (m-1)*c); an iterator that returned nothing stays empty."
)
TECHNIQUE = "abstract interpretation (linear and product terms, trace partitioning, inferred struct invariants) against slice semantics"
TRUSTED = ["rustc's MIR construction", "sa/absint.py, sa/lin.py (interpreter and linear entailment)", "sa/models.py (standard library models)", "sa/vecspec.py (slice semantics)"]


def check(store, rep):
    sp = vecspec.Spec()
    r, eng, c, roots = vecspec.run(store, sp)
    rtcheck.report(rep, r, eng, c, ("slice",), roots)
    rep.assumptions += rtcheck.ASSUME + ["an inclusive range used as an index has not been iterated to exhaustion"]
    for k, least in (("element", 2), ("range", 14), ("len", 2), ("split", 4)):
        rep.floor("functions matched as `%s`" % k, len(sp.classes.get(k, ())), least)
    for k in ("Iter", "Chunks", "RChunks", "ChunksExact", "RChunksExact", "Windows"):
        for n in ("next", "next_back", "len"):
            rep.floor("functions matched as `%s %s`" % (n, k), len(sp.classes.get(n + " " + k, ())), 2)
    for k in ("iter", "chunks", "rchunks", "chunks_exact", "rchunks_exact", "windows"):
        rep.floor("functions matched as `start %s`" % k, len(sp.classes.get("start " + k, ())), 2)
