"""Memory safety of the read path."""
from sa import rtcheck, rtspec

LEVEL = "proof"
RULE = (
    "Abstract interpretation of the MIR of the runtime crate (as compiled without debug assertions, wrapping arithmetic): every exported safe function and "
    "every trait method of the reading half is a root with arbitrary arguments; values are tracked as linear terms over symbolic lengths, offsets and "
    "element strides, paths are partitioned per branch, loops are summarised by inferred linear induction facts, struct invariants are inferred by "
    "candidate elimination over all roots and are the only assumption about stored fields. Obligation at every unsafe operation (raw pointer "
    "arithmetic and dereference, from_raw_parts, get_unchecked, transmute, unsafe reader calls, from_utf8_unchecked): the accessed bytes lie inside the "
    "slice they derive from, for every input."
)
TRUSTED = ["rustc's MIR construction", "sa/absint.py, sa/lin.py (interpreter and linear entailment)", "sa/models.py (standard library models)", "driver/driver.rs (fact extraction)"]


def check(store, rep):
    r, eng, c = rtcheck.read_run(store, True)
    roots = [f for f in c.fns if rtspec.is_read_root(f)]
    n = rtcheck.report(rep, r, eng, c, ("mem",), roots)
    rep.assumptions += rtcheck.ASSUME
    rep.floor("read roots", len(roots), 150)
    rep.floor("memory obligations", n.get("mem", 0), 30)
    rep.floor("structs with inferred invariants", len(r.inv), 10)
    rep.cov["explored_rounds"] = r.rounds
