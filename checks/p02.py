"""No panics on untrusted bytes."""
from sa import rtcheck, rtspec

LEVEL = "proof"
RULE = (
    "The same abstract interpretation as P01, on the MIR of the runtime crate compiled with overflow checks and debug assertions. Obligation at every "
    "potential panic reachable from a reading entry point (overflow, index and slice bounds, division by zero, unwrap/expect, explicit and debug "
    "assertions, length-mismatched copies, zero chunk sizes): its condition is implied by the path and the inferred struct invariants, for every input buffer."
)
TRUSTED = ["rustc's MIR construction", "sa/absint.py, sa/lin.py (interpreter and linear entailment)", "sa/models.py (standard library models)", "driver/driver.rs (fact extraction)"]


def check(store, rep):
    r, eng, c = rtcheck.read_run(store, False)
    roots = [f for f in c.fns if rtspec.is_read_root(f)]
    n = rtcheck.report(rep, r, eng, c, ("panic",), roots)
    rep.assumptions += rtcheck.ASSUME
    rep.floor("read roots", len(roots), 150)
    rep.floor("panic obligations", n.get("panic", 0), 500)
    rep.floor("structs with inferred invariants", len(r.inv), 10)
