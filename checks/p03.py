"""Builder writes stay inside the buffer and leave no uninitialised byte."""
from sa import rtcheck, rtspec, wcheck

LEVEL = "proof"
RULE = (
    "Abstract interpretation of the MIR of the writing half of the runtime crate (no debug assertions, wrapping arithmetic). Obligations: every raw "
    "pointer operation of the growable back-to-front buffer stays inside its allocation and frees it exactly once with its own layout; at every use of the "
    "reserve-and-fill primitive the closure initialises every reserved byte on every path; every element writer fills len * STRIDE bytes; every value is "
    "handed a cursor of exactly its SIZE; and the position it is told equals the position the bytes end up at. The primitive itself is analysed once with "
    "an arbitrary closure (the position it hands out is the length of the buffer after the write) and summarised at its uses (assume-guarantee). A second pass "
    "with the buffer summarised as a byte string shows that every position and offset handed out for an object is the one its bytes end up at."
)
TRUSTED = ["rustc's MIR construction", "sa/absint.py, sa/lin.py (interpreter and linear entailment)", "sa/models.py (standard library models)", "driver/driver.rs (fact extraction)"]


def check(store, rep):
    wcheck.run(store, rep, tuple(("offset", d) for d in ("current offset", "returned offset", "create", "vtable position")))
    rep.assumptions.clear()
    r, eng, c = rtcheck.write_run(store)
    roots = [f for f in c.fns if rtspec.is_write_root(f)]
    n = rtcheck.report(rep, r, eng, c, ("mem", "pos", "size"), roots)
    rep.assumptions += ["an allocation of more than 2^31 bytes does not return (buffers are limited to 2 GiB by the format)",
                        "the standard library and array-init-cursor behave as modelled in sa/models.py"]
    rep.floor("write roots", len(roots), 150)
    rep.floor("memory obligations", n.get("mem", 0), 300)
    rep.floor("position obligations", n.get("pos", 0), 20)
    rep.floor("size obligations", n.get("size", 0), 1)
    for p in ("planus::backvec::BackVec",):
        rep.floor("invariants of " + p, len(r.inv.get(p, ())), 3)
