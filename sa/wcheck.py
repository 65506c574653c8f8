"""Shared driver of the checks about what the serialising half of the runtime writes."""
from sa import layout, wspec, rtspec
from sa.rtcheck import report

ASSUME = [
    "an allocation of more than 2^31 bytes does not return (buffers are limited to 2 GiB by the format)",
    "user implementations of the writing traits keep their documented contract: `prepare` returns an offset to what it wrote, SIZE/ALIGNMENT describe the bytes written",
    "the growable buffer is a byte string growing at its front (decided by P03) and the standard library behaves as modelled in sa/models.py",
]
TRUSTED = ["rustc's MIR construction", "sa/absint.py, sa/lin.py (interpreter and linear entailment)", "sa/models.py (standard library models)",
           "sa/layout.py, sa/wspec.py (the specification)", "driver/driver.rs (fact extraction)"]


def run(store, rep, kinds, classes=(), align=False):
    sp = wspec.Spec()
    r, eng, c, missing = layout.run(store, [layout.spec_align, sp] if align else [sp])
    for m in missing:
        rep.ob(False, "engine:api " + m, "the growable buffer has no operation `%s`; its summary does not apply" % m)
    roots = [f for f in c.fns if layout.is_layout_root(f)]
    n = report(rep, r, eng, c, kinds, roots)
    rep.floor("write roots", len(roots), 150)
    rep.assumptions += ASSUME
    for k, least in classes:
        rep.floor("functions matched as `%s`" % k, len(sp.classes.get(k, ())), least)
    return n, sp, eng, c
