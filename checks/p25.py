"""Values are read from exactly the bytes the format assigns to them."""
from sa import rspec, rtcheck

LEVEL = "proof"
RULE = (
    "Abstract interpretation of the MIR of the reading half of the runtime crate. A stored value is a symbolic atom (little-endian load of a type at a position), so following offsets is an exact linear identity. "
    "Obligations at every exit of every reading function: scalars are the little-endian value at their position, booleans `byte is not 0`; strings, byte vectors, vectors and union vectors start behind the length their offset "
    "points at and have that length; a table's object is where its offset points, its slots are the bytes behind the header of the vtable the signed offset points back to; a field is read at the position its slot holds, "
    "relative to its object, exactly when the slot is inside the vtable and not 0; and an error is returned only on paths where a documented malformation is present."
)
TRUSTED = ["rustc's MIR construction", "sa/absint.py, sa/lin.py (interpreter and linear entailment)", "sa/models.py (standard library models)", "sa/rspec.py (the specification)", "driver/driver.rs (fact extraction)"]


def check(store, rep):
    sp = rspec.Spec()
    r, c = rspec.run(store, [sp], rspec.is_core)
    r.inv = {}
    eng = r.analyse()
    roots = [f for f in c.fns if rspec.rtspec.is_read_root(f) and rspec.is_core(f)]
    rtcheck.report(rep, r, eng, c, ("read", "reject"), roots)
    rep.assumptions += rtcheck.ASSUME
    for k, least in (("scalar", 15), ("bytes", 2), ("str", 2), ("vector", 1), ("union vector", 1), ("table", 1), ("present access", 1), ("absent access", 1), ("present access_required", 1), ("present access_union", 1),
                     ("absent access_union", 1), ("present access_union_required", 1), ("present access_union_vector", 1), ("absent access_union_vector", 1), ("present access_union_vector_required", 1)):
        rep.floor("functions matched as `%s`" % k, len(sp.classes.get(k, ())), least)
