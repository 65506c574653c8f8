"""Shared driver of the checks about the code the compiler generates.

The compiler is run on witness schemas (as a macro would be expanded) and what it generates is type-checked and analysed together
with the runtime crate; nothing that was generated is ever executed."""
from sa import genspec, witness, facts

ASSUME = [
    "the witness schemas (sa/witness.py) contain each construct of the schema language in the combinations that matter to slots, layout, numbering, presence and naming; code for other schemas comes from the same generator",
    "the runtime functions generated code calls (table accessors, table writer, builder) behave as documented: P04, P05, P09, P10, P24 and P25 decide that",
]
TRUSTED = ["rustc's MIR construction", "sa/schema.py (the schema model: slots, offsets, numbers and defaults worked out from the format's documentation)",
           "sa/genspec.py (the specification)", "sa/absint.py, sa/lin.py, sa/models.py (interpreter and standard library models)", "driver/driver.rs (fact extraction)"]


def run(store, rep, kinds, floors, schemas=None):
    """kinds: "kind" for every obligation of a kind, "kind/prefix" for those whose key starts with the prefix."""
    total = {}
    fns = set()
    whole = {k for k in kinds if "/" not in k}
    part = tuple(tuple(k.split("/", 1)) for k in kinds if "/" in k)
    for stem, make in (schemas or [("main", witness.main)]):
        s = make()
        wit, texts = store.witness(stem, s.texts())
        obs = []
        sp = genspec.Spec(s, wit, store.runtime(), stem, wit.name, whole | {k for k, _ in part}, obs)
        sp.deep = rep.tier == "thorough"
        sp.run()
        merged = {}
        for kind, key, ok, msg in obs:
            if kind not in whole and not key.startswith("engine:") and not any(kind == a and key.startswith(b) for a, b in part):
                continue
            k = "%s:%s" % (kind, key)
            total[kind] = total.get(kind, 0) + 1
            good, text = merged.get(k, (True, msg))
            if good and not ok:
                text = msg
            merged[k] = (good and ok, text)
        for k, (ok, text) in sorted(merged.items()):
            rep.ob(ok, k, text + " [generated for the witness schema %s]" % stem if not ok else text)
        fns |= sp.analysed
        rep.cov["witness %s" % stem] = "%d declarations, %d generated functions of which %d analysed, %d lines generated" % (len(s.decls), len(wit.fns), len(sp.analysed), sum(len(t.splitlines()) for t in texts.values()))
    for k, n in sorted(total.items()):
        rep.cov["obligations: " + k] = n
    for k, least in floors.items():
        rep.floor("obligations of kind `%s`" % k, total.get(k, 0), least)
    rep.floor("generated functions analysed", len(fns), floors.get("fns", 20) if isinstance(floors.get("fns"), int) else 20)
    rep.assumptions += ASSUME
    return total
