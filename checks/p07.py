"""Data is shared only with equal data; a cleared builder is as good as new."""
from sa import cachespec, layout
from sa.rtcheck import report
from sa.absint import L
from sa.wcheck import ASSUME, TRUSTED  # noqa: F401

LEVEL = "proof"
RULE = (
    "Abstract interpretation of the MIR of the writing half of the runtime crate, with the hash table's lookup giving back any entry its equality closure accepts. Obligations: on every path on which an earlier object is handed out instead of writing, "
    "the path condition implies that the bytes behind that object's length prefix, as many as the prefix says, equal the whole of the value to be written; what is remembered is the position of the object just written, under the hash of its contents; "
    "strings, byte vectors and vtables are remembered in different tables; and clearing a builder empties every table and leaves every counter with the value a new builder has."
)


def check(store, rep):
    sp = cachespec.Spec()
    r, eng, c, missing = layout.run(store, [sp])
    for m in missing:
        rep.ob(False, "engine:api " + m, "the growable buffer has no operation `%s`; its summary does not apply" % m)
    roots = [f for f in c.fns if layout.is_layout_root(f)]
    report(rep, r, eng, c, ("hit", "insert", "reset"), roots)
    kinds = sorted(sp.tables)
    for i, a in enumerate(kinds):
        for b in kinds[i + 1:]:
            common = set(sp.tables[a]) & set(sp.tables[b])
            rep.ob(not common, "table:%s:%s" % (a, b), "a %s and a %s are remembered in the same table: %s" % (a, b, sorted(str(x) for x in common)), "%s and %s use different tables" % (a, b))
        rep.ob(len(sp.tables[a]) == 1, "table:" + a, "objects of kind %s are looked up and remembered in more than one table (%s)" % (a, sorted(sp.tables[a])), "one table for %s" % a)
    # reset
    rep.floor("builders made", len(sp.fresh), 2)
    rep.floor("ways through clear", len(sp.cleared), 1)
    if sp.fresh:
        want = {k: v for k, (_, v) in sp.fresh[0][1].items()}
        for path, shape in sp.fresh:
            for k, (w, v) in shape.items():
                if isinstance(v, L):
                    rep.ob(v.is_const() and v.key == want[k].key, "new:%s:%s" % (path, k), "%s makes a builder whose %s is not a constant, or another one than other constructors use" % (path, k), "%s of a new builder is %s" % (k, v.c))
        used = {t: k for k in kinds for t in sp.tables[k]}
        for shape, gone in sp.cleared:
            for t, k in used.items():
                rep.ob(t in gone, "clear:table:" + k, "clear() does not empty the table in which earlier %s objects are remembered" % k, "clear() empties the table of " + k)
            for k, (w, v) in shape.items():
                if isinstance(want.get(k), L):
                    rep.ob(isinstance(v, L) and v.key == want[k].key, "clear:" + k, "after clear() the %s of `%s` is not that of a new builder" % (w, k), "clear() resets " + k)
    for k, n in (("hit str", 5), ("hit bytes", 5), ("hit vtable", 1), ("insert str", 5), ("insert bytes", 5), ("insert vtable", 1)):
        rep.floor("functions or tables matched as `%s`" % k, len(sp.seen.get(k, ())), n)
    rep.assumptions += ASSUME
