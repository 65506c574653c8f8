"""Shared driver of the checks that interpret the runtime crate abstractly."""
from sa import rtspec
from sa.runtime import Runtime

MUST_READ = (
    "planus::table_reader::Table::<'buf>::from_buffer", "planus::table_reader::Table::<'buf>::access", "planus::table_reader::Table::<'buf>::access_required",
    "planus::table_reader::Table::<'buf>::access_union", "planus::table_reader::Table::<'buf>::access_union_vector",
    "planus::vectors::vector::Vector::<'buf, T>::get", "planus::union_vectors::union_vector::UnionVector::<'buf, T>::get",
    "planus::slice_helpers::SliceWithStartOffset::<'buf>::advance", "planus::slice_helpers::SliceWithStartOffset::<'buf>::advance_as_array",
)


def read_run(store, release):
    c, ac = store.runtime(release)

    def roots(eng):
        return [f for f in c.fns if rtspec.is_read_root(f)]
    r = Runtime([c, ac], roots, setup=rtspec.setup, inv_types=lambda p: not rtspec.write_inv_type(p) and p.startswith("planus::") and not p.startswith("planus::builder"))
    r.houdini()
    return r, r.analyse(), c


def write_run(store):
    c, ac = store.runtime(True)

    def roots(eng):
        return [f for f in c.fns if rtspec.is_write_root(f)]
    r = Runtime([c, ac], roots, setup=rtspec.setup_write, inv_types=rtspec.write_inv_type, inv_filter=rtspec.write_inv_filter)
    r.houdini()
    return r, r.analyse(), c


def report(rep, r, eng, c, kinds, roots, skip=()):
    """Copy the obligations of the given kinds into the report."""
    n = {}
    for (kind, path, detail), o in sorted(eng.obs.items(), key=lambda x: str(x[0])):
        if kind == "engine":
            rep.ob(False, "engine:%s" % path, "%s could not be analysed: %s" % (path, o["msgs"][0]))
            continue
        if kind not in kinds and (kind, detail) not in kinds or (kind, detail) in skip:
            continue
        n[kind] = n.get(kind, 0) + o["ok"] + o["fail"]
        fn = o["fn"]
        rep.obligations += o["ok"] + o["fail"]
        rep.discharged += o["ok"]
        if o["fail"]:
            rep.fail("%s:%s:%s" % (kind, path, detail), "%s (%s:%s): %s\n    reached from %s" % (
                path, fn.span[0], o["line"], " / ".join(m[:600] for m in o["msgs"][:2]), ", ".join(sorted(x for x in o["roots"] if x))[:500]))
        elif len(rep.samples) < 12:
            rep.samples.append("%s: %s in %s, discharged %d times" % (kind, detail, path, o["ok"]))
    rs = [f.path for f in roots]
    rep.cov["functions_analysed_as_roots"] = len(rs)
    rep.cov["roots"] = rs
    rep.cov["obligation_sites"] = len([1 for k in eng.obs if k[0] in kinds or (k[0], k[2]) in kinds])
    rep.cov["inferred_type_invariants"] = {p: [i.key for i in l] for p, l in (r.inv or {}).items()}
    rep.cov["opaque_generic_callees"] = sorted(k for k in eng.unmodelled if k.startswith("planus::"))
    rep.cov["obligations_by_kind"] = n
    return n


ASSUME = [
    "the standard library, hashbrown and array-init-cursor primitives behave as modelled in sa/models.py (array-init-cursor's own unsafe code is decided by P41)",
    "buffers are at most isize::MAX bytes long (a language guarantee)",
    "offsets handed to the public slice helpers are at most 2^62, chunk sizes are at least 1 (documented panics)",
]
