"""Determinism: nothing observable of a compilation depends on hash seeds, time, the environment,
randomness, threads or addresses."""
from sa.facts import ty_str

RULE = (
    "Effect/taint rule over the type-checked MIR of the lexer, parser, translation, code-generation and command-line crates: "
    "(a) no resolved call reaches a nondeterminism source (clock, thread, process id, environment, random generator, hasher state); "
    "(b) every iteration over a container with a randomly seeded hasher is followed through its local uses and must end in an "
    "order-insensitive consumer (count/any/all/min/max/len, collection into an ordered or hashed container, or a sort of the collected vector), and no such "
    "container is formatted or handed to a function that would iterate it by way of a type parameter; "
    "(c) no pointer is turned into an integer or formatted as an address; (d) every colour drawn from the colour generator has a seed that derives "
    "from the backend's own counter."
)
CRATES = ["planus_types", "planus_lexer", "planus_translation", "planus_codegen", "planus-bin"]
SOURCES = (
    "std::time::", "std::thread::", "std::env::", "std::net::", "std::process::id", "std::random", "std::hash::random",
    "rand::", "rand_core::", "getrandom::", "fastrand::", "uuid::", "chrono::", "std::sync::mpsc",
    "core::hash::BuildHasher::", "core::any::type_name_of", "std::fs::read_dir", "std::fs::metadata", "std::fs::canonicalize",
)
# locating the process' own command line is its input
ALLOWED = ("std::env::args", "std::env::current_dir")
INSENSITIVE = ("::count", "::any", "::all", "::min", "::max", "::sum", "::len", "::is_empty", "::min_by_key", "::max_by_key", "::product")
ITER = ("::iter", "::iter_mut", "::keys", "::values", "::values_mut", "::into_iter", "::drain", "::into_keys", "::into_values", "::retain", "::extract_if",
        "::difference", "::intersection", "::union", "::symmetric_difference", "::for_each")


def hashed(t):
    """Does the type contain a randomly ordered container?"""
    while t[0] in ("ref", "ptr"):
        t = t[1]
    return t[0] == "adt" and ("hash::map::HashMap" in t[1] or "hash::set::HashSet" in t[1] or "hashbrown::" in t[1])


def hash_iter_ty(t):
    while t[0] in ("ref", "ptr"):
        t = t[1]
    if t[0] != "adt":
        return False
    if ("hash::map::" in t[1] or "hash::set::" in t[1] or t[1].startswith("hashbrown::")) and t[1].rsplit("::", 1)[1] in (
            "Iter", "IterMut", "IntoIter", "Keys", "Values", "ValuesMut", "Drain", "IntoKeys", "IntoValues", "Difference", "Intersection", "Union", "SymmetricDifference", "ExtractIf"):
        return True
    return any(hash_iter_ty(a) for a in t[2] if a[0] in ("adt", "ref", "ptr"))


def inside(t):
    """is a hash container among the parts of the type that formatting would show"""
    while t[0] in ("ref", "ptr", "slice", "array"):
        t = t[1]
    return hashed(t) or t[0] == "adt" and any(inside(a) for a in t[2] if a[0] in ("adt", "ref", "tuple")) or t[0] == "tuple" and any(inside(a) for a in t[1])


def leaks(c, p, cal, i, args, locs, dt):
    """Does the call walk the container in its own (random) order, unseen by the rule about iterators?"""
    if i == 0 and "::hash::" in p or p.endswith("::into_iter"):
        return False
    if p.endswith(("::extend", "::from_iter")) or p.startswith(("core::iter::", "itertools::", "alloc::", "indexmap::")):
        to = dt
        if p.endswith("::extend") and op_local(args[0]) is not None:
            to = locs[op_local(args[0])]
            while to[0] in ("ref", "ptr"):
                to = to[1]
        return not (hashed(to) or holds_unordered(to) or hash_iter_ty(to) or to[0] == "adt" and ("BTree" in to[1] or to[1].startswith("alloc::") and any(hashed(a) for a in to[2])))
    callee = c.by_id.get(cal.get("rid") or cal.get("id")) if isinstance(cal, dict) else None
    if callee is not None and callee.body and i + 1 < len(callee.body["locals"]):
        x = callee.body["locals"][i + 1]
        return not inside(c.ty(x) if isinstance(x, int) else x)
    return False


def holds_unordered(t):
    """an option, a result or a tuple whose containers all forget the order"""
    if t[0] == "adt" and t[1].rsplit("::", 1)[1] in ("Option", "Result"):
        return any(hashed(a) or a[0] == "adt" and ("BTree" in a[1] or holds_unordered(a)) for a in t[2])
    if t[0] == "adt" and t[1].rsplit("::", 1)[1] in ("ControlFlow",):
        return False
    return t[0] == "tuple" and bool(t[1]) and all(hashed(a) or a[0] == "adt" and "BTree" in a[1] for a in t[1])


def op_local(o):
    return o[1][0] if o[0] in ("c", "m") else None


def check(store, rep):
    nfn = ncall = niter = ncolor = nhanded = 0
    for cn in CRATES:
        c = store.crate(cn)
        for f in c.fns:
            if not f.body:
                continue
            nfn += 1
            locs = [c.ty(x) if isinstance(x, int) else x for x in f.body["locals"]]
            for bb, cal, args, dest, span in f.calls():
                ncall += 1
                p = cal.get("f") if isinstance(cal, dict) else None
                r = cal.get("r") if isinstance(cal, dict) else None
                for q in (p, r):
                    if q and q.startswith(SOURCES) and not q.startswith(ALLOWED):
                        rep.fail("source:%s:%s" % (f.path, q), "%s (%s) calls %s: its result differs between runs on the same input" % (f.path, f.loc, q))
                dt = locs[dest[0]] if len(dest) == 1 or not dest[1:] else None
                if dt and hash_iter_ty(dt) and not any(hash_iter_ty(locs[l]) for l in map(op_local, args) if l is not None):
                    niter += 1
                    ok, why = insensitive(c, f, locs, dest[0])
                    rep.ob(ok, "hash-order:%s" % f.path, "%s (%s) iterates a randomly seeded hash container (%s) and the order reaches %s" % (f.path, f.loc, ty_str(dt), why))
                for i, a in enumerate(args):
                    l = op_local(a)
                    if l is not None and hashed(locs[l]):
                        nhanded += 1
                        rep.ob(not leaks(c, p or "?", cal, i, args, locs, dt), "hash-handed:%s:%s" % (f.path, p),
                               "%s (%s) hands a randomly seeded hash container (%s) to %s, which iterates it in its random order" % (f.path, f.loc, ty_str(locs[l]), p))
                if p and "fmt::rt::Argument" in p and p.rsplit("::", 1)[1].startswith("new_") and any(inside(x) for a in args if op_local(a) is not None for x in (locs[op_local(a)],)):
                    rep.fail("hash-shown:" + f.path, "%s (%s) formats a randomly seeded hash container" % (f.path, f.loc))
                if p == "random_color::RandomColor::to_hex" or (p or "").startswith("random_color::RandomColor::to_"):
                    ncolor += 1
                    rep.ob(seeded(f, args[0]), "colour:" + f.path, "%s (%s) draws a colour without an explicit seed" % (f.path, f.loc),
                           "%s: the colour generator is seeded from the backend's counter" % f.path)
                if p and "fmt::rt::Argument" in p and "pointer" in p:
                    rep.fail("address:" + f.path, "%s (%s) formats an address" % (f.path, f.loc))
            for st, t, cl in f.blocks():
                for s in st:
                    if s[0] == "=" and s[2][0] == "cast" and "Expose" in str(s[2][1]):
                        rep.fail("address:" + f.path, "%s (%s) turns a pointer into an integer" % (f.path, f.loc))
        rep.ob(True, cn, "")
    rep.floor("function bodies", nfn, 400)
    rep.floor("resolved call sites", ncall, 3000)
    rep.floor("colour draws", ncolor, 1)
    rep.cov["hash-container iterations followed"] = niter
    rep.cov["calls a hash container is handed to"] = nhanded
    rep.floor("calls a hash container is handed to", nhanded, 3)
    # positive control: the same matcher must see the hash containers that exist
    k = 0
    for cn in CRATES:
        c = store.crate(cn)
        for i in range(len(c.types)):
            if hashed(c.ty(i)):
                k += 1
    rep.floor("hash container types recognised", k, 3)


def insensitive(c, f, locs, start):
    taint = {start}
    vecs = set()
    why = None
    changed = True
    n = 0
    while changed and n < 50:
        n += 1
        changed = False
        for st, t, cl in f.blocks():
            if cl:
                continue
            for s in st:
                if s[0] != "=":
                    continue
                used = {o for o in locals_in(s[2])}
                if used & taint and s[1][0] not in taint:
                    taint.add(s[1][0])
                    changed = True
            if t[0] == "call":
                cal, args, dest = t[1], t[2], t[3]
                if not any(op_local(a) in taint for a in args):
                    continue
                p = cal.get("f") or "?"
                dt = locs[dest[0]]
                if p.endswith(INSENSITIVE) and dt[0] in ("int", "bool", "adt"):
                    continue
                if dt[0] == "adt" and (hashed(dt) or "BTree" in dt[1]):
                    continue
                if p.startswith("core::iter::") and p.endswith("::next"):
                    return False, "a loop over it"
                if p.endswith("::for_each"):
                    return False, "for_each"
                if dt[0] == "adt" and dt[1].endswith("::Vec"):
                    vecs.add(dest[0])
                if "::sort" in p:
                    continue
                if p.endswith("::extend") and op_local(args[0]) not in taint:
                    to = locs[op_local(args[0])] if op_local(args[0]) is not None else ("?",)
                    while to[0] in ("ref", "ptr"):
                        to = to[1]
                    if hashed(to) or to[0] == "adt" and "BTree" in to[1]:
                        continue
                    return False, "a container that keeps the order (%s)" % ty_str(to)
                if any(op_local(a) in taint and hash_iter_ty(locs[op_local(a)]) for a in args) and not hash_iter_ty(dt) and dest[0] not in vecs \
                        and not holds_unordered(dt):
                    return False, p
                if dest[0] not in taint and dt != ("tuple", ()):
                    taint.add(dest[0])
                    changed = True
    for v in vecs:
        srt = False
        for bb, cal, args, dest, span in f.calls():
            if "::sort" in (cal.get("f") or "") and any(op_local(a) in taint for a in args):
                srt = True
        if not srt:
            return False, "a vector that is never sorted"
    if not vecs and 0 in taint:
        return False, "the caller"
    return True, why


def locals_in(rv):
    out = []

    def walk(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ("c", "m") and isinstance(x[1], list):
                out.append(x[1][0])
                return
            for y in x:
                walk(y)

    if rv[0] in ("ref", "rawptr"):
        out.append(rv[2][0] if isinstance(rv[2], list) else rv[1][0])
    elif rv[0] == "discr":
        out.append(rv[1][0])
    walk(rv)
    return out


def seeded(f, arg):
    """the generator value flows through `seed` whose argument is not a literal-free fresh default"""
    want = op_local(arg)
    defs = {}
    for st, t, cl in f.blocks():
        for s in st:
            if s[0] == "=" and len(s[1]) == 1:
                defs.setdefault(s[1][0], []).append(("s", s[2]))
        if t[0] == "call" and len(t[3]) == 1:
            defs.setdefault(t[3][0], []).append(("c", t))
    seen = set()
    work = [want]
    ok = False
    while work:
        l = work.pop()
        if l in seen or l is None:
            continue
        seen.add(l)
        for k, d in defs.get(l, []):
            if k == "c":
                if d[1].get("f", "").endswith("RandomColor::seed"):
                    ok = True
                if d[1].get("f", "").startswith("random_color::"):
                    work.append(op_local(d[2][0]) if d[2] else None)
            else:
                work += locals_in(d)
    return ok
