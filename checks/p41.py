"""An array cursor fills every element exactly once, or stops."""
from sa import fe, models
from sa.absint import Adt, Arr, Budget, C, It, L, Ref, Sl, State, Stop, Sym, Tup, kv, const

TECHNIQUE = "ownership analysis: abstract interpretation of every public function of the crate with symbolic const generics; what goes in must come out written or as cursors that tile it"
LEVEL = "proof"
RULE = (
    "Abstract interpretation of the MIR of every exported function of array-init-cursor that takes or makes a cursor, for symbolic element type and sizes (models for the crate itself switched off). (a) The elements of a cursor taken by "
    "value are, at every exit, tiled without gap or overlap by the elements written (with the whole argument, in order) followed by the cursors returned, in order; nothing else of the memory leaves. (b) A new cursor covers the whole array. "
    "(c) Dropping a cursor returns only if its size is zero. (d) Where the sizes are chosen by the caller, the equation that makes the parts fit is also asserted by a constant the function evaluates at compile time. "
    "(e) The fields of the cursor are private, it is neither cloned nor copied, and it has a destructor."
)
TRUSTED = ["rustc's MIR construction and its evaluation of required constants", "sa/absint.py, sa/lin.py, sa/models.py"]
CUR = "array_init_cursor::Cursor"


class Whole(fe.Front):
    """Looks into callees with loops as well."""

    def has_loop(self, fn):
        return False


def is_cursor(t):
    return t[0] == "adt" and t[1] == CUR


def holds(t, d=0):
    """Does a type contain a cursor by value?"""
    if is_cursor(t):
        return True
    if d < 4 and t[0] == "adt":
        return any(isinstance(a, tuple) and a and isinstance(a[0], str) and holds(a, d + 1) for a in t[2])
    return d < 4 and t[0] == "tuple" and any(holds(x, d + 1) for x in t[1])


def exposes(t, d=0):
    """Does a type give access to memory not written yet?"""
    if t[0] in ("ref", "ptr"):
        return "MaybeUninit" in repr(t) or t[0] == "ptr"
    if is_cursor(t):
        return False
    if d < 4 and t[0] == "adt":
        return any(isinstance(a, tuple) and a and isinstance(a[0], str) and exposes(a, d + 1) for a in t[2])
    return d < 4 and t[0] == "tuple" and any(exposes(x, d + 1) for x in t[1])


def slices(eng, st, v, d=0):
    """Cursors (and bare slices) in a value, in order."""
    v = eng.expand(st, v)
    if isinstance(v, It) and v.kind == "cursor":
        yield v.f["sl"], True
    elif isinstance(v, Sl):
        yield v, False
    elif isinstance(v, Adt) and d < 4:
        for x in v.fields:
            for s, c in slices(eng, st, x, d + 1):
                yield s, c or v.path == CUR
    elif isinstance(v, Tup) and d < 4:
        for x in v.fields:
            yield from slices(eng, st, x, d + 1)


def check(store, rep):
    c = next(x for x in store.runtime() if x.name == "array_init_cursor")
    saved = {k: models.M.pop(k) for k in [k for k in models.M if k.startswith("array_init_cursor")]}
    try:
        analyse(c, rep)
    finally:
        models.M.update(saved)
    shape(c, rep)


def analyse(c, rep):
    eng = Whole([c], opaque=lambda fn: False)
    eng.merge_above = 10 ** 6
    nfn = nout = nconst = nnew = ndrop = nsized = 0
    for f in c.fns:
        if not f.body or f.kind != "fn":
            continue
        ps = [c.ty(f.body["locals"][i + 1]) for i in range(f.body["argc"])]
        r = c.ty(f.body["locals"][0])
        drop = bool(f.impl_trait) and "ops::drop::Drop" in repr(f.impl_trait) and f.name == "drop"
        takes = [i for i, p in enumerate(ps) if holds(p)]
        lends = [i for i, p in enumerate(ps) if p[0] == "ref" and holds(p[1])]
        if not (f.exported and (takes or holds(r) or lends)) and not drop:
            continue
        nfn += 1
        where = "%s (%s)" % (f.path, f.loc)
        asserted = []
        inner = eng.run

        def run(fn, subst, args, st, caller=None, *more, **kw):
            out = inner(fn, subst, args, st, caller, *more, **kw) if caller is not None else inner(fn, subst, args, st, *more, **kw)
            if fn.kind in ("const", "anon", "assoc_const"):
                asserted.append([s for s, _ in out])
            return out

        filled = {}

        def on_loop(fr, h, s0, hs, backs):
            """Every iteration writes the next element of a slice with the next value."""
            for k, v in s0.cells.items():
                v = eng.expand(s0, v)
                if k[0] != fr.fid or not isinstance(v, It) or v.kind != "zip":
                    continue
                a, b = eng.expand(s0, v.f["a"]), eng.expand(s0, v.f["b"])
                if not (isinstance(a, It) and a.kind == "iter_mut" and isinstance(b, It) and b.kind == "vecinto"):
                    continue
                sl = a.f["sl"]
                if all(zero(eng, s0, x.f["i"]) for x in (a, b)) and backs and all(steps(eng, q, hs, sl) for q in backs):
                    filled[sl.region] = (sl.start, sl.n)

        st = State()
        eng.root, eng.steps = f, 0
        args = fe.args_of(eng, st, f)
        eng.hooks["loop"] = on_loop
        eng.run = run
        try:
            outs = [(s, eng.expand(s, v)) for s, v in inner(f, {}, args, st)]
        except (Budget, Stop) as e:
            rep.fail("engine:" + f.path, "%s: not analysable: %s" % (where, e))
            continue
        finally:
            del eng.run
            eng.hooks.clear()
        if drop:
            me = next((sl for i in lends for sl, _ in slices(eng, st, fe.Front.peek(eng, st, args[i]))), None)
            ndrop += 1
            rep.ob(me is not None and all(eng.entails(s, -me.n) for s, _ in outs), "drop:" + f.path, "%s: a cursor with elements left can be dropped unnoticed" % where, "%s: returns only if the size is zero" % f.path)
            continue
        rep.ob(bool(outs), "returns:" + f.path, "%s: never returns" % where, "%s: returns" % f.path)
        for s, v in outs:
            nout += 1
            got = list(slices(eng, s, v))
            rep.ob(not exposes(r) and not any(not isc for _, isc in got), "escapes:" + f.path, "%s: hands out memory that nobody has to write any more" % where, "%s: no bare memory is handed out" % f.path)
            ins = [sl for i in takes for sl, _ in slices(eng, st, args[i])]
            if not ins:
                if not holds(r):
                    rep.ob(not any(e[0] == "w" for e in s.ev), "lent:" + f.path, "%s: writes through a borrowed cursor" % where, "%s: leaves the cursor alone" % f.path)
                    continue
                src = [sl for a in args for sl, _ in slices(eng, st, a)]
                nnew += 1
                rep.ob(len(src) == 1 and len(got) == 1 and same(eng, s, got[0][0], src[0]), "whole:" + f.path, "%s: a new cursor does not cover the whole array: %s" % (where, [x for x, _ in got]), "%s: a new cursor covers the whole array" % f.path)
                continue
            for sl in ins:
                at, why = tile(eng, s, sl, got, args, filled)
                rep.ob(why is None, "tiles:" + f.path, "%s: %s" % (where, why), "%s: what is written and returned tiles the cursor exactly" % f.path)
            # the caller's choice of sizes
            own = {g for g in f.generics if g in names(r) + [n for p in ps for n in names(p)]}
            free = [g for g in own if g not in names_of_self(ps, takes)]
            if free and why is None:
                nsized += 1
                # an equation of this path over the size of the cursor and the caller's, known from a constant alone
                eqs = [d for d in s.eq if set(d.t) & set(sl.n.t) and any(set(d.t) & set(eng.cval(("p", g)).t) for g in free)]
                ok = any(ss and all(zero(eng, q, d) for q in ss) for ss in asserted for d in eqs)
                nconst += ok
                rep.ob(ok, "compile:" + f.path, "%s: sizes that do not fit are not refused when the program is compiled" % where, "%s: sizes that do not fit are refused at compile time" % f.path)
    for (kind, path, detail), o in sorted(eng.obs.items()):
        if kind == "mem":
            rep.ob(not o["fail"], "memory:%s:%s" % (path, detail), "%s: %s" % (path, (o["msgs"] or [detail])[0]), "%s: %s" % (path, detail))
    rep.floor("functions that handle cursors", nfn, 6)
    rep.floor("exits analysed", nout, 5)
    rep.floor("new cursors", nnew, 1)
    rep.floor("destructors", ndrop, 1)
    rep.floor("functions whose caller chooses sizes", nsized, 2)


def names(t):
    """Const parameters in a type."""
    out = []

    def walk(x):
        if isinstance(x, (tuple, list)):
            if len(x) == 2 and x[0] == "p" and isinstance(x[1], str):
                out.append(x[1])
                return
            for y in x:
                walk(y)
    walk(t)
    return out


def names_of_self(ps, takes):
    return [n for i in takes for n in names(ps[i])]


def same(eng, s, a, b):
    return a.region == b.region and zero(eng, s, a.start - b.start) and zero(eng, s, a.n - b.n)


def zero(eng, s, d):
    return kv(d) == kv(const(0)) or eng.entails(s, d) and eng.entails(s, -d)


REORDER = ("reverse", "swap", "rotate_left", "rotate_right", "sort", "sort_unstable", "sort_by", "sort_by_key", "sort_unstable_by", "fill", "fill_with", "copy_within", "swap_with_slice", "select_nth_unstable", "clone_from_slice", "copy_from_slice", "rev")


def steps(eng, b, hs, sl):
    """Does this iteration write the element it was handed with the value it was handed?"""
    evs = b.ev[len(hs.ev):]
    it = [eng.expand(b, e[1]) for e in evs if e[0] == "item"]
    w = [e for e in evs if e[0] == "w"]
    if len(it) != 1 or len(w) != 1 or not isinstance(it[0], Tup) or len(it[0].fields) != 2 or w[0][1] != sl.region:
        return False
    ref, val = (eng.expand(b, x) for x in it[0].fields)
    return isinstance(ref, Ref) and ref.cell[:3] == ("h", "elem", sl.region) and ref.cell[3] == kv(w[0][2])[:2] and kv(w[0][3]) == kv(const(1)) and kv(eng.expand(b, w[0][4])) == kv(val)


def tile(eng, s, sl, got, args, filled=()):
    """The sizes of the pieces, or why they do not tile the cursor."""
    pieces = []
    for e in fe.calls(s):
        n = fe.name(e).rsplit("::", 1)[-1]
        if n in REORDER:
            return None, "changes the order of the values it is given (%s)" % n
    for e in s.ev:
        if e[0] == "w" and e[1] == sl.region:
            if zero(eng, s, e[3]):
                continue
            v = eng.expand(s, e[4])
            if not any(kv(v) == kv(eng.expand(s, a)) for a in args):
                return None, "writes something other than the values it is given: %r" % (v,)
            pieces.append((e[2], e[3]))
    if not pieces and sl.region in filled:
        pieces.append(filled[sl.region])
    pieces = [p for p in pieces if not zero(eng, s, p[1])]
    if len(pieces) > 1 and len({kv(a) for a, _ in pieces}) < len(pieces):
        return None, "writes elements twice"
    pieces += [(x.start, x.n) for x, isc in got if x.region == sl.region]
    pos, at = sl.start, []
    for a, n in pieces:
        if not zero(eng, s, a - pos):
            return None, "its parts do not adjoin: one starts at %s where %s was due" % (eng.show(C("eq", a)), eng.show(C("eq", pos)))
        pos = pos + n
        at.append(n)
    if not zero(eng, s, pos - sl.start - sl.n):
        return None, "elements of the cursor are neither written nor handed out"
    return at, None


def shape(c, rep):
    a = c.adts.get(CUR)
    rep.floor("the cursor type", 1 if a else 0, 1)
    if not a:
        return
    for x in a["variants"][0]["fields"]:
        rep.ob(not x[2], "private:" + x[0], "the field `%s` of a cursor can be reached from outside" % x[0], "field `%s` is private" % x[0])
    has = set()
    for i in c.impls:
        s = i.get("self")
        t = c.ty(s) if isinstance(s, int) else s
        if t and is_cursor(t):
            has.add(i.get("trait"))
    for t in has:
        rep.ob(t not in ("core::clone::Clone", "core::marker::Copy", "core::default::Default"), "copies:%s" % t, "cursors implement %s: two cursors could cover the same elements" % t, "cursors do not implement Clone, Copy or Default")
    rep.ob("core::ops::drop::Drop" in has, "destructor", "cursors have no destructor: one with elements left is given up unnoticed", "cursors have a destructor")
