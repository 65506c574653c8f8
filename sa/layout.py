"""What the serialising half of the runtime produces: alignment promises, positions, offsets and object layouts.

The growable buffer is summarised here (its own behaviour is decided by P03): it is an append-at-the-front
byte string whose length is capacity - offset."""
from sa import rtspec
from sa.absint import Sl, Ref, Adt, Tup, L, It, Sym, Term, const, kv, Stop
from sa.lin import USIZE_MAX
from sa.rtspec import BUILDER, MAX_BUFFER, builder_len, field, size_const, Fr, mentions, short
from sa.runtime import Runtime, candidates

BV = "planus::backvec::BackVec"
BV_API = ("reserve", "extend_from_slice", "extend_with_zeros", "extend_write")
WRITE_VTABLE = BUILDER + "::write_vtable"


# ------------------------------------------------------------------ the buffer
def bv_parts(eng, st, v):
    v = eng.expand(st, v)
    while isinstance(v, Ref):
        r, v = v, eng.expand(st, eng.load(st, v.cell, v.path))
    return r, v


def bv_extend(eng, st, v, n, back=False):
    """Room for n more bytes; afterwards they are part of the buffer."""
    r, b = bv_parts(eng, st, v)
    names = [f[0] for f in eng.adts[BV]["variants"][0]["fields"]]
    fs = list(b.fields)
    io, ic = names.index("offset"), names.index("capacity")
    ln = eng.expand(st, fs[ic]) - eng.expand(st, fs[io])
    o = eng.A.fresh("offset", 0, MAX_BUFFER)
    eng.add_ge(st, const(MAX_BUFFER) - ln - n - o)
    fs[io] = o
    fs[ic] = o + ln + n
    eng.store(st, r.cell, r.path, Adt(b.path, b.vi, b.vn, fs, b.args))
    return ln + n


def s_reserve(eng, fr, st, cal, ca, vals, span, dty):
    s = st.fork()
    n = eng.as_int(s, vals[1])
    r, b = bv_parts(eng, s, vals[0])
    names = [f[0] for f in eng.adts[BV]["variants"][0]["fields"]]
    fs = list(b.fields)
    io, ic = names.index("offset"), names.index("capacity")
    ln = eng.expand(s, fs[ic]) - eng.expand(s, fs[io])
    o = eng.A.fresh("offset", 0, MAX_BUFFER)
    eng.add_ge(s, o - n)
    eng.add_ge(s, const(MAX_BUFFER) - o - ln)
    fs[io], fs[ic] = o, o + ln
    eng.store(s, r.cell, r.path, Adt(b.path, b.vi, b.vn, fs, b.args))
    return [(s, Tup([]))]


def s_from_slice(eng, fr, st, cal, ca, vals, span, dty):
    s = st.fork()
    sl = eng.models.as_slice(eng, s, vals[1])
    if sl is None:
        raise Stop("extend_from_slice argument")
    val = eng.models.slice_value(eng, s, sl)
    pos = bv_extend(eng, s, vals[0], sl.n)
    s.ev = s.ev + (("emit", sl.n, pos, val),)
    return [(s, Tup([]))]


def s_zeros(eng, fr, st, cal, ca, vals, span, dty):
    s = st.fork()
    n = eng.as_int(s, vals[1])
    pos = bv_extend(eng, s, vals[0], n)
    s.ev = s.ev + (("zeros", n, pos),)
    return [(s, Tup([]))]


def s_extend_write(eng, fr, st, cal, ca, vals, span, dty):
    s = st.fork()
    n = eng.as_int(s, vals[1])
    r = eng.region("out", n)
    s.cov[r] = const(0)
    out = []
    for s2, _ in eng.call_value(fr, s, vals[2], [Sl(r, const(0), n, ("adt", "core::mem::maybe_uninit::MaybeUninit", (("int", "u8"),)))], span, ("tuple", ())):
        pos = bv_extend(eng, s2, vals[0], n)
        s2.ev = s2.ev + (("fill", n, pos, r),)
        out.append((s2, Tup([])))
    return out


# ------------------------------------------------------------------ alignment promises
def bfields(eng, st, b):
    """(length, delayed, mask) of the builder behind a reference."""
    return builder_len(eng, st, b), field(eng, st, b, BUILDER, "delayed_bytes"), field(eng, st, b, BUILDER, "alignment_mask")


def note_builder(eng, st, ref):
    try:
        n, d, m = bfields(eng, st, ref)
    except (Stop, AttributeError, ValueError):
        return
    if isinstance(m, L) and isinstance(d, L):
        st.facts[("promise",)] = (n, d, m)
        eng.lowmasks.add(m.key)


def is_low(eng, l):
    if l.is_const():
        return l.c >= 0 and (l.c & (l.c + 1)) == 0
    if l.key in eng.lowmasks:
        return True
    if l.c == 0 and len(l.t) == 1:
        (mono, co), = l.t.items()
        if co == 1 and len(mono) == 1:
            key = eng.A.info[mono[0]][0]
            if isinstance(key, tuple) and key[0] in ("BitOr", "BitAnd") and all(isinstance(x, L) and is_low(eng, x) for x in key[1:]):
                return True
    # ALIGNMENT - 1 of a primitive
    x = l + 1
    if x.c == 0 and len(x.t) == 1:
        (mono, co), = x.t.items()
        if co == 1 and len(mono) == 1 and "ALIGNMENT" in repr(eng.A.info[mono[0]][0]):
            return True
    return False


def covers(eng, st, big, small):
    return is_low(eng, big) and is_low(eng, small) and eng.entails(st, big - small)


def no_more(eng, st, mask, needed):
    """Is the mask no larger than the largest of the ones needed?"""
    if any(eng.entails(st, x - mask) for x in needed):
        return True
    if mask.c == 0 and len(mask.t) == 1:
        (mono, co), = mask.t.items()
        if co == 1 and len(mono) == 1:
            key = eng.A.info[mono[0]][0]
            if isinstance(key, tuple) and key[0] in ("BitOr", "BitAnd"):
                return (all if key[0] == "BitOr" else any)(isinstance(x, L) and is_low(eng, x) and no_more(eng, st, x, needed) for x in key[1:])
    return False


def cong(eng, st, l, m, depth=0):
    """A simpler expression congruent to l modulo m + 1 (m a low mask)."""
    if depth > 30:
        return l
    for mono, co in sorted(l.t.items()):
        if len(mono) != 1:
            continue
        key = eng.A.info[mono[0]][0]
        if not isinstance(key, tuple):
            continue
        rest = l - L({mono: co})
        if key[0] == "wrap" and isinstance(key[2], L) and (key[1] in ("usize", "u64", "isize", "i64") or covers(eng, st, const(2**31 - 1), m)):
            return cong(eng, st, rest + key[2].scale(co), m, depth + 1)
        if key[0] == "BitAnd" and isinstance(key[1], L) and isinstance(key[2], L):
            for x, y in ((key[1], key[2]), (key[2], key[1])):
                if covers(eng, st, y, m):
                    return cong(eng, st, rest + x.scale(co), m, depth + 1)
                z = const(USIZE_MAX) - y
                if is_low(eng, z):
                    if covers(eng, st, z, m):
                        return cong(eng, st, rest, m, depth + 1)
                    return cong(eng, st, rest + x.scale(co) - eng.bitand(st, x, z, (0, USIZE_MAX)).scale(co), m, depth + 1)
    return l


def zero_mod(eng, st, l, m):
    x = cong(eng, st, l, m)
    if eng.entails_eq(st, x):
        return True
    if m.is_const():
        k = m.c + 1
        return x.c % k == 0 and all(co % k == 0 for co in x.t.values())
    # m + 1 itself is a multiple of m + 1
    for j in (1, -1):
        if eng.entails_eq(st, x + (m + 1).scale(j)):
            return True
    return False


def promise(eng, fr, st, ref, line):
    """Writes since the last known state of the builder kept every alignment promise."""
    old = st.facts.get(("promise",))
    if old is None:
        return
    try:
        n, d, m = bfields(eng, st, ref)
    except (Stop, AttributeError, ValueError):
        return
    n0, d0, m0 = old
    if n.key == n0.key and d.key == d0.key and m.key == m0.key:
        return
    if eng.entails_eq(st, n):
        return  # emptied: nothing is promised
    same = eng.entails_eq(st, n - n0) and eng.entails_eq(st, d - d0) and eng.entails_eq(st, m - m0)
    eng.oblig("align", fr, line, "promise kept", same or zero_mod(eng, st, (n + d) - (n0 + d0), m0),
              "written bytes plus bytes still promised changed from %s to %s, which is not the same modulo the old alignment" % (eng.show(n0 + d0), eng.show(n + d)), st)
    eng.oblig("align", fr, line, "alignment never lowered", same or covers(eng, st, m, m0),
              "the alignment mask of the buffer changed from %s to %s, which does not cover the old one" % (eng.show(m0), eng.show(m)), st)


def aligned(eng, st, pos, mask):
    """Is the byte at distance `pos` from the end on a multiple of mask + 1 in the finished buffer?"""
    for p, m in st.facts.get(("aligned",), ()):
        if covers(eng, st, m, mask) and zero_mod(eng, st, pos - p, mask):
            return True
    return False


# ------------------------------------------------------------------ the write primitive at its uses
def s_write_with(eng, fr, st, cal, ca, vals, span, dty):
    s = st.fork()
    before = builder_len(eng, s, vals[0])
    last = s.facts.get(("length",))
    if last is not None and last[0].key == before.key:
        before = last[1]
    eng.havoc_arg(s, vals[0], fr)
    size = eng.as_int(s, vals[1])
    mask = eng.as_int(s, vals[2])
    if mask.is_const() and mask.c == 0:
        pos = before + size
        eng.add_ge(s, const(MAX_BUFFER) - pos)
    else:
        pos = eng.A.fresh("position", 0, MAX_BUFFER)
        eng.add_ge(s, pos - before - size)
        eng.add_ge(s, mask - (pos - before - size))
    after = builder_len(eng, s, vals[0])
    eng.add_eq(s, after - pos)
    s.facts[("length",)] = (after, pos)
    note_builder(eng, s, vals[0])
    ok = is_low(eng, mask)
    eng.oblig("align", fr, span[1], "mask", ok, "the alignment mask %s is not one less than a power of two" % eng.show(mask), s)
    s.facts[("aligned",)] = s.facts.get(("aligned",), ()) + ((pos, mask),)
    r = eng.region("out", size)
    eng.rpos[r] = pos
    s.cov[r] = const(0)
    s.ev = s.ev + (("write_with", r, size, mask, pos, span[1]),)
    out = []
    for s2, _ in eng.call_value(fr, s, vals[3], [pos, Sl(r, const(0), size, ("adt", "core::mem::maybe_uninit::MaybeUninit", (("int", "u8"),)))], span, ("tuple", ())):
        out.append((s2, Tup([])))
    return out


def s_write_vtable(eng, fr, st, cal, ca, vals, span, dty):
    s = st.fork()
    eng.havoc_arg(s, vals[0], fr)
    pos = eng.A.fresh("vtable_position", 0, MAX_BUFFER)
    sl = eng.models.as_slice(eng, s, vals[1])
    s.ev = s.ev + (("vtable", sl, pos),)
    note_builder(eng, s, vals[0])
    return [(s, pos)]


def c_elements(eng, fr, st, cal, ca, vals, span, dty):
    """write_values: the elements one after the other, STRIDE bytes apart."""
    s = st.fork()
    tys = [a for a in ca if a[0] not in ("n", "p")]
    stride = eng.const_item(st, "planus::traits::VectorWrite::STRIDE", "planus::traits::VectorWrite::STRIDE", tuple(ca[:2]), ("int", "usize"))
    n = eng.models.as_slice(eng, s, eng.expand(s, vals[0]))
    p = eng.models.as_ptr(eng, s, vals[1])
    if n is None or p is None:
        raise Stop("arguments of write_values")
    amask = size_const(eng, s, tys[1], "ALIGNMENT_MASK")
    rp = eng.rpos.get(p.region)
    if isinstance(rp, L):
        eng.oblig("align", fr, span[1], "element alignment", aligned(eng, s, rp - p.start, amask),
                  "vector elements of alignment mask %s are not written at an aligned position" % eng.show(amask), s)
    eng.region_write(s, p.region, p.start, stride.mul(n.n), Term("elements", (n, stride)))
    return [(s, Tup([]))]


WRITERS = ("WriteAs", "WriteAsDefault", "WriteAsOptional", "WriteAsOffset", "WriteAsUnion", "WriteAsOptionalUnion", "WriteAsUnionVector", "WriteAsDefaultUnionVector",
           "WriteAsOptionalUnionVector", "VectorWrite")


def c_prepare(eng, fr, st, cal, ca, vals, span, dty):
    """A value of unknown type is serialised: remember which one, and what became of it."""
    what = eng.expand(st, vals[0])
    while isinstance(what, Ref):
        what = eng.expand(st, eng.load(st, what.cell, what.path))
    out = eng.opaque(fr, st, cal, vals, span, dty)
    for s, v in out:
        s.ev = s.ev + (("prepare", short(cal["tr"]), tuple(vals), v, span[1], what),)
    return out


# ------------------------------------------------------------------ setup
def setup_layout(eng):
    rtspec.setup_write(eng)
    eng.merge_above = 8
    eng.lowmasks = set()
    eng.rootfn = None
    for n, f in (("reserve", s_reserve), ("extend_from_slice", s_from_slice), ("extend_with_zeros", s_zeros), ("extend_write", s_extend_write)):
        eng.summaries[BV + "::" + n] = f
    eng.summaries[BUILDER + "::write_with"] = s_write_with
    eng.summaries[WRITE_VTABLE] = s_write_vtable
    eng.summaries["planus::traits::VectorWrite::write_values"] = c_elements
    for t in WRITERS:
        eng.contracts["planus::traits::%s::prepare" % t] = c_prepare
    base = eng.hooks["root"]

    def root(fn, st, args):
        base(fn, st, args)
        eng.lowmasks = set()
        eng.rootargs, eng.rootcur = args, None
        if fn.impl_trait and short(fn.impl_trait) == "WriteAsPrimitive" and fn.name == "write":
            eng.rootcur = eng.expand(st, args[1]).f["sl"]
        if fn.path == BUILDER + "::write_with":
            eng.lowmasks.add(args[2].key)
        ref = builder_ref(eng, fn, st, args)
        if ref is not None:
            note_builder(eng, st, ref)
            st.facts[("builder",)] = ref
        if fn.name == "write_values" and fn.impl_trait and short(fn.impl_trait) == "VectorWrite":
            # what the callers of write_values establish ("element alignment")
            st.facts[("aligned",)] = ((args[2], size_const(eng, st, rtspec.impl_arg(fn), "ALIGNMENT_MASK")),)
        ent = {}
        if rtspec.self_adt(fn) == rtspec.TW and args:
            try:
                for k in ("object_alignment_mask", "object_size", "vtable_size"):
                    ent[k] = field(eng, st, args[0], rtspec.TW, k)
                ent["mask"] = ent["object_alignment_mask"]
                eng.lowmasks.add(ent["mask"].key)
                eng.add_ge(st, const(2**16) - ent["vtable_size"])
                eng.add_ge(st, const(MAX_BUFFER) - ent["object_size"])
                if fn.name == "write_entry":
                    eng.add_ge(st, const(2**15) - args[1])  # slots are two bytes of a vtable whose size is a u16
                eng.add_ge(st, ent["mask"] - 3)  # kept by write_entry, established by default()
            except (Stop, AttributeError):
                pass
        st.facts[("entry",)] = ent
    eng.hooks["root"] = root
    eng.hooks["exit"] = lambda fn, st, v, args: on_exit(eng, fn, st, v, args)
    eng.hooks["havoc_pre"] = lambda st, ref, fr: promise(eng, fr, st, ref, None)
    eng.hooks["havoc_post"] = lambda st, ref, fr: note_builder(eng, st, ref)
    eng.hooks["backedge"] = lambda fr, h, st: on_backedge(eng, fr, h, st)
    eng.specs = []


def builder_ref(eng, fn, st, args):
    for i, a in enumerate(args):
        t = fn.crate.ty(fn.body["locals"][i + 1])
        if t[0] == "ref" and t[1][0] == "adt" and t[1][1] == BUILDER:
            return a
    return None


def on_exit(eng, fn, st, v, args):
    fr = Fr(fn)
    rtspec.on_exit(eng, fn, st, v, args)
    ref = builder_ref(eng, fn, st, args)
    if ref is not None:
        promise(eng, fr, st, ref, fn.span[1])
        if fn.path == BUILDER + "::write_with" or fn.path == WRITE_VTABLE or fn.name == "finish" and fn.path.startswith(BUILDER):
            asked_mask(eng, fr, fn, st, ref, args)
    for f in eng.specs:
        f(eng, fr, fn, st, v, args)


def on_backedge(eng, fr, h, st):
    promise(eng, fr, st, st.facts.get(("builder",)), None)
    for f in eng.specs:
        if hasattr(f, "backedge"):
            f.backedge(eng, fr, h, st)


def asked_mask(eng, fr, fn, st, ref, args):
    """What was just written starts on the alignment asked for."""
    n, d, m = bfields(eng, st, ref)
    old = st.facts.get(("promise",))
    if old is None:
        return
    n0, d0, m0 = old
    if n.key == n0.key and fn.path == WRITE_VTABLE:
        return  # found in the cache
    if fn.path == BUILDER + "::write_with":
        want = [eng.as_int(st, args[2])]
        size = eng.as_int(st, args[1])
        pad = n - n0 - size
        eng.oblig("align", fr, fn.span[1], "padding", eng.entails(st, pad) and eng.entails(st, want[0] - pad),
                  "a write asks for alignment mask M but is preceded by more than M padding bytes (%s)" % eng.show(pad), st)
    elif fn.path == WRITE_VTABLE:
        want = [const(1)]
    else:
        # the whole buffer has to be a multiple of every alignment asked for so far
        want = [m0, const(3)]
        data = const(0)
        for e in st.ev:
            if e[0] in ("emit", "fill"):
                data = data + e[1]
        pad = n - n0 - data
        eng.oblig("align", fr, fn.span[1], "padding", eng.entails(st, pad) and no_more(eng, st, pad, want),
                  "finishing writes %s padding bytes, more than the alignments asked for need" % eng.show(pad), st)
    eng.oblig("align", fr, fn.span[1], "no more alignment than asked for", no_more(eng, st, m, [m0] + want),
              "the alignment mask of the buffer grows to %s, past that of everything written" % eng.show(m), st)
    for w in want:
        eng.oblig("align", fr, fn.span[1], "aligned write", zero_mod(eng, st, d, w), "after a write of alignment mask %s the number of bytes still promised (%s) is not a multiple of that alignment" % (
            eng.show(w), eng.show(d)), st)
        eng.oblig("align", fr, fn.span[1], "alignment recorded", covers(eng, st, m, w), "the alignment mask of the buffer (%s) does not cover the one of the write (%s)" % (
            eng.show(m), eng.show(w)), st)


# ------------------------------------------------------------------ alignment of objects
def elem_param(fn):
    """The element type of the vector an implementation of a writing trait serialises."""
    for a in fn.impl_args[1:]:
        t = fn.crate._arg(a)
        while t and t[0] == "adt" and t[2]:
            t = t[2][0]
        if t and t[0] == "slice":
            return t[1]
    return None


def spec_align(eng, fr, fn, st, v, args):
    for e in st.ev:
        if e[0] == "write_with":
            eng.oblig("align", fr, e[5], "object start", aligned(eng, st, e[4], const(3)),
                      "bytes written at position %s (length prefix, object or elements) are not on a multiple of 4" % eng.show(e[4]), st)
            need = [const(3)]
            if fn.path == rtspec.UNSAFE_ROOTS[0]:
                need = [field(eng, st, args[0], rtspec.TW, "object_alignment_mask")]
            elif fn.impl_trait and short(fn.impl_trait) in WRITERS:
                p = elem_param(fn)
                if p is not None:
                    need.append(size_const(eng, st, p, "ALIGNMENT_MASK"))
            eng.oblig("align", fr, e[5], "no more alignment than needed", no_more(eng, st, e[3], need),
                      "bytes are written with alignment mask %s although none of their parts needs that" % eng.show(e[3]), st)
    if fn.path == rtspec.UNSAFE_ROOTS[0]:
        om = field(eng, st, args[0], rtspec.TW, "object_alignment_mask")
        ww = [e for e in st.ev if e[0] == "write_with"]
        eng.lowmasks.add(om.key)
        good = len(ww) == 2 and aligned(eng, st, ww[0][4], om)
        eng.oblig("align", fr, fn.span[1], "object alignment", good, "the fields of a table are not written at the alignment collected from its entries", st)
    if fn.name == "default" and rtspec.self_adt(fn) == rtspec.TW:
        m = field(eng, st, v, rtspec.TW, "object_alignment_mask")
        eng.oblig("align", fr, fn.span[1], "entry alignment", eng.entails_eq(st, m - 3), "a table object starts out with alignment mask %s, although its vtable offset needs 3" % eng.show(m), st)
    if fn.name == "write_entry" and rtspec.self_adt(fn) == rtspec.TW:
        ow = st.facts[("entry",)]["mask"]
        nm = field(eng, st, args[0], rtspec.TW, "object_alignment_mask")
        pt = ("param", [g for g in fn.generics if g and g not in ("VTABLE_MAX_BYTES",)][-1])
        pm = size_const(eng, st, pt, "ALIGNMENT_MASK")
        eng.oblig("align", fr, fn.span[1], "entry alignment", eng.entails(st, nm - ow) and eng.entails(st, nm - pm) and no_more(eng, st, nm, [ow, pm]),
                  "after adding an entry the object alignment (%s) is not the larger of that before (%s) and that of the entry (%s)" % (eng.show(nm), eng.show(ow), eng.show(pm)), st)


def is_layout_root(fn):
    if fn.path == WRITE_VTABLE:
        return True
    a = rtspec.self_adt(fn)
    return rtspec.is_write_root(fn) and a != BV and not (fn.impl_trait and short(fn.impl_trait) in ("Debug", "Drop"))


def run(store, specs=()):
    c, ac = store.runtime(True)

    def setup(eng):
        setup_layout(eng)
        eng.specs = list(specs)

    r = Runtime([c, ac], lambda eng: [f for f in c.fns if is_layout_root(f)], setup=setup, inv_types=rtspec.write_inv_type, inv_filter=rtspec.write_inv_filter)
    eng = r.engine()
    r.inv = {BV: [i for i in candidates(eng, eng.adts[BV]) if i.key in ("offset <= capacity", "capacity <= 2^31")]}
    missing = [n for n in BV_API if not any(f.path == BV + "::" + n for f in c.fns)]
    return r, r.analyse(), c, missing
