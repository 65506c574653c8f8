"""Roots, preconditions and contracts for the analysis of the `planus` runtime crate."""
from sa.absint import Sl, Ptr, Ref, Adt, Tup, L, It, C, Sym, const, kv
from sa.lin import ISIZE_MAX

AMOUNT = 2**62  # public offset arguments of the slice helpers
SLICEY = ("planus::slice_helpers::SliceWithStartOffset", "planus::slice_helpers::ArrayWithStartOffset")
TABLE = "planus::table_reader::Table"
CHUNKY = ("chunks", "rchunks", "chunks_exact", "rchunks_exact", "windows")
READ_TRAITS = ("TableRead", "TableReadUnion", "TableReadUnionVector", "VectorReadUnion")


def short(p):
    return p.rsplit("::", 1)[1] if p else None


def self_adt(fn):
    if fn.impl_self is None:
        return None
    t = fn.crate.ty(fn.impl_self)
    return t[1] if t[0] == "adt" else None


def is_root(fn):
    if not fn.body or fn.kind != "fn":
        return False
    if fn.impl_trait:
        return not (fn.unsafe and fn.name.startswith("get_unchecked"))
    return bool(fn.exported) and not fn.unsafe


def argname(fn, i):
    for v in fn.body.get("vars") or []:
        if isinstance(v, list) and len(v) > 1 and v[1] == [i + 1]:
            return v[0]
    return "a%d" % i


def pre(eng, fn, st, args):
    sa = self_adt(fn)
    tr = short(fn.impl_trait) if fn.impl_trait else None
    bound = None
    if sa in SLICEY or tr in READ_TRAITS or fn.name == "from_buffer":
        bound = AMOUNT
    elif sa == TABLE:
        bound = 2**16
    for i, a in enumerate(args):
        ty = fn.crate.ty(fn.body["locals"][i + 1])
        if ty == ("int", "usize") and isinstance(a, L):
            if bound:
                eng.add_ge(st, const(bound) - a)
            elif fn.name in CHUNKY and i == 1:
                eng.add_ge(st, a - 1)
    if fn.unsafe and fn.name == "from_buffer" and tr in ("VectorRead", "VectorReadInner"):
        # contract of the unsafe trait method: STRIDE bytes are available at `offset`
        buf = buffer_len(eng, st, args[0])
        eng.add_ge(st, buf - args[1] - self_stride(eng, st, fn))


def buffer_len(eng, st, v):
    v = eng.expand(st, v)
    b = eng.expand(st, v.fields[0])
    return b.n


def self_stride(eng, st, fn):
    im = fn.crate.ty(fn.impl_self)
    tr = fn.impl_trait
    return eng.const_item(st, tr + "::STRIDE", tr + "::STRIDE", (im,), ("int", "usize"))


def c_from_buffer_safe(eng, fr, st, cal, ca, vals, span, dty):
    """Opaque safe reader: the slice helpers need a bounded offset."""
    off = vals[1]
    ok = isinstance(off, L) and eng.entails(st, const(AMOUNT) - off)
    eng.oblig("panic", fr, span[1], "offset bound", ok, "offset handed to a nested reader is not bounded by 2^62")
    s = st.fork()
    return [(s, eng.mk(s, dty, "read"))]


def c_from_buffer_unsafe(eng, fr, st, cal, ca, vals, span, dty):
    buf, off = vals[0], vals[1]
    tr = cal["tr"]
    stride = eng.const_item(st, tr + "::STRIDE", tr + "::STRIDE", (ca[0],), ("int", "usize"))
    try:
        ok = eng.entails(st, buffer_len(eng, st, buf) - off - stride)
    except AttributeError:
        ok = False
    eng.oblig("mem", fr, span[1], short(tr) + "::from_buffer", ok, "element read may start past the end of the buffer (offset + STRIDE <= len not implied)")
    s = st.fork()
    return [(s, eng.mk(s, dty, "element"))]


def setup(eng):
    eng.hooks["root"] = lambda fn, st, args: pre(eng, fn, st, args)
    for t in READ_TRAITS:
        eng.contracts["planus::traits::%s::from_buffer" % t] = c_from_buffer_safe
    for t in ("VectorRead", "VectorReadInner"):
        eng.contracts["planus::traits::%s::from_buffer" % t] = c_from_buffer_unsafe


# ---------------------------------------------------------------------------- writing
BUILDER = "planus::builder::Builder"
MAX_BUFFER = 2**31  # the format's own limit on the size of a buffer
WRITE_TYPES = ("planus::builder::Builder", "planus::backvec::BackVec", "array_init_cursor::Cursor", "core::mem::maybe_uninit::MaybeUninit",
               "planus::table_writer::TableWriter", "planus::table_writer::ObjectWriter", "planus::builder_cache::Cache")


def mentions(t, names):
    if isinstance(t, tuple):
        if len(t) > 1 and t[0] == "adt" and t[1] in names:
            return True
        return any(mentions(x, names) for x in t)
    return False


def is_write(fn):
    """Part of the serialising half of the crate, judged by the signature."""
    if fn.impl_trait and short(fn.impl_trait).startswith(("Write", "VectorWrite")):
        return True
    return any(mentions(fn.crate.ty(fn.body["locals"][i]), WRITE_TYPES) for i in range(fn.body["argc"] + 1))


def is_read_root(fn):
    return is_root(fn) and not is_write(fn) and fn.name != "check_version_compatibility"


def is_write_root(fn):
    if not fn.body or fn.kind != "fn":
        return False
    if fn.path == BUILDER + "::write_with" or fn.path in UNSAFE_ROOTS:
        return True
    return is_root(fn) and is_write(fn)


TW = "planus::table_writer::TableWriter"
OW = "planus::table_writer::ObjectWriter"
UNSAFE_ROOTS = (TW + "::<VTABLE_MAX_BYTES>::finish", OW + "::<'_>::write")


def field(eng, st, v, adt, name):
    v = eng.expand(st, v)
    while isinstance(v, Ref):
        v = eng.expand(st, eng.load(st, v.cell, v.path))
    i = [f[0] for f in eng.adts[adt]["variants"][0]["fields"]].index(name)
    return eng.expand(st, v.fields[i])


def size_const(eng, st, ty, name="SIZE"):
    return eng.const_item(st, "planus::traits::Primitive::" + name, "planus::traits::Primitive::" + name, (ty,), ("int", "usize"))


def builder_len(eng, st, b):
    """capacity - offset of the buffer behind a &mut Builder."""
    b = eng.expand(st, b)
    while isinstance(b, Ref):
        b = eng.expand(st, eng.load(st, b.cell, b.path))
    a = eng.adts[BUILDER]
    inner = eng.expand(st, b.fields[[f[0] for f in a["variants"][0]["fields"]].index("inner")])
    f = [f[0] for f in eng.adts["planus::backvec::BackVec"]["variants"][0]["fields"]]
    return eng.expand(st, inner.fields[f.index("capacity")]) - eng.expand(st, inner.fields[f.index("offset")])


def s_write_with(eng, fr, st, cal, ca, vals, span, dty):
    """Builder::write_with at a call: the closure gets `size` uninitialised bytes and must fill all of them."""
    s = st.fork()
    eng.havoc_arg(s, vals[0], fr)
    size = eng.as_int(s, vals[1])
    pos = eng.A.fresh("position", 0, MAX_BUFFER)
    eng.add_ge(s, pos - size)
    eng.add_eq(s, builder_len(eng, s, vals[0]) - pos)
    r = eng.region("out", size)
    eng.rpos[r] = pos
    s.cov[r] = const(0)
    s.ev = s.ev + (("write_with", r, size, eng.as_int(s, vals[2]), pos),)
    out = []
    for s2, _ in eng.call_value(fr, s, vals[3], [pos, Sl(r, const(0), size, ("adt", "core::mem::maybe_uninit::MaybeUninit", (("int", "u8"),)))], span, ("tuple", ())):
        c = s2.cov.get(r)
        good = isinstance(c, L) and eng.entails(s2, c - size)
        eng.oblig("mem", fr, span[1], "write_with", good, "the closure may return before all reserved bytes are initialised (initialised %s of %s)" % (
            eng.show(c) if isinstance(c, L) else "0", eng.show(size)), s2)
        out.append((s2, Tup([])))
    return out


def c_write_values(eng, fr, st, cal, ca, vals, span, dty):
    stride = eng.const_item(st, "planus::traits::VectorWrite::STRIDE", "planus::traits::VectorWrite::STRIDE", tuple(ca[:2]), ("int", "usize"))
    s = st.fork()
    v = eng.expand(s, vals[0])
    n = eng.models.as_slice(eng, s, v)
    p = eng.models.as_ptr(eng, s, vals[1])
    if n is None or p is None:
        eng.oblig("mem", fr, span[1], "write_values", False, "arguments of write_values are not understood", s)
        return [(s, Tup([]))]
    total = stride.mul(n.n)
    good = eng.entails(s, eng.rsize[p.region] - p.start - total)
    eng.oblig("mem", fr, span[1], "write_values", good, "fewer than len * STRIDE bytes are available for the elements", s)
    pos = eng.as_int(s, vals[2])
    eng.oblig("mem", fr, span[1], "write_values position", eng.entails(s, pos - total), "the position handed to write_values may be smaller than the bytes written", s)
    rp = eng.rpos.get(p.region)
    if isinstance(rp, L):
        eng.oblig("pos", fr, span[1], "write_values position", eng.entails_eq(s, pos - rp + p.start), "the position handed to write_values is not that of the bytes written", s)
    eng.region_write(s, p.region, p.start, total, Sym(("elements",), ("other", "?")))
    return [(s, Tup([]))]


def c_write_prim(eng, fr, st, cal, ca, vals, span, dty):
    tys = [a for a in ca if a[0] not in ("n", "p")]
    s = st.fork()
    c = eng.expand(s, vals[1])
    size = size_const(eng, s, tys[1])
    if not isinstance(c, It) or c.kind != "cursor":
        eng.oblig("mem", fr, span[1], "write", False, "cursor handed to write is not understood", s)
        return [(s, Tup([]))]
    sl = c.f["sl"]
    eng.oblig("size", fr, span[1], "write cursor", eng.entails_eq(s, sl.n - size), "cursor of %s bytes handed to a value of SIZE %s" % (eng.show(sl.n), eng.show(size)), s)
    pos = eng.as_int(s, vals[2])
    rp = eng.rpos.get(sl.region)
    if isinstance(rp, L):
        eng.oblig("pos", fr, span[1], "write position", eng.entails_eq(s, pos - rp + sl.start), "the position handed to write (%s) is not the one the bytes end up at (%s)" % (
            eng.show(pos), eng.show(rp - sl.start)), s)
    eng.region_write(s, sl.region, sl.start, sl.n, Sym(("value", kv(vals[0])), ("other", "?")))
    return [(s, Tup([]))]


def g_write_prim(eng, fr, st, cal, ca, vals, span, dty):
    """The position handed to a value whose body is inlined (opaque ones: c_write_prim)."""
    tys = [a for a in ca if a[0] not in ("n", "p")]
    if len(tys) > 1 and tys[1][0] in ("int", "float", "bool"):
        return
    rs = eng.resolve(cal, ca)
    if not rs:
        return
    c = eng.expand(st, vals[1])
    if isinstance(c, It) and c.kind == "cursor":
        sl = c.f["sl"]
        rp = eng.rpos.get(sl.region)
        if isinstance(rp, L):
            pos = eng.as_int(st, vals[2])
            eng.oblig("pos", fr, span[1], "write position", eng.entails_eq(st, pos - rp + sl.start), "the position handed to write (%s) is not the one the bytes end up at (%s)" % (
                eng.show(pos), eng.show(rp - sl.start)), st)


def write_pre(eng, fn, st, args):
    tr = short(fn.impl_trait) if fn.impl_trait else None
    if tr == "WriteAsPrimitive" and fn.name == "write":
        p = impl_arg(fn)
        c = eng.expand(st, args[1])
        sl = c.f["sl"]
        eng.add_eq(st, sl.n - size_const(eng, st, p))
        eng.rpos[sl.region] = args[2]
        eng.add_ge(st, args[2] - sl.n)
        st.cov[sl.region] = const(0)
    elif tr == "VectorWrite" and fn.name == "write_values":
        im = fn.crate.ty(fn.impl_self)
        stride = eng.const_item(st, "planus::traits::VectorWrite::STRIDE", "planus::traits::VectorWrite::STRIDE", (im, impl_arg(fn)), ("int", "usize"))
        n = eng.models.as_slice(eng, st, args[0]).n
        total = stride.mul(n)
        r = eng.region("bytes", total)
        st.cov[r] = const(0)
        eng.rpos[r] = args[2]
        args[1] = Ptr(r, const(0), ("adt", "core::mem::maybe_uninit::MaybeUninit", (("int", "u8"),)), 1)
        eng.add_ge(st, args[2] - total)
        eng.add_ge(st, const(MAX_BUFFER) - total)
        st.facts[("must",)] = (r, total)
    elif fn.path == UNSAFE_ROOTS[0]:
        # entries written so far: two bytes per slot within the buffer, object sizes start at 4
        eng.add_ge(st, field(eng, st, args[0], TW, "object_size") - 4)
        eng.add_ge(st, const(2**16 - 1) - field(eng, st, args[0], TW, "object_size"))
    elif fn.path == UNSAFE_ROOTS[1]:
        sl, off = object_writer(eng, st, args[0])
        eng.rpos[sl.region] = off + sl.start
        eng.add_ge(st, off - sl.n)
        st.facts[("obj",)] = (sl, off)


def object_writer(eng, st, v):
    """(bytes, offset) of the ObjectWriter behind a reference."""
    b = field(eng, st, v, OW, "bytes")
    return eng.models.as_slice(eng, st, b), field(eng, st, v, OW, "offset")


def impl_arg(fn):
    return fn.crate._arg(fn.impl_args[-1])


def on_exit(eng, fn, st, v, args):
    m = st.facts.get(("must",))
    if m and fn.name == "write_values":
        r, total = m
        c = st.cov.get(r)
        fr = Fr(fn)
        eng.oblig("mem", fr, fn.span[1], "write_values", isinstance(c, L) and eng.entails(st, c - total), "not every byte of the elements is written (%s of %s)" % (
            eng.show(c) if isinstance(c, L) else "0", eng.show(total)), st)
    if fn.path == UNSAFE_ROOTS[1]:
        sl, off = st.facts[("obj",)]
        sl2, off2 = object_writer(eng, st, args[0])
        good = sl2.region == sl.region and eng.entails_eq(st, (sl2.start + off2) - (sl.start + off)) and eng.entails_eq(st, (sl2.start + sl2.n) - (sl.start + sl.n))
        eng.oblig("pos", Fr(fn), fn.span[1], "object writer step", good, "after a field the writer's offset (%s, was %s) and its remaining bytes (start %s, was %s) have moved by different amounts" % (
            eng.show(off2), eng.show(off), eng.show(sl2.start), eng.show(sl.start)), st)
    if fn.path == BUILDER + "::write_with":
        x = [e for e in st.ev if e[0] == "closure"]
        fr = Fr(fn)
        good = len(x) == 1 and eng.entails_eq(st, builder_len(eng, st, args[0]) - x[0][1]) and eng.entails_eq(st, x[0][2] - args[1])
        eng.oblig("pos", fr, fn.span[1], "write_with", good, "the position handed to the closure (%s) is not the length of the buffer after the write (%s), or the slice has another size than asked for" % (
            eng.show(x[0][1]) if x else "none", eng.show(builder_len(eng, st, args[0]))), st)


class Fr:
    def __init__(self, fn):
        self.fn, self.caller = fn, None


def on_opaque(eng, fr, st, f, vals):
    if eng.root is not None and eng.root.path == BUILDER + "::write_with":
        vs = [eng.expand(st, v) for v in vals]
        if len(vs) == 1 and isinstance(vs[0], Tup):
            vs = vs[0].fields
        if len(vs) == 2 and isinstance(vs[1], Sl):
            st.ev = st.ev + (("closure", vs[0], vs[1].n),)
    if eng.root is not None and eng.root.path == UNSAFE_ROOTS[0]:
        sl, off = object_writer(eng, st, vals[0])
        rp = eng.rpos.get(sl.region)
        good = isinstance(rp, L) and eng.entails_eq(st, off - rp) and eng.entails_eq(st, sl.start) and eng.entails_eq(st, sl.n - eng.rsize[sl.region])
        eng.oblig("pos", fr, None, "object writer", good, "the object writer does not start at the position of the bytes reserved for the object", st)
        # the caller's obligation (unsafe contract): the object writer is used up; decided for generated code by P11
        eng.region_write(st, sl.region, sl.start, sl.n, Sym(("object",), ("other", "?")))


def setup_write(eng):
    setup(eng)
    eng.max_alloc = MAX_BUFFER
    eng.mutable = {BUILDER, "planus::backvec::BackVec"}
    eng.summaries[BUILDER + "::write_with"] = s_write_with
    eng.contracts["planus::traits::VectorWrite::write_values"] = c_write_values
    eng.contracts["planus::traits::WriteAsPrimitive::write"] = c_write_prim
    eng.guards["planus::traits::WriteAsPrimitive::write"] = g_write_prim
    eng.hooks["exit"] = lambda fn, st, v, args: on_exit(eng, fn, st, v, args)
    eng.hooks["opaque_call"] = on_opaque
    eng.hooks["root"] = lambda fn, st, args: (pre(eng, fn, st, args), write_pre(eng, fn, st, args))


def write_inv_type(p):
    return p in ("planus::backvec::BackVec", BUILDER, "planus::table_writer::TableWriter", "planus::table_writer::ObjectWriter")


def write_inv_filter(p, key):
    return "%" not in key and not (p == BUILDER and "inner." in key)
