"""What each serialisation primitive of the runtime must leave behind, compared with what the analysis of its body says it does.

Obligation kinds: "offset" (stored and returned offsets), "layout" (bytes of strings, vectors, vtables), "value" (scalars and
element order), "elide" (which values are left out)."""
from sa import rtspec
from sa.absint import Adt, Tup, L, Sl, Ref, Sym, Term, It, Arr, const, kv, Stop
from sa.layout import WRITERS, WRITE_VTABLE
from sa.rtspec import BUILDER, TW, builder_len, field, short, size_const

INTS = {"i8": 1, "u8": 1, "i16": 2, "u16": 2, "i32": 4, "u32": 4, "i64": 8, "u64": 8}
OFFSET, UOFFSET, UVOFFSET = "planus::Offset", "planus::UnionOffset", "planus::UnionVectorOffset"


def peel(eng, x, least=4):
    return eng.peel(x, least)


def same(eng, st, a, b):
    a, b = eng.expand(st, a), eng.expand(st, b)
    while isinstance(a, Ref) and not isinstance(b, Ref):
        a = eng.expand(st, eng.load(st, a.cell, a.path))
    while isinstance(b, Ref) and not isinstance(a, Ref):
        b = eng.expand(st, eng.load(st, b.cell, b.path))
    if isinstance(a, L) and isinstance(b, L):
        return eng.entails_eq(st, a - b)
    if isinstance(a, Adt) and isinstance(b, Adt):
        return a.path == b.path and a.vi == b.vi and all(same(eng, st, x, y) for x, y in zip(a.fields, b.fields) if not marker(x) and not marker(y))
    return kv(a) == kv(b)


def marker(x):
    return isinstance(x, Tup) and not x.fields or isinstance(x, Adt) and x.path.endswith("PhantomData") or x is None


def deref(eng, st, v):
    v = eng.expand(st, v)
    while isinstance(v, Ref):
        v = eng.expand(st, eng.load(st, v.cell, v.path))
    return v


def le(eng, st, val, t, want):
    """val is the little-endian representation of `want` (a linear expression, modulo the width)."""
    if not (isinstance(val, Term) and val.op == "le_bytes"):
        return False
    x, ty = val.args
    if ty != t:
        return False
    x = eng.expand(st, x)
    if isinstance(x, L) and isinstance(want, L):
        return eng.entails_eq(st, peel(eng, x, min(4, INTS[t])) - peel(eng, want, min(4, INTS[t]))) or eng.entails_eq(st, x - want)
    return same(eng, st, x, want)


def image(st, region):
    return [e for e in st.ev if e[0] == "w" and e[1] == region]


def written(eng, st, region, expected):
    """The writes to `region` are exactly the expected ones, each (start, length, predicate on the value)."""
    ws = image(st, region)
    if len(ws) != len(expected):
        return False
    left = list(ws)
    for start, n, pred in expected:
        for w in left:
            if eng.entails_eq(st, w[2] - start) and eng.entails_eq(st, w[3] - n) and pred(w[4]):
                left.remove(w)
                break
        else:
            return False
    return True


def is_load(eng, st, sl):
    def pred(v):
        return isinstance(v, Term) and v.op == "load" and v.args[0] == sl.region and eng.entails_eq(st, v.args[1] - sl.start) and eng.entails_eq(st, v.args[2] - sl.n)
    return pred


def is_zero(eng, st):
    def pred(v):
        v = eng.expand(st, v)
        if isinstance(v, Arr):
            v = eng.expand(st, v.elems[0]) if len(v.elems) == 1 else v
        return isinstance(v, L) and eng.entails_eq(st, v)
    return pred


def writes(st):
    return [e for e in st.ev if e[0] == "write_with"]


def opt(v):
    """("some", x) | ("none",) | None when v is not an Option."""
    if isinstance(v, Adt) and v.path == "core::option::Option":
        return ("some", v.fields[0]) if v.vn == "Some" else ("none",)
    return None


class Spec:
    def __init__(self):
        self.classes = {}
        self.steps = {}  # functions whose loop over the elements was matched

    def seen(self, what, fn):
        self.classes.setdefault(what, set()).add(fn.path)

    # ---------------------------------------------------------------- dispatch
    def __call__(self, eng, fr, fn, st, v, args):
        tr = short(fn.impl_trait) if fn.impl_trait else None
        self.o = lambda kind, what, ok, msg: eng.oblig(kind, fr, fn.span[1], what, ok, msg, st)
        v = eng.expand(st, v)
        if tr in WRITERS and fn.name == "prepare":
            self.prepare(eng, fr, fn, st, v, args, tr)
        elif tr == "WriteAsPrimitive":
            self.primitive(eng, fr, fn, st, args)
        elif fn.path == BUILDER + "::finish":
            self.finish(eng, fn, st, v, args)
        elif fn.path == BUILDER + "::current_offset":
            self.seen("current_offset", fn)
            self.o("offset", "current offset", eng.entails_eq(st, peel(eng, deref(eng, st, v.fields[0])) - builder_len(eng, st, args[0])),
                   "current_offset is not the number of bytes written so far")
        elif fn.path.startswith(BUILDER + "::create_"):
            self.seen("create", fn)
            ps = [e for e in st.ev if e[0] == "prepare"]
            ok = len(ps) == 1 and same(eng, st, ps[0][5], args[1]) and same(eng, st, ps[0][3], v)
            self.o("offset", "create", ok, "the offset handed out is not that of the value serialised")
        elif fn.path == WRITE_VTABLE:
            self.vtable(eng, fn, st, v, args)
        elif fn.path == rtspec.UNSAFE_ROOTS[0]:
            self.table(eng, fn, st, args)
        elif fn.name == "write_entry" and rtspec.self_adt(fn) == TW:
            self.entry(eng, fn, st, args)
        elif fn.name == "default" and rtspec.self_adt(fn) == TW:
            self.seen("table default", fn)
            for f in ("vtable_size", "object_size"):
                x = field(eng, st, v, TW, f)
                self.o("offset", "empty table", eng.entails_eq(st, x - 4), "%s of an empty table is %s, not 4" % (f, eng.show(x)))
            b = field(eng, st, v, TW, "vtable_buffer")
            zero = isinstance(b, Term) and b.op == "repeat" and isinstance(b.args[0], L) and eng.entails_eq(st, b.args[0])
            self.o("offset", "empty table", zero, "the slots of an empty table are not all zero (absent)")
        elif fn.path == rtspec.UNSAFE_ROOTS[1]:
            self.object_write(eng, fn, st, args)

    # ---------------------------------------------------------------- prepare
    def prepare(self, eng, fr, fn, st, v, args, tr):
        t = fn.crate.ty(fn.impl_self)
        ps = [e for e in st.ev if e[0] == "prepare"]
        o = opt(v)
        quiet = not ps and not writes(st)
        name = t[1] if t[0] == "adt" else t[0]
        if t[0] == "ref" and t[1][0] == "param" or name == "alloc::boxed::Box":
            self.seen("forwarding", fn)
            inner = deref_once(eng, st, args[0])
            more = len(ps) == 1 and all(same(eng, st, a, b) for a, b in zip(ps[0][2][2:], args[2:]))
            ok = more and ps[0][1] == tr and points_to(eng, st, ps[0][2][0], inner) and same(eng, st, ps[0][3], v)
            self.o("elide", "forwarding", ok, "does not hand on exactly the value behind the pointer and its result")
        elif name == "core::option::Option":
            me = deref(eng, st, args[0])
            m = opt(me)
            if ps:
                self.seen("option some", fn)
                p = ps[0][2][0]
                ok = len(ps) == 1 and m and m[0] == "some" and isinstance(p, Ref) and same(eng, st, eng.load(st, p.cell, p.path), m[1]) and same(eng, st, ps[0][3], v)
                self.o("elide", "present option", ok, "a present optional value is not serialised as that value")
            else:
                self.seen("option none", fn)
                self.o("elide", "absent option", quiet and m == ("none",) and o == ("none",), "something is left out although the option holds a value, or an absent option leaves something behind")
        elif name in ("tuple", "planus::traits::DefaultValue", "planus::DefaultValue", "planus::Void"):
            self.seen("nothing", fn)
            self.o("elide", "nothing", quiet and o == ("none",), "the stand-in for an absent value serialises something")
        elif name in ("int", "float", "bool", OFFSET, UOFFSET, UVOFFSET):
            me = deref(eng, st, args[0])
            if o is None:
                self.seen("scalar", fn)
                self.o("value", "scalar", quiet and tr in ("WriteAs", "VectorWrite", "WriteAsOffset", "WriteAsUnion", "WriteAsUnionVector") and same(eng, st, v, me), "the value is changed on its way into the buffer")
            elif o[0] == "some":
                self.seen("scalar some", fn)
                self.o("elide", "present scalar", quiet and same(eng, st, o[1], me), "the value is changed on its way into the buffer")
            else:
                self.seen("scalar none", fn)
                d = deref(eng, st, args[2]) if len(args) > 2 else None
                ok = tr == "WriteAsDefault" and d is not None and known_equal(eng, st, me, d)
                self.o("elide", "elided scalar", quiet and ok, "a value is left out although it is not known to equal the default")
        else:
            self.bulk(eng, fn, st, v, args, tr, t, o)

    def bulk(self, eng, fn, st, v, args, tr, t, o):
        """Strings, byte strings, vectors and union vectors."""
        me = eng.models.as_slice(eng, st, args[0])
        ws = writes(st)
        if o == ("none",):
            self.seen("bulk none", fn)
            empty = me is not None and eng.entails_eq(st, me.n)
            d = eng.models.as_slice(eng, st, args[2]) if len(args) > 2 else None
            if tr == "WriteAsDefault" and d is not None and elem_kind(fn, t) == "str":
                empty = known_equal(eng, st, me, d)
            self.o("elide", "elided vector", not ws and tr.startswith("WriteAsDefault") and empty, "a string or vector is left out although it is not known to equal the default")
            return
        if o:
            v = eng.expand(st, o[1])
        if not isinstance(v, Adt) or me is None:
            self.o("offset", "returned offset", False, "result of serialising %s is not understood" % t[0])
            return
        kind = "union" if v.path == UVOFFSET else elem_kind(fn, t)
        self.seen(kind, fn)
        hits = [e for e in st.ev if e[0] == "hit"]
        if not ws:
            # an earlier object with the same contents (P07)
            ok = len(hits) == 1 and kind in ("str", "bytes") and same(eng, st, peel(eng, deref(eng, st, v.fields[0])), peel(eng, deref(eng, st, hits[0][3].fields[0])))
            self.o("offset", "returned offset", ok, "nothing is written and the offset returned is not that of the cached object")
            return
        n = me.n
        u32 = lambda w: le(eng, st, w, "u32", n)
        four = const(4)
        if kind in ("str", "bytes"):
            exp = [(const(0), four, u32), (four, n, is_load(eng, st, me))]
            size = n + 4
            if kind == "str":
                exp.append((n + 4, const(1), is_zero(eng, st)))
                size = n + 5
            ok = len(ws) == 1 and eng.entails_eq(st, ws[0][2] - size) and written(eng, st, ws[0][1], exp)
            self.o("layout", "string" if kind == "str" else "byte vector", ok, "the bytes written are not the length, the contents%s" % (" and a terminating zero" if kind == "str" else ""))
            self.returned(eng, st, v, ws[0][4])
        elif kind == "union":
            ok = len(ws) == 4 and self.elements(eng, st, ws[0], n) and self.prefix(eng, st, ws[1], ws[0], u32)
            self.o("layout", "union values", ok, "the values of a union vector are not written as elements preceded by their number")
            def tags(w):
                return isinstance(w, Term) and w.op in ("load", "elements") or isinstance(w, It)
            ok = len(ws) == 4 and written(eng, st, ws[2][1], [(const(0), n, tags)]) and eng.entails_eq(st, ws[2][2] - n) and self.prefix(eng, st, ws[3], ws[2], u32)
            self.o("layout", "union tags", ok, "the tags of a union vector are not written as bytes preceded by their number")
            if len(ws) == 4:
                fs = [f[0] for f in eng.adts[UVOFFSET]["variants"][0]["fields"]]
                self.returned(eng, st, v.fields[fs.index("values_offset")], ws[1][4])
                self.returned(eng, st, v.fields[fs.index("tags_offset")], ws[3][4])
        else:
            ok = len(ws) == 2 and self.elements(eng, st, ws[0], n) and self.prefix(eng, st, ws[1], ws[0], u32)
            self.o("layout", "vector", ok, "a vector is not written as its elements preceded by their number")
            self.returned(eng, st, v, ws[-1][4])
        if kind in ("union", "vector"):
            cs = [e for e in st.ev if e[0] == "collect"]
            for e in cs:
                self.step(eng, fn, st, e[2], e[1], None)
            self.steps.setdefault(fn.path, False)

    def prefix(self, eng, st, w, before, u32):
        return eng.entails_eq(st, w[2] - 4) and eng.entails_eq(st, w[4] - before[4] - 4) and written(eng, st, w[1], [(const(0), const(4), u32)])

    def elements(self, eng, st, w, n):
        es = image(st, w[1])
        return len(es) == 1 and isinstance(es[0][4], Term) and es[0][4].op == "elements" and eng.entails_eq(st, es[0][2]) and eng.entails_eq(st, es[0][3] - w[2]) \
            and eng.entails_eq(st, es[0][4].args[0].n - n) and eng.entails_eq(st, es[0][4].args[1].mul(n) - w[2])

    def returned(self, eng, st, v, pos):
        x = peel(eng, deref(eng, st, deref(eng, st, v).fields[0]))
        self.o("offset", "returned offset", eng.entails_eq(st, x - pos), "the offset returned (%s) is not the position of the object written (%s)" % (eng.show(x), eng.show(pos)))

    # ---------------------------------------------------------------- one step of the loop over the elements
    def step(self, eng, fn, st, ev, collected, vec):
        ps = [e for e in ev if e[0] == "prepare"]
        pushes = [e for e in ev if e[0] == "push"] + [("push", ("at", e[2]), e[4]) for e in ev if e[0] == "w" and isinstance(e[1], tuple)]
        if collected is not None:
            pushes.append(("push", None, collected))
        if len(ps) != 1:
            return self.o("layout", "element step", False, "an element is not serialised exactly once per step")
        a = ps[0][2][0]
        idx = elem_index(a)
        me = eng.models.as_slice(eng, st, eng.rootargs[0])
        ok = idx is not None and me is not None and (a.cell[2] == me.region or a.cell[2].startswith("vec#"))
        self.o("layout", "element step", ok, "the value serialised in a step is not an element of the vector")
        if not ok:
            return
        r = eng.expand(st, ps[0][3])
        parts = [r]
        if isinstance(r, Adt) and r.path == UOFFSET:
            fs = {f[0]: x for f, x in zip(eng.adts[UOFFSET]["variants"][0]["fields"], r.fields)}
            parts = [fs["tag"], fs["offset"]]
        ok = len(pushes) == len(parts)
        for x in parts:
            ok = ok and any(same(eng, st, unwrap1(p[2]), unwrap1(x)) for p in pushes)
        self.o("layout", "element step", ok, "what is stored for an element is not the result of serialising it")
        for p in pushes:
            if p[1] is None:
                continue
            at = p[1][1] if p[1][0] == "at" else p[3]
            self.o("layout", "element order", eng.entails_eq(st, at - idx), "element %s of the vector is stored as element %s" % (eng.show(idx), eng.show(at)))
        self.steps[fn.path] = True

    def backedge(self, eng, fr, h, st):
        fn = eng.root
        tr = short(fn.impl_trait) if fn.impl_trait else None
        self.o = lambda kind, what, ok, msg: eng.oblig(kind, fr, fn.span[1], what, ok, msg, st)
        if tr in WRITERS and fn.name == "prepare":
            if any(e[0] == "prepare" for e in st.ev):
                self.step(eng, fn, st, st.ev, None, None)
        elif tr == "VectorWrite" and fn.name == "write_values":
            self.value_step(eng, fn, st)

    def value_step(self, eng, fn, st):
        """One element of write_values: element i is written at STRIDE * i and knows its own position."""
        vals = eng.models.as_slice(eng, st, eng.rootargs[0])
        ptr = eng.models.as_ptr(eng, st, eng.rootargs[1])
        ws = image(st, ptr.region)
        if len(ws) != 1:
            return self.o("layout", "element write", False, "an element is not written exactly once per step")
        start, n, val = ws[0][2], ws[0][3], ws[0][4]
        self.seen("write_values", fn)
        t = fn.crate.ty(fn.impl_self)
        p = rtspec.impl_arg(fn)
        for cell, x in st.cells.items():
            if cell[0] == "h" and cell[1] == "elem" and cell[2] == vals.region and eng.entails_eq(st, n.mul(lin(cell[3])) - start):
                if self.value_bytes(eng, st, p, eng.expand(st, x), val, eng.rootargs[2] - start):
                    return self.o("layout", "element write", True, "")
        self.o("layout", "element write", False, "element i is not written at i times its size, or not as its own bytes")

    def value_bytes(self, eng, st, p, x, val, pos):
        """Is `val` the serialised form of x : p at position pos?"""
        val = eng.expand(st, val)
        if p[0] in ("int", "float"):
            return le(eng, st, val, p[1], x)
        if p[0] == "bool":
            b = val.elems[0] if isinstance(val, Arr) and len(val.elems) == 1 else val
            if isinstance(val, Term) and val.op == "le_bytes":
                b = val.args[0]
            return eng.entails_eq(st, eng.as_int(st, b) - eng.as_int(st, x))
        if p[0] == "adt" and p[1] == OFFSET:
            o = x.fields[[f[0] for f in eng.adts[OFFSET]["variants"][0]["fields"]].index("offset")]
            return le(eng, st, val, "u32", pos - eng.expand(st, o))
        return False

    # ---------------------------------------------------------------- scalars
    def primitive(self, eng, fr, fn, st, args):
        t = fn.crate.ty(fn.impl_self)
        p = rtspec.impl_arg(fn)
        if fn.name != "write" or t[0] == "adt" and t[1].endswith("Void"):
            return
        cur = eng.rootcur
        ws = image(st, cur.region)
        if t[0] == "ref":
            ok = len(ws) == 1 and isinstance(ws[0][4], Sym) and ws[0][4].key[0] == "value" and ws[0][4].key[1] == kv(deref_once(eng, st, args[0]))
            self.seen("forwarding write", fn)
            return self.o("value", "forwarding write", ok, "does not write exactly the value behind the pointer")
        me = deref(eng, st, args[0])
        self.seen("write", fn)
        ok = len(ws) == 1 and eng.entails_eq(st, ws[0][2]) and self.value_bytes(eng, st, p, me, ws[0][4], args[2])
        self.o("offset" if p[0] == "adt" else "value", "stored offset" if p[0] == "adt" else "little endian", ok,
               "the bytes written are not the %s" % ("distance from where the offset is stored to what it denotes" if p[0] == "adt" else "little-endian representation of the value"))

    # ---------------------------------------------------------------- tables
    def vtable(self, eng, fn, st, v, args):
        self.seen("vtable", fn)
        em = [e for e in st.ev if e[0] == "emit"]
        if not em:
            hit = [e for e in st.ev if e[0] == "hit"]
            ok = len(hit) == 1 and same(eng, st, peel(eng, v), peel(eng, deref(eng, st, hit[0][3].fields[0])))
            return self.o("offset", "vtable position", ok, "nothing is written and the position returned is not that of the cached vtable")
        sl = eng.models.as_slice(eng, st, args[1])
        ok = len(em) == 1 and is_load(eng, st, sl)(em[0][3])
        self.o("offset", "vtable bytes", ok, "the vtable written is not the one asked for")
        self.o("offset", "vtable position", eng.entails_eq(st, peel(eng, v) - builder_len(eng, st, args[0])) and eng.entails_eq(st, peel(eng, v) - em[0][2]), "the position returned is not that of the vtable")

    def table(self, eng, fn, st, args):
        self.seen("table", fn)
        ws = writes(st)
        vt = [e for e in st.ev if e[0] == "vtable"]
        ent = st.facts[("entry",)]
        ok = len(vt) == 1 and len(ws) == 2
        self.o("offset", "table", ok, "a table is not a vtable, an object and the distance between them")
        if not ok:
            return
        sl = vt[0][1]
        self.o("offset", "vtable extent", sl is not None and eng.entails_eq(st, sl.start) and eng.entails_eq(st, sl.n - ent["vtable_size"]), "not exactly the used part of the vtable is written")
        vs, os = ent["vtable_size"], ent["object_size"]
        hdr = written(eng, st, sl.region, [(const(0), const(2), lambda w: le(eng, st, w, "u16", vs)), (const(2), const(2), lambda w: le(eng, st, w, "u16", os))])
        self.o("offset", "vtable header", hdr, "the vtable does not start with its own size and the size of the object")
        self.o("offset", "object size", eng.entails_eq(st, ws[0][2] - os + 4), "the object has another size than the vtable says")
        ok = eng.entails_eq(st, ws[1][2] - 4) and eng.entails_eq(st, ws[1][4] - ws[0][4] - 4) and \
            written(eng, st, ws[1][1], [(const(0), const(4), lambda w: le(eng, st, w, "i32", vt[0][2] - ws[1][4]))])
        self.o("offset", "vtable offset", ok, "the object does not start with the distance to its vtable")

    def entry(self, eng, fn, st, args):
        self.seen("entry", fn)
        ent = st.facts[("entry",)]
        pt = ("param", [g for g in fn.generics if g and g != "VTABLE_MAX_BYTES"][-1])
        slot = args[1].scale(2) + 4
        ws = [e for e in st.ev if e[0] == "w"]
        ok = len(ws) == 1 and eng.entails_eq(st, peel(eng, ws[0][2]) - slot) and eng.entails_eq(st, peel(eng, ws[0][3]) - 2) and le(eng, st, ws[0][4], "u16", ent["object_size"])
        self.o("offset", "slot", ok, "the slot of an entry does not get the entry's place in the object")
        os = field(eng, st, args[0], TW, "object_size")
        self.o("offset", "entry room", eng.entails_eq(st, peel(eng, os) - ent["object_size"] - size_const(eng, st, pt)), "the object does not grow by the size of the entry")
        vs = field(eng, st, args[0], TW, "vtable_size")
        ok = eng.entails(st, peel(eng, vs) - slot - 2) and eng.entails(st, vs - ent["vtable_size"]) and (eng.entails_eq(st, peel(eng, vs) - slot - 2) or eng.entails_eq(st, vs - ent["vtable_size"]))
        self.o("offset", "vtable size", ok, "the vtable size is not the larger of the old one and the end of the new slot")

    def object_write(self, eng, fn, st, args):
        self.seen("object write", fn)
        sl, off = st.facts[("obj",)]
        ws = image(st, sl.region)
        ok = len(ws) == 1 and isinstance(ws[0][4], Sym) and ws[0][4].key[0] == "value" and ws[0][4].key[1] == kv(args[1]) and eng.entails_eq(st, ws[0][2] - sl.start)
        self.o("value", "field", ok, "a field is not written at the front of the space left in the object")

    # ---------------------------------------------------------------- the finished buffer
    def finish(self, eng, fn, st, v, args):
        self.seen("finish", fn)
        ps = [e for e in st.ev if e[0] == "prepare"]
        em = [e for e in st.ev if e[0] == "emit"]
        total = builder_len(eng, st, args[0])
        me = eng.expand(st, args[2])
        fid = opt(me)
        root = len(ps) == 1 and same(eng, st, ps[0][5], args[1])
        r = None
        if root:
            x = deref(eng, st, ps[0][3])
            r = eng.expand(st, x.fields[0]) if isinstance(x, Adt) else None
        last = em[-1] if em else None
        ok = r is not None and last is not None and eng.entails_eq(st, last[1] - 4) and eng.entails_eq(st, last[2] - total) and le(eng, st, last[3], "u32", total - r)
        self.o("offset", "root offset", ok, "the buffer does not start with the distance to the root object")
        if fid and fid[0] == "some":
            ok = len(em) == 2 and eng.entails_eq(st, em[0][1] - 4) and eng.entails_eq(st, em[0][2] - total + 4) and same(eng, st, em[0][3], fid[1])
            self.o("layout", "file identifier", ok, "the file identifier does not follow the root offset")
        else:
            self.o("layout", "no file identifier", fid == ("none",) and len(em) == 1, "bytes other than the root offset are written without a file identifier")
        sl = eng.models.as_slice(eng, st, v)
        self.o("offset", "finished buffer", sl is not None and eng.entails_eq(st, sl.n - total), "the slice returned is not the whole buffer")


def lin(key):
    return key if isinstance(key, L) else L(dict(key[1]), key[0])


def elem_index(a):
    if isinstance(a, Ref) and isinstance(a.cell, tuple) and a.cell[0] == "h" and a.cell[1] == "elem" and not a.path:
        return lin(a.cell[3])
    return None


def unwrap1(v):
    """Offset<()> built from an Offset, MaybeUninit::new(x): only the number counts."""
    if isinstance(v, Adt) and v.path == OFFSET:
        return v.fields[0]
    if isinstance(v, Adt) and v.path.endswith("MaybeUninit"):
        return v.fields[0]
    return v


def deref_once(eng, st, v):
    v = eng.expand(st, v)
    if isinstance(v, Ref):
        return eng.expand(st, eng.load(st, v.cell, v.path))
    return v


def points_to(eng, st, p, inner):
    p = eng.expand(st, p)
    if kv(p) == kv(inner) or isinstance(inner, It) and inner.kind == "box" and isinstance(p, Ref) and p.cell == inner.f.get("cell"):
        return True
    if isinstance(p, Ref):
        return kv(eng.expand(st, eng.load(st, p.cell, p.path))) == kv(inner)
    return False


def known_equal(eng, st, a, b):
    a, b = eng.expand(st, a), eng.expand(st, b)
    ka, kb = strip(kv(a)), strip(kv(b))
    for k, val in st.facts.items():
        if k[0] == "eqv" and val is True and (strip(k[1]), strip(k[2])) in ((ka, kb), (kb, ka)):
            return True
    try:
        c = eng.cmp(st, "Eq", a, b)
        if eng.cond(st, c) is True or st.facts.get(("cond", c.k())):
            return True
        return eng.entails_eq(st, eng.as_int(st, a) - eng.as_int(st, b))
    except (Stop, AttributeError, TypeError):
        return False


def strip(k):
    """A whole string is identified by where its bytes are."""
    if isinstance(k, tuple) and k and k[0] == "Sl" and k[2] == (0, ()):
        return k[1]
    if isinstance(k, tuple) and k[:2] == ("It", "string"):
        return dict(k[2:]).get("region")
    return k


def elem_kind(fn, t):
    if t[0] == "str" or t[0] == "adt" and t[1] == "alloc::string::String":
        return "str"
    if t[0] in ("slice", "array") and t[1][0] == "int":
        return "bytes"
    return "vector"
