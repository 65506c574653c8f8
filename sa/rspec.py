"""What the reading half of the runtime returns: which bytes a value comes from, when a buffer is rejected, and what errors say.

Addresses are linear expressions over the positions given and the values stored in the buffer; a stored value is the atom
(little-endian load of type t at position p of region r), so "follow the offset stored at p" is an exact linear identity."""
from sa import rtspec
from sa.absint import Sl, Ref, Adt, Tup, L, Term, C, const, kv, Stop
from sa.rtspec import Fr, short
from sa.runtime import Runtime

SWS = "planus::slice_helpers::SliceWithStartOffset"
TABLE = "planus::table_reader::Table"
VECTOR = "planus::vectors::vector::Vector"
UVECTOR = "planus::union_vectors::union_vector::UnionVector"
ERR = "planus::errors::Error"
LOC = "planus::errors::ErrorLocation"
SIZES = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "f32": 4, "f64": 8}


def fields(eng, st, v):
    """{field: value} of a struct value or a reference to one."""
    v = eng.expand(st, v)
    while isinstance(v, Ref):
        v = eng.expand(st, eng.load(st, v.cell, v.path))
    if not isinstance(v, Adt) or v.path not in eng.adts:
        return None
    vs = eng.adts[v.path]["variants"]
    names = [f[0] for f in vs[v.vi if len(vs) > 1 else 0]["fields"]]
    return {n: eng.expand(st, x) for n, x in zip(names, v.fields)}


def window(eng, st, v):
    """(slice, offset from the start of the buffer) of a SliceWithStartOffset."""
    f = fields(eng, st, v)
    if f is None:
        return None
    return eng.models.as_slice(eng, st, f["buffer"]), eng.as_int(st, f["offset_from_start"])


def lin(key):
    return L(dict(key[1]), key[0])


def loads(eng):
    for i, (key, *_) in enumerate(eng.A.info):
        if isinstance(key, tuple) and key and key[0] == "bytes" and key[1] == "le" and isinstance(key[3], tuple) and key[3][:2] == ("Term", "load"):
            yield i, key[2], key[3][2], lin(key[3][3])
        elif isinstance(key, tuple) and len(key) == 3 and key[0] == "elem" and isinstance(key[2], L):
            yield i, "u8", key[1], key[2]  # an indexed byte


def rd(eng, st, region, pos, t):
    """The value of type t stored at a position, when the analysed code has read it."""
    for i, ty, r, p in loads(eng):
        if ty == t and r == region and p is not None and eng.entails_eq(st, p - pos):
            return L({(i,): 1}, 0)
    return None


def is_rd(eng, st, v, region, pos, t):
    v = eng.expand(st, v)
    if t in ("f32", "f64"):
        if isinstance(v, Term) and v.op == "f_bytes_le":
            x = v.args[0]
            return isinstance(x, Term) and x.op == "load" and x.args[0] == region and eng.entails_eq(st, x.args[1] - pos) and eng.entails_eq(st, x.args[2] - SIZES[t])
        return False
    if not isinstance(v, L):
        return False
    for i, ty, r, p in loads(eng):
        if ty == t and r == region and eng.entails_eq(st, v - L({(i,): 1}, 0)) and eng.entails_eq(st, p - pos):
            return True
    return False


def unwrapped(eng, l):
    """Positions are far below the overflow bound (P02): the plain value of a wrapping sum."""
    return eng.peel(l, 4)


def result(v):
    """('ok', x) / ('err', e) / ('some', x) / ('none',)"""
    if isinstance(v, Adt):
        if v.path.endswith("result::Result"):
            return ("ok" if v.vi == 0 else "err", v.fields[0])
        if v.path.endswith("option::Option"):
            return ("some", v.fields[0]) if v.vi == 1 else ("none", None)
    return (None, v)


class Spec:
    def __init__(self):
        self.classes = {}

    def seen(self, what, fn):
        self.classes.setdefault(what, set()).add(fn.path)

    def __call__(self, eng, fr, fn, st, v, args):
        if v is None:
            return
        self.o = lambda kind, what, ok, msg: eng.oblig(kind, fr, fn.span[1], what, bool(ok), msg, st)
        v = eng.expand(st, v)
        tr = short(fn.impl_trait) if fn.impl_trait else None
        if fn.name == "from_buffer" and tr in ("TableRead", "VectorRead", "VectorReadInner", "TableReadUnionVector"):
            self.from_buffer(eng, fn, st, v, args, tr)
        elif fn.path.startswith(TABLE + "::") and fn.name == "from_buffer":
            self.table(eng, fn, st, v, args)
        elif fn.path.startswith(TABLE + "::") and fn.name.startswith("access"):
            self.access(eng, fn, st, v, args)

    # ---------------------------------------------------------------- rejecting
    def reject(self, eng, st, e, reasons, what):
        """An error is only returned when one of the documented malformations is present."""
        e = eng.expand(st, e)
        name = e.vn if isinstance(e, Adt) else str(e)
        ok = any(c is True or isinstance(c, L) and eng.entails(st, c) for c in reasons)
        self.o("reject", what, ok, "rejected with %s although the bytes read are not known to be malformed" % name)

    def chain(self, eng, st, sl, off):
        """Follow the offset stored at `off`: (target, [reasons why it may be impossible])."""
        at = sl.start + off
        out = [off + 4 - sl.n - 1]
        o = rd(eng, st, sl.region, at, "u32")
        return o, out

    def from_buffer(self, eng, fn, st, v, args, tr):
        t = fn.crate.ty(fn.impl_self)
        w = window(eng, st, args[0])
        if w is None or w[0] is None:
            return self.o("read", "window", False, "the buffer argument of %s is not understood" % fn.path)
        sl, ofs = w
        off = eng.as_int(st, args[1])
        k, x = result(v)
        x = eng.expand(st, x) if x is not None else None
        if t[0] in ("int", "float", "bool"):
            n = 1 if t[0] == "bool" else SIZES[t[1]]
            if tr == "VectorRead":
                k, x = "ok", v
            if k == "ok":
                self.seen("scalar", fn)
                if t[0] == "bool":
                    b = rd(eng, st, sl.region, sl.start + off, "u8")
                    y = eng.cond(st, x) if isinstance(x, C) else None
                    ok = b is not None and isinstance(x, C) and self.same_bool(eng, st, x, b)
                    self.o("read", "boolean", ok, "a boolean is not `the byte at its position is not 0`")
                else:
                    self.o("read", "scalar", is_rd(eng, st, x, sl.region, sl.start + off, t[1]), "the value returned is not the little-endian %s stored at its position" % t[1])
            elif k == "err":
                self.reject(eng, st, x, [off + n - sl.n - 1], "scalar")
            return
        if t[0] == "ref" or t[0] == "adt" and t[1] in (VECTOR,):
            return self.vector(eng, fn, st, k, x, sl, ofs, off, t, tr)
        if t[0] == "adt" and t[1] == UVECTOR:
            return self.union_vector(eng, fn, st, k, x, sl, ofs, args)
        if t[0] == "adt" and t[1].endswith("result::Result"):
            # results are read by the value they hold
            self.seen("result", fn)
            rs = [e for e in st.ev if e[0] == "read"]
            ok = len(rs) == 1 and eng.entails_eq(st, eng.as_int(st, rs[0][2][1]) - off)
            self.o("read", "element", ok, "an element is not read once, at its own position")
            return
        self.o("read", "kind", False, "there is no specification for reading %s" % (t,))

    def same_bool(self, eng, st, x, b):
        y, n = eng.branch(st.fork(), x)
        return all(eng.entails(s, b - 1) for s in y) and all(eng.entails_eq(s, b) for s in n)

    def vector(self, eng, fn, st, k, x, sl, ofs, off, t, tr):
        kind = "vector" if t[0] == "adt" else "str" if t[1] == ("str",) else "bytes"
        stride = const(1)
        if kind == "vector":
            stride = eng.const_item(st, "planus::traits::VectorRead::STRIDE", "planus::traits::VectorRead::STRIDE", (t[2][0],), ("int", "usize"))
        o = rd(eng, st, sl.region, sl.start + off, "u32")
        n = rd(eng, st, sl.region, sl.start + off + o, "u32") if o is not None else None
        head = off + o + 4 if o is not None else None
        if k == "ok":
            self.seen(kind, fn)
            if o is None or n is None:
                return self.o("read", kind, False, "the offset or the length is not read from where it is stored")
            if kind == "vector":
                f = fields(eng, st, x)
                w = window(eng, st, f["buffer"])
                data, num, pos = w[0], eng.as_int(st, f["len"]), w[1]
                ok = data is not None and data.region == sl.region and eng.entails_eq(st, data.start - sl.start - head) and eng.entails_eq(st, num - n)
                self.o("read", "vector", ok, "a vector does not start behind the length its offset points at, or does not have that length")
                self.o("error", "position", eng.entails_eq(st, unwrapped(eng, pos - ofs) - head), "the position reported for a vector (%s past the start) is not its position" % eng.show(pos - ofs))
                return
            data = eng.models.as_slice(eng, st, x)
            ok = data is not None and data.region == sl.region and eng.entails_eq(st, data.start - sl.start - head) and eng.entails_eq(st, data.n - n)
            self.o("read", kind, ok, "the bytes returned are not those behind the length the offset points at")
        elif k == "err":
            e = x
            f = fields(eng, st, e)
            if isinstance(e, Adt) and e.path == ERR:
                e = f["error_kind"]
                self.location(eng, st, f, ["[str]", "get"], ofs)
            reasons = [off + 3 - sl.n]
            if o is not None:
                reasons += [off + o - sl.n - 1, off + o + 3 - sl.n, True if isinstance(e, Adt) and e.vn == "InvalidUtf8" else None]
            if n is not None:
                reasons += [head + n.mul(stride) - sl.n - 1]
            self.reject(eng, st, e, reasons, kind)

    def union_vector(self, eng, fn, st, k, x, sl, ofs, args):
        toff, voff = eng.as_int(st, args[1]), eng.as_int(st, args[2])
        to, vo = rd(eng, st, sl.region, sl.start + toff, "u32"), rd(eng, st, sl.region, sl.start + voff, "u32")
        tn = rd(eng, st, sl.region, sl.start + toff + to, "u32") if to is not None else None
        vn = rd(eng, st, sl.region, sl.start + voff + vo, "u32") if vo is not None else None
        if k == "ok":
            self.seen("union vector", fn)
            f = fields(eng, st, x)
            ws = {}
            for name, y in f.items():
                w = window(eng, st, y) if isinstance(y, (Adt, Ref)) else None
                if w:
                    ws[name] = w
            ok = tn is not None and vn is not None and "tags" in ws and "values" in ws
            for name, o, b in (("tags", to, toff), ("values", vo, voff)):
                ok = ok and ws[name][0].region == sl.region and eng.entails_eq(st, ws[name][0].start - sl.start - b - o - 4)
            self.o("read", "union vector", ok and eng.entails_eq(st, eng.as_int(st, f["len"]) - tn) and eng.entails_eq(st, tn - vn),
                   "the tags and values of a union vector are not those behind the two lengths, or the lengths may differ")
            if ok:
                for name, o, b in (("tags", to, toff), ("values", vo, voff)):
                    self.o("error", "position", eng.entails_eq(st, unwrapped(eng, ws[name][1] - ofs) - b - o - 4), "the position reported for a union vector is not its position")
        elif k == "err":
            reasons = []
            for o, b, n, sz in ((to, toff, tn, 1), (vo, voff, vn, 4)):
                reasons.append(b + 3 - sl.n)
                if o is not None:
                    reasons += [b + o - sl.n - 1, b + o + 3 - sl.n]
                if n is not None:
                    reasons.append(b + o + 4 + n.scale(sz) - sl.n - 1)
            if tn is not None and vn is not None:
                reasons += [tn - vn - 1, vn - tn - 1]
                ne = eng.cond(st, C("eq", tn - vn)) if tn.key != vn.key else None
                reasons.append(ne is False)
            self.reject(eng, st, x, reasons, "union vector")

    # ---------------------------------------------------------------- tables
    def table(self, eng, fn, st, v, args):
        sl, ofs = window(eng, st, args[0])
        off = eng.as_int(st, args[1])
        k, x = result(v)
        o = rd(eng, st, sl.region, sl.start + off, "u32")
        obj = off + o if o is not None else None
        so = rd(eng, st, sl.region, sl.start + obj, "i32") if o is not None else None
        vt = obj - so if so is not None else None
        vs = rd(eng, st, sl.region, sl.start + vt, "u16") if vt is not None else None
        if k == "ok":
            self.seen("table", fn)
            f = fields(eng, st, x)
            w = window(eng, st, f["object"])
            vtab = eng.models.as_slice(eng, st, f["vtable"])
            if vs is None:
                return self.o("read", "table", False, "the object offset, the vtable offset or the vtable size is not read from where it is stored")
            ok = w[0].region == sl.region and eng.entails_eq(st, w[0].start - sl.start - obj)
            self.o("read", "object", ok, "a table's object is not where its offset points")
            self.o("error", "position", eng.entails_eq(st, unwrapped(eng, w[1] - ofs) - obj), "the position reported for a table is not that of its object")
            ok = vtab is not None and vtab.region == sl.region and eng.entails_eq(st, vtab.start - sl.start - vt - 4) and eng.entails_eq(st, vtab.n - vs + 4)
            self.o("read", "vtable", ok, "the slots of a table are not the bytes behind the four bytes of its vtable header")
        elif k == "err":
            x = eng.expand(st, x)
            reasons = [off + 3 - sl.n]
            if o is not None:
                reasons += [obj - sl.n - 1, obj + 3 - sl.n]
            if vt is not None:
                reasons += [-vt - 1, vt + 1 - sl.n]
            if vs is not None:
                odd = isinstance(x, Adt) and x.vn == "InvalidVtableLength"
                reasons += [const(3) - vs, vt + vs - sl.n - 1, odd and self.odd(eng, st, vs)]
            self.reject(eng, st, x, reasons, "table")

    def odd(self, eng, st, vs):
        for i, (key, *_) in enumerate(eng.A.info):
            if isinstance(key, tuple) and len(key) == 3 and isinstance(key[1], L) and isinstance(key[2], L) and eng.entails_eq(st, key[1] - vs):
                a = L({(i,): 1}, 0)
                if key[0] == "Div" and key[2] == const(2) and eng.entails(st, vs - a.scale(2) - 1) or key[0] == "BitAnd" and key[2] == const(1) and eng.entails(st, a - 1):
                    return True
        return False

    def location(self, eng, st, f, want, pos):
        """The error names the type, the member and the position."""
        l = fields(eng, st, f["source_location"])
        ok = l is not None
        for name, w in zip(("type_", "method"), want):
            x = eng.expand(st, l[name]) if ok else None
            ok = ok and (kv(x) == kv(w) if not isinstance(w, str) else self.text(eng, st, x) == w)
        self.o("error", "location", ok, "the location of an error does not name the type and member that were read")
        self.o("error", "position", ok and eng.entails_eq(st, unwrapped(eng, eng.as_int(st, l["byte_offset"]) - pos)), "the position of an error is not that of the object read")

    def text(self, eng, st, x):
        sl = eng.models.as_slice(eng, st, x)
        return sl.region[1] if sl is not None and isinstance(sl.region, tuple) and sl.region[0] == "str" else None

    def access(self, eng, fn, st, v, args):
        f = fields(eng, st, args[0])
        obj, ofs = window(eng, st, f["object"])
        vt = eng.models.as_slice(eng, st, f["vtable"])
        idx = eng.as_int(st, args[1])
        k, x = result(v)
        union = "union" in fn.name
        required = fn.name.endswith("_required")
        slots = 2 if union else 1
        s0 = rd(eng, st, vt.region, vt.start + idx.scale(2), "u16")
        s1 = rd(eng, st, vt.region, vt.start + idx.scale(2) + 2, "u16") if union else None
        reads = [e for e in st.ev if e[0] == "read"]
        # is the entry absent?
        absent = eng.entails(st, idx.scale(2) + 2 * slots - 1 - vt.n) or s0 is not None and eng.entails_eq(st, s0) or s1 is not None and eng.entails_eq(st, s1)
        tag = None
        if fn.name.startswith("access_union") and "vector" not in fn.name and s0 is not None:
            tag = rd(eng, st, obj.region, obj.start + s0, "u8")
            absent = absent or tag is not None and eng.entails_eq(st, tag)
        if k == "err":
            e = fields(eng, st, x)
            if e is None:
                return self.o("error", "location", False, "an error without location")
            self.location(eng, st, e, [args[2], args[3]], ofs)
            kind = eng.expand(st, e["error_kind"])
            if reads:
                # the error of the value itself
                ok = kv(kind) == kv(self.part(eng, st, reads[-1][3], 1))
                self.o("error", "kind", ok, "the error of a field is not passed on unchanged")
                self.arguments(eng, st, reads, obj, [s0, s1], tag, fn)
                return
            self.seen("error " + fn.name, fn)
            name = kind.vn if isinstance(kind, Adt) else "?"
            if name == "MissingRequired":
                half = "vector" in fn.name and absent
                self.o("reject", "missing", (required or half) and absent, "a field is reported as missing although it is present, or is not required")
            elif name == "InvalidVtableLength":
                ok = union and eng.entails(st, idx.scale(2) + 3 - vt.n) and eng.entails(st, vt.n - idx.scale(2) - 1)
                self.o("reject", "vtable length", ok, "the vtable is reported as malformed although both slots are inside or outside of it")
            elif name == "InvalidOffset" and union and s0 is not None:
                self.o("reject", "tag", eng.entails(st, s0 - obj.n), "the tag is reported as out of bounds although it is not")
            else:
                self.o("reject", "field", False, "an error (%s) that no malformation explains" % name)
            return
        inner = x
        if not required:
            k2, inner = result(eng.expand(st, x)) if k == "ok" else (None, None)
            if k2 == "none":
                self.seen("absent " + fn.name, fn)
                if "vector" in fn.name and s1 is not None:
                    absent = absent and (eng.entails(st, idx.scale(2) + 3 - vt.n) or s0 is not None and eng.entails_eq(st, s0) and eng.entails_eq(st, s1))
                self.o("read", "absent field", absent and not reads, "a field is reported as absent although its slot is not known to be empty")
                return
        self.seen("present " + fn.name, fn)
        ok = len(reads) == 1 and inner is not None and kv(eng.expand(st, inner)) == kv(self.part(eng, st, reads[0][3], 0))
        self.o("read", "field value", ok, "the value returned for a field is not the one read at its slot")
        self.arguments(eng, st, reads, obj, [s0, s1], tag, fn)

    def part(self, eng, st, r, i):
        r = eng.expand(st, r)
        return eng.expand(st, r.fields[0]) if isinstance(r, Adt) and r.vi == i else None

    def arguments(self, eng, st, reads, obj, slots, tag, fn):
        if len(reads) != 1:
            return self.o("read", "field position", False, "a field is not read exactly once")
        a = reads[0][2]
        w = window(eng, st, a[0])
        ok = w is not None and w[0].region == obj.region and eng.entails_eq(st, w[0].start - obj.start) and eng.entails_eq(st, w[0].n - obj.n) and slots[0] is not None
        if len(a) == 2:
            ok = ok and eng.entails_eq(st, eng.as_int(st, a[1]) - slots[0]) and eng.entails(st, slots[0] - 1)
        elif "vector" in fn.name:
            ok = ok and slots[1] is not None and eng.entails_eq(st, eng.as_int(st, a[1]) - slots[0]) and eng.entails_eq(st, eng.as_int(st, a[2]) - slots[1])
        else:
            ok = ok and slots[1] is not None and tag is not None and eng.entails_eq(st, eng.as_int(st, a[1]) - tag) and eng.entails_eq(st, eng.as_int(st, a[2]) - slots[1])
        self.o("read", "field position", ok, "a field is not read at the position its slot holds, relative to its object")


def note(contract):
    def f(eng, fr, st, cal, ca, vals, span, dty):
        out = []
        for s, v in contract(eng, fr, st, cal, ca, vals, span, dty):
            if dty[0] == "adt" and dty[1].endswith("result::Result"):
                alts = [s2 for s2, _, _ in eng.models.cases(eng, s, v, dty)]
            else:
                alts = [s]
            for s2 in alts:
                s2 = s2.fork()
                s2.ev = s2.ev + (("read", cal["tr"], tuple(vals), v),)
                out.append((s2, v))
        return out
    return f


def setup(eng):
    rtspec.setup(eng)
    for k, f in list(eng.contracts.items()):
        if k.endswith("::from_buffer"):
            eng.contracts[k] = note(f)
    eng.merge_above = 64


def run(store, specs, want):
    c, ac = store.runtime(True)

    def s(eng):
        setup(eng)
        eng.hooks["exit"] = lambda fn, st, v, args: [sp(eng, Fr(fn), fn, st, v, args) for sp in specs]

    r = Runtime([c, ac], lambda eng: [f for f in c.fns if rtspec.is_read_root(f) and want(f)], setup=s,
                inv_types=lambda p: not rtspec.write_inv_type(p) and p.startswith("planus::") and not p.startswith("planus::builder"))
    return r, c


def is_core(f):
    return f.name == "from_buffer" or f.path.startswith(TABLE + "::")
