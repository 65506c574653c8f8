"""What code generated for a schema has to do, worked out from the schema model and compared with the interpreted generated code."""
import struct as _struct
from sa.absint import Sl, Ptr, Ref, Adt, Tup, L, It, Sym, C, Clo, Term, Arr, Budget, Stop, const, kv
from sa.facts import ty_str
from sa.gen import Gen, Call, OPT
from sa.schema import Scalar, Str, Vec, Enum, Struct, Union, Table, two_slots, stem, snake
from sa import cmpspec, rspec

RES = "core::result::Result"
TABLE = "planus::table_reader::Table"


def bits(v, t):
    return _struct.unpack("<I", _struct.pack("<f", v))[0] if t == "f32" else _struct.unpack("<Q", _struct.pack("<d", v))[0]


def mutable_default(f):
    """Does an absent field read as a value (True) or as nothing (False)?"""
    if f.required or f.default == "null":
        return False
    return isinstance(f.ty, (Scalar, Enum)) or f.default is not None


def rust_fields(t):
    return [f for f in t.fields if not f.deprecated]


class Spec:
    """Runs the interpreter over the generated functions and collects obligations (kind, key, ok, message)."""

    def __init__(self, schema, wit, rt, stem, crate, kinds, obs):
        self.s, self.g, self.stem, self.crate, self.kinds, self.obs = schema, Gen(wit, rt), stem, crate, kinds, obs
        self.count = {}
        self.analysed = set()
        self.deep = False

    def want(self, *ks):
        return any(k in self.kinds for k in ks)

    def ob(self, kind, key, ok, msg):
        if kind in self.kinds:
            self.count[kind] = self.count.get(kind, 0) + 1
            self.obs.append((kind, key, bool(ok), msg))
        return ok

    def path(self, d, suffix=""):
        return "::".join([self.crate, self.stem, "root"] + [self.snake(x) for x in d.ns] + [stem(d.name) + suffix if suffix else self.tname(d)])

    snake = staticmethod(lambda x: x)

    def tname(self, d):
        return d.name

    def fn(self, d, suffix, trait, name, kind="missing", arg=None):
        fs = self.g.fns.get((self.path(d, suffix), trait, name), [])
        if arg is not None:
            fs = [f for f in fs if f.impl_args and len(f.impl_args) > 1 and self.strip_args(f) == arg]
        return fs

    def strip_args(self, f):
        a = f.crate._arg(f.impl_args[1])
        return ty_str(a)

    def interp(self, key, fn, **kw):
        try:
            self.analysed.add(fn.path)
            return self.g.run(fn, **kw)
        except (Budget, Stop) as e:
            for k in self.kinds:
                self.ob(k, "engine:" + key, False, "%s could not be analysed: %s" % (fn.path, e))
                break
            return None

    # ------------------------------------------------------------ values
    def names(self, eng, st, v, calls, seen=None):
        """Names of the inputs a value is made of."""
        seen = seen if seen is not None else set()
        out = set()
        v = eng.expand(st, v)
        if isinstance(v, L):
            for m in v.t:
                for a in m:
                    out |= self.atom(eng, a)
        elif isinstance(v, Sl):
            out |= self.txt(v.region)
        elif isinstance(v, (Adt, Tup, Arr)):
            for x in v.elems if isinstance(v, Arr) else v.fields:
                out |= self.names(eng, st, x, calls, seen)
        elif isinstance(v, Sym):
            out |= self.txt(v.key)
        elif isinstance(v, Term):
            for x in v.args:
                if isinstance(x, (L, Sl, Adt, Tup, Sym, Term, It, Ref, C)):
                    out |= self.names(eng, st, x, calls, seen)
                else:
                    out |= self.txt(x)
        elif isinstance(v, C):
            out |= self.txt((v.a, v.b))
        elif isinstance(v, It):
            for k, x in v.f.items():
                if k == "cell" and x in st.cells and x not in seen:
                    seen.add(x)
                    out |= self.names(eng, st, st.cells[x], calls, seen)
                elif isinstance(x, (L, Sl, Adt, Tup, Sym, Term, It, Ref, C)):
                    out |= self.names(eng, st, x, calls, seen)
                else:
                    out |= self.txt(x)
        elif isinstance(v, Ref):
            if v.cell not in seen:
                seen.add(v.cell)
                try:
                    out |= self.names(eng, st, eng.load(st, v.cell, v.path), calls, seen)
                except Stop:
                    pass
        for c in calls:
            if c.kind in ("convert", "vector") and c.tag in out:
                out.discard(c.tag)
                out |= self.names(eng, st, c.seen[0], calls, seen)
        return {n for n in out}

    def atom(self, eng, a):
        return self.txt(eng.A.info[a])

    @staticmethod
    def txt(x):
        import re
        return set(re.findall(r"@[a-z]+\d+|self\.[\w.]+|\bself\b|value\.[\w.]+", str(x)))

    # ------------------------------------------------------------ types
    def read_type(self, t):
        """The type a reader of a field of this schema type has to ask for."""
        if isinstance(t, Scalar):
            return t.rust
        if isinstance(t, Str):
            return "&str"
        if isinstance(t, Enum):
            return self.path(t)
        if isinstance(t, (Struct, Table, Union)):
            return self.path(t, "Ref")
        u = t.of
        if isinstance(u, Scalar) and u.size == 1 and u.base != "bool":
            return "&[%s]" % u.rust
        if isinstance(u, Union):
            return "planus::union_vectors::union_vector::UnionVector<%s>" % self.path(u, "Ref")
        inner = self.read_type(u)
        if isinstance(u, (Str, Table)):
            inner = "core::result::Result<%s, planus::errors::Error>" % inner
        elif isinstance(u, Enum):
            inner = "core::result::Result<%s, planus::errors::UnknownEnumTag>" % inner
        return "planus::vectors::vector::Vector<%s>" % inner

    def stored(self, t):
        """[(slot relative to the value slot, size, alignment, kind)] of what a table stores for a field."""
        if isinstance(t, Union):
            return [(-1, 1, 1), (0, 4, 4)]
        if isinstance(t, Vec) and isinstance(t.of, Union):
            return [(-1, 4, 4), (0, 4, 4)]
        if isinstance(t, (Scalar, Enum, Struct)):
            return [(0, t.size, t.align)]
        return [(0, 4, 4)]

    def stored_type(self, t):
        if isinstance(t, Scalar):
            return t.rust
        if isinstance(t, (Enum, Struct)):
            return self.path(t)
        if isinstance(t, Str):
            return "planus::Offset<str>"
        if isinstance(t, (Table, Union)):
            return "planus::Offset<%s>" % self.path(t)
        return "planus::Offset<[%s]>" % self.stored_type(t.of)

    def size_of(self, eng, st, ty):
        n = eng.ssize(st, ty) if hasattr(eng, "ssize") else None
        return n

    # ------------------------------------------------------------ comparing values
    def is_value(self, eng, st, v, t, value):
        """Is v the concrete value of schema type t?"""
        v, _ = eng.behind(st, v)
        if isinstance(t, Scalar):
            if t.base == "bool":
                return isinstance(v, C) and str(v) in ("C(const %s None)" % value,)
            if t.base in ("float", "double"):
                return isinstance(v, Term) and v.op == "float" and v.args == (bits(value, t.rust),)
            return isinstance(v, L) and not v.t and v.c == value
        if isinstance(t, Enum):
            return isinstance(v, Adt) and v.path == self.path(t) and self.enum_value(eng, v) == value
        if isinstance(t, Str):
            return self.text_of(eng, st, v) == value
        if isinstance(t, Vec) and value == []:
            return self.is_empty(eng, st, v)
        return False

    def enum_value(self, eng, v):
        vs = eng.adts[v.path]["variants"]
        return int(vs[v.vi]["discr"]) if v.vi is not None and v.vi < len(vs) else None

    @staticmethod
    def text_of(eng, st, v):
        if isinstance(v, Sl) and v.region[:1] == ("str",):
            return v.region[1] if isinstance(v.n, L) and not v.n.t and v.n.c == len(v.region[1].encode()) else None
        if isinstance(v, It) and v.kind == "string":
            r = v.f.get("r", v.f.get("region"))
            if isinstance(r, tuple) and r[:1] == ("str",):
                return r[1]
            n = v.f.get("n")
            if isinstance(n, L) and not n.t and n.c == 0:
                return ""
        return None

    @staticmethod
    def is_empty(eng, st, v):
        if isinstance(v, It) and v.kind in ("vec", "string"):
            n = v.f.get("n")
            return isinstance(n, L) and not n.t and n.c == 0
        if isinstance(v, Sl):
            return not v.n.t and v.n.c == 0
        if isinstance(v, Adt) and v.path.endswith(("::Vector", "::UnionVector")):
            ns = [x for x in v.fields if isinstance(x, L)]
            return len(ns) == 1 and not ns[0].t and ns[0].c == 0
        return isinstance(v, Tup) and not v.fields

    def default_of(self, f):
        """(schema type, value) an absent field reads as."""
        t = f.ty
        if isinstance(t, Enum):
            d = dict(t.values)
            return t, d[f.value] if f.default is not None else 0
        if isinstance(t, Scalar) and f.default is None:
            return t, False if t.base == "bool" else 0.0 if t.base in ("float", "double") else 0
        return t, f.value

    # ------------------------------------------------------------ tables
    def table(self, t):
        if self.want("slot", "name", "default", "presence", "readtype"):
            self.readers(t)
        if self.want("slot", "default", "presence", "align", "writetype"):
            self.writers(t)
        if self.want("default", "presence"):
            self.table_default(t)
        if self.want("convert", "presence", "default"):
            self.to_owned(t)
        if self.want("builder"):
            self.builder(t)
        if self.want("slot", "name"):
            self.table_entry(t)

    def slot0(self, f):
        return f.slot - 1 if two_slots(f.ty) else f.slot

    def access_name(self, f):
        n = "access_union" if isinstance(f.ty, Union) else "access_union_vector" if two_slots(f.ty) else "access"
        return n + ("_required" if f.required else "")

    def readers(self, t):
        for f in t.fields:
            key = "%s.%s" % (t.name, f.name)
            fs = self.fn(t, "Ref", None, f.name)
            if f.deprecated:
                self.ob("presence", "accessor:" + key, not fs, "the deprecated field %s has an accessor" % key)
                continue
            if not self.ob("name", "accessor:" + key, len(fs) == 1, "no accessor named %s on the reader of table %s" % (f.name, t.text)):
                continue
            got = self.interp(key, fs[0])
            if got is None:
                continue
            eng, outs, a = got
            where = "%s (reader generated for %s of table %s)" % (fs[0].path, f.emit().strip(), t.text)
            some = none = err = False
            for st, v in outs:
                acc = [e for e in st.ev if isinstance(e, Call) and e.kind == "access"]
                if not self.ob("slot", "read:" + key, len(acc) == 1, "%s reads the table %d times" % (where, len(acc))):
                    break
                e = acc[0]
                self.ob("presence", "way:" + key, e.name == self.access_name(f), "%s reads with %s, a field of this kind and presence needs %s" % (where, e.name, self.access_name(f)))
                root = e.refs[0] is not None and (e.refs[0].cell == a[0].cell or self.same_table(eng, st, e, a))
                slot = e.seen[1]
                self.ob("slot", "read:" + key, root and isinstance(slot, L) and not slot.t and slot.c == self.slot0(f), "%s reads vtable slot %s, the format puts this field at slot %d" % (where, slot, self.slot0(f)))
                ty = ty_str(e.args[-1])
                want = self.read_type(f.ty)
                self.ob("readtype", "type:" + key, ty == want, "%s reads a %s where the schema says %s (%s)" % (where, ty, f.ty.text, want))
                self.ob("name", "names:" + key, self.text_of(eng, st, e.seen[2]) == t.name and self.text_of(eng, st, e.seen[3]) == f.name, "%s names %s.%s in its errors" % (where, self.text_of(eng, st, e.seen[2]), self.text_of(eng, st, e.seen[3])))
                r = eng.expand(st, e.res)
                v = eng.expand(st, v)
                if mutable_default(f):
                    if not isinstance(r, Adt) or not isinstance(v, Adt):
                        self.ob("presence", "exit:" + key, False, "%s returns %s without looking at whether the field is there" % (where, str(v)[:60]))
                        continue
                    if r.vn == "Err":
                        err = True
                        self.ob("presence", "error:" + key, v.vn == "Err" and kv(v.fields[0]) == kv(r.fields[0]), "%s does not pass on an error of the reading" % where)
                        continue
                    o = eng.expand(st, r.fields[0])
                    if o.vn == "Some":
                        some = True
                        self.ob("presence", "value:" + key, v.vn == "Ok" and kv(eng.expand(st, v.fields[0])) == kv(eng.expand(st, o.fields[0])), "%s does not return the stored value" % where)
                    else:
                        none = True
                        dt, dv = self.default_of(f)
                        self.ob("default", "read:" + key, v.vn == "Ok" and self.is_value(eng, st, v.fields[0], dt, dv), "%s returns %s for an absent field, the schema's default is %s" % (where, str(v)[:120], f.default if f.default is not None else "zero"))
                else:
                    some = none = err = True
                    self.ob("presence", "exit:" + key, kv(v) == kv(r), "%s does not return what it read" % where)
            self.ob("presence", "cases:" + key, some and none and err, "%s does not tell an absent field, a stored value and an error apart" % where)

    @staticmethod
    def same_table(eng, st, e, a):
        v, _ = eng.behind(st, a[0])
        return isinstance(v, Adt) and len(v.fields) >= 1 and kv(eng.expand(st, v.fields[0])) == kv(e.seen[0])

    # -------- writing
    def writers(self, t):
        fields = rust_fields(t)
        fs = [f for f in self.fn(t, "", "WriteAsOffset", "prepare") if self.strip_args(f) == self.path(t)]
        if not self.ob("slot", "writer:" + t.name, len(fs) == 1, "table %s has no writer" % t.text):
            return
        fn = fs[0]
        for tr in ("WriteAs", "WriteAsOptional"):
            for g in self.fn(t, "", tr, "prepare"):
                self.delegate(t, g, tr)
        opt = [f for f in fields if not f.required]
        cases = [("all", lambda i: True), ("none", lambda i: False)]
        if self.deep or len(opt) <= 12:
            cases += [("only %d" % k, lambda i, k=k: i == k) for k in range(len(fields))]
        for label, sc in cases:
            got = self.interp("write:" + t.name, fn, scenario=sc)
            if got is None:
                return
            eng, outs, a = got
            self.ob("slot", "paths:" + t.name, len(outs) == 1, "%s writes the table in %d ways when %s of the optional fields are there" % (fn.path, len(outs), label))
            for st, v in outs:
                self.written(t, fields, fn, eng, st, v, a)

    def delegate(self, t, g, tr):
        got = self.interp("delegate:%s:%s" % (t.name, tr), g)
        if got is None:
            return
        eng, outs, a = got
        for st, v in outs:
            ev = [e for e in st.ev if isinstance(e, Call)]
            ok = len(ev) == 1 and ev[0].kind == "prepare" and ev[0].name == "WriteAsOffset" and ev[0].refs[0] is not None and ev[0].refs[0].cell == a[0].cell
            if ok:
                r = eng.expand(st, ev[0].res)
                v = eng.expand(st, v)
                if tr == "WriteAsOptional":
                    ok = isinstance(v, Adt) and v.vn == "Some" and kv(eng.expand(st, v.fields[0])) == kv(r)
                else:
                    ok = kv(v) == kv(r)
            self.ob("slot", "delegate:%s:%s" % (t.name, tr), ok, "%s does not write the table once and return where it is" % g.path)

    def source(self, eng, st, e, a, names):
        """Which field of the written value a prepare event is about: a field name, or an index of the builder's tuple."""
        r = e.refs[0]
        if r is not None and r.cell == a[0].cell and r.path:
            idx = [p[1] for p in r.path if p[0] == "f"]
            return tuple(idx)
        got = {tuple(n.split(".")[1:2] if names else n.split(".")[1:3]) for n in self.names(eng, st, e.seen[0], [])}
        if len(got) == 1:
            return tuple(names.index(x) if x in names else int(x) if x.isdigit() else -1 for x in got.pop())
        return None

    def written(self, t, fields, fn, eng, st, ret, a):
        adt = eng.adts.get(self.path(t))
        names = [f[0] for f in adt["variants"][0]["fields"]] if adt else []
        ev = [e for e in st.ev if isinstance(e, Call)]
        prep, res = {}, {}
        for e in ev:
            if e.kind == "prepare":
                s = self.source(eng, st, e, a, names)
                n = names[s[0]] if s and len(s) == 1 and 0 <= s[0] < len(names) else None
                if n is None or n in prep:
                    self.ob("slot", "prepare:" + t.name, False, "%s prepares %s, which is not one field once" % (fn.path, str(e)[:120]))
                    return
                prep[n] = e
        self.protocol(t, fields, fn, eng, st, ret, prep, ev)

    def protocol(self, t, fields, fn, eng, st, ret, prep, ev):
        where = "%s (writer generated for table %s)" % (fn.path, t.text)
        entries = [e for e in ev if e.kind == "writer" and e.name == "write_entry"]
        fin = [i for i, e in enumerate(ev) if e.kind == "writer" and e.name == "finish"]
        objs = [e for e in ev if e.kind == "object"]
        ok = len(fin) == 1 and all(ev.index(e) < fin[0] for e in entries) and all(ev.index(e) > fin[0] for e in objs) and all(ev.index(e) < fin[0] for e in prep.values())
        self.ob("slot", "order:" + t.name, ok, "%s does not prepare all fields, fill the vtable, and then write the object, once each" % where)
        if not ok:
            return
        want = {}
        for f in fields:
            key = "%s.%s" % (t.name, f.name)
            e = prep.get(f.name)
            if not self.ob("slot", "prepare:" + key, e is not None, "%s never writes the field %s" % (where, f.name)):
                continue
            kind = "UnionVector" if isinstance(f.ty, Vec) and two_slots(f.ty) else "Union" if isinstance(f.ty, Union) else ""
            pre = {"WriteAs" + kind} if f.required else {"WriteAsDefault" + kind} if mutable_default(f) else {"WriteAsOptional" + kind}
            self.ob("presence", "write:" + key, e.name in pre, "%s writes %s with %s, its presence in the schema asks for %s" % (where, f.emit(), e.name, "/".join(pre)))
            if e.name.startswith("WriteAsDefault") and mutable_default(f) and len(e.seen) > 2:
                dt, dv = self.default_of(f)
                self.ob("default", "write:" + key, self.is_value(eng, st, e.seen[2], dt, dv) or dv == [] and self.is_empty(eng, st, e.seen[2]), "%s omits %s when it is %s, the schema's default is %s" % (where, f.name, str(e.seen[2])[:80], f.default if f.default is not None else "zero"))
            r = eng.expand(st, e.res)
            if isinstance(r, Adt) and r.path == OPT:
                if r.vn == "None":
                    continue
                r = eng.expand(st, r.fields[0])
            parts = self.stored(f.ty)
            if len(parts) == 2:
                vals = [eng.expand(st, x) for x in r.fields[:2]] if isinstance(r, Adt) else [None, None]
            else:
                vals = [r]
            for (d, size, align), val in zip(parts, vals):
                want[f.slot + d] = (f, size, align, val)
        got = {}
        order = []
        nmax = None
        for e in entries:
            s = e.seen[1]
            nmax = [x[1] for x in e.args if x[0] in ("n", "p")][:1]
            if not (isinstance(s, L) and not s.t):
                self.ob("slot", "entry:" + t.name, False, "%s fills a vtable slot that is not a constant: %s" % (where, s))
                return
            self.ob("slot", "entry:%s:%d" % (t.name, s.c), s.c in want and s.c not in got, "%s fills vtable slot %d, which %s" % (where, s.c, "is filled twice" if s.c in got else "belongs to no field that is there (deprecated, absent or of another number)"))
            got[s.c] = e
            order.append((s.c, e))
            if nmax and isinstance(nmax[0], int):
                self.ob("slot", "room:" + t.name, nmax[0] >= 4 + 2 * (s.c + 1), "%s reserves %s bytes for the vtable, slot %d does not fit" % (where, nmax[0], s.c))
        for s, (f, size, align, val) in want.items():
            self.ob("slot", "entry:%s:%d" % (t.name, s), s in got, "%s does not fill vtable slot %d of field %s" % (where, s, f.name))
        self.ob("slot", "objects:" + t.name, len(objs) == len(order), "%s fills %d vtable slots and writes %d values" % (where, len(order), len(objs)))
        at = 0
        for (s, e), o in zip(order, objs):
            if s not in want:
                continue
            f, size, align, val = want[s]
            key = "%s.%s" % (t.name, f.name)
            self.ob("slot", "value:" + key, val is not None and kv(eng.expand(st, o.seen[1])) == kv(val), "%s: the value written at the place recorded in vtable slot %d is not that of %s" % (where, s, f.name))
            p = [x for x in e.args if x[0] not in ("n", "p")][-1]
            for ty, what in ((p, "records"), ([x for x in o.args if x[0] not in ("n", "p")][-1 if False else 0], "writes")):
                got_s = self.layout(eng, st, ty)
                if f.force > align:
                    self.ob("align", "forced:" + key, got_s is not None and got_s[1] >= f.force, "%s %s %s with alignment %s, the schema forces %d" % (where, what, f.name, got_s and got_s[1], f.force))
                self.ob("align", "size:" + key, got_s == (size, align), "%s %s %s as %s with size and alignment %s, the format says %s" % (where, what, f.name, ty_str(ty), got_s, (size, align)))
            ns = [x[1] for x in o.args if x[0] == "n"]
            self.ob("align", "bytes:" + key, not ns or ns[-1] == size, "%s writes %s bytes for %s" % (where, ns, f.name))
            self.ob("align", "order:" + key, at % align == 0, "%s places %s, which needs alignment %d, %d bytes behind the vtable offset" % (where, f.name, align, at))
            at += size
            if not two_slots(f.ty):
                self.ob("writetype", "type:" + key, ty_str(p) == self.stored_type(f.ty), "%s stores %s as %s, the schema says %s" % (where, f.name, ty_str(p), self.stored_type(f.ty)))
        r = eng.expand(st, ret)
        cur = [e for e in ev if e.kind == "builder" and e.name == "current_offset"]
        self.ob("slot", "result:" + t.name, len(cur) == 1 and ev.index(cur[0]) > fin[0] and kv(eng.expand(st, cur[0].res)) == kv(r) and not any(e.kind in ("prepare", "builder") for e in ev[ev.index(cur[0]) + 1:]), "%s does not return the place of the table it wrote" % where)

    def layout(self, eng, st, ty):
        """(SIZE, ALIGNMENT) of a type as it says itself."""
        out = []
        for n in ("SIZE", "ALIGNMENT"):
            v = eng.const_item(st, "planus::traits::Primitive::" + n, "planus::traits::Primitive::" + n, (ty,), ("int", "usize"))
            v = eng.expand(st, v)
            out.append(v.c if isinstance(v, L) and not v.t else str(v))
        return tuple(out)

    # -------- the owned value
    def table_default(self, t):
        fs = self.fn(t, "", "Default", "default")
        if not fs:
            if not any(f.required for f in rust_fields(t)):
                self.ob("default", "owned:" + t.name, False, "table %s has no default value" % t.text)
            return
        got = self.interp("default:" + t.name, fs[0])
        if got is None:
            return
        eng, outs, a = got
        names = [f[0] for f in eng.adts[self.path(t)]["variants"][0]["fields"]]
        for st, v in outs:
            v = eng.expand(st, v)
            for f in rust_fields(t):
                key = "%s.%s" % (t.name, f.name)
                if f.required:
                    continue
                x = eng.expand(st, v.fields[names.index(f.name)]) if f.name in names else None
                if mutable_default(f):
                    dt, dv = self.default_of(f)
                    self.ob("default", "owned:" + key, x is not None and self.is_value(eng, st, x, dt, dv), "the default value of table %s has %s in field %s, the schema's default is %s" % (t.text, str(x)[:80], f.name, f.default if f.default is not None else "zero"))
                else:
                    self.ob("presence", "owned:" + key, isinstance(x, Adt) and x.path == OPT and x.vn == "None", "the default value of table %s has %s in the optional field %s" % (t.text, str(x)[:80], f.name))

    def to_owned(self, t):
        fs = self.fn(t, "", "TryFrom", "try_from")
        if not self.ob("convert", "convert:" + t.name, len(fs) == 1, "table %s has no conversion from its reader" % t.text):
            return
        fn = fs[0]
        fields = rust_fields(t)
        for mode in ("some", "none"):
            got = self.interp("convert:" + t.name, fn, outcome=lambda st, k, n: mode if k == "access" else "some")
            if got is None:
                return
            eng, outs, a = got
            names = [f[0] for f in eng.adts[self.path(t)]["variants"][0]["fields"]]
            hopeless = mode == "some" and any(isinstance(f.ty, Union) and not f.ty.variants or isinstance(f.ty, Enum) and not f.ty.values for f in fields)
            self.ob("convert", "paths:" + t.name, len(outs) == 1 or hopeless and not outs, "%s has %d outcomes when every field can be read" % (fn.path, len(outs)))
            for st, v in outs:
                calls = [e for e in st.ev if isinstance(e, Call)]
                r = eng.expand(st, v)
                if not self.ob("convert", "ok:" + t.name, isinstance(r, Adt) and r.vn == "Ok", "%s fails although every field can be read" % fn.path):
                    continue
                o = eng.expand(st, r.fields[0])
                for f in fields:
                    key = "%s.%s" % (t.name, f.name)
                    if not self.ob("convert", "field:" + key, f.name in names, "the owned type of table %s has no field %s" % (t.text, f.name)):
                        continue
                    x = eng.expand(st, o.fields[names.index(f.name)])
                    if mode == "none" and not f.required:
                        if mutable_default(f):
                            dt, dv = self.default_of(f)
                            ok = self.is_value(eng, st, x, dt, dv)
                            if not ok and dv == []:
                                s = self.last_call(eng, st, x, calls)
                                ok = s is not None and s.kind == "vector" and self.is_empty(eng, st, s.seen[0])
                            self.ob("default", "convert:" + key, ok, "%s gives %s to the absent field %s" % (fn.path, str(x)[:80], f.name))
                        else:
                            self.ob("presence", "convert:" + key, isinstance(x, Adt) and x.path == OPT and x.vn == "None", "%s gives %s to the absent field %s" % (fn.path, str(x)[:80], f.name))
                        continue
                    if not f.required and not mutable_default(f):
                        if not self.ob("presence", "convert:" + key, isinstance(x, Adt) and x.path == OPT and x.vn == "Some", "%s gives %s to the field %s which is there" % (fn.path, str(x)[:80], f.name)):
                            continue
                        x = x.fields[0]
                    src = self.names(eng, st, x, calls)
                    acc = {e.tag: e for e in calls if e.kind == "access"}
                    slots = [acc[n].seen[1] for n in src if n in acc]
                    ok = len(src) == 1 and len(slots) == 1 and isinstance(slots[0], L) and not slots[0].t and slots[0].c == self.slot0(f)
                    self.ob("convert", "source:" + key, ok, "%s fills %s from %s instead of the field's own slot %d" % (fn.path, f.name, [str(s) for s in slots] or "something other than the table", self.slot0(f)))
        # every failure of a read is passed on
        n = len([f for f in fields])
        for k in range(n if self.deep or n <= 24 else 8):
            def oc(st, kind, name, k=k):
                if kind != "access":
                    return "some"
                return "err" if len([e for e in st.ev if isinstance(e, Call) and e.kind == "access"]) == k else "some"
            got = self.interp("convert:" + t.name, fn, outcome=oc)
            if got is None:
                return
            eng, outs, a = got
            for st, v in outs:
                r = eng.expand(st, v)
                self.ob("convert", "error:" + t.name, isinstance(r, Adt) and r.vn == "Err" and any(("@access%d" % i) in str(self.names(eng, st, r.fields[0], [])) for i in [int(e.tag[7:]) for e in st.ev if isinstance(e, Call) and e.kind == "access"][-1:]), "%s does not fail with the error of the field that cannot be read (read %d)" % (fn.path, k))

    def last_call(self, eng, st, x, calls):
        src = self.names(eng, st, x, [])
        for c in calls:
            if c.tag in src:
                return c
        return None

    # -------- the builder
    def builder(self, t):
        fields = rust_fields(t)
        B = self.path(t, "Builder")
        start = self.fn(t, "", None, "builder")
        if fields and not self.ob("builder", "start:" + t.name, len(start) == 1, "table %s has no builder" % t.text):
            return
        for fn in start:
            got = self.interp("builder:" + t.name, fn)
            if got:
                eng, outs, a = got
                for st, v in outs:
                    v = eng.expand(st, v)
                    self.ob("builder", "start:" + t.name, isinstance(v, Adt) and v.path == B and len(v.fields) == 1 and isinstance(eng.expand(st, v.fields[0]), Tup) and not eng.expand(st, v.fields[0]).fields, "%s does not start with nothing set" % fn.path)
        place = {}
        for f in fields:
            key = "%s.%s" % (t.name, f.name)
            for suffix in ("", "_as_default", "_as_null"):
                fs = self.fn(t, "Builder", None, stem(f.name) + suffix if suffix else f.name)
                need = suffix == "" or suffix == "_as_default" and mutable_default(f) or suffix == "_as_null" and not f.required and not mutable_default(f)
                if not self.ob("builder", "setter:%s%s" % (key, suffix), len(fs) == (1 if need else 0), "the builder of table %s has %s setter %s" % (t.text, "no" if need else "a", f.name + suffix)):
                    continue
                if not need:
                    continue
                got = self.interp("setter:" + key, fs[0])
                if got is None:
                    continue
                eng, outs, a = got
                for st, v in outs:
                    v = eng.expand(st, v)
                    old = eng.expand(st, eng.expand(st, a[0]).fields[0])
                    new = eng.expand(st, v.fields[0]) if isinstance(v, Adt) and v.path == B else None
                    ok = isinstance(old, Tup) and isinstance(new, Tup) and len(new.fields) == len(old.fields) + 1 and all(kv(eng.expand(st, x)) == kv(eng.expand(st, y)) for x, y in zip(old.fields, new.fields))
                    if ok:
                        i = len(old.fields)
                        place.setdefault(f.name, set()).add(i)
                        x = eng.expand(st, new.fields[i])
                        ok = kv(x) == kv(eng.expand(st, a[1])) if suffix == "" else isinstance(x, Tup) and not x.fields if suffix == "_as_null" else isinstance(x, Adt) and x.path == "planus::builder::DefaultValue" or isinstance(x, Adt) and x.path.endswith("::DefaultValue")
                    self.ob("builder", "setter:%s%s" % (key, suffix), ok, "%s does not add exactly its value to what was set before" % fs[0].path)
        for f in fields:
            key = "%s.%s" % (t.name, f.name)
            if f.name in place:
                self.ob("builder", "setter:" + key, len(place[f.name]) == 1, "the setters of field %s put it at different places: %s" % (key, sorted(place[f.name])))
        at = {min(v): k for k, v in place.items()}
        self.ob("builder", "setters:" + t.name, len(at) == len(place), "two setters of the builder of %s fill the same place" % t.text)
        fs = [f for f in self.fn(t, "Builder", "WriteAsOffset", "prepare")]
        if not self.ob("builder", "finish:" + t.name, len(fs) == 1 or not fields, "the builder of table %s cannot be finished" % t.text):
            return
        for fn in fs:
            got = self.interp("finish:" + t.name, fn)
            if got is None:
                continue
            eng, outs, a = got
            self.ob("builder", "paths:" + t.name, len(outs) == 1, "%s has %d outcomes" % (fn.path, len(outs)))
            for st, v in outs:
                ev = [e for e in st.ev if isinstance(e, Call)]
                prep = {}
                for e in ev:
                    if e.kind == "prepare":
                        s = self.source(eng, st, e, a, [])
                        i = s[-1] if s else None
                        n = at.get(i)
                        if n is None or n in prep:
                            self.ob("builder", "finish:" + t.name, False, "%s writes %s, which is not one value that was set, once" % (fn.path, str(e)[:100]))
                            break
                        prep[n] = e
                else:
                    sub = Spec.__new__(Spec)
                    sub.__dict__.update(self.__dict__)
                    sub.kinds = {"slot", "presence", "default"}
                    sub.obs = []
                    sub.protocol(t, fields, fn, eng, st, v, prep, ev)
                    for kind, key, ok, msg in sub.obs:
                        self.ob("builder", "b:" + key, ok, msg)
        for tr in ("WriteAs", "WriteAsOptional"):
            for g in self.fn(t, "Builder", tr, "prepare"):
                sub = Spec.__new__(Spec)
                sub.__dict__.update(self.__dict__)
                sub.kinds, sub.obs = {"slot"}, []
                sub.delegate(t, g, tr)
                for kind, key, ok, msg in sub.obs:
                    self.ob("builder", "b:" + key, ok, msg)
        for g in self.fn(t, "Builder", None, "finish"):
            if any(f.name == "finish" for f in fields):
                continue
            got = self.interp("finish:" + t.name, g)
            if got:
                eng, outs, a = got
                for st, v in outs:
                    ev = [e for e in st.ev if isinstance(e, Call)]
                    self.ob("builder", "finish:" + t.name, len(ev) == 1 and ev[0].name == "WriteAsOffset" and kv(eng.expand(st, ev[0].seen[0])) == kv(eng.expand(st, a[0])) and kv(eng.expand(st, ev[0].res)) == kv(eng.expand(st, v)), "%s does not write what was set" % g.path)

    # -------- entry points
    def table_entry(self, t):
        R = self.path(t, "Ref")
        self.elements("slot", t, "planus::Offset<%s>" % self.path(t), 4)
        fs = self.fn(t, "Ref", "TableRead", "from_buffer")
        if self.ob("slot", "open:" + t.name, len(fs) == 1, "table %s cannot be opened" % t.text):
            got = self.interp("open:" + t.name, fs[0], outcome=None)
            if got:
                eng, outs, a = got
                seen = set()
                for st, v in outs:
                    ev = [e for e in st.ev if isinstance(e, Call)]
                    ok = len(ev) == 1 and ev[0].kind == "table" and [kv(eng.expand(st, x)) for x in ev[0].seen] == [kv(eng.expand(st, x)) for x in a]
                    if ok:
                        r, v = eng.expand(st, ev[0].res), eng.expand(st, v)
                        ok = isinstance(r, Adt) and isinstance(v, Adt) and r.vn == v.vn
                        if ok:
                            seen.add(r.vn)
                            x, y = eng.expand(st, r.fields[0]), eng.expand(st, v.fields[0])
                            ok = kv(x) == kv(y) if r.vn == "Err" else isinstance(y, Adt) and y.path == R and kv(eng.expand(st, y.fields[0])) == kv(x)
                    self.ob("slot", "open:" + t.name, ok, "%s does not open the table at the position it was given" % fs[0].path)
        for tr, name, want in (("VectorReadInner", "from_buffer", "[%sRef]" % stem(t.name)), ("ReadAsRoot", "read_as_root", "[%sRef]" % stem(t.name))):
            fs = self.fn(t, "Ref", tr, name)
            if not self.ob("slot", "%s:%s" % (tr, t.name), len(fs) == 1, "table %s has no %s" % (t.text, tr)):
                continue
            got = self.interp(tr + ":" + t.name, fs[0])
            if got is None:
                continue
            eng, outs, a = got
            for st, v in outs:
                ev = [e for e in st.ev if isinstance(e, Call) and e.kind in ("read", "table")]
                v = eng.expand(st, v)
                ok = len(ev) == 1 and len(ev[0].seen) == 2
                if ok:
                    src, pos = ev[0].seen
                    r = eng.expand(st, ev[0].res)
                    if tr == "ReadAsRoot":
                        w = rspec.window(eng, st, src)
                        sl = eng.models.as_slice(eng, st, eng.expand(st, a[0]))
                        ok = w is not None and w[0].region == sl.region and eng.entails_eq(st, w[0].start - sl.start) and eng.entails_eq(st, w[0].n - sl.n) and eng.entails_eq(st, w[1]) and eng.entails_eq(st, eng.as_int(st, pos))
                    else:
                        ok = kv(src) == kv(eng.expand(st, a[0])) and kv(pos) == kv(eng.expand(st, a[1]))
                    ok = ok and isinstance(r, Adt) and isinstance(v, Adt) and r.vn == v.vn and (r.vn == "Err" or kv(eng.expand(st, r.fields[0])) == kv(eng.expand(st, v.fields[0])))
                self.ob("slot", "%s:%s" % (tr, t.name), ok, "%s does not read the table at the position it was given" % fs[0].path)
                if isinstance(v, Adt) and v.vn == "Err" and ok:
                    e = rspec.fields(eng, st, v.fields[0])
                    loc = rspec.fields(eng, st, e.get("source_location")) if e and "source_location" in e else None
                    self.ob("name", "%s:%s" % (tr, t.name), loc is not None and self.text_of(eng, st, loc["type_"]) == want and kv(e["error_kind"]) == kv(eng.expand(st, r.fields[0])), "%s does not pass on the cause with the table's name" % fs[0].path)

    # ------------------------------------------------------------ enums
    def variant(self, eng, path, i, fields=()):
        return Adt(path, i, eng.adts[path]["variants"][i]["name"], list(fields), ())

    def enum(self, d):
        p = self.path(d)
        adt = next((c.adts[p] for c in self.g.crates if p in c.adts), None)
        if not self.ob("number", "type:" + d.name, adt is not None, "no type for enum %s" % d.text):
            return
        got = [(v["name"], int(v["discr"]) if v.get("discr") is not None else None) for v in adt["variants"]]
        self.ob("number", "values:" + d.name, sorted(got, key=str) == sorted(d.values, key=str), "enum %s has values %s, the schema says %s" % (d.text, got, d.values))
        base = d.base.rust
        vals = dict(d.values)
        for fn in self.one("number", "decode:" + d.name, [f for f in self.fn(d, "", "TryFrom", "try_from") if self.strip_args(f) == base], "enum %s cannot be made from its number" % d.text):
            self.decode(d, fn, "decode", lambda eng, st, a: eng.as_int(st, a[0]))
        for fn in self.one("number", "read:" + d.name, self.fn(d, "", "TableRead", "from_buffer"), "enum %s cannot be read from a table" % d.text):
            self.decode(d, fn, "read", None)
        for fn in self.one("number", "readvec:" + d.name, self.fn(d, "", "VectorReadInner", "from_buffer"), "enum %s cannot be read from a vector" % d.text):
            self.decode(d, fn, "readvec", None)
        enc = [f for f in self.g.fns.get((None, "From", "from"), []) if self.strip_args(f) == p]
        for fn in self.one("number", "encode:" + d.name, enc, "enum %s cannot be turned into its number" % d.text):
            for i, v in enumerate(adt["variants"]):
                def put(eng, st, a, i=i):
                    a[0] = self.variant(eng, p, i)
                got = self.interp("encode:" + d.name, fn, args=put)
                for st, r in got[1] if got else ():
                    r = got[0].expand(st, r)
                    self.ob("number", "encode:%s.%s" % (d.name, v["name"]), isinstance(r, L) and not r.t and r.c == vals.get(v["name"]), "%s turns %s into %s, the schema says %s" % (fn.path, v["name"], r, vals.get(v["name"])))
        for fn in self.one("number", "write:" + d.name, self.fn(d, "", "WriteAsPrimitive", "write"), "enum %s cannot be written" % d.text):
            for i, v in enumerate(adt["variants"]):
                def put(eng, st, a, i=i):
                    st.cells[a[0].cell] = self.variant(eng, p, i)
                got = self.interp("write:" + d.name, fn, args=put)
                for st, r in got[1] if got else ():
                    want = (vals.get(v["name"], 0) % 2 ** (8 * d.size)).to_bytes(d.size, "little")
                    self.ob("number", "write:%s.%s" % (d.name, v["name"]), self.raw(got[0], st) == want, "%s writes %s as %s, the format says %s" % (fn.path, v["name"], self.raw(got[0], st), want))
        for fn in self.one("number", "default:" + d.name, self.fn(d, "", "WriteAsDefault", "prepare"), "enum %s cannot be written with a default" % d.text):
            n = len(adt["variants"])
            for i in range(n):
                for j in sorted({i, (i + 1) % n, (i + 2) % n}):
                    def put(eng, st, a, i=i, j=j):
                        st.cells[a[0].cell] = self.variant(eng, p, i)
                        st.cells[a[2].cell] = self.variant(eng, p, j)
                    got = self.interp("default:" + d.name, fn, args=put)
                    for st, r in got[1] if got else ():
                        r = got[0].expand(st, r)
                        ok = isinstance(r, Adt) and (r.vn == "None" if i == j else r.vn == "Some" and kv(got[0].expand(st, r.fields[0])) == kv(self.variant(got[0], p, i)))
                        self.ob("number", "default:%s" % d.name, ok, "%s gives %s for the value %s with the default %s" % (fn.path, str(r)[-60:], adt["variants"][i]["name"], adt["variants"][j]["name"]))
        for tr in ("WriteAs", "WriteAsOptional"):
            for fn in self.fn(d, "", tr, "prepare") if adt["variants"] else ():
                def put(eng, st, a):
                    st.cells[a[0].cell] = self.variant(eng, p, len(adt["variants"]) - 1)
                got = self.interp(tr + d.name, fn, args=put)
                for st, r in got[1] if got else ():
                    r = got[0].expand(st, r)
                    x = self.variant(got[0], p, len(adt["variants"]) - 1)
                    ok = isinstance(r, Adt) and (kv(r) == kv(x) if tr == "WriteAs" else r.vn == "Some" and kv(got[0].expand(st, r.fields[0])) == kv(x))
                    self.ob("number", "%s:%s" % (tr, d.name), ok, "%s does not write the value it is given" % fn.path)
        self.consts("number", d, d.size, d.align)
        self.elements("number", d, p, d.size)

    def one(self, kind, key, fs, msg):
        self.ob(kind, key, len(fs) == 1, msg)
        return fs

    def raw(self, eng, st):
        """The constant bytes a run wrote, in order, when they are constants and contiguous."""
        out = b""
        for e in st.ev:
            if isinstance(e, tuple) and e[0] == "w":
                b = self.const_bytes(eng, st, e)
                if b is None or not isinstance(e[2], L) or e[2].t or e[2].c != len(out):
                    return None
                out += b
        return out

    def const_bytes(self, eng, st, e):
        v = e[4]
        n = e[3].c if isinstance(e[3], L) and not e[3].t else None
        if isinstance(v, Term) and v.op == "le_bytes":
            x = eng.expand(st, v.args[0])
            if isinstance(x, L) and not x.t:
                return (x.c % 2 ** (8 * n)).to_bytes(n, "little")
        if isinstance(v, Arr):
            xs = [eng.expand(st, x) for x in v.elems]
            if all(isinstance(x, L) and not x.t for x in xs):
                return bytes(x.c % 256 for x in xs)
        if isinstance(v, Term) and v.op == "repeat":
            x = v.args[0]
            if isinstance(x, L) and not x.t:
                return bytes([x.c % 256]) * n
        return None

    def decode(self, d, fn, what, get):
        got = self.interp("%s:%s" % (what, d.name), fn)
        if got is None:
            return
        eng, outs, a = got
        vals = dict(d.values)
        seen = set()
        for st, v in outs:
            v = eng.expand(st, v)
            ok = isinstance(v, Adt)
            if ok and v.vn == "Ok":
                x = eng.expand(st, v.fields[0])
                n = x.vn if isinstance(x, Adt) and x.path == self.path(d) else None
                src = self.number(eng, st, fn, d, a, get)
                ok = n in vals and src is not None and eng.entails_eq(st, src - const(vals[n]))
                seen.add(n)
            elif ok:
                e = eng.expand(st, v.fields[0])
                u = self.unknown(eng, st, e)
                if u is not None:
                    src = self.number(eng, st, fn, d, a, get)
                    ok = src is not None and eng.entails_eq(st, src - u) and all(self.excluded(eng, st, u, y) or self.excluded(eng, st, src, y) for y in vals.values())
                else:
                    ok = what == "read" and isinstance(e, Adt) and e.vn == "InvalidOffset"
            self.ob("number", "%s:%s" % (what, d.name), ok, "%s: %s is not what the schema's numbers say" % (fn.path, str(v)[-90:]))
        for n in vals:
            self.ob("number", "%s:%s.%s" % (what, d.name, n), n in seen, "%s never gives %s" % (fn.path, n))

    @staticmethod
    def unknown(eng, st, e):
        """The number in an unknown-value error."""
        while isinstance(e, Adt):
            if e.path.endswith("UnknownEnumTagKind"):
                return eng.as_int(st, e.fields[0])
            if not e.fields:
                return None
            e = eng.expand(st, e.fields[-1])
        return None

    def number(self, eng, st, fn, d, a, get):
        if get:
            return get(eng, st, a)
        w = rspec.window(eng, st, a[0])
        if not w:
            return None
        r = rspec.rd(eng, st, w[0].region, w[0].start + eng.as_int(st, a[1]), d.base.rust)
        if r is None and d.base.rust == "i8":
            r = rspec.rd(eng, st, w[0].region, w[0].start + eng.as_int(st, a[1]), "u8")
            if r is not None:  # the byte read as a signed number
                for i, (key, *_) in enumerate(eng.A.info):
                    if isinstance(key, tuple) and key[:2] == ("wrap", "i8") and isinstance(key[2], L) and eng.entails_eq(st, key[2] - r):
                        return L({(i,): 1}, 0)
        return r

    def consts(self, kind, d, size, align):
        eng = self.g.engine()
        from sa.absint import State
        st = State()
        t = ("adt", self.path(d), ())
        got = self.layout(eng, st, t)
        self.ob(kind, "layout:" + d.name, got == (size, align), "%s says its size and alignment are %s, the format says %s" % (self.path(d), got, (size, align)))
        mask = eng.expand(st, eng.const_item(st, "planus::traits::Primitive::ALIGNMENT_MASK", "planus::traits::Primitive::ALIGNMENT_MASK", (t,), ("int", "usize")))
        self.ob(kind, "mask:" + d.name, isinstance(mask, L) and not mask.t and mask.c == align - 1, "%s says its alignment mask is %s" % (self.path(d), mask))
        st2 = State()
        for tr, n, args, want in (("VectorWrite", "STRIDE", (t, t), size),):
            v = eng.const_item(st2, "planus::traits::%s::%s" % (tr, n), "planus::traits::%s::%s" % (tr, n), args, ("int", "usize"))
            v = eng.expand(st2, v)
            self.ob(kind, "%s.%s:%s" % (tr, n, d.name), isinstance(v, L) and not v.t and v.c == want, "%s: %s::%s is %s, the format says %s" % (self.path(d), tr, n, v, want))
        r = ("adt", self.path(d, "Ref" if isinstance(d, Struct) else ""), ())
        tr = "VectorRead" if isinstance(d, Struct) else "VectorReadInner"
        v = eng.expand(st2, eng.const_item(st2, "planus::traits::%s::STRIDE" % tr, "planus::traits::%s::STRIDE" % tr, (r,), ("int", "usize")))
        self.ob(kind, "stride:" + d.name, isinstance(v, L) and not v.t and v.c == size, "%s: the distance between elements when reading is %s, the format says %s" % (self.path(d), v, size))

    # ------------------------------------------------------------ structs
    def leaves(self, t, off=0, path=()):
        for n, ft in t.fields:
            o = off + t.offsets[n]
            if isinstance(ft, Struct):
                yield from self.leaves(ft, o, path + (n,))
            else:
                yield o, ft, path + (n,)

    def struct(self, d):
        self.consts("struct", d, d.size, d.align)
        self.elements("struct", d, self.path(d), d.size)
        R = self.path(d, "Ref")
        for n, ft in d.fields:
            key = "%s.%s" % (d.name, n)
            for fn in self.one("struct", "getter:" + key, self.fn(d, "Ref", None, n), "struct %s has no getter for %s" % (d.text, n)):
                got = self.interp("getter:" + key, fn)
                if got is None:
                    continue
                eng, outs, a = got
                seen = set()
                for st, v in outs:
                    w = rspec.window(eng, st, self.inner(eng, st, a[0]))
                    v = eng.expand(st, v)
                    x, extra = v, None
                    if isinstance(ft, Enum):
                        ok = isinstance(v, Adt) and v.path == RES
                        if ok and v.vn == "Ok":
                            e = eng.expand(st, v.fields[0])
                            src = rspec.rd(eng, st, w[0].region, w[0].start + const(d.offsets[n]), ft.base.rust)
                            ok = isinstance(e, Adt) and e.path == self.path(ft) and src is not None and eng.entails_eq(st, src - const(dict(ft.values).get(e.vn, -(2**70))))
                            seen.add(getattr(e, "vn", None))
                        elif ok:
                            u = self.unknown(eng, st, eng.expand(st, v.fields[0]))
                            src = rspec.rd(eng, st, w[0].region, w[0].start + const(d.offsets[n]), ft.base.rust)
                            ok = u is not None and src is not None and eng.entails_eq(st, u - src)
                            loc = rspec.fields(eng, st, rspec.fields(eng, st, v.fields[0]).get("source_location"))
                            self.ob("name", "struct:" + key, loc is not None and self.text_of(eng, st, loc["type_"]) == stem(d.name) + "Ref" and self.text_of(eng, st, loc["method"]) == n, "%s names another place in its error" % fn.path)
                    else:
                        ok = self.at(eng, st, v, w, d.offsets[n], ft)
                    self.ob("struct", "getter:" + key, ok, "%s does not return the %s at offset %d of the struct" % (fn.path, ft.text, d.offsets[n]))
                if isinstance(ft, Enum):
                    self.ob("struct", "getter:" + key, seen == {x for x, _ in ft.values}, "%s never returns some values of %s" % (fn.path, ft.text))
        # writing
        for fn in self.one("struct", "write:" + d.name, self.fn(d, "", "WriteAsPrimitive", "write"), "struct %s cannot be written" % d.text):
            got = self.interp("write:" + d.name, fn)
            if got:
                eng, outs, a = got
                for st, v in outs:
                    self.struct_bytes(d, fn, eng, st, [e for e in st.ev if isinstance(e, tuple) and e[0] == "w"])
        for fn in self.one("struct", "place:" + d.name, self.fn(d, "", "WriteAsOffset", "prepare"), "struct %s cannot be written by itself" % d.text):
            got = self.interp("place:" + d.name, fn)
            if got:
                eng, outs, a = got
                for st, v in outs:
                    ev = [e for e in st.ev if isinstance(e, Call)]
                    ok = [e.name for e in ev] == ["write_with", "current_offset"]
                    if ok:
                        size, mask = ev[0].seen[1], ev[0].seen[2]
                        ok = not size.t and size.c == d.size and not mask.t and mask.c == d.align - 1 and kv(eng.expand(st, ev[1].res)) == kv(eng.expand(st, v))
                    self.ob("struct", "place:" + d.name, ok, "%s does not reserve %d bytes aligned to %d and return their place" % (fn.path, d.size, d.align))
                    self.struct_bytes(d, fn, eng, st, [e for e in st.ev if isinstance(e, tuple) and e[0] == "w"])
        for tr in ("WriteAs", "WriteAsOptional"):
            for fn in self.fn(d, "", tr, "prepare"):
                if self.strip_args(fn) != self.path(d):
                    continue
                got = self.interp(tr + d.name, fn)
                for st, r in got[1] if got else ():
                    eng = got[0]
                    r = eng.expand(st, r)
                    x, _ = eng.behind(st, got[2][0])
                    ok = isinstance(r, Adt) and (kv(r) == kv(x) if tr == "WriteAs" else r.vn == "Some" and kv(eng.expand(st, r.fields[0])) == kv(x))
                    self.ob("struct", "%s:%s" % (tr, d.name), ok, "%s does not write the value it is given" % fn.path)
        # reading
        for tr in ("TableRead", "VectorRead"):
            for fn in self.one("struct", "%s:%s" % (tr, d.name), self.fn(d, "Ref", tr, "from_buffer"), "struct %s cannot be read" % d.text):
                got = self.interp(tr + d.name, fn)
                if got is None:
                    continue
                eng, outs, a = got
                oks = 0
                for st, v in outs:
                    v = eng.expand(st, v)
                    w = rspec.window(eng, st, a[0])
                    pos = eng.as_int(st, a[1])
                    if tr == "TableRead":
                        if isinstance(v, Adt) and v.vn == "Err":
                            e = eng.expand(st, v.fields[0])
                            ok = isinstance(e, Adt) and e.vn == "InvalidOffset" and eng.entails(st, pos + const(d.size) - w[0].n - const(1))
                            self.ob("struct", "reject:" + d.name, ok, "%s rejects a position at which the whole struct lies inside the buffer" % fn.path)
                            continue
                        v = eng.expand(st, v.fields[0])
                    oks += 1
                    self.ob("struct", "%s:%s" % (tr, d.name), self.is_window(eng, st, v, R, w, pos, d.size), "%s does not return the %d bytes at the given position" % (fn.path, d.size))
                self.ob("struct", "%s:%s" % (tr, d.name), oks >= 1, "%s never succeeds" % fn.path)
        # converting
        enums = [x for _, x, _ in self.leaves(d) if isinstance(x, Enum)]
        fs = self.fn(d, "", "TryFrom", "try_from") + [f for f in self.fn(d, "", "From", "from") if self.strip_args(f).startswith(R)]
        for fn in self.one("convert", "struct:" + d.name, fs, "struct %s has no conversion from its reader" % d.text):
            got = self.interp("convert:" + d.name, fn)
            if got is None:
                continue
            eng, outs, a = got
            for st, v in outs:
                v = eng.expand(st, v)
                w = rspec.window(eng, st, self.inner(eng, st, a[0]))
                if isinstance(v, Adt) and v.path == RES:
                    if v.vn == "Err":
                        u = self.unknown(eng, st, eng.expand(st, v.fields[0]))
                        self.ob("convert", "struct:" + d.name, bool(enums) and u is not None, "%s fails for another reason than an unknown enum value" % fn.path)
                        continue
                    v = eng.expand(st, v.fields[0])
                for off, ft, path in self.leaves(d):
                    x, cur = v, d
                    for n in path:
                        adt = eng.adts.get(x.path) if isinstance(x, Adt) else None
                        names = [f[0] for f in adt["variants"][0]["fields"]] if adt else []
                        x = eng.expand(st, x.fields[names.index(n)]) if n in names else None
                    if isinstance(ft, Enum):
                        src = rspec.rd(eng, st, w[0].region, w[0].start + const(off), ft.base.rust)
                        ok = isinstance(x, Adt) and x.path == self.path(ft) and src is not None and eng.entails_eq(st, src - const(dict(ft.values)[x.vn]))
                    else:
                        ok = x is not None and self.at(eng, st, x, w, off, ft)
                    self.ob("convert", "struct:%s.%s" % (d.name, ".".join(path)), ok, "%s does not fill %s from offset %d" % (fn.path, ".".join(path), off))

    def inner(self, eng, st, v):
        v, _ = eng.behind(st, v)
        return eng.expand(st, v.fields[0]) if isinstance(v, Adt) and v.fields else v

    def at(self, eng, st, v, w, off, t):
        pos = w[0].start + const(off)
        if isinstance(t, Struct):
            return self.is_window(eng, st, v, self.path(t, "Ref"), w, const(off), t.size)
        if t.base == "bool":
            src = rspec.rd(eng, st, w[0].region, pos, "u8")
            return isinstance(v, C) and src is not None and (v.op == "ne" and v.b is None and isinstance(v.a, L) and eng.entails_eq(st, v.a - src))
        return rspec.is_rd(eng, st, v, w[0].region, pos, t.rust)

    def is_window(self, eng, st, v, R, w, pos, size):
        v = eng.expand(st, v)
        if not (isinstance(v, Adt) and v.path == R):
            return False
        u = rspec.window(eng, st, eng.expand(st, v.fields[0]))
        return u is not None and u[0].region == w[0].region and eng.entails_eq(st, u[0].start - w[0].start - pos) and eng.entails_eq(st, u[0].n - const(size)) and eng.entails_eq(st, rspec.unwrapped(eng, u[1]) - rspec.unwrapped(eng, w[1]) - pos)

    def struct_bytes(self, d, fn, eng, st, ws):
        """The writes cover the struct exactly: every leaf at its offset, zeroes in between."""
        want = {o: (t, p) for o, t, p in self.leaves(d)}
        covered = []
        ok = True
        for e in ws:
            o, n, v = e[2], e[3], e[4]
            if not (isinstance(o, L) and not o.t and isinstance(n, L) and not n.t):
                ok = False
                break
            if n.c == 0:
                continue
            covered.append((o.c, n.c))
            if o.c in want and want[o.c][0].size == n.c:
                t, p = want.pop(o.c)
                src = self.names(eng, st, v, [])
                good = src == {"self." + ".".join(p)} and self.encodes(eng, st, v, t)
                self.ob("struct", "field:%s.%s" % (d.name, ".".join(p)), good, "%s writes %s at offset %d, where %s belongs" % (fn.path, str(v)[:80], o.c, ".".join(p)))
            else:
                b = self.const_bytes(eng, st, e)
                self.ob("struct", "padding:" + d.name, b is not None and not any(b) and not any(o.c <= x < o.c + n.c for x in want), "%s writes %s at offset %d, where the struct has padding" % (fn.path, str(v)[:60], o.c))
        covered.sort()
        end = 0
        for o, n in covered:
            ok = ok and o == end
            end = o + n
        self.ob("struct", "covered:" + d.name, ok and end == d.size and not want, "%s does not write each of the %d bytes of the struct once (missing %s)" % (fn.path, d.size, [".".join(p) for _, p in want.values()]))

    def encodes(self, eng, st, v, t):
        if isinstance(v, Term) and v.op == "le_bytes":
            ty = t.base.rust if isinstance(t, Enum) else t.rust
            if str(v.args[1]) != ty and not (ty == "bool" and v.args[1] == "u8"):
                return False
            x = eng.expand(st, v.args[0])
            return isinstance(x, Sym) or isinstance(x, L) and x.c == 0 and len(x.t) == 1 and list(x.t.values() if isinstance(x.t, dict) else [y for _, y in x.t]) == [1] or isinstance(x, Term)
        if isinstance(v, Arr) and len(v.elems) == 1 and t.size == 1:
            x = eng.expand(st, v.elems[0])
            # a bool, or a byte as it is
            return isinstance(x, L) and x.c == 0 and len(x.t) == 1 and list(x.t.values()) == [1]
        return False

    # ------------------------------------------------------------ unions
    def union(self, d):
        p = self.path(d)
        tags = d.tags()
        adt = next((c.adts[p] for c in self.g.crates if p in c.adts), None)
        if not self.ob("number", "type:" + d.name, adt is not None, "no type for union %s" % d.text):
            return
        names = [v["name"] for v in adt["variants"]]
        self.ob("number", "variants:" + d.name, sorted(names) == sorted(n for n, _, _ in tags), "union %s has the variants %s, the schema says %s" % (d.text, names, [n for n, _, _ in tags]))
        for n, tag, t in tags:
            key = "%s.%s" % (d.name, n)
            low = snake(n)
            for fn in self.one("number", "create:" + key, self.fn(d, "", None, "create_" + snake(n).rstrip("_")), "union %s has no create_%s" % (d.text, low)):
                got = self.interp("create:" + key, fn)
                for st, v in got[1] if got else ():
                    self.ob("number", "create:" + key, self.union_offset(got[0], st, v, tag, t, got[2][1]), "%s does not write the value with the tag %d" % (fn.path, tag))
        for fn in self.one("number", "write:" + d.name, self.fn(d, "", "WriteAsUnion", "prepare"), "union %s cannot be written" % d.text):
            got = self.interp("write:" + d.name, fn)
            seen = set()
            for st, v in got[1] if got else ():
                eng, a = got[0], got[2]
                ev = [e for e in st.ev if isinstance(e, Call)]
                ok = len(ev) == 1 and ev[0].refs[0] is not None and ev[0].refs[0].cell == a[0].cell and ev[0].refs[0].path[:1] and ev[0].refs[0].path[0][0] == "v"
                if ok:
                    n = names[ev[0].refs[0].path[0][1]]
                    seen.add(n)
                    tag, t = {x: (y, z) for x, y, z in tags}[n]
                    ok = self.union_offset(eng, st, v, tag, t, None)
                self.ob("number", "write:" + d.name, ok, "%s does not write a variant with its tag: %s" % (fn.path, str(v)[:80]))
            self.ob("number", "write:" + d.name, seen == set(names), "%s does not write %s" % (fn.path, sorted(set(names) - seen)))
        for fn in self.one("number", "writeopt:" + d.name, self.fn(d, "", "WriteAsOptionalUnion", "prepare"), "union %s cannot be written as an optional field" % d.text):
            got = self.interp("writeopt:" + d.name, fn)
            for st, v in got[1] if got else ():
                ev = [e for e in st.ev if isinstance(e, Call)]
                v = got[0].expand(st, v)
                ok = len(ev) == 1 and ev[0].name == "WriteAsUnion" and ev[0].refs[0].cell == got[2][0].cell and isinstance(v, Adt) and v.vn == "Some" and kv(got[0].expand(st, v.fields[0])) == kv(got[0].expand(st, ev[0].res))
                self.ob("number", "writeopt:" + d.name, ok, "%s does not write the union" % fn.path)
        # the builder: setter n makes state Initialized<k>, which is written with tag k's variant
        state = {}
        for n, tag, t in tags:
            low = snake(n)
            for fn in self.one("builder", "setter:%s.%s" % (d.name, n), self.fn(d, "Builder", None, low), "the builder of union %s has no setter %s" % (d.text, low)):
                got = self.interp("setter:" + d.name, fn)
                ret = fn.crate.ty(fn.body["locals"][0])
                k = [x[1] for y in ret[2] if y[0] == "adt" for x in y[2] if x[0] in ("n", "p")]
                state[n] = str(k[0]) if k else None
                for st, v in got[1] if got else ():
                    v = got[0].expand(st, v)
                    try:
                        x = got[0].expand(st, got[0].expand(st, v.fields[0]).fields[0])
                        ok = kv(x) == kv(got[0].expand(st, got[2][1]))
                    except (AttributeError, IndexError):
                        ok = False
                    self.ob("builder", "setter:%s.%s" % (d.name, n), ok, "%s does not keep the value it is given" % fn.path)
        done = {}
        for tr, fn in [(tr, fn) for tr in ("WriteAsUnion", "WriteAsOptionalUnion") for fn in self.fn(d, "Builder", tr, "prepare")]:
            ty = fn.crate.ty(fn.impl_self)
            k = [str(x[1]) for y in ty[2] if y[0] == "adt" for x in y[2] if x[0] in ("n", "p")][:1]
            ns = [n for n, s in state.items() if [s] == k]
            if not self.ob("builder", "states:" + d.name, len(ns) == 1, "the state %s of the builder of union %s belongs to the setters %s" % (k, d.text, ns)):
                continue
            tag, t = {x: (y, z) for x, y, z in tags}[ns[0]]
            got = self.interp("finish:" + d.name, fn)
            for st, v in got[1] if got else ():
                ev = [e for e in st.ev if isinstance(e, Call)]
                ok = len(ev) == 1 and ev[0].refs[0] is not None and ev[0].refs[0].cell == got[2][0].cell
                if ok and tr == "WriteAsOptionalUnion":
                    v = got[0].expand(st, v)
                    ok = isinstance(v, Adt) and v.vn == "Some"
                    if ok:
                        v = got[0].expand(st, v.fields[0])
                        if ev[0].name == "WriteAsUnion":
                            ok = kv(v) == kv(got[0].expand(st, ev[0].res))
                            ok and self.ob("builder", "finish:%s.%s" % (d.name, ns[0]), True, "")
                            continue
                ok = ok and self.union_offset(got[0], st, v, tag, t, None)
                self.ob("builder", "finish:%s.%s" % (d.name, ns[0]), ok, "%s does not write the value set by %s with the tag %d" % (fn.path, ns[0], tag))
            done.setdefault(ns[0], set()).add(tr)
        for n, tag, t in tags:
            self.ob("builder", "finish:%s.%s" % (d.name, n), done.get(n) == {"WriteAsUnion", "WriteAsOptionalUnion"}, "the builder of union %s cannot be written after %s was set" % (d.text, n))
        # reading
        for fn in self.one("number", "read:" + d.name, self.fn(d, "Ref", "TableReadUnion", "from_buffer"), "union %s cannot be read" % d.text):
            got = self.interp("read:" + d.name, fn)
            seen = set()
            for st, v in got[1] if got else ():
                eng, a = got[0], got[2]
                v = eng.expand(st, v)
                tagv = eng.as_int(st, a[1]) if not self.tag_last(eng, fn) else eng.as_int(st, a[2])
                posv = eng.as_int(st, a[2]) if not self.tag_last(eng, fn) else eng.as_int(st, a[1])
                ev = [e for e in st.ev if isinstance(e, Call)]
                reads = [e for e in ev if e.kind == "read"]
                ok = isinstance(v, Adt) and v.path == RES
                if ok and v.vn == "Err":
                    e = eng.expand(st, v.fields[0])
                    if isinstance(e, Adt) and e.vn == "UnknownUnionTag":
                        ok = not reads and eng.entails_eq(st, eng.as_int(st, e.fields[0]) - tagv) and all(self.excluded(eng, st, tagv, y) for _, y, _ in tags)
                    else:
                        ok = any(eng.entails_eq(st, tagv - const(y)) for _, y, _ in tags)
                elif ok:
                    x = eng.expand(st, v.fields[0])
                    m = {n: (tag, t) for n, tag, t in tags}
                    ok = isinstance(x, Adt) and x.path == self.path(d, "Ref") and x.vn in m
                    if ok:
                        seen.add(x.vn)
                        tag, t = m[x.vn]
                        ok = eng.entails_eq(st, tagv - const(tag)) and len(reads) == 1 and ty_str(reads[0].args[0]) == self.read_type(t) and kv(reads[0].seen[0]) == kv(eng.expand(st, a[0]))
                        if ok and not isinstance(t, Struct):
                            ok = eng.entails_eq(st, eng.as_int(st, reads[0].seen[1]) - posv)
                        if ok and isinstance(t, Struct):
                            w = rspec.window(eng, st, a[0])
                            o = rspec.rd(eng, st, w[0].region, w[0].start + posv, "u32")
                            ok = o is not None and eng.entails_eq(st, eng.as_int(st, reads[0].seen[1]) - posv - o)
                        if ok:
                            r = eng.expand(st, reads[0].res)
                            ok = isinstance(r, Adt) and r.vn == "Ok" and kv(eng.expand(st, r.fields[0])) == kv(eng.expand(st, x.fields[0]))
                self.ob("number", "read:" + d.name, ok, "%s: a tag is read as another variant than the schema's numbers say (%s)" % (fn.path, str(v)[:100]))
            if got:
                for n, tag, t in tags:
                    self.ob("number", "read:%s.%s" % (d.name, n), n in seen, "%s never gives %s for the tag %d" % (fn.path, n, tag))
        sure = self.fn(d, "", "From", "from")
        for fn in self.one("convert", "union:" + d.name, (sure or self.fn(d, "", "TryFrom", "try_from")) if d.variants else (), "union %s has no conversion from its reader" % d.text) if d.variants else ():
            got = self.interp("convert:" + d.name, fn, outcome=lambda st, k, n: "some")
            seen = set()
            radt = next((c.adts[self.path(d, "Ref")] for c in self.g.crates if self.path(d, "Ref") in c.adts), None)
            for i, rv in enumerate(radt["variants"] if radt else ()):
                def put(eng, st, a, i=i):
                    fs = [eng.sub(radt["_crate"].ty(f[1]), {}) if "_crate" in radt else fn.crate.ty(f[1]) for f in radt["variants"][i]["fields"]]
                    a[0] = Adt(self.path(d, "Ref"), i, radt["variants"][i]["name"], [eng.mk(st, f, "@payload%d" % i) for f in fs], ())
                got = self.interp("convert:" + d.name, fn, outcome=lambda st, k, n: "some", args=put)
                for st, v in got[1] if got else ():
                    eng = got[0]
                    v = eng.expand(st, v)
                    ok = isinstance(v, Adt) and (bool(sure) or v.vn == "Ok")
                    if ok:
                        x = v if sure else eng.expand(st, v.fields[0])
                        calls = [e for e in st.ev if isinstance(e, Call)]
                        src = self.names(eng, st, x.fields[0], calls) if isinstance(x, Adt) and x.fields else None
                        ok = isinstance(x, Adt) and x.path == p and x.vn == rv["name"] and src == {"@payload%d" % i}
                    self.ob("convert", "union:%s.%s" % (d.name, rv["name"]), ok, "%s does not turn the variant %s into the owned variant of that name" % (fn.path, rv["name"]))

    @staticmethod
    def excluded(eng, st, l, n):
        x = l - const(n)
        return x in st.ne or -x in st.ne or eng.infeasible(st, [], [x])

    @staticmethod
    def tag_last(eng, fn):
        t = [fn.crate.ty(x) for x in fn.body["locals"][1:1 + fn.body["argc"]]]
        return t[-1] == ("int", "u8")

    def union_offset(self, eng, st, v, tag, t, arg):
        v = eng.expand(st, v)
        ev = [e for e in st.ev if isinstance(e, Call)]
        if not (isinstance(v, Adt) and v.path.endswith("::UnionOffset") and len(ev) == 1 and ev[0].kind == "prepare" and ev[0].name == "WriteAsOffset"):
            return False
        g, o = eng.expand(st, v.fields[0]), eng.expand(st, v.fields[1])
        r = eng.expand(st, ev[0].res)
        want = "str" if isinstance(t, Str) else self.path(t)
        if ty_str(ev[0].args[1]) != want:
            return False
        if arg is not None:
            x = eng.expand(st, arg)
            if kv(ev[0].seen[0]) != kv(eng.behind(st, x)[0]):
                return False
        return isinstance(g, L) and not g.t and g.c == tag and kv(eng.expand(st, o.fields[0])) == kv(eng.expand(st, r.fields[0]))

    # ------------------------------------------------------------ vectors of generated types
    def elements(self, kind, d, stored, size):
        """Element i of a slice is written at i times the size, and knows its own position; all elements are."""
        key = "elements:" + d.name
        fs = [f for f in self.fn(d, "", "VectorWrite", "write_values") if self.strip_args(f) == stored]
        for fn in self.one(kind, key, fs, "vectors of %s cannot be written" % d.text):
            steps = []

            def step(fr, h, st):
                if fr.fn is fn:
                    steps.append(st)
            got = self.interp(key, fn, write_boundary=True, hooks={"backedge": step})
            if got is None:
                continue
            eng, outs, a = got
            idx = []
            for st in steps:
                ev = [e for e in st.ev if isinstance(e, Call)]
                ok = len(ev) == 1 and ev[0].kind == "write" and ev[0].refs[0] is not None
                if ok:
                    vals = eng.models.as_slice(eng, st, eng.expand(st, a[0]))
                    ptr = eng.models.as_ptr(eng, st, a[1])
                    c = ev[0].refs[0].cell
                    cur = ev[0].seen[1]
                    cur = cur.f.get("sl") if isinstance(cur, It) else None
                    ok = isinstance(c, tuple) and c[:3] == ("h", "elem", vals.region) and not ev[0].refs[0].path and cur is not None and cur.region == ptr.region
                    if ok:
                        i = rspec.lin(c[3])
                        idx.append(i)
                        ok = eng.entails_eq(st, cur.start - ptr.start - i.scale(size)) and eng.entails_eq(st, cur.n - const(size))
                        pos = rspec.unwrapped(eng, eng.as_int(st, ev[0].seen[2]))
                        ok = ok and eng.entails_eq(st, pos - eng.as_int(st, a[2]) + i.scale(size))
                self.ob(kind, key, ok, "%s does not write element i at i times %d" % (fn.path, size))
            for st, v in outs:
                vals = eng.models.as_slice(eng, st, eng.expand(st, a[0]))
                ok = eng.entails_eq(st, vals.n) or any(eng.entails_eq(st, vals.n - i) for i in idx)
                self.ob(kind, key, ok, "%s may stop before the last element" % fn.path)
            self.ob(kind, key, bool(steps), "%s does not go through the elements" % fn.path)
        fs = [f for f in self.fn(d, "", "VectorWrite", "prepare") if self.strip_args(f) == stored]
        for fn in self.one(kind, "element:" + d.name, fs, "elements of type %s cannot be prepared" % d.text):
            got = self.interp("element:" + d.name, fn)
            for st, v in got[1] if got else ():
                eng, a = got[0], got[2]
                ev = [e for e in st.ev if isinstance(e, Call)]
                if isinstance(d, Table):
                    ok = len(ev) == 1 and ev[0].kind == "prepare" and ev[0].name == "WriteAs" and ev[0].refs[0] is not None and ev[0].refs[0].cell == a[0].cell and kv(eng.expand(st, ev[0].res)) == kv(eng.expand(st, v))
                    ok = ok or len(ev) == 1 and ev[0].name == "WriteAsOffset" and ev[0].refs[0] is not None and ev[0].refs[0].cell == a[0].cell and kv(eng.expand(st, ev[0].res)) == kv(eng.expand(st, v))
                else:
                    ok = not ev and kv(eng.behind(st, a[0])[0]) == kv(eng.expand(st, v))
                self.ob(kind, "element:" + d.name, ok, "%s does not hand on the element" % fn.path)

    # ------------------------------------------------------------ everything
    def run(self, names=None):
        for d in self.s.decls:
            if names and d.name not in names:
                continue
            if isinstance(d, Table):
                self.table(d)
            elif isinstance(d, Enum) and self.want("number"):
                self.enum(d)
            elif isinstance(d, Struct) and self.want("struct", "convert", "name"):
                self.struct(d)
            elif isinstance(d, Struct) and self.want("compare"):
                cmpspec.run(self, d)
            elif isinstance(d, Union) and self.want("number", "builder", "convert"):
                self.union(d)
