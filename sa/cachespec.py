"""Sharing of equal data in a builder, and resetting a builder.

Obligation kinds: "hit" (an earlier object is handed out only for equal contents), "insert" (an object is remembered as what it is),
"reset" (a cleared builder is as good as new)."""
from sa import rspec
from sa.absint import Adt, L, kv
from sa.layout import WRITERS, WRITE_VTABLE
from sa.rtspec import BUILDER, short
from sa.wspec import deref, elem_kind, peel, same

BV = "planus::backvec::BackVec"
HEADER = {"str": 4, "bytes": 4, "vtable": 0}
WIDTH = {"str": "u32", "bytes": "u32", "vtable": "u16"}


def table_of(k):
    """the path from the builder to the hash table, without types"""
    return tuple(x[1] for x in k[2]) if isinstance(k, tuple) and k[0] == "Ref" else None


class Spec:
    def __init__(self):
        self.tables = {}  # kind -> {path of the table: set of functions}
        self.seen = {}
        self.fresh = []  # shapes of builders just made
        self.cleared = []

    def __call__(self, eng, fr, fn, st, v, args):
        o = self.o = lambda kind, what, ok, msg: eng.oblig(kind, fr, fn.span[1], what, ok, msg, st)
        tr = short(fn.impl_trait) if fn.impl_trait else None
        v = eng.expand(st, v)
        if fn.path == BUILDER + "::clear":
            b = deref(eng, st, args[0])
            self.cleared.append((self.shape(eng, st, b), {table_of(e[1]) for e in st.ev if e[0] == "hclear"}))
            return
        if fn.path.startswith(BUILDER + "::") and not fn.impl_trait and isinstance(v, Adt) and v.path == BUILDER:
            self.fresh.append((fn.path, self.shape(eng, st, v)))
            return
        hits = [e for e in st.ev if e[0] == "hit"]
        ins = [e for e in st.ev if e[0] == "insert"]
        if fn.path == WRITE_VTABLE:
            kind = "vtable"
            me = eng.models.as_slice(eng, st, args[1])
            b = args[0]
        elif tr in WRITERS and fn.name == "prepare":
            t = fn.crate.ty(fn.impl_self)
            while t[0] == "ref":
                t = t[1]
            kind = elem_kind(fn, t) if t[0] in ("str", "slice", "array", "adt") else None
            me = eng.models.as_slice(eng, st, args[0]) if kind in ("str", "bytes") else None
            b = args[1]
        else:
            kind = None
        if not hits and not ins:
            return
        known = kind in HEADER and me is not None
        o("hit", "kind", known, "something that is neither a string, nor a byte vector, nor a vtable is looked up in a cache")
        if not known:
            return
        for e in hits + ins:
            self.tables.setdefault(kind, {}).setdefault(table_of(e[1]), set()).add(fn.path)
        for e in hits:
            self.seen.setdefault("hit " + kind, set()).add(fn.path)
            o("hit", "equal", self.equal(eng, st, deref(eng, st, b), me, eng.expand(st, e[3].fields[0]), kind), "an object written earlier is handed out although its whole contents are not known to equal the whole of what is to be written")
        for e in ins:
            self.seen.setdefault("insert " + kind, set()).add(fn.path)
            x = eng.expand(st, e[3].fields[0])
            r = v if kind == "vtable" else v.fields[0] if isinstance(v, Adt) and v.path.endswith("::Offset") else None
            if isinstance(v, Adt) and v.vn == "Some":
                r = eng.expand(st, v.fields[0]).fields[0]
            o("insert", "offset", r is not None and same(eng, st, peel(eng, x), peel(eng, deref(eng, st, r))), "what is remembered is not the position of the object just written")
            h = self.hash_key(eng, e[2])
            o("insert", "hash", h is not None and self.names(h, me), "an object is remembered under a hash that is not that of its contents")
        # lookups are made with the hash the object is later remembered under
        for e in hits:
            h = self.hash_key(eng, e[2])
            o("hit", "hash", h is not None and self.names(h, me), "an object is looked up under a hash that is not that of its contents")

    def equal(self, eng, st, b, me, off, kind):
        """the bytes `off` from the end are the header and then exactly the bytes of `me`"""
        cap = self.cap(eng, st, b)
        w = {"u16": 2, "u32": 4}[WIDTH[kind]]
        for k, val in st.facts.items():
            if k[0] != "eqv" or val is not True:
                continue
            for a, c in ((k[1], k[2]), (k[2], k[1])):
                if isinstance(a, tuple) and a and a[0] == "Sl" and self.is_me(c, me):
                    start, ln = L(dict(a[2][1]), a[2][0]), L(dict(a[3][1]), a[3][0])
                    if eng.entails_eq(st, start - (cap - off + HEADER[kind])) and rspec.is_rd(eng, st, ln, a[1], cap - off, WIDTH[kind]):
                        return True
        return False

    def cap(self, eng, st, b):
        f = [f[0] for f in eng.adts[BUILDER]["variants"][0]["fields"]]
        inner = eng.expand(st, b.fields[f.index("inner")])
        g = [f[0] for f in eng.adts[BV]["variants"][0]["fields"]]
        return eng.expand(st, inner.fields[g.index("capacity")])

    def is_me(self, c, me):
        return isinstance(c, tuple) and c[:4] == kv(me)[:4]

    def hash_key(self, eng, h):
        if isinstance(h, L) and h.c == 0 and len(h.t) == 1:
            (m, k), = h.t.items()
            if k == 1 and len(m) == 1:
                key = eng.A.info[m[0]][0]
                return key[1] if isinstance(key, tuple) and key[0] == "hash" else None
        return None

    def names(self, h, me):
        return self.is_me(h, me)

    # -------- resetting
    def shape(self, eng, st, b):
        """every number in a builder, the buffer aside"""
        out = {}
        for i, x in enumerate(eng.adts[BUILDER]["variants"][0]["fields"]):
            v = eng.expand(st, b.fields[i])
            if isinstance(v, Adt) and v.path == BV:
                g = [f[0] for f in eng.adts[BV]["variants"][0]["fields"]]
                out[x[0]] = ("length", eng.expand(st, v.fields[g.index("capacity")]) - eng.expand(st, v.fields[g.index("offset")]))
            else:
                out[x[0]] = ("value", v)
        return out
