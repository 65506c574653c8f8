"""Comparing, ordering and hashing readers of structs: what every path of the generated functions returns, against the relation of the
fields on that path."""
from sa.absint import Adt, C, L, Sym, FALSE, TRUE, cnot, kv
from sa.schema import Enum, Struct

ORD = "core::cmp::Ordering"
OPT = "core::option::Option"
NAMES = {"L": ("Less", 0), "E": ("Equal", 1), "G": ("Greater", 2)}
MIRROR = {"L": "G", "G": "L", "E": "E", "U": "U"}
CALLS = {
    "core::cmp::PartialEq::eq": ("E", "LGU"), "core::cmp::PartialEq::ne": ("LGU", "E"),
    "core::cmp::PartialOrd::lt": ("L", "EGU"), "core::cmp::PartialOrd::ge": ("EG", "LU"),
    "core::cmp::PartialOrd::gt": ("G", "LEU"), "core::cmp::PartialOrd::le": ("LE", "GU"),
}
THREE = ("core::cmp::Ord::cmp", "core::cmp::PartialOrd::partial_cmp")
HASH = "core::hash::Hash::hash"


class Rel(tuple):
    """(left, right, letters): the relation one call established on a path"""


class Hashed(tuple):
    """(value,)"""


def ordering(o):
    n, i = NAMES[o]
    return Adt(ORD, i, n, [], ())


def strip(t):
    while t[0] == "ref":
        t = t[1]
    return t


def intercept(eng, fr, st, callee, ca, vals, span, dty):
    """The comparison of two parts of the readers is an event with one successor per possible outcome."""
    n = callee["f"]
    if n == HASH:
        s = st.fork()
        s.ev = s.ev + (Hashed((eng.behind(st, vals[0])[0],)),)
        from sa.absint import Tup
        return [(s, Tup([]))]
    if n not in CALLS and n not in THREE:
        return None
    t = strip(ca[0])
    if t[0] == "adt" and t[1] == eng.compare:
        fn = eng.by_id.get(callee.get("rid"))
        return eng.run(fn, {}, list(vals), st, fr) if fn is not None and fn.body else None
    x, y = eng.behind(st, vals[0])[0], eng.behind(st, vals[1])[0]
    out = []

    def on(letters, value):
        s = st.fork()
        s.ev = s.ev + (Rel((x, y, letters)),)
        out.append((s, value))

    if n in CALLS:
        a, b = CALLS[n]
        on(a, TRUE)
        on(b, FALSE)
    else:
        some = n.endswith("partial_cmp")
        for o in "LEG":
            on(o, Adt(OPT, 1, "Some", [ordering(o)], dty[2]) if some else ordering(o))
        if some:
            on("U", Adt(OPT, 0, "None", [], dty[2]))
    return out


def partial(t):
    """can two values of the type be unordered?"""
    if isinstance(t, Struct):
        return any(partial(x) for _, x in t.fields)
    return getattr(t, "rust", "") in ("f32", "f64")


def has_enum(t):
    return isinstance(t, Enum) or isinstance(t, Struct) and any(has_enum(x) for _, x in t.fields)


class Compare:
    def __init__(self, spec, d):
        self.sp, self.d = spec, d
        self.R = spec.path(d, "Ref")

    def field_of(self, eng, st, v, sides):
        """(side, field) a value was read from"""
        for i, w in enumerate(sides):
            for n, t in self.d.fields:
                if self.sp.at(eng, st, v, w, self.d.offsets[n], t):
                    return i, n
        return None

    def values(self, eng, st, me):
        """the values the getters return in a state"""
        out = {}
        for n, t in self.d.fields:
            if isinstance(t, Struct):
                continue
            for fn in self.sp.fn(self.d, "Ref", None, n):
                eng.steps = 0
                r = eng.run(fn, {}, [me], st.fork())
                if len(r) == 1:
                    out[n] = eng.expand(r[0][0], r[0][1])
        return out

    def relations(self, eng, st, a, sides):
        rel = {n: set("LEGU" if partial(t) else "LEG") for n, t in self.d.fields}
        odd = []
        for e in st.ev:
            if isinstance(e, Rel):
                p, q = self.field_of(eng, st, e[0], sides), self.field_of(eng, st, e[1], sides)
                if p is None or q is None or p[1] != q[1] or p[0] == q[0]:
                    odd.append(e)
                    continue
                rel[p[1]] &= set(e[2]) if p[0] == 0 else {MIRROR[x] for x in e[2]}
        left, right = self.values(eng, st, a[0]), self.values(eng, st, a[1])
        for n, t in self.d.fields:
            if n in left and n in right:
                x, y = left[n], right[n]
                if isinstance(x, C) and isinstance(y, C):
                    for o, (p, q) in {"L": (0, 1), "G": (1, 0)}.items():
                        if o in rel[n] and not any(eng.assume(s, y if q else cnot(y)) for s in eng.assume(st, x if p else cnot(x))):
                            rel[n].discard(o)
                    if "E" in rel[n] and not any(eng.assume(s, y if p else cnot(y)) for p in (0, 1) for s in eng.assume(st, x if p else cnot(x))):
                        rel[n].discard("E")
                    continue
                if isinstance(x, L) and isinstance(y, L):
                    for o, c in (("E", C("eq", x - y)), ("L", C("ge", y - x - 1)), ("G", C("ge", x - y - 1))):
                        if o in rel[n] and not eng.assume(st, c):
                            rel[n].discard(o)
                else:
                    for op, yes in (("Eq", "E"), ("Lt", "L"), ("Gt", "G"), ("Le", "LE"), ("Ge", "GE")):
                        c = eng.cmp(st, op, x, y)
                        if not eng.assume(st, c):
                            rel[n] -= set(yes)
                        if not eng.assume(st, cnot(c)):
                            rel[n] &= set(yes)
        return rel, odd

    def paths(self, trait, name):
        """(engine, state, value, relations) of every path of a generated function"""
        key = "%s:%s" % (trait, self.d.name)
        for fn in self.sp.one("compare", key, self.sp.fn(self.d, "Ref", trait, name), "the reader of struct %s does not implement %s" % (self.d.text, trait)):
            got = self.sp.interp("compare:" + key, fn, compare=self.R)
            if got is None:
                continue
            eng, outs, a = got
            for st, v in outs:
                for s, x in ([(s2, y) for c, y in ((v, TRUE), (cnot(v), FALSE)) for s2 in eng.assume(st, c)] if isinstance(v, C) and name == "eq" else [(st, v)]):
                    from sa import rspec
                    sides = [rspec.window(eng, s, self.sp.inner(eng, s, r)) for r in a[:2]]
                    yield key, fn, eng, s, eng.expand(s, x), a, sides

    def run(self):
        d, sp = self.d, self.sp
        full = not partial(d)
        for key, fn, eng, st, v, a, sides in self.paths("PartialEq", "eq"):
            rel, odd = self.relations(eng, st, a, sides)
            if any(not r for r in rel.values()):
                continue
            sp.ob("compare", key, not odd, "%s compares two different fields, or a field with itself" % fn.path)
            if isinstance(v, C) and v.op == "const" and v.a:
                bad = [n for n, r in rel.items() if r != {"E"}]
                sp.ob("compare", key, not bad, "%s calls two structs equal without having compared %s" % (fn.path, ", ".join(bad)))
            else:
                sp.ob("compare", key, any("E" not in r for r in rel.values()), "%s calls two structs different whose fields may all be equal" % fn.path)
        for trait, name in [("PartialOrd", "partial_cmp")] + ([("Ord", "cmp")] if full else []):
            for key, fn, eng, st, v, a, sides in self.paths(trait, name):
                rel, odd = self.relations(eng, st, a, sides)
                if any(not r for r in rel.values()):
                    continue
                sp.ob("compare", key, not odd, "%s compares two different fields, or a field with itself" % fn.path)
                got = "?"
                if isinstance(v, Adt) and v.path == OPT:
                    v = eng.expand(st, v.fields[0]) if v.vn == "Some" else "U"
                if v == "U":
                    got = "U"
                elif isinstance(v, Adt) and v.path == ORD:
                    got = v.vn[0]
                want = set()
                for n, _ in d.fields:
                    want |= rel[n] - {"E"}
                    if "E" not in rel[n]:
                        break
                else:
                    want.add("E")
                sp.ob("compare", key, want == {got}, "%s answers %s where the first fields that differ make it %s" % (
                    fn.path, {"U": "unordered", "?": "something that is not decided by the fields"}.get(got) or NAMES[got][0],
                    " or ".join({"U": "unordered"}.get(x) or NAMES[x][0] for x in sorted(want))))
        if full:
            for key, fn, eng, st, v, a, sides in self.paths("Hash", "hash"):
                fed = [self.field_of(eng, st, e[0], sides[:1]) for e in st.ev if isinstance(e, Hashed)]
                sp.ob("compare", key, fed == [(0, n) for n, _ in d.fields], "%s does not feed the fields to the hasher in the order of the schema" % fn.path)


def run(spec, d):
    if not has_enum(d):
        Compare(spec, d).run()
