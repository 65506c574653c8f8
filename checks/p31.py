"""What the format does not allow is not accepted silently."""
from sa import fe
from sa.absint import Adt, Ref, Sym, Tup, It, C, L, Stop, Budget, kv
from checks.p21 import World, scoped, trace

TECHNIQUE = "abstract interpretation of the front end: what every accepting path has established about the construct it accepts"
LEVEL = "proved-static"
RULE = (
    "Over every path of the functions of the translation crate that turn a parsed construct into its meaning: a path that ends without a report has established that the construct is one the format allows - "
    "(a) table fields: the type is a scalar, enum, struct, table, union or string, or a vector of one of these; a default was given as a literal of the field's type, a vector's default is empty; required fields are "
    "not scalar, have no default and are not null; an enum without a zero value has a default or is null or required; the slot numbers fit; (b) struct fields have fixed-size types and no default; (c) union variants are tables or structs, "
    "or named strings; (d) a literal is accepted only for a type of its own kind; (e) every attribute is examined, and accepted only in the places where it is supported; (f) forced alignments are powers of two and not below "
    "the natural one; (g) ids are given to all fields or none, once each, and without gaps or overlaps; (h) a struct that contains itself is reported; (i) sizes, offsets and slot numbers do not overflow."
)
TRUSTED = ["std and indexmap behave as documented", "the parser generated by lalrpop runs the actions of the grammar"]
IL = "planus_types::intermediate::"
AST = "planus_types::ast::"
OPT = "core::option::Option"
# where an attribute may stand: the ones planus documents as supported
PLACES = {"TableField": {"Required", "Deprecated", "Id", "ForceAlign"}, "Struct": {"ForceAlign"}, "StructField": set(), "Table": set(), "Enum": set(), "Union": set()}
FIELD_TYPES = ("Table", "Union", "String", "SimpleType")
LITERALS = {  # literal kind -> predicate over (type kind, simple kind)
    "Bool": lambda t, s: t == "SimpleType" and s == "Bool",
    "Integer": lambda t, s: t == "SimpleType" and s in ("Integer", "Float", "Enum"),
    "Float": lambda t, s: t == "SimpleType" and s == "Float",
    "String": lambda t, s: t == "String",
    "List": lambda t, s: t in ("Vector", "Array"),
    "Constant": lambda t, s: t == "SimpleType" and s == "Enum",
}
RESULT = {"Bool": "Bool", "Integer": "Int", "Float": "Float", "String": "String"}


def adts(t, out=None):
    out = set() if out is None else out
    if isinstance(t, tuple):
        if len(t) > 1 and t[0] == "adt" and isinstance(t[1], str):
            out.add(t[1])
        for x in t:
            adts(x, out)
    return out


class Look:
    """Reading structures of symbolic values."""

    def __init__(self, w):
        self.w, self.eng = w, w.eng

    def get(self, st, v, name):
        """The field `name` of a struct value (through references)."""
        eng = self.eng
        x = eng.peek(st, v)
        if isinstance(x, Adt):
            info = eng.adts.get(x.path)
            fs = info["variants"][x.vi]["fields"]
            for i, f in enumerate(fs):
                if f[0] == name:
                    return eng.peek(st, x.fields[i])
        if isinstance(x, Sym) and x.ty[0] == "adt" and x.ty[1] in eng.adts:
            info = eng.adts[x.ty[1]]
            if len(info["variants"]) == 1:
                for i, f in enumerate(info["variants"][0]["fields"]):
                    if f[0] == name:
                        return eng.peek(st, eng.proj(st, x, ("f", i, info["_crate"].ty(f[1]))))
        return None

    def vn(self, st, v):
        return None if v is None else fe.variant(self.eng, st, self.eng.peek(st, v))

    def maybe(self, st, v, name):
        """May the enum value still be this variant, as far as the path looked?"""
        x = self.eng.expand(st, self.eng.peek(st, v)) if v is not None else None
        n = self.vn(st, v)
        if n is not None or x is None:
            return n in (name, None)
        if isinstance(x, Sym) and x.ty[0] == "adt" and x.ty[1] in self.eng.adts:
            vs = [y[0] for y in self.eng.variants(x.ty) or ()]
            return name not in vs or vs.index(name) not in st.excl.get(x.key, ())
        return True

    def slots(self, st, type_):
        """Can a field of this type, as far as the path looked, need two slots?"""
        k = self.get(st, type_, "kind")
        if self.maybe(st, k, "Union"):
            return 2
        if self.maybe(st, k, "Vector"):
            if self.vn(st, k) != "Vector":
                return 2
            inner = self.unbox(st, self.part(st, k))
            if inner is None or self.maybe(st, self.get(st, inner, "kind"), "Union"):
                return 2
        return 1

    def part(self, st, v, i=0):
        x = self.eng.peek(st, v)
        if isinstance(x, (Adt, Tup)) and len(x.fields) > i:
            return self.eng.peek(st, x.fields[i])
        return None

    def kind(self, st, type_):
        """(type kind, simple kind, inner type) of a translated type."""
        k = self.get(st, type_, "kind")
        n = self.vn(st, k)
        if n == "SimpleType":
            return n, self.vn(st, self.part(st, k)), None
        if n in ("Vector", "Array"):
            return n, None, self.unbox(st, self.part(st, k))
        return n, None, None

    def unbox(self, st, v):
        eng = self.eng
        for _ in range(6):
            if v is None:
                return None
            v = eng.peek(st, v)
            if isinstance(v, Sym) and v.ty[:2] == ("adt", IL + "Type") or isinstance(v, Adt) and v.path == IL + "Type":
                return v
            if isinstance(v, It) and v.kind == "box":
                v = st.cells.get(v.f["cell"])
            elif isinstance(v, Adt) and v.fields:
                v = v.fields[0]
            else:
                break
        return v


def returns(c, what, option):
    """The functions of the translation module with this result."""
    out = []
    for f in c.fns:
        if not scoped(f) or f.kind == "closure" or "::intermediate_language::" not in f.path:
            continue
        t = c.ty(f.body["locals"][0])
        if option:
            if t[0] == "adt" and t[1] == OPT and t[2] and what(t[2][0]):
                out.append(f)
        elif what(t):
            out.append(f)
    return out


def params(c, f):
    return [c.ty(f.body["locals"][i + 1]) for i in range(f.body["argc"])]


def is_adt(p):
    return lambda t: t[0] == "adt" and t[1] == p


class P31:
    def __init__(self, store, rep):
        self.rep = rep
        self.w = w = World(store)
        self.eng = eng = w.eng
        eng.merge_above = 10 ** 6
        eng.max_paths = 40000
        self.lk = Look(w)
        self.c = w.c
        self.n = 0
        self.loops = []
        # helpers of the translation with loops are walked through
        self.arith = {}
        plain = eng.oblig

        def oblig(kind, fr, line, det, ok, msg, st=None):
            # sizes, offsets and slot numbers have 32 bits; counts of things in memory have 64
            if kind == "panic" and det in ("overflow Add", "overflow Mul", "overflow Shl") and "1844674407370955161" not in msg and "9223372036854775807" not in msg:
                a = self.arith.setdefault((fr.fn.path, det), [0, []])
                a[0] += 1
                if not ok:
                    a[1].append(msg)
            return plain(kind, fr, line, det, ok, msg, st)
        eng.oblig = oblig
        has = eng.has_loop
        eng.has_loop = lambda fn: has(fn) and not (scoped(fn) and "::intermediate_language::" in fn.path and fn.id not in w.contract and self.helper(fn))

    def helper(self, fn):
        t = self.c.ty(fn.body["locals"][0])
        return t == ("tuple", ()) or t[0] in ("bool", "int") or t[0] == "adt" and t[1] == OPT

    def reported(self, st, evs):
        return self.w.reported(st, evs)

    def run(self, f, metadata=None):
        """The paths of a function; loops over attributes are checked on the way."""
        eng, lk, rep = self.eng, self.lk, self.rep
        self.met = []

        def on_loop(fr, h, st, hs, backs):
            self.base = len(hs.ev)
            k = len(hs.ev)
            for b in backs:
                evs = b.ev[k:]
                for e in evs:
                    if e[0] == "item":
                        x = eng.peek(b, e[1])
                        if isinstance(x, Sym) and x.ty[:2] == ("adt", AST + "MetadataValue") or isinstance(x, Adt) and x.path == AST + "MetadataValue":
                            self.met.append((fr.fn, b, x, evs, f))
                            break
            self.extra(fr, h, st, hs, backs)

        eng.hooks["loop"] = on_loop
        try:
            return fe.paths(eng, f)
        except (Budget, Stop) as e:
            rep.fail("engine:" + f.path, "%s (%s): not analysable: %s" % (f.path, f.loc, e))
            return []
        finally:
            eng.hooks.pop("loop", None)

    def extra(self, fr, h, st, hs, backs):
        self.loops.append((fr.fn, h, st, hs, backs))

    # ------------------------------------------------------------ attributes
    def attributes(self, place, f, needed=True):
        rep, lk, eng = self.rep, self.lk, self.eng
        kinds = {}
        for fn, b, m, evs, _ in self.met:
            if place in ("Table", "Struct") and any(e[0] == "item" and self.about(b, e[1]) for e in b.ev):
                continue    # an attribute of one of the fields
            k = lk.vn(b, lk.get(b, m, "kind")) or "any kind"
            if not self.reported(b, evs):
                kinds.setdefault(k, fn)
        for k, fn in sorted(kinds.items()):
            rep.ob(k in PLACES[place], "attribute:%s:%s" % (place, k), "%s (%s): the attribute %s is passed over on a %s without an error" % (fn.path, fn.loc, k, place), "%s: the attribute %s is supported there" % (place, k))
        if needed:
            rep.ob(bool(self.met), "attributes:" + place, "%s (%s): the attributes of a %s are never looked at" % (f.path, f.loc, place), "%s: every attribute is looked at" % place)
        self.n += len(self.met)

    # ------------------------------------------------------------ table fields
    def table_field(self):
        rep, lk, eng, c = self.rep, self.lk, self.eng, self.c
        fs = [f for f in returns(c, is_adt(IL + "TableField"), True) if any(AST + "StructField" in adts(p) for p in params(c, f))]
        rep.floor("functions translating table fields", len(fs), 1)
        for f in fs:
            self.arith = {}
            ps = self.run(f)
            self.overflow(f)
            self.attributes("TableField", f)
            loop_required = all(self.required_ok(b, a_field(self, b, m)) for fn, b, m, evs, _ in self.met if lk.vn(b, lk.get(b, m, "kind")) == "Required" and not self.reported(b, evs))
            na = 0
            for st, v, args in ps:
                if fe.variant(eng, st, v) == "None" or self.reported(st, st.ev):
                    continue
                na += 1
                fld = field_arg(self, st, f, args)
                tf = lk.part(st, v)
                ty = lk.get(st, tf, "type_")
                k, s, inner = lk.kind(st, ty)
                ok = k in FIELD_TYPES
                if k == "Vector":
                    ik = lk.kind(st, inner)[0] if inner is not None else None
                    ok = ik in FIELD_TYPES
                    k = "Vector of %s" % ik
                rep.ob(ok, "field-type:%s" % k, "%s (%s) accepts a table field whose type is %s: %s" % (f.path, f.loc, k or "not looked at", trace(st)), "a table field may be a %s" % k)
                ix = lk.get(st, tf, "vtable_index")
                n = lk.slots(st, ty)
                rep.ob(isinstance(ix, L) and eng.entails(st, L({}, (65535 - 4) // 2) - ix - n), "slots", "%s (%s) accepts a field whose slots do not fit into a vtable: %s" % (f.path, f.loc, trace(st)), "the slots of an accepted field fit into a vtable")
                asg = lk.get(st, fld, "assignment") if fld is not None else None
                an = lk.vn(st, asg)
                lit = lk.part(st, asg) if an == "Some" else None
                null = an == "Some" and lk.vn(st, lk.get(st, lit, "kind")) == "Null"
                other = an == "Some" and self.not_null(st, lk.get(st, lit, "kind"))
                mode = lk.get(st, tf, "assign_mode")
                mn = lk.vn(st, mode)
                tag = "%s/%s" % (mn, "null" if null else "literal" if an == "Some" else "nothing" if an == "None" else "unknown")
                if mn == "HasDefault":
                    d = lk.part(st, mode)
                    good = self.from_literal(st, d, lit) if other else an == "None" and self.implied(st, d)
                    rep.ob(good, "default:%s" % tag, "%s (%s): the default of a field is not the one written in the schema: %s" % (f.path, f.loc, trace(st)), "the default is the translated literal")
                    if other and lk.vn(st, d) in ("Vector", None):
                        rep.ob(self.empty(st, d), "default:vector", "%s (%s) accepts a list with elements as the default of a vector: %s" % (f.path, f.loc, trace(st)), "a vector's default is empty")
                elif mn == "Optional":
                    rep.ob(null or an == "None", "optional:%s" % tag, "%s (%s): a field with a default becomes optional: %s" % (f.path, f.loc, trace(st)), "a field is optional when it is null or has no default")
                    if not null:
                        en = k == "SimpleType" and s in (None, "Enum")
                        rep.ob(not en, "optional:enum", "%s (%s) accepts an enum field without a default that is neither null nor required: %s" % (f.path, f.loc, trace(st)), "an enum without a default is null")
                elif mn == "Required":
                    rep.ob(an == "None", "required:%s" % tag, "%s (%s) accepts a required field with a default or null: %s" % (f.path, f.loc, trace(st)), "a required field has no default")
                    rep.ob(loop_required or self.nonscalar(st, ty), "required:scalar", "%s (%s) accepts 'required' on a scalar: %s" % (f.path, f.loc, trace(st)), "a required field is not a scalar")
                else:
                    rep.ob(False, "mode:%s" % mn, "%s (%s): presence of an accepted field not known: %s" % (f.path, f.loc, trace(st)))
            rep.floor("accepting paths of a table field", na, 40)

    def not_null(self, st, kind):
        n = self.lk.vn(st, kind)
        if n is not None:
            return n != "Null"
        return True     # not told apart: the literal was translated

    def required_ok(self, st, fld_ty):
        fld, ty = fld_ty
        lk = self.lk
        if ty is None or not self.nonscalar(st, ty):
            return False
        return True

    def nonscalar(self, st, ty):
        k, s, _ = self.lk.kind(st, ty)
        return k in ("Table", "Union", "Vector", "Array", "String") or k == "SimpleType" and s == "Struct"

    def from_literal(self, st, d, lit):
        """Is this value the result of translating that literal?"""
        eng = self.eng
        for e in fe.calls(st):
            if self.w.callee(e) in self.w.contract and any(kv(eng.peek(st, a)) == kv(lit) for a in e[2]):
                r = eng.peek(st, e[3])
                if isinstance(r, Adt) and r.vn == "Some" and kv(eng.peek(st, r.fields[0])) == kv(d):
                    return True
        return False

    def implied(self, st, d):
        return d is not None

    def empty(self, st, d):
        """Is this literal known not to be a list with elements?"""
        eng, lk = self.eng, self.lk
        n = lk.vn(st, d)
        if n is None:
            return False
        v = lk.part(st, d)
        ln = getattr(v, "f", {}).get("n") if v is not None else None
        return isinstance(ln, L) and eng.entails_eq(st, ln)

    def about(self, st, v, what=AST + "StructField"):
        x = self.eng.peek(st, v)
        if isinstance(x, Tup):
            return any(self.about(st, y, what) for y in x.fields)
        return isinstance(x, Sym) and x.ty[:2] == ("adt", what) or isinstance(x, Adt) and x.path == what

    # ------------------------------------------------------------ struct fields
    def struct_field(self):
        rep, lk, eng, c = self.rep, self.lk, self.eng, self.c
        fs = [f for f in self.makers(IL + "StructField") if any(AST + "StructField" in adts(p) for p in params(c, f))]
        rep.floor("functions translating struct fields", len(fs), 1)
        for f in fs:
            ps = self.run(f)
            self.attributes("StructField", f)
            na = 0
            for st, v, args in ps:
                if fe.variant(eng, st, v) == "None" or self.reported(st, st.ev):
                    continue
                na += 1
                fld = field_arg(self, st, f, args)
                an = lk.vn(st, lk.get(st, fld, "assignment")) if fld is not None else None
                rep.ob(an == "None", "struct-default", "%s (%s) accepts a struct field with a default: %s" % (f.path, f.loc, trace(st)), "a struct field has no default")
            rep.floor("accepting paths of a struct field", na, 1)

    def makers(self, p):
        """Functions whose result is (something with) such a value."""
        return [f for f in self.c.fns if scoped(f) and f.kind != "closure" and "::intermediate_language::" in f.path and p in adts(self.c.ty(f.body["locals"][0]))]

    # ------------------------------------------------------------ whole declarations
    def declaration(self, what, ast, judge=None):
        rep, lk, eng, c = self.rep, self.lk, self.eng, self.c
        fs = [f for f in self.makers(IL + what) if any(AST + ast in adts(p) for p in params(c, f)) and not any(AST + "Declaration" in adts(p) for p in params(c, f))]
        rep.floor("functions translating a " + what.lower(), len(fs), 1)
        for f in fs:
            self.loops = []
            ps = self.run(f)
            self.attributes(what, f)
            if judge:
                judge(f, ps)

    def union(self, f, ps):
        rep, lk, eng = self.rep, self.lk, self.eng
        n = 0
        for fn, h, st, hs, backs in self.loops:
            for b in backs:
                evs = b.ev[len(hs.ev):]
                it = [eng.peek(b, e[1]) for e in evs if e[0] == "item"]
                it = [x for x in it if (x.ty if isinstance(x, Sym) else ("adt", getattr(x, "path", None)))[:2] == ("adt", AST + "UnionVariant")]
                if not it or self.reported(b, evs):
                    continue
                n += 1
                ty = a_field(self, b, None, evs)[1]
                k, s, _ = lk.kind(b, ty) if ty is not None else (None, None, None)
                k = "SimpleType::%s" % s if k == "SimpleType" else k
                ok = k in ("Table", "SimpleType::Struct") or k == "String" and lk.vn(b, lk.get(b, it[0], "ident")) == "Some"
                rep.ob(ok, "variant:%s" % k, "%s (%s) accepts a union variant that is a %s%s: %s" % (fn.path, fn.loc, k or "type it does not look at", " without a name" if k == "String" else "", trace(b, evs)), "a union variant may be a %s" % k)
        rep.floor("accepting iterations over the variants of a union", n, 3)

    # ------------------------------------------------------------ literals
    def literal(self):
        rep, lk, eng, c = self.rep, self.lk, self.eng, self.c
        fs = [f for f in returns(c, is_adt(IL + "Literal"), True) if any(AST + "Literal" in adts(p) for p in params(c, f))]
        rep.floor("functions translating literals", len(fs), 1)
        for f in fs:
            na = 0
            for st, v, args in self.run(f):
                if fe.variant(eng, st, v) == "None" or self.reported(st, st.ev):
                    continue
                na += 1
                lit = ty = None
                for a in args:
                    x = eng.peek(st, a)
                    t = x.ty if isinstance(x, Sym) else ("adt", x.path) if isinstance(x, Adt) else ()
                    if t[:2] == ("adt", AST + "Literal"):
                        lit = x
                    elif t[:2] == ("adt", IL + "Type"):
                        ty = x
                lkd = lk.get(st, lit, "kind") if lit is not None else None
                ln = lk.vn(st, lkd)
                k, s, _ = lk.kind(st, ty) if ty is not None else (None, None, None)
                ok = ln in LITERALS and LITERALS[ln](k, s)
                rep.ob(ok, "literal:%s:%s" % (ln, s or k), "%s (%s) accepts a literal of kind %s for a field of type %s: %s" % (f.path, f.loc, ln or "it does not look at", s or k or "it does not look at", trace(st)), "a literal %s may stand for a %s" % (ln, s or k))
                r = lk.part(st, v)
                rn = lk.vn(st, r)
                want = {"Bool": "Bool", "Integer": "Int", "Float": "Float", "Enum": "EnumTag"}.get(s) or {"String": "String", "Vector": "Vector", "Array": "Array"}.get(k)
                rep.ob(rn == want, "translated:%s:%s" % (ln, s or k), "%s (%s) gives a %s for a field of type %s" % (f.path, f.loc, rn, s or k), "the value of a %s is a %s" % (s or k, want))
                if ln == "Bool" and ok:
                    x, y = lk.part(st, r), lk.part(st, lkd)
                    rep.ob(kv(x) == kv(y), "bool-value", "%s (%s) does not keep the value of a boolean" % (f.path, f.loc), "the boolean is kept")
            rep.floor("accepting paths of a literal", na, 8)

    # ------------------------------------------------------------ alignments
    def alignment(self):
        rep, lk, eng, c = self.rep, self.lk, self.eng, self.c
        fs = [f for f in returns(c, lambda t: t[0] == "int", True) if any(AST + "IntegerLiteral" in adts(p) for p in params(c, f))]
        rep.floor("functions translating alignments", len(fs), 1)
        self.aligners = {f.id for f in fs}
        for f in fs:
            n = 0
            for st, v, args in self.run(f):
                if fe.variant(eng, st, v) == "None" or self.reported(st, st.ev):
                    continue
                n += 1
                x = lk.part(st, v)
                ok = isinstance(x, L) and self.pow2(st, x)
                rep.ob(ok, "align:pow2", "%s (%s) accepts an alignment that need not be a power of two" % (f.path, f.loc), "an accepted alignment is a power of two")
                src = [e for e in fe.calls(st) if self.w.callee(e) in self.w.contract and isinstance(eng.peek(st, e[3]), Adt) and kv(eng.peek(st, eng.peek(st, e[3]).fields[0])) == kv(x)]
                rep.ob(bool(src), "align:value", "%s (%s): the alignment is not the number written" % (f.path, f.loc), "an accepted alignment is the number written")
            rep.floor("accepting paths of an alignment", n, 1)

    def pow2(self, st, x):
        if st.facts.get(("pow2", x.key)):
            return True
        ones = [k for k in self.eng.A.tab if isinstance(k, tuple) and str(k[0]).rsplit("::", 1)[-1] == "count_ones" and k[1:] == (kv(x),)]
        return any(self.eng.entails_eq(st, self.eng.A.get(k) - 1) for k in ones)

    # ------------------------------------------------------------ sizes
    def sizes(self):
        rep, lk, eng, c = self.rep, self.lk, self.eng, self.c
        fs = [f for f in c.fns if scoped(f) and f.kind != "closure" and "::intermediate_language::" in f.path and any(cal.get("id") in self.aligners or cal.get("rid") in self.aligners for _, cal, *_ in f.calls())
              and not any(AST + "StructField" in adts(p) for p in params(c, f))]
        rep.floor("functions that give structs their alignment", len(fs), 1)
        for f in fs:
            self.met, self.loops = [], []
            self.arith = {}
            ps = self.run(f)
            self.overflow(f)
            nf = ns = 0
            for fn, h, st, hs, backs in self.loops:
                for b in backs:
                    evs = b.ev[len(hs.ev):]
                    if self.reported(b, evs):
                        continue
                    al = [eng.peek(b, e[3]) for e in evs if e[0] == "call" and self.w.callee(e) in self.aligners]
                    al = [lk.part(b, x) for x in al if isinstance(x, Adt) and x.vn == "Some"]
                    for v in al:
                        nf += 1
                        ok = False
                        for k, x in hs.cells.items():
                            x, y = eng.expand(hs, x), eng.expand(b, b.cells.get(k)) if k in b.cells else None
                            if isinstance(x, L) and isinstance(y, L) and isinstance(v, L) and y == v and x != y and eng.entails(b, v - x):
                                ok = True
                        rep.ob(ok, "force:struct", "%s (%s): a forced alignment is accepted without being at least the natural one, or has no effect: %s" % (fn.path, fn.loc, trace(b, evs)),
                               "an accepted alignment of a struct is at least the natural one and takes effect")
                    # one more field of the struct: sizes only grow, or they have wrapped around
                    if any(e[0] == "assign" and e[2] and e[2][-1][0] == "f" and self.fname(IL + "StructField", e[2][-1][1]) in ("offset", "size") for e in evs):
                        ns += 1
                        grow = []
                        for k, x in hs.cells.items():
                            x, y = eng.expand(hs, x), eng.expand(b, b.cells[k]) if k in b.cells else None
                            if k[0] != "h" and isinstance(x, L) and isinstance(y, L) and x != y and len(y.t) + (y.c != 0) > 1:
                                grow.append(eng.entails(b, y - x))
                        rep.ob(bool(grow) and all(grow), "size:struct", "%s (%s): the size of a struct may wrap around: %s" % (fn.path, fn.loc, trace(b, evs)), "the size of a struct only grows")
            rep.floor("accepted alignments of structs", nf, 1)
            rep.floor("kinds of struct field that get an offset", ns, 10)
            for st, v, args in ps:
                rec = [i for i, e in enumerate(st.ev) if e[0] == "call" and self.w.callee(e) == f.id]
                if self.occupied(st) and not self.reported(st, st.ev):
                    rep.ob(False, "recursion:struct", "%s (%s): a struct met inside itself is not reported: %s" % (f.path, f.loc, trace(st)))
            guarded = 0
            for fn, h, st, hs, backs in self.loops:
                for b in backs:
                    rec = [i for i, e in enumerate(b.ev) if e[0] == "call" and self.w.callee(e) == f.id]
                    if rec:
                        guarded += 1
                        names = [fe.name(e).rsplit("::", 1)[-1] for e in b.ev[:rec[0]] if e[0] == "call"]
                        rep.ob("insert" in names or "insert_full" in names or "push" in names or any(e[0] == "push" for e in b.ev[:rec[0]]), "recursion:guard", "%s (%s) descends into a struct without having noted the struct it comes from" % (f.path, f.loc), "the structs around are noted before descending")
            rep.floor("descents into inner structs", guarded, 1)

    def overflow(self, f):
        for (p, det), v in sorted(self.arith.items()):
            self.rep.ob(not v[1], "overflow:%s:%s" % (p, det), "%s: %s of a size may overflow: %s" % (p, det.split(" ")[1].lower(), v[1] and v[1][0]), "%s: %d additions and products of sizes cannot overflow" % (p, v[0]))

    def holder(self, st, cell, path):
        """The type of the struct a field is assigned in."""
        t = self.eng.peek(st, Ref(cell, tuple(path[:-1])))
        return t.path if isinstance(t, Adt) else t.ty[1] if isinstance(t, Sym) and len(t.ty) > 1 and t.ty[0] == "adt" else None

    def fname(self, adt, i):
        fs = self.eng.adts[adt]["variants"][0]["fields"]
        return fs[i][0] if i < len(fs) else None

    def occupied(self, st):
        """Did an entry turn out to be taken on this path?"""
        for e in st.ev:
            if e[0] == "call" and fe.name(e).rsplit("::", 1)[-1] == "entry":
                nxt = [x for x in st.ev[st.ev.index(e) + 1:] if x[0] == "call"]
                if fe.variant(self.eng, st, e[3]) == "Occupied":
                    return True
        return any(isinstance(x, Adt) and x.vn == "Occupied" for x in st.exp.values())

    def tables(self):
        rep, lk, eng, c = self.rep, self.lk, self.eng, self.c
        fs = [f for f in c.fns if scoped(f) and f.kind != "closure" and "::intermediate_language::" in f.path and self.assigns(f, IL + "TableField", "object_alignment")]
        rep.floor("functions that lay out tables", len(fs), 1)
        for f in fs:
            self.met, self.loops = [], []
            self.arith = {}
            self.run(f)
            self.overflow(f)
            nf = nt = 0
            for fn, h, st, hs, backs in self.loops:
                for b in backs:
                    evs = b.ev[len(hs.ev):]
                    if self.reported(b, evs):
                        continue
                    done = set()
                    for e in evs:
                        if e[0] != "assign" or not e[2] or e[2][-1][0] != "f":
                            continue
                        p, where = self.holder(b, e[1], e[2]), Ref(e[1], tuple(e[2][:-1]))
                        if (p, kv(where)) in done:
                            continue
                        done.add((p, kv(where)))
                        if p == IL + "TableField":
                            fa = lk.get(b, where, "forced_alignment")
                            if lk.vn(b, fa) == "None":
                                continue
                            nf += 1
                            v, al = lk.part(b, lk.part(b, fa)) if lk.vn(b, fa) else None, lk.get(b, where, "object_alignment")
                            ok = isinstance(v, L) and isinstance(al, L) and eng.entails(b, v - al)
                            rep.ob(ok, "force:table", "%s (%s): a forced alignment of a table field is accepted without being at least the natural one: %s" % (fn.path, fn.loc, trace(b, evs)), "an accepted alignment of a table field is at least the natural one")
                        elif p == IL + "Table" and self.fname(p, e[2][-1][1]) == "max_size":
                            nt += 1
                            m = lk.get(b, where, "max_size")
                            rep.ob(isinstance(m, L) and eng.entails(b, L({}, 65535) - m), "size:table", "%s (%s): a table whose fields need more than 65535 bytes is accepted: %s" % (fn.path, fn.loc, trace(b, evs)), "the fields of an accepted table fit into 65535 bytes")
            rep.floor("kinds of table field with a forced alignment", nf, 8)
            rep.floor("accepted tables", nt, 1)

    def assigns(self, f, adt, name):
        if f.path.endswith("::drop"):
            return False
        idx = [i for i, x in enumerate(self.eng.adts[adt]["variants"][0]["fields"]) if x[0] == name]
        for st, t, cl in f.blocks():
            for s in st:
                if s[0] == "=" and len(s[1]) > 1 and s[1][-1][0] == "f" and s[1][-1][1] in idx and self.base_adt(f, s[1]) == adt:
                    return True
        return False

    def base_adt(self, f, pl):
        t = f.crate.ty(f.body["locals"][pl[0]])
        for p in pl[1:-1]:
            if p == "*":
                t = t[1] if t[0] in ("ref", "ptr") else t
            elif p[0] == "f":
                t = f.crate.ty(p[2])
        return t[1] if t[0] == "adt" else None

    # ------------------------------------------------------------ ids
    def ids(self):
        rep, lk, eng, c, w = self.rep, self.lk, self.eng, self.c, self.w
        fs = [f for f in self.makers(IL + "Table") if any(AST + "Struct" in adts(p) for p in params(c, f)) and not any(AST + "Declaration" in adts(p) for p in params(c, f))]
        for f in fs:
            self.met, self.loops = [], []
            ps = self.run(f)
            seen = {"twice": 0, "mixed": 0, "overlap": 0, "gap": 0}
            cur, mixed = set(), {}
            flag = lambda st: any(x is True and isinstance(k, tuple) and k[0] == "b" and str(k[1]).startswith("h") for k, x in st.facts.items())
            for fn, h, st, hs, backs in self.loops:
                for b in backs:
                    evs = b.ev[len(hs.ev):]
                    rp = self.reported(b, evs)
                    for k, v in b.cells.items():
                        y = eng.expand(b, v)
                        if k in hs.cells and isinstance(y, C) and y.op == "const" and y.a is True and kv(hs.cells[k]) != kv(v) and isinstance(eng.expand(hs, hs.cells[k]), C) and eng.expand(hs, hs.cells[k]).op == "op" and not rp:
                            # a flag raised without a report must not silence the checks
                            self.raised = getattr(self, "raised", set()) | {k}
                    if rp:
                        continue
                    items = [e[1] for e in evs if e[0] == "item"]
                    if not items:
                        continue
                    it = eng.peek(b, items[0])
                    if self.about(b, it, AST + "MetadataValue"):
                        if lk.vn(b, lk.get(b, it, "kind")) == "Id" and any(e[0] == "item" and self.about(b, e[1]) for e in b.ev):
                            ok = False
                            for k, x in hs.cells.items():
                                if k in b.cells and isinstance(x, Sym) and fe.variant(eng, b, x) == "None" and fe.variant(eng, b, b.cells[k]) == "Some":
                                    ok = True
                                    cur.add(k)
                                elif k in b.cells and isinstance(x, C) and x.op == "op" and b.facts.get(x.a) is False and isinstance(b.cells[k], C) and b.cells[k].op == "const" and b.cells[k].a is True:
                                    ok = True
                                    cur.add(k)
                            seen["twice"] += 1
                            rep.ob(ok, "id:twice", "%s (%s): a second id of the same field is accepted: %s" % (fn.path, fn.loc, trace(b, evs)), "a field has one id")
                    elif self.about(b, it):
                        ch = frozenset(k for k, x in hs.cells.items() if k in b.cells and kv(x) != kv(b.cells[k]) and isinstance(x, (Sym, C)) and not isinstance(k[0], str) and k not in cur)
                        mixed.setdefault(ch, []).append((hs, b))
                    elif self.about(b, it, IL + "TableField"):
                        self.overlap(fn, b, evs, it, seen, flag)
                    else:
                        self.gap(fn, st, hs, b, evs, items[0], seen, flag)
            # fields with and without ids
            outs = [ch for ch in mixed if ch]
            if len(outs) >= 2:
                cells = set().union(*outs)
                for st, v, a in ps:
                    if self.reported(st, st.ev):
                        continue
                    seen["mixed"] += 1
                    ok = False
                    for l in mixed.values():
                        hs = l[0][0]
                        for k in cells:
                            x = hs.cells.get(k)
                            if isinstance(x, Sym) and fe.variant(eng, st, x) == "None" or isinstance(x, C) and x.op == "op" and st.facts.get(x.a) is False:
                                ok = True
                    rep.ob(ok, "id:mixed", "%s (%s): a table is accepted of which only some fields have an id" % (f.path, f.loc), "either all fields have an id or none")
            sites = self.emit_sites(f)
            rep.cov["reports in " + f.path.rsplit("::", 1)[-1]] = sites
            missing = [k for k, n in seen.items() if not n]
            rep.ob(not missing or sites >= 5, "id:" + "+".join(missing), "%s (%s): nothing rejects ids that are %s" % (f.path, f.loc, ", ".join(missing)), "ids given twice, to some fields only, overlapping or with gaps are looked for")
            rep.cov["id checks"] = dict(seen)

    def emit_sites(self, f):
        todo, seen, n = [f], set(), 0
        while todo:
            g = todo.pop()
            if g.id in seen:
                continue
            seen.add(g.id)
            n += sum(1 for _, cal, *_ in g.calls() if {cal.get("id"), cal.get("rid")} & self.w.emit)
            todo += [x for x in fe.local_callees(self.c, g) if x.id not in self.w.contract and x.id not in self.w.emit and "::intermediate_language::" in x.path]
        return n

    def overlap(self, fn, b, evs, it, seen, flag):
        rep, lk, eng = self.rep, self.lk, self.eng
        calls = [e for e in evs if e[0] == "call"]
        keys, bad = [], False
        for i, e in enumerate(calls):
            n = fe.name(e).rsplit("::", 1)[-1]
            if n == "entry" and len(e[2]) > 1:
                nxt = fe.name(calls[i + 1]).rsplit("::", 1)[-1] if i + 1 < len(calls) else ""
                keys.append(eng.peek(b, e[2][1]))
                bad |= nxt not in ("insert", "insert_entry")
            elif n == "insert" and len(e[2]) > 1 and "Map" in fe.name(e) + ty_of(e) and "entry" not in fe.name(e).lower():
                keys.append(eng.peek(b, e[2][1]))
                bad |= fe.variant(eng, b, e[3]) != "None"
            elif n == "insert" and "Set" in fe.name(e):
                keys.append(eng.peek(b, e[2][1]))
                r = eng.expand(b, e[3])
                bad |= not (isinstance(r, C) and (r.a is True or b.facts.get(r.a) is True))
        if not keys:
            return
        seen["overlap"] += 1
        ix = lk.get(b, it, "vtable_index")
        ok = not bad or flag(b)
        rep.ob(ok, "id:overlap", "%s (%s): a slot that is already taken is accepted: %s" % (fn.path, fn.loc, trace(b, evs)), "a slot is taken once")
        if not bad:
            k, s, inner = lk.kind(b, lk.get(b, it, "type_"))
            want = [ix, ix + 1] if lk.slots(b, lk.get(b, it, "type_")) == 2 else [ix]
            got = [x for x in keys if isinstance(x, L)]
            rep.ob(all(any(x == y for y in got) for x in want), "id:slots", "%s (%s): of the slots of a field of type %s only %d are looked at" % (fn.path, fn.loc, k, len(got)), "every slot of a field is looked at")

    def gap(self, fn, st, hs, b, evs, item, seen, flag):
        rep, eng = self.rep, self.eng
        x = eng.peek(b, item)
        vals = [eng.peek(b, y) for y in x.fields] if isinstance(x, Tup) else [x]
        vals = [v for v in vals if isinstance(v, L)]
        if not vals or len(vals) != 1 and not isinstance(x, Tup):
            return
        ok = flag(b)
        found = False
        if len(vals) == 2:
            found, ok = True, ok or eng.entails_eq(b, vals[0] - vals[1])
        else:
            for k, old in hs.cells.items():
                old = eng.expand(hs, old)
                new = eng.expand(b, b.cells[k]) if k in b.cells else None
                if isinstance(old, L) and isinstance(new, L) and (new == vals[0] + 1 or new == old + 1):
                    found = True
                    ok = ok or eng.entails_eq(b, vals[0] - old)
                    first = eng.expand(st, st.cells.get(k)) if k in st.cells else None
                    rep.ob(isinstance(first, L) and first == L({}, 0), "id:first", "%s (%s): the first id is not 0" % (fn.path, fn.loc), "the first id is 0")
        if found:
            seen["gap"] += 1
            rep.ob(ok, "id:gap", "%s (%s): ids with a gap are accepted: %s" % (fn.path, fn.loc, trace(b, evs)), "ids have no gaps")


def ty_of(e):
    return str(e[1].get("a") or "")


def field_arg(p, st, f, args):
    """The parsed field among the arguments."""
    for a in args:
        x = p.eng.peek(st, a)
        t = x.ty if isinstance(x, Sym) else ("adt", x.path) if isinstance(x, Adt) else ()
        if t[:2] == ("adt", AST + "StructField"):
            return x
    return None


def a_field(p, st, m, evs=None):
    """(None, type) the attribute loop is about: the translated type on this path."""
    for e in (fe.calls(st) if evs is None else [e for e in evs if e[0] == "call"]):
        if p.w.callee(e) in p.w.contract:
            r = p.eng.peek(st, e[3])
            if isinstance(r, Adt) and r.vn == "Some":
                x = p.eng.peek(st, r.fields[0])
                if isinstance(x, Adt) and x.path == IL + "Type" or isinstance(x, Sym) and x.ty[:2] == ("adt", IL + "Type"):
                    return None, x
    return None, None


def check(store, rep):
    p = P31(store, rep)
    p.table_field()
    p.struct_field()
    p.declaration("Struct", "Struct")
    p.declaration("Table", "Struct")
    p.declaration("Enum", "Enum")
    p.declaration("Union", "Union", p.union)
    p.literal()
    p.alignment()
    p.sizes()
    p.tables()
    p.ids()
