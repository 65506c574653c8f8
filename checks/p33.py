"""Numbers written in a schema keep their exact value."""
from sa import fe, gcheck, models, witness
from sa.absint import Adt, C, L, Sl, State, Stop, Budget, Sym, It, Term, kv, const
from checks import p21

TECHNIQUE = "abstract interpretation of the literal conversions (loop transfer functions, linear arithmetic) and of the code generated for witness schemas of literals"
LEVEL = "proved-static"
RULE = (
    "(a) Every function of the translation crate that turns the text of an integer into a number, at each of the eight integer types: an iteration of its loop over the characters leaves the accumulator unchanged on a separator, or "
    "sets it to base * accumulator plus or minus exactly the value of the digit, for every character the path admits (decided for all 256 bytes); base is 16 and the scan starts after the prefix exactly on the paths on which the text starts with 0x; "
    "the sign is subtracted exactly on the negative paths; what is returned is the accumulator, after the loop ran out of characters; nothing is rejected unless the character is no digit or the value is out of the type's range; "
    "the variant returned is that of the declared type. (b) A float is what std parses, at the declared width, from the text without separators, negated exactly when negative, and an overflow to infinity is rejected. "
    "(c) The successor of an enum value is value + 1 of the same variant, and nothing at the maximum. (d) Signs are handed on unchanged. (e) The numbers the compiler generates for witness schemas of literal forms and extremes "
    "(defaults, enum values, ids, alignments) are the ones the schema model works out."
)
TRUSTED = ["std's float parsing is correctly rounded"] + gcheck.TRUSTED
INT = {"U8": "u8", "I8": "i8", "U16": "u16", "I16": "i16", "U32": "u32", "I32": "i32", "U64": "u64", "I64": "i64"}
PREFIX = (("str", "0x"), ("mem", "[[48, 120]]"))
LIT = ("IntegerLiteral", "FloatLiteral")
DIGIT = {**{48 + i: i for i in range(10)}, **{97 + i: 10 + i for i in range(6)}, **{65 + i: 10 + i for i in range(6)}}
HEX = ("b", "text starts with 0x")


class Num(fe.Front):
    """Also knows the arithmetic traits of num_traits at concrete types, and tests for the prefix of hexadecimal numbers."""

    def has_loop(self, fn):
        return False

    def call_path(self, fr, st, callee, cargs, vals, span, dty):
        n = callee.get("f") or ""
        op = n.rsplit("::", 1)[-1]
        if n.startswith("num_traits::"):
            t = cargs[0] if cargs else None
            if t and t[0] == "int":
                lo, hi = models.RANGES[t[1]]
                if op in ("checked_add", "checked_sub", "checked_mul"):
                    v = [models.deref(self, st, self.expand(st, x)) for x in vals]
                    return models.M[models.INT % (t[1], op)](self, fr, st, {"f": op}, [], v, span, dty)
                if op in ("from", "to_" + t[1]) or n.endswith("cast::cast"):
                    if n.endswith("cast::cast"):
                        t = cargs[1]
                        lo, hi = models.RANGES[t[1]]
                    x = self.as_int(st, vals[0])
                    y, nn = self.branch(st, C("and", C("ge", x - const(lo)), C("ge", const(hi) - x)))
                    return [(s, models.some(x, models.targs(dty))) for s in y] + [(s, models.none(models.targs(dty))) for s in nn]
                if op in ("zero", "one", "min_value", "max_value"):
                    return [(st, const({"zero": 0, "one": 1, "min_value": lo, "max_value": hi}[op]))]
        if op in ("starts_with", "strip_prefix") and len(vals) == 2 and n.startswith("core::"):
            a, b = (self.peek(st, x) for x in vals)
            if isinstance(a, Sl) and isinstance(b, Sl) and b.region in PREFIX and kv(a.start) == kv(const(0)) and isinstance(a.region, str):
                c = C("op", HEX)
                if op == "starts_with":
                    return [(st, c)]
                y, nn = self.branch(st, c)
                return [(s, models.some(Sl(a.region, const(2), a.n - const(2), a.ety, a.esz, a.kind), models.targs(dty))) for s in y] + [(s, models.none(models.targs(dty))) for s in nn]
        if op in ("to_digit", "is_ascii_digit", "is_ascii_hexdigit") and n.startswith("core::"):
            r = self.digit(st, op, vals, dty)
            if r is not None:
                return r
        return super().call_path(fr, st, callee, cargs, vals, span, dty)

    def digit(self, st, op, vals, dty):
        c = self.peek(st, vals[0])
        radix = {"is_ascii_digit": 10, "is_ascii_hexdigit": 16}.get(op)
        if radix is None:
            r = self.expand(st, vals[1])
            radix = r.c if isinstance(r, L) and not r.t else None
        if not isinstance(c, L) or radix not in (10, 16):
            return None
        out, rest = [], [st]
        for lo, hi, off in ((48, 57, 48), (97, 102, 87), (65, 70, 55)):
            if lo != 48 and radix == 10:
                continue
            nxt = []
            for s in rest:
                y, nn = self.branch(s, C("and", C("ge", c - const(lo)), C("ge", const(hi) - c)))
                for q in y:
                    out.append((q, models.some(c - const(off), models.targs(dty)) if op == "to_digit" else C("const", True)))
                nxt += nn
            rest = nxt
        return out + [(s, models.none(models.targs(dty)) if op == "to_digit" else C("const", False)) for s in rest]


def lin_parts(x):
    return x.c, dict(x.t)


def check(store, rep):
    w = p21.World(store)
    types = store.crate("planus_types")
    eng = Num([w.c, types], opaque=lambda fn: fn.id in w.emit)
    eng.max_paths = 20000
    eng.merge_above = 10**6
    integers(w, eng, types, rep)
    floats(w, eng, rep)
    successor(store, types, rep)
    signs(w, store, rep)
    gcheck.run(store, rep, ("default", "number", "slot", "readtype", "struct", "presence"), {"default": 40, "number": 40, "slot": 60}, [("numbers", witness.numbers)])


def returned(t, f):
    """Literal types (or "int") in what a function may return."""
    if t[0] != "adt" or t[1] not in ("core::option::Option", "core::result::Result") or not t[2]:
        return None
    x = t[2][0]
    if x[0] == "adt" and x[1].rsplit("::", 1)[-1] in LIT and x[1].startswith("planus_types::intermediate"):
        return x[1].rsplit("::", 1)[1]
    if x[0] == "int" and t[1].endswith("Result"):
        return x[1]
    return None


def text_arg(f, t):
    return t == ("ref", ("str",), False) or t[0] == "ref" and t[1][0] == "str" or t[0] == "ref" and t[1][0] == "adt" and t[1][1] == "planus_types::ast::IntegerLiteral"


def converters(w):
    for f in w.c.fns:
        if not f.body or f.kind == "closure" or f.generics and any(g for g in f.generics if not g.startswith("'")):
            continue
        ps = [f.crate.ty(f.body["locals"][i + 1]) for i in range(f.body["argc"])]
        r = returned(f.crate.ty(f.body["locals"][0]), f)
        if r and any(text_arg(f, p) for p in ps):
            yield f, r, ps


def sign(eng, st, atom):
    return st.facts.get(atom)


def sign_atom(f, ps, args, eng, st):
    """The boolean that says whether the number is negative."""
    for p, a in zip(ps, args):
        if p[0] == "bool":
            a = eng.expand(st, a)
            return a.a if isinstance(a, C) and a.op == "op" else None
    for p, a in zip(ps, args):
        if p[0] == "ref" and p[1][0] == "adt":
            v = eng.peek(st, a)
            for n, x in fields(eng, st, v, a):
                if n == "is_negative":
                    x = eng.expand(st, x)
                    return x.a if isinstance(x, C) and x.op == "op" else None
    return None


def fields(eng, st, v, a):
    ad = eng.adts.get("planus_types::ast::IntegerLiteral")
    for i, x in enumerate(ad["variants"][0]["fields"]):
        yield x[0], eng.proj(st, v, ("f", i, ad["_crate"].ty(x[1]))) if not isinstance(v, Adt) else v.fields[i]


# ------------------------------------------------------------------ (a)
def integers(w, eng, types, rep):
    nloops = nret = nrej = nf = other = 0
    for f, r, ps in converters(w):
        if r == "FloatLiteral":
            continue
        seen, src = {}, {}

        def on_loop(fr, h, s0, hs, backs):
            for k, v in hs.cells.items():
                if k[0] != fr.fid or not isinstance(k[1], int) or k not in s0.cells:
                    continue
                x, a0 = eng.expand(hs, v), eng.expand(s0, s0.cells[k])
                if not (isinstance(x, L) and len(x.t) == 1 and isinstance(a0, L) and not a0.t) or kv(x) == kv(a0):
                    continue
                seen[kv(x)] = (fr, h, s0, hs, backs, k, x, a0)

        def on_leave(fr, h, bb, nb, ns):
            if (bb, nb) not in p21.exhausted(w, fr.fn, h) and not past(ns, fr):
                ns.exp[("left", fr.fid, h)] = True

        def past(ns, fr):
            """Is some index past the end of the text?"""
            for k in [k for k in ns.cells if k[0] == fr.fid]:
                x = eng.expand(ns, ns.cells[k])
                if isinstance(x, L) and x.t and any(not set(x.t) & set(sl.n.t) and eng.entails(ns, x - sl.n) for sl in slices(eng, ns, fr)):
                    return True
            return False

        eng.hooks["loop"] = on_loop
        eng.hooks["leave"] = on_leave
        st = State()
        eng.root = f
        eng.steps = 0
        args = fe.args_of(eng, st, f)
        neg = sign_atom(f, ps, args, eng, st)
        try:
            outs = [(s, eng.expand(s, v)) for s, v in eng.run(f, {}, args, st)]
        except (Budget, Stop) as e:
            rep.fail("engine:" + f.path, "%s (%s): not analysable: %s" % (f.path, f.loc, e))
            continue
        finally:
            eng.hooks.clear()
        done = {}
        nf += 1
        for s, v in outs:
            if not isinstance(v, Adt) or v.vn not in ("Some", "Ok"):
                continue
            p = eng.expand(s, v.fields[0])
            vn = None
            if isinstance(p, Adt):
                vn, p = p.vn, eng.expand(s, p.fields[0])
            nret += 1
            t = INT.get(vn, r)
            at = "%s as %s" % (f.path, t)
            d = seen.get(kv(p)) if isinstance(p, L) else None
            if vn:
                want = declared(eng, s, args)
                rep.ob(want is None or want.upper() == vn.upper(), "variant:%s:%s" % (f.path, want), "%s (%s) turns a literal of the declared type %s into %s" % (f.path, f.loc, want, vn), "%s: %s becomes %s" % (f.path, want, vn))
            if d is None and not seen:
                other += 1  # no loop over the characters: only the witness schemas decide this one
                continue
            if d is None:
                rep.ob(False, "value:" + at, "%s (%s): what it returns is not the value its loop accumulates digit by digit: %r" % (f.path, f.loc, p))
                continue
            rep.ob(not any(isinstance(k, tuple) and k[:1] == ("left",) and k[1:3] == (d[0].fid, d[1]) for k in s.exp), "all:" + at,
                   "%s (%s) returns a number although characters are left over" % (f.path, f.loc), "%s: a number is returned only after the last character" % at)
            key = (kv(p), t)
            if key not in done:
                nloops += 1
                # either the loop counts in the direction of the sign, or whoever uses its result has to see to the sign
                by_sign, plain = Quiet(), Quiet()
                scan(by_sign, eng, f, at, t, d, neg)
                if neg is not None and not by_sign.clean():
                    scan(plain, eng, f, at, t, d, None)
                done[key] = mag = plain.got and plain.clean()
                (plain if mag else by_sign).replay(rep)
            if done[key]:
                rep.ob(sign(eng, s, neg) is False or eng.entails(s, -p), "sign:" + at, "%s (%s) returns a positive number for a negative literal" % (f.path, f.loc), "%s: no negative number comes out positive" % at)
        for s, v in outs:
            if isinstance(v, Adt) and v.vn in ("Some", "Ok"):
                continue
            if isinstance(v, Adt) and v.vn in ("None", "Err"):
                nrej += 1
    rep.floor("functions that read integers", nf, 2)
    rep.floor("digit loops (per type and base) or paths decided by witnesses alone", nloops + other, 18 if not other else 9)
    rep.cov["paths decided by the witness schemas alone"] = other
    rep.floor("paths that return an integer", nret, 18)
    rep.cov["paths that reject an integer"] = nrej


class Quiet:
    """Obligations kept back until it is known that they are wanted."""

    def __init__(self):
        self.got = []

    def ob(self, *a):
        self.got.append(a)

    def fail(self, key, text):
        self.got.append((False, key, text))

    def clean(self):
        return all(a[0] for a in self.got)

    def replay(self, rep):
        for a in self.got:
            rep.ob(*a)


def declared(eng, s, args):
    for a in args:
        v = eng.peek(s, a)
        if isinstance(v, Adt) and v.path.endswith("::IntegerType"):
            return v.vn
    return None


def scan(rep, eng, f, at, t, d, neg):
    fr, h, s0, hs, backs, k, x, a0 = d
    where = "%s (%s)" % (f.path, fr.fn.loc)
    hexa = s0.facts.get(HEX)
    start = source(eng, s0, hs, fr, backs)
    rep.ob(a0.c == 0, "start:" + at, "%s: the accumulator does not start at zero but at %r" % (where, a0), "%s: the accumulator starts at zero" % at)
    rep.ob(hexa is not None, "prefix:" + at, "%s: digits are read without having looked for the prefix 0x" % where)
    if start is not None:
        a, n = start
        want = 2 if hexa else 0
        rep.ob(kv(a) == kv(const(want)), "offset:%s:%s" % (at, bool(hexa)), "%s: the digits of a number %s prefix are read from offset %r" % (where, "with" if hexa else "without", a), "%s: digits start at offset %d" % (at, want))
        rep.ob(n is not None and kv(a + n[0]) == kv(n[1]), "end:%s:%s" % (at, bool(hexa)), "%s: the digits are not read up to the end of the text" % where, "%s: all characters up to the end are read" % at)
    else:
        rep.fail("text:" + at, "%s: the loop does not run over the text of the literal" % where)
    base = 16 if hexa else 10
    xs = dict(x.t)
    for b in backs:
        c = character(eng, hs, b)[0]
        if c is None:
            rep.fail("item:" + at, "%s: an iteration without a character" % where)
            continue
        y = eng.expand(b, b.cells[k])
        admitted = [v for v in range(256) if possible(eng, b, c, v)]
        wrong, kind = [], None
        for v in admitted:
            if v == 95:
                if kv(y) != kv(x):
                    wrong.append(v)
                continue
            dg = DIGIT.get(v)
            if dg is None or dg >= base or not isinstance(y, L):
                wrong.append(v)
                continue
            z = subst(y, c, v) - x.scale(base)
            ng = b.facts.get(neg) if neg is not None else False
            if z.t or ng is None and dg or z.c != (-dg if ng else dg):
                wrong.append(v)
        rep.ob(not wrong, "digit:%s:%d" % (at, base), "%s: reading the character %s in base %d of a %s number does not yield base * value %s digit" % (where, ", ".join(repr(chr(v)) for v in wrong[:4]), base,
               "negative" if neg is not None and b.facts.get(neg) else "positive", "-" if neg is not None and b.facts.get(neg) else "+"),
               "%s: %d characters in base %d give base * value and the digit" % (at, len(admitted), base))
    # every digit has a way on
    for v in [q for q in DIGIT if DIGIT[q] < base] + [95]:
        ok = False
        for b in backs:
            c = character(eng, hs, b)[0]
            if c is not None and possible(eng, b, c, v):
                ok = True
                break
        rep.ob(ok, "accepted:%s:%d:%s" % (at, base, chr(v)), "%s: the character %r is not accepted in base %d" % (where, chr(v), base))


def subst(y, c, v):
    (s, q), = dict(c.t).items()
    ys = dict(y.t)
    m = ys.get(s, 0)
    if not m:
        return y
    # y = m*sym + rest and c = q*sym + c0, so sym = (v - c0) / q
    val = (v - c.c) // q
    return L({a: b for a, b in y.t.items() if a != s}, y.c + m * val)


def possible(eng, st, c, v):
    y, n = eng.branch(st.fork(), C("eq", c - const(v)))
    return bool(y)


def character(eng, hs, b):
    """(the character an iteration reads, its index if it is read by index)"""
    for k, v in b.cells.items():
        if k[:2] == ("h", "elem") and k not in hs.cells and isinstance(k[2], str) and k[2] in eng.rsize:
            v = eng.expand(b, v)
            if isinstance(v, L) and len(v.t) == 1:
                return v, L(dict(k[3][1]), k[3][0])
    for l in reversed(b.ineq):
        for m in l.t:
            k = eng.A.info[m[0]][0] if len(m) == 1 else ()
            if k[:1] == ("elem",) and len(k) == 3 and isinstance(k[1], str) and k[1] in eng.rsize and isinstance(k[2], L):
                return L({m: 1}), k[2]
    for e in b.ev[len(hs.ev):]:
        if e[0] == "item":
            i = eng.peek(b, e[1])
            if isinstance(i, L) and len(i.t) == 1:
                return i, None
    return None, None


def slices(eng, st, fr):
    for k, v in st.cells.items():
        if k[0] == fr.fid:
            x = eng.expand(st, v)
            if isinstance(x, Sl) and isinstance(x.region, str) and x.region in eng.rsize:
                yield x


def source(eng, s0, hs, fr, backs):
    """(offset, (length, size of the text)) of the characters a loop runs over."""
    for b in backs:
        c, idx = character(eng, hs, b)
        if idx is None or len(idx.t) != 1:
            continue
        step = None
        for e in b.ev[len(hs.ev):]:
            if e[0] == "item" and isinstance(eng.peek(b, e[1]), L) and eng.peek(b, e[1]).t == idx.t:
                step = e
        for k, v in s0.cells.items():
            x = eng.expand(s0, v)
            if k[0] != fr.fid:
                continue
            if step is not None and isinstance(x, Adt) and x.path.endswith("::Range"):
                lo, hi = (eng.expand(s0, y) for y in x.fields)
                for sl in slices(eng, s0, fr):
                    if kv(hi) == kv(sl.n) and idx.c == sl.start.c:
                        return lo + idx.c, (hi - lo, eng.rsize[sl.region])
            if step is None and k in hs.cells and isinstance(x, L):
                h = eng.expand(hs, hs.cells[k])
                if isinstance(h, L) and h.t == idx.t and all(kv(eng.expand(q, q.cells[k])) == kv(h + const(1)) for q in backs):
                    a = x + (idx - h)
                    for sl in slices(eng, s0, fr):
                        return a, (eng.rsize[sl.region] - a, eng.rsize[sl.region])
    for k, v in s0.cells.items():
        if k[0] == fr.fid:
            x = eng.expand(s0, v)
            if isinstance(x, It) and isinstance(x.f.get("sl"), Sl) and isinstance(x.f["sl"].region, str):
                sl = x.f["sl"]
                return sl.start + x.f["i"], (sl.n - x.f["i"], eng.rsize[sl.region])
    for e in reversed(s0.ev):
        if e[0] == "call" and fe.name(e).rsplit("::", 1)[-1] in ("chars", "bytes", "iter", "into_iter", "as_bytes"):
            a = eng.expand(s0, e[6][0])
            if isinstance(a, Sl) and isinstance(a.region, str):
                return a.start, (a.n, eng.rsize[a.region])
    return None


# ------------------------------------------------------------------ (b)
def whole(eng, sl):
    return isinstance(sl, Sl) and kv(sl.start) == kv(const(0)) and sl.region in eng.rsize and kv(sl.n) == kv(eng.rsize[sl.region])


def bare(eng, st, v, text, depth=0):
    """Is this the text of the literal, at most without separators?"""
    v = eng.peek(st, v)
    if isinstance(v, Sl) and v.region == text.region:
        return whole(eng, v)
    for e in st.ev:
        n = fe.name(e).rsplit("::", 1)[-1] if e[0] == "call" else ""
        if e[0] == "call" and same(eng, st, e[3], v) and n == "replace":
            a = [eng.peek(st, x) for x in e[6]]
            return bare(eng, st, e[6][0], text, depth + 1) and len(a) == 3 and isinstance(a[1], (L, Sl)) and separator(a[1]) and isinstance(a[2], Sl) and kv(a[2].n) == kv(const(0))
        if e[0] == "copy" and depth < 4 and same(eng, st, e[1], v):
            return bare(eng, st, e[3], text, depth + 1)
    return False


def separator(a):
    return isinstance(a, L) and a.is_const() and a.c == 95 or isinstance(a, Sl) and a.region in (("str", "_"),)


def same(eng, st, a, b):
    a, b = eng.expand(st, a), eng.expand(st, b)
    if kv(a) == kv(b):
        return True
    x, y = text_region(eng, st, a), text_region(eng, st, b)
    return x is not None and x == y


def text_region(eng, st, v):
    v = eng.peek(st, v)
    if isinstance(v, It) and "region" in v.f:
        return v.f["region"]
    if isinstance(v, Sl):
        return v.region
    return None


def negated(v):
    """(value, was it negated)"""
    n = False
    while isinstance(v, Term) and v.op == "neg":
        v, n = v.args[0], not n
    return v, n


def floats(w, eng, rep):
    n = 0
    for f, r, ps in converters(w):
        if r != "FloatLiteral":
            continue
        st = State()
        eng.root = f
        eng.steps = 0
        args = fe.args_of(eng, st, f)
        neg = sign_atom(f, ps, args, eng, st)
        text = next((eng.peek(st, a) for p, a in zip(ps, args) if text_arg(f, p)), None)
        try:
            outs = [(s, eng.expand(s, v)) for s, v in eng.run(f, {}, args, st)]
        except (Budget, Stop) as e:
            rep.fail("engine:" + f.path, "%s (%s): not analysable: %s" % (f.path, f.loc, e))
            continue
        looser = set()
        rejected = any(isinstance(v, Adt) and v.vn == "None" and infinite(s) for s, v in outs)
        for s, v in outs:
            if not isinstance(v, Adt) or v.vn != "Some":
                continue
            n += 1
            p = eng.expand(s, v.fields[0])
            at = "%s as %s" % (f.path, getattr(p, "vn", None))
            where = "%s (%s)" % (f.path, f.loc)
            if not isinstance(p, Adt):
                rep.fail("float:" + at, "%s: returns something other than a float: %r" % (where, p))
                continue
            x, flip = negated(eng.expand(s, p.fields[0]))
            src = None
            for e in fe.calls(s):
                o = s.exp.get(e[3].key) if isinstance(e[3], Sym) else e[3]
                if isinstance(o, Adt) and o.vn == "Ok" and kv(eng.expand(s, o.fields[0])) == kv(eng.expand(s, x)) and fe.name(e).endswith(("str>::parse", "FromStr::from_str")):
                    src = e
            want = declared_float(eng, s, args)
            rep.ob(want is None or want == p.vn, "width:%s:%s" % (f.path, want), "%s: a literal of type %s becomes %s" % (where, want, p.vn), "%s: a literal of type %s becomes %s" % (f.path, want, p.vn))
            rep.ob(src is not None, "float:" + at, "%s: the value of a float is not what std parses from its text: %r" % (where, x), "%s: the value is what std parses" % at)
            if src is None:
                continue
            t = src[3].ty if isinstance(src[3], Sym) else None
            ty = t[2][0] if t and t[0] == "adt" and t[2] else None
            rep.ob(ty is None or ty[-1] == (p.vn or "").lower(), "parse:" + at, "%s: a %s is parsed as %r and converted, which rounds twice" % (where, p.vn, ty), "%s: parsed at its own width" % at)
            rep.ob(bare(eng, s, src[6][0], text), "text:" + at, "%s: what is parsed is not the whole text without separators" % where, "%s: the whole text is parsed, without separators" % at)
            ng = s.facts.get(neg)
            rep.ob(ng is not None and flip == ng, "sign:" + at, "%s: a %s literal comes out %s" % (where, {True: "negative", False: "positive", None: "literal of either sign"}[ng], "negated" if flip else "not negated"),
                   "%s: negated exactly when negative" % at)
            if infinite(s) is not False:
                looser.add((p.vn, None if infinite(s) is None else at))
        # infinity is let through only when something else about the text says it was meant
        rep.ob(rejected and not any(x[1] is None for x in looser), "infinite:" + f.path, "%s (%s): a literal too large for its type becomes infinity unnoticed" % (f.path, f.loc), "%s: an overflow to infinity is rejected" % f.path)
    rep.floor("paths that return a float", n, 4)


def infinite(s):
    """Whether the value of this path is infinite, if it was looked at."""
    for e in fe.calls(s):
        n = fe.name(e)
        if n.endswith(("::is_infinite", "::is_finite")) and isinstance(e[3], C):
            x = e[3].a is True if e[3].op == "const" else s.facts.get(e[3].a)
            return None if x is None else x if n.endswith("infinite") else not x
    return None


def declared_float(eng, s, args):
    for a in args:
        v = eng.peek(s, a)
        if isinstance(v, Adt) and v.path.endswith("::FloatType"):
            return v.vn
    return None


# ------------------------------------------------------------------ (c), (d)
def as_lit(eng, st, v):
    v = eng.expand(st, v)
    if isinstance(v, Adt) and v.path.endswith("intermediate::IntegerLiteral"):
        x = eng.expand(st, v.fields[0])
        return (v.vn, x) if isinstance(x, L) else None
    return None


def successor_ok(eng, st, key, nxt):
    """Is nxt (an Option) the successor of the literal key?"""
    n = eng.expand(st, nxt)
    k = as_lit(eng, st, key)
    if not isinstance(n, Adt) or k is None:
        return None
    hi = models.RANGES[INT[k[0]]][1]
    if n.vn == "None":
        return eng.entails(st, k[1] - const(hi))
    m = as_lit(eng, st, n.fields[0])
    return m is not None and m[0] == k[0] and kv(m[1]) == kv(k[1] + const(1)) and eng.entails(st, const(hi - 1) - k[1])


def holds_literal(t):
    return t[0] == "adt" and t[1] == "core::option::Option" and t[2] and t[2][0][0] == "adt" and t[2][0][1] == "planus_types::intermediate::IntegerLiteral"


def enumerations(w, store, rep, conv):
    """Implicit enum values, and what is handed to the conversions."""
    types = store.crate("planus_types")
    eng = fe.Front([w.c, types], opaque=lambda fn: fn.id in w.emit or fn.id in conv)
    eng.max_paths = 20000
    eng.merge_above = 10**6
    nsucc = [0]
    ncall = [0]
    evs_seen = set()

    def on_loop(fr, h, s0, hs, backs):
        for b in backs:
            for e in b.ev[len(hs.ev):]:
                handed(b, e)
        cells = [k for k in hs.cells if k[0] == fr.fid and isinstance(k[1], int) and holds_literal(eng.local_ty(fr, [k[1]])) and k in s0.cells and kv(hs.cells[k]) != kv(s0.cells[k])]
        keys = {}
        for b in backs:
            ks = [e[6][1] for e in fe.calls(b)[len(fe.calls(hs)):] if fe.name(e).rsplit("::", 1)[-1] in ("entry", "insert", "insert_full") and len(e[6]) > 1 and as_lit(eng, b, eng.peek(b, e[6][1]))]
            if ks:
                keys[id(b)] = (b, eng.peek(b, ks[0]))
        if not keys or not cells:
            return
        best = None
        for k in cells:
            bad, n = [], 0
            for b, key in keys.values():
                n += 1
                if not successor_ok(eng, b, key, b.cells[k]):
                    bad.append((key, eng.expand(b, b.cells[k])))
            if best is None or len(bad) < len(best[0]):
                best = (bad, n, k)
        bad, n, k = best
        nsucc[0] += n
        f = fr.fn
        rep.ob(not bad, "successor:" + f.path, "%s (%s): after a variant with value %r, the next implicit value is %r" % ((f.path, f.loc) + (bad[0] if bad else (0, 0))), "%s: on %d kinds of iteration the next implicit value is the last one plus one, or none at the maximum" % (f.path, n))
        # the value of a variant is the one written, or the carried one
        odd = []
        for b, key in keys.values():
            kl = as_lit(eng, b, key)
            given = [e for e in fe.calls(b) if ids(e) & conv and isinstance(e[3], Sym) and isinstance(b.exp.get(e[3].key), Adt) and b.exp[e[3].key].vn == "Some" and as_lit(eng, b, b.exp[e[3].key].fields[0]) == kl]
            c = eng.expand(b, hs.cells[k])
            carried = isinstance(c, Adt) and c.vn == "Some" and as_lit(eng, b, c.fields[0]) == kl
            asked = any(ids(e) & conv for e in b.ev[len(hs.ev):] if e[0] == "call")
            if not (given if asked else carried):
                odd.append(key)
        rep.ob(not odd, "written:" + f.path, "%s (%s): a variant is stored under %r, which is neither the value written nor the next implicit one" % (f.path, f.loc, odd[0] if odd else 0), "%s: variants are stored under the value written, else under the next implicit one" % f.path)

    def ids(e):
        return {e[1].get("rid"), e[1].get("id")} - {None}

    def handed(st, e):
        if e[0] != "call" or not ids(e) & conv:
            return
        g = w.c.by_id[next(iter(ids(e) & conv))]
        ps = [g.crate.ty(g.body["locals"][i + 1]) for i in range(g.body["argc"])]
        if not any(p[0] == "bool" for p in ps):
            return
        ncall[0] += 1
        sg = next(eng.expand(st, v) for p, v in zip(ps, e[2]) if p[0] == "bool")
        tx = next((eng.peek(st, v) for p, v in zip(ps, e[6]) if text_arg(g, p)), None)
        ok = isinstance(sg, C) and sg.op == "op" and isinstance(tx, Sl) and whole(eng, tx) and isinstance(tx.region, str) and isinstance(sg.a, tuple) and related(str(sg.a[1]), tx.region)
        rep.ob(ok, "handed:%s:%s" % (e[4].path, g.path), "%s (%s, line %s) hands %r and %r to %s, which are not the sign and the text of one literal" % (e[4].path, e[4].loc, e[5], sg, tx, g.path), "%s hands the sign and the text of one literal to %s" % (e[4].path, g.path))

    eng.hooks["loop"] = on_loop
    nb = 0
    for f in w.c.fns:
        if not f.body or f.kind == "closure" or f.id in w.emit or f.id in conv:
            continue
        if any({c.get("rid"), c.get("id")} & conv for _, c, *_ in f.calls()) or any({c.get("rid"), c.get("id")} & conv for g in fe.local_callees(w.c, f) if g.kind == "closure" for _, c, *_ in g.calls()):
            try:
                for s, v, a in fe.paths(eng, f):
                    for e in s.ev:
                        handed(s, e)
            except (Budget, Stop) as e:
                rep.fail("engine:" + f.path, "%s (%s): not analysable: %s" % (f.path, f.loc, e))
    eng.hooks.clear()
    for f in w.c.fns:
        if f.body and f.kind != "closure" and builds(w, f):
            nb += 1
            try:
                built(eng, f, fe.paths(eng, f), rep)
            except (Budget, Stop) as e:
                rep.fail("engine:" + f.path, "%s (%s): not analysable: %s" % (f.path, f.loc, e))
    rep.floor("calls that hand a literal to a conversion", ncall[0], 3)
    rep.floor("functions that build literals", nb, 2)
    rep.cov["iterations that assign an enum value"] = nsucc[0]


def related(a, b):
    """Two fields of the same thing: names agree up to the last component."""
    a, b = a.split("#")[0], b.split("#")[0]
    return a == b or a.rsplit(".", 1)[0] == b.rsplit(".", 1)[0]


def literal_aggs(f):
    for st, t, cl in f.blocks():
        for x in st:
            if x[0] == "=" and x[2][0] == "agg" and x[2][1][0] == "adt":
                yield x[2][1]


def builds(w, f):
    r = f.crate.ty(f.body["locals"][0])
    if not (r[0] == "adt" and r[1] == "core::option::Option" and r[2] and r[2][0][0] == "adt" and r[2][0][1] in ("planus_types::ast::LiteralKind", "planus_types::ast::IntegerLiteral")):
        return False
    return f.path.startswith("planus_translation::") and f.kind != "closure"


def table_of(c, atoms):
    """Truth table of a condition over at most two atoms."""
    def ev(c, m):
        if c.op == "const":
            return bool(c.a)
        if c.op in ("op", "nop"):
            return m[c.a] == (c.op == "op")
        if c.op in ("and", "or"):
            a, b = ev(c.a, m), ev(c.b, m)
            return a and b if c.op == "and" else a or b
        raise KeyError(c.op)
    return tuple(ev(c, dict(zip(atoms, v))) for v in ((False, False), (False, True), (True, False), (True, True)))


def atoms_of(c, out=None):
    out = [] if out is None else out
    if c.op in ("op", "nop"):
        if c.a not in out:
            out.append(c.a)
    elif c.op in ("and", "or"):
        atoms_of(c.a, out)
        atoms_of(c.b, out)
    return out


def built(eng, f, ps, rep):
    """Literals are built from the sign and the text of one literal."""
    n = 0
    where = "%s (%s)" % (f.path, f.loc)
    for s, v, a in ps:
        if not isinstance(v, Adt) or v.vn != "Some":
            continue
        k = eng.expand(s, v.fields[0])
        if not isinstance(k, Adt) or k.path.endswith("LiteralKind") and k.vn not in ("Integer", "Float"):
            continue
        sg = next((x for x in (eng.expand(s, y) for y in k.fields) if isinstance(x, C)), None)
        tx = next((x for x in (eng.expand(s, y) for y in k.fields) if isinstance(x, It) and "region" in x.f), None)
        if sg is None or tx is None:
            rep.fail("built:" + f.path, "%s: builds a literal without sign or text" % where)
            continue
        n += 1
        at = "%s:%s" % (f.path, k.vn)
        src = tx.f["region"]
        cp = next((e for e in s.ev if e[0] == "copy" and text_region(eng, s, e[1]) == src), None)
        if cp is not None:
            sl = eng.peek(s, cp[3])
            rep.ob(whole(eng, sl) or isinstance(sl, It), "built:" + at, "%s: the text of a literal is not all of what was written: %r" % (where, sl), "%s: the text is all of what was written" % at)
            src = text_region(eng, s, cp[3])
        if sg.op == "const":
            rep.ob(sg.a is False and cp is not None, "unsigned:" + at, "%s: a literal without a sign comes out negative" % where, "%s: without a sign, not negative" % at)
            continue
        at_ = atoms_of(sg)
        own = [x for x in at_ if isinstance(src, str) and related(str(x[1]), src)]
        if len(at_) == 1:
            ok = bool(own) and sg.op == "op"
        else:
            ok = len(at_) == 2 and len(own) >= 1 and table_of(sg, at_) == (False, True, True, False)
        rep.ob(ok, "signed:" + at, "%s: the sign of a literal is not that of its parts: %r" % (where, sg), "%s: a sign in front flips the sign of the literal" % at)


def successor(store, types, rep):
    eng = Num([types])
    eng.merge_above = 10**6
    n = 0
    for f in types.fns:
        if not f.body or f.kind == "closure" or "IntegerLiteral" not in f.path:
            continue
        ps = [f.crate.ty(f.body["locals"][i + 1]) for i in range(f.body["argc"])]
        if len(ps) != 1 or not holds_literal(f.crate.ty(f.body["locals"][0])):
            continue
        for s, v, a in fe.paths(eng, f):
            n += 1
            key = eng.peek(s, a[0])
            k = as_lit(eng, s, key)
            rep.ob(bool(successor_ok(eng, s, key, v)), "next:%s:%s" % (f.path, k[0] if k else "?"), "%s (%s): the value after %r is %r" % (f.path, f.loc, key, v), "%s: after %r comes %r" % (f.path, key, v))
    rep.cov["paths through the successor of an integer"] = n


def signs(w, store, rep):
    enumerations(w, store, rep, {f.id for f, r, ps in converters(w)})
