"""Models of the core/alloc (and hashbrown, array-init-cursor) functions that the analysed crates call.

Every model is the function's documented contract: its result as a function of the abstract
arguments, the panics it documents (as `panic` obligations) and its safety conditions (as `mem`
obligations).  Functions without a model are opaque: safe ones return an unconstrained value, unsafe
ones are reported."""
from sa.lin import L, const, ISIZE_MAX, USIZE_MAX, unsat
from sa.absint import (Sl, Ptr, Ref, Adt, Tup, Arr, Term, Sym, C, TRUE, FALSE, Clo, FnV, It, kv, cnot, RANGES, BITS, Stop)

OPT = "core::option::Option"
RES = "core::result::Result"
CF = "core::ops::control_flow::ControlFlow"
CORE_TRAITS = {
    "core::convert::From", "core::convert::Into", "core::convert::TryFrom", "core::convert::TryInto", "core::clone::Clone",
    "core::default::Default", "core::iter::traits::iterator::Iterator", "core::ops::deref::Deref", "core::cmp::PartialEq",
}
UNIT = Tup([])


def norm(f):
    """`core::option::Option::<T>::map` -> `core::option::Option::map`; `<impl X>` becomes `{X}`."""
    out = []
    i = 0
    n = len(f)
    while i < n:
        if f.startswith("::<", i):
            d = 0
            j = i + 2
            while j < n:
                if f[j] == "<":
                    d += 1
                elif f[j] == ">" and f[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            inner = f[i + 3:j]
            if inner.startswith("impl "):
                out.append("::{" + inner[5:] + "}")
            i = j + 1
        else:
            out.append(f[i])
            i += 1
    return "".join(out)


_norm = {}


def some(v, args=()):
    return Adt(OPT, 1, "Some", [v], args)


def none(args=()):
    return Adt(OPT, 0, "None", [], args)


def ok(v, args=()):
    return Adt(RES, 0, "Ok", [v], args)


def err(v, args=()):
    return Adt(RES, 1, "Err", [v], args)


def targs(ty):
    return ty[2] if ty[0] == "adt" else ()


def deref(eng, st, v):
    """The value behind a reference."""
    v = eng.expand(st, v)
    if isinstance(v, Ref):
        return eng.expand(st, eng.load(st, v.cell, v.path))
    if isinstance(v, (Sl,)):
        return v
    if isinstance(v, Ptr):
        return eng.region_elem(st, v.region, v.start, v.ety)
    if isinstance(v, It) and v.kind == "box":
        return eng.expand(st, eng.load(st, v.f["cell"], ()))
    if isinstance(v, (Sym, Term)):
        c = eng.deref(st, v)
        return eng.expand(st, eng.read(st, c))
    return v


def deref_all(eng, st, v):
    n = 0
    v = eng.expand(st, v)
    while isinstance(v, Ref) and n < 6:
        v = eng.expand(st, eng.load(st, v.cell, v.path))
        n += 1
    if isinstance(v, Sym) and v.ty[0] == "ref" and v.ty[1][0] not in ("slice", "str"):
        return deref(eng, st, v)
    return v


def cases(eng, st, v, ty):
    """[(state, variant index, fields)] of an enum value."""
    v = eng.expand(st, v)
    if isinstance(v, Adt):
        return [(st, v.vi, v.fields)]
    if not (isinstance(v, Sym) and v.ty[0] == "adt" and eng.variants(v.ty)):
        v = eng.expand(st, Sym(("t", kv(v)), ty))
        if isinstance(v, Adt):
            return [(st, v.vi, v.fields)]
    vs = eng.variants(v.ty)
    exc = st.excl.get(v.key, ())
    out = []
    for i in range(len(vs)):
        if i in exc:
            continue
        s = st.fork()
        r = eng.refine(s, v, i)
        out.append((s, i, r.fields))
    return out


def oty(t):
    return ("adt", OPT, (t,))


def rty(t, e):
    return ("adt", RES, (t, e))


def dead(eng, st):
    """Is the path condition contradictory?"""
    return unsat(eng.A, list(st.ineq), list(st.eq))


def panics(eng, fr, st, span, detail, msg):
    good = dead(eng, st)
    eng.oblig("panic", fr, span[1], detail, good, msg, st)


def mk_adt(eng, st, ty, name, depth):
    p, a = ty[1], ty[2]
    if p == "core::num::nonzero::NonZero":
        lo, hi = RANGES[a[0][1]] if a and a[0][0] == "int" else (0, USIZE_MAX)
        if lo == 0:
            return eng.A.fresh(name, 1, hi)
        x = eng.A.fresh(name, lo, hi)
        st.ne = st.ne + (x,)
        return x
    if p == "core::ptr::non_null::NonNull":
        return Ptr(eng.region(name), const(0), a[0] if a else ("int", "u8"))
    if p == "alloc::vec::Vec":
        return It("vec", n=eng.A.fresh("len(%s)" % name, 0, ISIZE_MAX), ety=a[0])
    if p == "alloc::string::String":
        n = eng.A.fresh("len(%s)" % name, 0, ISIZE_MAX)
        return It("string", n=n, region=eng.region(name, n))
    if p in ("core::mem::maybe_uninit::MaybeUninit", "core::mem::manually_drop::ManuallyDrop", "core::num::wrapping::Wrapping"):
        return eng.mk(st, a[0], name, depth + 1)
    if p == "core::marker::PhantomData":
        return Tup([])
    if p == "core::ops::range::Range":
        return Adt(p, 0, "Range", [eng.mk(st, a[0], name + ".start", depth + 1), eng.mk(st, a[0], name + ".end", depth + 1)], a)
    if p in ("core::ops::range::RangeFrom", "core::ops::range::RangeTo", "core::ops::range::RangeToInclusive"):
        return Adt(p, 0, p.rsplit("::", 1)[1], [eng.mk(st, a[0], name + ".bound", depth + 1)], a)
    if p == "core::ops::range::RangeFull":
        return Adt(p, 0, "RangeFull", [], ())
    if p == "core::ops::range::RangeInclusive":
        return It("rinc", start=eng.mk(st, a[0], name + ".start", depth + 1), end=eng.mk(st, a[0], name + ".end", depth + 1))
    if p == "alloc::boxed::Box" and depth < 6 and a and a[0][0] not in ("dyn", "slice", "str"):
        eng.nsym += 1
        cell = ("h", "box", eng.nsym)
        st.cells[cell] = eng.mk(st, a[0], name, depth + 1)
        return It("box", cell=cell)
    if p == "array_init_cursor::Cursor":
        n = eng.cval(a[1])
        return It("cursor", sl=Sl(eng.region(name, n), const(0), n, a[0], kind="array"), ety=a[0])
    if p == "core::slice::iter::Iter":
        n = eng.A.fresh("len(%s)" % name, 0, ISIZE_MAX)
        i = eng.A.fresh("i(%s)" % name, 0, ISIZE_MAX)
        eng.add_ge(st, n - i)
        return It("iter", sl=Sl(eng.region(name, n), const(0), n, a[0]), i=i)
    return None


def mk_agg(eng, st, v):
    return None


def it_field(eng, st, v, i):
    if v.kind == "cursor" and i == 0:
        return v.f["sl"]
    if v.kind == "box" and i == 0:
        return v
    return None


def havoc_it(eng, st, v):
    if v.kind in ("iter", "iter_mut"):
        i = eng.A.fresh("i", 0, ISIZE_MAX)
        eng.add_ge(st, v.f["sl"].n - i)
        return v.set(i=i)
    if v.kind == "vec":
        return v.set(n=eng.A.fresh("n", 0, ISIZE_MAX))
    if v.kind == "string":
        n = eng.A.fresh("n", 0, ISIZE_MAX)
        return v.set(n=n, region=eng.region("string", n))
    if v.kind == "enum":
        return v.set(inner=eng.havoc_val(st, v.f["inner"], ("other", "?"), "it"), c=eng.A.fresh("c", 0, ISIZE_MAX))
    if v.kind in ("map", "rev", "take", "skip", "copied", "filter", "chain1"):
        return v.set(inner=eng.havoc_val(st, v.f["inner"], ("other", "?"), "it"))
    if v.kind == "zip":
        return v.set(a=eng.havoc_val(st, v.f["a"], ("other", "?"), "it"), b=eng.havoc_val(st, v.f["b"], ("other", "?"), "it"))
    if v.kind == "rinc":
        return v.set(start=eng.A.fresh("start", 0, USIZE_MAX))
    return v


def size_of(eng, ty):
    k = ty[0]
    if k == "int":
        return const(BITS[ty[1]] // 8)
    if k == "bool":
        return const(1)
    if k == "float":
        return const(int(ty[1][1:]) // 8)
    if k == "char":
        return const(4)
    if k == "array":
        return size_of(eng, ty[1]).mul(eng.cval(ty[2]))
    if k == "tuple" and not ty[1]:
        return const(0)
    if k == "adt" and ty[1] in ("core::mem::maybe_uninit::MaybeUninit", "core::mem::manually_drop::ManuallyDrop"):
        return size_of(eng, ty[2][0])
    if k in ("ref", "ptr"):
        return const(16 if ty[1][0] in ("slice", "str", "dyn") else 8)
    return eng.A.get(("sizeof", ty), 0, 2**31)


def align_of(eng, ty):
    k = ty[0]
    if k in ("int", "float"):
        return size_of(eng, ty)
    if k == "bool":
        return const(1)
    if k == "array":
        return align_of(eng, ty[1])
    if k == "adt" and ty[1] == "core::mem::maybe_uninit::MaybeUninit":
        return align_of(eng, ty[2][0])
    return eng.A.get(("alignof", ty), 1, 2**29)


def transmute(eng, st, fr, v, sty, dty, line):
    v = eng.expand(st, v)
    if sty == dty:
        return v
    if dty[0] == "adt" and eng.variants(dty) and (isinstance(v, L)):
        vs = eng.variants(dty)
        ds = {d: i for i, (_, d, _) in enumerate(vs)}
        if v.is_const() and v.c in ds:
            i = ds[v.c]
            return Adt(dty[1], i, vs[i][0], [], dty[2])
        lo, hi = min(ds), max(ds)
        good = eng.entails(st, v - lo) and eng.entails(st, -v + hi) and len(ds) == hi - lo + 1
        if not good:
            # every excluded value must be ruled out
            good = eng.entails(st, v - lo) and eng.entails(st, -v + hi) and all(
                eng.cond(st, C("eq", v - x)) is False for x in range(lo, hi + 1) if x not in ds)
        eng.oblig("mem", fr, line, "transmute", good, "integer transmuted into %s without being restricted to its discriminants" % dty[1], st)
        eng.nsym += 1
        s = Sym(("transmute", eng.nsym), dty)
        d = eng.discr(st, s)
        eng.add_eq(st, d - v)
        return s
    if isinstance(v, Sl) and dty[0] in ("ref", "ptr"):
        t = dty[1]
        if t[0] == "array":
            n = eng.cval(t[2])
            eng.oblig("mem", fr, line, "transmute", eng.entails(st, v.n - n), "array reference transmuted to a longer array", st)
            return Sl(v.region, v.start, n, t[1], v.esz, "array")
        if t[0] == "slice":
            return Sl(v.region, v.start, v.n, t[1], v.esz, "slice")
        if t[0] == "adt":
            return transmute_struct(eng, st, fr, v, t, line)
    if isinstance(v, It) and v.kind == "cursor" and dty[0] == "ref":
        return v.f["sl"]
    if isinstance(v, Adt) and len(v.fields) == 1:
        return v.fields[0]
    if isinstance(v, L) and dty[0] == "int":
        a, b = size_of(eng, sty), size_of(eng, dty)
        if a.is_const() and a == b:
            return eng.wrap(st, v, dty)
    if dty[0] in ("ref", "ptr") and isinstance(v, (Ref, Ptr)):
        return v
    if sty[0] in ("ref", "ptr") and dty == ("int", "usize") and isinstance(v, (Ptr, Ref, Sl)):
        # address of an object: never null for a pointer derived from an allocation or a reference
        return eng.A.get(("addr", kv(v)), 1, 2**63 - 1)
    if dty[0] == "ptr" and sty[0] == "adt" and sty[1].startswith("alloc::boxed::Box"):
        return box_ptr(eng, st, v, dty)
    eng.oblig("mem", fr, line, "transmute", False, "transmute from %s to %s is not modelled" % (sty, dty), st)
    return eng.mk(st, dty, "transmute")


def box_ptr(eng, st, v, dty):
    if isinstance(v, It) and v.kind == "box":
        return Ref(v.f["cell"])
    key = ("boxptr", kv(v))
    if key not in st.exp:
        st.exp[key] = eng.mk(st, ("ref",) + tuple(dty[1:]), "boxed")
    return st.exp[key]


def inited(t):
    """MaybeUninit<T> has the layout of T."""
    while t[0] == "adt" and t[1].endswith("maybe_uninit::MaybeUninit") and t[2]:
        t = t[2][0]
    return t


def transmute_struct(eng, st, fr, sl, t, line):
    """&mut [T; X] viewed as &mut Wrapper(repr C, [T; Y], [T; Z])."""
    a = eng.adts.get(t[1])
    good = False
    fs = []
    if a and a["kind"] == "struct" and ("IS_C" in str(a["repr"]) or "TRANSPARENT" in str(a["repr"])):
        s = eng.adt_subst(a, t[2])
        off = const(0)
        good = True
        for f in a["variants"][0]["fields"]:
            ft = eng.sub(a["_crate"].ty(f[1]), s)
            if ft[0] != "array" or inited(ft[1]) != inited(sl.ety):
                good = False
                break
            n = eng.cval(ft[2])
            fs.append(Sl(sl.region, sl.start + off, n, ft[1], sl.esz, "array"))
            off = off + n
        good = good and eng.entails(st, sl.n - off)
    eng.oblig("mem", fr, line, "transmute", good, "array reference transmuted to a struct that does not partition it", st)
    eng.nsym += 1
    cell = ("h", "wrap", eng.nsym)
    st.cells[cell] = Adt(t[1], 0, "w", [It("arrplace", sl=x) for x in fs], t[2])
    return Ref(cell)


def opaque_closure(eng, fr, st, f, vals, span, dty):
    return eng.mk(st, dty, "call")


# ---------------------------------------------------------------------------- registry
M = {}


def model(*names):
    def deco(fn):
        for n in names:
            M[n] = fn
        return fn
    return deco


PREFIX = []


def prefix(*names):
    def deco(fn):
        for n in names:
            PREFIX.append((n, fn))
        return fn
    return deco


INT = "core::num::{%s}::%s"


def intmodel(*names):
    def deco(fn):
        for n in names:
            for t in RANGES:
                M[INT % (t, n)] = (lambda t: lambda *a: fn(t, *a))(t)
        return fn
    return deco


def lookup(eng, callee, cargs):
    f = callee["f"]
    n = _norm.get(f)
    if n is None:
        n = _norm[f] = norm(f)
    m = M.get(n)
    if m is None:
        for p, fn in PREFIX:
            if n.startswith(p):
                m = fn
                break
    if m is None:
        return None
    if callee.get("tr") and (eng.local_impl(callee["tr"], cargs, callee["id"])):
        return None
    return m


# ---------------------------------------------------------------------------- panics
@model("core::panicking::panic", "core::panicking::panic_fmt", "core::panicking::assert_failed", "core::panicking::panic_explicit", "std::rt::begin_panic",
       "core::panicking::panic_display", "core::panicking::todo_default_msg", "core::panicking::unimplemented_default_msg", "core::panicking::unreachable_display_default_msg", "core::panicking::unreachable_default_msg", "core::panicking::unreachable_display", "core::panicking::panic_str_2015", "core::panicking::panic_nounwind",
       "core::option::unwrap_failed", "core::option::expect_failed", "core::result::unwrap_failed", "core::panicking::panic_const::panic_const_div_by_zero", "std::panicking::begin_panic",
       "std::process::abort", "std::process::exit", "core::panicking::assert_matches_failed", "core::intrinsics::abort", "core::slice::index::slice_index_fail")
def m_panic(eng, fr, st, cal, ca, vals, span, dty):
    what = "panic"
    if vals:
        v = eng.expand(st, vals[0])
        if isinstance(v, Sl) and isinstance(v.region, tuple) and v.region[0] == "str":
            what = "panic: " + v.region[1][:60]
    if cal["f"].endswith("assert_failed"):
        what = "assertion"
    panics(eng, fr, st, span, what, "a %s is reachable" % what)
    return []


@model("core::hint::unreachable_unchecked", "core::intrinsics::unreachable")
def m_unreach(eng, fr, st, cal, ca, vals, span, dty):
    eng.oblig("mem", fr, span[1], "unreachable_unchecked", dead(eng, st), "unreachable_unchecked is reachable", st)
    return []


@model("core::hint::assert_unchecked")
def m_assume(eng, fr, st, cal, ca, vals, span, dty):
    eng.oblig("mem", fr, span[1], "assert_unchecked", eng.cond(st, vals[0]) is True, "assert_unchecked condition not implied", st)
    return [(st, UNIT)]


# ---------------------------------------------------------------------------- Option / Result
def opt(eng, st, v, ca):
    return cases(eng, st, v, oty(ca[0]))


def res(eng, st, v, ca):
    return cases(eng, st, v, rty(ca[0], ca[1]))


@model("core::option::Option::unwrap", "core::option::Option::expect")
def o_unwrap(eng, fr, st, cal, ca, vals, span, dty):
    out = []
    bad = False
    for s, i, f in opt(eng, st, vals[0], ca):
        if i == 1:
            out.append((s, f[0]))
        elif not dead(eng, s):
            bad = True
    eng.oblig("panic", fr, span[1], "unwrap None", not bad, "Option unwrapped while it may be None", st)
    return out


@model("core::option::Option::unwrap_unchecked")
def o_unwrap_un(eng, fr, st, cal, ca, vals, span, dty):
    out = []
    bad = False
    for s, i, f in opt(eng, st, vals[0], ca):
        if i == 1:
            out.append((s, f[0]))
        elif not dead(eng, s):
            bad = True
    eng.oblig("mem", fr, span[1], "unwrap_unchecked", not bad, "unwrap_unchecked of a possible None", st)
    return out


@model("core::result::Result::unwrap", "core::result::Result::expect")
def r_unwrap(eng, fr, st, cal, ca, vals, span, dty):
    out = []
    bad = False
    for s, i, f in res(eng, st, vals[0], ca):
        if i == 0:
            out.append((s, f[0]))
        elif not dead(eng, s):
            bad = True
    eng.oblig("panic", fr, span[1], "unwrap Err", not bad, "Result unwrapped while it may be Err", st)
    return out


@model("core::result::Result::unwrap_err", "core::result::Result::expect_err")
def r_unwrap_err(eng, fr, st, cal, ca, vals, span, dty):
    out = []
    bad = False
    for s, i, f in res(eng, st, vals[0], ca):
        if i == 1:
            out.append((s, f[0]))
        elif not dead(eng, s):
            bad = True
    eng.oblig("panic", fr, span[1], "unwrap_err Ok", not bad, "unwrap_err of a possible Ok", st)
    return out


@model("core::option::Option::unwrap_or")
def o_unwrap_or(eng, fr, st, cal, ca, vals, span, dty):
    return [(s, f[0] if i == 1 else vals[1]) for s, i, f in opt(eng, st, vals[0], ca)]


@model("core::result::Result::unwrap_or")
def r_unwrap_or(eng, fr, st, cal, ca, vals, span, dty):
    return [(s, f[0] if i == 0 else vals[1]) for s, i, f in res(eng, st, vals[0], ca)]


@model("core::option::Option::unwrap_or_else")
def o_unwrap_or_else(eng, fr, st, cal, ca, vals, span, dty):
    out = []
    for s, i, f in opt(eng, st, vals[0], ca):
        if i == 1:
            out.append((s, f[0]))
        else:
            out += eng.call_value(fr, s, vals[1], [], span, dty)
    return out


@model("core::result::Result::unwrap_or_else")
def r_unwrap_or_else(eng, fr, st, cal, ca, vals, span, dty):
    out = []
    for s, i, f in res(eng, st, vals[0], ca):
        if i == 0:
            out.append((s, f[0]))
        else:
            out += eng.call_value(fr, s, vals[1], [f[0]], span, dty)
    return out


@model("core::option::Option::unwrap_or_default")
def o_unwrap_or_default(eng, fr, st, cal, ca, vals, span, dty):
    out = []
    for s, i, f in opt(eng, st, vals[0], ca):
        if i == 1:
            out.append((s, f[0]))
        else:
            out += default_of(eng, fr, s, dty, span)
    return out


@model("core::result::Result::unwrap_or_default")
def r_unwrap_or_default(eng, fr, st, cal, ca, vals, span, dty):
    out = []
    for s, i, f in res(eng, st, vals[0], ca):
        if i == 0:
            out.append((s, f[0]))
        else:
            out += default_of(eng, fr, s, dty, span)
    return out


@model("core::option::Option::map")
def o_map(eng, fr, st, cal, ca, vals, span, dty):
    out = []
    t = targs(dty)
    for s, i, f in opt(eng, st, vals[0], ca):
        if i == 1:
            out += [(s2, some(v, t)) for s2, v in eng.call_value(fr, s, vals[1], [f[0]], span, t[0] if t else ("other", "?"))]
        else:
            out.append((s, none(t)))
    return out


@model("core::option::Option::map_or")
def o_map_or(eng, fr, st, cal, ca, vals, span, dty):
    out = []
    for s, i, f in opt(eng, st, vals[0], ca):
        if i == 1:
            out += eng.call_value(fr, s, vals[2], [f[0]], span, dty)
        else:
            out.append((s, vals[1]))
    return out


@model("core::option::Option::map_or_else")
def o_map_or_else(eng, fr, st, cal, ca, vals, span, dty):
    out = []
    for s, i, f in opt(eng, st, vals[0], ca):
        if i == 1:
            out += eng.call_value(fr, s, vals[2], [f[0]], span, dty)
        else:
            out += eng.call_value(fr, s, vals[1], [], span, dty)
    return out


@model("core::option::Option::and_then")
def o_and_then(eng, fr, st, cal, ca, vals, span, dty):
    out = []
    for s, i, f in opt(eng, st, vals[0], ca):
        if i == 1:
            out += eng.call_value(fr, s, vals[1], [f[0]], span, dty)
        else:
            out.append((s, none(targs(dty))))
    return out


@model("core::option::Option::filter")
def o_filter(eng, fr, st, cal, ca, vals, span, dty):
    out = []
    for s, i, f in opt(eng, st, vals[0], ca):
        if i == 1:
            eng.nsym += 1
            cell = ("h", "filter", eng.nsym)
            s.cells[cell] = f[0]
            for s2, c in eng.call_value(fr, s, vals[1], [Ref(cell)], span, ("bool",)):
                a, b = eng.branch(s2, boolv(c))
                out += [(x, some(f[0], targs(dty))) for x in a] + [(x, none(targs(dty))) for x in b]
        else:
            out.append((s, none(targs(dty))))
    return out


@model("core::bool::{bool}::then_some", "core::bool::{bool}::then")
def bool_then(eng, fr, st, cal, ca, vals, span, dty):
    a, b = eng.branch(st.fork(), boolv(eng.expand(st, vals[0])))
    out = []
    for s in a:
        if cal["f"].endswith("then_some"):
            out.append((s, some(vals[1], targs(dty))))
        else:
            out += [(s2, some(x, targs(dty))) for s2, x in eng.call_value(fr, s, vals[1], [], span, targs(dty)[0] if targs(dty) else ("other", "?"))]
    return out + [(s, none(targs(dty))) for s in b]


def boolv(c):
    return c if isinstance(c, C) else C("op", ("bool", kv(c)))


@model("core::option::Option::or")
def o_or(eng, fr, st, cal, ca, vals, span, dty):
    return [(s, some(f[0], targs(dty)) if i == 1 else vals[1]) for s, i, f in opt(eng, st, vals[0], ca)]


@model("core::option::Option::or_else")
def o_or_else(eng, fr, st, cal, ca, vals, span, dty):
    out = []
    for s, i, f in opt(eng, st, vals[0], ca):
        if i == 1:
            out.append((s, some(f[0], targs(dty))))
        else:
            out += eng.call_value(fr, s, vals[1], [], span, dty)
    return out


@model("core::option::Option::ok_or")
def o_ok_or(eng, fr, st, cal, ca, vals, span, dty):
    return [(s, ok(f[0], targs(dty)) if i == 1 else err(vals[1], targs(dty))) for s, i, f in opt(eng, st, vals[0], ca)]


@model("core::option::Option::ok_or_else")
def o_ok_or_else(eng, fr, st, cal, ca, vals, span, dty):
    out = []
    t = targs(dty)
    for s, i, f in opt(eng, st, vals[0], ca):
        if i == 1:
            out.append((s, ok(f[0], t)))
        else:
            out += [(s2, err(v, t)) for s2, v in eng.call_value(fr, s, vals[1], [], span, t[1])]
    return out


def optref(eng, st, v, ca, wrapty):
    """cases of an enum behind a reference, with the reference's place when known"""
    r = eng.expand(st, v)
    val = deref(eng, st, r)
    return r, cases(eng, st, val, wrapty)


@model("core::option::Option::is_some", "core::option::Option::is_none")
def o_is_some(eng, fr, st, cal, ca, vals, span, dty):
    want = 1 if cal["f"].endswith("is_some") else 0
    _, cs = optref(eng, st, vals[0], ca, oty(ca[0]))
    return [(s, TRUE if i == want else FALSE) for s, i, f in cs]


@model("core::result::Result::is_ok", "core::result::Result::is_err")
def r_is_ok(eng, fr, st, cal, ca, vals, span, dty):
    want = 0 if cal["f"].endswith("is_ok") else 1
    _, cs = optref(eng, st, vals[0], ca, rty(ca[0], ca[1]))
    return [(s, TRUE if i == want else FALSE) for s, i, f in cs]


@model("core::option::Option::is_some_and", "core::option::Option::is_none_or")
def o_is_some_and(eng, fr, st, cal, ca, vals, span, dty):
    out = []
    neg = FALSE if cal["f"].endswith("is_some_and") else TRUE
    for s, i, f in opt(eng, st, vals[0], ca):
        if i == 1:
            out += eng.call_value(fr, s, vals[1], [f[0]], span, dty)
        else:
            out.append((s, neg))
    return out


@model("core::option::Option::as_ref", "core::option::Option::as_mut")
def o_as_ref(eng, fr, st, cal, ca, vals, span, dty):
    r, cs = optref(eng, st, vals[0], ca, oty(ca[0]))
    out = []
    for s, i, f in cs:
        if i == 0:
            out.append((s, none(targs(dty))))
        elif isinstance(r, Ref):
            out.append((s, some(refto(eng, s, Ref(r.cell, r.path + (("v", 1), ("f", 0, ca[0]))), ca[0], f[0]), targs(dty))))
        else:
            eng.nsym += 1
            cell = ("h", "asref", eng.nsym)
            s.cells[cell] = f[0]
            out.append((s, some(Ref(cell), targs(dty))))
    return out


def refto(eng, st, ref, ty, val):
    return ref


@model("core::result::Result::as_ref")
def r_as_ref(eng, fr, st, cal, ca, vals, span, dty):
    r, cs = optref(eng, st, vals[0], ca, rty(ca[0], ca[1]))
    out = []
    for s, i, f in cs:
        eng.nsym += 1
        cell = ("h", "asref", eng.nsym)
        s.cells[cell] = f[0]
        out.append((s, Adt(RES, i, "Ok" if i == 0 else "Err", [Ref(cell)], targs(dty))))
    return out


@model("core::option::Option::as_deref")
def o_as_deref(eng, fr, st, cal, ca, vals, span, dty):
    r, cs = optref(eng, st, vals[0], ca, oty(ca[0]))
    out = []
    for s, i, f in cs:
        if i == 0:
            out.append((s, none(targs(dty))))
        else:
            out.append((s, some(as_slice(eng, s, f[0]), targs(dty))))
    return out


@model("core::option::Option::copied", "core::option::Option::cloned", "core::option::{core::option::Option<&T>}::copied")
def o_copied(eng, fr, st, cal, ca, vals, span, dty):
    out = []
    for s, i, f in cases(eng, st, vals[0], oty(("ref", ca[0], False))):
        out.append((s, some(deref(eng, s, f[0]), targs(dty)) if i == 1 else none(targs(dty))))
    return out


@model("core::option::Option::flatten")
def o_flatten(eng, fr, st, cal, ca, vals, span, dty):
    return [(s, f[0] if i == 1 else none(targs(dty))) for s, i, f in cases(eng, st, vals[0], oty(oty(ca[0])))]


@model("core::option::Option::take")
def o_take(eng, fr, st, cal, ca, vals, span, dty):
    s = st.fork()
    r = eng.expand(s, vals[0])
    old = deref(eng, s, r)
    if isinstance(r, Ref):
        eng.store(s, r.cell, r.path, none(targs(dty)))
    return [(s, old)]


@model("core::option::Option::replace")
def o_replace(eng, fr, st, cal, ca, vals, span, dty):
    s = st.fork()
    r = eng.expand(s, vals[0])
    old = deref(eng, s, r)
    if isinstance(r, Ref):
        eng.store(s, r.cell, r.path, some(vals[1], targs(dty)))
    return [(s, old)]


@model("core::option::Option::transpose")
def o_transpose(eng, fr, st, cal, ca, vals, span, dty):
    out = []
    t = targs(dty)
    for s, i, f in cases(eng, st, vals[0], oty(rty(ca[0], ca[1] if len(ca) > 1 else ("other", "?")))):
        if i == 0:
            out.append((s, ok(none(), t)))
            continue
        for s2, j, g in cases(eng, s, f[0], rty(ca[0], ca[1])):
            out.append((s2, ok(some(g[0], (ca[0],)), t) if j == 0 else err(g[0], t)))
    return out


@model("core::result::Result::transpose")
def r_transpose(eng, fr, st, cal, ca, vals, span, dty):
    out = []
    t = targs(dty)
    for s, i, f in cases(eng, st, vals[0], rty(oty(ca[0]), ca[1])):
        if i == 1:
            out.append((s, some(err(f[0], (ca[0], ca[1])), t)))
            continue
        for s2, j, g in cases(eng, s, f[0], oty(ca[0])):
            out.append((s2, some(ok(g[0], (ca[0], ca[1])), t) if j == 1 else none(t)))
    return out


@model("core::result::Result::map")
def r_map(eng, fr, st, cal, ca, vals, span, dty):
    out = []
    t = targs(dty)
    for s, i, f in res(eng, st, vals[0], ca):
        if i == 0:
            out += [(s2, ok(v, t)) for s2, v in eng.call_value(fr, s, vals[1], [f[0]], span, t[0])]
        else:
            out.append((s, err(f[0], t)))
    return out


@model("core::result::Result::map_err")
def r_map_err(eng, fr, st, cal, ca, vals, span, dty):
    out = []
    t = targs(dty)
    for s, i, f in res(eng, st, vals[0], ca):
        if i == 1:
            out += [(s2, err(v, t)) for s2, v in eng.call_value(fr, s, vals[1], [f[0]], span, t[1])]
        else:
            out.append((s, ok(f[0], t)))
    return out


@model("core::result::Result::and_then")
def r_and_then(eng, fr, st, cal, ca, vals, span, dty):
    out = []
    for s, i, f in res(eng, st, vals[0], ca):
        if i == 0:
            out += eng.call_value(fr, s, vals[1], [f[0]], span, dty)
        else:
            out.append((s, err(f[0], targs(dty))))
    return out


@model("core::result::Result::or_else")
def r_or_else(eng, fr, st, cal, ca, vals, span, dty):
    out = []
    for s, i, f in res(eng, st, vals[0], ca):
        if i == 1:
            out += eng.call_value(fr, s, vals[1], [f[0]], span, dty)
        else:
            out.append((s, ok(f[0], targs(dty))))
    return out


@model("core::result::Result::map_or", "core::result::Result::map_or_else")
def r_map_or(eng, fr, st, cal, ca, vals, span, dty):
    out = []
    for s, i, f in res(eng, st, vals[0], ca):
        if i == 0:
            out += eng.call_value(fr, s, vals[2], [f[0]], span, dty)
        elif cal["f"].endswith("map_or"):
            out.append((s, vals[1]))
        else:
            out += eng.call_value(fr, s, vals[1], [f[0]], span, dty)
    return out


@model("core::result::Result::ok", "core::result::Result::err")
def r_ok(eng, fr, st, cal, ca, vals, span, dty):
    w = 0 if cal["f"].endswith("ok") else 1
    return [(s, some(f[0], targs(dty)) if i == w else none(targs(dty))) for s, i, f in res(eng, st, vals[0], ca)]


@model("core::ops::try_trait::Try::branch")
def m_branch(eng, fr, st, cal, ca, vals, span, dty):
    t = ca[0]
    out = []
    a = targs(dty)
    for s, i, f in cases(eng, st, vals[0], t):
        if t[1] == OPT:
            if i == 1:
                out.append((s, Adt(CF, 0, "Continue", [f[0]], a)))
            else:
                out.append((s, Adt(CF, 1, "Break", [none()], a)))
        else:
            if i == 0:
                out.append((s, Adt(CF, 0, "Continue", [f[0]], a)))
            else:
                out.append((s, Adt(CF, 1, "Break", [err(f[0], (("never",), t[2][1]))], a)))
    return out


@model("core::ops::try_trait::Try::from_output")
def m_from_output(eng, fr, st, cal, ca, vals, span, dty):
    if dty[1] == OPT:
        return [(st, some(vals[0], targs(dty)))]
    return [(st, ok(vals[0], targs(dty)))]


@model("core::ops::try_trait::FromResidual::from_residual")
def m_residual(eng, fr, st, cal, ca, vals, span, dty):
    if dty[0] == "adt" and dty[1] == OPT:
        return [(st, none(targs(dty)))]
    out = []
    src = ca[1][2][1] if len(ca) > 1 and ca[1][0] == "adt" and len(ca[1][2]) > 1 else None
    dst = dty[2][1] if dty[0] == "adt" and len(dty[2]) > 1 else None
    for s, i, f in cases(eng, st, vals[0], ca[1] if len(ca) > 1 else rty(("never",), ("other", "?"))):
        if src == dst or src is None:
            out.append((s, err(f[0], targs(dty))))
        else:
            for s2, v in convert(eng, fr, s, f[0], src, dst, span):
                out.append((s2, err(v, targs(dty))))
    return out


def convert(eng, fr, st, v, src, dst, span):
    """From<src> for dst."""
    if src == dst:
        return [(st, v)]
    r = eng.find_impl("core::convert::From", (dst, src))
    if r and r[2] is not None:
        c, im, s = r
        for it in im["items"]:
            if it["name"] == "from":
                fn = eng.by_id.get(it["id"])
                if fn and fn.body:
                    return eng.run(fn, dict(s), [v], st, fr)
    if dst[0] == "int" and src[0] in ("int", "bool", "char"):
        return [(st, eng.as_int(st, v))]
    if dst[0] == "adt" and dst[1] == "alloc::boxed::Box" and dst[2][0] == src:
        s = st.fork()
        eng.nsym += 1
        cell = ("h", "box", eng.nsym)
        s.cells[cell] = v
        return [(s, It("box", cell=cell))]
    if dst[0] == "adt" and dst[1] == OPT and dst[2][0] == src:
        return [(st, some(v, dst[2]))]
    if dst[0] == "adt" and dst[1] == "alloc::string::String" and isinstance(eng.expand(st, v), Sl):
        sl = eng.expand(st, v)
        return [(st, It("string", n=sl.n, region=sl.region if sl.start == const(0) else eng.region("string", sl.n)))]
    s = st.fork()
    return [(s, Term("from", (v,), dst) if dst[0] not in ("int", "bool", "adt", "tuple") else eng.mk(s, dst, "from"))]


@model("core::convert::Into::into")
def m_into(eng, fr, st, cal, ca, vals, span, dty):
    return convert(eng, fr, st, vals[0], ca[0], dty if dty[0] != "other" else ca[1], span)


@model("core::convert::From::from")
def m_from(eng, fr, st, cal, ca, vals, span, dty):
    return convert(eng, fr, st, vals[0], ca[1], ca[0], span)


def try_convert(eng, fr, st, v, src, dst, span, dty):
    r = eng.find_impl("core::convert::TryFrom", (dst, src))
    if r:
        c, im, s = r
        for it in im["items"]:
            if it["name"] == "try_from":
                fn = eng.by_id.get(it["id"])
                if fn and fn.body:
                    return eng.run(fn, dict(s), [v], st, fr)
    v = eng.expand(st, v)
    t = targs(dty)
    if dst[0] == "int":
        x = eng.as_int(st, v)
        lo, hi = RANGES[dst[1]]
        c = C("and", C("ge", x - lo), C("ge", -x + hi))
        a, b = eng.branch(st, c)
        out = [(s, ok(x, t)) for s in a]
        for s in b[:1]:
            s = st.fork() if len(b) > 1 else s
            out.append((s, err(Sym(("tryfromint", span[1]), t[1] if len(t) > 1 else ("other", "?")), t)))
        return out
    if dst == ("char",) and src == ("int", "u32"):
        return to_char(eng, st, v, t, True)
    arr = None
    if dst[0] == "ref" and dst[1][0] == "array":
        arr = dst[1]
    elif dst[0] == "array":
        arr = dst
    if arr is not None and isinstance(v, Ref):
        v = deref(eng, st, v)
    if arr is not None and isinstance(v, (Sl, It)):
        v = as_slice(eng, st, v)
        n = eng.cval(arr[2])
        a, b = eng.branch(st, C("eq", v.n - n))
        out = []
        for s in a:
            if dst[0] == "ref":
                out.append((s, ok(Sl(v.region, v.start, n, v.ety, v.esz, "array"), t)))
            else:
                out.append((s, ok(Term("load", (v.region, v.start, n), v.ety), t)))
        for s in b:
            out.append((s, err(Sym(("tryfromslice", span[1]), t[1] if len(t) > 1 else ("other", "?")), t)))
        return out
    r = eng.find_impl("core::convert::From", (dst, src))
    if src == dst or r:
        return [(s, ok(x, t)) for s, x in convert(eng, fr, st, v, src, dst, span)]
    s = st.fork()
    return [(s, eng.mk(s, dty, "try_from"))]


def to_char(eng, st, v, t, result):
    """The character with the number v, if there is one."""
    x = eng.as_int(st, v)
    out, rest = [], [st]
    for lo, hi in ((0, 0xD7FF), (0xE000, 0x10FFFF)):
        nxt = []
        for s in rest:
            a, b = eng.branch(s, C("and", C("ge", x - lo), C("ge", -x + hi)))
            out += [(q, ok(x, t) if result else some(x, t)) for q in a]
            nxt += b
        rest = nxt
    return out + [(s, err(Sym("nochar", t[1] if len(t) > 1 else ("other", "?")), t) if result else none(t)) for s in rest]


@model("core::char::from_u32", "core::char::convert::from_u32", "core::char::methods::{char}::from_u32")
def m_from_u32(eng, fr, st, cal, ca, vals, span, dty):
    return to_char(eng, st, vals[0], targs(dty), False)


@model("core::convert::TryInto::try_into")
def m_try_into(eng, fr, st, cal, ca, vals, span, dty):
    return try_convert(eng, fr, st, vals[0], ca[0], ca[1], span, dty)


@model("core::convert::TryFrom::try_from")
def m_try_from(eng, fr, st, cal, ca, vals, span, dty):
    return try_convert(eng, fr, st, vals[0], ca[1], ca[0], span, dty)


# ---------------------------------------------------------------------------- integers
@intmodel("checked_add", "checked_sub", "checked_mul")
def i_checked(t, eng, fr, st, cal, ca, vals, span, dty):
    a, b = eng.as_int(st, vals[0]), eng.as_int(st, vals[1])
    n = cal["f"].rsplit("_", 1)[1]
    r = a + b if n == "add" else a - b if n == "sub" else a.mul(b)
    lo, hi = RANGES[t]
    y, nn = eng.branch(st, C("and", C("ge", r - lo), C("ge", -r + hi)))
    return [(s, some(r, targs(dty))) for s in y] + [(s, none(targs(dty))) for s in nn]


@intmodel("checked_div", "checked_rem")
def i_checked_div(t, eng, fr, st, cal, ca, vals, span, dty):
    a, b = eng.as_int(st, vals[0]), eng.as_int(st, vals[1])
    y, nn = eng.branch(st, C("ne", b))
    out = [(s, none(targs(dty))) for s in nn]
    for s in y:
        s = s.fork()
        out.append((s, some(eng.divrem(s, a, b, "Div" if cal["f"].endswith("div") else "Rem", RANGES[t]), targs(dty))))
    return out


@intmodel("saturating_sub", "saturating_add", "saturating_mul")
def i_sat(t, eng, fr, st, cal, ca, vals, span, dty):
    a, b = eng.as_int(st, vals[0]), eng.as_int(st, vals[1])
    n = cal["f"].rsplit("_", 1)[1]
    r = a + b if n == "add" else a - b if n == "sub" else a.mul(b)
    lo, hi = RANGES[t]
    over, rest = eng.branch(st, C("ge", r - hi - 1))
    out = [(s, const(hi)) for s in over]
    for s in rest:
        under, mid = eng.branch(s, C("ge", -r + lo - 1))
        out += [(x, const(lo)) for x in under] + [(x, r) for x in mid]
    return out


@intmodel("wrapping_add", "wrapping_sub", "wrapping_mul", "unchecked_add", "unchecked_sub", "unchecked_mul")
def i_wrap(t, eng, fr, st, cal, ca, vals, span, dty):
    a, b = eng.as_int(st, vals[0]), eng.as_int(st, vals[1])
    n = cal["f"].rsplit("_", 1)[1]
    r = a + b if n == "add" else a - b if n == "sub" else a.mul(b)
    if "unchecked" in cal["f"]:
        lo, hi = RANGES[t]
        eng.oblig("mem", fr, span[1], "unchecked_" + n, eng.entails(st, r - lo) and eng.entails(st, -r + hi), "unchecked arithmetic may overflow", st)
    s = st.fork()
    return [(s, eng.wrap(s, r, ("int", t)))]


@intmodel("wrapping_neg", "count_ones", "leading_zeros", "trailing_zeros", "swap_bytes", "pow", "isqrt", "reverse_bits", "rotate_left", "rotate_right")
def i_opaque(t, eng, fr, st, cal, ca, vals, span, dty):
    lo, hi = RANGES[dty[1]] if dty[0] == "int" else RANGES[t]
    return [(st, eng.A.get((cal["f"],) + tuple(kv(v) for v in vals), lo, hi))]


@intmodel("is_power_of_two")
def i_pow2(t, eng, fr, st, cal, ca, vals, span, dty):
    return [(st, C("op", ("pow2", kv(vals[0]))))]


@intmodel("abs_diff")
def i_absdiff(t, eng, fr, st, cal, ca, vals, span, dty):
    a, b = eng.as_int(st, vals[0]), eng.as_int(st, vals[1])
    y, n = eng.branch(st, C("ge", a - b))
    return [(s, a - b) for s in y] + [(s, b - a) for s in n]


@intmodel("div_ceil", "next_multiple_of")
def i_divceil(t, eng, fr, st, cal, ca, vals, span, dty):
    a, b = eng.as_int(st, vals[0]), eng.as_int(st, vals[1])
    eng.oblig("panic", fr, span[1], "div by zero", eng.cond(st, C("ne", b)) is True, "division by zero", st)
    s = st.fork()
    q = eng.divrem(s, a, b, "Div", RANGES[t])
    qb = q.mul(b)
    out = []
    x, y = eng.branch(s, C("eq", a - qb))
    if cal["f"].endswith("div_ceil"):
        return [(z, q) for z in x] + [(z, q + 1) for z in y]
    for z in y:
        eng.oblig("panic", fr, span[1], "overflow Add", eng.entails(z, -(qb + b) + RANGES[t][1]), "the next multiple may overflow: %s" % eng.show(C("ge", -(qb + b) + RANGES[t][1])), z)
    return [(z, a) for z in x] + [(z, qb + b) for z in y]


@intmodel("checked_next_multiple_of")
def i_checked_mult(t, eng, fr, st, cal, ca, vals, span, dty):
    a, b = eng.as_int(st, vals[0]), eng.as_int(st, vals[1])
    lo, hi = RANGES[t]
    s, n = st.fork(), st.fork()
    r = eng.A.fresh("multiple", lo, hi) if hasattr(eng.A, "fresh") else eng.A.get(("checked_next_multiple_of", kv(vals[0]), kv(vals[1])), lo, hi)
    eng.add_ge(s, r - a)
    if b.is_const():
        eng.add_div(s, r, b)
    return [(s, some(r, targs(dty))), (n, none(targs(dty)))]


@intmodel("from_le_bytes", "from_be_bytes", "from_ne_bytes")
def i_from_bytes(t, eng, fr, st, cal, ca, vals, span, dty):
    order = cal["f"].rsplit("_", 2)[1]
    v = eng.expand(st, vals[0])
    if isinstance(v, Sl):
        v = slice_value(eng, st, v)
    if isinstance(v, Term) and v.op == "load" and isinstance(v.args[0], tuple) and v.args[0][0] == "cell":
        v = slice_value(eng, st, Sl(v.args[0], v.args[1], v.args[2], v.ty))
    if isinstance(v, Term) and v.op == order + "_bytes" and isinstance(v.args[0], L):
        return [(st, v.args[0])]
    bs = [eng.expand(st, e) for e in v.elems] if isinstance(v, Arr) and order != "ne" else []
    if isinstance(v, Term) and v.op == "repeat" and isinstance(eng.expand(st, v.args[0]), L) and eng.expand(st, v.args[0]) == const(0):
        return [(st, const(0))]
    if bs and all(isinstance(b, L) and b.is_const() for b in bs):
        return [(st, const(int.from_bytes(bytes(b.c & 255 for b in bs), "little" if order == "le" else "big", signed=t[0] == "i")))]
    if bs:
        # consecutive bytes of one region
        src = [eng.A.info[next(iter(b.t))[0]][0] if isinstance(b, L) and b.c == 0 and len(b.t) == 1 and len(next(iter(b.t))) == 1 and next(iter(b.t.values())) == 1 else None for b in bs]
        if all(isinstance(k, tuple) and len(k) == 3 and k[0] == "elem" and isinstance(k[2], L) for k in src) and len({k[1] for k in src}) == 1 and all(
                eng.entails_eq(st, k[2] - src[0][2] - i) for i, k in enumerate(src)):
            v = Term("load", (src[0][1], src[0][2], const(len(src))), ("int", "u8"))
    return [(st, eng.A.get(("bytes", order, t, kv(v)), *RANGES[t]))]


@intmodel("to_le_bytes", "to_be_bytes", "to_ne_bytes")
def i_to_bytes(t, eng, fr, st, cal, ca, vals, span, dty):
    order = cal["f"].rsplit("_", 2)[1]
    return [(st, Term(order + "_bytes", (vals[0], t), ("int", "u8")))]


for _t in ("f32", "f64"):
    def _ffrom(eng, fr, st, cal, ca, vals, span, dty, _t=_t):
        order = cal["f"].rsplit("_", 2)[1]
        v = eng.expand(st, vals[0])
        if isinstance(v, Sl):
            v = Term("load", (v.region, v.start, v.n), v.ety)
        return [(st, Term("f_bytes_" + order, (v,), ("float", _t)))]

    def _fto(eng, fr, st, cal, ca, vals, span, dty, _t=_t):
        order = cal["f"].rsplit("_", 2)[1]
        return [(st, Term(order + "_bytes", (vals[0], _t), ("int", "u8")))]

    for _o in ("le", "be", "ne"):
        M["core::%s::{%s}::from_%s_bytes" % (_t, _t, _o)] = _ffrom
        M["core::%s::{%s}::to_%s_bytes" % (_t, _t, _o)] = _fto


@model("core::cmp::Ord::max", "core::cmp::max")
def i_max(eng, fr, st, cal, ca, vals, span, dty):
    a, b = eng.expand(st, vals[0]), eng.expand(st, vals[1])
    if not isinstance(a, L) or not isinstance(b, L):
        s = st.fork()
        return [(s, eng.mk(s, dty, "max"))]
    y, n = eng.branch(st, C("ge", a - b))
    return [(s, a) for s in y] + [(s, b) for s in n]


@model("core::cmp::Ord::min", "core::cmp::min")
def i_min(eng, fr, st, cal, ca, vals, span, dty):
    a, b = eng.expand(st, vals[0]), eng.expand(st, vals[1])
    if not isinstance(a, L) or not isinstance(b, L):
        s = st.fork()
        return [(s, eng.mk(s, dty, "min"))]
    y, n = eng.branch(st, C("ge", a - b))
    return [(s, b) for s in y] + [(s, a) for s in n]


@model("core::cmp::Ord::clamp")
def i_clamp(eng, fr, st, cal, ca, vals, span, dty):
    out = []
    for s, x in i_max(eng, fr, st, cal, ca, [vals[0], vals[1]], span, dty):
        out += i_min(eng, fr, s, cal, ca, [x, vals[2]], span, dty)
    return out


def eqv(eng, st, a, b):
    a, b = deref_all(eng, st, a), deref_all(eng, st, b)
    if isinstance(a, L) and isinstance(b, L):
        return C("eq", a - b)
    if isinstance(a, C) and isinstance(b, C):
        return eng.cmp(st, "Eq", a, b)
    a, b = slk(eng, st, a), slk(eng, st, b)
    ka, kb = kv(a), kv(b)
    if ka == kb and not isinstance(a, (Term,)) and not (isinstance(a, Sym) and a.ty and a.ty[0] in ("float", "p")):
        return TRUE
    if repr(kb) < repr(ka):
        ka, kb = kb, ka
    return C("op", ("eqv", ka, kb))


def slk(eng, st, a):
    if isinstance(a, It) and a.kind in ("vec", "string"):
        return a
    return a


def enum_eq(eng, st, a, b):
    return None


@model("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne")
def m_eq(eng, fr, st, cal, ca, vals, span, dty):
    r = None
    a, b = deref_all(eng, st, vals[0]), deref_all(eng, st, vals[1])
    out = []
    if isinstance(a, (Adt, Sym)) and isinstance(b, (Adt, Sym)):
        ty = ca[0]
        while ty[0] == "ref":
            ty = ty[1]
        if ty[0] == "adt" and ty[1] in (OPT, RES):
            for s, i, f in cases(eng, st, a, ty):
                for s2, j, g in cases(eng, s, b, ty):
                    if i != j:
                        out.append((s2, FALSE))
                    elif not f:
                        out.append((s2, TRUE))
                    else:
                        out.append((s2, eqv(eng, s2, f[0], g[0])))
        elif ty[0] == "adt" and ty[1] in eng.adts:
            for s, i, f in ([(st, a.vi, a.fields)] if isinstance(a, Adt) else []) :
                pass
    if not out:
        # &A == &B with a local impl for A
        ty, ty2 = ca[0], ca[1] if len(ca) > 1 else ca[0]
        va, vb = vals[0], vals[1]
        while ty[0] == "ref" and ty2[0] == "ref":
            ty, ty2 = ty[1], ty2[1]
            va, vb = deref(eng, st, va), deref(eng, st, vb)
        r = eng.find_impl("core::cmp::PartialEq", (ty, ty2))
        if r and ty is not ca[0]:
            for it in r[1]["items"]:
                if it["name"] == "eq":
                    fn = eng.by_id.get(it["id"])
                    if fn and fn.body:
                        out = eng.run(fn, dict(r[2]), [va, vb], st, fr)
    if not out:
        out = [(st, eqv(eng, st, vals[0], vals[1]))]
    if cal["f"].endswith("ne"):
        out = [(s, cnot(boolv(c))) for s, c in out]
    return out


@model("core::cmp::PartialOrd::lt", "core::cmp::PartialOrd::le", "core::cmp::PartialOrd::gt", "core::cmp::PartialOrd::ge")
def m_ord(eng, fr, st, cal, ca, vals, span, dty):
    op = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[cal["f"].rsplit("::", 1)[1]]
    a, b = deref_all(eng, st, vals[0]), deref_all(eng, st, vals[1])
    return [(st, eng.cmp(st, op, a, b))]


def nzdiv(op):
    def f(eng, fr, st, cal, ca, vals, span, dty):
        a, b = deref_all(eng, st, vals[0]), deref_all(eng, st, vals[1])
        if not isinstance(a, L) or not isinstance(b, L):
            return None
        s = st.fork()
        if op in ("Div", "Rem"):
            eng.oblig("panic", fr, span[1], "div by zero", eng.cond(s, C("ne", b)) is True, "division by zero", s)
            return [(s, eng.divrem(s, a, b, op, RANGES.get(dty[1], (0, USIZE_MAX))))]
        r = a + b if op == "Add" else a - b if op == "Sub" else a.mul(b)
        if dty[0] == "int":
            lo, hi = RANGES[dty[1]]
            good = eng.entails(s, r - lo) and eng.entails(s, -r + hi)
            eng.oblig("panic", fr, span[1], "overflow " + op, good, "arithmetic overflow", s)
            r = eng.wrap(s, r, dty)
        return [(s, r)]
    return f


for _n in ("Div", "Rem", "Add", "Sub", "Mul"):
    M["core::ops::arith::%s::%s" % (_n, _n.lower())] = nzdiv(_n)


def nzassign(op):
    f = nzdiv(op)

    def g(eng, fr, st, cal, ca, vals, span, dty):
        r = eng.expand(st, vals[0])
        t = ca[0]
        out = []
        res = f(eng, fr, st, cal, ca, [deref(eng, st, r), vals[1]], span, t)
        if res is None:
            return None
        for s, v in res:
            if isinstance(r, Ref):
                eng.store(s, r.cell, r.path, v)
            out.append((s, UNIT))
        return out
    return g


for _n in ("Div", "Rem", "Add", "Sub", "Mul"):
    M["core::ops::arith::%sAssign::%s_assign" % (_n, _n.lower())] = nzassign(_n)


@model("core::num::nonzero::NonZero::new")
def nz_new(eng, fr, st, cal, ca, vals, span, dty):
    x = eng.as_int(st, vals[0])
    y, n = eng.branch(st, C("ne", x))
    return [(s, some(x, targs(dty))) for s in y] + [(s, none(targs(dty))) for s in n]


@model("core::num::nonzero::NonZero::new_unchecked")
def nz_newu(eng, fr, st, cal, ca, vals, span, dty):
    x = eng.as_int(st, vals[0])
    eng.oblig("mem", fr, span[1], "NonZero::new_unchecked", eng.cond(st, C("ne", x)) is True, "NonZero::new_unchecked of a possible zero", st)
    return [(st, x)]


@model("core::num::nonzero::NonZero::get")
def nz_get(eng, fr, st, cal, ca, vals, span, dty):
    return [(st, deref_all(eng, st, vals[0]))]


# ---------------------------------------------------------------------------- slices
def as_slice(eng, st, v):
    """Sl view of a slice-like value (possibly behind references)."""
    v = eng.expand(st, v)
    n = 0
    while isinstance(v, Ref) and n < 5:
        cell, path = v.cell, v.path
        w = eng.expand(st, eng.load(st, cell, path))
        if isinstance(w, (Arr,)) or (isinstance(w, Term) and not (w.ty and w.ty[0] in ("ref", "ptr"))):
            ln = arrlen(eng, w)
            reg = ("cell", cell, path)
            eng.rsize[reg] = ln
            return Sl(reg, const(0), ln, ("other", "?"), kind="array")
        v = w
        n += 1
    if isinstance(v, Sl):
        return v
    if isinstance(v, It):
        if v.kind == "vec":
            r = eng.region("vec", v.f["n"])
            return Sl(r, const(0), v.f["n"], v.f["ety"])
        if v.kind == "string":
            return Sl(v.f["region"], const(0), v.f["n"], ("int", "u8"), kind="str")
        if v.kind == "arrplace":
            return v.f["sl"]
        if v.kind == "box":
            return as_slice(eng, st, Ref(v.f["cell"]))
    if isinstance(v, Adt) and v.path == "alloc::borrow::Cow":
        return as_slice(eng, st, v.fields[0])
    if isinstance(v, (Arr, Term)):
        ln = arrlen(eng, v)
        eng.nsym += 1
        cell = ("h", "arr", eng.nsym)
        st.cells[cell] = v
        reg = ("cell", cell, ())
        eng.rsize[reg] = ln
        return Sl(reg, const(0), ln, ("other", "?"), kind="array")
    n = eng.A.get(("len", kv(v)), 0, ISIZE_MAX)
    reg = ("of", kv(v))
    eng.rsize[reg] = n
    t = ("int", "u8")
    kind = "slice"
    if isinstance(v, Sym) and v.ty[0] == "ref":
        if v.ty[1][0] == "slice":
            t = v.ty[1][1]
        elif v.ty[1][0] == "str":
            kind = "str"
    return Sl(reg, const(0), n, t, kind=kind)


def arrlen(eng, v):
    if isinstance(v, Arr):
        return const(len(v.elems))
    if isinstance(v, Term):
        if v.op == "load":
            return v.args[2]
        if v.op.endswith("_bytes") and v.args and len(v.args) > 1:
            return const(int(v.args[1][1:]) // 8 if not v.args[1].endswith("size") else 8)
        if v.op == "map":
            return arrlen(eng, v.args[0])
        if v.ty and v.ty[0] == "array":
            return eng.cval(v.ty[2])
        if v.op.startswith("upd") and v.args:
            return arrlen(eng, v.args[0])
        if v.op == "repeat" and v.ty and v.ty[0] == "array":
            return eng.cval(v.ty[2])
    return eng.A.get(("alen", kv(v)), 0, ISIZE_MAX)


def bounds(eng, st, r, n):
    """(lo, hi) of a range index over a slice of n elements; None when r is not a range."""
    r = eng.expand(st, r)
    if isinstance(r, Adt):
        k = r.path.rsplit("::", 1)[1]
        if k == "Range":
            return r.fields[0], r.fields[1]
        if k == "RangeFrom":
            return r.fields[0], n
        if k == "RangeTo":
            return const(0), r.fields[0]
        if k == "RangeToInclusive":
            return const(0), r.fields[0] + 1
        if k == "RangeFull":
            return const(0), n
    if isinstance(r, It) and r.kind == "rinc":
        return r.f["start"], r.f["end"] + 1
    return None


def sub_slice(sl, lo, hi):
    return Sl(sl.region, sl.start + (lo.scale(sl.esz) if isinstance(sl.esz, int) else lo.mul(sl.esz)), hi - lo, sl.ety, sl.esz, "str" if sl.kind == "str" else "slice")


def elem_ref(eng, st, sl, i):
    eng.noteelem(sl, i)
    return eng.addr(st, ("e", sl, i, ()), ("ref", sl.ety, False), False)


@model("core::slice::{[T]}::len", "core::str::{str}::len", "alloc::vec::Vec::len", "alloc::string::String::len", "core::array::{[T; N]}::len")
def s_len(eng, fr, st, cal, ca, vals, span, dty):
    return [(st, as_slice_len(eng, st, vals[0]))]


def as_slice_len(eng, st, v):
    w = eng.expand(st, v)
    n = 0
    while isinstance(w, Ref) and n < 5:
        w = eng.expand(st, eng.load(st, w.cell, w.path))
        n += 1
    if isinstance(w, It) and w.kind in ("vec", "string"):
        return w.f["n"]
    return as_slice(eng, st, v).n


@model("core::slice::{[T]}::is_empty", "core::str::{str}::is_empty", "alloc::vec::Vec::is_empty", "alloc::string::String::is_empty")
def s_empty(eng, fr, st, cal, ca, vals, span, dty):
    return [(st, C("eq", as_slice_len(eng, st, vals[0])))]


@model("core::slice::{[T]}::get", "core::slice::{[T]}::get_mut", "core::str::{str}::get")
def s_get(eng, fr, st, cal, ca, vals, span, dty):
    sl = as_slice(eng, st, vals[0])
    ix = eng.expand(st, vals[1])
    t = targs(dty)
    if isinstance(ix, L):
        y, n = eng.branch(st, C("ge", sl.n - ix - 1))
        out = []
        for s in y:
            s = s.fork()
            out.append((s, some(elem_ref(eng, s, sl, ix), t)))
        return out + [(s, none(t)) for s in n]
    b = bounds(eng, st, ix, sl.n)
    if b is None:
        s = st.fork()
        return [(s, eng.mk(s, dty, "get"))]
    lo, hi = b
    c = C("and", C("ge", hi - lo), C("ge", sl.n - hi))
    if sl.kind == "str":
        c = C("and", c, C("op", ("charbound", kv(sl), kv(lo), kv(hi))))
    y, n = eng.branch(st, c)
    return [(s, some(sub_slice(sl, lo, hi), t)) for s in y] + [(s, none(t)) for s in n]


@model("core::slice::{[T]}::get_unchecked", "core::slice::{[T]}::get_unchecked_mut")
def s_getu(eng, fr, st, cal, ca, vals, span, dty):
    sl = as_slice(eng, st, vals[0])
    ix = eng.expand(st, vals[1])
    s = st.fork()
    if isinstance(ix, L):
        good = eng.entails(s, sl.n - ix - 1) and eng.entails(s, ix)
        eng.oblig("mem", fr, span[1], "get_unchecked", good, "unchecked index may be out of bounds: %s" % eng.show(sl.n - ix - 1), s)
        eng.add_ge(s, sl.n - ix - 1)
        return [(s, elem_ref(eng, s, sl, ix))]
    b = bounds(eng, s, ix, sl.n)
    if b is None:
        eng.oblig("mem", fr, span[1], "get_unchecked", False, "unchecked index of unknown form", s)
        return [(s, eng.mk(s, dty, "getu"))]
    lo, hi = b
    good = eng.entails(s, hi - lo) and eng.entails(s, sl.n - hi)
    eng.oblig("mem", fr, span[1], "get_unchecked", good, "unchecked range may be out of bounds: need %s >= 0 and %s >= 0" % (eng.show(hi - lo), eng.show(sl.n - hi)), s)
    eng.add_ge(s, hi - lo)
    eng.add_ge(s, sl.n - hi)
    return [(s, sub_slice(sl, lo, hi))]


@model("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut")
def s_index(eng, fr, st, cal, ca, vals, span, dty):
    sl = as_slice(eng, st, vals[0])
    ix = eng.expand(st, vals[1])
    if isinstance(ix, Ref):
        ix = deref(eng, st, ix)
    if isinstance(ix, L):
        c = C("ge", sl.n - ix - 1)
        eng.oblig("panic", fr, span[1], "index", eng.cond(st, c) is True, "index may be out of bounds: %s" % eng.show(c), st)
        out = []
        for s in eng.assume(st, c):
            s = s.fork()
            out.append((s, elem_ref(eng, s, sl, ix)))
        return out
    b = bounds(eng, st, ix, sl.n)
    if b is None:
        s = st.fork()
        eng.oblig("panic", fr, span[1], "index", False, "index by a value whose bounds are unknown", s)
        return [(s, eng.mk(s, dty, "index"))]
    lo, hi = b
    c = C("and", C("ge", hi - lo), C("ge", sl.n - hi))
    good = eng.cond(st, c) is True and sl.kind != "str"
    eng.oblig("panic", fr, span[1], "index range", good, "range may be out of bounds: need %s" % eng.show(c), st)
    return [(s, sub_slice(sl, lo, hi)) for s in eng.assume(st, c)]


@model("core::slice::{[T]}::first", "core::slice::{[T]}::last", "core::slice::{[T]}::first_mut", "core::slice::{[T]}::last_mut")
def s_first(eng, fr, st, cal, ca, vals, span, dty):
    sl = as_slice(eng, st, vals[0])
    y, n = eng.branch(st, C("ge", sl.n - 1))
    out = []
    for s in y:
        s = s.fork()
        out.append((s, some(elem_ref(eng, s, sl, const(0) if "first" in cal["f"] else sl.n - 1), targs(dty))))
    return out + [(s, none(targs(dty))) for s in n]


@model("core::slice::{[T]}::split_first", "core::slice::{[T]}::split_last")
def s_split_first(eng, fr, st, cal, ca, vals, span, dty):
    sl = as_slice(eng, st, vals[0])
    y, n = eng.branch(st, C("ge", sl.n - 1))
    out = []
    for s in y:
        s = s.fork()
        if cal["f"].endswith("first"):
            t = Tup([elem_ref(eng, s, sl, const(0)), sub_slice(sl, const(1), sl.n)])
        else:
            t = Tup([elem_ref(eng, s, sl, sl.n - 1), sub_slice(sl, const(0), sl.n - 1)])
        out.append((s, some(t, targs(dty))))
    return out + [(s, none(targs(dty))) for s in n]


@model("core::slice::{[T]}::split_at_mut", "core::slice::{[T]}::split_at")
def s_split_at(eng, fr, st, cal, ca, vals, span, dty):
    sl = as_slice(eng, st, vals[0])
    m = eng.as_int(st, vals[1])
    c = C("ge", sl.n - m)
    eng.oblig("panic", fr, span[1], "split_at", eng.cond(st, c) is True, "split point may be past the end: %s" % eng.show(c), st)
    return [(s, Tup([sub_slice(sl, const(0), m), sub_slice(sl, m, sl.n)])) for s in eng.assume(st, c)]


@model("core::slice::{[T]}::split_at_checked", "core::slice::{[T]}::split_at_mut_checked")
def s_split_at_checked(eng, fr, st, cal, ca, vals, span, dty):
    sl = as_slice(eng, st, vals[0])
    m = eng.as_int(st, vals[1])
    y, n = eng.branch(st, C("ge", sl.n - m))
    return [(s, some(Tup([sub_slice(sl, const(0), m), sub_slice(sl, m, sl.n)]), targs(dty))) for s in y] + [(s, none(targs(dty))) for s in n]


@model("core::slice::{[T]}::split_at_unchecked", "core::slice::{[T]}::split_at_mut_unchecked")
def s_split_at_un(eng, fr, st, cal, ca, vals, span, dty):
    sl = as_slice(eng, st, vals[0])
    m = eng.as_int(st, vals[1])
    c = C("ge", sl.n - m)
    eng.oblig("mem", fr, span[1], "split_at_unchecked", eng.cond(st, c) is True, "split point may be past the end: %s" % eng.show(c), st)
    return [(s, Tup([sub_slice(sl, const(0), m), sub_slice(sl, m, sl.n)])) for s in eng.assume(st, c)]


@model("core::slice::{[T]}::first_chunk", "core::slice::{[T]}::last_chunk", "core::slice::{[T]}::as_array")
def s_first_chunk(eng, fr, st, cal, ca, vals, span, dty):
    sl = as_slice(eng, st, vals[0])
    n = eng.cval(ca[1])
    c = C("eq", sl.n - n) if cal["f"].endswith("as_array") else C("ge", sl.n - n)
    y, no = eng.branch(st, c)
    lo = sl.n - n if "last" in cal["f"] else const(0)
    return [(s, some(Sl(sl.region, sl.start + lo, n, sl.ety, sl.esz, "array"), targs(dty))) for s in y] + [(s, none(targs(dty))) for s in no]


@model("core::slice::{[T]}::copy_from_slice", "core::slice::{[T]}::clone_from_slice")
def s_copy(eng, fr, st, cal, ca, vals, span, dty):
    d, sr = as_slice(eng, st, vals[0]), as_slice(eng, st, vals[1])
    c = C("eq", d.n - sr.n)
    eng.oblig("panic", fr, span[1], "copy_from_slice", eng.cond(st, c) is True, "source and destination lengths may differ: %s" % eng.show(c), st)
    out = []
    for s in eng.assume(st, c):
        s = s.fork()
        val = slice_value(eng, s, sr)
        eng.region_write(s, d.region, d.start, d.n.scale(d.esz) if isinstance(d.esz, int) else d.n, val)
        write_cell_region(eng, s, d, val)
        out.append((s, UNIT))
    return out


def slice_value(eng, st, sl):
    """What the slice holds, when it is a local array."""
    if isinstance(sl.region, tuple) and sl.region[0] == "cell" and sl.start == const(0):
        try:
            return eng.expand(st, eng.load(st, sl.region[1], sl.region[2]))
        except Stop:
            pass
    return Term("load", (sl.region, sl.start, sl.n), sl.ety)


def write_cell_region(eng, st, sl, val):
    """Local arrays live in cells; a write through a slice of one makes its content unknown."""
    if isinstance(sl.region, tuple) and sl.region[0] == "cell":
        try:
            old = eng.load(st, sl.region[1], sl.region[2])
        except Stop:
            return
        n = arrlen(eng, eng.expand(st, old)) if isinstance(eng.expand(st, old), (Arr, Term)) else sl.n
        eng.nsym += 1
        eng.store(st, sl.region[1], sl.region[2], Term("load", (("written", eng.nsym), const(0), n), sl.ety))


@model("core::slice::{[T]}::fill")
def s_fill(eng, fr, st, cal, ca, vals, span, dty):
    d = as_slice(eng, st, vals[0])
    s = st.fork()
    eng.region_write(s, d.region, d.start, d.n.scale(d.esz), vals[1])
    write_cell_region(eng, s, d, vals[1])
    return [(s, UNIT)]


@model("core::slice::{[T]}::as_ptr", "core::slice::{[T]}::as_mut_ptr", "alloc::vec::Vec::as_ptr", "alloc::vec::Vec::as_mut_ptr", "core::str::{str}::as_ptr")
def s_ptr(eng, fr, st, cal, ca, vals, span, dty):
    sl = as_slice(eng, st, vals[0])
    return [(st, Ptr(sl.region, sl.start, sl.ety, sl.esz))]


@model("core::str::{str}::as_bytes", "alloc::string::String::as_str", "alloc::string::String::as_bytes", "alloc::vec::Vec::as_slice", "alloc::vec::Vec::as_mut_slice", "core::array::{[T; N]}::as_slice",
       "core::array::{[T; N]}::as_mut_slice", "core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut", "core::convert::AsRef::as_ref", "core::borrow::Borrow::borrow", "alloc::string::String::as_mut_str")
def s_as_slice(eng, fr, st, cal, ca, vals, span, dty):
    s = st.fork()
    if dty[0] == "ref" and dty[1][0] not in ("slice", "str", "array"):
        v = eng.expand(s, vals[0])
        w = deref(eng, s, v)
        if isinstance(w, It) and w.kind == "box":
            return [(s, Ref(w.f["cell"]))]
        if isinstance(w, Adt) and w.path == "alloc::borrow::Cow":
            return [(s, w.fields[0])]
        return [(s, eng.mk(s, dty, "deref"))]
    sl = as_slice(eng, s, vals[0])
    kind = "str" if dty[0] == "ref" and dty[1][0] == "str" else "slice"
    return [(s, Sl(sl.region, sl.start, sl.n, sl.ety, sl.esz, kind))]


@model("core::str::converts::from_utf8", "core::str::{str}::from_utf8")
def str_from_utf8(eng, fr, st, cal, ca, vals, span, dty):
    sl = as_slice(eng, st, vals[0])
    c = C("op", ("utf8", kv(sl)))
    y, n = eng.branch(st, c)
    t = targs(dty)
    return [(s, ok(Sl(sl.region, sl.start, sl.n, sl.ety, sl.esz, "str"), t)) for s in y] + [
        (s, err(Sym(("utf8err", kv(sl)), t[1]), t)) for s in n]


@model("core::str::converts::from_utf8_unchecked", "core::str::{str}::from_utf8_unchecked")
def str_from_utf8u(eng, fr, st, cal, ca, vals, span, dty):
    sl = as_slice(eng, st, vals[0])
    good = eng.cond(st, C("op", ("utf8", kv(sl)))) is True
    eng.oblig("mem", fr, span[1], "from_utf8_unchecked", good, "bytes turned into str without UTF-8 validation", st)
    return [(st, Sl(sl.region, sl.start, sl.n, sl.ety, sl.esz, "str"))]


@model("alloc::slice::{[T]}::to_vec", "alloc::borrow::ToOwned::to_owned", "alloc::string::ToString::to_string", "alloc::slice::{[T]}::into_vec")
def s_to_vec(eng, fr, st, cal, ca, vals, span, dty):
    if dty[0] == "adt" and dty[1] in ("alloc::vec::Vec", "alloc::string::String"):
        sl = as_slice(eng, st, vals[0])
        if dty[1].endswith("Vec"):
            return [(st, It("vec", n=sl.n, ety=sl.ety))]
        return [(st, It("string", n=sl.n, region=eng.region("string", sl.n)))]
    return [(st, deref(eng, st, vals[0]))]


# ---------------------------------------------------------------------------- raw pointers
def alive(eng, st, region):
    return not st.facts.get(("freed", region))


def esize(p):
    return const(p.esz) if isinstance(p.esz, int) else p.esz


def in_bounds(eng, st, p, n):
    """start >= 0 and start + n <= size of the region (n in units)."""
    size = eng.rsize.get(p.region)
    if size is None:
        return False
    return alive(eng, st, p.region) and eng.entails(st, p.start) and eng.entails(st, size - p.start - n)


def as_ptr(eng, st, v):
    v = eng.expand(st, v)
    if isinstance(v, Ptr):
        return v
    if isinstance(v, Sl):
        return Ptr(v.region, v.start, v.ety, v.esz)
    return None


@model("core::ptr::mut_ptr::{*mut T}::add", "core::ptr::const_ptr::{*const T}::add", "core::ptr::non_null::NonNull::add",
       "core::ptr::mut_ptr::{*mut T}::sub", "core::ptr::const_ptr::{*const T}::sub", "core::ptr::non_null::NonNull::sub",
       "core::ptr::mut_ptr::{*mut T}::offset", "core::ptr::const_ptr::{*const T}::offset", "core::ptr::mut_ptr::{*mut T}::byte_add", "core::ptr::const_ptr::{*const T}::byte_add")
def p_add(eng, fr, st, cal, ca, vals, span, dty):
    p = as_ptr(eng, st, vals[0])
    k = eng.as_int(st, vals[1])
    if p is None:
        eng.oblig("mem", fr, span[1], "pointer arithmetic", False, "pointer arithmetic on an untracked pointer", st)
        s = st.fork()
        return [(s, eng.mk(s, dty, "ptr"))]
    if cal["f"].endswith("sub"):
        k = -k
    d = k.mul(esize(p))
    r = Ptr(p.region, p.start + d, p.ety, p.esz)
    eng.oblig("mem", fr, span[1], "pointer arithmetic", in_bounds(eng, st, r, const(0)), "pointer may leave its allocation: offset %s of size %s" % (
        eng.show(r.start), eng.show(eng.rsize.get(p.region, const(-1)))), st)
    return [(st, r)]


@model("core::ptr::mut_ptr::{*mut T}::cast", "core::ptr::const_ptr::{*const T}::cast", "core::ptr::non_null::NonNull::cast", "core::ptr::mut_ptr::{*mut T}::cast_const", "core::ptr::const_ptr::{*const T}::cast_mut")
def p_cast(eng, fr, st, cal, ca, vals, span, dty):
    p = as_ptr(eng, st, vals[0])
    if p is None:
        return None
    t = dty[1] if dty[0] == "ptr" else (dty[2][0] if dty[0] == "adt" else p.ety)
    return [(st, retype(eng, p, t))]


def retype(eng, p, t):
    if t[0] == "array":
        n = eng.cval(t[2])
        return Ptr(p.region, p.start, t, n.c if n.is_const() else n)
    return Ptr(p.region, p.start, t, 1)


@model("core::ptr::mut_ptr::{*mut T}::write", "core::ptr::write", "core::ptr::non_null::NonNull::write", "core::ptr::write_unaligned", "core::ptr::mut_ptr::{*mut T}::write_unaligned")
def p_write(eng, fr, st, cal, ca, vals, span, dty):
    p = as_ptr(eng, st, vals[0])
    s = st.fork()
    good = p is not None and in_bounds(eng, s, p, esize(p))
    eng.oblig("mem", fr, span[1], "pointer write", good, "raw write may be out of bounds", s)
    if p is not None:
        eng.region_write(s, p.region, p.start, esize(p), vals[1])
    return [(s, UNIT)]


@model("core::ptr::const_ptr::{*const T}::read", "core::ptr::mut_ptr::{*mut T}::read", "core::ptr::read", "core::ptr::read_unaligned", "core::ptr::const_ptr::{*const T}::read_unaligned")
def p_read(eng, fr, st, cal, ca, vals, span, dty):
    p = as_ptr(eng, st, vals[0])
    s = st.fork()
    good = p is not None and in_bounds(eng, s, p, esize(p))
    eng.oblig("mem", fr, span[1], "pointer read", good, "raw read may be out of bounds", s)
    if p is not None and p.region in eng.uninit and not uninit_ty(dty):
        c = s.cov.get(p.region)
        good = isinstance(c, L) and eng.entails(s, c - p.start - esize(p))
        eng.oblig("mem", fr, span[1], "read of uninitialised memory", good, "value read before every element was written (initialised prefix %s of %s)" % (
            eng.show(c) if isinstance(c, L) else "0", eng.show(p.start + esize(p))), s)
    if p is not None and dty[0] == "array":
        return [(s, Term("load", (p.region, p.start, esize(p)), dty[1]))]
    return [(s, eng.mk(s, dty, "read"))]


def uninit_ty(t):
    return (t[0] == "adt" and t[1] == "core::mem::maybe_uninit::MaybeUninit") or (t[0] == "array" and uninit_ty(t[1]))


@model("core::ptr::copy_nonoverlapping", "core::ptr::copy", "core::intrinsics::copy_nonoverlapping", "core::ptr::mut_ptr::{*mut T}::copy_from_nonoverlapping", "core::ptr::const_ptr::{*const T}::copy_to_nonoverlapping")
def p_copy(eng, fr, st, cal, ca, vals, span, dty):
    a, b = vals[0], vals[1]
    if cal["f"].endswith("copy_from_nonoverlapping"):
        a, b = b, a
    a, b = as_ptr(eng, st, a), as_ptr(eng, st, b)
    n = eng.as_int(st, vals[2])
    s = st.fork()
    g1 = a is not None and in_bounds(eng, s, a, n.mul(esize(a)))
    g2 = b is not None and in_bounds(eng, s, b, n.mul(esize(b)))
    eng.oblig("mem", fr, span[1], "copy source", g1, "copy may read out of bounds", s)
    eng.oblig("mem", fr, span[1], "copy destination", g2, "copy may write out of bounds" + ("" if b is None else ": offset %s + %s of size %s" % (
        eng.show(b.start), eng.show(n), eng.show(eng.rsize.get(b.region, const(-1))))), s)
    if b is not None:
        eng.region_write(s, b.region, b.start, n.mul(esize(b)), Term("load", (a.region, a.start, n), a.ety) if a is not None else None)
    return [(s, UNIT)]


@model("core::ptr::write_bytes", "core::ptr::mut_ptr::{*mut T}::write_bytes", "core::intrinsics::write_bytes")
def p_write_bytes(eng, fr, st, cal, ca, vals, span, dty):
    b = as_ptr(eng, st, vals[0])
    n = eng.as_int(st, vals[2])
    s = st.fork()
    good = b is not None and in_bounds(eng, s, b, n.mul(esize(b)))
    eng.oblig("mem", fr, span[1], "write_bytes", good, "fill may write out of bounds", s)
    if b is not None:
        eng.region_write(s, b.region, b.start, n.mul(esize(b)), vals[1])
    return [(s, UNIT)]


@model("core::slice::raw::from_raw_parts")
def p_frp(eng, fr, st, cal, ca, vals, span, dty):
    p = as_ptr(eng, st, vals[0])
    n = eng.as_int(st, vals[1])
    good = p is not None and in_bounds(eng, st, p, n.mul(esize(p)))
    eng.oblig("mem", fr, span[1], "from_raw_parts", good, "slice may leave its allocation" + ("" if p is None else ": offset %s + %s of size %s" % (
        eng.show(p.start), eng.show(n), eng.show(eng.rsize.get(p.region, const(-1))))), st)
    if p is None:
        s = st.fork()
        return [(s, eng.mk(s, dty, "slice"))]
    return [(st, Sl(p.region, p.start, n, p.ety, p.esz))]


@model("core::slice::raw::from_raw_parts_mut")
def p_frpm(eng, fr, st, cal, ca, vals, span, dty):
    p = as_ptr(eng, st, vals[0])
    n = eng.as_int(st, vals[1])
    s = st.fork()
    good = p is not None and in_bounds(eng, s, p, n.mul(esize(p)))
    eng.oblig("mem", fr, span[1], "from_raw_parts_mut", good, "slice may leave its allocation" + ("" if p is None else ": offset %s + %s of size %s" % (
        eng.show(p.start), eng.show(n), eng.show(eng.rsize.get(p.region, const(-1))))), s)
    if p is None:
        return [(s, eng.mk(s, dty, "slice"))]
    if not uninit_ty(p.ety):
        return [(s, Sl(p.region, p.start, n, p.ety, p.esz))]
    r = eng.region("out", n)
    eng.rpos[r] = eng.rsize[p.region] - p.start
    s.cov[r] = const(0)
    s.notes = s.notes + (("out", r, n, fr.fn.path),)
    return [(s, Sl(r, const(0), n, p.ety, 1))]


@model("core::ptr::non_null::NonNull::new")
def nn_new(eng, fr, st, cal, ca, vals, span, dty):
    return [(st, some(vals[0], targs(dty)))]


@model("core::ptr::non_null::NonNull::new_unchecked", "core::ptr::non_null::NonNull::as_ptr", "core::ptr::non_null::NonNull::dangling")
def nn_ptr(eng, fr, st, cal, ca, vals, span, dty):
    if not vals:
        s = st.fork()
        return [(s, Ptr(eng.region("dangling", const(0)), const(0), ca[0] if ca else ("int", "u8")))]
    return [(st, deref_all(eng, st, vals[0]) if isinstance(eng.expand(st, vals[0]), Ref) else vals[0])]


@model("core::ptr::const_ptr::{*const T}::is_null", "core::ptr::mut_ptr::{*mut T}::is_null")
def p_isnull(eng, fr, st, cal, ca, vals, span, dty):
    return [(st, FALSE)]


@model("alloc::alloc::alloc", "alloc::alloc::alloc_zeroed")
def a_alloc(eng, fr, st, cal, ca, vals, span, dty):
    l = eng.expand(st, vals[0])
    s = st.fork()
    size = l.f["size"] if isinstance(l, It) and l.kind == "layout" else eng.A.fresh("size", 0, ISIZE_MAX)
    good = isinstance(l, It) and eng.entails(s, size - 1)
    eng.oblig("mem", fr, span[1], "alloc", good, "allocation of a zero-sized layout", s)
    if eng.max_alloc:
        eng.add_ge(s, const(eng.max_alloc) - size)
    return [(s, Ptr(eng.region("alloc", size), const(0), ("int", "u8")))]


@model("alloc::alloc::dealloc")
def a_dealloc(eng, fr, st, cal, ca, vals, span, dty):
    p = as_ptr(eng, st, vals[0])
    l = eng.expand(st, vals[1])
    s = st.fork()
    good = p is not None and isinstance(l, It) and l.kind == "layout" and alive(eng, s, p.region) and eng.entails_eq(s, p.start) and eng.entails_eq(s, eng.rsize[p.region] - l.f["size"])
    eng.oblig("mem", fr, span[1], "dealloc", good, "memory freed twice, from its middle, or with a layout of another size", s)
    if p is not None:
        s.facts[("freed", p.region)] = True
    return [(s, UNIT)]


@model("core::alloc::layout::Layout::from_size_align")
def a_layout(eng, fr, st, cal, ca, vals, span, dty):
    size = eng.as_int(st, vals[0])
    y, n = eng.branch(st, C("ge", const(ISIZE_MAX) - size))
    t = targs(dty)
    return [(s, ok(It("layout", size=size, align=vals[1]), t)) for s in y] + [(s, err(Sym(("layouterr",), t[1] if len(t) > 1 else ("other", "?")), t)) for s in n]


@model("core::alloc::layout::Layout::from_size_align_unchecked")
def a_layoutu(eng, fr, st, cal, ca, vals, span, dty):
    return [(st, It("layout", size=eng.as_int(st, vals[0]), align=vals[1]))]


@model("core::alloc::layout::Layout::array")
def a_layout_arr(eng, fr, st, cal, ca, vals, span, dty):
    size = eng.as_int(st, vals[0]).mul(size_of(eng, ca[0]))
    y, n = eng.branch(st, C("ge", const(ISIZE_MAX) - size))
    t = targs(dty)
    return [(s, ok(It("layout", size=size, align=const(1)), t)) for s in y] + [(s, err(Sym(("layouterr",), t[1]), t)) for s in n]


# ---------------------------------------------------------------------------- mem
@model("core::mem::replace", "core::mem::swap")
def mem_replace(eng, fr, st, cal, ca, vals, span, dty):
    s = st.fork()
    a = eng.expand(s, vals[0])
    old = deref(eng, s, a) if not isinstance(a, Sl) else slice_value(eng, s, a)
    if cal["f"].endswith("swap"):
        b = eng.expand(s, vals[1])
        ob = deref(eng, s, b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            eng.store(s, a.cell, a.path, ob)
            eng.store(s, b.cell, b.path, old)
        return [(s, UNIT)]
    if isinstance(a, Ref):
        eng.store(s, a.cell, a.path, vals[1])
    return [(s, old)]


@model("core::mem::take")
def mem_take(eng, fr, st, cal, ca, vals, span, dty):
    a = eng.expand(st, vals[0])
    old = deref(eng, st, a)
    out = []
    for s, d in default_of(eng, fr, st, ca[0], span):
        s = s.fork()
        if isinstance(a, Ref):
            eng.store(s, a.cell, a.path, d)
        out.append((s, old))
    return out


@model("core::mem::size_of", "core::mem::size_of_val")
def mem_size(eng, fr, st, cal, ca, vals, span, dty):
    if cal["f"].endswith("_val") and ca[0][0] in ("slice", "str"):
        sl = as_slice(eng, st, vals[0])
        return [(st, sl.n.mul(size_of(eng, ca[0][1] if ca[0][0] == "slice" else ("int", "u8"))))]
    return [(st, size_of(eng, ca[0]))]


@model("core::mem::align_of")
def mem_align(eng, fr, st, cal, ca, vals, span, dty):
    return [(st, align_of(eng, ca[0]))]


@model("core::mem::forget", "core::mem::drop")
def mem_forget(eng, fr, st, cal, ca, vals, span, dty):
    v = eng.expand(st, vals[0])
    if cal["f"].endswith("forget"):
        eng.hook("forget", fr, st, v)
    return [(st, UNIT)]


@model("core::mem::transmute", "core::intrinsics::transmute", "core::mem::transmute_copy")
def mem_transmute(eng, fr, st, cal, ca, vals, span, dty):
    s = st.fork()
    return [(s, transmute(eng, s, fr, vals[0], ca[0], dty, span[1]))]


@model("core::mem::zeroed")
def mem_zeroed(eng, fr, st, cal, ca, vals, span, dty):
    eng.oblig("mem", fr, span[1], "zeroed", dty[0] in ("int", "array", "float", "bool"), "zeroed value of a type that may not be all-zero", st)
    s = st.fork()
    return [(s, const(0) if dty[0] == "int" else eng.mk(s, dty, "zeroed"))]


@model("core::mem::maybe_uninit::MaybeUninit::new", "core::mem::manually_drop::ManuallyDrop::new", "core::mem::manually_drop::ManuallyDrop::into_inner")
def mu_new(eng, fr, st, cal, ca, vals, span, dty):
    return [(st, vals[0])]


@model("core::mem::maybe_uninit::MaybeUninit::uninit")
def mu_uninit(eng, fr, st, cal, ca, vals, span, dty):
    eng.nsym += 1
    return [(st, Term("uninit", (eng.nsym,), ca[0]))]


@model("core::mem::maybe_uninit::MaybeUninit::zeroed")
def mu_zeroed(eng, fr, st, cal, ca, vals, span, dty):
    s = st.fork()
    return [(s, Term("repeat", (const(0), None), ca[0]) if ca[0][0] == "array" else eng.mk(s, ca[0], "zeroed"))]


@model("core::mem::maybe_uninit::MaybeUninit::assume_init")
def mu_assume(eng, fr, st, cal, ca, vals, span, dty):
    v = eng.expand(st, vals[0])
    bad = isinstance(v, Term) and v.op == "uninit" and not uninit_ty(dty)
    eng.oblig("mem", fr, span[1], "assume_init", not bad, "assume_init of a value that was never written", st)
    if isinstance(v, Term) and v.op == "uninit":
        return [(st, Term("uninit", v.args, dty))]
    return [(st, v)]


@model("core::mem::maybe_uninit::MaybeUninit::write")
def mu_write(eng, fr, st, cal, ca, vals, span, dty):
    r = eng.expand(st, vals[0])
    s = st.fork()
    if isinstance(r, Ref):
        eng.store(s, r.cell, r.path, vals[1])
        es = eng.elemstart.get(r.cell)
        if es is not None and not r.path:
            eng.region_write(s, es[0], es[1], const(1), vals[1])
    elif isinstance(r, Sl):
        eng.region_write(s, r.region, r.start, r.n.scale(r.esz), vals[1])
    return [(s, r)]


@model("core::mem::maybe_uninit::MaybeUninit::as_ptr", "core::mem::maybe_uninit::MaybeUninit::as_mut_ptr")
def mu_ptr(eng, fr, st, cal, ca, vals, span, dty):
    r = eng.expand(st, vals[0])
    if isinstance(r, Sl):
        return [(st, Ptr(r.region, r.start, r.ety, r.esz))]
    s = st.fork()
    if isinstance(r, Ref):
        reg = ("cell1", r.cell, r.path)
        eng.rsize[reg] = const(1)
        return [(s, Ptr(reg, const(0), ca[0]))]
    return [(s, eng.mk(s, dty, "ptr"))]


# ---------------------------------------------------------------------------- arrays
@model("core::array::{[T; N]}::map")
def arr_map(eng, fr, st, cal, ca, vals, span, dty):
    v = eng.expand(st, vals[0])
    f = eng.expand(st, vals[1])
    if isinstance(f, FnV) and norm(f.path) == "core::mem::maybe_uninit::MaybeUninit::new":
        return [(st, v)]
    out = []
    if isinstance(v, Arr) and len(v.elems) <= 16:
        cur = [(st, [])]
        for e in v.elems:
            nx = []
            for s, acc in cur:
                for s2, r in eng.call_value(fr, s, f, [e], span, dty[1] if dty[0] == "array" else ("other", "?")):
                    nx.append((s2, acc + [r]))
            cur = nx
        return [(s, Arr(acc)) for s, acc in cur]
    s = st.fork()
    et = ca[0]
    x = eng.mk(s, et, "elem")
    rec = eng.call_value(fr, s, f, [x], span, dty[1] if dty[0] == "array" else ("other", "?"))
    if len(rec) == 1 and kv(rec[0][1]) == kv(x):
        return [(st, v)]
    return [(s2, Term("map", (v,), dty)) for s2, _ in rec[:1]]


@model("core::array::from_fn")
def arr_from_fn(eng, fr, st, cal, ca, vals, span, dty):
    s = st.fork()
    i = eng.A.fresh("i", 0, ISIZE_MAX)
    eng.add_ge(s, eng.cval(dty[2]) - i - 1)
    r = eng.call_value(fr, s, vals[0], [i], span, dty[1])
    return [(s2, Term("fromfn", (kv(vals[0]),), dty)) for s2, _ in r[:1]]


# ---------------------------------------------------------------------------- Vec / String / Box
@model("alloc::vec::Vec::new", "alloc::vec::Vec::with_capacity")
def v_new(eng, fr, st, cal, ca, vals, span, dty):
    return [(st, It("vec", n=const(0), ety=ca[0]))]


@model("alloc::string::String::new", "alloc::string::String::with_capacity")
def str_new(eng, fr, st, cal, ca, vals, span, dty):
    return [(st, It("string", n=const(0), region=eng.region("string", const(0))))]


@model("alloc::vec::Vec::push")
def v_push(eng, fr, st, cal, ca, vals, span, dty):
    s = st.fork()
    r = eng.expand(s, vals[0])
    v = deref(eng, s, r)
    if isinstance(r, Ref) and isinstance(v, It) and v.kind == "vec":
        eng.store(s, r.cell, r.path, v.set(n=v.f["n"] + 1))
        s.ev = s.ev + (("push", kv(r), vals[1], v.f["n"]),)
    return [(s, UNIT)]


@model("alloc::vec::Vec::clear")
def v_clear(eng, fr, st, cal, ca, vals, span, dty):
    s = st.fork()
    r = eng.expand(s, vals[0])
    v = deref(eng, s, r)
    if isinstance(r, Ref) and isinstance(v, It) and v.kind == "vec":
        eng.store(s, r.cell, r.path, v.set(n=const(0)))
    return [(s, UNIT)]


@model("alloc::vec::Vec::capacity", "alloc::vec::Vec::reserve")
def v_cap(eng, fr, st, cal, ca, vals, span, dty):
    s = st.fork()
    return [(s, eng.mk(s, dty, "cap"))]


@model("alloc::boxed::Box::new")
def b_new(eng, fr, st, cal, ca, vals, span, dty):
    s = st.fork()
    eng.nsym += 1
    cell = ("h", "box", eng.nsym)
    s.cells[cell] = vals[0]
    return [(s, It("box", cell=cell))]


# ---------------------------------------------------------------------------- Clone / Default
@model("core::clone::Clone::clone")
def m_clone(eng, fr, st, cal, ca, vals, span, dty):
    v = eng.expand(st, vals[0])
    if dty[0] == "array" and isinstance(v, Sl):
        return [(st, slice_value(eng, st, v))]
    if isinstance(v, Ref):
        return [(st, eng.expand(st, eng.load(st, v.cell, v.path)))]
    if isinstance(v, Sl):
        return [(st, v)]
    return [(st, deref(eng, st, v))]


def default_of(eng, fr, st, ty, span):
    k = ty[0]
    if k == "int":
        return [(st, const(0))]
    if k == "bool":
        return [(st, FALSE)]
    if k == "float":
        return [(st, Term("float", ("0",), ty))]
    if k == "ref" and ty[1][0] in ("slice", "str"):
        s = st.fork()
        return [(s, Sl(eng.region("empty", const(0)), const(0), const(0), ty[1][1] if ty[1][0] == "slice" else ("int", "u8"), kind=ty[1][0]))]
    if k == "tuple":
        out = [(st, [])]
        for t in ty[1]:
            out = [(s2, a + [v]) for s, a in out for s2, v in default_of(eng, fr, s, t, span)]
        return [(s, Tup(a)) for s, a in out]
    if k == "adt":
        if ty[1] == OPT:
            return [(st, none(ty[2]))]
        if ty[1] == "core::marker::PhantomData":
            return [(st, Tup([]))]
        if ty[1] == "alloc::vec::Vec":
            return [(st, It("vec", n=const(0), ety=ty[2][0]))]
        if ty[1] == "alloc::string::String":
            s = st.fork()
            return [(s, It("string", n=const(0), region=eng.region("string", const(0))))]
        if ty[1] == "alloc::boxed::Box":
            out = []
            for s, v in default_of(eng, fr, st, ty[2][0], span):
                s = s.fork()
                eng.nsym += 1
                cell = ("h", "box", eng.nsym)
                s.cells[cell] = v
                out.append((s, It("box", cell=cell)))
            return out
    r = eng.find_impl("core::default::Default", (ty,))
    if r:
        c, im, sb = r
        for it in im["items"]:
            if it["name"] == "default":
                fn = eng.by_id.get(it["id"])
                if fn and fn.body:
                    return eng.run(fn, dict(sb), [], st, fr)
    s = st.fork()
    return [(s, eng.mk(s, ty, "default"))]


@model("core::default::Default::default")
def m_default(eng, fr, st, cal, ca, vals, span, dty):
    return default_of(eng, fr, st, ca[0] if ca else dty, span)


# ---------------------------------------------------------------------------- ranges
@model("core::ops::range::RangeInclusive::new")
def r_new(eng, fr, st, cal, ca, vals, span, dty):
    return [(st, It("rinc", start=vals[0], end=vals[1]))]


@model("core::ops::range::RangeInclusive::start", "core::ops::range::RangeInclusive::end")
def r_start(eng, fr, st, cal, ca, vals, span, dty):
    s = st.fork()
    v = deref(eng, s, vals[0])
    eng.nsym += 1
    cell = ("h", "rng", eng.nsym)
    n = "start" if cal["f"].endswith("start") else "end"
    s.cells[cell] = v.f[n] if isinstance(v, It) else eng.mk(s, dty[1], n)
    return [(s, Ref(cell))]


@model("core::ops::range::RangeInclusive::into_inner")
def r_inner(eng, fr, st, cal, ca, vals, span, dty):
    v = eng.expand(st, vals[0])
    return [(st, Tup([v.f["start"], v.f["end"]]))]


@model("core::ops::range::RangeInclusive::is_empty", "core::ops::range::Range::is_empty")
def r_isempty(eng, fr, st, cal, ca, vals, span, dty):
    v = deref(eng, st, vals[0])
    if isinstance(v, It):
        return [(st, C("ge", v.f["start"] - v.f["end"] - 1))]
    return [(st, C("ge", v.fields[0] - v.fields[1]))]


@model("core::ops::range::Range::contains", "core::ops::range::RangeInclusive::contains")
def r_contains(eng, fr, st, cal, ca, vals, span, dty):
    v = deref(eng, st, vals[0])
    x = deref_all(eng, st, vals[1])
    if not isinstance(x, L):
        return [(st, C("op", ("contains", kv(v), kv(x))))]
    if isinstance(v, It):
        return [(st, C("and", C("ge", x - v.f["start"]), C("ge", v.f["end"] - x)))]
    return [(st, C("and", C("ge", x - v.fields[0]), C("ge", v.fields[1] - x - 1)))]


# ---------------------------------------------------------------------------- iterators
@model("core::slice::{[T]}::iter")
def it_iter(eng, fr, st, cal, ca, vals, span, dty):
    return [(st, It("iter", sl=as_slice(eng, st, vals[0]), i=const(0)))]


@model("core::slice::{[T]}::iter_mut")
def it_iter_mut(eng, fr, st, cal, ca, vals, span, dty):
    sl = as_slice(eng, st, vals[0])
    return [(st, It("iter_mut", sl=sl, i=const(0)))]


@model("core::iter::traits::collect::IntoIterator::into_iter")
def it_into(eng, fr, st, cal, ca, vals, span, dty):
    v = eng.expand(st, vals[0])
    if isinstance(v, It) and v.kind in ("vec",):
        return [(st, It("vecinto", n=v.f["n"], i=const(0), ety=v.f["ety"]))]
    w = v
    if isinstance(v, Ref):
        w = eng.expand(st, eng.load(st, v.cell, v.path))
    if isinstance(v, Sl) or (isinstance(w, It) and w.kind == "vec") or (isinstance(v, Ref) and isinstance(w, (Arr, Term)) and ca[0][0] == "ref" and ca[0][1][0] in ("array", "slice")):
        sl = as_slice(eng, st, v)
        return [(st, It("iter_mut" if ca[0][0] == "ref" and ca[0][2] else "iter", sl=sl, i=const(0)))]
    if isinstance(v, (Arr,)) or ca[0][0] == "array":
        n = arrlen(eng, v)
        return [(st, It("vecinto", n=n, i=const(0), ety=ca[0][1] if ca[0][0] == "array" else ("other", "?")))]
    if isinstance(v, (Adt, It, Sym)):
        return [(st, v)]
    s = st.fork()
    return [(s, eng.mk(s, dty, "iter"))]


def adaptor(kind):
    def f(eng, fr, st, cal, ca, vals, span, dty):
        d = {"inner": vals[0]}
        if kind == "enum":
            d["c"] = const(0)
        elif len(vals) > 1:
            d["f"] = vals[1]
        d["ity"] = TyBox(ca[0])
        return [(st, It(kind, **d))]
    return f


class TyBox:
    """A type carried inside an iterator model (compares by value)."""

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, TyBox) and self.t == o.t

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return "ty"


for _n, _k in (("enumerate", "enum"), ("map", "map"), ("rev", "rev"), ("copied", "copied"), ("cloned", "copied"), ("filter", "filter"), ("take", "take"), ("skip", "skip"), ("filter_map", "filter_map"),
               ("chain", "chain"), ("take_while", "filter"), ("skip_while", "filter"), ("peekable", "opaqueit"), ("step_by", "opaqueit"), ("inspect", "opaqueit"), ("flat_map", "opaqueit"), ("scan", "opaqueit")):
    M["core::iter::traits::iterator::Iterator::" + _n] = adaptor(_k)


@model("core::iter::traits::iterator::Iterator::by_ref")
def it_byref(eng, fr, st, cal, ca, vals, span, dty):
    return [(st, vals[0])]


@model("core::iter::traits::iterator::Iterator::zip", "core::iter::adapters::zip::zip")
def it_zip(eng, fr, st, cal, ca, vals, span, dty):
    out = []
    for s, b in it_into(eng, fr, st, cal, (ca[1] if len(ca) > 1 else ("other", "?"),), [vals[1]], span, ("other", "?")):
        out.append((s, It("zip", a=vals[0], b=b, ity=TyBox(ca[0]), ity2=TyBox(ca[1] if len(ca) > 1 else ("other", "?")))))
    return out


def it_next(eng, fr, st, it, ity, span):
    """[(state, new iterator, item or None)]"""
    it = eng.expand(st, it)
    if isinstance(it, It):
        k = it.kind
        if k in ("iter", "iter_mut"):
            y, n = eng.branch(st, C("ge", it.f["sl"].n - it.f["i"] - 1))
            out = []
            for s in y:
                s = s.fork()
                out.append((s, it.set(i=it.f["i"] + 1), elem_ref(eng, s, it.f["sl"], it.f["i"])))
            return out + [(s, it, None) for s in n]
        if k == "vecinto":
            y, n = eng.branch(st, C("ge", it.f["n"] - it.f["i"] - 1))
            out = []
            for s in y:
                s = s.fork()
                out.append((s, it.set(i=it.f["i"] + 1), eng.mk(s, it.f["ety"], "item")))
            return out + [(s, it, None) for s in n]
        if k == "enum":
            out = []
            for s, i2, x in it_next(eng, fr, st, it.f["inner"], it.f["ity"].t, span):
                if x is None:
                    out.append((s, it.set(inner=i2), None))
                else:
                    out.append((s, it.set(inner=i2, c=it.f["c"] + 1), Tup([it.f["c"], x])))
            return out
        if k == "zip":
            out = []
            for s, a2, x in it_next(eng, fr, st, it.f["a"], it.f["ity"].t, span):
                if x is None:
                    out.append((s, it.set(a=a2), None))
                    continue
                for s2, b2, y in it_next(eng, fr, s, it.f["b"], it.f["ity2"].t, span):
                    out.append((s2, it.set(a=a2, b=b2), None if y is None else Tup([x, y])))
            return out
        if k == "map":
            out = []
            for s, i2, x in it_next(eng, fr, st, it.f["inner"], it.f["ity"].t, span):
                if x is None:
                    out.append((s, it.set(inner=i2), None))
                else:
                    for s2, r in eng.call_value(fr, s, it.f["f"], [x], span, ("other", "?")):
                        out.append((s2, it.set(inner=i2), r))
            return out
        if k == "copied":
            return [(s, it.set(inner=i2), None if x is None else deref(eng, s, x)) for s, i2, x in it_next(eng, fr, st, it.f["inner"], it.f["ity"].t, span)]
        if k == "rinc":
            c = C("ge", it.f["end"] - it.f["start"])
            y, n = eng.branch(st, c)
            return [(s, it.set(start=it.f["start"] + 1), it.f["start"]) for s in y] + [(s, it, None) for s in n]
        if k == "rev" and isinstance(it.f["inner"], It) and it.f["inner"].kind in ("iter", "vecinto"):
            inn = it.f["inner"]
            if inn.kind == "iter":
                sl = inn.f["sl"]
                y, n = eng.branch(st, C("ge", sl.n - inn.f["i"] - 1))
                out = []
                for s in y:
                    s = s.fork()
                    out.append((s, it.set(inner=inn.set(sl=Sl(sl.region, sl.start, sl.n - 1, sl.ety, sl.esz, sl.kind))), elem_ref(eng, s, sl, sl.n - 1)))
                return out + [(s, it, None) for s in n]
    if isinstance(it, Adt) and it.path == "core::ops::range::Range":
        a, b = it.fields
        y, n = eng.branch(st, C("ge", b - a - 1))
        return [(s, Adt(it.path, 0, it.vn, [a + 1, b], it.args), a) for s in y] + [(s, it, None) for s in n]
    if isinstance(it, Adt) and it.path == "core::ops::range::RangeFrom":
        return [(st, Adt(it.path, 0, it.vn, [it.fields[0] + 1], it.args), it.fields[0])]
    if isinstance(it, Ref):
        out = []
        for s, i2, x in it_next(eng, fr, st, eng.load(st, it.cell, it.path), ity, span):
            s = s.fork()
            eng.store(s, it.cell, it.path, i2)
            out.append((s, it, x))
        return out
    # a local iterator type
    if ity is not None and ity[0] == "adt":
        r = eng.find_impl("core::iter::traits::iterator::Iterator", (ity,))
        if r:
            for x in r[1]["items"]:
                if x["name"] == "next":
                    fn = eng.by_id.get(x["id"])
                    if fn and fn.body:
                        s = st.fork()
                        eng.nsym += 1
                        cell = ("h", "it", eng.nsym)
                        s.cells[cell] = it
                        out = []
                        for s2, v in eng.run(fn, dict(r[2]), [Ref(cell)], s, fr):
                            for s3, i, f in cases(eng, s2, v, oty(("other", "?"))):
                                out.append((s3, s3.cells[cell], f[0] if i == 1 else None))
                        return out
    s = st.fork()
    eng.nsym += 1
    return [(s, it, Sym(("item", eng.nsym), ("other", "?"))), (st.fork(), it, None)]


@model("core::iter::traits::iterator::Iterator::next")
def m_next(eng, fr, st, cal, ca, vals, span, dty):
    r = eng.expand(st, vals[0])
    it = deref(eng, st, r)
    out = []
    t = targs(dty)
    for s, i2, x in it_next(eng, fr, st, it, ca[0], span):
        s = s.fork()
        if isinstance(r, Ref):
            eng.store(s, r.cell, r.path, i2)
        if isinstance(x, Sym) and x.ty == ("other", "?") and t:
            x = eng.mk(s, t[0], "item")
        out.append((s, none(t) if x is None else some(x, t)))
    return out


def remaining(eng, st, it):
    it = eng.expand(st, it)
    if isinstance(it, It):
        if it.kind in ("iter", "iter_mut"):
            return it.f["sl"].n - it.f["i"]
        if it.kind == "vecinto":
            return it.f["n"] - it.f["i"]
        if it.kind in ("map", "enum", "rev", "copied"):
            return remaining(eng, st, it.f["inner"])
    if isinstance(it, Adt) and it.path == "core::ops::range::Range" and isinstance(it.fields[0], L):
        return it.fields[1] - it.fields[0] if eng.entails(st, it.fields[1] - it.fields[0]) else None
    return None


@model("core::iter::traits::exact_size::ExactSizeIterator::len", "core::iter::traits::iterator::Iterator::count")
def it_len(eng, fr, st, cal, ca, vals, span, dty):
    v = eng.expand(st, vals[0])
    t = ca[0]
    if isinstance(v, Ref):
        w = deref(eng, st, v)
        if isinstance(w, Ref):
            v, w = w, deref(eng, st, w)
        if t[0] == "ref":
            t = t[1]
        r = eng.find_impl("core::iter::traits::exact_size::ExactSizeIterator", (t,))
        if r:
            for x in r[1]["items"]:
                if x["name"] == "len":
                    fn = eng.by_id.get(x["id"])
                    if fn and fn.body:
                        return eng.run(fn, dict(r[2]), [v], st, fr)
    else:
        w = v
    n = remaining(eng, st, w)
    if n is None:
        n = eng.A.get(("itlen", kv(w)), 0, ISIZE_MAX)
    return [(st, n)]


@model("core::iter::traits::iterator::Iterator::size_hint")
def it_hint(eng, fr, st, cal, ca, vals, span, dty):
    s = st.fork()
    return [(s, eng.mk(s, dty, "hint"))]


def consume(eng, fr, st, it, ity, span):
    """Analyse one arbitrary step of the iterator for its obligations."""
    s = st.fork()
    it = eng.expand(s, it)
    try:
        h = eng.havoc_val(s, it, ity or ("other", "?"), "it")
    except Stop:
        h = it
    return it_next(eng, fr, s, h, ity, span)


@model("core::iter::traits::iterator::Iterator::collect", "core::iter::traits::iterator::Iterator::for_each", "core::iter::traits::iterator::Iterator::sum", "core::iter::traits::iterator::Iterator::last",
       "core::iter::traits::iterator::Iterator::fold", "core::iter::traits::iterator::Iterator::any", "core::iter::traits::iterator::Iterator::all", "core::iter::traits::iterator::Iterator::max", "core::iter::traits::iterator::Iterator::min",
       "core::iter::traits::iterator::Iterator::find", "core::iter::traits::iterator::Iterator::position", "core::iter::traits::iterator::Iterator::nth", "core::iter::traits::iterator::Iterator::try_for_each", "core::iter::traits::iterator::Iterator::eq",
       "core::iter::traits::iterator::Iterator::find_map", "core::iter::traits::iterator::Iterator::try_fold", "core::iter::traits::iterator::Iterator::cmp", "core::iter::traits::iterator::Iterator::max_by_key", "core::iter::traits::collect::FromIterator::from_iter")
def it_collect(eng, fr, st, cal, ca, vals, span, dty):
    name = cal["f"].rsplit("::", 1)[1]
    clo = vals[-1] if len(vals) > 1 and isinstance(eng.expand(st, vals[-1]), (Clo, FnV)) and name not in ("fold", "eq", "cmp") else None
    done = (lambda s, x: [s2 for s2, _ in eng.call_value(fr, s, clo, [x], span, ("other", "?"))]) if clo is not None else None
    s, n = run_all(eng, fr, st, vals[0], ca[0], span, done, name in ("collect", "for_each"))
    if dty[0] == "adt" and dty[1] == "alloc::vec::Vec" and n is not None:
        return [(s, It("vec", n=n, ety=dty[2][0]))]
    return [(s, eng.mk(s, dty, "collected"))]


@model("core::iter::traits::collect::Extend::extend")
def it_extend(eng, fr, st, cal, ca, vals, span, dty):
    v = deref(eng, st, vals[0])
    if not (isinstance(v, It) and v.kind == "vec"):
        s = st.fork()
        eng.havoc_arg(s, vals[0])
        return [(s, UNIT)]
    out = []
    ity = ca[1] if len(ca) > 1 else (ca[-1] if ca else None)
    for s0, it in it_into(eng, fr, st, cal, [ity or ("other", "?")], [vals[1]], span, ity):
        s, _ = run_all(eng, fr, s0, it, ity, span, lambda s, x: [s2 for s2, _ in v_push(eng, fr, s, cal, ca, [vals[0], x], span, dty)], True)
        out.append((s, UNIT))
    return out


def advance(eng, it, k):
    """The iterator after k steps."""
    if isinstance(it, It):
        if it.kind in ("iter", "iter_mut", "vecinto"):
            return it.set(i=it.f["i"] + k)
        if it.kind in ("enum", "map", "copied"):
            inner = advance(eng, it.f["inner"], k)
            if inner is None:
                return None
            return it.set(inner=inner, c=it.f["c"] + k) if it.kind == "enum" else it.set(inner=inner)
        if it.kind == "zip":
            a, b = advance(eng, it.f["a"], k), advance(eng, it.f["b"], k)
            return it.set(a=a, b=b) if a is not None and b is not None else None
    if isinstance(it, Adt) and it.path == "core::ops::range::Range" and isinstance(it.fields[0], L):
        return Adt(it.path, 0, it.vn, [it.fields[0] + k, it.fields[1]], it.args)
    return None


def counted(x):
    """The number in a cell that a loop may count with."""
    return x.f["n"] if isinstance(x, It) and x.kind == "vec" else x if isinstance(x, L) else None


def run_all(eng, fr, st, it, ity, span, done, whole):
    """Consume an iterator: one arbitrary step is analysed, then everything a step changes is unknown up to the number of steps."""
    it = eng.expand(st, it)
    n = remaining(eng, st, it)
    k = eng.A.fresh("iter", 0, ISIZE_MAX)
    itk = advance(eng, it, k)

    def step(s):
        s = s.fork()
        if itk is not None:
            h = itk
        else:
            try:
                h = eng.havoc_val(s, it, ity or ("other", "?"), "it")
            except Stop:
                h = it
        out = []
        for s2, _, x in it_next(eng, fr, s, h, ity, span):
            if x is None or done is None:
                out.append((s2, x))
            else:
                out += [(s3, x) for s3 in done(s2.fork(), x)]
        return out

    def forget(s, deltas, times):
        for cell in changed:
            x = eng.expand(s, st.cells[cell])
            if isinstance(x, Adt) and x.path in eng.mutable:
                eng.hook("havoc_pre", s, Ref(cell), fr)
                s.cells[cell] = eng.mk(s, ("adt", x.path, x.args), x.path.rsplit("::", 1)[1])
                eng.hook("havoc_post", s, Ref(cell), fr)
            elif cell in deltas and times is not None:
                c = counted(x) + times.scale(deltas[cell])
                s.cells[cell] = x.set(n=c) if isinstance(x, It) else c
            else:
                s.cells[cell] = eng.havoc_val(s, x, eng.cellty.get(cell, ("other", "?")), "h")

    rec, eng.recording = eng.recording, False
    try:
        ends = step(st)
    finally:
        eng.recording = rec
    changed = [c for c in st.cells if any(c in e.cells and kv(eng.expand(e, e.cells[c])) != kv(eng.expand(st, st.cells[c])) for e, _ in ends)]
    deltas = {}
    for c in changed:
        x0 = counted(eng.expand(st, st.cells[c]))
        ds = {(counted(eng.expand(e, e.cells[c])) - x0) if counted(eng.expand(e, e.cells[c])) is not None else None for e, x in ends if x is not None} if x0 is not None else set()
        if len(ds) == 1 and None not in ds and next(iter(ds)).is_const() and next(iter(ds)).c >= 0:
            deltas[c] = next(iter(ds)).c
    while True:
        s1 = st.fork()
        forget(s1, deltas, k if itk is not None else None)
        before = {c: counted(eng.expand(s1, s1.cells[c])) for c in deltas}
        eng.recording = False
        try:
            probe = step(s1)
        finally:
            eng.recording = rec
        bad = [c for c in deltas for e, x in probe if x is not None and not eng.entails_eq(e, (counted(eng.expand(e, e.cells[c])) or const(-1)) - before[c] - deltas[c])]
        if not bad:
            break
        for c in set(bad):
            del deltas[c]
    items = step(s1)
    s = st.fork()
    forget(s, deltas, n)
    if whole:
        for e, x in items:
            ev = e.ev[len(st.ev):]
            if x is not None or ev:
                s.ev = s.ev + (("collect", x if done is None else None, ev),)
    return s, n


# ---------------------------------------------------------------------------- closures
@model("core::ops::function::FnOnce::call_once", "core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut")
def m_call(eng, fr, st, cal, ca, vals, span, dty):
    a = eng.expand(st, vals[1]) if len(vals) > 1 else UNIT
    args = list(a.fields) if isinstance(a, Tup) else [a]
    return eng.call_value(fr, st, vals[0], args, span, dty)


# ---------------------------------------------------------------------------- array-init-cursor
def cur_sl(eng, st, v):
    v = eng.expand(st, v)
    if isinstance(v, It) and v.kind == "cursor":
        return v.f["sl"]
    return None


@model("array_init_cursor::Cursor::new")
def c_new(eng, fr, st, cal, ca, vals, span, dty):
    sl = as_slice(eng, st, vals[0])
    n = eng.cval(ca[-1])
    return [(st, It("cursor", sl=Sl(sl.region, sl.start, n, sl.ety, sl.esz, "array"), ety=sl.ety))]


def consts(ca):
    return [a for a in ca if a[0] in ("n", "p")]


@model("array_init_cursor::Cursor::split")
def c_split(eng, fr, st, cal, ca, vals, span, dty):
    sl = cur_sl(eng, st, vals[0])
    if sl is None:
        return None
    l, r = [eng.cval(a) for a in consts(ca)[-2:]]
    c = C("eq", sl.n - l - r)
    eng.oblig("panic", fr, span[1], "cursor split", eng.cond(st, c) is True, "cursor split into parts of the wrong total size: %s" % eng.show(c), st)
    return [(s, Tup([It("cursor", sl=Sl(sl.region, sl.start, l, sl.ety, sl.esz, "array"), ety=sl.ety),
                     It("cursor", sl=Sl(sl.region, sl.start + l.scale(sl.esz), r, sl.ety, sl.esz, "array"), ety=sl.ety)])) for s in eng.assume(st, c)]


@model("array_init_cursor::Cursor::write")
def c_write(eng, fr, st, cal, ca, vals, span, dty):
    sl = cur_sl(eng, st, vals[0])
    if sl is None:
        return None
    l, r = [eng.cval(a) for a in consts(ca)[-2:]]
    c = C("eq", sl.n - l - r)
    eng.oblig("panic", fr, span[1], "cursor write", eng.cond(st, c) is True, "cursor write of the wrong size: %s" % eng.show(c), st)
    out = []
    for s in eng.assume(st, c):
        s = s.fork()
        eng.region_write(s, sl.region, sl.start, l, vals[1])
        out.append((s, It("cursor", sl=Sl(sl.region, sl.start + l, r, sl.ety, sl.esz, "array"), ety=sl.ety)))
    return out


@model("array_init_cursor::Cursor::finish")
def c_finish(eng, fr, st, cal, ca, vals, span, dty):
    sl = cur_sl(eng, st, vals[0])
    if sl is None:
        return None
    s = st.fork()
    eng.region_write(s, sl.region, sl.start, sl.n, vals[1])
    return [(s, UNIT)]


@model("array_init_cursor::Cursor::assert_size")
def c_assert(eng, fr, st, cal, ca, vals, span, dty):
    sl = cur_sl(eng, st, vals[0])
    if sl is None:
        return None
    m = eng.cval(consts(ca)[-1])
    c = C("eq", sl.n - m)
    eng.oblig("panic", fr, span[1], "cursor assert_size", eng.cond(st, c) is True, "cursor has another size: %s" % eng.show(c), st)
    return [(s, It("cursor", sl=Sl(sl.region, sl.start, m, sl.ety, sl.esz, "array"), ety=sl.ety)) for s in eng.assume(st, c)]


# ---------------------------------------------------------------------------- hashbrown
@model("hashbrown::table::HashTable::find", "hashbrown::table::HashTable::find_mut")
def h_find(eng, fr, st, cal, ca, vals, span, dty):
    s = st.fork()
    eng.nsym += 1
    cell = ("h", "entry", eng.nsym)
    s.cells[cell] = eng.mk(s, ca[0], "entry")
    t = targs(dty)
    out = [(st.fork(), none(t))]
    for s2, c in eng.call_value(fr, s, vals[2], [Ref(cell)], span, ("bool",)):
        for s3 in eng.assume(s2, boolv(c)):
            s3 = s3.fork()
            s3.ev = s3.ev + (("hit", kv(vals[0]), vals[1], s3.cells[cell]),)
            out.append((s3, some(Ref(cell), t)))
    return out


@model("hashbrown::table::HashTable::insert_unique")
def h_insert(eng, fr, st, cal, ca, vals, span, dty):
    s = st.fork()
    eng.nsym += 1
    cell = ("h", "entry", eng.nsym)
    s.cells[cell] = eng.mk(s, ca[0], "entry")
    for s2, c in eng.call_value(fr, s.fork(), vals[3], [Ref(cell)], span, ("int", "u64")):
        pass
    s.ev = s.ev + (("insert", kv(vals[0]), vals[1], vals[2]),)
    return [(s, Sym(("occ", eng.nsym), dty))]


@model("hashbrown::table::HashTable::clear")
def h_clear(eng, fr, st, cal, ca, vals, span, dty):
    s = st.fork()
    s.ev = s.ev + (("hclear", kv(vals[0])),)
    return [(s, UNIT)]


@model("core::hash::BuildHasher::hash_one")
def h_one(eng, fr, st, cal, ca, vals, span, dty):
    return [(st, eng.A.get(("hash", kv(deref_all(eng, st, vals[1]))), 0, 2**64 - 1))]


@model("core::fmt::Arguments::new", "core::fmt::rt::Argument::none", "core::fmt::Arguments::from_str")
def m_args(eng, fr, st, cal, ca, vals, span, dty):
    s = st.fork()
    return [(s, eng.mk(s, dty, "fmt"))]


@prefix("core::fmt::", "core::panic::", "core::any::type_name", "core::hash::", "core::error::")
def m_fmt(eng, fr, st, cal, ca, vals, span, dty):
    s = st.fork()
    if cal.get("unsafe"):
        return None
    return [(s, eng.mk(s, dty, "fmt"))]


@model("core::cmp::Ord::cmp", "core::cmp::PartialOrd::partial_cmp")
def m_cmp(eng, fr, st, cal, ca, vals, span, dty):
    s = st.fork()
    return [(s, eng.mk(s, dty, "cmp"))]


ORDERING = "core::cmp::Ordering"
BACK = {"Less": ("Greater", 2), "Equal": ("Equal", 1), "Greater": ("Less", 0)}


@prefix("core::cmp::Ordering::")
def m_ordering(eng, fr, st, cal, ca, vals, span, dty):
    n = cal["f"].rsplit("::", 1)[1]
    out = []
    for s, i, f in cases(eng, st, vals[0], ("adt", ORDERING, ())):
        vn = ("Less", "Equal", "Greater")[i]
        if n == "then_with":
            out += eng.call_value(fr, s, vals[1], [], span, dty) if vn == "Equal" else [(s, Adt(ORDERING, i, vn, [], ()))]
        elif n == "then":
            out.append((s, vals[1] if vn == "Equal" else Adt(ORDERING, i, vn, [], ())))
        elif n == "reverse":
            out.append((s, Adt(ORDERING, BACK[vn][1], BACK[vn][0], [], ())))
        elif n in ("is_eq", "is_ne", "is_lt", "is_le", "is_gt", "is_ge"):
            out.append((s, TRUE if vn in {"eq": ("Equal",), "ne": ("Less", "Greater"), "lt": ("Less",), "le": ("Less", "Equal"), "gt": ("Greater",), "ge": ("Greater", "Equal")}[n[3:]] else FALSE))
        else:
            return None
    return out
