"""Abstract interpretation of the code generated for witness schemas.

The generated modules are interpreted together with the runtime crate.  A few runtime entry points are boundaries: calls to them
are recorded as events (what was called, with which constants, on which value) instead of being entered; what they do is the
subject of the checks on the runtime crate itself."""
import re
from sa import cmpspec, models
from sa.absint import Engine, State, Sl, Ptr, Ref, Adt, Tup, L, It, Sym, C, Clo, FnV, Term, Budget, Stop, const, kv
from sa.facts import ty_str
from sa.runtime import Runtime

OPT = "core::option::Option"
RES = "core::result::Result"
CONVERT = {"core::convert::TryInto::try_into": (1, 0), "core::convert::TryFrom::try_from": (0, 1), "core::convert::Into::into": (1, 0), "core::convert::From::from": (0, 1)}
BOUNDARY = (
    (re.compile(r"^planus::table_reader::Table(::<.*>)?::access"), "access"),
    (re.compile(r"^planus::table_reader::Table(::<.*>)?::from_buffer$"), "table"),
    (re.compile(r"^planus::table_writer::TableWriter(::<.*>)?::(write_entry|finish)$"), "writer"),
    (re.compile(r"^planus::table_writer::ObjectWriter(::<.*>)?::write$"), "object"),
    (re.compile(r"^planus::builder::Builder::(current_offset|write_with|create_\w+|finish)$"), "builder"),
    (re.compile(r"^planus::vectors::vector::Vector(::<.*>)?::(to_vec|to_vec_result|iter)$"), "vector"),
    (re.compile(r"^planus::union_vectors::union_vector::UnionVector(::<.*>)?::(to_vec|iter)$"), "vector"),
)
WRITE_TRAITS = ("WriteAs", "WriteAsDefault", "WriteAsOptional", "WriteAsOffset", "WriteAsUnion", "WriteAsOptionalUnion", "WriteAsUnionVector", "WriteAsDefaultUnionVector", "WriteAsOptionalUnionVector")


class Call:
    """One boundary call."""

    tag = "?"
    refs = ()

    def __init__(self, kind, name, args, vals, res, seen, fn, line):
        self.kind, self.name, self.args, self.vals, self.res, self.seen, self.fn, self.line = kind, name, args, vals, res, seen, fn, line

    def __repr__(self):
        return "%s.%s<%s>(%s) => %s" % (self.kind, self.name, ", ".join(ty_str(a) if a[0] not in ("n", "p") else str(a[1]) for a in self.args), ", ".join(map(str, self.seen)), self.res)


class GenEngine(Engine):
    scenario = None
    inline_write = None
    outcome = None
    wit_name = None
    write_boundary = False
    compare = None

    def behind(self, st, v):
        """The value behind a chain of references, and the last reference."""
        last = None
        v = self.expand(st, v)
        while isinstance(v, Ref):
            last = v
            try:
                v = self.expand(st, self.load(st, v.cell, v.path))
            except Stop:
                break
        return v, last

    def record(self, st, kind, name, cal, ca, vals, res, fr, span):
        seen = [self.behind(st, v) for v in vals]
        st.ev = st.ev + (Call(kind, name, ca, tuple(vals), res, tuple(x for x, _ in seen), fr.fn, span[1]),)
        st.ev[-1].refs = tuple(r for _, r in seen)

    def call_path(self, fr, st, callee, cargs, vals, span, dty):
        name = callee["f"]
        if self.compare:
            r = cmpspec.intercept(self, fr, st, callee, cargs, vals, span, dty)
            if r is not None:
                return r
        for rx, kind in BOUNDARY:
            m = rx.match(name)
            if m:
                return self.boundary(fr, st, callee, cargs, vals, span, dty, kind, name.rsplit("::", 1)[1])
        if name in CONVERT and self.outcome and len(cargs) > 1:
            to, frm = (cargs[i] for i in CONVERT[name])
            if to != frm and (self.own(to) or self.own(frm)):
                return self.boundary(fr, st, callee, cargs, vals, span, dty, "convert", name.rsplit("::", 1)[1])
        tr = callee.get("tr")
        if tr and tr.startswith("planus::traits::"):
            t = tr.rsplit("::", 1)[1]
            nm = name.rsplit("::", 1)[1]
            if t in WRITE_TRAITS and nm == "prepare":
                if not (self.inline_write and self.inline_write(fr, callee, cargs)):
                    return self.prepare(fr, st, callee, cargs, vals, span, dty, t)
            elif t == "WriteAsPrimitive" and nm == "write" and self.write_boundary:
                return self.boundary(fr, st, callee, cargs, vals, span, dty, "write", t)
            elif nm == "from_buffer" and t in ("TableRead", "TableReadUnion", "VectorReadUnion", "TableReadUnionVector") and not (cargs and cargs[0][0] in ("int", "float", "bool")):
                if not (self.inline_write and self.inline_write(fr, callee, cargs)):
                    return self.boundary(fr, st, callee, cargs, vals, span, dty, "read", t)
        return Engine.call_path(self, fr, st, callee, cargs, vals, span, dty)

    def boundary(self, fr, st, cal, ca, vals, span, dty, kind, name):
        s = st.fork()
        if kind == "writer" and name == "finish":
            self.record(s, kind, name, cal, ca, vals, Tup([]), fr, span)
            ow = self.mk(s, ("ref", ("adt", "planus::table_writer::ObjectWriter", ()), True), "object_writer")
            return [(s2, Tup([])) for s2, _ in self.call_value(fr, s, vals[2], [ow], span, ("tuple", ()))]
        if kind == "builder" and name == "write_with":
            size = self.as_int(s, vals[1])
            pos = self.A.fresh("position", 0, 2**31)
            r = self.region("out", size)
            s.cov[r] = const(0)
            s.facts[("out", r)] = (size, pos)
            self.record(s, kind, name, cal, ca, vals, (r, pos), fr, span)
            sl = Sl(r, const(0), size, ("adt", "core::mem::maybe_uninit::MaybeUninit", (("int", "u8"),)))
            return [(s2, Tup([])) for s2, _ in self.call_value(fr, s, vals[3], [pos, sl], span, ("tuple", ()))]
        tag = self.tag(s, kind)
        o = self.outcome(s, kind, name) if self.outcome else None
        if o is not None and dty[0] == "adt" and dty[1] == RES:
            ok, err = dty[2]
            if o == "err":
                r = Adt(RES, 1, "Err", [self.mk(s, err, tag)], dty[2])
            elif ok[0] == "adt" and ok[1] == OPT:
                r = Adt(OPT, 1, "Some", [self.mk(s, ok[2][0], tag)], ok[2]) if o == "some" else Adt(OPT, 0, "None", [], ok[2])
                r = Adt(RES, 0, "Ok", [r], dty[2])
            else:
                r = Adt(RES, 0, "Ok", [self.mk(s, ok, tag)], dty[2])
        else:
            r = self.mk(s, dty, tag)
        self.record(s, kind, name, cal, ca, vals, r, fr, span)
        s.ev[-1].tag = tag
        return [(s, r)]

    def tag(self, st, kind):
        return "@%s%d" % (kind, len([e for e in st.ev if isinstance(e, Call)]))

    def own(self, t):
        return t[0] == "adt" and t[1].split("::")[0] == self.wit_name

    def prepare(self, fr, st, cal, ca, vals, span, dty, t):
        s = st.fork()
        tag = self.tag(s, "prepare")
        if dty[0] == "adt" and dty[1] == OPT:
            x = self.mk(s, dty[2][0], tag)
            some = self.scenario is None or self.scenario(len([e for e in s.ev if isinstance(e, Call) and e.kind == "prepare"]))
            r = Adt(OPT, 1, "Some", [x], dty[2]) if some else Adt(OPT, 0, "None", [], dty[2])
        else:
            r = self.mk(s, dty, tag)
        self.record(s, "prepare", t, cal, ca, vals, r, fr, span)
        s.ev[-1].tag = tag
        return [(s, r)]


class Gen(Runtime):
    def __init__(self, wit, rt):
        Runtime.__init__(self, [wit] + list(rt), lambda eng: [])
        self.wit = wit
        self.inv = {}
        self.fns = {}
        for f in wit.fns:
            if f.kind == "fn" and f.body:
                st = wit.ty(f.impl_self) if f.impl_self is not None else None
                key = (st[1] if st and st[0] == "adt" else None, f.impl_trait.rsplit("::", 1)[1] if f.impl_trait else None, f.name)
                self.fns.setdefault(key, []).append(f)

    def engine(self):
        eng = GenEngine(self.crates, models)
        eng.inv = {}
        eng.merge_above = 10**6
        eng.recording = True
        return eng

    def run(self, fn, scenario=None, inline=None, args=None, outcome=None, write_boundary=False, hooks=None, compare=None):
        """[(eng, state, value, args)] of the exits of a function."""
        eng = self.engine()
        eng.scenario, eng.inline_write, eng.outcome, eng.wit_name = scenario, inline, outcome, self.wit.name
        eng.write_boundary = write_boundary
        eng.compare = compare
        eng.hooks.update(hooks or {})
        st = State()
        eng.root = fn
        a = self.args(eng, st, fn, {})
        if args:
            args(eng, st, a)
        a0 = list(a)
        outs = eng.run(fn, {}, a, st)
        return eng, [(s, eng.expand(s, v)) for s, v in outs], a0
