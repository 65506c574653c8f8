"""Abstract interpretation of the compiler front end: every path of a function with the calls it makes.

Same engine as for the runtime; calls without a body (or with loops, or recursive) are opaque, and are recorded in order in the trace
of the path together with their arguments and their (unconstrained) result. `Cell`s are tracked."""
from sa import models
from sa.absint import Engine, State, Adt, Tup, Ref, Sym, Clo, C, L, It, Sl, Term, V, Stop, Budget, cnot, const, kv
from sa.facts import ty_str


def mentions(t, pred):
    if isinstance(t, tuple):
        if len(t) > 1 and t[0] == "adt" and isinstance(t[1], str) and pred(t[1]):
            return True
        return any(mentions(x, pred) for x in t)
    return False


def local_callees(c, f):
    for bb, cal, args, dest, span in f.calls():
        for k in ("rid", "id"):
            i = cal.get(k) if isinstance(cal, dict) else None
            if i in c.by_id:
                yield c.by_id[i]
                break
    for st, t, cl in f.blocks():
        for s in st:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "closure":
                g = c.by_id.get(s[2][1][1])
                if g:
                    yield g


def cyclic(c):
    """Functions that lie on a cycle of the call graph (closures belong to their parent)."""
    succ = {f.id: {g.id for g in local_callees(c, f)} for f in c.fns if f.body}
    reach = {}
    for a in succ:
        seen, todo = set(), list(succ[a])
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += succ.get(x, ())
        reach[a] = seen
    return {a for a in succ if a in reach[a]}


COPIES = ("alloc::borrow::ToOwned::to_owned", "alloc::string::ToString::to_string", "core::clone::Clone::clone", "core::convert::Into::into", "core::convert::From::from")
VIEWS = ("core::ops::deref::Deref::deref", "core::convert::AsRef::as_ref", "core::borrow::Borrow::borrow")


class Front(Engine):
    """keep: callables f(fn) -> True when a local function is to be inlined. contract(fn) -> True when it is opaque but named."""

    def __init__(self, crates, opaque=None, **kw):
        super().__init__(crates, models, **kw)
        self.is_opaque = opaque or (lambda fn: False)
        self.cyc = set()
        for c in crates:
            if not hasattr(c, "_cyc"):
                c._cyc = cyclic(c)
            self.cyc |= c._cyc
        self._op = {}
        self._own = None
        self._tys = None
        self._through = None

    def has_loop(self, fn):
        return bool(self.loops(fn)) if fn.body else False

    def resolve(self, callee, cargs):
        r = super().resolve(callee, cargs)
        if r:
            fn = r[0]
            o = self._op.get(fn.id)
            if o is None:
                o = self._op[fn.id] = bool(self.is_opaque(fn) or fn.id in self.cyc or self.has_loop(fn))
            if o:
                return None
        return r

    def call_path(self, fr, st, callee, cargs, vals, span, dty):
        n = callee.get("f")
        if n in ("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne"):
            a, b = (bits(self, st, v) for v in vals)
            if a is not None and b is not None:
                c = C("eq", a - b)
                return [(st, c if n.endswith("eq") else cnot(c))]
        out = super().call_path(fr, st, callee, cargs, vals, span, dty)
        if n in ("core::mem::replace", "core::mem::take", "core::mem::swap"):
            r = self.expand(st, vals[0])
            for s, v in out:
                s.ev = s.ev + (("assign",) + ((r.cell, r.path) if isinstance(r, Ref) else (None, ())) + (fr.fn,),)
        if n and n.endswith(("Iterator::next", "DoubleEndedIterator::next_back")):
            for s, v in out:
                x = self.expand(s, v)
                if isinstance(x, Adt) and x.vn == "Some":
                    s.ev = s.ev + (("item", x.fields[0], fr.fn),)
        elif n in COPIES:
            for s, v in out:
                s.ev = s.ev + (("copy", v, vals[0], self.peek(st, vals[0])),)
        if n in VIEWS:
            for s, v in out:
                if isinstance(v, (Sym, Ref)) and len(s.ev) == len(st.ev):
                    s.ev = s.ev + (("call", callee, vals, v, fr.fn, span[1], [self.peek(st, x) for x in vals]),)
        return out

    def ident(self, fr, st, v):
        """A name for the place a reference points to."""
        v = self.expand(st, v)
        if isinstance(v, Ref):
            return ("at", v.cell, tuple(p[:2] for p in v.path))
        return ("val", kv(v))

    def opaque(self, fr, st, callee, vals, span, dty):
        name = callee.get("f") or "?"
        if name.startswith("core::cell::Cell::<T>::"):
            r = self.cell(fr, st, name.rsplit("::", 1)[1], vals, dty)
            if r is not None:
                return r
        seen = [self.peek(st, v) for v in vals]
        tys = self._tys if self._tys and len(self._tys) == len(vals) else None
        out = super().opaque(fr, st, callee, vals, span, dty)
        for s, v in out:
            for i, x in enumerate(vals):
                self.forget(s, fr, x, tys[i] if tys else None)
            if self.touches(callee):
                for k in [k for k in s.exp if isinstance(k, tuple) and k and k[0] == "cell"]:
                    del s.exp[k]
            s.ev = s.ev + (("call", callee, vals, v, fr.fn, span[1], seen),)
        return out

    def call(self, fr, bb, st, t):
        self._tys = [self.op_ty(fr, a) for a in t[2]]
        return super().call(fr, bb, st, t)

    def place(self, st, fr, pl):
        self._through = fr.fn if "*" in pl[1:] else None
        return super().place(st, fr, pl)

    def write(self, st, pl, v):
        if self._through is not None and pl[0] == "c":
            st.ev = st.ev + (("assign", pl[1], pl[2], self._through),)
        return super().write(st, pl, v)

    def cell_type(self, fr, cell, path):
        for p in reversed(path):
            if p[0] == "f" and len(p) > 2 and p[2]:
                return p[2]
            return None
        if cell in self.cellty:
            return self.cellty[cell]
        while fr is not None:
            if fr.fid == cell[0] and isinstance(cell[1], int):
                return self.local_ty(fr, [cell[1]])
            fr = fr.caller
        return None

    def forget(self, st, fr, v, ty, depth=0):
        """An opaque call may have changed whatever it can reach through a mutable reference."""
        if depth > 3:
            return
        v = self.expand(st, v)
        if isinstance(v, Ref) and (ty is None or ty[0] != "ref" or ty[2]):
            t = ty[1] if ty is not None and ty[0] in ("ref", "ptr") else self.cell_type(fr, v.cell, v.path)
            try:
                old = self.expand(st, self.load(st, v.cell, v.path))
            except Stop:
                return
            if isinstance(old, Ref):
                self.forget(st, fr, old, t, depth + 1)
                return
            if t is None or t[0] in ("param", "dyn", "other") and not isinstance(old, Sym):
                if isinstance(old, L):
                    new = self.A.fresh("forgot", -(2**63), 2**64)
                elif isinstance(old, (Adt,)):
                    new = self.mk(st, ("adt", old.path, old.args), "forgot")
                else:
                    new = Sym(("forgot", self.nsym), getattr(old, "ty", None) or ("other", "?"))
                    self.nsym += 1
            else:
                new = self.mk(st, t, "forgot")
            try:
                self.store(st, v.cell, v.path, new)
            except Stop:
                pass
        elif isinstance(v, Clo):
            for x in v.caps:
                self.forget(st, fr, x, None, depth + 1)
        elif isinstance(v, (Tup, Adt)):
            inner = None
            if ty is not None and ty[0] == "tuple" and len(ty[1]) == len(v.fields):
                inner = ty[1]
            elif ty is not None and ty[0] == "adt" and ty[1] == "core::option::Option" and len(v.fields) == 1 and ty[2]:
                inner = ty[2]
            for k, x in enumerate(v.fields):
                if inner is not None:
                    self.forget(st, fr, x, inner[k], depth + 1)
                elif isinstance(self.expand(st, x), (Ref, Clo, Adt, Tup)):
                    self.forget(st, fr, x, None if not isinstance(self.expand(st, x), Ref) else self.ref_type(v, x), depth + 1)

    def peek(self, st, v):
        """What a reference points to at the time of a call."""
        v = self.expand(st, v)
        for _ in range(5):
            if not isinstance(v, Ref):
                break
            try:
                v = self.expand(st, self.load(st, v.cell, v.path))
            except Stop:
                break
        return v

    def ref_type(self, v, x):
        return None

    def owners(self):
        """Types that contain a Cell, directly or through other types of these crates."""
        if self._own is None:
            own = set()
            while True:
                n = len(own)
                for p, a in self.adts.items():
                    if p not in own:
                        for v in a["variants"]:
                            for f in v["fields"]:
                                if mentions(a["_crate"].ty(f[1]), lambda q: q in own or q == "core::cell::Cell"):
                                    own.add(p)
                if len(own) == n:
                    break
            self._own = own
        return self._own

    def touches(self, callee):
        """May the call reach a tracked Cell?"""
        fn = self.by_id.get(callee.get("rid")) or self.by_id.get(callee.get("id"))
        own = self.owners()
        if fn is not None and fn.body:
            ts = [fn.crate.ty(fn.body["locals"][i + 1]) for i in range(fn.body["argc"])]
            if any(mentions(t, lambda q: q in own) or "closure" in repr(t) for t in ts):
                return True
            return any(mentions(t, lambda q: q in own) for t in self.crate_args(fn, callee))
        n = callee.get("f") or "?"
        return not n.startswith(("core::", "alloc::", "std::", "codespan", "indexmap::", "planus_lexer::", "clap"))

    def crate_args(self, fn, callee):
        return []

    def cell(self, fr, st, op, vals, dty):
        k = ("cell",) + self.ident(fr, st, vals[0])
        if op == "new":
            return None
        s = st.fork()
        if k not in s.exp:
            v0 = self.expand(s, vals[0])
            inner = dty if op in ("get", "replace", "take", "into_inner") else None
            if inner is None:
                # type of the contents from the reference
                x = None
                try:
                    x = self.expand(s, self.load(s, v0.cell, v0.path)) if isinstance(v0, Ref) else None
                except Stop:
                    pass
                if isinstance(x, Sym) and x.ty[0] == "adt" and x.ty[2]:
                    inner = x.ty[2][0]
            if inner is None:
                return None
            s.exp[k] = self.mk(s, inner, "cell")
        old = s.exp[k]
        if op == "get":
            return [(s, old)]
        if op in ("set", "replace"):
            s.exp[k] = vals[1]
            s.ev = s.ev + (("set", k, old, vals[1], fr.fn),)
            return [(s, Tup([]) if op == "set" else old)]
        return None


def args_of(eng, st, f):
    out = []
    for i in range(f.body["argc"]):
        nm = "a%d" % i
        for v in f.body.get("vars") or []:
            if isinstance(v, list) and len(v) > 1 and v[1] == [i + 1]:
                nm = v[0]
        out.append(eng.mk(st, eng.sub(f.crate.ty(f.body["locals"][i + 1]), {}), nm))
    return out


def paths(eng, f):
    """[(final state, returned value, arguments)] of every path through f."""
    st = State()
    eng.root = f
    eng.steps = 0
    a = args_of(eng, st, f)
    return [(s, eng.expand(s, v), a) for s, v in eng.run(f, {}, a, st)]


def calls(st):
    return [e for e in st.ev if e[0] == "call"]


def name(e):
    return e[1].get("f") or "?"


def variant(eng, st, v):
    v = eng.expand(st, v)
    return v.vn if isinstance(v, Adt) else None


def bits(eng, st, v):
    """The integer inside a chain of one-field structs."""
    v = eng.expand(st, v)
    n = 0
    while not isinstance(v, L) and n < 5:
        n += 1
        if isinstance(v, Adt) and len(v.fields) == 1:
            v = eng.expand(st, v.fields[0])
        elif isinstance(v, Ref):
            v = eng.expand(st, eng.load(st, v.cell, v.path))
        elif isinstance(v, Sym):
            w = eng.proj(st, v, ("f", 0, None))
            if isinstance(w, Sym) and w.ty == ("other", "?"):
                return None
            v = eng.expand(st, w)
        else:
            return None
    return v if isinstance(v, L) else None
