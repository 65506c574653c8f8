"""Abstract interpreter over the dumped MIR.

Domain: trace-partitioned states; integers are linear terms over symbolic atoms constrained by linear
inequalities (sa/lin.py); references are places in abstract cells; slices and raw pointers are
(region, start, length); enums are refined lazily; closures and generic functions are analysed at
their call sites (inlined, with type substitution); loops are analysed once from a havocked header
state with inferred linear induction relations.  Functions of core/alloc are modelled in sa/models.py.
Nothing is executed and no solver is used."""
from sa.lin import L, Atoms, const, unsat, ISIZE_MAX, USIZE_MAX

RANGES = {}
for b in (8, 16, 32, 64, 128):
    RANGES["u%d" % b] = (0, 2**b - 1)
    RANGES["i%d" % b] = (-(2 ** (b - 1)), 2 ** (b - 1) - 1)
RANGES["usize"] = (0, USIZE_MAX)
RANGES["isize"] = (-(2**63), ISIZE_MAX)
BITS = {k: (64 if k.endswith("size") else int(k[1:])) for k in RANGES}

CONST_MAX = 2**31  # assumption: associated sizes/strides and const-generic sizes are below 2 GiB


class V:
    __slots__ = ()


class Sl(V):
    """Reference to `n` consecutive elements (each `esz` units) of a region; also &str and &[T; N]."""

    __slots__ = ("region", "start", "n", "ety", "esz", "kind")

    def __init__(self, region, start, n, ety, esz=1, kind="slice"):
        self.region, self.start, self.n, self.ety, self.esz, self.kind = region, start, n, ety, esz, kind

    def __repr__(self):
        return "Sl(%s,%r,%r)" % (self.region, self.start, self.n)

    def k(self):
        return ("Sl", self.region, self.start.key, self.n.key, self.kind)


class Ptr(V):
    __slots__ = ("region", "start", "ety", "esz")

    def __init__(self, region, start, ety, esz=1):
        self.region, self.start, self.ety, self.esz = region, start, ety, esz

    def __repr__(self):
        return "Ptr(%s,%r)" % (self.region, self.start)

    def k(self):
        return ("Ptr", self.region, self.start.key)


class Ref(V):
    __slots__ = ("cell", "path")

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, path

    def __repr__(self):
        return "Ref(%s%s)" % (self.cell, list(self.path))

    def k(self):
        return ("Ref", self.cell, self.path)


class Adt(V):
    __slots__ = ("path", "vi", "vn", "fields", "args")

    def __init__(self, path, vi, vn, fields, args=()):
        self.path, self.vi, self.vn, self.fields, self.args = path, vi, vn, fields, args

    def __repr__(self):
        return "%s::%s%r" % (self.path.split("::")[-1], self.vn, self.fields)

    def k(self):
        return ("Adt", self.path, self.vi) + tuple(kv(x) for x in self.fields)


class Tup(V):
    __slots__ = ("fields",)

    def __init__(self, fields=()):
        self.fields = list(fields)

    def __repr__(self):
        return "Tup%r" % (self.fields,)

    def k(self):
        return ("Tup",) + tuple(kv(x) for x in self.fields)


class Arr(V):
    """Array with known elements."""

    __slots__ = ("elems",)

    def __init__(self, elems):
        self.elems = list(elems)

    def __repr__(self):
        return "Arr%r" % (self.elems,)

    def k(self):
        return ("Arr",) + tuple(kv(x) for x in self.elems)


class Term(V):
    """Uninterpreted term."""

    __slots__ = ("op", "args", "ty")

    def __init__(self, op, args=(), ty=None):
        self.op, self.args, self.ty = op, tuple(args), ty

    def __repr__(self):
        return "%s%r" % (self.op, self.args)

    def k(self):
        return ("Term", self.op) + tuple(kv(x) for x in self.args)


class Sym(V):
    __slots__ = ("key", "ty")

    def __init__(self, key, ty):
        self.key, self.ty = key, ty

    def __repr__(self):
        return "Sym%s" % (self.key,)

    def k(self):
        return ("Sym", self.key)


class C(V):
    """Boolean."""

    __slots__ = ("op", "a", "b")

    def __init__(self, op, a=None, b=None):
        self.op, self.a, self.b = op, a, b

    def __repr__(self):
        return "C(%s %r %r)" % (self.op, self.a, self.b)

    def k(self):
        return ("C", self.op, kv(self.a), kv(self.b))


TRUE, FALSE = C("const", True), C("const", False)


class Clo(V):
    __slots__ = ("id", "caps", "subst")

    def __init__(self, id, caps, subst):
        self.id, self.caps, self.subst = id, caps, subst

    def k(self):
        return ("Clo", self.id) + tuple(kv(x) for x in self.caps)


class FnV(V):
    __slots__ = ("path", "id", "args")

    def __init__(self, path, id, args):
        self.path, self.id, self.args = path, id, args

    def k(self):
        return ("FnV", self.path, repr(self.args))


class It(V):
    """Modelled library object (slice iterator, adaptor, Vec, array cursor)."""

    __slots__ = ("kind", "f")

    def __init__(self, kind, **f):
        self.kind, self.f = kind, f

    def set(self, **kw):
        d = dict(self.f)
        d.update(kw)
        return It(self.kind, **d)

    def __repr__(self):
        return "It(%s %r)" % (self.kind, self.f)

    def k(self):
        return ("It", self.kind) + tuple((n, kv(x)) for n, x in sorted(self.f.items()))


def kv(x):
    if x is None:
        return None
    if isinstance(x, L):
        return x.key
    if isinstance(x, V):
        return x.k()
    if isinstance(x, (list, tuple)):
        return tuple(kv(y) for y in x)
    return x


def cnot(c):
    if c.op == "const":
        return C("const", not c.a)
    if c.op == "ge":  # not (l >= 0)  <=>  -l-1 >= 0
        return C("ge", -c.a - 1)
    if c.op == "eq":
        return C("ne", c.a)
    if c.op == "ne":
        return C("eq", c.a)
    if c.op == "and":
        return C("or", cnot(c.a), cnot(c.b))
    if c.op == "or":
        return C("and", cnot(c.a), cnot(c.b))
    if c.op == "op":
        return C("nop", c.a)
    if c.op == "nop":
        return C("op", c.a)
    raise AssertionError(c.op)


class State:
    __slots__ = ("cells", "ineq", "eq", "ne", "exp", "excl", "facts", "ev", "cov", "loops", "notes")

    def __init__(self):
        self.cells = {}
        self.ineq = ()
        self.eq = ()
        self.ne = ()
        self.exp = {}
        self.excl = {}
        self.facts = {}
        self.ev = ()
        self.cov = {}
        self.loops = frozenset()
        self.notes = ()

    def fork(self):
        s = State()
        s.cells = dict(self.cells)
        s.ineq, s.eq, s.ne = self.ineq, self.eq, self.ne
        s.exp = dict(self.exp)
        s.excl = dict(self.excl)
        s.facts = dict(self.facts)
        s.ev = self.ev
        s.cov = dict(self.cov)
        s.loops = self.loops
        s.notes = self.notes
        return s


class Budget(Exception):
    pass


class Stop(Exception):
    pass


BUILTIN_ENUMS = {
    "core::option::Option": [("None", []), ("Some", [0])],
    "core::result::Result": [("Ok", [0]), ("Err", [1])],
    "core::ops::control_flow::ControlFlow": [("Continue", [1]), ("Break", [0])],
    "core::ops::range::Bound": [("Included", [0]), ("Excluded", [0]), ("Unbounded", [])],
    "core::cmp::Ordering": [("Less", []), ("Equal", []), ("Greater", [])],
    "alloc::borrow::Cow": [("Borrowed", [0]), ("Owned", [0])],
}
BUILTIN_DISCR = {"core::cmp::Ordering": [-1, 0, 1]}


class Frame:
    __slots__ = ("fn", "subst", "fid", "depth", "caller")

    def __init__(self, fn, subst, fid, depth, caller):
        self.fn, self.subst, self.fid, self.depth, self.caller = fn, subst, fid, depth, caller


WIDTH = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32}


class Engine:
    def __init__(self, crates, models, max_paths=6000, max_depth=40):
        self.A = Atoms()
        self.crates = crates
        self.by_id = {}
        self.adts = {}
        self.impls = {}
        for c in crates:
            self.by_id.update(c.by_id)
            self.adts.update(c.adts)
            for i in c.impls:
                if i.get("trait"):
                    self.impls.setdefault(i["trait"], []).append((c, i))
        self.models = models
        self.obs = {}
        self.rsize = {}
        self.rpos = {}
        self.nfid = 0
        self.nsym = 0
        self.inv = {}  # adt path -> list of invariant candidates (see invariants.py)
        self.inv_failed = set()
        self.recording = True
        self.contracts = {}
        self.summaries = {}
        self.guards = {}
        self.max_alloc = None
        self.mutable = set()  # types whose values opaque calls may change through a reference
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.steps = 0
        self.root = None
        self.unmodelled = {}
        self.inlined = set()
        self._loops = {}
        self.discr_of = {}
        self.on_write = None
        self.hooks = {}
        self.merge_above = 1  # outcomes of a call kept apart at most
        self.implcache = {}
        self.ec = {}
        self.cellty = {}
        self.elemstart = {}
        self.uninit = set()
        self.argtys = None
        self._has_local = {}
        self._indiv = False
        self._infac = False

    def local_impl(self, trait, cargs, cid=None):
        """Is there an analysable body of this trait method for the receiver type?"""
        key = (trait, tuple(cargs), cid)
        r = self._has_local.get(key)
        if r is None:
            n = self.trait_arity(trait)
            r = False
            if n is not None:
                im = self.find_impl(trait, tuple(cargs)[:n])
                if im is not None:
                    name = cid.rsplit("::", 1)[1] if cid else None
                    r = name is None or any(it["name"] == name for it in im[1]["items"])
                    if not r:
                        fn = self.by_id.get(cid)
                        r = bool(fn and fn.body)
            self._has_local[key] = r
        return r

    def noteelem(self, sl, i):
        st = sl.start + (i.scale(sl.esz) if isinstance(sl.esz, int) else i.mul(sl.esz))
        self.elemstart[("h", "elem", sl.region, st.key)] = (sl.region, st)

    # ------------------------------------------------------------- arithmetic facts
    def relevant(self, st, ls):
        want = set()
        for l in ls:
            want |= l.atoms()
        ineq, eq = list(st.ineq), list(st.eq)
        si, se = set(), set()
        changed = True
        rounds = 0
        while changed and rounds < 6:
            changed = False
            rounds += 1
            for i, e in enumerate(eq):
                if i not in se and e.atoms() & want:
                    se.add(i)
                    if e.atoms() - want:
                        want |= e.atoms()
                        changed = True
            for i, e in enumerate(ineq):
                if i not in si and e.atoms() & want:
                    si.add(i)
                    if e.atoms() - want:
                        want |= e.atoms()
                        changed = True
        return [ineq[i] for i in sorted(si)], [eq[i] for i in sorted(se)]

    def entails(self, st, l):
        """Does the state imply l >= 0?"""
        if l.is_const():
            return l.c >= 0
        lo, hi = self.A.rng(l)
        if lo >= 0:
            return True
        ck = (l.key, st.ineq, st.eq)
        r = self.ec.get(ck)
        if r is None:
            neg = -l - 1
            iq, eq = self.relevant(st, [neg])
            r = unsat(self.A, iq + [neg], eq)
            self.ec[ck] = r
        if not r and not self._infac and (any(len(m) >= 2 for m in l.t) or self.nonlinear(st, l)):
            self._infac = True
            try:
                r = self.factor(st, l)
            finally:
                self._infac = False
            self.ec[ck] = r
        if not r and "divs" in st.facts and not self._indiv:
            self._indiv = True
            try:
                for b in {b0 for _, b0 in st.facts["divs"]}:
                    # x = l + b is a multiple of b and positive, hence at least b
                    x = l + b
                    if self.entails(st, x - 1) and self.multiple(st, x, b):
                        return True
            finally:
                self._indiv = False
        return r

    def nonlinear(self, st, l):
        at = l.atoms()
        return any(len(m) >= 2 and not at.isdisjoint(m) for f in st.ineq for m in f.t)

    def factor(self, st, l):
        """l >= 0 because l = f + S*Z + R for a known fact f >= 0 with Z >= 0 and R >= 0."""
        cand = {}
        for m in l.t:
            for a in m:
                if self.A.bounds(a)[0] >= 0:
                    cand[a] = 1
        for S in cand:
            for f in (L(),) + st.ineq:
                if f.t and not any(S in m and len(m) >= 2 for m in f.t):
                    continue
                d = l - f
                z, r = {}, {}
                for m, k in d.t.items():
                    if S in m:
                        mm = list(m)
                        mm.remove(S)
                        z[tuple(mm)] = z.get(tuple(mm), 0) + k
                    else:
                        r[m] = k
                Z = L({m: k for m, k in z.items() if m}, z.get((), 0))
                if any(len(m) > 2 for m in Z.t):
                    continue
                R = L(r, d.c)
                if self.entails(st, R) and self.entails(st, Z):
                    return True
        return False

    def entails_eq(self, st, l):
        if (l.is_const() and l.c == 0) or (self.entails(st, l) and self.entails(st, -l)):
            return True
        s = self.unwrap(st, l)
        return s is not l and self.entails_eq(st, s)

    def unwrap(self, st, l):
        """Resolve wrapping operations whose operand is known by now to be in range."""
        for mono, co in sorted(l.t.items()):
            if len(mono) == 1:
                key = self.A.info[mono[0]][0]
                if isinstance(key, tuple) and key[0] == "wrap" and isinstance(key[2], L):
                    lo, hi = RANGES[key[1]]
                    x = self.unwrap(st, key[2])
                    if self.entails(st, x - lo) and self.entails(st, -x + hi):
                        return self.unwrap(st, l - L({mono: co}) + x.scale(co))
        return l

    def infeasible(self, st, ls, eqs=()):
        iq, eq = self.relevant(st, list(ls) + list(eqs))
        ck = ("inf", tuple(x.key for x in ls), tuple(x.key for x in eqs), st.ineq, st.eq)
        r = self.ec.get(ck)
        if r is None:
            r = self.ec[ck] = unsat(self.A, iq + list(ls), eq + list(eqs))
        return r

    def add_ge(self, st, l):
        if l.is_const():
            return l.c >= 0
        if self.A.rng(l)[0] >= 0:
            return True
        if l not in st.ineq:
            st.ineq = st.ineq + (l,)
        return True

    def add_eq(self, st, l):
        if l.is_const():
            return l.c == 0
        if l not in st.eq:
            st.eq = st.eq + (l,)
            for m in l.t:
                # a multiple of b that is at least 1 is at least b
                for q in m if len(m) == 2 else ():
                    key = self.A.info[q][0]
                    if isinstance(key, tuple) and key[0] == "Div" and isinstance(key[1], L) and isinstance(key[2], L) and len(key) == 3:
                        d = key[1] - key[2].mul(L({(q,): 1}, 0))
                        if (l == d or l == -d) and self.entails(st, key[1] - 1):
                            self.add_ge(st, key[1] - key[2])
        return True

    def cond(self, st, c):
        """True / False / None."""
        if c.op == "const":
            return c.a
        if c.op == "ge":
            if self.entails(st, c.a):
                return True
            if self.entails(st, -c.a - 1):
                return False
            return None
        if c.op in ("eq", "ne"):
            r = None
            if c.a.is_const():
                r = c.a.c == 0
            elif self.entails_eq(st, c.a):
                r = True
            elif c.a in st.ne or -c.a in st.ne or self.infeasible(st, [], [c.a]):
                r = False
            if r is None:
                return None
            return r if c.op == "eq" else not r
        if c.op in ("op", "nop"):
            r = st.facts.get(c.a)
            if r is None:
                return None
            return r if c.op == "op" else not r
        if c.op == "and":
            a, b = self.cond(st, c.a), self.cond(st, c.b)
            if a is False or b is False:
                return False
            if a is True and b is True:
                return True
            return None
        if c.op == "or":
            a, b = self.cond(st, c.a), self.cond(st, c.b)
            if a is True or b is True:
                return True
            if a is False and b is False:
                return False
            return None
        return None

    def assume(self, st, c):
        """List of states refined by c (st itself is not modified)."""
        r = self.cond(st, c)
        if r is True:
            return [st]
        if r is False:
            return []
        s = st.fork()
        if c.op == "ge":
            self.add_ge(s, c.a)
            # a disequality may now sharpen
            for n in s.ne:
                if self.entails(s, n):
                    self.add_ge(s, n - 1)
                elif self.entails(s, -n):
                    self.add_ge(s, -n - 1)
            self.sharpen_div(s, c.a + 1)
            return [s]
        if c.op == "eq":
            self.add_eq(s, c.a)
            return [s]
        if c.op == "ne":
            if self.entails(s, c.a):
                self.add_ge(s, c.a - 1)
            elif self.entails(s, -c.a):
                self.add_ge(s, -c.a - 1)
            else:
                s.ne = s.ne + (c.a,)
            self.sharpen_div(s, c.a)
            return [s]
        if c.op == "op":
            s.facts[c.a] = True
            return [s]
        if c.op == "nop":
            s.facts[c.a] = False
            return [s]
        if c.op == "and":
            out = []
            for x in self.assume(st, c.a):
                out += self.assume(x, c.b)
            return out
        if c.op == "or":
            out = self.assume(st, c.a)
            for x in self.assume(st, cnot(c.a)):
                out += self.assume(x, c.b)
            for x in out:
                if x is not st:
                    x.facts[("cond", c.k())] = True  # survives joining the two cases
            return out
        raise AssertionError(c.op)

    def branch(self, st, c):
        return self.assume(st, c), self.assume(st, cnot(c))

    # ------------------------------------------------------------- divisibility facts
    def add_div(self, st, a, b):
        """Record that a is a multiple of b."""
        if a.is_const() and a.c == 0 or b.is_const() and b.c == 1:
            return
        d = st.facts.get("divs", ())
        if (a, b) not in d:
            st.facts["divs"] = d + ((a, b),)
            if self.entails(st, a - 1):
                self.add_ge(st, a - b)

    def multiple(self, st, a, b):
        """Is a certainly a multiple of b?"""
        def plain(x):
            if b.is_const():
                return b.c != 0 and x.c % b.c == 0 and all(k % b.c == 0 for k in x.t.values())
            s = b.single()
            return x.c == 0 and s is not None and all(s in m for m in x.t)
        if plain(a):
            return True
        for a0, b0 in st.facts.get("divs", ()):
            if b0 == b and (plain(a - a0) or self.entails_eq(st, a - a0)):
                return True
            if b.is_const() and b0.is_const() and b.c and b0.c % b.c == 0 and plain(a - a0):
                return True
        return self.entails_eq(st, a)

    def sharpen_div(self, st, x=None):
        if x is not None:
            for b in {b0 for _, b0 in st.facts.get("divs", ())}:
                for y in (x, -x):
                    l = y - b
                    if l not in st.ineq and self.multiple(st, y, b) and self.entails(st, y - 1):
                        self.add_ge(st, l)
        for a, b in st.facts.get("divs", ()):
            l = a - b
            if not l.is_const() and l not in st.ineq and self.entails(st, a - 1):
                self.add_ge(st, l)

    # ------------------------------------------------------------- types
    def sub(self, ty, subst):
        if not subst:
            return ty
        k = ty[0]
        if k == "param":
            return subst.get(ty[1], ty)
        if k == "adt":
            return ("adt", ty[1], tuple(self.subarg(a, subst) for a in ty[2]))
        if k in ("ref", "ptr"):
            return (k, self.sub(ty[1], subst), ty[2])
        if k == "slice":
            return ("slice", self.sub(ty[1], subst))
        if k == "array":
            return ("array", self.sub(ty[1], subst), self.subarg(ty[2], subst))
        if k == "tuple":
            return ("tuple", tuple(self.sub(x, subst) for x in ty[1]))
        if k == "proj":
            return self.norm_proj(("proj", ty[1], tuple(self.subarg(a, subst) for a in ty[2])))
        if k == "fndef":
            return ("fndef", ty[1], ty[2], tuple(self.subarg(a, subst) for a in ty[3]))
        return ty

    def subarg(self, a, subst):
        if a[0] == "p":
            return subst.get(a[1], a)
        if a[0] == "n":
            return a
        return self.sub(a, subst)

    def norm_proj(self, ty):
        """Normalise <Self as Trait>::Assoc when an impl is known."""
        trait, name = ty[1].rsplit("::", 1)
        if any(self.has_param(a) for a in ty[2][:1]):
            return ty
        r = self.find_impl(trait, ty[2])
        if r:
            c, im, s = r
            for it in im["items"]:
                if it["name"] == name and it.get("ty") is not None:
                    return self.sub(c.ty(it["ty"]), s)
        return ty

    def has_param(self, t):
        if t[0] == "param":
            return True
        if t[0] in ("ref", "ptr", "slice"):
            return False if t[1][0] != "param" else t[0] != "ref"
        return False

    def match(self, pat, ty, s):
        k = pat[0]
        if k == "param":
            if pat[1] in s:
                return s[pat[1]] == ty
            s[pat[1]] = ty
            return True
        if k == "p":
            if pat[1] in s:
                return s[pat[1]] == ty
            s[pat[1]] = ty
            return ty[0] in ("n", "p")
        if k == "proj":
            return True
        if ty[0] != k:
            return False
        if k == "adt":
            return pat[1] == ty[1] and len(pat[2]) == len(ty[2]) and all(self.match(a, b, s) for a, b in zip(pat[2], ty[2]))
        if k in ("ref", "ptr"):
            return pat[2] == ty[2] and self.match(pat[1], ty[1], s)
        if k == "slice":
            return self.match(pat[1], ty[1], s)
        if k == "array":
            return self.match(pat[1], ty[1], s) and self.match(pat[2], ty[2], s)
        if k == "tuple":
            return len(pat[1]) == len(ty[1]) and all(self.match(a, b, s) for a, b in zip(pat[1], ty[1]))
        return pat == ty

    def find_impl(self, trait, args):
        key = (trait, tuple(args))
        if key in self.implcache:
            return self.implcache[key]
        best = None
        if args and args[0][0] != "param" and args[0][0] != "proj":
            for c, im in self.impls.get(trait, ()):
                s = {}
                pats = [c._arg(a) for a in im["args"]]
                if len(pats) != len(args):
                    continue
                if all(self.match(p, a, s) for p, a in zip(pats, args)):
                    generic = pats[0][0] == "param"
                    if best is None or (best[3] and not generic):
                        best = (c, im, s, generic)
        r = best and best[:3]
        self.implcache[key] = r
        return r

    # ------------------------------------------------------------- fresh values
    def region(self, name, size=None):
        self.nsym += 1
        r = "%s#%d" % (name, self.nsym)
        self.rsize[r] = size if size is not None else self.A.fresh("size(" + name + ")", 0, ISIZE_MAX)
        return r

    def rp(self, region):
        """Position (distance from the end of the finished buffer) of the region's start."""
        p = self.rpos.get(region)
        if p is None:
            p = self.rpos[region] = self.A.fresh("pos(%s)" % region, 0, 2**31)
        return p

    def cval(self, a, subst=None):
        """Const-generic argument as a term."""
        if a[0] == "n":
            return const(a[1])
        return self.A.get(("const", a[1]), 0, CONST_MAX)

    def mk(self, st, ty, name="v", depth=0):
        k = ty[0]
        if k == "int":
            lo, hi = RANGES[ty[1]]
            return self.A.fresh(name, lo, hi)
        if k == "bool":
            self.nsym += 1
            return C("op", ("b", name, self.nsym))
        if k == "char":
            return self.A.fresh(name, 0, 0x10FFFF)
        if k in ("ref", "ptr"):
            t = ty[1]
            if t[0] in ("slice", "str"):
                n = self.A.fresh("len(%s)" % name, 0, ISIZE_MAX)
                e = t[1] if t[0] == "slice" else ("int", "u8")
                if k == "ptr":
                    return Ptr(self.region(name), self.A.fresh("start", 0, ISIZE_MAX), e)
                return Sl(self.region(name, n), const(0), n, e, kind="str" if t[0] == "str" else "slice")
            if t[0] == "array":
                n = self.cval(t[2])
                if k == "ptr":
                    return Ptr(self.region(name), const(0), t[1], 1)
                return Sl(self.region(name, n), const(0), n, t[1], kind="array")
            if k == "ptr":
                return Ptr(self.region(name), const(0), t)
            self.nsym += 1
            cell = ("h", self.nsym, name)
            self.cellty[cell] = t
            if t[0] == "ref" or depth > 6:
                st.cells[cell] = self.mk(st, t, name, depth + 1) if depth <= 6 else Sym((name, self.nsym), t)
            else:
                st.cells[cell] = self.mk(st, t, name, depth + 1)
            return Ref(cell)
        if k == "tuple":
            return Tup([self.mk(st, t, "%s.%d" % (name, i), depth + 1) for i, t in enumerate(ty[1])])
        if k == "adt":
            return self.mk_adt(st, ty, name, depth)
        if k == "closure":
            fn = self.by_id.get(ty[1])
            self.nsym += 1
            return Sym((name, self.nsym), ty)
        if k == "fndef":
            return FnV(ty[1], ty[2], ty[3])
        if k == "proj":
            n = self.norm_proj(ty)
            if n != ty:
                return self.mk(st, n, name, depth)
        self.nsym += 1
        return Sym((name, self.nsym), ty)

    def mk_adt(self, st, ty, name, depth):
        path, args = ty[1], ty[2]
        m = self.models.mk_adt(self, st, ty, name, depth)
        if m is not None:
            return m
        a = self.adts.get(path)
        if a and a["kind"] == "struct" and depth < 12:
            v = a["variants"][0]
            crate = a["_crate"]
            s = self.adt_subst(a, args)
            fs = [self.mk(st, self.sub(crate.ty(f[1]), s), name + "." + f[0], depth + 1) for f in v["fields"]]
            r = Adt(path, 0, v["name"], fs, args)
            self.assume_inv(st, r)
            return r
        self.nsym += 1
        return Sym((name, self.nsym), ty)

    def adt_subst(self, a, args):
        return dict(zip(a["_generics"], args))

    def variants(self, ty):
        """[(name, discr, [field types])] of an enum type, or None."""
        if ty[0] != "adt":
            return None
        if ty[1] in BUILTIN_ENUMS:
            d = BUILTIN_DISCR.get(ty[1])
            return [(n, d[i] if d else i, [ty[2][j] for j in fs]) for i, (n, fs) in enumerate(BUILTIN_ENUMS[ty[1]])]
        a = self.adts.get(ty[1])
        if not a or a["kind"] != "enum":
            return None
        s = self.adt_subst(a, ty[2])
        out = []
        for i, v in enumerate(a["variants"]):
            out.append((v["name"], v["discr"] if v.get("discr") is not None else i, [self.sub(a["_crate"].ty(f[1]), s) for f in v["fields"]]))
        return out

    def expand(self, st, v):
        """Current refinement of a lazily refined symbol."""
        while isinstance(v, Sym) and v.key in st.exp:
            v = st.exp[v.key]
        return v

    def refine(self, st, sym, vi):
        vs = self.variants(sym.ty)
        n, d, fts = vs[vi]
        nm = sym.key[0] if isinstance(sym.key, tuple) else "p"
        r = Adt(sym.ty[1], vi, n, [self.mk(st, t, "%s.%s" % (nm, n), 2) for t in fts], sym.ty[2])
        st.exp[sym.key] = r
        return r

    # ------------------------------------------------------------- invariants
    def assume_inv(self, st, v):
        for inv in self.inv.get(v.path, ()):
            inv.assume(self, st, v)

    def check_inv(self, st, v, fr, why):
        for inv in self.inv.get(v.path, ()):
            if not inv.holds(self, st, v):
                self.inv_failed.add((v.path, inv.key))
                self.hook("invfail", fr, v, inv, why)

    def hook(self, name, *a):
        h = self.hooks.get(name)
        if h:
            return h(*a)

    def check_deep(self, st, v, fr, why, seen=None):
        seen = seen if seen is not None else set()
        v = self.expand(st, v)
        if isinstance(v, Ref):
            if (v.cell, v.path) in seen or v.cell not in st.cells:
                return
            seen.add((v.cell, v.path))
            self.check_deep(st, self.load(st, v.cell, v.path), fr, why, seen)
        elif isinstance(v, Adt):
            self.check_inv(st, v, fr, why)
            for x in v.fields:
                self.check_deep(st, x, fr, why, seen)
        elif isinstance(v, Tup):
            for x in v.fields:
                self.check_deep(st, x, fr, why, seen)

    # ------------------------------------------------------------- obligations
    def oblig(self, kind, fr, line, detail, ok, msg, st=None):
        if not self.recording:
            return
        site = fr.fn
        o = self.obs.setdefault((kind, site.path, detail), {"ok": 0, "fail": 0, "msgs": [], "fn": site, "line": line, "roots": set(), "okroots": set()})
        if ok:
            o["ok"] += 1
            o["okroots"].add(self.root.path if self.root else "")
        else:
            o["fail"] += 1
            o["line"] = line
            o["roots"].add(self.root.path if self.root else "")
            if len(o["msgs"]) < 3:
                chain = []
                f = fr
                while f:
                    chain.append(f.fn.path.split("::")[-1] if False else f.fn.path)
                    f = f.caller
                o["msgs"].append("%s (line %s, call path: %s)" % (msg, line, " <- ".join(chain[:6])))

    # ------------------------------------------------------------- memory
    def load(self, st, cell, path):
        v = st.cells.get(cell)
        if v is None:
            raise Stop("uninitialised cell %r" % (cell,))
        for i, p in enumerate(path):
            v = self.proj(st, v, p)
        return v

    def proj(self, st, v, p):
        v = self.expand(st, v)
        if p[0] == "f":
            i = p[1]
            if isinstance(v, (Adt, Tup)):
                if i < len(v.fields):
                    return v.fields[i]
                raise Stop("field %d of %r" % (i, v))
            if isinstance(v, Clo):
                return v.caps[i]
            if isinstance(v, It):
                r = self.models.it_field(self, st, v, i)
                if r is not None:
                    return r
            if isinstance(v, Sym) and v.ty[0] == "adt":
                vs = self.variants(v.ty)
                if vs is None:
                    a = self.adts.get(v.ty[1])
                    if a and a["kind"] == "struct":
                        r = self.mk_adt(st, v.ty, v.key[0], 0)
                        if not isinstance(r, Sym):
                            st.exp[v.key] = r
                            return self.proj(st, r, p)
                elif len(vs) == 1:
                    return self.proj(st, self.refine(st, v, 0), p)
            if isinstance(v, Sym) and v.ty[0] == "closure":
                fn = self.by_id.get(v.ty[1])
            t = self.sub(p[2], {}) if len(p) > 2 and p[2] else ("other", "?")
            key = ("fld", v.k() if isinstance(v, V) else kv(v), i)
            if isinstance(v, (Sym, Term)):
                if key not in st.exp:
                    st.exp[key] = self.mk(st, t, "fld%d" % i, 1)
                return st.exp[key]
            return self.mk(st, t, "fld%d" % i, 1)
        if p[0] == "v":
            if isinstance(v, Adt):
                return v
            if isinstance(v, Sym):
                if self.variants(v.ty) is None:
                    return Sym((v.key, "as", p[1]), ("variant", v.ty))
                return self.refine(st, v, p[1])
            return v
        if p[0] == "i":
            return self.elem(st, v, p[1])
        raise Stop("projection %r" % (p,))

    def elem(self, st, v, idx):
        v = self.expand(st, v)
        if isinstance(v, Arr):
            if idx.is_const() and 0 <= idx.c < len(v.elems):
                return v.elems[idx.c]
            return Term("elem", (v, idx))
        if isinstance(v, Term):
            if v.op == "repeat":
                return v.args[0]
            if v.op == "load":  # array read out of a region
                return self.region_elem(st, v.args[0], v.args[1] + idx, v.ty)
            return Term("elem", (v, idx))
        return Term("elem", (v, idx))

    def region_elem(self, st, region, idx, ety):
        ety = ety or ("other", "?")
        if ety[0] == "int":
            lo, hi = RANGES[ety[1]]
            return self.A.get(("elem", region, idx), lo, hi)
        key = ("elem", region, idx.key)
        v = st.exp.get(key)
        if v is None:
            v = st.exp[key] = self.mk(st, ety, "elem(%s)" % (region,), 1)
        return v

    def store(self, st, cell, path, val):
        if not path:
            st.cells[cell] = val
            return
        st.cells[cell] = self.upd(st, st.cells.get(cell), path, val)

    def upd(self, st, v, path, val):
        if not path:
            return val
        v = self.expand(st, v)
        p = path[0]
        if p[0] == "v":
            if isinstance(v, Sym):
                v = self.refine(st, v, p[1])
            return self.upd(st, v, path[1:], val)
        if p[0] == "f":
            i = p[1]
            if v is None:
                v = Tup([])
            if isinstance(v, Sym):
                try:
                    self.proj(st, v, p)
                    v = self.expand(st, v)
                except Stop:
                    pass
            if isinstance(v, (Adt, Tup)):
                fs = list(v.fields)
                while len(fs) <= i:
                    fs.append(None)
                fs[i] = self.upd(st, fs[i], path[1:], val)
                return Adt(v.path, v.vi, v.vn, fs, v.args) if isinstance(v, Adt) else Tup(fs)
            if isinstance(v, Clo):
                cs = list(v.caps)
                cs[i] = self.upd(st, cs[i], path[1:], val)
                return Clo(v.id, cs, v.subst)
            self.nsym += 1
            return Sym(("upd", self.nsym), v.ty if isinstance(v, Sym) else ("other", "?"))
        if p[0] == "i":
            if isinstance(v, Arr) and p[1].is_const() and p[1].c < len(v.elems):
                es = list(v.elems)
                es[p[1].c] = self.upd(st, es[p[1].c], path[1:], val)
                return Arr(es)
            self.nsym += 1
            return Term("upd%d" % self.nsym, (v,) if v is not None else ())
        raise Stop("store %r" % (p,))

    # ------------------------------------------------------------- places
    # resolved place: ("c", cell, path) or ("s", Sl) whole slice/array behind a ref, or ("e", Sl, idx, path)
    def place(self, st, fr, pl):
        cur = ("c", (fr.fid, pl[0]), ())
        i = 1
        while i < len(pl):
            p = pl[i]
            i += 1
            if p == "*":
                v = self.expand(st, self.read(st, cur))
                cur = self.deref(st, v)
            else:
                cur = self.pproj(st, fr, cur, p)
        return cur

    def deref(self, st, v):
        if isinstance(v, Ref):
            return ("c", v.cell, v.path)
        if isinstance(v, Sl):
            return ("s", v)
        if isinstance(v, Ptr):
            return ("p", v)
        if isinstance(v, It) and v.kind == "box":
            return ("c", v.f["cell"], ())
        if isinstance(v, Adt) and v.path == "alloc::boxed::Box":
            return ("val", v.fields[0])
        # opaque pointer: stable pointee per pointer value
        key = ("deref", kv(v))
        if key not in st.exp:
            t = ("other", "?")
            if isinstance(v, Sym) and v.ty[0] in ("ref", "ptr"):
                t = v.ty[1]
            cell = ("h", "deref", key)
            st.cells.setdefault(cell, self.mk(st, t, "deref", 1))
            st.exp[key] = Ref(cell)
        r = st.exp[key]
        return ("c", r.cell, r.path)

    def pproj(self, st, fr, cur, p):
        crate = fr.fn.crate
        if p[0] == "f":
            t = self.sub(crate.ty(p[2]), fr.subst) if len(p) > 2 else None
            q = ("f", p[1], t)
        elif p[0] == "v":
            q = ("v", p[1])
        elif p[0] == "i":
            q = ("i", self.expand(st, st.cells[(fr.fid, p[1])]))
        elif p[0] == "ci":
            off, mn, fe = p[1], p[2] if len(p) > 2 else 0, p[3] if len(p) > 3 else False
            q = ("ci", off, fe)
        elif p[0] == "ss":
            q = ("ss", p[1], p[2], p[3] if len(p) > 3 else False)
        else:
            raise Stop("place projection %r" % (p,))
        if cur[0] == "s":
            s = cur[1]
            if q[0] == "i":
                return ("e", s, q[1], ())
            if q[0] == "ci":
                return ("e", s, (s.n - q[1]) if q[2] else const(q[1]), ())
            if q[0] == "ss":
                to = (s.n - q[2]) if q[3] else const(q[2])
                return ("s", Sl(s.region, s.start + const(q[1]).scale(s.esz) if isinstance(s.esz, int) else s.start, to - q[1], s.ety, s.esz))
            raise Stop("field of slice")
        if cur[0] == "e":
            return ("e", cur[1], cur[2], cur[3] + (q,))
        if cur[0] == "p":
            return ("pe", cur[1], (q,))
        if cur[0] == "pe":
            return ("pe", cur[1], cur[2] + (q,))
        if cur[0] == "val":
            return ("val", self.proj(st, cur[1], q))
        if q[0] == "ci":
            v = self.expand(st, self.read(st, cur))
            n = len(v.elems) if isinstance(v, Arr) else None
            if q[2] and n is None:
                raise Stop("ci from end")
            q = ("i", const((n - q[1]) if q[2] else q[1]))
        return ("c", cur[1], cur[2] + (q,))

    def read(self, st, cur):
        k = cur[0]
        if k == "c":
            return self.load(st, cur[1], cur[2])
        if k == "s":
            s = cur[1]
            self.hook("read", st, s)
            return Term("load", (s.region, s.start, s.n), s.ety)
        if k == "e":
            s, idx, path = cur[1], cur[2], cur[3]
            v = self.region_elem(st, s.region, s.start + idx.scale(s.esz), s.ety)
            for q in path:
                v = self.proj(st, v, q)
            return v
        if k == "val":
            return cur[1]
        if k in ("p", "pe"):
            v = self.region_elem(st, cur[1].region, cur[1].start, cur[1].ety)
            if k == "pe":
                for q in cur[2]:
                    v = self.proj(st, v, q)
            return v
        raise Stop("read %r" % (cur,))

    def write(self, st, cur, val):
        k = cur[0]
        if k == "c":
            self.store(st, cur[1], cur[2], val)
        elif k == "s":
            s = cur[1]
            self.region_write(st, s.region, s.start, s.n.scale(s.esz), val)
        elif k == "e":
            s = cur[1]
            self.region_write(st, s.region, s.start + cur[2].scale(s.esz), const(s.esz), val)
        elif k in ("p", "pe"):
            self.region_write(st, cur[1].region, cur[1].start, const(cur[1].esz), val)

    # events / initialisation
    def region_write(self, st, region, start, n, val):
        st.ev = st.ev + (("w", region, start, n, val),)
        c = st.cov.get(region)
        if c is None:
            c = const(0)
        if isinstance(c, L):
            end = start + n
            if self.entails(st, c - start):
                if self.entails(st, end - c):
                    st.cov[region] = end
                    self.absorb(st, region)
            else:
                pend = st.facts.get(("pend", region), ())
                st.facts[("pend", region)] = pend + ((start, end),)

    def absorb(self, st, region):
        pend = st.facts.get(("pend", region), ())
        done = True
        while done:
            done = False
            for i, (a, b) in enumerate(pend):
                c = st.cov[region]
                if self.entails(st, c - a):
                    if self.entails(st, b - c):
                        st.cov[region] = b
                    pend = pend[:i] + pend[i + 1:]
                    done = True
                    break
        st.facts[("pend", region)] = pend

    # ------------------------------------------------------------- operands
    def operand(self, st, fr, o):
        if o[0] in ("c", "m"):
            return self.expand(st, self.read(st, self.place(st, fr, o[1])))
        return self.konst(st, fr, o[1])

    def konst(self, st, fr, k):
        crate = fr.fn.crate
        ty = self.sub(crate.ty(k["t"]), fr.subst)
        if "promoted" in k:
            return self.promoted(st, fr, k["promoted"], ty)
        if k.get("tc") and (k["tc"][0] != "p" or k["tc"][1] in fr.subst
                            or k.get("v") is None):
            a = self.subarg(tuple(k["tc"]), fr.subst)
            return self.cval(a)
        v = k.get("v")
        if v is not None and not (k.get("did") and self.generic_const(fr, k)):
            return self.lit(v, ty, st)
        if k.get("did"):
            return self.assoc(st, fr, k, ty)
        if ty[0] == "fndef":
            return FnV(ty[1], ty[2], ty[3])
        return self.mk(st, ty, "const")

    def generic_const(self, fr, k):
        return False

    def lit(self, v, ty, st):
        t = v[0]
        if t == "int":
            return const(v[1])
        if t == "bool":
            return TRUE if v[1] else FALSE
        if t == "str":
            r = ("str", v[1])
            n = const(len(v[1].encode()))
            self.rsize[r] = n
            return Sl(r, const(0), n, ("int", "u8"), kind="str")
        if t == "zst":
            if ty[0] == "fndef":
                return FnV(ty[1], ty[2], ty[3])
            if ty[0] == "closure":
                return Clo(ty[1], [], {})
            if ty[0] == "adt":
                a = self.adts.get(ty[1])
                if a and a["kind"] == "struct" and not a["variants"][0]["fields"]:
                    return Adt(ty[1], 0, a["variants"][0]["name"], [], ty[2])
                if ty[1] in ("core::ops::range::RangeFull",):
                    return Adt(ty[1], 0, "RangeFull", [], ())
            return Tup([])
        if t == "mem":
            self.nsym += 1
            if ty[0] == "ref" and ty[1][0] == "array":
                r = ("mem", repr(v[1:]))
                n = self.cval(ty[1][2])
                self.rsize[r] = n
                return Sl(r, const(0), n, ty[1][1], kind="array")
            return Term("mem", (repr(v[1:]),), ty)
        if t in ("float", "fbits"):
            return Term("float", (v[1],), ty)
        return self.mk(st, ty, "const")

    def promoted(self, st, fr, i, ty):
        body = fr.fn.promoted[i]
        key = ("promoted", fr.fn.id, i, repr(sorted(fr.subst.items())))
        cell = ("pc", key)
        if cell in st.cells:
            return st.cells[cell]
        import copy

        class P:
            pass

        p = P()
        p.body = body
        p.crate = fr.fn.crate
        p.path = fr.fn.path
        p.id = fr.fn.id + "::promoted%d" % i
        p.promoted = fr.fn.promoted
        p.generics = fr.fn.generics
        p.span = fr.fn.span
        rec = self.recording
        self.recording = False
        try:
            out = self.run(p, dict(fr.subst), [], st, fr, keep=True)
        finally:
            self.recording = rec
        if len(out) != 1:
            return self.mk(st, ty, "promoted")
        s2, v = out[0]
        st.cells = s2.cells
        st.exp = s2.exp
        # a promoted's value is a reference to a local of its own frame: keep those cells
        st.cells[cell] = v
        return v

    def assoc(self, st, fr, k, ty):
        """Associated / named constant."""
        args = tuple(self.subarg(fr.fn.crate._arg(a), fr.subst) for a in k.get("a", ()))
        return self.const_item(st, k["did"], k.get("def"), args, ty, k.get("rid"), fr)

    def const_item(self, st, did, path, args, ty, rid=None, fr=None):
        fn = None
        sub = {}
        if rid and rid in self.by_id and rid != did:
            pass
        f0 = self.by_id.get(did)
        trait = None
        if f0 is not None and not f0.in_trait:
            fn = f0
            sub = dict(zip([g for g in fn.generics if g], args))
        else:
            trait, name = did.rsplit("::", 1)
            # normalise projections in the arguments
            args = tuple(self.norm_proj(a) if a[0] == "proj" else a for a in args)
            r = self.find_impl(trait, args)
            if r:
                c, im, s = r
                for it in im["items"]:
                    if it["name"] == name:
                        fn = self.by_id.get(it["id"])
                        sub = s
                if fn is None and f0 is not None and f0.body:
                    fn, sub = f0, dict(s)
                    sub["Self"] = args[0]
            elif f0 is not None and f0.body:
                fn, sub = f0, {"Self": args[0] if args else None}
                tr_g = [g for g in f0.generics if g]
                sub.update(dict(zip(tr_g, args)))
        if fn is not None:
            if fn.value is not None and not self.needs_eval(fn):
                return self.lit(fn.value, ty, st)
            if fn.body:
                rec = self.recording
                self.recording = False
                try:
                    out = self.run(fn, sub, [], st.fork(), fr, keep=True)
                finally:
                    self.recording = rec
                if len(out) == 1:
                    s2, v = out[0]
                    if not isinstance(v, (Ref, Sym)):
                        for kk, vv in s2.cells.items():
                            if isinstance(kk, tuple) and kk and kk[0] == "pc":
                                st.cells.setdefault(kk, vv)
                        return v
        if ty[0] == "int":
            lo, hi = RANGES[ty[1]]
            nm = path or did
            if nm.endswith("::ALIGNMENT"):
                lo, hi = 1, 2**15
            elif ty[1] == "usize":
                hi = CONST_MAX
            return self.A.get(("assoc", nm, args), lo, hi)
        key = ("assocv", did, args)
        if key not in st.exp:
            st.exp[key] = self.mk(st, ty, (path or did).split("::")[-1])
        return st.exp[key]

    def needs_eval(self, fn):
        return False

    # ------------------------------------------------------------- rvalues
    def local_ty(self, fr, pl):
        return self.sub(fr.fn.crate.ty(fr.fn.body["locals"][pl[0]]), fr.subst)

    def wrap(self, st, l, ty):
        """Value of l reduced to an integer type (wrapping)."""
        if ty[0] != "int":
            return l
        lo, hi = RANGES[ty[1]]
        a, b = self.A.rng(l)
        if (a >= lo or self.entails(st, l - lo)) and (b <= hi or self.entails(st, -l + hi)):
            return l
        # mask by a common modulus when the value is known to be a multiple range
        return self.A.get(("wrap", ty[1], l), lo, hi)

    def as_int(self, st, v):
        v = self.expand(st, v)
        if isinstance(v, L):
            return v
        if isinstance(v, C):
            if v.op == "const":
                return const(1 if v.a else 0)
            return self.A.get(("b2i", v.k()), 0, 1)
        if isinstance(v, Adt):
            vs = self.variants(("adt", v.path, v.args))
            if vs:
                return const(vs[v.vi][1])
        if isinstance(v, Sym):
            return self.discr(st, v)
        return self.A.get(("int", kv(v)), -(2**127), 2**128)

    def discr(self, st, v):
        v = self.expand(st, v)
        if isinstance(v, Adt):
            vs = self.variants(("adt", v.path, v.args))
            return const(vs[v.vi][1] if vs else v.vi)
        if isinstance(v, Sym):
            vs = self.variants(v.ty)
            lo, hi = (min(d for _, d, _ in vs), max(d for _, d, _ in vs)) if vs else (-(2**63), 2**63)
            l = self.A.get(("discr", v.key), lo, hi)
            self.discr_of[l.single()] = v
            return l
        return self.A.get(("discr", kv(v)), -(2**63), 2**63)

    def cmp(self, st, op, a, b):
        a, b = self.expand(st, a), self.expand(st, b)
        if isinstance(a, C) and isinstance(b, C):
            if op in ("Eq", "Ne"):
                if b.op == "const":
                    r = a if b.a else cnot(a)
                    return r if op == "Eq" else cnot(r)
                if a.op == "const":
                    r = b if a.a else cnot(b)
                    return r if op == "Eq" else cnot(r)
                r = C("or", C("and", a, b), C("and", cnot(a), cnot(b)))
                return r if op == "Eq" else cnot(r)
        if isinstance(a, L) or isinstance(b, L):
            a, b = self.as_int(st, a), self.as_int(st, b)
            d = a - b
            if op == "Eq":
                return C("eq", d)
            if op == "Ne":
                return C("ne", d)
            if op == "Ge":
                return C("ge", d)
            if op == "Gt":
                return C("ge", d - 1)
            if op == "Le":
                return C("ge", -d)
            if op == "Lt":
                return C("ge", -d - 1)
        ka, kb = kv(a), kv(b)
        if op in ("Eq", "Ne"):
            if ka == kb and not isinstance(a, Term) and not (isinstance(a, Sym) and a.ty and a.ty[0] == "float"):
                return TRUE if op == "Eq" else FALSE
            if repr(kb) < repr(ka):
                ka, kb = kb, ka
            c = C("op", ("eqv", ka, kb))
            return c if op == "Eq" else cnot(c)
        return C("op", (op, ka, kb))

    def binop(self, st, fr, op, a, b, ty):
        """ty = operand type."""
        over = op.endswith("WithOverflow")
        base = op[:-12] if over else op.replace("Unchecked", "")
        if base in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.cmp(st, base, a, b)
        if ty[0] == "float":
            return Term(base, (a, b), ty)
        if base in ("BitAnd", "BitOr", "BitXor"):
            a2, b2 = self.expand(st, a), self.expand(st, b)
            if isinstance(a2, C) and isinstance(b2, C):
                if base == "BitAnd":
                    return C("and", a2, b2)
                if base == "BitOr":
                    return C("or", a2, b2)
                return C("or", C("and", a2, cnot(b2)), C("and", cnot(a2), b2))
        a, b = self.as_int(st, a), self.as_int(st, b)
        rng = RANGES.get(ty[1], (0, USIZE_MAX)) if ty[0] == "int" else (0, USIZE_MAX)
        if base == "Add":
            r = a + b
        elif base == "Sub":
            r = a - b
        elif base == "Mul":
            r = a.mul(b)
        elif base in ("Div", "Rem"):
            return self.divrem(st, a, b, base, rng)
        elif base == "BitAnd":
            return self.bitand(st, a, b, rng)
        elif base in ("BitOr", "BitXor"):
            if a.is_const() and b.is_const():
                return const(a.c | b.c if base == "BitOr" else a.c ^ b.c)
            x = self.A.get((base,) + tuple(sorted([a, b], key=lambda q: repr(q.key))), rng[0], rng[1])
            if rng[0] == 0 and base == "BitOr":
                self.add_ge(st, x - a)
                self.add_ge(st, x - b)
                self.add_ge(st, a + b - x)
            return x
        elif base in ("Shl", "Shr"):
            if b.is_const() and base == "Shl" and b.c < 64:
                r = a.scale(1 << b.c)
                return self.wrap(st, r, ty)
            if b.is_const() and base == "Shr":
                return self.divrem(st, a, const(1 << b.c), "Div", rng)
            return self.A.get((base, a, b), rng[0], rng[1])
        elif base == "Offset":
            return Term("Offset", (a, b))
        else:
            return self.A.get((base, a, b), rng[0], rng[1])
        if over:
            lo, hi = rng
            ov = C("or", C("ge", r - (hi + 1)), C("ge", -r + (lo - 1)))
            return Tup([r, ov])
        return self.wrap(st, r, ty)

    def divrem(self, st, a, b, base, rng):
        if a.is_const() and b.is_const() and b.c > 0 and a.c >= 0:
            return const(a.c // b.c if base == "Div" else a.c % b.c)
        if b.is_const() and b.c == 1:
            return a if base == "Div" else const(0)
        nonneg = self.A.rng(a)[0] >= 0 or self.entails(st, a)
        bpos = self.A.rng(b)[0] >= 1 or self.entails(st, b - 1)
        q = self.A.get(("Div", a, b), rng[0], rng[1])
        if nonneg and bpos:
            # a = q*b + r, 0 <= r < b
            self.add_ge(st, q)
            qb = q.mul(b)
            self.add_ge(st, a - qb)
            self.add_ge(st, qb + b - 1 - a)
            self.add_ge(st, a - q)
            if self.multiple(st, a, b):
                self.add_eq(st, a - qb)
                return q if base == "Div" else const(0)
            if base == "Div":
                return q
            return a - qb
        if base == "Div":
            return q
        return self.A.get(("Rem", a, b), rng[0], rng[1])

    def bitand(self, st, a, b, rng):
        if a.is_const() and b.is_const():
            return const(a.c & b.c)
        for x, y in ((a, b), (b, a)):
            if y.is_const() and y.c >= 0 and (y.c & (y.c + 1)) == 0:
                if self.A.rng(x)[0] >= 0 or self.entails(st, x):
                    return self.divrem(st, x, const(y.c + 1), "Rem", rng)
        r = self.A.get(("BitAnd",) + tuple(sorted([a, b], key=lambda q: repr(q.key))), min(rng[0], 0), rng[1])
        if rng[0] == 0:
            if self.A.rng(a)[0] >= 0:
                self.add_ge(st, a - r)
            if self.A.rng(b)[0] >= 0:
                self.add_ge(st, b - r)
        return r

    def rvalue(self, st, fr, r, dty, line):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k in ("ref", "rawptr"):
            cur = self.place(st, fr, r[-1])
            return self.addr(st, cur, dty, k == "rawptr")
        if k == "cast":
            return self.cast(st, fr, r, dty, line)
        if k == "bin":
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            ty = self.op_ty(fr, r[2])
            return self.binop(st, fr, r[1], a, b, ty)
        if k == "un":
            a = self.operand(st, fr, r[2])
            if r[1] == "Not":
                if isinstance(a, C):
                    return cnot(a)
                ty = self.op_ty(fr, r[2])
                if ty[0] == "int" and ty[1][0] == "u":
                    return const(RANGES[ty[1]][1]) - self.as_int(st, a)
                return self.A.get(("not", kv(a)), *RANGES.get(ty[1], (0, USIZE_MAX)))
            if r[1] == "Neg":
                if isinstance(a, L):
                    return self.wrap(st, -a, self.op_ty(fr, r[2]))
                if isinstance(a, Term) and a.op == "float" and isinstance(a.args[0], int) and a.ty and a.ty[0] == "float":
                    return Term("float", (a.args[0] ^ (1 << (31 if a.ty[1] == "f32" else 63)),), a.ty)
                return Term("neg", (a,))
            if r[1] == "PtrMetadata":
                if isinstance(a, Sl):
                    return a.n
                return self.A.get(("len", kv(a)), 0, ISIZE_MAX)
        if k == "discr":
            v = self.expand(st, self.read(st, self.place(st, fr, r[1])))
            return self.discr(st, v)
        if k == "repeat":
            a = self.operand(st, fr, r[1])
            return Term("repeat", (a, kv(r[2]) if len(r) > 2 else None), dty)
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in r[2]]
            a = r[1]
            if a[0] == "tuple":
                return Tup(ops)
            if a[0] == "array":
                return Arr(ops)
            if a[0] == "closure":
                return Clo(a[1], ops, dict(fr.subst))
            if a[0] == "adt":
                args = dty[2] if dty[0] == "adt" else ()
                return self.mk_agg(st, fr, a[1], a[2], a[3], ops, args, line)
            if a[0] == "rawptr":
                return ops[0]
        if k == "len":
            cur = self.place(st, fr, r[1])
            if cur[0] == "s":
                return cur[1].n
            return const(0)
        if k == "copyderef":
            return self.expand(st, self.read(st, self.place(st, fr, r[1])))
        return self.mk(st, dty, "rv")

    def mk_agg(self, st, fr, path, vi, vn, ops, args, line=None):
        v = Adt(path, vi, vn, ops, args)
        m = self.models.mk_agg(self, st, v)
        if m is not None:
            return m
        if path in self.inv:
            self.check_inv(st, v, fr, "constructed at line %s" % line)
        return v

    def op_ty(self, fr, o):
        crate = fr.fn.crate
        if o[0] == "k":
            return self.sub(crate.ty(o[1]["t"]), fr.subst)
        pl = o[1]
        t = self.sub(crate.ty(fr.fn.body["locals"][pl[0]]), fr.subst)
        for p in pl[1:]:
            if p == "*":
                t = t[1] if t[0] in ("ref", "ptr") else (t[2][0] if t[0] == "adt" else ("other", "?"))
            elif p[0] == "f":
                t = self.sub(crate.ty(p[2]), fr.subst)
            elif p[0] in ("i", "ci"):
                t = t[1] if t[0] in ("slice", "array") else ("other", "?")
        return t

    def addr(self, st, cur, dty, raw):
        if cur[0] == "c":
            t = dty[1] if dty[0] in ("ref", "ptr") else None
            if t and t[0] == "array":
                v = self.expand(st, self.load(st, cur[1], cur[2]))
                n = self.cval(t[2])
                if isinstance(v, It) and v.kind == "arrplace":
                    return v.f["sl"]
                reg = ("cell", cur[1], cur[2])
                if isinstance(v, Term) and v.op == "uninit" and reg not in self.uninit:
                    self.uninit.add(reg)
                    st.cov[reg] = const(0)
                # contents of local arrays are tracked through the cell
                self.rsize[reg] = n
                return Sl(reg, const(0), n, t[1], kind="array")
            return Ref(cur[1], cur[2])
        if cur[0] == "s":
            return cur[1]
        if cur[0] == "e":
            s, idx, path = cur[1], cur[2], cur[3]
            cell = ("h", "elem", s.region, (s.start + idx.scale(s.esz)).key)
            if cell not in st.cells:
                st.cells[cell] = self.region_elem(st, s.region, s.start + idx.scale(s.esz), s.ety)
            return Ref(cell, path)
        if cur[0] == "p":
            p = cur[1]
            t = dty[1] if dty[0] in ("ref", "ptr") else None
            if t and t[0] == "array":
                return Sl(p.region, p.start, self.cval(t[2]), t[1], kind="array")
            if raw:
                return p
            cell = ("h", "elem", p.region, p.start.key)
            if cell not in st.cells:
                st.cells[cell] = self.region_elem(st, p.region, p.start, p.ety)
            return Ref(cell)
        if cur[0] == "val":
            self.nsym += 1
            cell = ("h", "val", self.nsym)
            st.cells[cell] = cur[1]
            return Ref(cell)
        if cur[0] == "pe":
            self.nsym += 1
            cell = ("h", "pe", self.nsym)
            st.cells[cell] = self.read(st, cur)
            return Ref(cell)
        raise Stop("addr %r" % (cur,))

    def cast(self, st, fr, r, dty, line):
        kind, o = r[1], r[2]
        v = self.operand(st, fr, o)
        if kind == "IntToInt":
            l = self.as_int(st, v)
            w = self.wrap(st, l, dty)
            return w
        if kind.startswith("PointerCoercion(Unsize"):
            if isinstance(v, Sl):
                return Sl(v.region, v.start, v.n, v.ety, v.esz, "slice")
            return v
        if kind.startswith("PointerCoercion(ReifyFnPointer") or kind.startswith("PointerCoercion(ClosureFnPointer"):
            return v
        if kind in ("PtrToPtr",) or kind.startswith("PointerCoercion"):
            if isinstance(v, Sl):
                v = Ptr(v.region, v.start, v.ety, v.esz)
            if isinstance(v, Ptr) and dty[0] == "ptr":
                t = dty[1]
                if t[0] == "array":
                    n = self.cval(t[2])
                    return Ptr(v.region, v.start, t, n.c if n.is_const() else n)
                return Ptr(v.region, v.start, t, 1)
            return v
        if kind in ("Transmute", "BoxDerefTransmute"):
            return self.models.transmute(self, st, fr, v, self.op_ty(fr, o), dty, line)
        if kind in ("IntToFloat", "FloatToInt", "FloatToFloat"):
            if dty[0] == "int":
                return self.A.get(("cast", kind, kv(v)), *RANGES[dty[1]])
            return Term("cast" + kind, (v,), dty)
        return self.mk(st, dty, "cast")

    # ------------------------------------------------------------- control flow
    def loops(self, fn):
        r = self._loops.get(fn.id)
        if r is not None:
            return r
        blocks = fn.body["blocks"]
        succ = [self.succs(b[1]) if not b[2] else [] for b in blocks]
        # DFS back edges
        color = [0] * len(blocks)
        back = []
        stack = [(0, iter(succ[0]))]
        color[0] = 1
        while stack:
            n, it = stack[-1]
            for s in it:
                if color[s] == 1:
                    back.append((n, s))
                elif color[s] == 0:
                    color[s] = 1
                    stack.append((s, iter(succ[s])))
                    break
            else:
                color[n] = 2
                stack.pop()
        preds = [[] for _ in blocks]
        for i, ss in enumerate(succ):
            for s in ss:
                preds[s].append(i)
        loops = {}
        for n, h in back:
            body = loops.setdefault(h, {h})
            work = [n]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work += preds[x]
        self._loops[fn.id] = loops
        return loops

    def succs(self, t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
        if k == "drop":
            return [t[2]] if len(t) > 2 and isinstance(t[2], int) else [t[1]] if isinstance(t[1], int) else []
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[4]]
        return []

    def run(self, fn, subst, args, st, caller=None, keep=False):
        """Analyse fn from state st; returns [(state, return value)]."""
        depth = caller.depth + 1 if caller else 0
        if depth > self.max_depth:
            raise Budget("inlining depth in " + fn.path)
        self.nfid += 1
        fr = Frame(fn, subst, self.nfid, depth, caller)
        if hasattr(fn, "kind"):
            self.inlined.add(fn.id)
        st = st.fork()
        for i, a in enumerate(args):
            st.cells[(fr.fid, i + 1)] = a
        saved = st.loops
        st.loops = frozenset()
        outs = []
        self.explore(fr, 0, st, None, outs, [])
        res = []
        for s, v in outs:
            s.loops = saved
            if not keep:
                for k in [k for k in s.cells if k[0] == fr.fid]:
                    del s.cells[k]
            res.append((s, v))
        return self.merge(res)

    def merge(self, res):
        """Join outcomes that agree on everything but path constraints."""
        if len(res) <= self.merge_above:
            return res
        groups = {}
        for s, v in res:
            key = (kv(v), tuple(sorted(((k, kv(x)) for k, x in s.cells.items()), key=repr)), tuple(e[:2] + tuple(kv(x) for x in e[2:]) for e in s.ev), tuple(sorted(((k, kv(x)) for k, x in s.cov.items()), key=repr)))
            groups.setdefault(repr(key), []).append((s, v))
        out = []
        for g in groups.values():
            if len(g) == 1:
                out.append(g[0])
                continue
            base = g[0][0].fork()
            ss = [x[0] for x in g]
            base.ineq = tuple(l for l in ss[0].ineq if all(l in s.ineq or self.entails(s, l) for s in ss[1:]))
            base.eq = tuple(l for l in ss[0].eq if all(l in s.eq for s in ss[1:]))
            base.ne = tuple(l for l in ss[0].ne if all(l in s.ne for s in ss[1:]))
            base.facts = {k: v for k, v in ss[0].facts.items() if all(s.facts.get(k) == v for s in ss[1:])}
            base.exp = {k: v for k, v in ss[0].exp.items() if all(k in s.exp and kv(s.exp[k]) == kv(v) for s in ss[1:])}
            base.excl = {k: v for k, v in ss[0].excl.items() if all(s.excl.get(k) == v for s in ss[1:])}
            out.append((base, g[0][1]))
        return out

    def explore(self, fr, bb, st, within, outs, backs, header=None):
        """Worklist over (block, state). within: restrict to loop body blocks (others are dropped)."""
        work = [(bb, st)]
        loops = self.loops(fr.fn)
        first = True
        while work:
            bb, st = work.pop()
            self.steps += 1
            if self.steps > 400000 or len(outs) > self.max_paths:
                raise Budget("too many paths in " + fr.fn.path)
            if within is not None and bb not in within:
                continue
            if bb in loops and not (first and header == bb):
                if bb in st.loops:
                    if bb == header:
                        backs.append(st)
                    else:
                        self.hook("backedge", fr, bb, st)
                    continue
                st = self.enter_loop(fr, bb, loops[bb], st)
                if st is None:
                    continue
            first = False
            for nb, ns in self.block(fr, bb, st, outs):
                # leaving loops
                if ns.loops:
                    left = frozenset(h for h in ns.loops if nb in loops.get(h, ()))
                    if left != ns.loops:
                        for h in ns.loops - left:
                            self.hook("leave", fr, h, bb, nb, ns)
                        ns.loops = left
                work.append((nb, ns))

    def int_leaves(self, st, v, pre, out, depth=0):
        v = self.expand(st, v)
        if isinstance(v, L):
            out[pre] = v
        elif isinstance(v, (Adt, Tup)) and depth < 4:
            for i, x in enumerate(v.fields):
                if x is not None:
                    self.int_leaves(st, x, pre + (i,), out, depth + 1)
        elif isinstance(v, It):
            for n, x in sorted(v.f.items()):
                if isinstance(x, (L, It)):
                    self.int_leaves(st, x, pre + (n,), out, depth + 1)
        elif isinstance(v, Sl):
            out[pre + ("start",)] = v.start
            out[pre + ("n",)] = v.n
        elif isinstance(v, Ptr):
            out[pre + ("start",)] = v.start

    def havoc_val(self, st, v, ty, name):
        v = self.expand(st, v)
        if isinstance(v, It):
            return self.models.havoc_it(self, st, v)
        if isinstance(v, Sl):
            n = self.A.fresh("hn", 0, ISIZE_MAX)
            s0 = self.A.fresh("hs", 0, ISIZE_MAX)
            self.add_ge(st, self.rsize.get(v.region, const(0)) - s0 - n.scale(v.esz if isinstance(v.esz, int) else 1))
            return Sl(v.region, s0, n, v.ety, v.esz, v.kind)
        if isinstance(v, (Adt,)) and self.variants(("adt", v.path, v.args)) is None:
            a = self.adts.get(v.path)
            if a:
                s = self.adt_subst(a, v.args)
                fs = [self.havoc_val(st, x, self.sub(a["_crate"].ty(f[1]), s), f[0]) for x, f in zip(v.fields, a["variants"][0]["fields"])]
                r = Adt(v.path, v.vi, v.vn, fs, v.args)
                self.assume_inv(st, r)
                return r
        if isinstance(v, Tup) and ty[0] == "tuple":
            return Tup([self.havoc_val(st, x, t, name) for x, t in zip(v.fields, ty[1])])
        if isinstance(v, Ptr):
            return Ptr(v.region, self.A.fresh("hp", 0, ISIZE_MAX), v.ety, v.esz)
        if isinstance(v, (Ref, Clo, FnV)):
            return v
        if isinstance(v, L) and ty[0] not in ("int", "char"):
            return self.A.fresh(name, 0, USIZE_MAX)
        return self.mk(st, ty, name)

    def enter_loop(self, fr, h, body, st):
        blocks = fr.fn.body["blocks"]
        mod = set()
        used = set()
        for b in body:
            stmts, t, cl = blocks[b]
            for s in stmts:
                if s[0] == "=":
                    mod.add(s[1][0])
                    r = s[2]
                    if r[0] in ("ref", "rawptr") and r[1] is True or r[0] == "rawptr":
                        if "*" not in r[-1]:
                            mod.add(r[-1][0])
                        used.add(r[-1][0])
                    self.used_locals(r, used)
            if t[0] == "call":
                mod.add(t[3][0])
                for a in t[2]:
                    if a[0] in ("c", "m"):
                        used.add(a[1][0])
        targets = []  # (cell, path, type)
        for l in sorted(mod):
            key = (fr.fid, l)
            if key in st.cells and l not in used_only_temp(fr, l):
                targets.append((key, (), self.local_ty(fr, [l])))
        for l in sorted(used):
            key = (fr.fid, l)
            if key in st.cells:
                self.mut_targets(st, st.cells[key], self.local_ty(fr, [l]), targets)
        seen = set()
        tg = []
        for t in targets:
            k = (t[0], t[1])
            if k not in seen:
                seen.add(k)
                tg.append(t)
        covs = [r for r in st.cov]
        bad = set()
        muts = []
        for cell, path, ty in tg:
            try:
                v0 = self.expand(st, self.load(st, cell, path))
            except Stop:
                continue
            if isinstance(v0, Adt) and v0.path in self.mutable:
                muts.append(Ref(cell, path))
                self.hook("havoc_pre", st, muts[-1], fr)
        for _ in range(5):
            hs = st.fork()
            hs.loops = st.loops | {h}
            vals0, vals1 = {}, {}
            for cell, path, ty in tg:
                try:
                    v0 = self.load(hs, cell, path)
                except Stop:
                    continue
                if (cell, path) in bad:
                    v1 = self.mk(hs, ty, "h%s" % (cell[1],))
                else:
                    v1 = self.havoc_val(hs, v0, ty, "h%s" % (cell[1],))
                self.store(hs, cell, path, v1)
                self.int_leaves(st, v0, (cell, path), vals0)
                self.int_leaves(hs, v1, (cell, path), vals1)
            for ref in muts:
                self.hook("havoc_post", hs, ref, fr)
            for r in covs:
                if not isinstance(st.cov[r], L):
                    continue
                vals0[("cov", r)] = st.cov[r]
                c1 = self.A.fresh("cov", 0, ISIZE_MAX)
                self.add_ge(hs, c1 - st.cov[r])
                hs.cov[r] = c1
                vals1[("cov", r)] = c1
            # pass 1: deltas
            rec = self.recording
            self.recording = False
            backs = []
            try:
                self.explore(fr, h, hs.fork(), body, [], backs, header=h)
            finally:
                self.recording = rec
            # what a target refers to (region, cell, closure) must not change from one iteration to the next
            new = set()
            for cell, path, ty in tg:
                if (cell, path) in bad:
                    continue
                try:
                    v1 = self.load(hs, cell, path)
                except Stop:
                    continue
                for b in backs:
                    try:
                        if not self.same_shape(self.expand(hs, v1), self.expand(b, self.load(b, cell, path)), ty, hs, b):
                            new.add((cell, path))
                            break
                    except Stop:
                        new.add((cell, path))
                        break
            if not new:
                break
            bad |= new
        if not backs:
            self.hook("loop", fr, h, st, hs, backs)
        deltas = {}
        for key in vals1:
            if key not in vals0:
                continue
            ds = set()
            for b in backs:
                cur = {}
                if key[0] == "cov":
                    x = b.cov.get(key[1])
                    if isinstance(x, L) and b.facts.get(("pend", key[1])) == st.facts.get(("pend", key[1])):
                        cur[key] = x
                else:
                    try:
                        self.int_leaves(b, self.load(b, key[0], key[1]), (key[0], key[1]), cur)
                    except Stop:
                        pass
                if key not in cur:
                    ds.add(None)
                    break
                d = cur[key] - vals1[key]
                own = vals1[key].atoms()
                allh = set()
                for v in vals1.values():
                    allh |= v.atoms()
                if d.atoms() & allh:
                    d = None
                ds.add(d)
            if len(ds) == 1 and None not in ds:
                deltas[key] = ds.pop()
            elif backs and key in vals1:
                # monotone leaves
                pass
        counter = None
        for key, d in deltas.items():
            if d.is_const() and d.c == 1:
                counter = key
                break
        if counter is None:
            for key, d in deltas.items():
                if d.is_const() and d.c != 0:
                    # the iteration number, as a ghost variable
                    counter = ("iter",)
                    vals0[counter], vals1[counter] = const(0), self.A.fresh("iter", 0, ISIZE_MAX)
                    break
        for key, d in deltas.items():
            x0, x1 = vals0[key], vals1[key]
            if d.is_const() and d.c == 0:
                self.add_eq(hs, x1 - x0)
                continue
            if d.is_const():
                self.add_ge(hs, (x1 - x0) if d.c > 0 else (x0 - x1))
            if counter is not None and key != counter:
                i = vals1[counter] - vals0[counter]
                self.add_eq(hs, (x1 - x0) - i.mul(d))
        self.loop_bounds(st, hs, backs, deltas, vals0, vals1)
        if counter is not None and counter != ("iter",):
            self.add_ge(hs, vals1[counter] - vals0[counter])
            self.loop_wraps(fr, h, body, st, hs, backs, counter, deltas, vals0, vals1)
            for r in covs:
                if ("cov", r) not in deltas and ("cov", r) in vals1:
                    self.loop_cover(fr, h, body, st, hs, r, backs, counter, vals0, vals1)
        self.hook("loop", fr, h, st, hs, backs)
        return hs

    def loop_bounds(self, st, hs, backs, deltas, vals0, vals1):
        """A counter that is below a bound whenever it is increased never exceeds that bound."""
        own = set()
        for v in vals1.values():
            own |= v.atoms()
        for key, d in deltas.items():
            if not (d.is_const() and d.c == 1) or key[0] in ("cov", "iter") or not backs:
                continue
            x = vals1[key]
            for g in backs[0].ineq:
                bound = g + x + 1
                if not (g.atoms() & x.atoms()) or bound.atoms() & own or g in st.ineq:
                    continue
                if self.entails(st, bound - vals0[key]) and all(self.entails(b, bound - x - 1) for b in backs):
                    self.add_ge(hs, bound - x)

    def same_shape(self, a, b, ty, sa, sb):
        """Do both values refer to the same things (they may differ in numbers)?"""
        if isinstance(a, Ref) or isinstance(b, Ref):
            return isinstance(a, Ref) and isinstance(b, Ref) and a.k() == b.k()
        if isinstance(a, (Ptr, Sl)) or isinstance(b, (Ptr, Sl)):
            return type(a) is type(b) and a.region == b.region
        if isinstance(a, Clo):
            return isinstance(b, Clo) and a.id == b.id
        if isinstance(a, It):
            return isinstance(b, It) and a.kind == b.kind and set(a.f) == set(b.f) and all(
                not isinstance(x, V) or isinstance(x, L) or self.same_shape(self.expand(sa, x), self.expand(sb, b.f[k]), None, sa, sb) for k, x in a.f.items())
        if isinstance(a, Tup) and isinstance(b, Tup) or isinstance(a, Adt) and isinstance(b, Adt) and a.vi == b.vi and self.variants(("adt", a.path, a.args)) is None:
            return len(a.fields) == len(b.fields) and all(
                x is None or y is None or self.same_shape(self.expand(sa, x), self.expand(sb, y), None, sa, sb) for x, y in zip(a.fields, b.fields))
        return True

    def peel(self, l, least=1):
        """The expression without its wrapping operations (to be proved harmless afterwards).

        A conversion to an integer of fewer than `least` bytes is kept."""
        for mono, co in sorted(l.t.items()):
            if len(mono) == 1:
                key = self.A.info[mono[0]][0]
                if isinstance(key, tuple) and key[0] == "wrap" and isinstance(key[2], L) and (least <= 1 or int(WIDTH.get(key[1], 64)) >= 8 * least):
                    return self.peel(l - L({mono: co}) + key[2].scale(co), least)
        return l

    def leaf(self, st, key):
        cur = {}
        try:
            self.int_leaves(st, self.load(st, key[0], key[1]), (key[0], key[1]), cur)
        except Stop:
            pass
        return cur.get(key)

    def loop_wraps(self, fr, h, body, st, hs, backs, counter, deltas, vals0, vals1):
        """Deltas of values computed with wrapping arithmetic: guess them as if nothing wrapped, then prove the guess by induction."""
        own = set()
        for v in vals1.values():
            own |= v.atoms()
        cand = {}
        for key in vals1:
            if key in deltas or key not in vals0 or key[0] in ("cov", "iter"):
                continue
            ds = set()
            for b in backs:
                x = self.leaf(b, key)
                ds.add(None if x is None else self.peel(x) - vals1[key])
            if len(ds) == 1 and None not in ds:
                d = ds.pop()
                if not d.atoms() & own:
                    cand[key] = d
        i1 = vals1[counter] - vals0[counter]
        while cand:
            t = hs.fork()
            for key, d in cand.items():
                self.add_eq(t, vals1[key] - vals0[key] - i1.mul(d))
            rec, self.recording = self.recording, False
            bs = []
            try:
                self.explore(fr, h, t.fork(), body, [], bs, header=h)
            finally:
                self.recording = rec
            drop = []
            for key, d in cand.items():
                for b in bs:
                    x, c = self.leaf(b, key), self.leaf(b, counter)
                    if x is None or c is None or not self.entails_eq(b, x - vals0[key] - (c - vals0[counter]).mul(d)):
                        drop.append(key)
                        break
            if not drop:
                for key, d in cand.items():
                    self.add_eq(hs, vals1[key] - vals0[key] - i1.mul(d))
                return
            for k in drop:
                del cand[k]

    def loop_cover(self, fr, h, body, st, hs, r, backs, counter, vals0, vals1):
        """Find D such that iteration i starts with exactly cov0 + D*i bytes of region r initialised."""
        old = set(st.facts.get(("pend", r), ()))
        cands = []
        for b in backs:
            new = [x for x in b.facts.get(("pend", r), ()) if x not in old]
            if not new:
                return
            tot = const(0)
            for a, e in new:
                tot = tot + (e - a)
                if (e - a) not in cands:
                    cands.append(e - a)
            if tot not in cands:
                cands.append(tot)
        c0, c1 = vals0[("cov", r)], vals1[("cov", r)]
        i1 = vals1[counter] - vals0[counter]
        own = set()
        for v in vals1.values():
            own |= v.atoms()
        for d in cands:
            if d.atoms() & own:
                continue
            t = hs.fork()
            self.add_eq(t, c1 - c0 - i1.mul(d))
            rec, self.recording = self.recording, False
            bs = []
            try:
                self.explore(fr, h, t.fork(), body, [], bs, header=h)
            finally:
                self.recording = rec
            good = True
            for b in bs:
                cur = {}
                try:
                    self.int_leaves(b, self.load(b, counter[0], counter[1]), (counter[0], counter[1]), cur)
                except Stop:
                    pass
                x = cur.get(counter)
                c = b.cov.get(r)
                if x is None or not isinstance(c, L) or not self.entails(b, c - c0 - (x - vals0[counter]).mul(d)):
                    good = False
                    break
            if good and bs:
                self.add_eq(hs, c1 - c0 - i1.mul(d))
                return


    def used_locals(self, r, used):
        def walk(x):
            if isinstance(x, list):
                if x and x[0] in ("c", "m") and len(x) == 2 and isinstance(x[1], list) and x[1] and isinstance(x[1][0], int):
                    used.add(x[1][0])
                else:
                    for y in x:
                        walk(y)
        walk(r)
        if r[0] in ("ref", "rawptr", "discr", "len", "copyderef"):
            pl = r[-1] if r[0] in ("ref", "rawptr") else r[1]
            if isinstance(pl, list) and pl and isinstance(pl[0], int):
                used.add(pl[0])

    def mut_targets(self, st, v, ty, out, depth=0):
        v = self.expand(st, v)
        if depth > 4:
            return
        if isinstance(v, Ref) and ty[0] in ("ref", "ptr"):
            if ty[2]:
                if v.cell in st.cells:
                    out.append((v.cell, tuple(v.path), ty[1]))
            try:
                self.mut_targets(st, self.load(st, v.cell, v.path), ty[1], out, depth + 1)
            except Stop:
                pass
        elif isinstance(v, Clo):
            fn = self.by_id.get(v.id)
            for i, c in enumerate(v.caps):
                c2 = self.expand(st, c)
                if isinstance(c2, Ref) and c2.cell in st.cells:
                    t = self.cellty.get(c2.cell, ("other", "?"))
                    if not c2.path and t != ("other", "?"):
                        out.append((c2.cell, (), t))

    def block(self, fr, bb, st, outs):
        stmts, t, cleanup = fr.fn.body["blocks"][bb]
        try:
            for s in stmts:
                if s[0] == "=":
                    dty = self.place_ty(fr, s[1])
                    v = self.rvalue(st, fr, s[2], dty, s[3] if len(s) > 3 else None)
                    self.write(st, self.place(st, fr, s[1]), v)
                elif s[0] == "setd":
                    pass
            return self.terminator(fr, bb, st, t, outs)
        except Stop as e:
            self.oblig("engine", fr, None, "unsupported", False, "analysis cannot interpret this construct: %s" % e)
            return []

    def place_ty(self, fr, pl):
        return self.op_ty(fr, ["c", pl])

    def terminator(self, fr, bb, st, t, outs):
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "return":
            outs.append((st, self.expand(st, st.cells.get((fr.fid, 0), Tup([])))))
            return []
        if k == "unreachable":
            return []
        if k == "drop":
            nb = t[2] if isinstance(t[2], int) else t[1]
            return [(nb, st)]
        if k == "switch":
            return self.switch(fr, st, t)
        if k == "assert":
            c = self.operand(st, fr, t[1])
            want = t[2]
            if not isinstance(c, C):
                c = C("op", ("assert", kv(c)))
            good = c if want else cnot(c)
            kind = t[3][0]
            r = self.cond(st, good)
            det = kind + (" " + t[3][1] if kind == "overflow" else "")
            self.oblig("panic", fr, t[6][1], det, r is True, "%s check not discharged: %s" % (det, self.show(good)), st)
            return [(t[4], s) for s in self.assume(st, good)]
        if k == "call":
            return self.call(fr, bb, st, t)
        return []

    def show(self, c):
        if isinstance(c, C):
            if c.op in ("ge", "eq", "ne"):
                return "%s %s 0" % (self.A.show(c.a), {"ge": ">=", "eq": "==", "ne": "!="}[c.op])
            if c.op in ("and", "or"):
                return "(%s %s %s)" % (self.show(c.a), c.op, self.show(c.b))
            return "%s %s" % (c.op, c.a)
        if isinstance(c, L):
            return self.A.show(c)
        return repr(c)

    def switch(self, fr, st, t):
        v = self.operand(st, fr, t[1])
        out = []
        if isinstance(v, C):
            tgt = dict((x, b) for x, b in t[2])
            fb = tgt.get(0, t[3])
            tb = tgt.get(1, t[3])
            a, b = self.branch(st, v)
            return [(tb, s) for s in a] + [(fb, s) for s in b]
        l = self.as_int(st, v)
        at = l.single()
        if at is not None and at in self.discr_of:
            sym = self.discr_of[at]
            cur = self.expand(st, sym)
            if isinstance(cur, Adt):
                l = self.discr(st, cur)
            else:
                vs = self.variants(sym.ty)
                if vs:
                    d2i = {d: i for i, (_, d, _) in enumerate(vs)}
                    exc = st.excl.get(sym.key, frozenset())
                    seen = set()
                    for val, b in t[2]:
                        val = self.signed(val, vs)
                        if val in d2i and d2i[val] not in exc:
                            s = st.fork()
                            self.refine(s, sym, d2i[val])
                            out.append((b, s))
                            seen.add(d2i[val])
                    rest = [i for i in range(len(vs)) if i not in seen and i not in exc]
                    if rest and t[3] is not None:
                        s = st.fork()
                        if len(rest) == 1:
                            self.refine(s, sym, rest[0])
                        else:
                            s.excl[sym.key] = exc | frozenset(seen)
                        out.append((t[3], s))
                    return out
        cur = [st]
        tyk = t[4] if len(t) > 4 else None
        for val, b in t[2]:
            val = self.sign_by_range(val, l)
            nxt = []
            for s in cur:
                y, n = self.branch(s, C("eq", l - val))
                out += [(b, x) for x in y]
                nxt += n
            cur = nxt
        if t[3] is not None:
            out += [(t[3], s) for s in cur]
        return out

    def signed(self, val, vs):
        ds = {d for _, d, _ in vs}
        if val in ds:
            return val
        for b in (8, 16, 32, 64, 128):
            if val - (1 << b) in ds:
                return val - (1 << b)
        return val

    def sign_by_range(self, val, l):
        lo, hi = self.A.rng(l)
        if val > hi:
            for b in (8, 16, 32, 64, 128):
                if lo <= val - (1 << b) <= hi:
                    return val - (1 << b)
        return val

    # ------------------------------------------------------------- calls
    def call(self, fr, bb, st, t):
        callee, args, dest, target, span = t[1], t[2], t[3], t[4], t[6]
        vals = [self.operand(st, fr, a) for a in args]
        if callee.get("f") is None:
            # call through a fn pointer / local
            f = callee.get("op")
            fv = self.operand(st, fr, f) if f else None
            res = self.call_value(fr, st, fv, vals, span, self.place_ty(fr, dest))
        else:
            cargs = tuple(self.subarg(fr.fn.crate._arg(a), fr.subst) for a in callee.get("a", ()))
            res = self.call_path(fr, st, callee, cargs, vals, span, self.place_ty(fr, dest))
        out = []
        if target is None:
            return []
        for s, v in res:
            try:
                self.write(s, self.place(s, fr, dest), v)
            except Stop as e:
                self.oblig("engine", fr, span[1], "unsupported", False, "store of call result: %s" % e)
                continue
            out.append((target, s))
        return out

    def resolve(self, callee, cargs):
        """(Fn, subst) of the callee when its body is available."""
        cid = callee.get("id")
        tr = callee.get("tr")
        if tr is None or not self.by_id.get(cid) or True:
            pass
        if tr is None:
            fn = self.by_id.get(cid)
            if fn and fn.body:
                return fn, dict(zip([g for g in fn.generics if g], cargs))
            return None
        name = cid.rsplit("::", 1)[1]
        args = tuple(self.norm_proj(a) if a[0] == "proj" else a for a in cargs)
        ntr = self.trait_arity(tr)
        r = self.find_impl(tr, args[:ntr]) if ntr is not None else None
        if r:
            c, im, s = r
            for it in im["items"]:
                if it["name"] == name:
                    fn = self.by_id.get(it["id"])
                    if fn and fn.body:
                        s = dict(s)
                        own = [g for g in fn.generics if g]
                        # method generics follow the impl generics
                        extra = args[ntr:]
                        mg = own[len(own) - len(extra):] if extra else []
                        for g, a in zip(mg, extra):
                            s[g] = a
                        return fn, s
                    return None
            fn = self.by_id.get(cid)
            if fn and fn.body:
                s2 = {"Self": args[0]}
                s2.update(dict(zip([g for g in fn.generics if g], args)))
                return fn, s2
        return None

    def trait_arity(self, tr):
        for c, im in self.impls.get(tr, ()):
            return len(im["args"])
        return None

    def call_path(self, fr, st, callee, cargs, vals, span, dty):
        name = callee["f"]
        cargs = tuple(self.norm_proj(a) if a[0] == "proj" else a for a in cargs)
        # contracts and models take precedence over bodies
        sm = self.summaries.get(name)
        if sm is not None:
            return sm(self, fr, st, callee, cargs, vals, span, dty)
        m = self.models.lookup(self, callee, cargs)
        if m is not None:
            r = m(self, fr, st, callee, cargs, vals, span, dty)
            if r is not None:
                return r
        g = self.guards.get(name)
        if g is not None:
            g(self, fr, st, callee, cargs, vals, span, dty)
        rs = self.resolve(callee, cargs)
        if rs:
            fn, s = rs
            f = fr
            n = 0
            while f:
                if f.fn is fn:
                    n += 1
                f = f.caller
            if n < 2:
                return self.run(fn, s, vals, st, fr)
        ct = self.contracts.get(name)
        if ct is not None:
            r = ct(self, fr, st, callee, cargs, vals, span, dty)
            if r is not None:
                return r
        return self.opaque(fr, st, callee, vals, span, dty)

    def opaque(self, fr, st, callee, vals, span, dty):
        name = callee.get("f") or "?"
        self.unmodelled[name] = self.unmodelled.get(name, 0) + 1
        if callee.get("unsafe") and not callee.get("tr"):
            self.oblig("mem", fr, span[1], name, False, "call of unsafe function %s that the analysis has no contract for" % name)
        s = st.fork()
        for v in vals:
            self.havoc_arg(s, v, fr)
        return [(s, self.mk(s, dty, name.split("::")[-1]))]

    def havoc_arg(self, st, v, fr, depth=0):
        """An opaque call may change state it got a reference to: check the invariants, then forget the value."""
        v = self.expand(st, v)
        if isinstance(v, Ref) and v.cell in st.cells and depth < 3:
            try:
                x = self.expand(st, self.load(st, v.cell, v.path))
            except Stop:
                return
            if isinstance(x, Ref):
                self.havoc_arg(st, x, fr, depth + 1)
            elif isinstance(x, Adt) and x.path in self.mutable:
                self.check_deep(st, x, fr, "passed to an opaque call")
                self.hook("havoc_pre", st, v, fr)
                self.store(st, v.cell, v.path, self.mk(st, ("adt", x.path, x.args), x.path.rsplit("::", 1)[1]))
                self.hook("havoc_post", st, v, fr)

    def call_value(self, fr, st, f, vals, span, dty):
        f = self.expand(st, f)
        if isinstance(f, Ref):
            try:
                return self.call_value(fr, st, self.load(st, f.cell, f.path), vals, span, dty)
            except Stop:
                pass
        if isinstance(f, Clo):
            fn = self.by_id.get(f.id)
            if fn and fn.body:
                selfty = fn.crate.ty(fn.body["locals"][1])
                me = f
                if selfty[0] == "ref":
                    self.nsym += 1
                    cell = ("h", "clo", self.nsym)
                    st = st.fork()
                    st.cells[cell] = f
                    me = Ref(cell)
                argc = fn.body["argc"]
                a = [me] + list(vals)
                if len(a) != argc and argc == 2:
                    a = [me, Tup(vals)]
                return self.run(fn, f.subst, a, st, fr)
        if isinstance(f, FnV):
            # constructor of an enum variant / tuple struct, or a function item
            callee = {"f": f.path, "id": f.id, "a": []}
            c = self.ctor(f, vals, dty)
            if c is not None:
                return [(st, c)]
            tr = self.trait_of(f.id)
            if tr:
                callee["tr"] = tr
            return self.call_path(fr, st, callee, f.args, vals, span, dty)
        self.hook("opaque_call", self, fr, st, f, vals)
        s = st.fork()
        r = self.models.opaque_closure(self, fr, s, f, vals, span, dty)
        return [(s, r)]

    def trait_of(self, id):
        p = id.rsplit("::", 1)[0]
        if p in self.impls or any(p in c.traits for c in self.crates):
            return p
        if p in self.models.CORE_TRAITS:
            return p
        return None

    def ctor(self, f, vals, dty):
        p = f.path
        if p in ("core::option::Option::Some",):
            return Adt("core::option::Option", 1, "Some", vals, f.args)
        if p in ("core::result::Result::Ok",):
            return Adt("core::result::Result", 0, "Ok", vals, f.args)
        if p in ("core::result::Result::Err",):
            return Adt("core::result::Result", 1, "Err", vals, f.args)
        par = p.rsplit("::", 1)
        if p in self.adts and self.adts[p]["kind"] == "struct":
            return Adt(p, 0, self.adts[p]["variants"][0]["name"], vals, f.args)
        if len(par) == 2 and par[0] in self.adts and self.adts[par[0]]["kind"] == "enum":
            for i, v in enumerate(self.adts[par[0]]["variants"]):
                if v["name"] == par[1]:
                    return Adt(par[0], i, v["name"], vals, f.args)
        return None


def used_only_temp(fr, l):
    return ()
