"""Vectors and union vectors behave like slices of the stored elements.

A vector denotes the elements 0..n lying STRIDE bytes apart from a start (a union vector: tags 1 byte, values 4 bytes apart). Each
operation is specified by what the documentation of the slice operation of the same name says, as index ranges of the vector
before the operation; products with a chunk size are kept symbolic, and the position of the last chunk is characterised (a multiple
of the chunk size at most one chunk from the end) instead of computed."""
from sa import rspec, rtspec
from sa.absint import L, Adt, Tup, Ref, It, const, kv
from sa.rspec import SWS, fields, result, unwrapped

VEC = {"planus::vectors::vector::Vector": "vector", "planus::union_vectors::union_vector::UnionVector": "union vector"}
ITERS = {m + k: k for m in ("planus::vectors::iterators::", "planus::union_vectors::iterators::") for k in ("Iter", "Chunks", "RChunks", "ChunksExact", "RChunksExact", "Windows")}
RANGE = "core::ops::range::"
STRIDE = "planus::traits::VectorRead::STRIDE"


class View:
    def __init__(self, kind, parts, n):
        self.kind, self.parts, self.n = kind, parts, n


def view(eng, st, v):
    """The elements a Vector or UnionVector value stands for."""
    v = eng.expand(st, v)
    while isinstance(v, Ref):
        v = eng.expand(st, eng.load(st, v.cell, v.path))
    if not isinstance(v, Adt) or v.path not in VEC:
        return None
    kind = VEC[v.path]
    parts, n = [], None
    for (name, x) in fields(eng, st, v).items():
        if isinstance(x, L):
            n = x
            continue
        if isinstance(x, (Adt, Ref)) and (not isinstance(x, Adt) or x.path == SWS):
            sl, ofs = rspec.window(eng, st, x)
            if kind == "vector":
                t = v.args[0] if v.args else None
                stride = eng.const_item(st, STRIDE, STRIDE, (t,), ("int", "usize"))
            else:
                stride = const(1) if "tag" in name else const(4)
            parts.append((sl, stride, ofs))
    if n is None or len(parts) != (1 if kind == "vector" else 2) or any(p[0] is None for p in parts):
        return None
    parts.sort(key=lambda p: repr(p[1].key))
    return View(kind, parts, n)


def is_sub(eng, st, w, v, a, b):
    """w is v[a..b]"""
    if w is None or v is None:
        return False
    if not eng.entails_eq(st, w.n - (b - a)):
        return False
    if eng.entails(st, -w.n):
        return True
    for (s, k, o), (s2, k2, o2) in zip(w.parts, v.parts):
        if s.region != s2.region or not eng.entails_eq(st, s.start - s2.start - k2.mul(a)):
            return False
        if not eng.entails_eq(st, unwrapped(eng, o - o2) - k2.mul(a)):
            return False
    return True


def element(eng, st, x, v, i):
    """x is the element of v with index i, read once."""
    reads = [e for e in st.ev if e[0] == "read"]
    x = eng.expand(st, x)
    for r in reads:
        w = rspec.window(eng, st, r[2][0])
        if w is None or w[0] is None:
            continue
        if v.kind == "vector":
            (s, k, o), pos = v.parts[0], eng.as_int(st, r[2][1])
        else:
            (t, k1, o1), (s, k, o) = sorted(v.parts, key=lambda p: p[1].c)
            pos = eng.as_int(st, r[2][2])
            tag = eng.as_int(st, r[2][1])
            at = rspec.rd(eng, st, t.region, t.start + i, "u8")
            if at is None or not eng.entails_eq(st, at - tag):
                continue
        if w[0].region != s.region or not eng.entails_eq(st, w[0].start + pos - s.start - k.mul(i)) or not eng.entails_eq(st, unwrapped(eng, w[1] + pos - o) - k.mul(i)):
            continue
        val = eng.expand(st, r[3])
        if kv(val) == kv(x) or same(eng, st, val, x):
            return True
    return False


def same(eng, st, a, b):
    a, b = eng.expand(st, a), eng.expand(st, b)
    if kv(a) == kv(b):
        return True
    return isinstance(a, Adt) and isinstance(b, Adt) and a.path == b.path and a.vi == b.vi and len(a.fields) == len(b.fields) and all(same(eng, st, x, y) for x, y in zip(a.fields, b.fields))


def holder(eng, st, v):
    """(name of the iterator, vector, remainder or None, size or None)"""
    v = eng.expand(st, v)
    while isinstance(v, Ref):
        v = eng.expand(st, eng.load(st, v.cell, v.path))
    if not isinstance(v, Adt) or v.path not in ITERS:
        return None
    vec = rem = size = None
    for name, x in fields(eng, st, v).items():
        if isinstance(x, L):
            size = x
            continue
        w = view(eng, st, x)
        if w is None:
            continue
        if name.startswith("rem"):
            rem = w
        else:
            vec = w
    return (ITERS[v.path], vec, rem, size) if vec is not None else None


def products(eng, c):
    """Quantities whose product with the size c may be meant: quotients by it."""
    for i, (key, *_) in enumerate(eng.A.info):
        if isinstance(key, tuple) and key and key[0] == "Div" and isinstance(key[2], L) and key[2] == c:
            yield L({(i,): 1}, 0)


def multiple(eng, st, q, c):
    """q = j * c; gives j."""
    if eng.entails_eq(st, q):
        return const(0)
    p = q if isinstance(q, L) else None
    (atom,) = next(iter(c.t)) if len(c.t) == 1 and c.c == 0 else (None,)
    if p is not None and atom is not None and p.c == 0 and all(atom in m for m in p.t):
        t = {}
        for m, k in p.t.items():
            m = list(m)
            m.remove(atom)
            t[tuple(m)] = k
        return L({m: k for m, k in t.items() if m}, t.get((), 0))
    for d in products(eng, c):
        for s in (0, 1, -1):
            if eng.entails_eq(st, q - (d + s).mul(c)):
                return d + s
    return None


class Spec:
    def __init__(self):
        self.classes = {}

    def seen(self, what, fn):
        self.classes.setdefault(what, set()).add(fn.path)

    def enter(self, eng, fn, st, args):
        """What the arguments stand for before the operation."""
        self.pre = []
        for a in args:
            try:
                self.pre.append(holder(eng, st, a) or view(eng, st, a))
            except AttributeError:
                self.pre.append(None)

    def __call__(self, eng, fr, fn, st, v, args):
        if v is None:
            return
        self.eng, self.st, self.fn = eng, st, fn
        self.o = lambda what, ok, msg: eng.oblig("slice", fr, fn.span[1], what, bool(ok), "%s: %s" % (what, msg), st)
        v = eng.expand(st, v)
        t = fn.crate.ty(fn.impl_self) if fn.impl_self is not None else None
        ps = t[1] if t is not None and t[0] == "adt" else None
        tr = rspec.short(fn.impl_trait) if fn.impl_trait else None
        if tr in ("VectorIndex", "UnionVectorIndex") and fn.name == "get":
            self.index(v, args, t)
        elif ps in VEC and tr in (None, "IntoIterator"):
            self.vector(v, args, VEC[ps])
        elif ps in ITERS and tr in (None, "Iterator", "DoubleEndedIterator", "ExactSizeIterator"):
            self.iterator(v, args, ITERS[ps])

    # ------------------------------------------------------------ little helpers
    def le(self, x):
        return x is not None and self.eng.entails(self.st, x)

    def eq(self, x):
        return x is not None and self.eng.entails_eq(self.st, x)

    def int(self, v):
        return self.eng.as_int(self.st, v)

    # ------------------------------------------------------------ indexing
    def bounds(self, idx, t, n):
        """(first, one past the last) of an index value; None for an element."""
        eng, st = self.eng, self.st
        idx = eng.expand(st, idx)
        if t[0] == "tuple":
            out = []
            for k, b in enumerate(idx.fields if isinstance(idx, (Tup, Adt)) else idx):
                b = eng.expand(st, b)
                if not isinstance(b, Adt):
                    out.append(None)  # not looked at
                elif b.vn == "Unbounded":
                    out.append(const(0) if k == 0 else n)
                else:
                    out.append(self.int(b.fields[0]) + (1 if (b.vn == "Excluded") == (k == 0) else 0))
            return tuple(out)
        k = t[1][len(RANGE):] if t[1].startswith(RANGE) else None
        if k == "RangeFull":
            return const(0), n
        f = dict(idx.f) if isinstance(idx, It) else fields(eng, st, idx) or {}
        if not f and isinstance(idx, Adt):
            f = dict(zip({"Range": ("start", "end"), "RangeFrom": ("start",), "RangeTo": ("end",), "RangeToInclusive": ("end",), "RangeInclusive": ("start", "end")}[k], idx.fields))
        a = self.int(f["start"]) if "start" in f else const(0)
        b = self.int(f["end"]) + (1 if "Inclusive" in k else 0) if "end" in f else n
        return a, b

    def index(self, v, args, t):
        eng, st = self.eng, self.st
        v0 = self.pre[1]
        k, x = result(v)
        if v0 is None or k not in ("some", "none"):
            return self.o("index", False, "the vector or the result is not understood")
        if t[0] == "int":
            i = self.int(args[0])
            self.seen("element", self.fn)
            if k == "none":
                return self.o("index", self.le(i - v0.n), "no element is returned although the index may be smaller than the length")
            return self.o("index", self.le(v0.n - 1 - i) and element(eng, st, x, v0, i), "the element returned is not the one stored at that index")
        ab = self.bounds(args[0], t, v0.n)
        if ab is None:
            return self.o("index", False, "the range is not understood")
        a, b = ab
        self.seen("range", self.fn)
        if k == "none" and (a is None or b is None):
            a, b = a if b is None else b, v0.n
            return self.o("index", a is not None and self.le(a - b - 1), "no elements are returned although the range may lie inside the vector")
        if a is None or b is None:
            return self.o("index", False, "elements are returned without looking at both ends of the range")
        if k == "none":
            return self.o("index", self.le(a - b - 1) or self.le(b - v0.n - 1), "no elements are returned although the range lies inside the vector")
        self.o("index", self.le(b - a) and self.le(v0.n - b) and is_sub(eng, st, view(eng, st, x), v0, a, b), "the elements returned are not those of the range")

    # ------------------------------------------------------------ methods of vectors
    def vector(self, v, args, kind):
        eng, st, name = self.eng, self.st, self.fn.name
        v0 = self.pre[0] if self.pre else None
        if name == "new_empty":
            w = view(eng, st, v)
            return self.o(name, w is not None and self.eq(w.n), "it is not empty")
        if v0 is None:
            return
        n = v0.n
        if name == "len":
            self.seen("len", self.fn)
            return self.o(name, self.eq(self.int(v) - n), "the length is wrong")
        if name == "is_empty":
            c = eng.cond(st, v)
            y, nn = eng.branch(st, v) if c is None else (([st], []) if c else ([], [st]))
            return self.o(name, all(eng.entails_eq(s, n) for s in y) and all(eng.entails(s, n - 1) for s in nn), "it is not `the length is 0`")
        k, x = result(v)
        if name in ("first", "last"):
            if k == "none":
                return self.o(name, self.eq(n), "nothing is returned for a vector with elements")
            return self.o(name, self.le(n - 1) and element(eng, st, x, v0, const(0) if name == "first" else n - 1), "another element is returned")
        if name in ("split_first", "split_last"):
            self.seen("split", self.fn)
            if k == "none":
                return self.o(name, self.eq(n), "nothing is returned for a vector with elements")
            x = eng.expand(st, x)
            e, r = [eng.expand(st, y) for y in x.fields]
            first = name == "split_first"
            ok = self.le(n - 1) and element(eng, st, e, v0, const(0) if first else n - 1)
            return self.o(name, ok and is_sub(eng, st, view(eng, st, r), v0, const(1 if first else 0), n if first else n - 1), "the element or the rest are others")
        if name == "split_at":
            self.seen("split", self.fn)
            m = self.int(args[1])
            if k == "none":
                return self.o(name, self.le(m - n - 1), "nothing is returned for an index inside the vector")
            x = eng.expand(st, x)
            l, r = [view(eng, st, y) for y in x.fields]
            return self.o(name, self.le(n - m) and is_sub(eng, st, l, v0, const(0), m) and is_sub(eng, st, r, v0, m, n), "the halves are not those before and from the index")
        if name in ("iter", "into_iter", "chunks", "rchunks", "chunks_exact", "rchunks_exact", "windows"):
            self.seen("start " + name, self.fn)
            h = holder(eng, st, v)
            want = "Iter" if name.endswith("iter") else {"c": "Chunks", "r": "RChunks", "w": "Windows"}[name[0]] + ("Exact" if name.endswith("exact") else "")
            if h is None or h[0] != want:
                return self.o(name, False, "another kind of iterator is returned")
            _, w, rem, size = h
            ok = size is None or self.eq(size - self.int(args[1]))
            if rem is None:
                return self.o(name, ok and is_sub(eng, st, w, v0, const(0), n), "the iterator does not start with all elements and the size asked for")
            ok = ok and multiple(eng, st, w.n, size) is not None and self.le(size - 1 - rem.n) and self.eq(w.n + rem.n - n)
            if want == "ChunksExact":
                ok = ok and is_sub(eng, st, w, v0, const(0), w.n) and is_sub(eng, st, rem, v0, w.n, n)
            else:
                ok = ok and is_sub(eng, st, w, v0, rem.n, n) and is_sub(eng, st, rem, v0, const(0), rem.n)
            self.o(name, ok, "the iterator does not start with as many whole chunks as there are, or the remainder is not the rest")

    # ------------------------------------------------------------ iterators
    def iterator(self, v, args, kind):
        eng, st, name = self.eng, self.st, self.fn.name
        pre = self.pre[0] if self.pre else None
        if pre is None or not isinstance(pre, tuple):
            return
        _, v0, rem0, c = pre
        n = v0.n
        if name == "remainder":
            self.seen("remainder", self.fn)
            return self.o(name, is_sub(eng, st, view(eng, st, v), rem0, const(0), rem0.n), "the remainder is not what was left over at the start")
        if name in ("len", "count", "size_hint"):
            self.seen("len " + kind, self.fn)
            if name == "size_hint":
                v = eng.expand(st, v)
                lo, hi = [eng.expand(st, y) for y in v.fields]
                k, hi = result(hi)
                if k != "some" or not self.eq(self.int(lo) - self.int(hi)):
                    return self.o(name, False, "the two bounds differ")
                v = lo
            return self.o(name, self.count(self.int(v), n, c, kind), "it is not the number of items that are left (%s)" % eng.show(self.int(v)))
        if name not in ("next", "next_back", "nth", "nth_back", "last"):
            return
        k, x = result(v)
        if k not in ("some", "none"):
            return self.o(name, False, "the result is not understood")
        skip = self.int(args[1]) if name.startswith("nth") else const(0)
        back = name.endswith("back") or name == "last"
        post = holder(eng, st, args[0]) if name != "last" else None
        if name != "last":
            if post is None:
                return self.o(name, False, "the state afterwards is not understood")
            if c is not None and not self.eq(post[3] - c):
                self.o(name, False, "the size of the chunks changes")
            if rem0 is not None and not is_sub(eng, st, post[2], rem0, const(0), rem0.n):
                self.o(name, False, "the remainder changes")
        self.seen(name + " " + kind, self.fn)
        if k == "none":
            self.o(name, self.none(skip, n, c, kind), "nothing is returned although there are items left")
            if post is not None:
                self.o(name, self.le(const(0) - post[1].n) if kind != "Windows" else self.le(c - 1 - post[1].n), "an iterator that returned nothing may return something later")
            return
        if kind == "Iter":
            i = n - 1 - skip if back else skip
            ok = self.le(n - 1 - skip) and element(eng, st, x, v0, i)
            lo, hi = (const(0), i) if back else (i + 1, n)
        else:
            w = view(eng, st, x)
            if w is None:
                return self.o(name, False, "the item is not understood")
            r = self.chunk(w, v0, skip, n, c, kind, back)
            if r is None:
                return self.o(name, False, "the elements returned are not those of the item asked for")
            ok, (lo, hi) = True, r
        if not ok:
            return self.o(name, False, "the element returned is not the one asked for")
        self.o(name, post is None or is_sub(eng, st, post[1], v0, lo, hi), "what is left afterwards is not the rest")

    def count(self, m, n, c, kind):
        if kind == "Iter":
            return self.eq(m - n)
        if kind == "Windows":
            return self.le(m) and (self.eq(m - (n - c + 1)) if not self.eq(m) else self.le(c - 1 - n) or self.eq(m - (n - c + 1)))
        mc = m.mul(c)
        if "Exact" in kind:
            return self.eq(mc - n) or self.le(n - mc) and self.le(mc + c - 1 - n)
        return self.le(mc - n) and self.le(n + c - 1 - mc)

    def none(self, skip, n, c, kind):
        """There are at most `skip` items."""
        if kind == "Iter":
            return self.le(skip - n)
        if kind == "Windows":
            return self.le(skip + c - 1 - n)
        return self.le(skip.mul(c) - n)

    def chunk(self, w, v0, skip, n, c, kind, back):
        """(range that remains) when w is the item behind `skip` others."""
        eng, st = self.eng, self.st
        sub = lambda a, b: is_sub(eng, st, w, v0, a, b)
        if kind == "Windows":
            if not self.le(n - skip - c):
                return None
            if back:
                return (const(0), n - skip - 1) if sub(n - skip - c, n - skip) else None
            return (skip + 1, n) if sub(skip, skip + c) else None
        if "Exact" in kind:
            # n is a multiple of c
            s = skip.mul(c)
            if not self.le(n - s - c):
                return None
            front = (kind == "ChunksExact") != back
            if front:
                return (s + c, n) if sub(s, s + c) else None
            return (const(0), n - s - c) if sub(n - s - c, n - s) else None
        s = skip.mul(c)
        if not back:
            # items 0.. from the end where counting starts
            if not self.le(n - s - 1):
                return None
            m = w.n
            ok = self.le(m - 1) and self.le(c - m) and (self.eq(m - c) or self.eq(s + m - n))
            if not ok:
                return None
            if kind == "Chunks":
                return (s + m, n) if sub(s, s + m) else None
            return (const(0), n - s - m) if sub(n - s - m, n - s) else None
        # from the other end: the item starts a multiple q of c from where counting starts, and `skip` items lie behind it
        m = w.n
        post = None
        q = self.start(w, v0, n, c, kind)
        if q is None:
            return None
        j = multiple(eng, st, q, c)
        ok = j is not None and self.le(q) and self.le(n - q - s - 1) and self.le(q + s + c - n)
        ok = ok and self.le(m - 1) and self.le(c - m) and (self.eq(m - c) or self.eq(q + m - n))
        if not ok:
            return None
        if kind == "Chunks":
            return (const(0), q) if sub(q, q + m) else None
        return (n - q, n) if sub(n - q - m, n - q) else None

    def start(self, w, v0, n, c, kind):
        """How far from where counting starts the item lies (from the memory it covers)."""
        eng, st = self.eng, self.st
        (s, k, _), (s0, k0, _) = w.parts[0], v0.parts[0]
        if s.region != s0.region:
            return None
        if kind == "RChunks":
            # the item ends q before the end: q = n - (a + m), where a is the index of its first element
            a = self.divide(s.start - s0.start, k0)
            return None if a is None else n - a - w.n
        return self.divide(s.start - s0.start, k0)

    def divide(self, x, k):
        """x / k for an exact multiple."""
        if k.is_const():
            if k.c == 1:
                return x
            if x.c % k.c or any(co % k.c for co in x.t.values()):
                return None
            return L({m: co // k.c for m, co in x.t.items()}, x.c // k.c)
        ((atom,),) = k.t.keys()
        if x.c or any(atom not in m for m in x.t):
            return None
        t, c = {}, 0
        for m, co in x.t.items():
            m = list(m)
            m.remove(atom)
            if m:
                t[tuple(m)] = co
            else:
                c += co
        return L(t, c)


def setup(eng):
    rspec.setup(eng)


def run(store, spec):
    from sa.runtime import Runtime
    c, ac = store.runtime(True)

    def want(f):
        t = f.crate.ty(f.impl_self) if f.impl_self is not None else None
        p = t[1] if t is not None and t[0] == "adt" else None
        return rtspec.is_read_root(f) and (f.impl_trait and rspec.short(f.impl_trait) in ("VectorIndex", "UnionVectorIndex") or (p in VEC or p in ITERS))

    def s(eng):
        rspec.setup(eng)
        base = eng.hooks["root"]

        def root(fn, st, args):
            base(fn, st, args)
            spec.enter(eng, fn, st, args)
        eng.hooks["root"] = root
        eng.hooks["exit"] = lambda fn, st, v, args: spec(eng, rspec.Fr(fn), fn, st, v, args)

    from sa import rtcheck
    inv = rtcheck.read_run(store, True)[0].inv
    r = Runtime([c, ac], lambda eng: [f for f in c.fns if want(f)], setup=s, inv_types=lambda p: False)
    r.inv = inv
    return r, r.analyse(), c, [f for f in c.fns if want(f)]
