"""Abstract interpretation of the runtime crate (`planus`): roots, contracts, class invariants."""
from sa import models
from sa.absint import Engine, State, Sl, Ptr, Ref, Adt, Tup, L, It, Sym, Budget, Stop, const, kv, C, Clo, FnV, Term
from sa.lin import ISIZE_MAX


class Inv:
    def __init__(self, key, fn):
        self.key, self.fn = key, fn

    def assume(self, eng, st, v):
        for l in self.fn(eng, st, v):
            eng.add_ge(st, l)

    def holds(self, eng, st, v):
        return all(eng.entails(st, l) for l in self.fn(eng, st, v))

    def __repr__(self):
        return self.key


class Mod(Inv):
    """fn yields pairs (a, b): a is a multiple of b."""

    def assume(self, eng, st, v):
        for a, b in self.fn(eng, st, v):
            eng.add_div(st, a, b)

    def holds(self, eng, st, v):
        return all(eng.multiple(st, a, b) for a, b in self.fn(eng, st, v))


def leaves(eng, ty, pre=(), name="", depth=0):
    """[(path, dotted name, kind, type)] of the integer/slice/pointer leaves of a struct type."""
    a = eng.adts.get(ty[1])
    out = []
    s = eng.adt_subst(a, ty[2])
    for i, f in enumerate(a["variants"][0]["fields"]):
        ft = eng.sub(a["_crate"].ty(f[1]), s)
        p, n = pre + (i,), (name + "." if name else "") + f[0]
        if ft[0] == "int" and ft[1][0] == "u":
            out.append((p, n, "int", ft))
        elif ft[0] == "ref" and ft[1][0] in ("slice", "array", "str"):
            out.append((p, n, "slice", ft))
        elif ft[0] == "adt":
            if ft[1] == "core::num::nonzero::NonZero":
                out.append((p, n, "int", ft))
            elif ft[1] == "core::ptr::non_null::NonNull":
                out.append((p, n, "ptr", ft))
            elif depth < 2:
                b = eng.adts.get(ft[1])
                if b and b["kind"] == "struct":
                    out += leaves(eng, ft, p, n, depth + 1)
    return out


def get(eng, st, v, path):
    for i in path:
        v = eng.expand(st, v)
        if isinstance(v, (Adt, Tup)):
            v = v.fields[i]
        else:
            return None
    return eng.expand(st, v)


def candidates(eng, a):
    """Invariant templates over the fields of one struct."""
    gens = [g for g in a["_generics"]]
    cg = set()

    def scan(t):
        if isinstance(t, tuple):
            if len(t) == 2 and t[0] == "p":
                cg.add(t[1])
            for x in t:
                scan(x)

    for f in a["variants"][0]["fields"]:
        scan(a["_crate"].ty(f[1]))
    args = tuple(("p", g) if g in cg else ("param", g) for g in gens)
    ty = ("adt", a["path"], args)
    ls = leaves(eng, ty)
    ints = [x for x in ls if x[2] == "int" and not (len(x[0]) > 1 and x[1].endswith("offset_from_start"))]
    sls = [x for x in ls if x[2] == "slice"]
    ptrs = [x for x in ls if x[2] == "ptr"]
    out = []

    def add(key, fn):
        out.append(Inv(key, fn))

    def one(pa, f):
        def g(eng, st, v):
            x = get(eng, st, v, pa)
            return [f(eng, st, v, x)] if isinstance(x, L) else []
        return g

    def two(pa, pb, f):
        def g(eng, st, v):
            x, y = get(eng, st, v, pa), get(eng, st, v, pb)
            if x is None or y is None:
                return []
            if isinstance(x, Ref) or isinstance(y, Ref):
                return []
            return f(eng, st, v, x, y)
        return g

    def ln(y):
        return y.n if isinstance(y, Sl) else None

    for p2, n2, _, _ in sls:
        def mk65(p2):
            def g(e, s, v):
                x = get(e, s, v, p2)
                return [const(65531) - x.n] if isinstance(x, Sl) else []
            return g
        if len(p2) == 1:
            add("len(%s) <= 65531" % n2, mk65(p2))
    for p, n, _, _ in ints:
        for p2, n2, _, _ in ints:
            if p2 != p and len(ints) <= 8:
                def fm(e, s, v, p=p, p2=p2):
                    x, y = get(e, s, v, p), get(e, s, v, p2)
                    return [(x, y)] if isinstance(x, L) and isinstance(y, L) else []
                out.append(Mod("%s %% %s == 0" % (n, n2), fm))
        add("%s >= 1" % n, one(p, lambda e, s, v, x: x - 1))
        add("%s <= 2^31" % n, one(p, lambda e, s, v, x: const(2**31) - x))
        add("%s <= u32::MAX" % n, one(p, lambda e, s, v, x: const(2**32 - 1) - x))
        add("%s <= 0" % n, one(p, lambda e, s, v, x: -x))
        for g in gens:
            if g and g in cg:
                def f(e, s, v, x, g=g, gens=gens):
                    return e.cval(v.args[gens.index(g)]) - x
                add("%s <= %s" % (n, g), one(p, f))
        for p2, n2, _, _ in ints:
            if p2 != p and len(ints) <= 8:
                add("%s <= %s" % (n, n2), two(p, p2, lambda e, s, v, x, y: [y - x] if isinstance(x, L) and isinstance(y, L) else []))
        for p2, n2, _, _ in sls:
            if len(p) > 2 and len(p2) > 2 and p[0] == p2[0]:
                continue
            def f(e, s, v, x, y):
                return [y.n - x]
            def f4(e, s, v, x, y):
                return [y.n - x.scale(4)]
            def fsum(e, s, v, x, y):
                return [const(ISIZE_MAX) - x - y.n]
            add("%s <= len(%s)" % (n, n2), two(p, p2, f))
            add("4*%s <= len(%s)" % (n, n2), two(p, p2, f4))
            if len(p) == 1 and len(p2) == 1:
                add("%s + len(%s) <= isize::MAX" % (n, n2), two(p, p2, fsum))
            for gi, g in enumerate(gens):
                if g and g not in cg:
                    def fs(e, s, v, x, y, gi=gi):
                        st = e.const_item(s, "planus::traits::VectorRead::STRIDE", "planus::traits::VectorRead::STRIDE", (v.args[gi],), ("int", "usize"))
                        return [y.n - x.mul(st)]
                    add("%s * %s::STRIDE <= len(%s)" % (n, g, n2), two(p, p2, fs))
        for p2, n2, _, _ in ptrs:
            def fp(e, s, v, x, y):
                z = e.rsize.get(y.region)
                return [] if z is None else [z - x, x - z]
            add("size(*%s) == %s" % (n2, n), two(p, p2, fp))
    for i, (p, n, _, _) in enumerate(sls):
        for p2, n2, _, _ in sls[i + 1:]:
            add("len(%s) == len(%s)" % (n, n2), two(p, p2, lambda e, s, v, x, y: [x.n - y.n, y.n - x.n]))
    return out


AXIOMS = ("offset_from_start + len(buffer) <= isize::MAX",)


class Runtime:
    def __init__(self, crates, roots, inv_types=None, setup=None, inv_filter=None):
        self.inv_filter = inv_filter
        self.crates = crates
        self.roots = roots
        self.setup = setup
        self.inv_types = inv_types
        self.inv = None
        self.rounds = 0

    def engine(self):
        eng = Engine(self.crates, models)
        if self.setup:
            self.setup(eng)
        return eng

    def args(self, eng, st, fn, subst):
        out = []
        for i in range(fn.body["argc"]):
            ty = eng.sub(fn.crate.ty(fn.body["locals"][i + 1]), subst)
            nm = "a%d" % i
            for v in fn.body.get("vars") or []:
                if isinstance(v, list) and len(v) > 1 and v[1] == [i + 1]:
                    nm = v[0]
            out.append(eng.mk(st, ty, nm))
        return out

    def root_run(self, eng, fn):
        st = State()
        subst = {}
        eng.root = fn
        eng.steps = 0
        eng.ec.clear()
        args = self.args(eng, st, fn, subst)
        pre = eng.hook("root", fn, st, args)
        st0cells = dict(st.cells)
        outs = eng.run(fn, subst, args, st)
        fr = None
        for s, v in outs:
            seen = set()
            eng.check_deep(s, v, fr, "returned by " + fn.path, seen)
            for a in args:
                eng.check_deep(s, a, fr, "left by " + fn.path, seen)
            eng.hook("exit", fn, s, v, args)
        return outs

    def houdini(self, log=None):
        eng = self.engine()
        inv = {}
        for p, a in eng.adts.items():
            if a["kind"] == "struct" and (self.inv_types is None or self.inv_types(p)):
                c = candidates(eng, a)
                if any(f[2] for f in a["variants"][0]["fields"]):
                    # fields that any crate may set: only the documented precondition is available
                    c = [i for i in c if i.key in AXIOMS]
                if self.inv_filter:
                    c = [i for i in c if self.inv_filter(p, i.key)]
                if c:
                    inv[p] = c
        while True:
            self.rounds += 1
            eng = self.engine()
            eng.inv = inv
            eng.recording = False
            for fn in self.roots(eng):
                try:
                    self.root_run(eng, fn)
                except (Budget, Stop) as e:
                    pass
            failed = eng.inv_failed
            if log:
                log("round %d: %d candidates refuted" % (self.rounds, len(failed)))
            if not failed:
                break
            for p, k in failed:
                inv[p] = [i for i in inv[p] if i.key != k]
        self.inv = {p: l for p, l in inv.items() if l}
        return self.inv

    def analyse(self):
        eng = self.engine()
        eng.inv = self.inv or {}
        for fn in self.roots(eng):
            try:
                outs = self.root_run(eng, fn)
                eng.hook("rooted", fn, outs)
            except (Budget, Stop) as e:
                eng.obs[("engine", fn.path, "budget")] = {"ok": 0, "fail": 1, "msgs": [str(e)], "fn": fn, "line": None, "roots": {fn.path}, "okroots": set()}
        return eng
