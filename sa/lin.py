"""Linear terms over (products of) symbolic atoms and entailment of linear inequalities.

The relational domain of the abstract interpreter: conjunctions of `term >= 0` / `term == 0`.
Entailment is decided by Gaussian elimination of equalities and Fourier-Motzkin elimination with
integer tightening, plus products of degree-1 facts with non-negative atoms for the degree-2
monomials (`index * stride`) that occur in the query."""
from math import gcd

USIZE_MAX = 2**64 - 1
ISIZE_MAX = 2**63 - 1


class L:
    """const + sum coef*mono, mono = sorted tuple of atom ids."""

    __slots__ = ("t", "c", "_k")

    def __init__(self, t=None, c=0):
        self.t = t or {}
        self.c = c
        self._k = None

    @property
    def key(self):
        if self._k is None:
            self._k = (self.c, tuple(sorted(self.t.items())))
        return self._k

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, L) and self.key == o.key

    def is_const(self):
        return not self.t

    def __add__(self, o):
        if isinstance(o, int):
            return L(self.t, self.c + o)
        t = dict(self.t)
        for m, k in o.t.items():
            v = t.get(m, 0) + k
            if v:
                t[m] = v
            else:
                t.pop(m, None)
        return L(t, self.c + o.c)

    def __neg__(self):
        return L({m: -k for m, k in self.t.items()}, -self.c)

    def __sub__(self, o):
        if isinstance(o, int):
            return L(self.t, self.c - o)
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return L()
        return L({m: k * v for m, v in self.t.items()}, self.c * k)

    def mul(self, o):
        r = L()
        for m1, k1 in list(self.t.items()) + [((), self.c)]:
            if not k1:
                continue
            for m2, k2 in list(o.t.items()) + [((), o.c)]:
                if not k2:
                    continue
                m = tuple(sorted(m1 + m2))
                r = r + (L({m: k1 * k2}) if m else L({}, k1 * k2))
        return r

    def atoms(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s

    def single(self):
        """atom id if this term is exactly one atom."""
        if self.c == 0 and len(self.t) == 1:
            (m, k), = self.t.items()
            if k == 1 and len(m) == 1:
                return m[0]
        return None

    def __repr__(self):
        return "L" + repr(self.key)


def const(c):
    return L({}, c)


class Atoms:
    """Hash-consed symbolic integers with static bounds."""

    def __init__(self):
        self.tab = {}
        self.info = []  # key, lo, hi
        self.n = 0

    def get(self, key, lo=0, hi=USIZE_MAX):
        i = self.tab.get(key)
        if i is None:
            i = len(self.info)
            self.tab[key] = i
            self.info.append((key, lo, hi))
        return L({(i,): 1})

    def fresh(self, name, lo=0, hi=USIZE_MAX):
        self.n += 1
        return self.get(("fresh", name, self.n), lo, hi)

    def bounds(self, a):
        return self.info[a][1], self.info[a][2]

    def mono_bounds(self, m):
        lo, hi = 1, 1
        for a in m:
            l, h = self.bounds(a)
            c = [lo * l, lo * h, hi * l, hi * h]
            lo, hi = min(c), max(c)
        return lo, hi

    def rng(self, l):
        """Interval of a term from atom bounds alone."""
        lo = hi = l.c
        for m, k in l.t.items():
            a, b = self.mono_bounds(m)
            if k > 0:
                lo += k * a
                hi += k * b
            else:
                lo += k * b
                hi += k * a
        return lo, hi

    def show(self, l, depth=0):
        def mono(m):
            return "*".join(self.name(a) for a in m)

        parts = []
        for m, k in sorted(l.t.items()):
            parts.append(("%s" % mono(m)) if k == 1 else "%d*%s" % (k, mono(m)))
        if l.c or not parts:
            parts.append(str(l.c))
        return " + ".join(parts)

    def name(self, a):
        k = self.info[a][0]
        if k[0] == "fresh":
            return "%s#%d" % (k[1], k[2])
        return "(" + " ".join(self.show(x) if isinstance(x, L) else str(x) for x in k) + ")"


def _norm(l):
    """Divide by the gcd of coefficients, tightening the constant (l >= 0 over the integers)."""
    g = 0
    for k in l.t.values():
        g = gcd(g, k)
    if g > 1:
        return L({m: k // g for m, k in l.t.items()}, l.c // g)
    return l


def unsat(atoms, ineqs, eqs, limit=900):
    """True if {l >= 0} and {e == 0} is certainly infeasible over the integers (sound, incomplete)."""
    ineqs = list(ineqs)
    eqs = list(eqs)
    # degree-2 monomials: multiply degree-1 facts by the other factor
    monos = set()
    for l in ineqs + eqs:
        monos.update(l.t)
    prods = [m for m in monos if len(m) >= 2]
    if prods:
        extra = []
        extra_eq = []
        # only multiply base facts; pick sigma = each factor of a product
        for sigma in {a for m in prods for a in m}:
            lo, hi = atoms.bounds(sigma)
            if lo < 0:
                continue
            partner = set()
            for m in prods:
                if sigma in m:
                    mm = list(m)
                    mm.remove(sigma)
                    partner.add(tuple(mm))
            S = L({(sigma,): 1})
            for l in ineqs:
                if any(m in partner for m in l.t) and all(len(m) < 2 for m in l.t):
                    extra.append(l.mul(S))
                elif any(len(m) >= 2 for m in l.t) and len(l.t) <= 4:
                    p = l.mul(S)
                    if all(m in monos or len(m) == 1 for m in p.t):
                        extra.append(p)
            for l in eqs:
                if any(m in partner for m in l.t) and all(len(m) < 2 for m in l.t):
                    extra_eq.append(l.mul(S))
                elif any(len(m) >= 2 for m in l.t) and len(l.t) <= 4:
                    p = l.mul(S)
                    if all(m in monos or len(m) == 1 for m in p.t):
                        extra_eq.append(p)
            for p in partner:
                plo, phi = atoms.mono_bounds(p)
                P = L({p: 1})
                PS = P.mul(S)
                # (p - plo) * sigma >= 0 ; (phi - p) * sigma >= 0 ; and with sigma's bounds
                extra.append(PS - S.scale(plo))
                if phi < 2**40:
                    extra.append(S.scale(phi) - PS)
                if lo and plo >= 0:
                    extra.append(PS - P.scale(lo))
                if hi < 2**40 and plo >= 0:
                    extra.append(P.scale(hi) - PS)
        ineqs += extra
        eqs += extra_eq
    # eliminate equalities with a unit coefficient
    work = [e for e in eqs]
    subst_done = []
    while work:
        e = work.pop()
        if not e.t:
            if e.c != 0:
                return True
            continue
        piv = None
        for m, k in e.t.items():
            if abs(k) == 1:
                if piv is None or len(m) > len(piv):
                    piv = m
        if piv is None:
            g = 0
            for k in e.t.values():
                g = gcd(g, k)
            if e.c % g:
                return True
            ineqs.append(e)
            ineqs.append(-e)
            continue
        k = e.t[piv]
        # piv = -(e - k*piv)/k
        rest = L({m: v for m, v in e.t.items() if m != piv}, e.c)
        sub = rest.scale(-1 if k == 1 else 1)

        def rep(l):
            v = l.t.get(piv)
            if not v:
                return l
            return L({m: q for m, q in l.t.items() if m != piv}, l.c) + sub.scale(v)

        work = [rep(x) for x in work]
        ineqs = [rep(x) for x in ineqs]
        # bounds of the eliminated monomial
        lo, hi = atoms.mono_bounds(piv)
        ineqs.append(sub - lo)
        ineqs.append(-sub + hi)
        subst_done.append(piv)
    # relevant bounds
    cur = set()
    monos = set()
    for l in ineqs:
        if not l.t:
            if l.c < 0:
                return True
            continue
        l = _norm(l)
        cur.add(l)
        monos.update(l.t)
    for m in monos:
        lo, hi = atoms.mono_bounds(m)
        cur.add(L({m: 1}, -lo))
        cur.add(L({m: -1}, hi))
    while True:
        # keep the tightest constant per direction
        best = {}
        for l in cur:
            d = tuple(sorted(l.t.items()))
            if d not in best or l.c < best[d].c:
                best[d] = l
        cur = list(best.values())
        # opposite pairs
        for d, l in best.items():
            nd = tuple((m, -k) for m, k in d)
            o = best.get(nd)
            if o is not None and o.c + l.c < 0:
                return True
        cnt = {}
        for l in cur:
            for m, k in l.t.items():
                p = cnt.setdefault(m, [0, 0])
                p[0 if k > 0 else 1] += 1
        if not cnt:
            return False
        m = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1], x))
        pos = [l for l in cur if l.t.get(m, 0) > 0]
        neg = [l for l in cur if l.t.get(m, 0) < 0]
        if len(cur) + len(pos) * len(neg) > limit * 4:
            return False
        new = set(l for l in cur if m not in l.t)
        for p in pos:
            for n in neg:
                a, b = p.t[m], -n.t[m]
                g = gcd(a, b)
                r = p.scale(b // g) + n.scale(a // g)
                if not r.t:
                    if r.c < 0:
                        return True
                    continue
                new.add(_norm(r))
        if len(new) > limit:
            return False
        cur = new
