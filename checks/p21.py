"""Nothing a schema declares is dropped without an error."""
from sa import fe
from sa.absint import Adt, Ref, Sym, It, Tup, C, Clo, Stop, Budget, kv
from sa.facts import ty_str
from checks.p20 import flag_types, isflag

TECHNIQUE = "abstract interpretation of the front end: traces of every path and of every loop iteration"
LEVEL = "proved-static"
RULE = (
    "Over every function and closure of the translation crate that takes part of a parsed schema: (a) a path that returns nothing has reported an error, called another such function that "
    "returned nothing, or started from a node the parser reported as invalid; (b) each iteration of a loop that collects items of a schema stores something, reports an error, meets a reported failure "
    "or an invalid node, and leaving such a loop early implies a report; (c) an item stored in a keyed table cannot replace another: its key is that of the table being "
    "iterated over, or the entry was found vacant; (d) no collected or stored sequence of items passes through an adaptor that leaves items out; (e) invalid nodes are only built after a report."
)
TRUSTED = ["std, indexmap and string-interner behave as documented", "the parser generated by lalrpop runs the actions of the grammar"]
OPT = "core::option::Option"
STORE = ("insert", "push", "extend", "or_insert", "or_insert_with", "append", "insert_full", "insert_entry", "push_back", "try_insert", "extend_from_slice")
LOSSY = ("filter::Filter<", "skip::Skip<", "take::Take<", "step_by::StepBy<", "skip_while::SkipWhile<", "take_while::TakeWhile<", "map_while::MapWhile<")
SKIP = ("parser::", "pretty_print", "::error::", "util::")
ITEM = ("planus_types::ast::", "planus_types::cst::")
NOT_ITEMS = ("MetadataValue", "Docstring", "Token", "token_metadata", "Comment", "IntegerType", "FloatType", "BuiltinType", "Attribute")
NEXT = ("Iterator::next", "DoubleEndedIterator::next_back", "Vec::<T, A>::pop")


def items(t):
    """Names of schema parts a type mentions."""
    out = set()

    def go(t):
        if isinstance(t, tuple):
            if len(t) > 1 and t[0] == "adt" and isinstance(t[1], str) and t[1].startswith(ITEM):
                out.add(t[1])
            for x in t:
                go(x)
    go(t)
    return out


def scoped(f):
    return f.body and f.path.startswith(("planus_translation::", "<")) and not any(x in f.path for x in SKIP)


class World:
    def __init__(self, store):
        self.tr = store.crate("planus_translation")
        self.c = c = self.tr
        flags = flag_types(c)
        self.emit = set()
        for f in c.fns:
            if f.body and any((cal.get("f") or "") == "core::cell::Cell::<T>::set" and cal.get("a") and isflag(c._arg(cal["a"][0]), flags) for _, cal, *_ in f.calls()):
                self.emit.add(f.id)
        self.contract, self.closures = {}, {}
        for f in c.fns:
            if not scoped(f) or f.id in self.emit:
                continue
            rt = c.ty(f.body["locals"][0])
            if not (rt[0] == "adt" and rt[1] == OPT):
                continue
            ps = [c.ty(f.body["locals"][i + 1]) for i in range(f.body["argc"])]
            if f.kind == "closure":
                ps = ps[1:]
            if not any(items(p) for p in ps) and not (f.kind != "closure" and any(fe.mentions(p, lambda q: q.startswith("codespan::")) for p in ps)):
                continue
            if f.kind == "closure":
                self.closures[f.id] = f
            else:
                self.contract[f.id] = f
        self.eng = fe.Front([c, store.crate("planus_types")], opaque=lambda fn: fn.id in self.contract or fn.id in self.emit)
        self.eng.max_paths = 4000
        self.found = {}
        self.options = set()
        for p, a in c.adts.items():
            if p.endswith("Options"):
                self.options |= {x[0] for v in a["variants"] for x in v["fields"] if c.ty(x[1])[0] == "bool"}

    def callee(self, e):
        return e[1].get("rid") or e[1].get("id")

    def reported(self, st, evs, seen=None):
        """Do these events imply that an error was reported?"""
        eng = self.eng
        for e in evs:
            if e[0] != "call":
                continue
            ids = {e[1].get("rid"), e[1].get("id")}
            if ids & self.emit:
                return True
            if fe.variant(eng, st, e[3]) in ("None", "Err"):
                if ids & set(self.contract):
                    return True
                # an adaptor over such a function
                n = fe.name(e)
                if not ids & set(eng.by_id) and any(self.has_contract_closure(x) for x in e[2]):
                    return True
        return False

    def has_contract_closure(self, v, depth=0):
        if depth > 4:
            return False
        if isinstance(v, Clo):
            return v.id in self.closures or any(self.has_contract_closure(x, depth + 1) for x in v.caps)
        if isinstance(v, It):
            return any(self.has_contract_closure(x, depth + 1) for x in v.f.values())
        if isinstance(v, (Adt, Tup)):
            return any(self.has_contract_closure(x, depth + 1) for x in v.fields)
        return False

    def span(self, st, e):
        """An assignment to a field that only remembers a position in the source."""
        p = e[2][-1] if e[2] else None
        return bool(p and p[0] == "f" and len(p) > 2 and p[2] and fe.mentions(p[2], lambda q: q.startswith("codespan::span::")) and not items(p[2]))

    def asked(self, st):
        """Did the caller ask for things to be ignored?"""
        for k, x in st.facts.items():
            if isinstance(k, tuple) and len(k) == 3 and k[0] == "b" and x is True and isinstance(k[1], str) and k[1].rsplit(".", 1)[-1] in self.options and "ptions" in k[1]:
                return True
        return False

    def invalid(self, st, base=None):
        for k, x in st.exp.items():
            if base is not None and k in base.exp and kv(base.exp[k]) == kv(x):
                continue
            if isinstance(x, Adt) and x.vn == "Invalid" and x.path.startswith(ITEM):
                return True
        return False


def trace(st, evs=None):
    return " -> ".join(fe.name(e).rsplit("::", 1)[1] if e[0] == "call" else str(e[0]) for e in (st.ev if evs is None else evs) if e[0] in ("call", "push"))[-240:]


def stores(w, st, evs, outer):
    """Is something put into a collection that outlives these events?"""
    for e in evs:
        if e[0] == "push":
            r = Ref(e[1][1], e[1][2]) if isinstance(e[1], tuple) and e[1][:1] == ("Ref",) else None
        elif e[0] == "call" and fe.name(e).rsplit("::", 1)[-1] in STORE and not fe.name(e).startswith("core::iter"):
            r = w.eng.expand(st, e[2][0]) if e[2] else None
        else:
            continue
        if not isinstance(r, Ref) or not isinstance(r.cell[0], int) or r.cell in outer:
            return True
    return False


def stored(w, st, args):
    """Was something handed to the caller through a reference?"""
    cells = set()
    for a in args:
        x = w.eng.expand(st, a)
        if isinstance(x, Ref):
            cells.add(x.cell)
    for e in st.ev:
        if e[0] == "assign" and e[1] in cells and not w.span(st, e):
            return True
    return bool(cells) and stores(w, st, st.ev, ())


def check(store, rep):
    w = World(store)
    rep.floor("functions that report errors", len(w.emit), 1)
    none_rule(w, rep)
    loop_rule(w, rep)
    map_rule(w, rep)
    invalid_rule(w, rep)


# ------------------------------------------------------------------ (a)
def carry(w, carried, fr, st, hs, backs):
    """Loop-carried options that only become empty together with a report."""
    eng = w.eng
    for k, v in st.cells.items():
        if k not in hs.cells or k[0] != fr.fid:
            continue
        a, x = eng.expand(st, v), eng.expand(hs, hs.cells[k])
        if isinstance(a, C) and isinstance(x, C) and x.op == "op" and (a.op == "const" and a.a is False or a.op == "op" and carried.get(a.a)):
            # a flag that is only raised together with a report
            ok = bool(backs)
            for b in backs:
                y = eng.expand(b, b.cells[k])
                if not isinstance(y, C) or y.op == "const" and y.a is True and b.facts.get(x.a) is not True and not w.reported(b, b.ev[len(hs.ev):]) or \
                        y.op == "op" and y.a != x.a and not carried.get(y.a) or y.op not in ("const", "op"):
                    ok = False
            carried[x.a] = ok
            continue
        if not (isinstance(a, Adt) and a.path == OPT and a.vn == "Some" or isinstance(a, Sym) and carried.get(a.key)) or not isinstance(x, Sym):
            continue
        ok = bool(backs)
        for b in backs:
            y = eng.expand(b, b.cells[k])
            if isinstance(y, Adt) and y.vn == "None":
                z = eng.expand(b, x)
                if not (isinstance(z, Adt) and z.vn == "None") and not w.reported(b, b.ev[len(hs.ev):]):
                    ok = False
            elif isinstance(y, Sym) and y.key != x.key and not carried.get(y.key):
                ok = False
        carried[x.key] = ok


def given_up(st, carried):
    """Is a loop-carried option empty that is only emptied after a report?"""
    return any(isinstance(x, Adt) and x.vn == "None" and carried.get(k) for k, x in st.exp.items()) or any(x is True and carried.get(k) for k, x in st.facts.items())


def none_rule(w, rep):
    eng = w.eng
    nn = nf = und = 0
    carried = {}

    def on_loop(fr, h, st, hs, backs):
        carry(w, carried, fr, st, hs, backs)

    eng.hooks["loop"] = on_loop
    for f in list(w.contract.values()) + list(w.closures.values()):
        if f.exported and f.path.count("::") == 1 or f.exported and f.kind != "closure" and not f.impl_self:
            continue
        carried.clear()
        try:
            ps = fe.paths(eng, f)
        except (Budget, Stop) as e:
            rep.fail("engine:" + f.path, "%s (%s): not analysable: %s" % (f.path, f.loc, e))
            continue
        nf += 1
        for st, v, a in ps:
            vn = fe.variant(eng, st, v)
            if vn == "Some":
                continue
            if vn is None:
                # handed on from another such function: nothing to show here
                src = [e for e in fe.calls(st) if kv(eng.expand(st, e[3])) == kv(eng.expand(st, v))]
                if not any(w.callee(e) in w.contract or w.callee(e) in w.emit for e in src):
                    und += 1
                continue
            nn += 1
            ok = w.reported(st, st.ev) or w.invalid(st) or w.asked(st) or stored(w, st, a)
            ok = ok or given_up(st, carried)
            rep.ob(ok, "dropped:" + stable(f), "%s (%s) returns nothing without having reported an error: %s" % (f.path, f.loc, trace(st)), "%s: nothing is returned only after a report" % f.path)
    eng.hooks.pop("loop")
    rep.floor("functions that translate part of a schema", nf, 15)
    rep.floor("paths on which nothing is returned", nn, 60)
    rep.cov["paths handing on another result"] = und


def stable(f):
    return f.path


# ------------------------------------------------------------------ (b), (d)
def loop_item(w, fr, h):
    """Item types of the iterators advanced in this loop."""
    f = fr.fn
    body = w.eng.loops(f).get(h, ())
    out, tys = set(), []
    for bb, cal, args, dest, span in f.calls():
        n = cal.get("f") or ""
        if bb in body and n.endswith(NEXT) and cal.get("a"):
            t = f.crate._arg(cal["a"][0])
            tys.append(t)
            out |= items(t)
    return {x for x in out if not any(n in x for n in NOT_ITEMS)}, tys


def loop_rule(w, rep):
    eng = w.eng
    seen = {}      # (fn, h) -> dict
    heads = {}
    carried = {}

    def on_loop(fr, h, st, hs, backs):
        carry(w, carried, fr, st, hs, backs)
        for b in backs:
            look(w, b, b.ev[len(hs.ev):])
        it, tys = loop_item(w, fr, h)
        if not it:
            return
        d = seen.setdefault((fr.fn.path, h), {"it": it, "fn": fr.fn, "store": False, "bad": [], "n": 0, "tys": tys, "early": []})
        heads[(fr.fid, h)] = len(hs.ev)
        for b in backs:
            evs = b.ev[len(hs.ev):]
            d["n"] += 1
            if stores(w, b, evs, st.cells):
                d["store"] = True
            elif not (w.reported(b, evs) or w.invalid(b, hs) or given_up(b, carried) or any(e[0] == "assign" and not w.span(b, e) for e in evs)):
                d["bad"].append(trace(b, evs))

    def on_leave(fr, h, bb, nb, ns):
        if (fr.fid, h) not in heads or (fr.fn.path, h) not in seen or (bb, nb) in exhausted(w, fr.fn, h):
            return
        i = heads[(fr.fid, h)]
        ns.exp[("left", fr.fn.path, h)] = (i, trace(ns, ns.ev[i:]))

    eng.hooks["loop"] = on_loop
    eng.hooks["leave"] = on_leave
    n = 0
    for f in w.c.fns:
        if not scoped(f) or f.kind == "closure" or f.id in w.emit:
            continue
        if not any_loop(w, f) and not has_insert(w, f):
            continue
        heads.clear()
        try:
            ps = fe.paths(eng, f)
        except (Budget, Stop) as e:
            rep.fail("engine:" + f.path, "%s (%s): not analysable: %s" % (f.path, f.loc, e))
            continue
        n += 1
        for st, v, a in ps:
            if not any_loop(w, f):
                look(w, st, st.ev)
            for k, x in st.exp.items():
                if isinstance(k, tuple) and k and k[0] == "left":
                    if not w.reported(st, st.ev[x[0]:]):
                        d = seen.get((k[1], k[2]))
                        if d:
                            d["early"].append(x[1])
    eng.hooks.clear()
    nl = 0
    for (p, h), d in sorted(seen.items()):
        f = d["fn"]
        if not d["store"]:
            continue
        nl += 1
        what = ", ".join(sorted(x.rsplit("::", 1)[1] for x in d["it"]))
        key = "%s:%s" % (stable(f), what)
        rep.ob(not d["bad"], "skipped:" + key, "%s (%s): an iteration over %s neither stores anything nor reports an error: %s" % (f.path, f.loc, what, d["bad"] and d["bad"][0]),
               "%s: each of %d kinds of iteration over %s stores or reports" % (f.path, d["n"], what))
        rep.ob(not d["early"], "left:" + key, "%s (%s): the loop over %s is left early without reporting an error: %s" % (f.path, f.loc, what, d["early"] and d["early"][0]))
        for t in d["tys"]:
            s = ty_str(t)
            rep.ob(not any(x in s for x in LOSSY), "left-out:" + key, "%s (%s): the loop over %s leaves items out: %s" % (f.path, f.loc, what, s[:120]))
    rep.floor("functions with loops", n, 10)
    rep.floor("loops that collect items of a schema", nl, 8)


def exhausted(w, fn, h):
    """The edges on which a loop ends because its iterator has nothing more."""
    memo = w.__dict__.setdefault("exh", {})
    if (fn.id, h) in memo:
        return memo[(fn.id, h)]
    body = w.eng.loops(fn).get(h, ())
    bl = fn.body["blocks"]
    out = set()
    for bb, cal, args, dest, span in fn.calls():
        if bb in body and (cal.get("f") or "").endswith(NEXT):
            t, gone = bl[bb][1][4], set()
            while t is not None and t not in gone:
                gone.add(t)
                term = bl[t][1]
                if term[0] == "switch":
                    out |= {(t, v) for v in [x[1] for x in term[2]] + [term[3]] if v not in body}
                t = term[1] if term[0] == "goto" else None
    memo[(fn.id, h)] = out
    return out


def any_loop(w, f, depth=0):
    if w.eng.loops(f):
        return True
    return depth < 3 and any(g.kind == "closure" and any_loop(w, g, depth + 1) for g in fe.local_callees(w.c, f))


# ------------------------------------------------------------------ (c), (d)
def adt_name(t):
    return t[1] if isinstance(t, tuple) and t and t[0] == "adt" else ""


def table(t):
    n = adt_name(t)
    return n.endswith(("Map", "Set")) and "::iter::" not in n


def derived_key(w, st, v, roots, depth=0):
    """Is this value (a clone of, or the text of) a key handed to the closure or taken from the iterator?"""
    eng = w.eng
    x = eng.expand(st, v)
    keys = {kv(x)}
    if isinstance(x, Ref):
        try:
            keys.add(kv(eng.expand(st, eng.load(st, x.cell, x.path))))
        except Stop:
            pass
    if keys & roots:
        return True
    if depth > 5:
        return False
    for e in reversed(st.ev):
        if e[0] == "copy" and kv(eng.expand(st, e[1])) in keys:
            if derived_key(w, st, e[2], roots, depth + 1) or derived_key(w, st, e[3], roots, depth + 1):
                return True
        if e[0] != "call" or fe.name(e).rsplit("::", 1)[-1] not in ("resolve_identifier", "clone", "to_owned", "deref", "to_string", "into", "from", "as_ref", "borrow", "resolve"):
            continue
        r = eng.expand(st, e[3])
        rs = {kv(r)} | {kv(eng.expand(st, x)) for x in (r.fields if isinstance(r, Adt) and r.vn in ("Some", "Ok") else ())}
        if rs & keys:
            for a, b in zip(e[2], e[6]):
                if derived_key(w, st, a, roots, depth + 1) or derived_key(w, st, b, roots, depth + 1):
                    return True
    return False


def key_roots(w, st, args, depth=0):
    """Keys of the tables iterated over: first components of pairs."""
    eng = w.eng
    out = set()
    for a in args:
        x = eng.expand(st, a)
        for _ in range(3):
            if isinstance(x, Ref):
                try:
                    x = eng.expand(st, eng.load(st, x.cell, x.path))
                except Stop:
                    break
        if isinstance(x, Sym):
            fs = [st.exp.get(("fld", x.k(), i)) for i in (0, 1)]
            if fs[0] is not None:
                x = Tup([f if f is not None else x for f in fs])
        if isinstance(x, Tup) and len(x.fields) == 2 and depth < 4:
            y = eng.expand(st, x.fields[0])
            out.add(kv(y))
            if isinstance(y, Ref):
                try:
                    out.add(kv(eng.expand(st, eng.load(st, y.cell, y.path))))
                except Stop:
                    pass
            out |= key_roots(w, st, x.fields, depth + 1)
    return out


def keyed(w, g, rooted, depth=0):
    """Is the key in what this function returns that of the table iterated over on every path?"""
    eng = w.eng
    for st, v, a in fe.paths(eng, g):
        v = eng.expand(st, v)
        roots = rooted(st, a)
        if isinstance(v, Adt) and v.path == OPT:
            if v.vn == "None":
                continue
            v = eng.expand(st, v.fields[0])
        if isinstance(v, Sym):
            # handed on from another function
            src = [e for e in fe.calls(st) if kv(eng.expand(st, e[3])) == kv(v) and w.callee(e) in w.contract]
            h = w.contract.get(w.callee(src[-1])) if src else None
            if h is None or depth > 3:
                return False
            e = src[-1]
            ps = [i for i, x in enumerate(e[2]) if derived_key(w, st, x, roots) or derived_key(w, st, e[6][i], roots)]

            def inner(st2, a2, ps=ps):
                out = set()
                for i in ps:
                    y = eng.expand(st2, a2[i])
                    out.add(kv(y))
                    if isinstance(y, Ref):
                        try:
                            out.add(kv(eng.expand(st2, eng.load(st2, y.cell, y.path))))
                        except Stop:
                            pass
                return out

            if not ps or not keyed(w, h, inner, depth + 1):
                return False
            continue
        k = v.fields[0] if isinstance(v, Tup) and v.fields else v
        if not derived_key(w, st, k, roots):
            return False
    return True


def look(w, st, evs):
    """Single insertions that can replace."""
    eng, found = w.eng, w.found
    for i, e in enumerate(evs):
        n = fe.name(e) if e[0] == "call" else ""
        if not n.endswith(("Map::<K, V, S>::insert", "Map::<K, V>::insert", "Map::<K, V, A>::insert", "Map::<K, V, S, A>::insert", "::insert_full")):
            continue
        f = e[4]
        if not scoped(f):
            continue
        a = [f.crate._arg(x) for x in e[1].get("a") or []]
        if len(a) < 2 or not (items(a[1]) or adt_name(a[1]).startswith("planus_types::intermediate::") and not adt_name(a[1]).endswith("NamespaceIndex")):
            continue
        d = found.setdefault((f.path, ty_str(a[1])), {"fn": f, "ok": True, "n": 0})
        d["n"] += 1
        vn = fe.variant(eng, st, e[3])
        ok = vn == "None" or vn == "Some" and w.reported(st, evs)
        ok = ok or any(g[0] == "call" and "VacantEntry::" in fe.name(g) for g in evs)
        roots = set()
        for g in evs[:i]:
            if g[0] == "item":
                roots |= key_roots(w, st, [g[1]])
            if g[0] != "call":
                continue
            last = fe.name(g).rsplit("::", 1)[-1]
            if last == "entry" and fe.variant(eng, st, g[3]) == "Vacant":
                ok = True
            if last in ("contains_key", "get", "contains") and len(g[2]) > 1:
                absent = fe.variant(eng, st, g[3]) == "None"
                r = eng.expand(st, g[3])
                if getattr(r, "op", None) == "op":
                    absent = st.facts.get(r.a) is False
                if absent and {kv(eng.expand(st, x)) for x in (g[2][1], g[6][1])} & {kv(eng.expand(st, x)) for x in (e[2][1], e[6][1])}:
                    ok = True
        ok = ok or derived_key(w, st, e[2][1], roots)
        d["ok"] &= ok


def map_rule(w, rep):
    eng = w.eng
    nc = ni = 0
    for f in w.c.fns:
        if not scoped(f):
            continue
        for bb, cal, args, dest, span in f.calls():
            n = cal.get("f") or ""
            if not (n.endswith("Iterator::collect") or n.endswith("FromIterator::from_iter")) or not cal.get("a"):
                continue
            ts = [f.crate._arg(x) for x in cal["a"]]
            src = ts[0] if n.endswith("collect") else ts[-1]
            if not any(x for t in ts for x in items(t) if not any(y in x for y in NOT_ITEMS)):
                continue
            s = ty_str(src)
            rep.ob(not any(x in s for x in LOSSY), "left-out:%s:%s" % (stable(f), n.rsplit("::", 1)[1]), "%s (%s:%s) leaves items of the schema out: %s" % (f.path, f.span[0], span[1], s[:150]))
            into = [t for t in ts if t is not src and (table(t) or any(table(x) for x in (t[2] if t and t[0] == "adt" else ())))]
            if not into:
                continue
            nc += 1
            clo = closures_of(src)
            ok = False
            why = "the keys come from elsewhere"
            for cid in clo[:1]:
                g = w.c.by_id.get(cid)
                if g is None or not g.body:
                    continue
                try:
                    ok = keyed(w, g, lambda st, a: key_roots(w, st, a[1:]))
                except (Budget, Stop) as e:
                    why = str(e)
                    break
                why = "the key is not that of the table iterated over"
            rep.ob(ok, "merged:%s" % stable(f), "%s (%s:%s) collects items of the schema into a table in which later ones may replace earlier ones: %s" % (f.path, f.span[0], span[1], why),
                   "%s: keys of the collected table are those of the table iterated over" % f.path)
    rep.cov["collections into tables"] = nc

    found = w.found
    for (p, t), d in sorted(found.items()):
        ni += 1
        rep.ob(d["ok"], "replaced:%s:%s" % (stable(d["fn"]), t), "%s (%s): inserting a %s may replace an earlier one without an error" % (p, d["fn"].loc, t), "%s: inserting a %s replaces nothing" % (p, t))
    rep.cov["insertions into tables"] = ni
    rep.floor("tables filled with items", nc + ni, 2)


def has_insert(w, f, depth=0):
    if any((cal.get("f") or "").endswith(("::insert", "::insert_full")) for _, cal, *_ in f.calls()):
        return True
    return depth < 3 and any(g.kind == "closure" and has_insert(w, g, depth + 1) for g in fe.local_callees(w.c, f))


def closures_of(t):
    out = []

    def go(t):
        if isinstance(t, tuple):
            if t and t[0] == "closure":
                out.append(t[1])
            for x in t:
                go(x)
    go(t)
    return out


# ------------------------------------------------------------------ (e)
def invalid_rule(w, rep):
    eng = w.eng
    n = 0
    for f in w.c.fns:
        if not f.body or f.kind == "closure":
            continue
        made = False
        for st, t, cl in f.blocks():
            for s in st:
                if not cl and s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt":
                    p = s[2][1][1]
                    a = eng.adts.get(p)
                    if p.startswith(ITEM) and a and len(a["variants"]) > s[2][1][2] and a["variants"][s[2][1][2]]["name"] == "Invalid":
                        made = True
        if not made or "clone" in f.name:
            continue
        n += 1
        try:
            ps = fe.paths(eng, f)
        except (Budget, Stop) as e:
            rep.fail("engine:" + f.path, "%s (%s): not analysable: %s" % (f.path, f.loc, e))
            continue
        for st, v, a in ps:
            x = eng.expand(st, v)
            if not (isinstance(x, Adt) and x.vn == "Invalid") and "Invalid" not in repr(x):
                continue
            rep.ob(w.reported(st, st.ev), "invalid:" + stable(f), "%s (%s) makes an invalid node without reporting an error" % (f.path, f.loc), "%s: an invalid node only after a report" % f.path)
    rep.floor("functions that make invalid nodes", n, 1)
