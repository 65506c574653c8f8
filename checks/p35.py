"""A text in quotes keeps exactly what it denotes."""
from sa import fe, gcheck, witness
from sa.absint import Adt, Budget, C, It, L, Ref, Sl, State, Stop, Sym, Tup, kv, const

TECHNIQUE = "abstract interpretation of the loop over the pieces of a text, backward data flow of every text built from it, and of the code generated for a witness schema of texts"
LEVEL = "proved-static"
RULE = (
    "(a) In every function of the lexer that loops over the pieces of a text: each kind of iteration either adds exactly one thing to the text - the whole piece, the character whose hexadecimal number stands behind the "
    "first two characters of the piece, the character an escape stands for (on the path where the rest of the piece equals that escape), or a quote other than the closing one - or reports an error, never both and never nothing; "
    "a kind of piece is treated in one way only, plain pieces and quotes are never rejected; the text is touched in no other way; it is handed out only after the closing quote or with an error reported. "
    "(b) Every text put into a token, a syntax tree or a literal comes, by backward data flow, from the text of the thing it was made of, through nothing but moves and copies of the whole. "
    "(c) The default texts the compiler generates for a witness schema of texts (all escapes, every character below 128, both quotes, raw line breaks, more than 65535 characters) are the ones they denote."
)
TRUSTED = ["std's from_str_radix", "the scanner generated by logos hands out the pieces in order, without gaps"] + gcheck.TRUSTED
ESC = {"n": 10, "t": 9, "r": 13, "b": 8, "f": 12, '"': 34, "'": 39, "/": 47, "\\": 92, "0": 0, "v": 11, "a": 7, "e": 27}
MUST = set("ntrbf\"'/")
LEX = "planus_lexer::"


def check(store, rep):
    scanner(store, rep)
    built(store, rep)
    gcheck.run(store, rep, ("default",), {"default": 40}, [("texts", witness.texts)])


# ------------------------------------------------------------------ (a)
def is_lexer(t):
    while t[0] == "ref":
        t = t[1]
    return t[0] == "adt" and t[1] == "logos::lexer::Lexer"


def text_type(t):
    return t == ("adt", "alloc::string::String", ()) or t[0] == "adt" and t[1] in ("core::option::Option", "core::result::Result") and t[2] and text_type(t[2][0]) or t[0] == "tuple" and any(text_type(x) for x in t[1])


def region(eng, st, v):
    v = eng.peek(st, v)
    if isinstance(v, It) and v.kind == "string":
        return v.f["region"]
    return None


def strings_in(eng, st, v, depth=0):
    v = eng.expand(st, v)
    if isinstance(v, It) and v.kind == "string":
        yield v
    elif depth < 3 and isinstance(v, Adt):
        for x in v.fields:
            yield from strings_in(eng, st, x, depth + 1)
    elif depth < 3 and isinstance(v, Tup):
        for x in v.fields:
            yield from strings_in(eng, st, x, depth + 1)


def kind_of(eng, st, item):
    """Which kind of piece an iteration is about."""
    v = eng.expand(st, item)
    for _ in range(3):
        if isinstance(v, Adt) and v.vn in ("Ok", "Some") and v.fields:
            v = eng.expand(st, v.fields[0])
        elif isinstance(v, Sym) and v.key in st.exp:
            v = st.exp[v.key]
        else:
            break
    if isinstance(v, Adt) and v.vn not in ("Err", "None"):
        return v.vn
    return None


READ = ("is_empty", "len", "capacity", "as_str", "reserve", "deref", "as_bytes", "chars", "clone", "reserve_exact", "shrink_to_fit", "as_ref", "borrow", "fmt", "drop")
ADD = ("push", "push_str", "add_assign", "write_str", "write_char")


def reports(eng, st, evs):
    """Does this piece of a path report an error?"""
    for e in evs:
        if e[0] != "call":
            continue
        n = fe.name(e)
        if n.startswith("core::option::Option") and n.rsplit("::", 1)[-1] in ("get_or_insert", "insert", "replace", "get_or_insert_with", "or_else") and any(is_error(eng.peek(st, x)) or "closure" in repr(x) for x in e[6][1:]):
            return True
    return False


def is_error(v):
    return isinstance(v, Adt) and (v.path.endswith("LexicalError") or v.vn in ("Some", "Err") and any(is_error(x) for x in v.fields))


def set_error(eng, b, hs):
    """A cell that is known to hold an error, written here or looked at here."""
    for k, v in b.cells.items():
        x = eng.expand(b, v)
        if isinstance(x, Adt) and x.vn == "Some" and x.path == "core::option::Option" and (is_error(x) or x.args and optional_error(("adt", x.path, tuple(x.args)))):
            y = eng.expand(hs, hs.cells.get(k)) if k in hs.cells else None
            if not (isinstance(y, Adt) and y.vn == "Some"):
                return True
    return False


def scanner(store, rep):
    c = store.crate("planus_lexer")
    eng = fe.Front([c], opaque=lambda fn: False)
    eng.merge_above = 10 ** 6
    eng.max_paths = 20000
    nloop = npath = nout = 0
    scanners = {}
    for f in c.fns:
        if not f.body or f.kind == "closure":
            continue
        ps = [c.ty(f.body["locals"][i + 1]) for i in range(f.body["argc"])]
        if not any(is_lexer(p) for p in ps) or not text_type(c.ty(f.body["locals"][0])):
            continue
        where = "%s (%s)" % (f.path, f.loc)
        st = State()
        eng.root, eng.steps = f, 0
        args = fe.args_of(eng, st, f)
        ends = [eng.expand(st, a) for p, a in zip(ps, args) if p in (("char",), ("int", "u8"))]
        got = []

        def on_loop(fr, h, s0, hs, backs):
            if any(e[0] == "item" and kind_of(eng, b, e[1]) is not None for b in backs for e in b.ev[len(hs.ev):]):
                got.append((fr, h, s0, hs, backs))

        eng.hooks["loop"] = on_loop
        try:
            outs = [(s, eng.expand(s, v)) for s, v in eng.run(f, {}, args, st)]
        except (Budget, Stop) as e:
            rep.fail("engine:" + f.path, "%s: not analysable: %s" % (where, e))
            continue
        finally:
            eng.hooks.clear()
        if not got:
            continue
        nloop += 1
        scanners[f.id] = f
        ways, escapes, errs = {}, {}, set()
        regs = {v.f["region"] for s, o in outs for v in strings_in(eng, s, o)}
        rep.ob(bool(regs) and all(len(list(strings_in(eng, s, o))) == 1 or isinstance(o, Adt) and o.vn in ("Err", "None") for s, o in outs), "one-text:" + f.path, "%s: hands out another text than the one it gathers" % where, "%s: one text is gathered and handed out" % f.path)
        for fr, h, s0, hs, backs in got:
            touched(eng, f, rep, where, s0.ev, s0, regs, True)
        for hs, b in [(x[3], b) for x in got for b in x[4]]:
            npath += 1
            evs = b.ev[len(hs.ev):]
            items = [e for e in evs if e[0] == "item"]
            kd = kind_of(eng, b, items[0][1])
            bad = bool(kd is None)
            adds = touched(eng, f, rep, where, evs, b, regs)
            err = reports(eng, b, evs) or set_error(eng, b, hs)
            rep.ob(len(adds) + err == 1, "once:%s:%s" % (f.path, kd), "%s: a piece of a text (%s) adds %d things to it and reports %s" % (where, kd or "none that is known", len(adds), "an error" if err else "nothing"),
                   "%s: each path of a piece `%s` adds one thing or reports an error" % (f.path, kd))
            if err:
                errs.add(kd)
                ways.setdefault(kd, set())
                if not bad:
                    ways[kd].add(("error", rejected(eng, b, evs)))
                continue
            if bad or not adds:
                if adds:
                    rep.fail("unknown:" + f.path, "%s: something that is no piece of a text is added to it" % where)
                continue
            w, x = way(eng, b, evs, adds[0], ends)
            rep.ob(w is not None, "meaning:%s:%s" % (f.path, kd), "%s: what is added to the text for a piece `%s` is not what it denotes: %r" % (where, kd, x), "%s: what a piece `%s` adds is what it denotes" % (f.path, kd))
            if w is None:
                continue
            ways.setdefault(kd, set()).add((w, None))
            if w == "escape":
                escapes[x[0]] = x[1]
        for kd, ws in sorted(ways.items(), key=str):
            real = {w for w, _ in ws if w != "error"}
            rep.ob(len(real) <= 1, "one-way:%s:%s" % (f.path, kd), "%s: a piece `%s` is treated in %s ways" % (where, kd, " and ".join(sorted(real))), "%s: a piece `%s` is treated in one way" % (f.path, kd))
            if kd is None:
                continue
            w = next(iter(real), None)
            rep.ob(w is not None, "accepted:%s:%s" % (f.path, kd), "%s: no piece `%s` is ever accepted" % (where, kd), "%s: pieces `%s` are accepted" % (f.path, kd))
            if w in ("whole", "quote"):
                rep.ob(kd not in errs, "rejected:%s:%s" % (f.path, kd), "%s: a %s is rejected" % (where, "plain piece" if w == "whole" else "quote"), "%s: %s are never rejected" % (f.path, w))
            if w == "number":
                rep.ob(all(r for x, r in ws if x == "error"), "rejected:%s:%s" % (f.path, kd), "%s: the number of a character is rejected although it stands for one" % where, "%s: only numbers of no character are rejected" % f.path)
        for x, v in sorted(escapes.items()):
            rep.ob(ESC.get(x) == v, "escape:%s:%s" % (f.path, x), "%s: the escape \\%s becomes the character %d" % (where, x, v), "%s: \\%s becomes %d" % (f.path, x, v))
        rep.ob(MUST <= set(escapes), "escapes:" + f.path, "%s: escapes not accepted: %s" % (where, " ".join(sorted(MUST - set(escapes)))), "%s: all escapes are accepted" % f.path)
        for s, o in outs:
            nout += 1
            s0 = next((x[2] for x in got if s.ev[:len(x[2].ev)] == x[2].ev), got[-1][2])
            more = s.ev[len(s0.ev):]
            adds = touched(eng, f, rep, where, more, s, regs)
            rep.ob(not adds, "ending:" + f.path, "%s: something is added to the text at its end" % where, "%s: nothing is added at the end" % f.path)
            err = reports(eng, s, more) or set_error(eng, s, s0) or isinstance(o, Adt) and o.vn in ("Err", "None")
            rep.ob(err or closed(eng, s, more, ends), "closed:" + f.path, "%s: a text is handed out before its closing quote, without an error" % where, "%s: handed out after the closing quote or with an error" % f.path)
    handed(c, scanners, rep)
    rep.floor("loops over the pieces of a text", nloop, 1)
    rep.floor("kinds of iterations", npath, 13)
    rep.floor("ways out of the loop", nout, 2)


def optional_error(t):
    return t[0] == "adt" and t[1] == "core::option::Option" and bool(t[2]) and t[2][0][0] == "adt" and t[2][0][1].endswith("LexicalError")


def handed(c, scanners, rep):
    """Whoever asks for a text hands out the one it got, and hands on the error."""
    eng = fe.Front([c], opaque=lambda fn: fn.id in scanners)
    eng.max_paths = 20000
    n = 0
    for f in c.fns:
        if not f.body or f.kind == "closure" or f.id in scanners:
            continue
        r = c.ty(f.body["locals"][0])
        if "raw_lexer::Token" not in repr(r) or not any({k.get("rid"), k.get("id")} & set(scanners) for g in [f] + list(fe.local_callees(c, f)) for _, k, *_ in g.calls()):
            continue
        where = "%s (%s)" % (f.path, f.loc)
        try:
            ps = list(fe.paths(eng, f))
        except (Budget, Stop) as e:
            if not f.impl_trait:
                rep.fail("engine:" + f.path, "%s: not analysable: %s" % (where, e))
            continue
        for s, v, a in ps:
            asked = [e for e in fe.calls(s) if {e[1].get("rid"), e[1].get("id")} & set(scanners)]
            if not asked:
                continue
            got = list(strings_in(eng, s, v))
            token = "StringLiteral" in repr(v)
            if not token:
                continue
            n += 1
            e = asked[-1]
            g = next(scanners[i] for i in (e[1].get("rid"), e[1].get("id")) if i in scanners)
            res = {x.f["region"] for x in strings_in(eng, s, e[3])}
            rep.ob(len(asked) == 1 and any(x.f["region"] in res for x in got), "handed:" + f.path, "%s: the text of a token is not the one read" % where, "%s: the text of a token is the one read" % f.path)
            if any(p[0] == "ref" and optional_error(p[1]) for p in (g.crate.ty(g.body["locals"][i + 1]) for i in range(g.body["argc"]))):
                seen = [x for x in s.exp.values() if isinstance(x, Adt) and x.path == "core::option::Option" and x.args and x.args[0][0] == "adt" and x.args[0][1].endswith("LexicalError")]
                rep.ob(bool(seen) and all(x.vn == "None" for x in seen), "error-kept:" + f.path, "%s: a text is handed out although reading it reported an error" % where, "%s: a text is handed out only when no error was reported" % f.path)
    rep.floor("paths that hand out a text", n, 1)


def touched(eng, f, rep, where, evs, st, regs, before=False):
    """What is added to the text; anything else done to it is an error."""
    adds = []
    for e in evs:
        if e[0] == "push" and region(eng, st, e[1]) in regs:
            adds.append(e[2])
        if e[0] != "call" or not e[2]:
            continue
        v = e[6][0]
        if not (isinstance(v, It) and v.kind == "string" and v.f["region"] in regs):
            continue
        op = fe.name(e).rsplit("::", 1)[-1]
        if op in ADD and len(e[6]) > 1:
            x = eng.expand(st, eng.peek(st, e[6][1]))
            if isinstance(x, Sl) and isinstance(x.region, tuple) and x.region[0] == "str" and len(x.region[1]) == 1 and kv(x.n) == kv(const(len(x.region[1].encode()))):
                x = const(ord(x.region[1]))
            adds.append(x)
        elif isinstance(eng.expand(st, e[2][0]), Ref) and op not in READ:
            rep.fail("changed:%s:%s" % (f.path, op), "%s: the text is changed by `%s`" % (where, op))
    if before and adds:
        rep.fail("before:" + f.path, "%s: the text does not start out empty" % where)
    return adds


def way(eng, b, evs, x, ends):
    """In which way a piece adds x."""
    calls = [e for e in evs if e[0] == "call"]
    pieces = [eng.expand(b, e[3]) for e in calls if fe.name(e).startswith("logos::lexer::Lexer") and fe.name(e).endswith("::slice")]
    if isinstance(x, Sl):
        return ("whole", x) if any(kv(x) == kv(p) for p in pieces) else (None, x)
    if not isinstance(x, L):
        return None, x
    if x.is_const():
        for k, v in b.facts.items():
            if v is True and isinstance(k, tuple) and k[0] == "eqv":
                ab = k[1:]
                lit = next((q for q in ab if isinstance(q, tuple) and q[:1] == ("Sl",) and isinstance(q[1], tuple) and q[1][0] == "str"), None)
                rest = next((q for q in ab if q is not lit), None)
                if lit and rest and any(rest[:4] == kv(Sl(p.region, p.start + const(1), p.n - const(1), p.ety, p.esz, p.kind))[:4] for p in pieces) and len(lit[1][1]) == 1:
                    return "escape", (lit[1][1], x.c)
        for p in pieces:
            for y in [atom(eng, k) for k in (eng.A.tab.get(("elem", p.region, p.start + const(1))),) if k is not None] + items_of(eng, b, evs, p)[1:2]:
                for n in list(ESC):
                    if isinstance(y, L) and not eng.branch(b, C("ne", y - const(ord(n))))[0]:
                        return "escape", (n, x.c)
        return None, x
    for e in calls:
        n = fe.name(e)
        if n.endswith("::from_str_radix"):
            a = eng.expand(b, e[6][0])
            r = b.exp.get(e[3].key) if isinstance(e[3], Sym) else e[3]
            if isinstance(r, Adt) and r.vn == "Ok" and isinstance(a, Sl):
                y = eng.expand(b, r.fields[0])
                good = any(a.region == p.region and kv(a.start) == kv(p.start + const(2)) and kv(a.n) == kv(p.n - const(2)) for p in pieces)
                sixteen = kv(eng.expand(b, e[6][1])) == kv(const(16))
                if good and sixteen and (kv(x) == kv(y) or isinstance(y, L) and eng.entails_eq(b, x - y)):
                    return "number", x
    # the first character of the piece, which is not the one that ends the text
    if any(e[0] == "item" and kv(e[1]) == kv(x) for e in evs) or any(kv(eng.expand(b, v)) == kv(x) for v in ends):
        for v in ends:
            v = eng.expand(b, v)
            if isinstance(v, L) and not eng.branch(b, C("eq", x - v))[0] and first(eng, b, evs, pieces, x):
                return "quote", x
    return None, x


def atom(eng, k):
    return L({(k,): 1}, 0)


def items_of(eng, b, evs, p):
    """What an iterator over the piece handed out."""
    on, out = False, []
    for e in evs:
        if e[0] == "call" and fe.name(e).rsplit("::", 1)[-1] in ("chars", "bytes") and any(kv(eng.expand(b, x)) == kv(p) for x in e[6][:1]):
            on = True
        elif e[0] == "item" and on:
            out.append(eng.expand(b, e[1]))
    return out


def first(eng, b, evs, pieces, x):
    """Is x the first character of the piece?"""
    for p in pieces:
        k = eng.A.tab.get(("elem", p.region, p.start))
        if any(kv(y) == kv(x) for y in items_of(eng, b, evs, p)[:1]) or k is not None and kv(atom(eng, k)) == kv(x):
            return True
    return False


def rejected(eng, b, evs):
    """Is there no character with the number read?"""
    for e in evs:
        if e[0] == "call" and fe.name(e).endswith("::from_str_radix"):
            r = b.exp.get(e[3].key) if isinstance(e[3], Sym) else e[3]
            if isinstance(r, Adt) and r.vn == "Err":
                return True
            y = eng.as_int(b, r.fields[0]) if isinstance(r, Adt) else None
            return y is not None and not any(eng.branch(b, C("and", C("ge", y - const(lo)), C("ge", const(hi) - y)))[0] for lo, hi in ((0, 0xD7FF), (0xE000, 0x10FFFF)))
    return False


def closed(eng, s, evs, ends):
    for e in evs:
        if e[0] == "item" and isinstance(eng.expand(s, e[1]), L):
            x = eng.expand(s, e[1])
            for v in ends:
                v = eng.expand(s, v)
                if isinstance(v, L) and not eng.branch(s, C("ne", x - v))[0]:
                    return True
    return False


# ------------------------------------------------------------------ (b)
HOLD = {"planus_types::ast::StringLiteral", "planus_types::cst::StringLiteral"}
VARIANTS = {("planus_types::ast::LiteralKind", "String"), ("planus_types::intermediate::Literal", "String"), ("planus_types::ast::AttributeKind", "String"),
            ("planus_lexer::raw_lexer::Token", "StringLiteral")}
KEEP = ("clone", "to_owned", "to_string", "into", "from", "as_str", "deref", "as_ref", "borrow", "take", "into_string", "into_owned", "branch", "from_residual", "ok_or_else", "ok_or", "unwrap", "expect", "replace", "into_boxed_str",
        "as_deref", "cloned", "unwrap_or_default")


def built(store, rep):
    n = 0
    for cn in ("planus_lexer", "planus_translation"):
        c = store.crate(cn)
        for f in c.fns:
            if not f.body or f.name in ("clone", "fmt", "eq", "hash", "cmp", "partial_cmp"):
                continue
            for st, t, cl in f.blocks():
                for s in st:
                    if s[0] != "=" or s[2][0] != "agg" or s[2][1][0] != "adt":
                        continue
                    p, vi = s[2][1][1], s[2][1][2]
                    ad = adt_of(store, p)
                    if ad is None:
                        continue
                    vn = ad["variants"][vi or 0]["name"] if len(ad["variants"]) > 1 else None
                    if not (p in HOLD or (p, vn) in VARIANTS):
                        continue
                    for i, op in enumerate(s[2][2]):
                        fld = ad["variants"][vi or 0]["fields"][i]
                        if not holds_string(ad["_crate"].ty(fld[1])):
                            continue
                        n += 1
                        what = p.rsplit("::", 2)[-2] + "::" + p.rsplit("::", 1)[-1]
                        why = foreign(store, c, f, op, set())
                        rep.ob(why is None, "copied:%s:%s" % (f.path, what), "%s (%s): the text of a %s is not the text it was made of but what `%s` makes of it" % (f.path, f.loc, what, why), "%s: the text of a %s is taken over whole" % (f.path, what))
    rep.floor("texts built from texts", n, 6)


def adt_of(store, p):
    for cn in ("planus_types", "planus_lexer", "planus_translation"):
        a = store.crate(cn).adts.get(p)
        if a:
            a.setdefault("_crate", store.crate(cn))
            return a
    return None


def holds_string(t):
    return t == ("adt", "alloc::string::String", ()) or t[0] in ("ref",) and t[1][0] == "str"


def foreign(store, c, f, op, seen):
    """The first thing on the way of a text that is not a move or a copy of the whole."""
    if op[0] not in ("c", "m"):
        return None
    todo = [op[1][0]]
    done = set()
    while todo:
        l = todo.pop()
        if l in done or 1 <= l <= f.body["argc"]:
            continue
        done.add(l)
        for st, t, cl in f.blocks():
            if cl:
                continue
            for s in st:
                if s[0] == "=" and s[1][0] == l:
                    todo += [x for x in operands(s[2])]
            if t[0] == "call" and t[3][0] == l:
                cal, args = t[1], t[2]
                p = (cal.get("r") or cal.get("f") or "?") if isinstance(cal, dict) else "?"
                g = next((c.by_id[i] for i in ((cal.get("rid"), cal.get("id")) if isinstance(cal, dict) else ()) if i in c.by_id), None)
                if g is not None and g.body and g.kind != "closure":
                    if not holds_or_wraps(c, g):
                        continue
                    if g.id in seen:
                        continue
                    w = foreign(store, c, g, ("m", [0]), seen | {g.id})
                    if w:
                        return w
                    todo += [a[1][0] for a in args if a[0] in ("c", "m")]
                    continue
                name = p.rsplit("::", 1)[-1].split("<")[0]
                fam = p.split("::", 1)[0].lstrip("<")
                if name not in KEEP and fam in ("core", "alloc", "std") and makes_text(c, f, t[3][0]):
                    if name in ("new", "with_capacity", "default", "next", "get", "call_once", "call"):
                        continue
                    return p
                if name in KEEP:
                    todo += [a[1][0] for a in args[:1] if a[0] in ("c", "m")]
    return None


def makes_text(c, f, l):
    t = c.ty(f.body["locals"][l]) if isinstance(f.body["locals"][l], int) else f.body["locals"][l]
    while t[0] == "ref":
        t = t[1]
    return t[0] == "str" or text_type(t) or t[0] == "adt" and t[1] == "alloc::borrow::Cow"


def holds_or_wraps(c, g):
    return text_type(c.ty(g.body["locals"][0])) or c.ty(g.body["locals"][0]) == ("ref", ("str",), False)


def operands(rv):
    """Locals an rvalue reads."""
    out = []

    def walk(x):
        if isinstance(x, (list, tuple)):
            if len(x) == 2 and x[0] in ("c", "m") and isinstance(x[1], (list, tuple)) and x[1] and isinstance(x[1][0], int):
                out.append(x[1][0])
                return
            for y in x:
                walk(y)
    if rv[0] in ("ref", "copyref", "addr", "raw", "discr", "len"):
        for x in rv[1:]:
            if isinstance(x, (list, tuple)) and x and isinstance(x[0], int):
                out.append(x[0])
    walk(rv)
    return out
