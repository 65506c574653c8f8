"""What a lexer does with comments: none is lost on the way from the text to the token it is handed out with.

The state of a lexer is looked at as the row of the comments it holds (in order, those of finished blocks, then those of the open block).
On every path between two heads of a loop, or up to what is handed out: the row before plus the comments read is the row handed out plus the row after.
"""
import re

from . import fe, models
from .absint import Adt, Arr, Budget, C, It, L, Ref, Sl, Stop, Sym, Tup, kv, const

LEX = "planus_lexer::"
MARK = {"Comment": "//", "InnerDocstring": "//!", "OuterDocstring": "///"}
VEC = "alloc::vec::Vec"


def apart(fn):
    return "text_lexer::" in fn.path or "raw_lexer::" in fn.path


class Lexing(fe.Front):
    def __init__(self, crates, scope, opaque):
        super().__init__(crates, opaque=opaque)
        self.scope = scope
        self.merge_above = 10 ** 6
        self.max_paths = 20000
        self.lens = {}

    def has_loop(self, fn):
        return False if fn.id in self.scope or fn.kind == "closure" else super().has_loop(fn)

    def havoc_val(self, st, v, ty, name):
        v = self.expand(st, v)
        if isinstance(v, It) and v.kind == "seq":
            return self.mk(st, v.f["ty"], name)
        return super().havoc_val(st, v, ty, name)

    def write(self, st, pl, v):
        if isinstance(v, Arr):
            st.ev = st.ev + (("put", v),)
        return super().write(st, pl, v)

    def fresh(self):
        self.nsym += 1
        return self.nsym

    def mk(self, st, ty, *a, **kw):
        if ty[0] == "adt" and ty[1] == VEC:
            return It("seq", parts=(("of", self.fresh()),), ty=ty)
        v = super().mk(st, ty, *a, **kw)
        if ty[0] == "adt" and ty[1].startswith(LEX + "full_lexer::") and len(self.adts.get(ty[1], {"variants": ()})["variants"]) == 1 and isinstance(v, Sym):
            v = self.expand(st, v)  # once, so that all that follows means the same
        return v

    def seq(self, st, v):
        v = self.peek(st, v)
        if isinstance(v, It) and v.kind == "seq":
            return v
        if isinstance(v, It) and v.kind == "vec" and isinstance(v.f.get("n"), L) and v.f["n"].is_const() and v.f["n"].c == 0:
            return It("seq", parts=(), ty=("adt", VEC, (v.f["ety"],)))
        return None

    def length(self, s):
        n = const(0)
        for k, x in s.f["parts"]:
            if k == "of":
                if x not in self.lens:
                    self.lens[x] = self.A.fresh("len", 0, 2 ** 62)
                n = n + self.lens[x]
            else:
                n = n + const(1)
        return n

    def call_path(self, fr, st, callee, cargs, vals, span, dty):
        n = re.sub(r"::<[^<>]*>", "", callee.get("f") or "")
        if n.startswith(("alloc::vec::Vec::new", "alloc::vec::Vec::with_capacity")) and dty[0] == "adt":
            return [(st, It("seq", parts=(), ty=dty))]
        if n.startswith("alloc::vec::Vec::") or n.startswith("core::slice::"):
            op = n.rsplit("::", 1)[1]
            r = self.expand(st, vals[0]) if vals else None
            s0 = self.seq(st, r) if vals else None
            if s0 is not None and op in ("is_empty", "len"):
                k = self.length(s0)
                return [(st, C("eq", k) if op == "is_empty" else k)]
            if s0 is not None and isinstance(r, Ref) and op in ("push", "append", "extend", "clear"):
                s = st.fork()
                more = None
                if op == "push":
                    more = (("one", vals[1]),)
                elif op == "append":
                    q = self.expand(s, vals[1])
                    o = self.seq(s, q)
                    if o is not None and isinstance(q, Ref):
                        more = o.f["parts"]
                        self.store(s, q.cell, q.path, It("seq", parts=(), ty=o.f["ty"]))
                elif op == "clear":
                    self.store(s, r.cell, r.path, It("seq", parts=(), ty=s0.f["ty"]))
                    return [(s, Tup([]))]
                if more is not None:
                    self.store(s, r.cell, r.path, It("seq", parts=s0.f["parts"] + more, ty=s0.f["ty"]))
                    return [(s, Tup([]))]
        if n.endswith("box_assume_init_into_vec_unsafe"):
            put = [e[1] for e in st.ev if e[0] == "put"]
            if put and models.arrlen(self, put[-1]).is_const():
                return [(st, It("seq", parts=tuple(("one", put[-1].elems[i]) for i in range(models.arrlen(self, put[-1]).c)), ty=dty))]
        if n == "core::iter::traits::collect::Extend::extend" and len(vals) == 2:
            r, o = self.expand(st, vals[0]), self.expand(st, vals[1])
            s0, o = self.seq(st, r), self.seq(st, o)
            if s0 is not None and o is not None and isinstance(r, Ref):
                s = st.fork()
                self.store(s, r.cell, r.path, It("seq", parts=s0.f["parts"] + o.f["parts"], ty=s0.f["ty"]))
                return [(s, Tup([]))]
            x = self.expand(st, vals[1])
            if s0 is not None and isinstance(x, Adt) and x.vn in ("Some", "None") and isinstance(r, Ref):
                s = st.fork()
                self.store(s, r.cell, r.path, It("seq", parts=s0.f["parts"] + ((("one", x.fields[0]),) if x.vn == "Some" else ()), ty=s0.f["ty"]))
                return [(s, Tup([]))]
        if n.endswith("Iterator::next") and "logos" in repr(callee) + repr(cargs) + repr(dty):
            s = st.fork()
            v = self.mk(s, dty, "raw")
            s.ev = s.ev + (("raw", v),)
            return [(s, v)]
        return super().call_path(fr, st, callee, cargs, vals, span, dty)


class Wrong(Exception):
    def __init__(self, key, msg):
        self.key, self.msg = key, msg


def field(eng, st, v, name):
    v = eng.expand(st, v)
    a = eng.adts.get(v.path) if isinstance(v, Adt) else None
    if not a:
        return None
    for i, f in enumerate(a["variants"][v.vi or 0]["fields"]):
        if f[0] == name:
            return v.fields[i]
    return None


class Comments:
    def __init__(self, store, rep):
        self.rep = rep
        self.c = c = store.crate("planus_lexer")
        self.roots = [f for f in c.fns if f.body and f.kind == "fn" and f.impl_trait and "Iterator" in repr(f.impl_trait) and f.name == "next" and "TokenWithMetadata" in repr(c.ty(f.body["locals"][0]))]
        rep.floor("functions that hand out tokens", len(self.roots), 1)
        reach, todo = {}, list(self.roots)
        while todo:
            f = todo.pop()
            if f.id in reach or not f.body:
                continue
            reach[f.id] = f
            todo += fe.local_callees(c, f)
        self.reach = reach
        self.eng = Lexing([c], {i for i, f in reach.items() if not apart(f)}, apart)

    def comment(self, st, x):
        """(kind, content) of a comment."""
        eng = self.eng
        x = eng.expand(st, x)
        k, t = field(eng, st, x, "kind"), field(eng, st, x, "content")
        if k is None or t is None:
            raise Wrong("shape", "something that is not a comment is kept with the comments")
        return ("c", kv(eng.expand(st, k)), self.text(st, t))

    def text(self, st, t, depth=0):
        t = self.eng.expand(st, t)
        for e in st.ev:
            if depth < 5 and e[0] == "call" and e[2] and kv(self.eng.expand(st, e[3])) == kv(t) and fe.name(e).rsplit("::", 1)[1] in ("trim_end", "trim", "trim_start"):
                return self.text(st, e[2][0], depth + 1)
        return kv(t)

    def flat(self, st, v):
        eng = self.eng
        v = eng.expand(st, v)
        if isinstance(v, Adt) and v.path.endswith("::CommentBlock") or isinstance(v, Sym) and v.ty[0] == "adt" and v.ty[1].endswith("::CommentBlock"):
            return self.flat(st, eng.expand(st, v).fields[0])
        s = eng.seq(st, v)
        if s is None:
            if isinstance(v, Adt) and v.path.endswith("::Comment"):
                return [self.comment(st, v)]
            raise Wrong("shape", "comments are kept in something that cannot be followed")
        out = []
        for k, x in s.f["parts"]:
            if k == "one":
                out += self.flat(st, x)
            elif not (x in eng.lens and eng.entails_eq(st, eng.lens[x])):
                out.append(("of", x))
        return out

    def held(self, st, me):
        """The row of comments a lexer holds: blocks first, then the open block."""
        eng = self.eng
        me = eng.expand(st, me)
        blocks, opened = [], []
        a = eng.adts[me.path]
        for f, x in zip(a["variants"][0]["fields"], me.fields):
            t = a["_crate"].ty(f[1])
            r = repr(t)
            if "CommentBlock" in r and t[1] == VEC:
                blocks.append(x)
            elif "::CommentBlock" in r or "::Comment'" in r:
                opened.append(x)
        if len(blocks) > 1 or len(opened) > 1:
            raise Wrong("shape", "the lexer keeps its comments in more than one row")
        return [y for x in blocks + opened for y in self.flat(st, x)]

    def saved(self, st, me):
        """The token put back, if any."""
        eng = self.eng
        me = eng.expand(st, me)
        a = eng.adts[me.path]
        out = []
        for f, x in zip(a["variants"][0]["fields"], me.fields):
            t = a["_crate"].ty(f[1])
            if t[0] == "adt" and t[1] == "core::option::Option" and "raw_lexer::Token" in repr(t) and "logos" not in repr(t):
                out.append(x)
        if len(out) > 1:
            raise Wrong("shape", "the lexer puts back more than one token")
        return out[0] if out else None

    def flags(self, st, me):
        eng = self.eng
        me = eng.expand(st, me)
        a = eng.adts[me.path]
        return [x for f, x in zip(a["variants"][0]["fields"], me.fields) if a["_crate"].ty(f[1])[0] == "bool"]

    def tokens(self, st, v, what):
        """The token in an Option<Result<Token, ()>>: "none", "err", or the token itself."""
        eng = self.eng
        v = eng.expand(st, v)
        n = fe.variant(eng, st, v)
        if n == "None":
            return None
        if n != "Some":
            raise Wrong("unlooked", "%s is dropped without a look at whether there is one" % what)
        r = eng.expand(st, eng.expand(st, v).fields[0])
        n = fe.variant(eng, st, r)
        if n is None:
            return ("any", kv(r), None)
        return (n, kv(r), eng.expand(st, r).fields[0])

    def segment(self, st0, me0, st1, me1, evs, out, post, token, ended):
        """What is true between two points."""
        eng = self.eng
        before, after = self.held(st1, me0), self.held(st1, me1)
        s0, s1 = self.saved(st1, me0), self.saved(st1, me1)
        raws = []
        same = s0 is not None and kv(eng.expand(st1, s0)) == kv(eng.expand(st1, s1))
        if s0 is not None and not same:
            t = self.tokens(st1, s0, "the token put back")
            if t is not None:
                raws.append(t)
            # the token put back is the one before all that are read
        new = [e[1] for e in evs if e[0] == "raw"]
        if same and new and fe.variant(eng, st1, s0) != "None":
            raise Wrong("order", "a token is read while another one is put back")
        end = False
        for v in new:
            t = self.tokens(st1, v, "a token read")
            if t is None:
                end = True
            else:
                raws.append(t)
        kept = None
        if s1 is not None and not same and fe.variant(eng, st1, s1) != "None":
            k = self.tokens(st1, s1, "the token put back")
            if k is not None:
                if not raws or raws[-1][1] != k[1]:
                    raise Wrong("saved", "what is put back is not the last token read")
                kept = raws.pop()
        want, rest = list(before), []
        for kind, key, t in raws:
            if kind == "any":
                raise Wrong("unlooked", "a token is read and dropped without a look at it")
            if kind == "Err":
                rest.append("error")
                continue
            n = fe.variant(eng, st1, t)
            if n is None and not (token is not None and kv(eng.expand(st1, token)) == kv(t)):
                ex = st1.excl.get(getattr(eng.expand(st1, t), "key", None), ())
                names = [v["name"] for v in eng.adts[t.ty[1]]["variants"]] if isinstance(t, Sym) else []
                if names and "Comment" in names and names.index("Comment") in ex:
                    rest.append(t)
                    continue
                raise Wrong("unlooked", "a token is read and dropped without a look at it")
            if n == "Comment":
                want.append(self.comment(st1, eng.expand(st1, t).fields[0]))
            elif n == "Newline":
                if rest:
                    raise Wrong("dropped", "a token is dropped")
            else:
                rest.append(t)
        got = list(out) + list(post) + list(after)
        if post and after:
            raise Wrong("order", "a comment after a token is handed out while others are held back")
        if want != got:
            gone = [x for x in want if x not in got]
            if gone:
                raise Wrong("lost" if gone[0][0] == "c" else "lost:held", "a comment %s is lost, or changed on the way" % ("just read" if gone[0][0] == "c" else "held by the lexer"))
            raise Wrong("order", "comments change their order, or come out twice")
        return rest, end, after

    def all(self):
        self.made()
        rep, eng = self.rep, self.eng
        loops = {}

        def on_loop(fr, h, st, hs, backs):
            u = len(loops)
            loops[u] = (fr.fn, st, [(b, len(hs.ev)) for b in backs], hs)
            hs.ev = hs.ev + (("loop", u),)
        n = 0
        for f in self.roots:
            eng.hooks["loop"] = on_loop
            loops.clear()
            try:
                paths = fe.paths(eng, f)
            except (Budget, Stop) as e:
                rep.fail("comments:engine", "%s (%s): not analysable: %s" % (f.path, f.loc, e))
                continue
            finally:
                eng.hooks.pop("loop", None)
            for st, v, args in paths:
                n += 1
                me = eng.expand(st, args[0])
                self.path(f, st, v, me, loops)
        for u, (fn, st, its, hs) in sorted(loops.items()):
            for b, mark in its:
                n += 1
                try:
                    x0, x1 = self.me(hs, me), self.me(b, me)
                    rest, end, _ = self.segment(hs, x0, b, x1, b.ev[mark:], [], [], None, False)
                    if rest:
                        raise Wrong("dropped", "a token is dropped")
                    rep.ob(True, "comments:step", "", "%s: a step of a loop keeps the comments" % fn.path)
                except (Wrong, Stop) as w:
                    rep.fail("comments:" + getattr(w, "key", "engine"), "%s (%s): in a step of a loop %s" % (fn.path, fn.loc, getattr(w, "msg", w)))
        rep.floor("paths of the lexer along which comments are followed", n, 8)

    def made(self):
        """A comment read has the text behind its marker, up to the end of what was matched."""
        rep, n = self.rep, 0
        for f in self.c.fns:
            if not f.body or f.kind == "closure" or f.impl_trait and re.search(r"core::|std::", repr(f.impl_trait)) or not any("CommentToken" in repr(self.c.ty(l) if isinstance(l, int) else l) for l in f.body["locals"]):
                continue
            if f.id in self.reach:
                continue
            eng = fe.Front([self.c])
            try:
                paths = fe.paths(eng, f)
            except (Budget, Stop) as e:
                rep.fail("comments:engine", "%s (%s): not analysable: %s" % (f.path, f.loc, e))
                continue
            for st, v, args in paths:
                found = []
                for x in [v] + [y for e in st.ev if e[0] == "call" for y in e[2]]:
                    found += self.inside(eng, st, x)
                for x in found:
                    kind = fe.variant(eng, st, field(eng, st, x, "kind"))
                    t = eng.expand(st, field(eng, st, x, "content"))
                    src = [eng.expand(st, e[3]) for e in st.ev if e[0] == "call" and fe.name(e).endswith("::slice")]
                    src = [s for s in src if isinstance(s, Sl) and isinstance(t, Sl) and s.region == t.region]
                    n += 1
                    ok = kind in MARK and len(src) == 1 and isinstance(t.start, L) and eng.entails_eq(st, t.start - src[0].start - const(len(MARK[kind]))) and eng.entails_eq(st, t.start + t.n - src[0].start - src[0].n)
                    rep.ob(bool(ok), "comments:text:%s" % kind, "%s (%s): the text of a comment (%s) read is not all that follows its marker" % (f.path, f.loc, kind), "a comment (%s) has the text behind its marker" % kind)
        rep.floor("places where a comment is read", n, 3)

    def inside(self, eng, st, x, depth=0):
        x = eng.expand(st, x)
        if isinstance(x, Adt) and x.path.endswith("::CommentToken"):
            return [x]
        if isinstance(x, (Adt, Tup)) and depth < 4:
            return [z for y in x.fields for z in self.inside(eng, st, y, depth + 1)]
        return []

    def me(self, st, ref):
        return self.eng.load(st, ref.cell, ref.path)

    def path(self, f, st, v, me, loops):
        rep, eng = self.rep, self.eng
        try:
            at = [i for i, e in enumerate(st.ev) if e[0] == "loop"]
            st0 = None
            if at:
                fn, before, its, hs = loops[st.ev[at[-1]][1]]
                x0 = self.me(hs, me)
                # up to the loop nothing may happen
                first = loops[st.ev[at[0]][1]][1]
                if [e for e in first.ev if e[0] == "raw"] or len(at) > 1:
                    raise Wrong("shape", "the lexer reads outside of its loop")
                evs = st.ev[at[-1] + 1:]
            else:
                x0 = None
                evs = st.ev
            if x0 is None:
                raise Wrong("shape", "the lexer does not go through its loop")
            x1 = self.me(st, me)
            n = fe.variant(eng, st, v)
            if n is None:
                raise Wrong("shape", "what is handed out is not known")
            item = eng.expand(st, eng.expand(st, v).fields[0]) if n == "Some" else None
            r = fe.variant(eng, st, item) if item is not None else None
            if r == "Err":
                rep.ob(True, "comments:error", "", "%s: an error ends the input" % f.path)
                return
            f0, f1 = self.flags(st, x0), self.flags(st, x1)
            rising = [1 for a, b in zip(f0, f1) if kv(a) != kv(b)]
            if item is None:
                self.segment(None, x0, st, x1, evs, [], [], None, True)
                if not any(self.true(st, a) for a in f0):
                    raise Wrong("end", "the input ends without a token that holds the last comments")
                rep.ob(True, "comments:none", "", "%s: the input ends after its last token" % f.path)
                return
            tup = eng.expand(st, eng.expand(st, item).fields[0])
            tok = [x for x in tup.fields if isinstance(eng.expand(st, x), Adt) and eng.expand(st, x).path.endswith("::TokenWithMetadata")]
            if len(tok) != 1:
                raise Wrong("shape", "no token is handed out")
            tok = eng.expand(st, tok[0])
            meta = eng.expand(st, tok.fields[1])
            pre, post = field(eng, st, meta, "pre_comment_blocks"), field(eng, st, meta, "post_comment")
            if pre is None or post is None:
                raise Wrong("shape", "a token is handed out without its comments")
            pn = fe.variant(eng, st, post)
            if pn is None:
                raise Wrong("unlooked", "it is not known whether a comment after the token is handed out")
            p = [self.comment(st, eng.expand(st, post).fields[0])] if pn == "Some" else []
            rest, end, after = self.segment(None, x0, st, x1, evs, self.flat(st, pre), p, tok.fields[0], False)
            if after:
                raise Wrong("held", "a token is handed out without the comments before it")
            name = fe.variant(eng, st, tok.fields[0])
            if rising and name != "EndOfStream":
                raise Wrong("end", "the end of the input is noted before its last token")
            if name == "EndOfStream" and not rising:
                raise Wrong("end", "the last token is handed out without a note of it")
            if len(rest) > 1:
                raise Wrong("dropped", "a token is dropped")
            if name != "EndOfStream":
                if not rest:
                    raise Wrong("made", "a token is handed out that was not read")
                t = rest[0]
                if not (isinstance(t, (Sym, Adt)) and (kv(eng.expand(st, t)) == kv(eng.expand(st, tok.fields[0])) or name == "StringLiteral" and fe.variant(eng, st, t) == "StringLiteral")):
                    raise Wrong("other", "the token handed out is not the one read")
            elif rest:
                raise Wrong("dropped", "a token is dropped")
            rep.ob(True, "comments:token", "", "%s: a token comes with all comments around it" % f.path)
        except (Wrong, Stop) as w:
            rep.fail("comments:" + getattr(w, "key", "engine"), "%s (%s): %s" % (f.path, f.loc, getattr(w, "msg", w)))

    def true(self, st, c):
        c = self.eng.expand(st, c)
        if isinstance(c, bool):
            return c
        try:
            yes, no = self.eng.branch(st, c)
            return not no
        except Exception:
            return False


class Nodes:
    """The parts of a schema are built from all that was read, in its order."""

    CST = "planus_types::cst::"
    NUMBER = ("codespan::index::ByteIndex",)

    def __init__(self, store, rep, spec):
        self.rep, self.spec = rep, spec
        self.c = c = store.crate("planus_translation")
        self.actions = [f for f in c.fns if f.body and f.kind != "closure" and re.search(r"parser::.*::__action\d+$", f.path)]
        ids = {f.id for f in c.fns if "parser::" in f.path}
        self.eng = Lexing([c, store.crate("planus_types"), store.crate("planus_lexer")], ids, lambda fn: False)

    def payload(self, ty):
        """Type of what an argument of an action carries besides its place."""
        if ty[0] == "tuple" and len(ty[1]) == 3 and ty[1][0][:2] == ty[1][2][:2] == ("adt", self.NUMBER[0]):
            return ty[1][1]
        return None

    def flat(self, st, v, depth=0):
        eng = self.eng
        v = eng.expand(st, v)
        if depth > 12:
            raise Wrong("shape", "a part goes too deep")
        s = eng.seq(st, v) if isinstance(v, It) else None
        if s is not None:
            out = []
            for k, x in s.f["parts"]:
                if k == "one":
                    out += self.flat(st, x, depth + 1)
                elif not (x in eng.lens and eng.entails_eq(st, eng.lens[x])):
                    out.append(("of", x))
            return out
        if isinstance(v, It) and v.kind == "box":
            return self.flat(st, st.cells[v.f["cell"]], depth + 1)
        if isinstance(v, Tup):
            kids = list(v.fields)
            if len(kids) == 2 and self.is_meta(kids[1]) and not self.is_meta(kids[0]):
                kids = kids[::-1]  # a token with its text
            return [y for x in kids for y in self.flat(st, x, depth + 1)]
        if isinstance(v, Sym) and v.ty[0] == "adt" and v.ty[1] in self.NUMBER + ("codespan::span::Span",):
            return []
        if isinstance(v, Sym) and v.ty[0] == "adt" and v.ty[1] == "core::option::Option":
            n = fe.variant(eng, st, v)
            if n is None:
                return [kv(v)]
            v = eng.expand(st, v)
        if isinstance(v, Adt):
            if v.path == "core::option::Option":
                return [y for x in v.fields for y in self.flat(st, x, depth + 1)]
            if not v.path.startswith(self.CST):
                return [("adt", v.path.rsplit("::", 1)[1], hash(kv(v)))]
            name = v.path[len(self.CST):]
            a = eng.adts.get(v.path)
            names = [f[0] for f in a["variants"][v.vi or 0]["fields"]]
            sp = self.spec.get(name)
            if isinstance(sp, dict):
                sp = sp.get(v.vn)
            order = list(range(len(names)))
            if sp:
                rank = {}
                for x in sp:
                    rank.setdefault(str(x[1]), len(rank))
                order.sort(key=lambda i: rank.get(str(names[i]), 99))
            out = []
            for i in order:
                x = eng.expand(st, v.fields[i])
                t = a["_crate"].ty(a["variants"][v.vi or 0]["fields"][i][1])
                if t == ("bool",) or names[i] == "span" or isinstance(x, Sl) and isinstance(x.region, tuple) and x.region[0] == "str":
                    continue
                out += self.flat(st, x, depth + 1)
            return out
        if isinstance(v, Ref):
            raise Wrong("shape", "a reference is kept")
        return [kv(v)]

    def is_meta(self, v):
        return isinstance(v, Sym) and v.ty[0] == "adt" and v.ty[1].endswith("::TokenMetadata") or isinstance(v, Adt) and v.path.endswith("::TokenMetadata")

    def all(self):
        rep, eng, n = self.rep, self.eng, 0
        for f in self.actions:
            tys = [f.crate.ty(f.body["locals"][i + 1]) for i in range(f.body["argc"])]
            pay = [self.payload(t) for t in tys]
            if not any(pay):
                continue
            kinds = repr([p for p in pay if p]) + repr(f.crate.ty(f.body["locals"][0]))
            if "cst::" not in kinds and "TokenMetadata" not in kinds:
                continue
            ret = f.crate.ty(f.body["locals"][0])
            what = ret[1].rsplit("::", 1)[1] if ret[0] == "adt" else "part"
            try:
                for st, v, args in fe.paths(eng, f):
                    want, places = [], []
                    for a, p in zip(args, pay):
                        if p is None:
                            continue
                        x = eng.expand(st, a).fields[1]
                        if p[:2] == ("adt", self.NUMBER[0]):
                            places.append(x)
                        else:
                            want += self.flat(st, x)
                    got = self.flat(st, v)
                    n += 1
                    if want != got:
                        lost = [x for x in want if x not in got]
                        rep.fail("built:%s" % what, "%s (%s): a %s is built %s" % (f.path.rsplit("::", 1)[-1], "parser/grammar.lalrpop", what, "without a part that was read" if lost else "from what was read in another order" if sorted(map(str, want)) == sorted(map(str, got)) else "from more than was read"))
                        continue
                    rep.ob(True, "built:%s" % what, "", "an action of the parser keeps all parts of a %s" % what)
                    self.span(st, f, v, places, what)
            except (Wrong, Budget, Stop) as e:
                rep.fail("built:engine:%s" % what, "%s: %s" % (f.path, getattr(e, "msg", e)))
        rep.floor("paths of actions of the parser", n, 60)

    def span(self, st, f, v, places, what):
        """The place of a part is from its first to its last character."""
        eng = self.eng
        v = eng.expand(st, v)
        if len(places) != 2 or not isinstance(v, Adt) or not v.path.startswith(self.CST):
            return
        s = field(eng, st, v, "span")
        if s is None:
            return
        k = kv(eng.expand(st, s))
        ok = any(e[0] == "call" and fe.name(e) == "codespan::span::Span::new" and kv(eng.expand(st, e[3])) == k and [kv(eng.expand(st, x)) for x in e[2]] == [kv(eng.expand(st, x)) for x in places] for e in st.ev)
        self.rep.ob(ok, "built:place:%s" % what, "%s (parser/grammar.lalrpop): the place of a %s is not from its start to its end" % (f.path.rsplit("::", 1)[-1], what), "the place of a %s is from its start to its end" % what)
