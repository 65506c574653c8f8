"""The formatter prints every part of a schema."""
import re
from sa import fe, lexspec, models
from sa.lexspec import MARK
from sa.absint import Adt, Ref, Sym, Tup, It, C, L, Sl, Arr, Clo, Stop, Budget, kv
from checks.p31 import Look, params

TECHNIQUE = "abstract interpretation of the formatter: the text and comments printed on every path against the grammar of schemas"
LEVEL = "proved-static"
RULE = (
    "Over every function of the formatter that prints a part of the syntax tree, on every path on which nothing fails: the words, punctuation, names, literals and parts printed, in their order, are those "
    "of that kind of part in the grammar, each list is printed element by element with its separators, and neighbouring words are set apart; the comments handed to the functions that print comments are those of "
    "every token of the part, once and in order; what follows a token on its line is printed too; a function that prints comments prints every one it is given, with its marker and a line end. "
    "On every path of the lexer between two heads of its loop, or up to a token handed out: the comments held before plus those read are those handed out plus those held after, in order, and no other token is dropped; "
    "a comment read has all the text behind its marker; and every action of the generated parser builds its result from all that it is given, in the order of the grammar, with the place from its start to its end."
)
TRUSTED = ["core::fmt::Write and the formatting macros of std behave as documented", "the parser generated by lalrpop runs the actions of the grammar on what it has read", "the automaton generated by logos matches the patterns it was given, and ends once it has ended"]
CST = "planus_types::cst::"
LEX = "planus_lexer::"
OPT = "core::option::Option"


def K(f, t):
    return ("lit", f, t)


def I(f):
    return ("ident", f)


def S(f):
    return ("str", f)


def N(f, t):
    return ("node", f, t)


def O(f, *xs):
    return ("opt", f, xs)


def M(f, t, sep=None):
    return ("list", f, t, sep)


END = K("semicolon", ";")
META = O("metadata", N(None, "Metadata"))
ASSIGN = O("assignment", K(0, "="), N(1, "Expr"))
COMMA = O("comma", K(None, ","))
BODY = lambda f, t: (K("start_brace", "{"), M(f, t), K("end_brace", "}"))
SPEC = {
    "Schema": (M("declarations", "Declaration"), K("end_of_stream", "")),
    "Declaration": (N("kind", "DeclarationKind"),),
    "DeclarationKind": {k: (N(0, k + "Declaration"),) for k in ("Include", "NativeInclude", "Namespace", "Attribute", "Table", "Struct", "Enum", "Union", "RootType", "RpcService", "FileExtension", "FileIdentifier")},
    "IncludeDeclaration": (K("keyword", "include"), S("path"), END),
    "NativeIncludeDeclaration": (K("keyword", "native_include"), S("path"), END),
    "NamespaceDeclaration": (K("keyword", "namespace"), N("namespace", "NamespacePath"), END),
    "AttributeDeclaration": (K("keyword", "attribute"), N("attribute", "AttributeKind"), END),
    "AttributeKind": {"Ident": (I(0),), "String": (S(0),)},
    "TableDeclaration": (K("keyword", "table"), I("ident"), META) + BODY("fields", "FieldDeclaration"),
    "StructDeclaration": (K("keyword", "struct"), I("ident"), META) + BODY("fields", "FieldDeclaration"),
    "EnumDeclaration": (K("keyword", "enum"), I("ident"), O("type_", K(0, ":"), N(1, "Type")), META) + BODY("declarations", "EnumValDeclaration"),
    "UnionDeclaration": (K("keyword", "union"), I("ident"), META) + BODY("declarations", "UnionValDeclaration"),
    "RootTypeDeclaration": (K("keyword", "root_type"), N("root_type", "Type"), END),
    "RpcServiceDeclaration": (K("keyword", "rpc_service"), I("ident")) + BODY("methods", "RpcMethod"),
    "RpcMethod": (I("ident"), K("start_paren", "("), N("argument_type", "Type"), K("end_paren", ")"), K("colon", ":"), N("return_type", "Type"), META, END),
    "FileExtensionDeclaration": (K("keyword", "file_extension"), S("file_extension"), END),
    "FileIdentifierDeclaration": (K("keyword", "file_identifier"), S("file_identifier"), END),
    "Metadata": (K("start_paren", "("), M("values", "MetadataValue", ","), K("end_paren", ")")),
    "MetadataValue": (I("key"), O("assignment", K(0, ":"), N(1, "Expr"))),
    "FieldDeclaration": (I("ident"), K("colon", ":"), N("type_", "Type"), ASSIGN, META, END),
    "EnumValDeclaration": (I("ident"), ASSIGN, COMMA),
    "UnionValDeclaration": (O("name", I(0), K(1, ":")), N("type_", "Type"), META, COMMA),
    "Type": (N("kind", "TypeKind"),),
    "TypeKind": {"Vector": (N(0, "VectorType"),), "Array": (N(0, "ArrayType"),), "Path": (N(0, "NamespacePath"),)},
    "VectorType": (K("start_bracket", "["), N("inner_type", "Type"), K("end_bracket", "]")),
    "ArrayType": (K("start_bracket", "["), N("inner_type", "Type"), K("colon", ":"), N("size", "Expr"), K("end_bracket", "]")),
    "Expr": (N("kind", "ExprKind"),),
    "ExprKind": {"Ident": (I(0),), "Integer": (("val", 0),), "Float": (("val", 0),), "String": (S(0),), "List": (N(0, "ListLiteral"),), "Signed": (("sign", "sign"), N("inner", "Expr"))},
    "ListLiteral": (K("start_bracket", "["), M("values", "ListLiteralValue", ","), K("end_bracket", "]")),
    "ListLiteralValue": (N("expr", "Expr"),),
    "NamespacePath": (M("initial_segments", "NamespacePathSegment"), I("final_segment")),
    "NamespacePathSegment": (I("ident"), K("period", ".")),
}
# commas within attributes and lists are separators: their comments belong to the element, their text to the list
TOKENS = dict(SPEC, MetadataValue=SPEC["MetadataValue"] + (COMMA,), ListLiteralValue=SPEC["ListLiteralValue"] + (COMMA,))


class Wrong(Exception):
    def __init__(self, key, msg):
        super().__init__(msg)
        self.key, self.msg = key, msg


def strip(t):
    while t[0] in ("ref", "ptr") or t[0] == "adt" and t[1] in (OPT, "alloc::boxed::Box"):
        t = t[1] if t[0] in ("ref", "ptr") else t[2][0]
    return t


def has(t, pre):
    return fe.mentions(t, lambda q: q.startswith(pre))


class Printing(fe.Front):
    """Records what is written."""

    def __init__(self, crates, scope, opaque):
        super().__init__(crates, opaque=opaque)
        self.scope = scope
        self.merge_above = 10 ** 6
        self.max_paths = 20000

    def has_loop(self, fn):
        return False if fn.id in self.scope or fn.kind == "closure" else super().has_loop(fn)

    def call_path(self, fr, st, callee, cargs, vals, span, dty):
        n = re.sub(r"::<[^<>]*>", "", callee.get("f") or "")
        if n.startswith("core::fmt::rt::Argument::new_"):
            return [(st, It("fmtarg", v=self.peek(st, vals[0]), how=n.rsplit("_", 1)[1]))]
        if n == "core::fmt::Arguments::new" and len(vals) == 2:
            return [(st, It("fmtargs", tpl=self.peek(st, vals[0]), args=self.elems(st, vals[1])))]
        if n == "core::fmt::Arguments::from_str":
            return [(st, It("fmtargs", tpl=None, args=[vals[0]]))]
        if n == "core::iter::sources::once::once":
            return [(st, It("once", v=vals[0]))]
        if n == "core::iter::traits::iterator::Iterator::flat_map":
            return [(st, It("flat", inner=vals[0], f=vals[1]))]
        if n == "core::iter::traits::collect::IntoIterator::into_iter" and isinstance(self.expand(st, vals[0]), Arr):
            return [(st, It("arr", v=self.expand(st, vals[0])))]
        if n == "core::iter::traits::collect::Extend::extend":
            ev = ("extend", kv(self.expand(st, vals[0])), self.expand(st, vals[1]))
            out = super().call_path(fr, st, callee, cargs, vals, span, dty)
            for s, v in out:
                s.ev = s.ev + (ev,)
            return out
        if n in ("core::iter::traits::iterator::Iterator::try_for_each", "core::iter::traits::iterator::Iterator::for_each"):
            r = self.for_each(fr, st, n.endswith("try_for_each"), vals, span, dty)
            if r is not None:
                return r
        out = super().call_path(fr, st, callee, cargs, vals, span, dty)
        if n.startswith("core::fmt::Write::write_"):
            for s, v in out:
                s.ev = s.ev + (("text", n.rsplit("_", 1)[1], self.peek(s, vals[1])),)
        return out

    def for_each(self, fr, st, tries, vals, span, dty):
        """A loop written as a call: its steps are those of the closure, on any element."""
        it = self.peek(st, vals[0])
        if not (isinstance(it, It) and it.kind == "iter" and it.f.get("sl") is not None):
            return None
        before = st.fork()
        self.forget(st, fr, vals[1], None)
        head = st.fork()
        mark = len(st.ev)
        step = st.fork()
        x = models.elem_ref(self, step, it.f["sl"], self.A.fresh("i", 0))
        step.ev = step.ev + (("item", x, fr.fn),)
        its = []
        for s, v in self.call_value(fr, step, vals[1], [x], span, ("other", "?")):
            w = self.expand(s, v)
            if not (isinstance(w, Adt) and w.vn == "Err"):
                its.append((s, mark))
        u = len(self.table)
        self.table[u] = (fr.fn, before, its, head)
        st.ev = st.ev + (("loop", u),)
        if not tries:
            return [(st, Tup([]))]
        ok = self.mk(st, dty, "done")
        self.refine(st, ok, 0)
        return [(st, ok)]

    def write(self, st, pl, v):
        if isinstance(v, Arr):
            st.ev = st.ev + (("put", v),)
        return super().write(st, pl, v)

    def elems(self, st, v):
        v = self.expand(st, v)
        if isinstance(v, Sl) and isinstance(v.region, tuple) and v.region[0] == "cell":
            v = self.expand(st, self.load(st, v.region[1], v.region[2]))
        v = self.peek(st, v)
        if isinstance(v, Arr):
            out = []
            n = models.arrlen(self, v)
            if not n.is_const():
                return None
            for i in range(n.c):
                out.append(self.expand(st, v.elems[i]))
            return out
        return None


class P22:
    def __init__(self, store, rep):
        self.rep = rep
        self.c = c = store.crate("planus_translation")
        self.ct = ct = store.crate("planus_types")
        roots = [f for f in c.fns if f.body and f.kind == "fn" and any(strip(p)[:2] == ("adt", CST + "Schema") for p in params(c, f)) and any(p[0] in ("ref", "param") and "param" in repr(p) for p in params(c, f)) and "core::fmt" in repr(c.ty(f.body["locals"][0]))]
        rep.floor("functions that format a schema", len(roots), 1)
        self.roots = roots
        reach, todo = {}, list(roots)
        while todo:
            f = todo.pop()
            if f.id in reach or not f.body:
                continue
            reach[f.id] = f
            todo += fe.local_callees(c, f)
        self.reach = reach
        self.writers, self.commenters, self.spans = {}, {}, {}
        for f in reach.values():
            if f.kind == "closure":
                continue
            ps = params(c, f)
            ret = c.ty(f.body["locals"][0])
            nodes = [i for i, p in enumerate(ps) if has(p, CST)]
            if not nodes and (any(has(p, LEX) for p in ps) or has(ret, LEX)):
                self.commenters[f.id] = f
            elif len(nodes) == 1:
                t = strip(ps[nodes[0]])
                if t[0] == "adt" and t[1].startswith(CST) and t[1][len(CST):] in SPEC and all(i == nodes[0] or p[0] == "ref" and p[2] or p[0] in ("int", "bool") and self.cyclic(f) for i, p in enumerate(ps)):
                    self.writers[f.id] = (f, nodes[0], t[1][len(CST):])
            elif not nodes and [p for p in ps if p[0] == "adt" and p[1].startswith("codespan::")]:
                self.spans[f.id] = f
        for f in roots:
            i = [k for k, p in enumerate(params(c, f)) if strip(p)[:2] == ("adt", CST + "Schema")][0]
            self.writers[f.id] = (f, i, "Schema")
        self.tokfns = {f.id for f in ct.fns if f.body and f.kind != "closure" and f.path.startswith(CST) and f.body["argc"] == 1 and has(ct.ty(f.body["locals"][0]), LEX + "full_lexer::TokenMetadata")}
        self.tokfns |= {f.id for f in ct.fns if f.body and f.kind != "closure" and f.path.startswith(CST) and f.body["argc"] == 1 and strip(ct.ty(f.body["locals"][1]))[:2] and strip(ct.ty(f.body["locals"][1]))[0] == "adt" and strip(ct.ty(f.body["locals"][1]))[1][len(CST):] in SPEC}
        self.ct_types = {f.id: ct.ty(f.body["locals"][1]) for f in ct.fns if f.id in self.tokfns}
        self.current = None
        cut = lambda fn: fn.id != self.current and (fn.id in self.writers or fn.id in self.commenters or fn.id in self.spans or fn.id in self.tokfns)
        self.eng = Printing([c, ct, store.crate("planus_lexer")], set(reach) | {f.id for f in ct.fns}, cut)
        self.lk = Look(self)
        self.loops = self.eng.table = {}
        self.settle()

    def cyclic(self, f):
        seen, todo = set(), list(fe.local_callees(self.c, f))
        while todo:
            g = todo.pop()
            if g.id == f.id:
                return True
            if g.id not in seen and g.body and g.id in self.reach:
                seen.add(g.id)
                todo += fe.local_callees(self.c, g)
        return False

    def settle(self):
        """Functions that print comments and more, or more or less than their part, are read within their callers."""
        root = {f.id for f in self.roots}
        self.why = []
        while True:
            self.posts, self.silent = {}, {}
            out = []
            for f in sorted(self.commenters.values(), key=lambda f: f.path):
                if self.cyclic(f):
                    continue
                for st, v, args in self.run(f, quiet=True):
                    if any(x[0] in ("node", "span") or x[0] == "w" and not re.fullmatch("[/!]+", x[1]) for x in self.stream(st, st.ev)):
                        out.append(self.commenters.pop(f.id))
                        break
            if not out:
                break
        while True:
            self.results = {}
            out = []
            for f, i, t in sorted(self.writers.values(), key=lambda x: x[0].path):
                r = self.results[f.id] = self.trial(f, i, t)
                if r[2] and f.id not in root and not self.cyclic(f):
                    out.append(f.id)
                    self.why.append("%s (%s): %s" % (f.path, f.loc, r[2][0][1]))
            if not out:
                break
            for i in out:
                del self.writers[i]
            self.posts, self.silent = {}, {}

    # ------------------------------------------------------------ identity
    def nk(self, st, v, depth=0):
        eng = self.eng
        v = eng.peek(st, v)
        if depth > 7:
            return kv(v)
        if isinstance(v, It) and v.kind == "box":
            return self.nk(st, st.cells.get(v.f["cell"]), depth)
        if isinstance(v, Adt):
            if v.path == "alloc::boxed::Box":
                return self.nk(st, v.fields[0], depth + 1)
            return (v.path, v.vi, tuple(self.nk(st, x, depth + 1) for x in v.fields))
        if isinstance(v, Tup):
            return tuple(self.nk(st, x, depth + 1) for x in v.fields)
        return kv(v)

    def token(self, st, v):
        return self.nk(st, self.lk.get(st, v, "pre_comment_blocks")) if v is not None else None

    def part(self, st, v, f):
        """A part of a node: by name, by position in a variant or tuple, or the node itself."""
        eng = self.eng
        v = self.open(st, v)
        if f is None:
            return v
        if isinstance(f, str):
            if isinstance(v, Adt) and v.path in eng.adts and len(eng.adts[v.path]["variants"]) > 1:
                for i, x in enumerate(eng.adts[v.path]["variants"][v.vi]["fields"]):
                    if x[0] == f:
                        return self.open(st, v.fields[i])
                return None
            return self.open(st, self.lk.get(st, v, f))
        if isinstance(v, (Adt, Tup)) and len(v.fields) > f:
            return self.open(st, v.fields[f])
        if isinstance(v, Sym) and v.ty[0] == "tuple":
            return self.open(st, eng.proj(st, v, ("f", f, v.ty[1][f])))
        return None

    def open(self, st, v):
        eng = self.eng
        for _ in range(6):
            if v is None:
                return None
            v = eng.peek(st, v)
            if isinstance(v, It) and v.kind == "box":
                v = st.cells.get(v.f["cell"])
            elif isinstance(v, Adt) and v.path == "alloc::boxed::Box":
                v = v.fields[0]
            else:
                return v
        return v

    def region(self, st, vec):
        v = self.open(st, vec)
        if isinstance(v, It) and v.kind == "vec":
            return kv(v.f["n"])
        if isinstance(v, Sl):
            return kv(self.eng.rsize.get(v.region))
        return None

    def holder(self, st, item):
        """The region an element of a list lies in."""
        v = self.eng.expand(st, item)
        while isinstance(v, Ref):
            if isinstance(v.cell, tuple) and len(v.cell) > 3 and v.cell[1] == "elem":
                return kv(self.eng.rsize.get(v.cell[2]))
            w = self.eng.expand(st, self.eng.load(st, v.cell, v.path))
            if not isinstance(w, Ref):
                return None
            v = w
        return None

    # ------------------------------------------------------------ running
    def run(self, f, quiet=False):
        eng = self.eng
        self.current = f.id
        eng._op = {}

        def on_loop(fr, h, st, hs, backs):
            u = len(self.loops)
            self.loops[u] = (fr.fn, st, [(b, len(hs.ev)) for b in backs], hs)
            hs.ev = hs.ev + (("loop", u),)
        eng.hooks["loop"] = on_loop
        try:
            out = []
            for st, v, args in fe.paths(eng, f):
                if fe.variant(eng, st, v) == "Err":
                    continue
                out.append((st, v, args))
            return out
        except (Budget, Stop) as e:
            if not quiet:
                self.rep.fail("engine:" + f.path, "%s (%s): not analysable: %s" % (f.path, f.loc, e))
            return []
        finally:
            eng.hooks.pop("loop", None)

    def split(self, st, v, t, spec=None):
        """States in which it is known which optional parts are there."""
        eng = self.eng
        out = [st]
        for x in (spec or SPEC).get(t, ()) if not isinstance((spec or SPEC).get(t), dict) else ():
            if x[0] == "opt":
                nxt = []
                for s in out:
                    o = self.part(s, v, x[1])
                    if isinstance(o, Sym) and fe.variant(eng, s, o) is None:
                        for i in (0, 1):
                            s2 = s.fork()
                            if i not in s2.excl.get(o.key, ()):
                                eng.refine(s2, o, i)
                                nxt.append(s2)
                    else:
                        nxt.append(s)
                out = nxt
        return out

    # ------------------------------------------------------------ what is printed
    def pieces(self, st, e):
        """The constant and variable pieces of a text event."""
        eng = self.eng
        v = e[2]
        if e[1] == "char":
            return [chr(v.c)] if isinstance(v, L) and v.is_const() else [("v", v)]
        if isinstance(v, It) and v.kind == "fmtargs":
            args = v.f["args"]
            if v.f["tpl"] is None:
                return self.plain(st, args[0])
            t = eng.expand(st, v.f["tpl"])
            raw = const_bytes(t)
            if raw is None or args is None:
                return [("?", v)]
            out, i, k = [], 0, 0
            while i < len(raw) and raw[i] != 0:
                b = raw[i]
                i += 1
                if b < 128:
                    out.append(bytes(raw[i:i + b]).decode("utf8", "replace"))
                    i += b
                elif b == 128:
                    n = raw[i] + 256 * raw[i + 1]
                    out.append(bytes(raw[i + 2:i + 2 + n]).decode("utf8", "replace"))
                    i += 2 + n
                elif b == 192 and k < len(args):
                    a = eng.expand(st, args[k])
                    k += 1
                    out += self.plain(st, a.f["v"]) if isinstance(a, It) and a.kind == "fmtarg" and a.f["how"] == "display" else [("?", a)]
                else:
                    return [("?", v)]
            return out
        return self.plain(st, v)

    def plain(self, st, v):
        v = self.eng.peek(st, v)
        if isinstance(v, Sl) and isinstance(v.region, tuple) and v.region[0] == "str" and v.start.is_const() and v.n.is_const():
            return [v.region[1][v.start.c:v.start.c + v.n.c]]
        return [("v", v)]

    def stream(self, st, evs):
        """What these events print: words, punctuation, values, parts, lists, comments."""
        out = []
        for e in evs:
            if e[0] == "text":
                for p in self.pieces(st, e):
                    if isinstance(p, str):
                        for m in re.finditer(r"\s+|\w+|[^\w\s]", p):
                            out.append(("ws", m.group()) if m.group().isspace() else ("w", m.group()))
                    else:
                        out.append(p)
            elif e[0] == "call":
                i = e[1].get("rid") or e[1].get("id")
                if i in self.writers:
                    out.append(("node", e, self.writers[i]))
                elif i in self.commenters:
                    out.append(("comment", e))
                elif i in self.spans:
                    out.append(("span", e))
                elif any(isinstance(x, Sym) and x.ty[0] == "adt" and x.ty[1].startswith(CST) and not i in self.tokfns for x in e[6]) and i in self.reach:
                    out.append(("?", e))
            elif e[0] == "loop":
                if self.loops[e[1]][2]:
                    out.append(("loop", e[1]))
            elif e[0] == "item":
                out.append(("item", e[1]))
        return out

    def wordy(self, x, end=0):
        if x[0] == "node":
            return edge(x[2][2], end)
        return x[0] in ("v", "span") or x[0] == "w" and (x[1][0].isalnum() or x[1][0] == "_")

    # ------------------------------------------------------------ matching
    def match(self, st, t, v, evs, spec=SPEC):
        """Does this path print a part of kind `t`? Raises Wrong."""
        out = [x for x in self.stream(st, evs)]
        prev = None
        for x in out:
            if x[0] == "comment" or x[0] == "ws" or x[0] == "item":
                prev = None
                continue
            if prev is not None and self.wordy(prev, -1) and self.wordy(x):
                raise Wrong("glued", "%s and %s are printed without a space between them" % (show(prev), show(x)))
            prev = x
        seq = [x for x in out if x[0] not in ("ws", "comment")]
        self.metas = []
        i = self.one(st, t, v, seq, 0, spec)
        if i < len(seq):
            raise Wrong("extra", "%s is printed beyond the %s" % (show(seq[i]), t))

    def one(self, st, t, v, seq, i, spec=SPEC):
        sp = SPEC[t]
        v = self.open(st, v)
        if isinstance(sp, dict):
            n = fe.variant(self.eng, st, v)
            if n is None:
                raise Wrong("kind", "what kind of %s it is is not looked at" % t)
            if n not in sp:
                raise Wrong("skip", n)
            sp = sp[n]
        for x in sp:
            i = self.item(st, t, v, x, seq, i)
        return i

    def item(self, st, t, v, x, seq, i):
        eng = self.eng
        cur = seq[i] if i < len(seq) else ("end",)
        if x[0] == "opt":
            o = self.part(st, v, x[1])
            n = fe.variant(eng, st, o)
            if n == "None":
                if cur[0] == "node" and self.nk(st, self.arg(cur)) == self.nk(st, o):
                    return i + 1
                return i
            if n != "Some":
                raise Wrong("opt", "whether the %s has a %s is not looked at" % (t, x[1]))
            inner = o.fields[0]
            if cur[0] == "node" and self.nk(st, self.arg(cur)) == self.nk(st, o) and len(x[2]) == 1 and x[2][0][0] == "node":
                self.meta_node(st, x[2][0][2], inner, cur)
                return i + 1
            for y in x[2]:
                i = self.item(st, t, inner, y, seq, i)
            return i
        p = self.part(st, v, x[1])
        what = "the %s of a %s" % (x[1], t) if isinstance(x[1], str) else "a part of a %s" % t
        if p is None:
            raise Wrong("gone", "%s cannot be found" % what)
        if x[0] == "lit":
            self.metas.append(("tok", self.token(st, self.part(st, p, "token_metadata"))))
            words = re.findall(r"\w+|[^\w\s]", x[2])
            for w in words:
                if i >= len(seq) or seq[i] != ("w", w):
                    raise Wrong("text:" + x[2], "%s is printed where %s has '%s'" % (show(seq[i]) if i < len(seq) else "nothing", "a " + t, x[2]))
                i += 1
            return i
        if x[0] in ("ident", "val"):
            self.metas.append(("tok", self.token(st, self.part(st, p, "token_metadata"))))
            want = self.part(st, p, "ident" if x[0] == "ident" else "value")
            if cur[0] != "v" or self.nk(st, cur[1]) != self.nk(st, want):
                if cur[0] == "span" and self.nk(st, cur[1][6][-1]) == self.nk(st, self.part(st, p, "span")):
                    return i + 1
                raise Wrong("value:%s" % (x[1],), "%s is printed instead of %s" % (show(cur), what))
            return i + 1
        if x[0] == "str":
            self.metas.append(("tok", self.token(st, self.part(st, p, "token_metadata"))))
            if cur[0] != "span" or self.nk(st, cur[1][6][-1]) != self.nk(st, self.part(st, p, "span")):
                raise Wrong("value:%s" % (x[1],), "%s is printed instead of the text of %s" % (show(cur), what))
            return i + 1
        if x[0] == "sign":
            self.metas.append(("tok", self.token(st, self.part(st, self.part(st, p, "token"), "token_metadata"))))
            b = self.part(st, p, "is_negative")
            yes, no = eng.branch(st, b) if isinstance(b, C) else ([1], [1])
            if yes and no:
                raise Wrong("sign", "the sign of a number is not looked at")
            if cur != ("w", "-" if yes else "+"):
                raise Wrong("sign", "%s is printed for the sign '%s'" % (show(cur), "-" if yes else "+"))
            return i + 1
        if x[0] == "node":
            return self.sub(st, x[2], p, seq, i)
        if x[0] == "list":
            return self.list(st, t, p, x, seq, i)
        raise AssertionError(x)

    def sub(self, st, t, p, seq, i):
        """A part, printed by a function of its own or here."""
        cur = seq[i] if i < len(seq) else ("end",)
        if cur[0] == "node" and cur[2][2] == t and self.nk(st, self.arg(cur)) == self.nk(st, p):
            self.meta_node(st, t, p, cur)
            return i + 1
        return self.one(st, t, p, seq, i)

    def arg(self, cur):
        return cur[1][6][cur[2][1]]

    def meta_node(self, st, t, v, cur):
        if not self.comments_itself(cur[2][0]):
            self.metas.append(("tokens", t, v))

    def comments_itself(self, f):
        """Does this function print the comments of its tokens?"""
        k = self.silent.get(f.id)
        if k is None:
            self.silent[f.id] = False
            seen, todo = set(), [f]
            while todo:
                g = todo.pop()
                if g.id in seen:
                    continue
                seen.add(g.id)
                if g.id in self.commenters:
                    self.silent[f.id] = True
                    break
                if g.body:
                    todo += [h for h in fe.local_callees(self.c, g) if h.id in self.reach]
            k = self.silent[f.id]
        return k

    def list(self, st, t, vec, x, seq, i):
        eng = self.eng
        what = "the %s of a %s" % (x[1], t)
        reg = self.region(st, vec)
        # elements handled before the loop
        early = 0
        while i < len(seq) and seq[i][0] == "item" and self.holder(st, seq[i][1]) == reg:
            i = self.sub(st, x[2], seq[i][1], seq, i + 1)
            early += 1
        if i < len(seq) and seq[i][0] == "loop":
            self.loop(st, t, vec, x, seq[i][1], reg, early)
            return i + 1
        n = models.as_slice_len(eng, st, vec)
        if eng.entails_eq(st, n - early):
            return i
        raise Wrong("list:%s" % x[1], "%s are not printed: %s comes instead" % (what, show(seq[i]) if i < len(seq) else "nothing"))

    def loop(self, st, t, vec, x, u, reg, early):
        eng = self.eng
        fn, before, its, hs = self.loops[u]
        what = "the %s of a %s" % (x[1], t)
        outer, found = self.metas, []
        its = [(b, k) for b, k in its]
        if not its:
            if eng.entails_eq(before, models.as_slice_len(eng, before, vec) - early):
                return
            raise Wrong("list:%s" % x[1], "%s: no element is printed" % what)
        commented, tokens = True, None
        for b, k in its:
            evs = b.ev[k:]
            items = [e for e in evs if e[0] == "item"]
            if not items or self.holder(b, self.element(b, items[0][1])) != reg:
                raise Wrong("list:%s" % x[1], "%s: a loop that is to print them takes elements from somewhere else" % what)
            item = self.element(b, items[0][1])
            if self.backwards(b, item):
                raise Wrong("order:%s" % x[1], "%s are printed last first" % what)
            for s in self.deep(b, item, x[2]):
                out = self.stream(s, evs)
                seq = [y for y in out if y[0] not in ("ws", "comment")]
                self.glue([("ws", " ") if y[0] == "v" and x[3] and self.varying(before, hs, its, y[1], x[3]) else y for y in out])
                seq = seq[1:] if seq and seq[0][0] == "item" else [y for y in seq if not (y[0] == "item")]
                comma = False
                if x[3] and seq and seq[0][0] == "v" and self.varying(before, hs, its, seq[0][1], x[3]) and not early:
                    comma, seq = None, seq[1:]
                elif x[3] and seq and seq[0] == ("w", x[3]):
                    comma, seq = True, seq[1:]
                elif x[3] and seq and seq[-1] == ("w", x[3]):
                    comma, seq = True, seq[:-1]
                self.metas = []
                try:
                    j = self.sub(s, x[2], item, seq, 0)
                except Wrong as w:
                    if w.key == "skip":
                        continue
                    raise
                if j < len(seq):
                    raise Wrong("extra", "%s is printed beyond a %s" % (show(seq[j]), x[2]))
                found.append((b, comma, items[0][1]))
                acts = self.actual(s, evs)
                if acts or any(e[0] == "call" and (e[1].get("rid") or e[1].get("id")) in self.commenters for e in evs):
                    self.compare(s, self.metas, acts, x[2])
                    self.pending(s, evs, x[2])
                elif self.metas:
                    commented = False
        if x[3]:
            self.separators(before, hs, found, what, x[3], early)
        self.metas = outer
        if not commented:
            self.metas.append(("each", vec, x[2]))

    def element(self, st, x):
        """The element of a list in what an iterator gives (with or without its position)."""
        x = self.eng.expand(st, x)
        if isinstance(x, Tup) and len(x.fields) == 2 and isinstance(self.eng.expand(st, x.fields[0]), L):
            return x.fields[1]
        return x

    def backwards(self, st, item):
        ref = self.eng.expand(st, item)
        at = ref.cell[3] if isinstance(ref, Ref) and isinstance(ref.cell, tuple) and ref.cell[1:2] == ("elem",) else None
        return at is not None and (at[0] if isinstance(at, tuple) else getattr(at, "c", 0)) < 0

    def varying(self, before, hs, its, v, sep):
        """A separator kept in a variable: nothing at first, then the separator."""
        eng = self.eng

        def text(st, x):
            p = self.plain(st, x)
            return p[0] if len(p) == 1 and isinstance(p[0], str) else None
        for cell, x in hs.cells.items():
            if cell in before.cells and kv(eng.expand(hs, x)) == kv(v):
                return text(before, before.cells[cell]) == "" and all((text(b, b.cells.get(cell)) or "").strip() == sep for b, k in its)
        return False

    def glue(self, out):
        prev = None
        for y in out:
            if y[0] in ("comment", "ws", "item"):
                prev = None
                continue
            if prev is not None and self.wordy(prev, -1) and self.wordy(y):
                raise Wrong("glued", "%s and %s are printed without a space between them" % (show(prev), show(y)))
            prev = y

    def separators(self, before, hs, found, what, sep, early):
        """The first element has no separator before it, all others have one."""
        eng = self.eng
        if all(c is None for _, c, _ in found):
            return
        if not any(c for _, c, _ in found):
            raise Wrong("separator", "%s are printed without '%s' between them" % (what, sep))
        if early:
            if not all(c for _, c, _ in found):
                raise Wrong("separator", "%s: an element may be printed without '%s' before it" % (what, sep))
            return
        if all(c for _, c, _ in found):
            raise Wrong("separator", "%s: '%s' is printed with every element" % (what, sep))
        for b, c, item in found:
            it = eng.expand(b, item)
            if isinstance(it, Tup) and len(it.fields) == 2 and isinstance(eng.expand(b, it.fields[0]), L):
                i = eng.expand(b, it.fields[0])
                first, later = eng.branch(b, C("eq", i))
                if first and c or later and not c:
                    raise Wrong("separator", "%s: '%s' is not printed between all elements" % (what, sep))
        # the flag that tells the first element apart
        flags = []
        for cell, x in hs.cells.items():
            if isinstance(x, C) and x.op != "const" and cell in before.cells:
                a = eng.expand(before, before.cells[cell])
                if isinstance(a, C) and a.op == "const":
                    ends = [eng.expand(b, b.cells[cell]) if cell in b.cells else None for b, _, _ in found]
                    flags.append((x, a.a, ends))
        for x, first, ends in flags:
            later = {e.a for e in ends if isinstance(e, C) and e.op == "const"}
            if any(not (isinstance(e, C) and e.op == "const") for e in ends):
                continue
            told = all(len({bool(eng.branch(b, x)[0]), bool(eng.branch(b, x)[1])}) == 2 for b, _, _ in found)
            if not told:
                continue
            for b, c, _ in found:
                val = bool(eng.branch(b, x)[0])
                if val == first and c:
                    raise Wrong("separator", "%s: '%s' is printed before the first element" % (what, sep))
                if val in later and not c:
                    raise Wrong("separator", "%s: an element after the first is printed without '%s'" % (what, sep))

    # ------------------------------------------------------------ comments
    def atoms(self, st, v, depth=0):
        """The tokens an iterator over token metadata goes through."""
        eng = self.eng
        if depth > 12:
            return [("?", v)]
        w = eng.expand(st, v)
        if isinstance(w, It):
            if w.kind == "chain":
                return self.atoms(st, w.f["inner"], depth + 1) + self.atoms(st, w.f["f"], depth + 1)
            if w.kind == "once":
                return self.atoms(st, w.f["v"], depth + 1)
            if w.kind == "arr":
                return self.atoms(st, w.f["v"], depth + 1)
            if w.kind in ("flat", "map"):
                inner = eng.expand(st, w.f["inner"])
                src = self.source(st, inner)
                if src is None:
                    return [("?", v)]
                if src[0] == "opt":
                    n = fe.variant(eng, st, src[1])
                    if n == "None":
                        return []
                    if n != "Some":
                        return [("?", v)]
                    return self.called(st, w.f["f"], self.refto(st, src[1]), depth)
                # each element of a list
                s = st.fork()
                item = models.elem_ref(eng, s, src[1], eng.A.fresh("i", 0))
                return [("each", kv(eng.rsize.get(src[1].region)), item, s, w.f["f"])]
            if w.kind in ("iter", "copied"):
                src = self.source(st, w)
                return [("each", kv(eng.rsize.get(src[1].region)), None, st, None)] if src else [("?", v)]
        if isinstance(w, It) and w.kind == "vec":
            return self.gathered(st, depth)
        if isinstance(w, Arr):
            es = eng.elems(st, w)
            return sum((self.atoms(st, x, depth + 1) for x in es), []) if es is not None else [("?", v)]
        if isinstance(w, Adt) and w.path == OPT:
            return self.atoms(st, w.fields[0], depth + 1) if w.vn == "Some" else []
        for e in st.ev:
            if e[0] == "call" and (e[1].get("rid") in self.tokfns or e[1].get("id") in self.tokfns) and kv(eng.expand(st, e[3])) == kv(w):
                t = strip(self.ct_types[e[1].get("rid") or e[1].get("id")])
                return [("tokens", self.nk(st, e[6][0]), self.open(st, e[6][0]), t[1][len(CST):])]
            if e[0] == "call" and kv(eng.expand(st, e[3])) == kv(w) and fe.name(e).startswith("core::option::Option") and fe.name(e).rsplit("::", 1)[-1] in ("iter", "into_iter"):
                o = eng.peek(st, e[6][0])
                n = fe.variant(eng, st, o)
                return [] if n == "None" else self.atoms(st, eng.expand(st, o).fields[0], depth + 1) if n == "Some" else [("?", v)]
        p = eng.peek(st, w)
        if isinstance(p, (Sym, Adt)) and (p.ty[:2] if isinstance(p, Sym) else ("adt", p.path)) == ("adt", LEX + "full_lexer::TokenMetadata"):
            return [("tok", self.token(st, p))]
        return [("?", v)]

    def gathered(self, st, depth):
        """The tokens put into a list one after the other."""
        out, at = [], set()
        for e in st.ev:
            if e[0] == "put":
                out.extend(self.atoms(st, e[1], depth + 1))
            elif e[0] == "push":
                at.add(e[1])
                out.extend(self.atoms(st, e[2], depth + 1))
            elif e[0] == "extend":
                at.add(e[1])
                out.extend(self.atoms(st, e[2], depth + 1))
        return out if len(at) <= 1 else [("?", None)]

    def refto(self, st, o):
        """A reference to the payload of an Option (as its iterator yields)."""
        return self.eng.expand(st, o).fields[0]

    def called(self, st, f, x, depth):
        eng = self.eng
        s = st.fork()
        if not isinstance(eng.expand(s, x), Ref):
            eng.nsym += 1
            cell = ("h", "arg", eng.nsym)
            s.cells[cell] = x
            x = Ref(cell)
        rs = eng.call_value(None, s, f, [x], ("?", 0), ("other", "?"))
        out = None
        for s2, r in rs:
            a = self.atoms(s2, r, depth + 1)
            if out is not None and out != a:
                return [("?", f)]
            out = a
        return out if out is not None else [("?", f)]

    def source(self, st, it):
        """("opt", option) or ("list", slice) an iterator runs over."""
        eng = self.eng
        it = eng.expand(st, it)
        if isinstance(it, It) and it.kind in ("iter", "copied"):
            if it.kind == "copied":
                return self.source(st, it.f["inner"])
            return ("list", it.f["sl"]) if eng.entails_eq(st, it.f["i"]) else None
        if isinstance(it, Ref) or isinstance(it, (Sym, Adt)) and not isinstance(it, It):
            p = eng.peek(st, it)
            if isinstance(p, Adt) and p.path == OPT or isinstance(p, Sym) and p.ty[:2] == ("adt", OPT):
                return ("opt", p)
        for e in st.ev:
            if e[0] == "call" and kv(eng.expand(st, e[3])) == kv(it) and fe.name(e).startswith("core::option::Option") and fe.name(e).rsplit("::", 1)[-1] in ("iter", "into_iter"):
                return ("opt", eng.peek(st, e[6][0]))
        return None

    def actual(self, st, evs):
        """The tokens whose comments these events print."""
        out = []
        for e in evs:
            if e[0] == "call" and (e[1].get("rid") or e[1].get("id")) in self.commenters:
                f = self.commenters[e[1].get("rid") or e[1].get("id")]
                for k, p in enumerate(params(self.c, f)):
                    if strip(p)[:2] == ("adt", LEX + "full_lexer::TokenMetadata") or p[0] == "param" or p[0] == "adt" and has(p, LEX + "full_lexer::TokenMetadata"):
                        out += self.atoms(st, e[2][k] if p[0] != "ref" else e[6][k])
        return out

    def compare(self, st, want, got, t):
        want, got = list(want), list(got)
        while want:
            w = want.pop(0)
            if w[0] in ("tok", "tokens") and got and got[0][0] == "tokens":
                if w[0] == "tokens" and self.nk(st, got[0][2]) in self.same(st, self.open(st, w[2])):
                    got.pop(0)
                    continue
                ss = self.split(st, got[0][2], got[0][3], TOKENS)
                if len(ss) > 1:
                    for s in ss:
                        self.compare(s, [w] + want, got, t)
                    return
                got = self.tokens(st, got[0][3], got[0][2]) + got[1:]
                got = [self.made(st, x) for x in got]
            if w[0] == "tok":
                if got and got[0] == w:
                    got.pop(0)
                    continue
                raise Wrong("comment", "the comments of a token of a %s are not printed (or not in its place)" % t)
            if w[0] == "tokens":
                v = self.open(st, w[2])
                ss = self.split(st, v, w[1], TOKENS)
                if len(ss) > 1:
                    for s in ss:
                        self.compare(s, [w] + want, got, t)
                    return
                want = self.tokens(st, w[1], v) + want
            elif w[0] == "each":
                reg = self.region(st, w[1])
                if got and len(got[0]) == 3 and got[0][0] == "each" and self.region(st, got[0][1]) == reg:
                    got.pop(0)
                    continue
                if got and got[0][0] == "steps" and got[0][1] == reg:
                    for s, item, have in got.pop(0)[2]:
                        for s2 in self.split(s, item, w[2], TOKENS):
                            self.compare(s2, self.tokens(s2, w[2], item), have, w[2])
                    continue
                if got and got[0][0] == "each" and got[0][1] == reg:
                    g = got.pop(0)
                    _, _, item, s, f = g
                    if f is None:
                        raise Wrong("comment", "the comments of a %s are not printed" % w[2])
                    for s2 in self.split(s, item, w[2], TOKENS):
                        self.compare(s2, self.tokens(s2, w[2], item), self.called(s2, f, item, 0), w[2])
                    continue
                raise Wrong("comment", "the comments of the parts of a %s are not printed" % t)
        if got:
            raise Wrong("comment", "comments are printed that are not those of a token of a %s" % t)

    def same(self, st, v):
        k = self.lk.get(st, v, "kind")
        return {self.nk(st, v)} | ({self.nk(st, k)} if k is not None else set())

    def made(self, st, x):
        """A token wanted, as one printed."""
        return ("tokens", self.nk(st, x[2]), x[2], x[1]) if x[0] == "tokens" and isinstance(x[1], str) else x

    def tokens(self, st, t, v):
        """The tokens of a part in order."""
        sp = TOKENS[t]
        v = self.open(st, v)
        if isinstance(sp, dict):
            n = fe.variant(self.eng, st, v)
            if n not in sp:
                raise Wrong("comment", "the comments of a %s are not printed" % t)
            sp = sp[n]
        out = []

        def go(v, xs):
            for x in xs:
                if x[0] == "opt":
                    o = self.part(st, v, x[1])
                    n = fe.variant(self.eng, st, o)
                    if n == "Some":
                        go(o.fields[0], x[2])
                    elif n != "None":
                        raise Wrong("comment", "whether a %s has a %s is not looked at" % (t, x[1]))
                    continue
                p = self.part(st, v, x[1])
                if x[0] == "node":
                    out.append(("tokens", x[2], p))
                elif x[0] == "list":
                    out.append(("each", p, x[2]))
                elif x[0] == "sign":
                    out.append(("tok", self.token(st, self.part(st, self.part(st, p, "token"), "token_metadata"))))
                else:
                    out.append(("tok", self.token(st, self.part(st, p, "token_metadata"))))
        go(v, sp)
        return out

    def pending(self, st, evs, t):
        """Comments that follow a token on its line are printed after the line."""
        eng = self.eng
        calls = [e for e in evs if e[0] == "call" and (e[1].get("rid") or e[1].get("id")) in self.commenters]
        for k, e in enumerate(calls):
            f = self.commenters[e[1].get("rid") or e[1].get("id")]
            owed = []
            r = eng.expand(st, e[3])
            if isinstance(r, Adt) and r.vn == "Ok":
                r = eng.expand(st, r.fields[0])
                if isinstance(r, (Sym, Adt)) and (r.ty if isinstance(r, Sym) else ("adt", r.path))[:2] == ("adt", OPT):
                    owed.append(r)
            for j, p in enumerate(params(self.c, f)):
                if strip(p)[:2] == ("adt", LEX + "full_lexer::TokenMetadata") and p[0] == "ref" and not self.whole(f, j, st, e):
                    owed.append(self.lk.get(st, e[6][j], "post_comment"))
            for o in owed:
                o = eng.peek(st, o)
                n = fe.variant(eng, st, o)
                if n == "None":
                    continue
                keys = {self.nk(st, o)}
                if n == "Some":
                    keys.add(self.nk(st, eng.expand(st, o).fields[0]))
                if not any(self.nk(st, x) in keys or isinstance(eng.expand(st, x), Adt) and eng.expand(st, x).vn == "Some" and self.nk(st, eng.expand(st, x).fields[0]) in keys for c2 in calls[k + 1:] for x in c2[6]):
                    raise Wrong("trailing", "the comment that follows the last token of a %s on its line is not printed" % t)

    def whole(self, f, j, st, e):
        """Does this call print the comment after the token, too?"""
        eng = self.eng
        s = self.posts.get((f.id, j))
        if s is None:
            s = self.posts[(f.id, j)] = []
            cur = self.current
            for s2, v, args in self.run(f):
                post = self.lk.get(s2, args[j], "post_comment")
                n = fe.variant(eng, s2, post)
                done = n == "None" or n == "Some" and self.printed(s2, s2.ev, eng.expand(s2, post).fields[0])
                s.append((s2, args, done))
            self.current = cur
            eng._op = {}
        for s2, args, done in s:
            fits = True
            for a, x in zip(args, e[6]):
                if isinstance(a, C) and isinstance(x, C) and x.op == "const":
                    y, n = eng.branch(s2, a)
                    fits &= bool(y if x.a else n)
            if fits and not done:
                return False
        return True

    def printed(self, st, evs, comment):
        """Do these events print this comment (themselves or by handing it on)?"""
        eng = self.eng
        want = self.nk(st, comment)
        for e in evs:
            if e[0] == "call" and (e[1].get("rid") or e[1].get("id")) in self.commenters:
                for x in e[6]:
                    y = eng.peek(st, x)
                    if self.nk(st, y) == want or isinstance(y, Adt) and y.path == OPT and y.vn == "Some" and self.nk(st, y.fields[0]) == want:
                        return True
        return self.spelled(st, evs, comment)

    def spelled(self, st, evs, comment):
        """Marker, content and line end of a comment, next to each other."""
        eng = self.eng
        ps = []
        for e in evs:
            if e[0] == "text":
                ps += self.pieces(st, e)
            elif e[0] == "call":
                ps.append(("?", e))
        if not isinstance(eng.peek(st, comment), (Sym, Adt)) or self.lk.get(st, comment, "content") is None:
            return False
        content = self.nk(st, self.lk.get(st, comment, "content"))
        mark = MARK.get(self.lk.vn(st, self.lk.get(st, comment, "kind")))
        for k, p in enumerate(ps):
            if not isinstance(p, str) and p[0] == "v" and self.nk(st, p[1]) == content:
                before = ""
                j = k - 1
                while j >= 0 and isinstance(ps[j], str):
                    before = ps[j] + before
                    j -= 1
                after = "".join(x for x in ps[k + 1:k + 2] if isinstance(x, str))
                if mark and re.search(r"(^|\s)" + re.escape(mark) + "$", before) and after.startswith("\n"):
                    return True
        return False

    # ------------------------------------------------------------ obligations
    def trial(self, f, i, t):
        """(paths, kinds of parts printed, what is wrong) of a function that prints a part."""
        eng = self.eng
        kinds, fails, n = {}, [], 0
        own = self.comments_itself(f)
        opt = params(self.c, f)[i]
        opt = opt[1] if opt[0] == "ref" else opt
        is_opt = opt[0] == "adt" and opt[1] == OPT
        for st, v, args in self.run(f):
            node = args[i]
            if is_opt:
                o = eng.peek(st, node)
                k = fe.variant(eng, st, o)
                if k == "None":
                    n += 1
                    out = [x for x in self.stream(st, st.ev) if x[0] != "ws"]
                    if out:
                        fails.append(("extra", "%s is printed for a missing %s" % (show(out[0]), t)))
                    continue
                if k != "Some":
                    fails.append(("kind", "whether there is a %s is not looked at" % t))
                    continue
                node = eng.expand(st, o).fields[0]
            for s in self.deep(st, node, t):
                n += 1
                try:
                    self.match(s, t, node, s.ev)
                    name = self.kind_name(s, t, node)
                    if own:
                        self.compare(s, self.metas, self.actual(s, s.ev), t)
                        self.pending(s, s.ev, t)
                    kinds[name] = kinds.get(name, 0) + 1
                except Wrong as w:
                    if w.key != "skip":
                        fails.append((w.key, w.msg))
        return n, kinds, fails

    def nodes(self):
        rep, kinds = self.rep, {}
        for f, i, t in sorted(self.writers.values(), key=lambda x: x[0].path):
            n, ks, fails = self.results[f.id]
            for k, c in ks.items():
                kinds[k] = kinds.get(k, 0) + c
                for _ in range(c):
                    rep.ob(True, "printed:%s" % k, "", "%s: a %s is printed in full" % (f.path, k))
            for key, msg in fails:
                rep.fail("%s:%s" % (key, t), "%s (%s): %s%s" % (f.path, f.loc, msg, "; first seen: " + self.why[0] if self.why else ""))
            rep.floor("paths of " + f.path.rsplit("::", 1)[-1], n, 1)
        rep.floor("functions that print parts of a schema", len(self.writers), 1)
        rep.floor("kinds of parts printed", len(kinds), 10)
        rep.cov["paths matched against the grammar"] = sum(kinds.values())

    def kind_name(self, st, t, v):
        v = self.open(st, v)
        k = v if isinstance(SPEC[t], dict) else self.lk.get(st, v, "kind")
        n = self.lk.vn(st, k) if k is not None else None
        return "%s (%s)" % (t, n) if n else t

    def deep(self, st, v, t):
        """Known optional parts, through the kinds of a node."""
        out = []
        for s in self.split(st, v, t):
            w = self.open(s, v)
            sp = SPEC[t]
            if isinstance(sp, dict):
                n = fe.variant(self.eng, s, w)
                sp = sp.get(n) if n else None
            subs = [x for x in sp or () if x[0] == "node" and len(sp) == 1]
            if subs:
                p = self.part(s, w, subs[0][1])
                if p is not None:
                    out += self.deep(s, p, subs[0][2])
                    continue
            out.append(s)
        return out

    def comments(self):
        rep, eng, c = self.rep, self.eng, self.c
        n = 0
        for f in sorted(self.commenters.values(), key=lambda f: f.path):
            ps = params(c, f)
            runs = self.run(f)
            for j, p in enumerate(ps):
                t = strip(p)
                if p[0] == "param":
                    self.carried(f, runs)
                    n += 1
                elif t[:2] == ("adt", LEX + "full_lexer::Comment"):
                    n += 1
                    for st, v, args in runs:
                        x = eng.peek(st, args[j])
                        if isinstance(x, (Sym, Adt)) and (x.ty if isinstance(x, Sym) else ("adt", x.path))[:2] == ("adt", OPT):
                            k = fe.variant(eng, st, x)
                            if k == "None":
                                continue
                            if k != "Some" and self.printed(st, st.ev, x):
                                continue
                            if k != "Some":
                                rep.fail("comment:option", "%s (%s) does not look at the comment it is given" % (f.path, f.loc))
                                continue
                            x = eng.peek(st, eng.expand(st, x).fields[0])
                        rep.ob(self.printed(st, st.ev, x), "comment:lost", "%s (%s): on a path the comment is not printed with its marker and a line end" % (f.path, f.loc), "a comment is printed")
                elif t[:2] == ("adt", LEX + "full_lexer::CommentBlock"):
                    n += 1
                    for st, v, args in runs:
                        self.each(f, st, st.ev, eng.proj_first(st, args[j]) if hasattr(eng, "proj_first") else self.part(st, args[j], 0) or self.lk.get(st, args[j], "0"), "comment")
                elif t[:2] == ("adt", LEX + "full_lexer::TokenMetadata"):
                    n += 1
                    for st, v, args in runs:
                        self.each(f, st, st.ev, self.lk.get(st, args[j], "pre_comment_blocks"), "block")
        rep.floor("functions that print comments", n, 3)

    def each(self, f, st, evs, vec, what):
        """Each element of a list of comments is printed."""
        rep, eng = self.rep, self.eng
        reg = self.region(st, vec)
        loops = [e[1] for e in evs if e[0] == "loop"]
        ok = False
        for u in loops:
            fn, before, its, hs = self.loops[u]
            mine = [(b, k) for b, k in its if any(e[0] == "item" and self.holder(b, e[1]) == reg for e in b.ev[k:])]
            if not mine:
                continue
            ok = True
            for b, k in its:
                items = [e[1] for e in b.ev[k:] if e[0] == "item"]
                if not items or self.backwards(b, items[0]) or not self.handed(b, b.ev[k:], items[0]):
                    ok = False
            # left before its end
            at = evs.index(("loop", u))
            if any(e[0] == "item" and self.holder(st, e[1]) == reg for e in evs[at:]):
                ok = False
        if not loops and eng.entails_eq(st, models.as_slice_len(eng, st, vec)):
            ok = True
        rep.ob(ok, "comment:each", "%s (%s): not every %s of comments is printed" % (f.path, f.loc, what), "each %s of comments is printed" % what)

    def handed(self, st, evs, item):
        """An element is printed: handed to another such function, or spelled out, or looped over."""
        eng = self.eng
        want = self.nk(st, item)
        for e in evs:
            if e[0] == "call" and (e[1].get("rid") or e[1].get("id")) in self.commenters and any(self.nk(st, x) == want for x in e[6]):
                return True
        x = eng.peek(st, item)
        t = x.ty[1] if isinstance(x, Sym) and x.ty[0] == "adt" else getattr(x, "path", "")
        if t == LEX + "full_lexer::Comment":
            return self.spelled(st, evs, x)
        if t == LEX + "full_lexer::CommentBlock":
            reg = self.region(st, self.part(st, x, 0) or self.lk.get(st, x, "0"))
            for e in evs:
                if e[0] == "loop":
                    its = self.loops[e[1]][2]
                    if its and all(any(y[0] == "item" and self.holder(b, y[1]) == reg and self.handed(b, b.ev[k:], y[1]) for y in b.ev[k:]) for b, k in its):
                        return True
        return False

    def carried(self, f, runs):
        """Nothing taken from an iterator is lost: it is printed, or kept for the next step; what is kept at the end is printed."""
        rep, eng = self.rep, self.eng
        is_tok = lambda x: (x.ty if isinstance(x, Sym) else ("adt", getattr(x, "path", "")))[:2] == ("adt", LEX + "full_lexer::TokenMetadata")

        def tokens(st, evs):
            return {self.nk(st, e[1]) for e in evs if e[0] == "item" and is_tok(eng.peek(st, e[1]))}

        def kept(st):
            out = set()
            for cell, x in st.cells.items():
                x = eng.expand(st, x)
                if isinstance(x, Ref) and isinstance(cell, tuple) and isinstance(cell[1], int):
                    p = eng.peek(st, x)
                    if is_tok(p):
                        out.add(self.nk(st, p))
            return out

        def given(st, evs):
            out = {}
            for e in evs:
                if e[0] == "call" and (e[1].get("rid") or e[1].get("id")) in self.commenters:
                    g = self.commenters[e[1].get("rid") or e[1].get("id")]
                    for j, x in enumerate(e[6]):
                        if is_tok(eng.peek(st, x)):
                            out[self.nk(st, x)] = (self.whole(g, j, st, e), x)
            return out
        seen = 0
        for st, v, args in runs:
            marks = [k for k, e in enumerate(st.ev) if e[0] == "loop"]
            heads = [self.loops[st.ev[k][1]] for k in marks]
            carried = set()
            for fn, before, its, hs in heads:
                cellnames = [cell for cell, x in hs.cells.items() if isinstance(cell, tuple) and isinstance(cell[1], int) and isinstance(eng.expand(hs, x), Ref) and is_tok(eng.peek(hs, x))]
                changed = [cell for cell in cellnames if any(cell in b.cells and self.nk(b, b.cells[cell]) != self.nk(b, hs.cells[cell]) for b, k in its)]
                for b, k in its:
                    seen += 1
                    evs = b.ev[k:]
                    g = given(b, evs)
                    live = {self.nk(b, b.cells[cell]) for cell in cellnames if cell in b.cells}
                    for x in tokens(b, evs) | {self.nk(b, hs.cells[cell]) for cell in changed}:
                        ok = x in live and x not in g or x in g and g[x][0]
                        rep.ob(ok, "comment:dropped", "%s (%s): the comments of a token are lost between two steps" % (f.path, f.loc), "no token is passed over")
                carried |= {self.nk(st, hs.cells[cell]) for cell in changed}
            g = given(st, st.ev)
            todo = carried if marks else tokens(st, st.ev)
            if marks and not carried:
                todo = tokens(st, st.ev[:marks[0]])
            for x in todo:
                seen += 1
                ok = x in g
                if ok and not g[x][0]:
                    post = eng.peek(st, self.lk.get(st, g[x][1], "post_comment"))
                    r = eng.expand(st, v)
                    r = eng.peek(st, r.fields[0]) if isinstance(r, Adt) and r.vn == "Ok" and r.fields else None
                    n = fe.variant(eng, st, post)
                    ok = n == "None" or r is not None and self.nk(st, r) == self.nk(st, post) or n == "Some" and (self.printed(st, st.ev, eng.expand(st, post).fields[0]))
                rep.ob(ok, "comment:last", "%s (%s): the comments of the last token are not printed" % (f.path, f.loc), "the comments of the last token are printed")
        rep.floor("tokens followed through " + f.path.rsplit("::", 1)[-1], seen, 2)

    def tokens_of_parts(self):
        """The tokens that the parts of a schema name as theirs are all of them, in order."""
        rep, eng, n = self.rep, self.eng, 0
        for f in sorted((f for f in self.ct.fns if f.id in self.tokfns), key=lambda f: f.path):
            t = strip(self.ct_types[f.id])[1][len(CST):]
            for st, v, args in self.run(f):
                for s in self.split(st, args[0], t, TOKENS):
                    w = eng.expand(s, v)
                    if isinstance(w, Adt) and w.path.startswith(CST):
                        held = self.begun(s)
                        ok = len(held) == 1 and held[0] is not None and held[0][:2] == ("tokens", self.nk(s, args[0]))
                        rep.ob(ok, "tokens:%s" % t, "%s (%s) does not begin with the %s itself" % (f.path, f.loc, t), "the tokens of a %s are looked for in it" % t)
                        n += 1
                        continue
                    n += 1
                    self.tried(f, t, lambda: self.compare(s, self.tokens(s, t, args[0]), self.atoms(s, v), t))
        for f in sorted((f for f in self.ct.fns if f.body and f.kind != "closure" and f.path.startswith(("<cst::", "<" + CST)) and f.path.endswith("Iterator>::next")), key=lambda f: f.path):
            if not has(self.ct.ty(f.body["locals"][0]), LEX + "full_lexer::TokenMetadata"):
                continue
            for st, v, args in self.run(f):
                pops = [e for e in st.ev if e[0] == "call" and fe.name(e).endswith("::pop")]
                r = eng.expand(st, v)
                if len(pops) != 1:
                    rep.fail("tokens:pop", "%s (%s): a step does not take one part off its list of parts" % (f.path, f.loc))
                    continue
                got = eng.expand(st, pops[0][3])
                if fe.variant(eng, st, got) == "None":
                    rep.ob(fe.variant(eng, st, r) == "None", "tokens:end", "%s (%s): gives a token when there is none left" % (f.path, f.loc), "the tokens end")
                    continue
                n += 1
                if fe.variant(eng, st, r) != "Some":
                    rep.fail("tokens:lost", "%s (%s): a token is passed over" % (f.path, f.loc))
                    continue
                node = eng.expand(st, eng.expand(st, got).fields[0])
                what = self.place_of(st, node)
                if what is None:
                    rep.fail("tokens:node", "%s (%s): what is taken off the list of parts is not a part" % (f.path, f.loc))
                    continue
                want = [what] if what[0] == "tok" else self.tokens(st, what[3], what[2])
                self.tried(f, what[3] if what[0] == "tokens" else "token", lambda: self.compare(st, want, self.stacked(st, r), what[3] if what[0] == "tokens" else "token"))
        rep.floor("ways through the functions that name tokens", n, 8)

    def begun(self, st):
        """What a new list of parts holds."""
        eng, out = self.eng, []

        def dig(v, d=0):
            v = eng.expand(st, v)
            if isinstance(v, Arr):
                out.extend(self.place_of(st, x) for x in v.elems)
            elif isinstance(v, It) and v.kind == "box" and d < 6:
                dig(st.cells[v.f["cell"]], d + 1)
            elif isinstance(v, (Adt, Tup)) and d < 6:
                for x in v.fields:
                    dig(x, d + 1)
        for e in st.ev:
            if e[0] == "push":
                out.append(self.place_of(st, e[2]))
            elif e[0] == "put":
                dig(e[1])
        return out

    def tried(self, f, t, go):
        try:
            go()
            self.rep.ob(True, "tokens:" + t, "", "the tokens of a %s are all named" % t)
        except Wrong as w:
            self.rep.fail("tokens:" + t, "%s (%s): %s" % (f.path, f.loc, w.msg))

    def place_of(self, st, node):
        """A part on the list of an iterator: a token or something that has tokens."""
        eng = self.eng
        node = eng.expand(st, node)
        x = node.fields[0] if isinstance(node, Adt) and len(node.fields) == 1 else node
        p = self.open(st, x)
        t = p.ty[1] if isinstance(p, Sym) and p.ty[0] == "adt" else getattr(p, "path", "")
        if t == LEX + "full_lexer::TokenMetadata":
            return ("tok", self.token(st, p))
        if t.startswith(CST) and t[len(CST):] in SPEC:
            return ("tokens", self.nk(st, p), p, t[len(CST):])
        return None

    def stacked(self, st, r):
        """What an iterator that keeps a stack will give: its result, then what it put there, last first."""
        eng = self.eng
        first = [self.place_of(st, eng.expand(st, r).fields[0])]
        seq = []
        for e in st.ev:
            if e[0] == "push":
                seq = [self.place_of(st, e[2])] + seq
            elif e[0] == "loop":
                fn, before, its, hs = self.loops[e[1]]
                steps, held, reg = [], None, None
                for b, k in its:
                    items = [x for x in b.ev[k:] if x[0] == "item"]
                    if len(items) != 1:
                        return [("?", e)]
                    ref = eng.expand(b, self.element(b, items[0][1]))
                    reg = self.holder(b, ref)
                    back = self.backwards(b, ref)
                    if not back:
                        return [("?", e)]
                    puts = [self.place_of(b, x[2]) for x in b.ev[k:] if x[0] == "push"]
                    for cell, x in hs.cells.items():
                        if cell in before.cells and cell in b.cells and isinstance(cell, tuple) and isinstance(cell[1], int):
                            a, z = self.place_of(hs, x), self.place_of(b, b.cells[cell])
                            if a and z and a[0] == "tok" and a != z and puts and puts[0] == a:
                                held = (cell, a)
                                puts = puts[1:] + [z]
                                break
                    steps.append((b, items[0][1], list(reversed(puts))))
                seq = [("steps", reg, steps)] + ([self.place_of(before, before.cells[held[0]])] if held else []) + seq
                if held and first == [held[1]]:
                    first = []
        return first + seq

    def text_of_spans(self):
        """Text that is copied from the source is that between the ends of the span."""
        rep, eng = self.rep, self.eng
        for f in sorted(self.spans.values(), key=lambda f: f.path):
            for st, v, args in self.run(f):
                span = [a for a, p in zip(args, params(self.c, f)) if p[0] == "adt" and p[1].startswith("codespan::")][0]
                texts = [p for e in st.ev if e[0] == "text" for p in self.pieces(st, e)]
                ok = len(texts) == 1 and texts[0][0] == "v" and isinstance(texts[0][1], Sl)
                if ok:
                    sl = texts[0][1]
                    ok = not (isinstance(sl.region, tuple) and sl.region[0] == "str")
                    ok = ok and self.derived(st, sl.start, span) == "start" and self.derived(st, sl.start + sl.n, span) == "end"
                rep.ob(ok, "span:text", "%s (%s): what is printed for a piece of the source is not the text from its start to its end" % (f.path, f.loc), "the text of a span is printed")
        rep.floor("functions that copy from the source", len(self.spans), 1)

    def derived(self, st, v, span, depth=0):
        """Is this number the start or the end of the span?"""
        if depth > 6:
            return None
        for e in st.ev:
            if e[0] == "call" and e[2] and kv(self.eng.expand(st, e[3])) == kv(self.eng.expand(st, v)):
                if fe.name(e) in ("codespan::span::Span::start", "codespan::span::Span::end") and kv(self.eng.peek(st, e[2][0])) == kv(self.eng.peek(st, span)):
                    return fe.name(e).rsplit("::", 1)[1]
                if len(e[2]) == 1:
                    return self.derived(st, e[2][0], span, depth + 1)
        return None

    def all(self):
        self.nodes()
        self.comments()
        self.tokens_of_parts()
        self.text_of_spans()


def edge(t, end):
    """Can the text of such a part begin (0) or end (-1) with a letter or digit?"""
    sp = SPEC[t]
    for x in ([y[end] for y in sp.values()] if isinstance(sp, dict) else [sp[end]]):
        if x[0] == "lit" and not x[2][:1].isalpha() or x[0] == "sign" or x[0] == "node" and not edge(x[2], end):
            continue
        return True
    return False


def const_bytes(t):
    if isinstance(t, Sl) and isinstance(t.region, tuple) and t.region[0] == "mem":
        m = re.match(r"\[\[(.*)\]\]$", t.region[1]) if isinstance(t.region[1], str) else None
        if m:
            return [int(x) for x in m.group(1).split(",")]
    return None


def show(x):
    if x[0] == "w":
        return "'%s'" % x[1]
    if x[0] == "node":
        return "a %s" % x[2][2]
    if x[0] == "v":
        return "a value"
    return {"loop": "a list", "end": "nothing", "span": "text of the source", "item": "an element", "?": "something unknown"}.get(x[0], x[0])


def check(store, rep):
    P22(store, rep).all()
    lexspec.Comments(store, rep).all()
    lexspec.Nodes(store, rep, TOKENS).all()
