"""A small model of the schema language, written from the format's documentation and independent of planus:
it prints witness schemas and works out what any conforming compiler has to make of them."""
from dataclasses import dataclass, field as dfield

INT = {"uint8": ("u8", 1), "int8": ("i8", 1), "uint16": ("u16", 2), "int16": ("i16", 2), "uint32": ("u32", 4), "int32": ("i32", 4), "uint64": ("u64", 8), "int64": ("i64", 8)}
ALIAS = {"ubyte": "uint8", "byte": "int8", "ushort": "uint16", "short": "int16", "uint": "uint32", "int": "int32", "ulong": "uint64", "long": "int64", "float32": "float", "float64": "double"}
FLOAT = {"float": ("f32", 4), "double": ("f64", 8)}


class N(str):
    """a name as it comes out in Rust, with the way the schema writes it"""
    def __new__(cls, rust, written):
        x = str.__new__(cls, rust)
        x.written = written
        x.stem = rust[:-1] if rust.endswith("_") else rust  # without what keeps it apart from a reserved word
        return x


class W(int):
    """a number with the way it is written"""
    def __new__(cls, text, value):
        x = int.__new__(cls, value)
        x.text = text
        return x

    def __str__(self):
        return self.text


def stem(n):
    return getattr(n, "stem", n)


KEYWORDS = ("as async await break const continue crate dyn else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type union unsafe use "
            "where while abstract become box do final macro override priv try typeof unsized virtual yield").split()


def snake(n):
    x = stem(n)
    x = "".join(("_" if i and c.isupper() else "") + c.lower() for i, c in enumerate(x))
    return x + "_" if x in KEYWORDS else x


def wr(n):
    return getattr(n, "written", n)


@dataclass
class Scalar:
    name: str

    @property
    def base(self):
        return ALIAS.get(self.name, self.name)

    @property
    def rust(self):
        return "bool" if self.base == "bool" else INT[self.base][0] if self.base in INT else FLOAT[self.base][0]

    @property
    def size(self):
        return 1 if self.base == "bool" else INT[self.base][1] if self.base in INT else FLOAT[self.base][1]

    align = size
    text = property(lambda self: self.name)


class Str:
    text = "string"


STR = Str()


@dataclass
class Vec:
    of: object

    @property
    def text(self):
        return "[%s]" % self.of.text


class Decl:
    file = None
    ns = ()

    @property
    def text(self):
        return ".".join(tuple(wr(x) for x in self.ns) + (wr(self.name),))


class Enum(Decl):
    def __init__(self, name, base, variants):
        self.name, self.base = name, Scalar(base)
        self.decl = variants
        self.values = []
        nxt = 0
        for v in variants:
            n, x = v if isinstance(v, tuple) else (v, None)
            if x is not None:
                nxt = int(x)
            self.values.append((n, nxt))
            nxt += 1
        self.size = self.align = self.base.size

    def emit(self):
        # a value may be a W: a number together with the way it is written
        vs = ", ".join(wr(v) if isinstance(v, str) else "%s = %s" % (wr(v[0]), v[1]) for v in self.decl)
        return "enum %s : %s { %s }" % (wr(self.name), self.base.name, vs)


class Struct(Decl):
    def __init__(self, name, fields, force=1):
        self.name, self.fields, self.force = name, fields, force
        off, align = 0, int(force)
        self.offsets = {}
        self.pads = []
        for n, t in fields:
            align = max(align, t.align)
            pad = -off % t.align
            off += pad
            self.offsets[n] = off
            off += t.size
        self.align = align
        self.size = off + (-off % align)

    def emit(self):
        return "struct %s%s { %s }" % (wr(self.name), " (force_align: %s)" % self.force if self.force > 1 else "", " ".join("%s: %s;" % (wr(n), t.text) for n, t in self.fields))


class Union(Decl):
    """variants: (written name or None, type)"""

    def __init__(self, name, variants):
        self.name, self.variants = name, variants

    def tags(self):
        return [(n or t.name, i + 1, t) for i, (n, t) in enumerate(self.variants)]

    def emit(self):
        return "union %s { %s }" % (wr(self.name), ", ".join("%s: %s" % (wr(n), t.text) if n else t.text for n, t in self.variants))


@dataclass
class F:
    name: str
    ty: object
    default: object = None  # literal text; "null" for optional scalars
    value: object = None  # the value of the literal
    id: object = None
    deprecated: bool = False
    required: bool = False
    extra: str = ""
    force: int = 1
    slot: int = None

    def emit(self):
        d = " = %s" % self.default if self.default is not None else ""
        m = [x for x in ("id: %s" % self.id if self.id is not None else "", "deprecated" if self.deprecated else "", "required" if self.required else "", "force_align: %s" % self.force if self.force > 1 else "", self.extra) if x]
        return "%s: %s%s%s;" % (wr(self.name), self.ty.text, d, " (%s)" % ", ".join(m) if m else "")


def two_slots(t):
    return isinstance(t, Union) or isinstance(t, Vec) and isinstance(t.of, Union)


class Table(Decl):
    def __init__(self, name, fields):
        self.name, self.fields = name, fields
        nxt = 0
        for f in fields:
            w = 2 if two_slots(f.ty) else 1
            if f.id is not None:
                f.slot = int(f.id)
            else:
                f.slot = nxt + w - 1
                nxt += w
        self.slots = max([f.slot + 1 for f in fields], default=0)

    def emit(self):
        return "table %s { %s }" % (wr(self.name), " ".join(f.emit() for f in self.fields))


class Schema:
    def __init__(self):
        self.files = {}  # name -> list of lines / decls
        self.decls = []

    def add(self, file, ns, *decls, raw=None):
        out = self.files.setdefault(file, [])
        if ns is not None and not any(l.startswith("namespace") for l in out):
            out.append("namespace %s;" % ".".join(wr(x) for x in ns) if ns else "namespace ;")
        for d in decls:
            d.file, d.ns = file, tuple(ns or ())
            out.append(d.emit())
            self.decls.append(d)
        if raw:
            out.append(raw)
        return decls[0] if len(decls) == 1 else decls

    def texts(self):
        return {f: "\n".join(l) + "\n" for f, l in self.files.items()}


SCALARS = ["bool", "uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "float", "double"]
