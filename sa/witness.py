"""The witness schemas: every construct of the schema language in the combinations that matter to layout, numbering and naming."""
import struct as _s
from sa.schema import N, W, KEYWORDS, Schema, Scalar, Str, STR, Vec, Enum, Struct, Union, Table, F, SCALARS, INT, FLOAT, ALIAS

RANGE = {"uint8": (0, 255), "int8": (-128, 127), "uint16": (0, 65535), "int16": (-32768, 32767), "uint32": (0, 2**32 - 1), "int32": (-2**31, 2**31 - 1), "uint64": (0, 2**64 - 1), "int64": (-2**63, 2**63 - 1)}
MAIN = ("app", "core_types")
BY_SIZE = {1: ["uint8", "int8", "bool"], 2: ["int16", "uint16"], 4: ["float", "uint32", "int32"], 8: ["int64", "double", "uint64"]}


def main():
    s = Schema()
    # ---- a second file, in another namespace, reached by an include
    point = Struct("Point", [("x", Scalar("float")), ("y", Scalar("float"))])
    tiny = Struct("Tiny", [("flag", Scalar("bool"))])
    shape = Enum("Shape", "uint8", ["Round", ("Square", 4), "Flat"])
    place = Table("Place", [F("where_at", point), F("label", STR)])
    s.add("geo.fbs", ("geo",), point, tiny, shape, place)
    s.add("deep.fbs", ("geo", "inner_space"), Struct("Deep", [("a", Scalar("uint8")), ("b", Scalar("uint64"))]))
    deep = s.decls[-1]
    s.files["main.fbs"] = ['include "geo.fbs";', 'include "deep.fbs";']
    # ---- enums of every base type, with gaps, negative and extreme values
    enums = {}
    for t in INT:
        lo, hi = RANGE[t]
        vs = ([("Lowest", lo), "AfterLowest", ("MinusOne", -1)] if lo < 0 else []) + [("Zero", 0), "One", ("Seven", 7), "Eight", ("Highest", hi)]
        enums[t] = s.add("main.fbs", MAIN, Enum("E" + t.capitalize(), t, vs))
    late = s.add("main.fbs", MAIN, Enum("Late", "int16", [("Third", 3), ("Fourth", 4), "Fifth"]))
    plain = s.add("main.fbs", MAIN, Enum("Plain", "ubyte", ["North", "East", "South", "West"]))
    # ---- structs: all pairs of sizes, a choice of triples, nesting, enums, alignments carried by inner structs
    structs = []
    k = 0

    def pick(size):
        nonlocal k
        k += 1
        return Scalar(BY_SIZE[size][k % len(BY_SIZE[size])])
    for a in (1, 2, 4, 8):
        for b in (1, 2, 4, 8):
            structs.append(Struct("Pair%d%d" % (a, b), [("first", pick(a)), ("second", pick(b))]))
    for i, tr in enumerate([(1, 2, 1), (1, 4, 2), (1, 8, 1), (2, 1, 8), (4, 8, 2), (8, 1, 4), (1, 1, 1), (2, 4, 1), (8, 4, 1), (1, 2, 4), (4, 1, 2), (2, 8, 8)]):
        structs.append(Struct("Triple%s" % "".join(map(str, tr)), [("p%d" % j, pick(x)) for j, x in enumerate(tr)]))
    by = {x.name: x for x in structs}
    s.add("main.fbs", MAIN, *structs)
    nest = [
        Struct("NestA", [("tag", Scalar("uint8")), ("inner", by["Pair12"]), ("tail", Scalar("uint8"))]),
        Struct("NestB", [("head", Scalar("bool")), ("inner", by["Triple181"]), ("after", Scalar("int16")), ("kind", enums["int32"])]),
        Struct("NestC", [("kind", enums["uint64"]), ("low", enums["int8"]), ("at", point), ("t", tiny), ("deep", deep), ("mid", enums["uint16"])]),
        Struct("Aliases", [("a", Scalar("byte")), ("b", Scalar("short")), ("c", Scalar("int")), ("d", Scalar("long")), ("e", Scalar("ubyte")), ("f", Scalar("ushort")), ("g", Scalar("uint")), ("h", Scalar("ulong")), ("i", Scalar("float32")), ("j", Scalar("float64"))]),
    ]
    s.add("main.fbs", MAIN, *nest)
    twice = Struct("NestD", [("one", nest[0]), ("two", nest[1]), ("three", nest[0])])
    s.add("main.fbs", MAIN, twice)
    # ---- forced alignments: above and equal to the natural one, of structs with and without tail padding, and carried by inner structs
    forced = [
        Struct("Force2", [("a", Scalar("uint8"))], 2), Struct("Force4", [("a", Scalar("uint8")), ("b", Scalar("uint16"))], 4), Struct("Force8", [("a", Scalar("uint32"))], 8), Struct("ForceSame", [("a", Scalar("uint64"))], 8),
        Struct("Force16", [("a", Scalar("uint64")), ("b", Scalar("uint8"))], 16), Struct("Force32", [("a", Scalar("float")), ("b", Scalar("uint64")), ("c", Scalar("float"))], 32)]
    s.add("main.fbs", MAIN, *forced)
    s.add("main.fbs", MAIN, Struct("ForceNest", [("x", Scalar("uint8")), ("y", forced[0]), ("z", forced[4]), ("w", forced[2])]), Struct("ForceMore", [("x", Scalar("uint8")), ("y", forced[1])], 16))
    # ---- tables
    leaf = s.add("main.fbs", MAIN, Table("Leaf", [F("n", Scalar("int32"))]))
    other = s.add("main.fbs", MAIN, Table("OtherLeaf", [F("text_value", STR), F("small", Scalar("uint8"))]))
    u1 = s.add("main.fbs", MAIN, Union("Choice", [(None, leaf), (None, other)]))
    u2 = s.add("main.fbs", MAIN, Union("Mixed", [("Words", STR), ("First", leaf), ("Second", leaf), ("Far", place), ("Spot", point)]))
    s.add("main.fbs", MAIN, Table("Empty", []))
    s.add("main.fbs", MAIN, Table("NoDefaults", [F("f_" + t, Scalar(t)) for t in SCALARS]))
    for tag, i in (("Low", 0), ("High", 1)):
        s.add("main.fbs", MAIN, Table("Defaults" + tag, [F("f_" + t, Scalar(t), str(RANGE[t][i]), RANGE[t][i]) for t in INT]))
    s.add("main.fbs", MAIN, Table("DefaultsOdd", [
        F("yes", Scalar("bool"), "true", True), F("no", Scalar("bool"), "false", False), F("pi", Scalar("double"), "3.141592653589793", 3.141592653589793),
        F("minus", Scalar("float"), "-2.5", -2.5), F("hex", Scalar("uint32"), "0xdeadBEEF", 0xdeadbeef), F("exp", Scalar("double"), "1.5e10", 1.5e10), F("whole", Scalar("float"), "7", 7.0),
        F("neg", Scalar("int16"), "-1234", -1234), F("text", STR, '"hello there"', "hello there"), F("blank", STR, '""', ""), F("empty_list", Vec(Scalar("int32")), "[]", [])]))
    s.add("main.fbs", MAIN, Table("Nulls", [F("f_" + t, Scalar(t), "null") for t in SCALARS] + [F("f_enum", plain, "null")]))
    s.add("main.fbs", MAIN, Table("EnumDefaults", [F("f_" + t, enums[t], "Seven", "Seven") for t in INT] + [F("g", plain), F("h", late, "Fourth", "Fourth"), F("i", shape, "Flat", "Flat")]))
    refs = [STR, leaf, by["Pair18"], u1]
    vecs = [Vec(Scalar(t)) for t in SCALARS] + [Vec(STR), Vec(leaf), Vec(by["Pair42"]), Vec(plain), Vec(enums["int32"]), Vec(u2), Vec(place), Vec(point)]
    s.add("main.fbs", MAIN, Table("Refs", [F("r%d" % i, t) for i, t in enumerate(refs)]))
    s.add("main.fbs", MAIN, Table("Vecs", [F("v%d" % i, t) for i, t in enumerate(vecs)]))
    s.add("main.fbs", MAIN, Table("MustRefs", [F("r%d" % i, t, required=True) for i, t in enumerate(refs)]))
    s.add("main.fbs", MAIN, Table("MustVecs", [F("v%d" % i, t, required=True) for i, t in enumerate(vecs)]))
    s.add("main.fbs", MAIN, Table("Ids", [
        F("last", Scalar("uint64"), id=8), F("pick", u1, id=3), F("first", Scalar("uint8"), id=0), F("many", Vec(u1), id=6), F("name", STR, id=1), F("gap", Scalar("int16"), id=4), F("tail", by["Pair22"], id=7)]))
    s.add("main.fbs", MAIN, Table("Gone", [
        F("a", Scalar("int64")), F("dead", Scalar("int32"), deprecated=True), F("b", STR), F("dead_union", u1, deprecated=True), F("c", Scalar("uint8")), F("dead_text", STR, deprecated=True), F("d", u2), F("dead_end", Scalar("double"), deprecated=True)]))
    s.add("main.fbs", MAIN, Table("AllGone", [F("dead", Scalar("int32"), deprecated=True), F("dead_too", STR, deprecated=True)]))
    s.add("main.fbs", MAIN, Table("Unions", [F("a", u1), F("b", Scalar("uint8")), F("c", Vec(u2)), F("d", Scalar("int64")), F("e", u2, required=True), F("f", Vec(u1), required=True), F("g", Scalar("int16"))]))
    s.add("main.fbs", MAIN, Table("ForcedFields", [F("a", Scalar("uint8"), force=8), F("b", Scalar("uint32")), F("c", Vec(Scalar("uint8")), force=16), F("d", Scalar("uint64")), F("e", forced[5]), F("f", forced[4], required=True), F("g", Vec(forced[4]))]))
    # ---- declarations without members, out of order enums, unions whose conversion cannot fail or can fail inside a struct
    none_enum = s.add("main.fbs", MAIN, Enum("Nothing", "uint16", []))
    none_union = s.add("main.fbs", MAIN, Union("Never", []))
    mixed_up = s.add("main.fbs", MAIN, Enum("MixedUp", "int32", [("Ten", 10), ("MinusFive", -5), "MinusFour", ("Nought", 0), ("Three", 3), ("Two", 2)]))
    certain = s.add("main.fbs", MAIN, Union("Certain", [("Text", STR), ("Spot", point), (None, by["Pair81"])]))
    spots = s.add("main.fbs", MAIN, Union("Spots", [("Spot", point), (None, by["Pair81"]), ("Tight", tiny)]))
    doubtful = s.add("main.fbs", MAIN, Union("Doubtful", [("Text", STR), (None, nest[1]), ("Again", nest[1]), (None, twice)]))
    s.add("main.fbs", MAIN, Table("Kinds", [F("a", certain), F("b", certain, required=True), F("c", Vec(certain)), F("d", doubtful), F("e", doubtful, required=True), F("f", Vec(doubtful), required=True), F("g", nest[1]), F("h", nest[1], required=True), F("i", Vec(nest[1])),
        F("j", point, required=True), F("k", spots), F("l", spots, required=True), F("m", Vec(none_enum)), F("n", Vec(mixed_up)), F("o", mixed_up, "null"), F("q", Vec(spots)), F("r", Vec(spots), required=True), F("s", Vec(spots), "[]", [])]))
    s.add("main.fbs", MAIN, Table("Nevers", [F("k", none_union), F("l", Vec(none_union)), F("m", Scalar("uint8")), F("p", none_enum, "null")]))
    s.add("main.fbs", MAIN, Table("NumberDefaults", [F("a", mixed_up), F("b", mixed_up, "3", "Three"), F("c", mixed_up, "-5", "MinusFive"), F("d", mixed_up, "Two", "Two"), F("e", mixed_up, "0xA", "Ten"), F("f", late, "5", "Fifth"), F("g", enums["uint64"], str(2**64 - 1), "Highest"), F("h", enums["int64"], "-0x8000000000000000", "Lowest")]))
    s.add("main.fbs", MAIN, Table("EmptyLists", [F("v%d" % i, t, "[]", []) for i, t in enumerate([Vec(Scalar(t)) for t in SCALARS] + [Vec(STR), Vec(leaf), Vec(by["Pair42"]), Vec(plain), Vec(enums["int32"]), Vec(nest[1]), Vec(certain), Vec(u2)])]))
    # ---- more variants than fit into seven bits, and texts that are easily changed on their way
    crowd = s.add("main.fbs", MAIN, Union("Crowd", [("V%d" % i, [leaf, point, STR, by["Pair81"], place][i % 5]) for i in range(140)]))
    s.add("main.fbs", MAIN, Table("Crowds", [F("a", crowd), F("b", Vec(crowd)), F("c", crowd, required=True)]))
    s.add("main.fbs", MAIN, Table("Texts", [F("t%d" % i, STR, '"%s"' % t, t) for i, t in enumerate([" front", "back ", "  ", "a  b", "{}", "{0}", "%s", "\u00e9t\u00e9 \u4e2d", "#", "//", "0", "null", "true", "a" * 300, "A", "CamelCase", "`", "$", "!", "[]", "()", "r#", "&"])]))
    # ---- structs declared before the structs inside them, in forward order and mixed with forced alignments
    core = Struct("LateCore", [("a", Scalar("uint8")), ("b", Scalar("uint16"))])
    core16 = Struct("LateCore16", [("a", Scalar("uint8"))], 16)
    mid = Struct("LateMid", [("x", Scalar("uint8")), ("core", core), ("y", Scalar("uint64"))])
    mid16 = Struct("LateMid16", [("x", Scalar("uint16")), ("core", core16), ("kind", enums["int16"])])
    top = Struct("LateTop", [("tag", Scalar("bool")), ("mid", mid), ("again", core), ("wide", mid16), ("end", Scalar("uint8"))])
    late_structs = s.add("main.fbs", MAIN, top, mid, core, mid16, core16)
    s.add("main.fbs", MAIN, Table("LateUse", [F("t", top), F("m", mid16, required=True), F("v", Vec(top)), F("c", core16), F("b", Scalar("uint8"))]))
    # ---- fields with several attributes at once, in more than one order
    s.add("main.fbs", MAIN, Table("Attributes", [
        F("name", STR, '"fallback"', "fallback", id=0), F("blank", STR, '""', "", id=5), F("must_name", STR, id=2, required=True), F("list", Vec(Scalar("uint16")), "[]", [], id=8), F("must_list", Vec(STR), id=4, required=True),
        F("opt_num", Scalar("int32"), "null", id=3), F("num", Scalar("int64"), "-9", -9, id=1), F("pick", u2, id=7, required=True), F("many", Vec(u1), id=11, required=True), F("kind", plain, "East", "East", id=12),
        F("opt_kind", plain, "null", id=9), F("spot", by["Pair48"], id=13, required=True), F("leaf", leaf, id=14, required=True), F("opt_list", Vec(leaf), id=15), F("opt_name", STR, id=16), F("opt_spot", point, id=17),
        F("old", Scalar("double"), "2.5", 2.5, id=18, deprecated=True), F("old_name", STR, '"x"', "x", id=19, deprecated=True), F("old_must", STR, id=20, deprecated=True)]))
    s.add("main.fbs", MAIN, Table("NullLists", [F("a", STR, "null"), F("b", Vec(Scalar("uint8")), "null"), F("c", Vec(STR), "null"), F("d", Vec(u1), "null"), F("e", STR, "null", id=None)]))
    # ---- more than 256 slots
    s.add("main.fbs", MAIN, Table("Wide", [F("d%d" % i, Scalar(SCALARS[i % len(SCALARS)]), deprecated=True) for i in range(253)] + [F("w%d" % i, t) for i, t in enumerate([
        Scalar("uint8"), u1, Scalar("uint32"), Vec(u2), STR, Vec(Scalar("int64")), by["Pair12"], leaf, u2, plain, Scalar("bool")])]))
    big, ts = [], SCALARS + ["string"]
    for i in range(40):
        t = ts[(i * 7) % len(ts)]
        big.append(F("m%02d" % i, STR if t == "string" else Scalar(t)))
    big[5:5] = [F("st%d" % i, by[n]) for i, n in enumerate(["Pair11", "Pair82", "Triple142", "Pair21"])] + [F("nd", twice), F("tiny", tiny), F("choice", u1), F("e8", plain), F("e64", enums["int64"])]
    s.add("main.fbs", MAIN, Table("Big", big))
    tree = Table("Tree", [F("left", STR), F("right", STR), F("deep", deep), F("far", place), F("kids", STR)])
    tree.ns = MAIN
    tree.fields[0].ty = tree.fields[1].ty = tree
    tree.fields[4].ty = Vec(tree)
    s.add("main.fbs", MAIN, tree)
    s.files["main.fbs"].append("root_type Tree;")
    return s


RESERVED = [k for k in KEYWORDS if k not in ("enum", "union", "struct", "true", "false", "Self")]


def names():
    """Names that mean something in Rust, or that come out in another spelling than the schema's."""
    s = Schema()
    kw = [N(k + "_", k) for k in RESERVED]
    camel = [N("foo_bar", "fooBar"), N("some_name", "SomeName"), N("loud", "LOUD"), N("with_number2", "withNumber2"), N("a1", "A1"), N("trailing", "trailing_"), N("x_y_z", "x_y_z")]
    local = [N(k, k) for k in "builder value buffer create prepare from into clone default write read offset cache inner self_type result ok err some none std core alloc planus root string vec slice array len iter as_ref i32 u8 bool_value str usize option table_writer key hash".split()]
    ns = (N("outer", "Outer"), N("type_", "type"), N("mod_", "mod"))
    ns2 = (N("outer", "Outer"), N("self_", "self"))
    far = s.add("far.fbs", ns2, Table(N("Crate", "crate"), [F(N("fn_", "fn"), Scalar("int32"))]))
    far_s = s.add("far.fbs", ns2, Struct(N("Self_", "Self"), [(N("self_", "self"), Scalar("uint8")), (N("mut_", "mut"), Scalar("uint64"))]))
    far_e = s.add("far.fbs", ns2, Enum(N("Match", "match"), "uint16", [N("Self_", "Self"), N("AnyThing", "any_thing"), N("Loud", "LOUD")]))
    s.files["names.fbs"] = ['include "far.fbs";']
    words = s.add("names.fbs", ns, Table("Words", [F(k, t) for k, t in zip(kw, [Scalar("int32"), STR, Vec(STR), far_s, far, far_e, Vec(far)] * 9)]))
    s.add("names.fbs", ns, Struct("WordStruct", [(k, t) for k, t in zip(kw, ([Scalar("uint8"), far_s, Scalar("double"), far_e, Scalar("int16")] + [Scalar("int16"), far_s, Scalar("uint8")] * 20))]))
    s.add("names.fbs", ns, Table("Locals", [F(k, t) for k, t in zip(local, [STR, Scalar("int64"), Vec(Scalar("uint8")), far_s, far, Scalar("bool"), far_e] * 9)]))
    s.add("names.fbs", ns, Struct("LocalStruct", [(k, t) for k, t in zip(local, ([Scalar("uint8"), far_s, Scalar("float"), far_e] + [Scalar("uint8"), Scalar("int64"), far_s] * 20))]))
    s.add("names.fbs", ns, Table(N("MixedCase", "mixed_case"), [F(k, STR) for k in camel]))
    s.add("names.fbs", ns, Struct(N("XmlThing", "XMLThing"), [(k, Scalar("uint8")) for k in camel]))
    s.add("names.fbs", ns, Enum(N("LowCase", "lowCase"), "int8", [N("Self_", "Self"), N("Type", "type"), N("FooBar", "fooBar"), N("SomeName", "SOME_NAME"), N("Ok", "Ok"), N("None", "None"), N("Err", "Err"), N("Some", "some")]))
    e = s.decls[-1]
    u = s.add("names.fbs", ns, Union(N("EitherOne", "either_one"), [(N("Type", "type"), words), (N("Self_", "Self"), STR), (N("FooBar", "fooBar"), far), (N("Builder", "builder"), far_s), (N("Create", "create"), far), (N("None", "None"), STR)]))
    s.add("names.fbs", ns, Table("Use", [F(N("match_", "match"), u), F(N("loop_", "loop"), Vec(u), required=True), F("kind", e, "fooBar", "FooBar"), F(N("move_", "move"), e, "null"), F("text", STR, '"type"', "type"), F("old", e, "type", "Type")]))
    # words from the runtime and the prelude as names of types
    for k in "Option Result String Vec Box Offset Builder Error Slice Default Clone Iterator From Into".split():
        s.add("names.fbs", ns, Table(k, [F("a", STR), F("b", Scalar("int8"))]) if len(k) % 2 else Struct(k, [("a", Scalar("int8"))]))
    pre = s.decls[-14:]
    s.add("names.fbs", ns, Table("Prelude", [F("f%d" % i, d) for i, d in enumerate(pre)] + [F("g%d" % i, Vec(d)) for i, d in enumerate(pre)]))
    return s



def written(v):
    """The ways of writing an integer."""
    a, m = abs(v), "-" if v < 0 else ""
    d, h = str(a), "%x" % a
    yield m + d
    yield m + "000" + d
    yield m + "0x" + h
    yield m + "0x00" + h.upper()
    yield m + d[0] + "_" + d[1:] if len(d) > 1 else m + d + "_"
    yield m + d[:-3] + "__" + d[-3:] + "_" if len(d) > 3 else m + d + "__"
    yield m + "0x" + "_".join(x.upper() if i % 2 else x for i, x in enumerate(h))
    yield "--" + m + d
    yield "-+-" + m + d if v < 0 else "+" + d
    yield "-" + ("+" if v < 0 else "-") + "0x" + h


def numbers():
    """Every way of writing a number, at the limits of every type."""
    s = Schema()
    ns = ("numbers",)
    vs = {}
    for t in INT:
        lo, hi = RANGE[t]
        some = sorted({lo, lo + 1, lo // 2, -1 if lo < 0 else 1, 0, 1, 9, 10, 15, 16, 17, 99, 100, hi // 2, hi // 2 + 1, hi - hi % 10, hi - hi % 16, hi - 1, hi} | ({-9, -10, -15, -16, -100, lo + (-lo) % 10} if lo < 0 else set()))
        vs[t] = some
        for k in range(2):
            s.add("numbers.fbs", ns, Table("%s%d" % (t.capitalize(), k), [F("f%d" % i, Scalar(t), list(written(v))[(5 * k + i + len(vs)) % 10], v) for i, v in enumerate(some)]))
        seq = [("Low", W(list(written(lo))[2], lo)), "AfterLow"] if lo < 0 else []
        e = s.add("numbers.fbs", ns, Enum("Enum" + t.capitalize(), t, seq + [("Hex", W("0x1f", 31)), "AfterHex", ("Under", W("4_0", 40)), "AfterUnder", ("Lead", W("0063", 63)), "AfterLead", ("Upper", W("0x7A", 122)), ("AlmostTop", W(list(written(hi - 2))[6], hi - 2)), "NextTop", "Top"]))
        s.add("numbers.fbs", ns, Table("Of" + e.name, [F("a", e, "0x20", "AfterHex"), F("b", e, "4_1", "AfterUnder"), F("c", e, list(written(hi))[3], "Top"), F("d", e, "064", "AfterLead"), F("e", e, "AfterHex", "AfterHex"), F("f", e, "-" + "-122", "Upper")]
                                               + ([F("g", e, list(written(lo))[5], "Low"), F("h", e, str(lo + 1), "AfterLow")] if lo < 0 else [])))
    for n, t, m, tiny in (("Singles", "float", 3.4028234663852886e38, 2.0**-149), ("Doubles", "double", 1.7976931348623157e308, 5e-324)):
        ty = Scalar(t)
        lit = [("1.", 1.0), (".5", 0.5), ("-.5", -0.5), ("0.1", 0.1), ("-0.1", -0.1), ("1e3", 1000.0), ("1E+3", 1000.0), ("25e-1", 2.5), ("1.5e-3", 0.0015), ("0", 0.0), ("16777217", 16777217.0 if t == "double" else 16777216.0),
               ("16777216", 16777216.0), ("-3", -3.0), ("--3.5", 3.5), ("-+3.5", -3.5), ("1_0", 10.0), ("inf", float("inf")), ("-inf", -float("inf")), ("infinity", float("inf")), ("nan", float("nan")), ("123456.789e2", 12345678.9), ("007.25", 7.25),
               ("3.4028235e38" if t == "float" else "1.7976931348623157e308", m), ("-3.4028235e38" if t == "float" else "-1.7976931348623157e308", -m), ("1e-45" if t == "float" else "5e-324", tiny), ("1e-60" if t == "float" else "1e-400", 0.0),
               ("9007199254740993", 9007199254740992.0), ("0.3", 0.3), ("1.00000017881393432617187499999", 1 + 2.0**-23 if t == "float" else 1.000000178813934326171875)]
        s.add("numbers.fbs", ns, Table(n, [F("f%d" % i, ty, a, b) for i, (a, b) in enumerate(lit)]))
    s.add("numbers.fbs", ns, Table("HexIds", [F("a", STR, id=W("0x2", 2)), F("b", Scalar("uint8"), id=W("0_0", 0)), F("c", Scalar("int64"), id=W("01", 1)), F("d", Scalar("bool"), id=W("0x0A", 10))] +
                                  [F("p%d" % i, Scalar("uint16"), id=i) for i in range(3, 10)] + [F("q%d" % i, STR, id=W("0x%x" % i, i)) for i in range(11, 20)]))
    hexa = s.add("numbers.fbs", ns, Struct("HexAlign", [("a", Scalar("uint8"))], W("0x10", 16)), Struct("LongAlign", [("a", Scalar("uint8"))], W("0_08", 8)))
    s.add("numbers.fbs", ns, Table("Aligned", [F("x", Scalar("uint8")), F("h", hexa[0]), F("l", hexa[1], required=True)]))
    return s


def texts():
    """Every way of writing a text."""
    s = Schema()
    ns = ("texts",)
    esc = {"n": "\n", "t": "\t", "r": "\r", "b": "\x08", "f": "\x0c", '"': '"', "'": "'", "/": "/"}
    lit = []
    for q in "\"'":
        o = "'" if q == '"' else '"'
        def t(w, v):
            lit.append((q + w + q, v))
        t("", "")
        t(o, o)
        t("it" + o + "s", "it" + o + "s")
        t(o + "a" + o, o + "a" + o)
        t(o + o + o, o * 3)
        t("".join("\\" + k for k in esc), "".join(esc.values()))
        t("-".join("\\" + k for k in esc), "-".join(esc.values()))
        t("".join("\\x%02x" % i for i in range(128)), "".join(map(chr, range(128))))
        t("_".join("\\x%02X" % i for i in range(128)), "_".join(map(chr, range(128))))
        for a, b in (("\\x41\\u0041A", "AAA"), ("\\u00e9", "\u00e9"), ("\\u20AC", "\u20ac"), ("\\u20ac0", "\u20ac0"), ("\\u07ff\\u0800", "\u07ff\u0800"), ("\\ud7ff\\ue000", "\ud7ff\ue000"), ("\\uFFFD\\uffff", "\ufffd\uffff"),
                     ("\\u0000", "\0"), ("\\u00fF9", "\xff9"), ("\\nx", "\nx"), ("x\\n", "x\n"), ("\\n\\n", "\n\n"), ("\\/n", "/n"), ("a // b", "a // b"), ("/* a */ \\/* b", "/* a */ /* b"), (" x ", " x "), ("\t", "\t"), ("a\nb", "a\nb"), ("a\r\n  b", "a\r\n  b"),
                     ("0x1F", "0x1F"), ("null", "null"), ("{}", "{}"), ("%s$x#{y}", "%s$x#{y}"), ("\u00e9", "\u00e9"), ("e\u0301", "e\u0301"), ("\U0001f600\ufeff", "\U0001f600\ufeff"), ("\u202e\u00a0", "\u202e\u00a0"), ("A;b}c:d=e,f", "A;b}c:d=e,f"), ("UPPER lower", "UPPER lower"),
                     ("\u0130\u00df\ufb01", "\u0130\u00df\ufb01")):
            t(a, b)
    for n in (255, 256, 257, 1023, 1025, 4096, 70001):
        lit.append(('"%s"' % ("ab\\n" * (n // 3 + 1)), "ab\n" * (n // 3 + 1)))
    for k in range(0, len(lit), 16):
        s.add("texts.fbs", ns, Table("Texts%d" % (k // 16), [F("t%d" % i, STR, a, b) for i, (a, b) in enumerate(lit[k:k + 16])]))
    return s


CLASHES = {
    "clash_types": "namespace a; table foo { x: int; } table Foo { y: string; } struct FOO { z: int; } enum fOO : byte { A } union F_oo { foo } table Uses { a: foo; b: Foo; c: FOO; d: fOO; e: F_oo; g: [foo]; h: [Foo]; }\n",
    "clash_helpers": "table Foo { x: int; } table FooRef { y: string; } table FooBuilder { z: FooRef; } struct FooVal { z: int; } struct FooValRef { z: FooVal; } union Pick { Foo, FooRef } union PickRef { Pick: Foo } table PickBuilder { a: Pick; b: PickRef; c: [Pick]; d: FooValRef; }\n",
    "clash_params": "table T { t: int; } table T0 { x: int; y: T; } struct T1 { x: int; } enum T2 : int { A } union T3 { T0, T } table T4 { a: T0; b: [T1]; c: T2; d: [T3]; e: T1; f: T3; g: [T]; h: T4; } union T5 { T4 } union State { T5: T4 } table A { a: State; b: T5; c: T; }\n",
    "clash_members": "struct S { fooBar: int; foo_bar: int; FOO_BAR: byte; set_foo_bar: int; } enum E : int { foo_bar, fooBar, FooBar } table X { fooBar: string; foo_bar: int; foo_bar_as_null: string; foo_bar_as_default: [int]; Foo_Bar: X; } "
                     "union U { foo_bar: X, FooBar: X, fooBar: string, builder: X, create_x: X, x: X, createX: S } table Use { u: U; v: [U]; s: S; e: E; finish: string; get_fields: int; }\n",
}
# six spellings of one name, some already with the underscores that set names apart, in several orders
SAME = ["a_b", "aB", "A_b", "A_B", "a_b_", "AB_", "Ab__", "a__b"]


def spellings(shift):
    return SAME[shift:] + SAME[:shift]


for i in range(len(SAME)):
    n = spellings(i)
    CLASHES["clash_many%d" % i] = "namespace many; %s %s %s table Holder { %s } struct Flat { %s } enum Kinds : int { %s } union Any { %s }\n" % (
        " ".join("table %s { x: int; }" % x for x in n[:4]), " ".join("struct %s { y: int; }" % x for x in n[4:6]), " ".join("enum %s : int { A }" % x for x in n[6:]),
        " ".join("%s: %s;" % (x, ("int", "string", "[byte]", "Any", "[string]", "Flat")[k % 6]) for k, x in enumerate(n)), " ".join("%s: int;" % x for x in n),
        ", ".join(n), ", ".join("%s: %s" % (x, n[k % 4]) for k, x in enumerate(n)))
# forty spellings of one name
DEEP = ["a%sb" % ("_" * (k + 1)) for k in range(40)]
CLASHES["clash_deep"] = "namespace deep; %s %s struct Flat { %s } enum Kinds : int { %s } union Any { %s }\n" % (
    " ".join("table %s { x: int; }" % x for x in DEEP), "table Holder { %s }" % " ".join("%s: int;" % x for x in DEEP),
    " ".join("%s: int;" % x for x in DEEP), ", ".join(DEEP), ", ".join("%s: %s" % (x, x) for x in DEEP))
CLASH_FILES = {k: {k + ".fbs": v} for k, v in CLASHES.items()}
CLASH_FILES["clash_modules"] = {"clash_modules.fbs": 'include "ma.fbs"; include "mb.fbs"; namespace a; table L { x: A.M; y: a.B.N; z: a_.b; }\n', "ma.fbs": 'include "mc.fbs"; namespace A; table M { x: a_.b; }\n', "mb.fbs": "namespace a.B; table N { x: int; }\n", "mc.fbs": "namespace a_; table b { x: string; }\n"}
