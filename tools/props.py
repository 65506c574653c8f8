def P(id, title, statement, over, text, why, files, mech, **kw):
    return dict(id=id, title=title, statement=statement, quantifier={"over": over.split(), "text": text}, why_tests_cant=why,
                anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}, **kw)


R = "crates/planus/src/"
T = "crates/planus-translation/src/"
G = "crates/planus-codegen/src/"
I = T + "intermediate_language/translation.rs"

PROPS = [
    P("P01", "Reading any bytes is memory-safe",
      "Whatever bytes a buffer holds, every safe reading operation (opening a root, reading fields, indexing, slicing and iterating vectors, strings, unions and arrays, copying into owned values) only touches memory inside that buffer. A malformed buffer yields an error or some value, never an out-of-bounds access or invalid text.",
      "inputs", "all byte strings, all positions in them and all reading operations on them",
      "Tests read a few hundred valid buffers; a missing bounds check shows only for particular malformed offsets and lengths.",
      [R + "slice_helpers.rs", R + "table_reader.rs", R + "vectors/vector.rs", R + "vectors/iterators.rs", R + "union_vectors/union_vector.rs", R + "union_vectors/iterators.rs", R + "impls/mod.rs", R + "impls/str.rs", R + "impls/array.rs"],
      [("bounds-checked window", R + "slice_helpers.rs: SliceWithStartOffset, ArrayWithStartOffset"), ("length check of vectors", R + "impls/mod.rs: array_from_buffer")]),
    P("P02", "Reading untrusted bytes never panics",
      "Opening a root and reading fields, vectors, strings and unions from any byte string either succeeds or returns an error. It never panics, overflows arithmetic or fails an assertion, whether or not debug checks are compiled in.",
      "inputs", "all byte strings and all reading operations, debug and release builds",
      "Random mutation of a few buffers rarely produces the length/offset combination that overflows or the half-present field pair that fails an assertion.",
      [R + "slice_helpers.rs", R + "table_reader.rs", R + "vectors/vector.rs", R + "union_vectors/union_vector.rs", R + "union_vectors/iterators.rs", R + "impls/union_vector_offset.rs", R + "impls/mod.rs"],
      [("fallible accessors", R + "table_reader.rs: Table::access, access_required, access_union, access_union_vector"), ("checked advance", R + "slice_helpers.rs: SliceWithStartOffset::advance")]),
    P("P03", "Building a buffer never writes out of bounds or leaves bytes unset",
      "Whatever sequence of values is serialised, the builder only writes inside memory it owns, frees that memory exactly once, and hands out no byte that was not written. The position reported for every written object is the position at which its bytes end up.",
      "inputs histories", "all sequences of build operations, all value contents, lengths and alignments",
      "The tests build small buffers from one allocation size; growth, padding and stride mistakes need particular sizes and alignments.",
      [R + "backvec.rs", R + "builder.rs", R + "table_writer.rs", R + "impls/slice.rs", R + "impls/array.rs", R + "impls/union_vector_offset.rs", R + "impls/str.rs"],
      [("growable back-to-front buffer", R + "backvec.rs: BackVec"), ("reserve and fill", R + "builder.rs: Builder::write_with")]),
    P("P04", "Every object is written at its alignment",
      "Every scalar, offset, vector, string, struct and table a buffer holds lies at a multiple of its alignment in the finished buffer, and no more padding is written than that needs. This holds for every order of writes and every element count.",
      "inputs histories", "all sequences of build operations, all lengths, element types and alignments",
      "Whether padding comes out right depends on the residue of everything written before; tests reach a few residues.",
      [R + "builder.rs", R + "table_writer.rs", R + "impls/slice.rs", R + "impls/array.rs", R + "impls/union_vector_offset.rs", R + "impls/str.rs"],
      [("delayed padding", R + "builder.rs: Builder::prepare_write"), ("padding on finish", R + "builder.rs: Builder::finish")]),
    P("P05", "Values are written faithfully",
      "Every scalar, string, byte vector, array and vector element handed to the builder is stored as its little-endian bytes (strings and byte vectors: their bytes), each element at its own place and in order, whatever kind of container it comes in. Nothing is dropped, duplicated, truncated or reordered.",
      "inputs", "all values of all supported element and container types",
      "The many forwarding implementations (references, boxes, arrays, slices, vectors) are each exercised with one or two values at most.",
      [R + "impls/mod.rs", R + "impls/slice.rs", R + "impls/array.rs", R + "impls/str.rs", R + "impls/ref_.rs", R + "impls/box_.rs"],
      [("primitive writers", R + "impls/mod.rs: gen_primitive_types"), ("element loops", R + "impls/slice.rs: write_values")]),
    P("P09", "Stored offsets point at what they refer to",
      "Each offset a builder stores - in a table field, a vector of offsets, a union vector, the root of a buffer, and the signed offset from a table to its field index - leads exactly to the object that was handed in. This holds whatever was written before, and for all orders of creation.",
      "inputs histories", "all sequences of build operations and all buffer positions",
      "An offset that is relative to the wrong place still reads back correctly when the buffer happens to be short or freshly started.",
      [R + "impls/offset.rs", R + "builder.rs", R + "table_writer.rs", R + "impls/slice.rs", R + "impls/union_vector_offset.rs"],
      [("offset writer", R + "impls/offset.rs"), ("root offset", R + "builder.rs: Builder::finish")]),
    P("P10", "Objects have the layout the format documents",
      "A vector is its element count followed by its elements, a string its byte count, bytes and a zero byte, a union vector two vectors of equal length, and a table its field index (byte size, object size, one slot per field, without trailing empty slots) and an object that starts with the distance to it. A finished buffer starts with the root offset and, if one is given, the four-byte identifier behind it.",
      "inputs", "all values, element counts and sets of present fields",
      "Tests that write and read with this same library agree with themselves even when both deviate from the format.",
      [R + "table_writer.rs", R + "builder.rs", R + "impls/slice.rs", R + "impls/str.rs", R + "impls/union_vector_offset.rs"],
      [("table layout", R + "table_writer.rs: TableWriter::finish_calculating"), ("file identifier", R + "builder.rs: Builder::finish")]),
    P("P24", "Absent and default values are left out exactly when they should be",
      "An optional value that is absent and a scalar equal to its field's default produce no stored field; every other value does. This holds for each way an optional or defaulted value can be supplied.",
      "inputs", "all values and all defaults of every supported type",
      "A comparison that is wrong for one value loses data silently for that value only.",
      [R + "impls/mod.rs", R + "impls/option.rs", R + "impls/unit.rs", R + "traits/mod.rs"],
      [("elision of defaults", R + "impls/mod.rs: WriteAsDefault"), ("optional forwarding", R + "impls/option.rs")]),
    P("P25", "Values are read from exactly the bytes the format assigns to them",
      "Every accessor reads a field at the place its slot names relative to its object, follows each offset from the place it is stored, and sees exactly the elements or bytes the stored length promises; a field is absent exactly when its slot is missing or zero. An error is reported only when the bytes involved are really malformed.",
      "inputs", "all byte strings and all accessors",
      "Off-by-one and wrong-base errors cancel out when the same library also wrote the buffer or when the sample buffers are compact.",
      [R + "table_reader.rs", R + "impls/mod.rs", R + "impls/str.rs", R + "slice_helpers.rs", R + "impls/union_vector_offset.rs"],
      [("field lookup", R + "table_reader.rs: Table::access"), ("vector header", R + "impls/mod.rs: array_from_buffer")]),
    P("P26", "Compiling the same schema twice gives byte-identical output",
      "For the same schema files and options, the generated Rust code, the generated graph and the diagnostics are a function of the input alone. They never depend on hash seeds, time, the environment, randomness, threads or memory addresses.",
      "inputs schedules", "all schema sets and all runs (hash seeds, clocks, address-space layouts)",
      "The tests compile each fixture once per process; an order that depends on a hash seed differs only between runs, and only with enough entries.",
      ["crates/planus-translation/src/intermediate_language/translation.rs", "crates/planus-codegen/src/lib.rs", "crates/planus-codegen/src/dot/mod.rs", "crates/planus-codegen/src/analysis.rs", "crates/planus-translation/src/ast_convert.rs"],
      [("insertion-ordered declaration map", "crates/planus-types/src/intermediate.rs: Declarations"), ("seeded colour generator", "crates/planus-codegen/src/dot/mod.rs: DotBackend")]),
]

GEN = [G + "rust/mod.rs", G + "backend_translation.rs", I]
TPL = G + "templates/rust/"
PROPS += [
    P("P06", "Every table field is stored and read as the type the schema declares",
      "For every schema, generated accessors read each table field as the type it was declared with, and generated writers store it as that type with its size and alignment. Inside a table every stored field lies at a multiple of its alignment.",
      "inputs", "all schemas: all field types, table shapes and sets of present fields",
      "Fixtures pair a handful of types; a confusion between two types of equal size, or a misplaced field in one combination of present fields, goes unnoticed.",
      GEN + [TPL + "table.template"],
      [("type of a field", G + "rust/mod.rs: generate_table_field"), ("order of fields", T + "intermediate_language/translation.rs: resolve_table_sizes")]),
    P("P08", "Generated accessors and their errors carry the schema's names",
      "Every live field of a table or struct is reachable under the name the schema gives it. When reading it fails, the error names the table or struct and the field it comes from.",
      "inputs", "all schemas and all failing reads",
      "Tests look at few error messages; a wrong name in one kind of accessor misleads only in production.",
      GEN + [TPL + "table.template", TPL + "struct.template"],
      [("names handed to the accessors", TPL + "table.template"), ("names of members", G + "rust/mod.rs: generate_table_field_name")]),
    P("P11", "Table fields use exactly the vtable slots the schema assigns",
      "Each field of a table is written to and read from the slot given by its position or its explicit id, where a union or a vector of unions takes two slots and a deprecated field keeps its slot. A slot is filled exactly when the field is present, with the value supplied for that very field.",
      "inputs", "all schemas: all numbers, orders and kinds of fields, explicit ids, deprecated fields; all sets of present fields",
      "A writer and a reader that are wrong in the same way still agree with each other, so round-trip tests pass while other implementations of the format cannot read the data.",
      GEN + [TPL + "table.template"],
      [("slot numbering", I + ": translate_table"), ("vtable filling", TPL + "table.template: create")]),
    P("P12", "Absent fields read as the schema's default",
      "A field that is not stored reads as the default value of the schema, and the same value is used when deciding to leave a field out, in the owned type's default and when converting to the owned type. Every literal the schema language allows (negative, hexadecimal, extreme, floating point, enum names, strings, empty vectors) keeps its value.",
      "inputs", "all schemas, all literals",
      "A literal is translated by a dozen special cases; one that is wrong silently changes data that was written with the default.",
      GEN + [TPL + "table.template"],
      [("literals", I + ": translate_literal"), ("defaults in generated code", G + "rust/mod.rs: generate_table_field")]),
    P("P13", "Enum values and union variants have the numbers the schema gives them",
      "Every enum value has its declared or implied number in memory, in stored bytes and in every conversion, and every union variant its tag. Reading a number that belongs to no value or variant reports exactly that number as unknown instead of a value.",
      "inputs", "all schemas, all stored numbers",
      "Most numbers are implied; gaps, negative and extreme values and wide enums are rare in fixtures.",
      [G + "rust/mod.rs", I, TPL + "enum.template", TPL + "union.template"],
      [("enum numbering", I + ": translate_enum"), ("union tags", TPL + "union.template"), ("enum conversions", TPL + "enum.template")]),
    P("P14", "Converting a reader into an owned value keeps every field",
      "The owned value made from a reader has, in each field, the value that field's accessor returns, present exactly when the accessor says so. If any accessor fails, the conversion fails with that error; nothing is dropped or defaulted silently.",
      "inputs", "all schemas and all buffer contents",
      "Field-by-field conversion is generated per type and presence; swapping or dropping one kind shows only in tables with that kind.",
      GEN + [TPL + "table.template", TPL + "struct.template", TPL + "union.template"],
      [("conversion", TPL + "table.template: TryFrom"), ("conversion of a field", G + "rust/mod.rs: generate_table_field (try_from_code)")]),
    P("P15", "Structs have the layout the format documents",
      "Each struct member lies at the smallest multiple of its alignment behind the previous member, the struct's size is rounded up to its strictest alignment, and padding is zero. Writing, reading, constants and vector strides all use that layout, for nested structs too.",
      "inputs", "all structs: all member types, orders and nestings",
      "Layout mistakes need a particular sequence of sizes; a writer and a reader sharing the mistake still round-trip.",
      [I, G + "rust/mod.rs", TPL + "struct.template"],
      [("offsets and padding", I + ": resolve_struct_sizes"), ("struct writer", TPL + "struct.template")]),
    P("P16", "Optional, required, defaulted and deprecated fields behave as declared",
      "An optional field that is absent reads as nothing, a required one as an error, a defaulted one as its default; a field that is present reads as its value in each case. A deprecated field is neither written nor readable, and a required one cannot be left out when writing.",
      "inputs", "all schemas and all sets of stored fields",
      "Required and deprecated fields appear in few fixtures and never in combination with each field type.",
      GEN + [TPL + "table.template"],
      [("presence of a field", I + ": translate_table_field"), ("accessors", TPL + "table.template")]),
    P("P17", "Generated builders write each value to the field it was set for",
      "Whatever values are set through the fluent builder of a table or union, finishing it writes each of them to the field it was set for, with null and default markers meaning absence. A union builder writes the tag of the variant that was chosen.",
      "inputs", "all schemas and all values set",
      "The builder threads values positionally through a growing tuple; an index that is off for one position only shows in tables with that many fields of the same type.",
      [G + "rust/mod.rs", TPL + "table.template", TPL + "union.template"],
      [("builder setters", TPL + "table.template: Builder"), ("union builder", TPL + "union.template")]),
]

PROPS += [
    P("P18", "Names of a schema come out as distinct, usable Rust names",
      "Any name a schema may use, including reserved words, names of the prelude and the runtime, and names that become equal after conversion to Rust's spelling, gives items that do not clash with each other, with generated helper types or with type parameters. The member found under a name is the one the schema declared under it.",
      "inputs", "all schemas: all names of declarations, members, variants and namespaces",
      "Fixtures use ordinary names; a clash needs two particular names, or one particular word in one particular position.",
      [G + "rust/mod.rs", G + "backend.rs", G + "backend_translation.rs"],
      [("reserved names", G + "backend.rs: Names::try_reserve_repeat"), ("names of types", G + "rust/mod.rs: reserve_type_name"), ("names of members", G + "rust/mod.rs: reserve_field_name")]),
    P("P19", "What the compiler generates for an accepted schema compiles",
      "For every schema the compiler accepts, the generated code type-checks against the runtime, in every language edition, with any set of the runtime's features and in crates without the standard library.",
      "inputs", "all schemas, all editions and runtime feature sets",
      "Each declaration is generated from a table of special cases (type, presence, default, derives); a combination absent from the fixtures is compiled by nobody before a user does.",
      [G + "rust/mod.rs", G + "rust/analysis.rs", G + "backend_translation.rs", TPL + "table.template", TPL + "struct.template", TPL + "enum.template", TPL + "union.template"],
      [("derives", G + "rust/analysis.rs"), ("generated code", G + "rust/mod.rs: generate_code")]),
]
PROPS += [
    P("P07", "Data in a builder is shared only with equal data, and clearing it forgets everything",
      "When a builder hands out an earlier string, byte vector or vtable instead of writing a new one, that earlier object's whole contents equal the whole of what was to be written, and strings are never shared with byte vectors. After a builder is cleared it behaves like a new one: nothing from before is shared, and no alignment promise is left over.",
      "inputs histories", "all sequences of values written and of clearings, all hash collisions",
      "Two different values that are confused must collide in a hash or be prefixes of each other; a leftover from before a clear shows only for particular sequences.",
      [R + "builder.rs", R + "builder_cache.rs", R + "impls/str.rs", R + "impls/byte_slice.rs"],
      [("comparison on a hit", R + "builder_cache.rs: Cache::get"), ("cached strings", R + "impls/str.rs"), ("clearing", R + "builder.rs: Builder::clear")]),
]
PROPS += [
    P("P39", "Vectors read from a buffer behave like slices of their elements",
      "Indexing a vector or union vector by a number or any kind of range, splitting it and asking for its length give exactly what the same operation on a slice of its elements gives, and nothing when the index is out of range. Iterators over elements, chunks, exact chunks and windows, taken from either end with any number of items skipped, yield every item once and in order, know how many are left, and stay exhausted once they are.",
      "inputs histories", "all vectors, indices, ranges, chunk sizes and sequences of calls on the iterators",
      "The tests step through a few short vectors; a wrong remainder, an overflowing skip or a wrong last chunk needs particular lengths, sizes and call orders.",
      [R + "vectors/vector.rs", R + "vectors/iterators.rs", R + "union_vectors/union_vector.rs", R + "union_vectors/iterators.rs"],
      [("indexing", R + "vectors/vector.rs: VectorIndex"), ("iterators", R + "vectors/iterators.rs: Iter, Chunks, RChunks, ChunksExact, RChunksExact, Windows")]),
]
PROPS += [
    P("P20", "Errors in a schema give a failing exit and no output, success a complete one",
      "When any error is reported for any of the files given, the compiler exits with a failure and creates, truncates and prints no output; the formatter prints or rewrites nothing unless told to ignore errors. When it exits with success, the whole generated text has been written to the file named, and every write succeeded.",
      "inputs", "all schemas, all errors at any place, all failures of the file system",
      "Tests of the command line cover a few error messages; an error kind that is not recorded, a result that slips through or a short write on a full disk shows in none.",
      [T + "lib.rs", T + "ctx.rs", T + "error.rs", T + "intermediate_language/mod.rs", "crates/planus-cli/src/main.rs"] + ["crates/planus-cli/src/app/%s.rs" % x for x in ("rust", "dot", "check", "format", "mod")],
      [("error record", T + "ctx.rs: Ctx::emit_error, has_errors"), ("result of a translation", T + "intermediate_language/mod.rs: translate_files_with_options"), ("formatter", T + "lib.rs: format_file"),
       ("commands", "crates/planus-cli/src/app: Command::run")]),
    P("P21", "Nothing a schema declares is dropped without an error",
      "Every declaration, field, variant, value and attribute that appears in a schema either becomes part of the result or is the subject of a reported error: none is skipped, cut off, overwritten by another of the same name or left out because it is unusual. The exceptions are unknown attributes when the caller asks for them to be ignored.",
      "inputs", "all schemas, whatever they declare and in whatever order, and all combinations of errors",
      "Tests contain the declarations their authors thought of; an item that is only dropped in an unusual shape, number or combination vanishes without a trace in the generated code.",
      [T + "ast_convert.rs", T + "ctx.rs", I, T + "intermediate_language/ast_map.rs", T + "intermediate_language/checks/compatibility.rs"],
      [("from syntax to declarations", T + "ast_convert.rs: CstConverter"), ("from declarations to types", I + ": Translator"), ("files and includes", T + "intermediate_language/ast_map.rs: AstMap")]),
    P("P33", "Numbers written in a schema keep their exact value or are rejected",
      "Every integer in a schema (a default, an enum value, an id or an alignment), however it is written (decimal, hexadecimal, with separators, signs or leading zeros), means exactly the value it denotes, or is rejected with an error exactly when its type cannot hold that value; a float means the correctly rounded value of its own width. An enum variant without a value has the value of the variant before it plus one, the first has zero.",
      "inputs", "all literals, of all types",
      "Tests contain a handful of ordinary numbers; a wrong digit, base, sign, limit or rounding shows only for the literal that hits it, and then silently changes data.",
      [T + "ast_convert.rs", I, "crates/planus-types/src/intermediate.rs", G + "rust/mod.rs"],
      [("integers", I + ": Translator::translate_integer"), ("floats", I + ": Translator::translate_float"), ("array sizes", T + "ast_convert.rs: integer_literal_to_u32"), ("implicit enum values", I + ": Translator::translate_enum"), ("literals in generated code", G + "rust/mod.rs")]),
    P("P35", "A text in quotes keeps exactly what it denotes",
      "A text written in quotes in a schema, with any mix of plain characters, escapes and the other kind of quote, means exactly the characters it denotes, in order, none lost, added or changed, however long it is. An escape that denotes nothing is reported. A default text reaches the generated code with exactly that meaning.",
      "inputs", "all texts in quotes",
      "Tests contain a handful of short plain texts; an escape, quote, line break, character or length that is treated wrongly silently changes default values and file names.",
      ["crates/planus-lexer/src/text_lexer.rs", "crates/planus-lexer/src/full_lexer.rs", T + "ast_convert.rs", I, G + "rust/mod.rs"],
      [("pieces of a text", "crates/planus-lexer/src/text_lexer.rs: Text::run_lexer"), ("token", "crates/planus-lexer/src/full_lexer.rs: Lexer::consume_string_token"), ("syntax tree", T + "ast_convert.rs: convert_string_literal, convert_expr_kind"), ("default", I + ": Translator::translate_literal"), ("generated constant", G + "rust/mod.rs: RustBackend::generate_table_field")]),
    P("P40", "Struct readers compare, order and hash like the structs they read",
      "Two readers of a struct are equal exactly when all of its fields are, wherever and in whichever buffers they lie. They are ordered by the first field, in the order of the schema, that differs, and hashing one feeds every field to the hasher in that order, as for the struct itself; a floating point NaN makes them unequal and unordered as it does for the struct.",
      "inputs", "all structs without enums, all pairs of values",
      "Tests compare a few values of two structs; a field that is left out, compared with itself or taken out of order only shows for values that agree in all others.",
      [G + "templates/rust/struct.template", G + "rust/mod.rs", G + "rust/analysis.rs"],
      [("comparing", G + "templates/rust/struct.template: PartialEq, PartialOrd, Ord and Hash of the reader"), ("which apply", G + "rust/analysis.rs: EqAnalysis")]),
    P("P41", "An array cursor fills every element exactly once, or stops",
      "A cursor over an array that is not filled yet can only be used up by writing each of its elements exactly once, with the values given, in order. Splitting it hands out adjoining parts that do not overlap and make up the whole, and sizes that do not fit are refused when the program is compiled. A cursor given up with elements left never goes unnoticed: it panics.",
      "inputs", "all element types and sizes, all sequences of calls",
      "Tests write two small arrays; a size, a split or a forgotten rest that goes wrong leaves bytes of a message uninitialised, which no test of the result can see reliably.",
      ["crates/array-init-cursor/src/lib.rs", "crates/array-init-cursor/src/util.rs"],
      [("writing", "crates/array-init-cursor/src/lib.rs: Cursor::finish, Cursor::write"), ("splitting", "crates/array-init-cursor/src/util.rs: split_mut, check"), ("giving up", "crates/array-init-cursor/src/lib.rs: Drop for Cursor")]),
    P("P31", "What a schema must not say is rejected",
      "A schema is only accepted without an error if each construct in it is one the format allows and planus supports: field, variant and element types, defaults, optional and required markers, attributes where they stand, ids that number the fields without gaps or overlaps, and alignments and sizes that fit. Anything else is reported, and the command fails; nothing is silently ignored, wrapped around or given another meaning.",
      "inputs", "all schemas",
      "Tests contain a handful of rejected schemas; the rules combine (an optional enum with a default and a required marker, an id on a list of unions), and a rule that is skipped in one combination silently yields buffers others cannot read.",
      [I, "crates/planus-types/src/intermediate.rs", "crates/planus-types/src/ast.rs", T + "ctx.rs"],
      [("rules per construct", I + ": Translator::translate_table_field, translate_struct_field, translate_literal, translate_alignment"), ("ids", I + ": Translator::translate_table"), ("sizes", I + ": Translator::resolve_struct_sizes, resolve_table_sizes")]),
    P("P28", "What is written is read back equal, for every value",
      "For every schema and every value of its types, serialising the value and reading the result gives back an equal value.",
      "inputs", "all schemas and all values",
      "Tests round-trip some values of some schemas.",
      [R + "builder.rs", R + "table_reader.rs", G + "rust/mod.rs"],
      [("round trip", R + "builder.rs and " + R + "table_reader.rs")],
      na="the statement composes offsets chosen at run time over nested objects of unbounded depth; its per-object halves are decided by P03-P05, P10-P16, P24 and P25, but their composition into value equality is a proof about heap shapes, not a static analysis in reach"),
    P("P29", "Buffers are byte-compatible with the reference implementation",
      "Every buffer planus writes is read with the same contents by the reference FlatBuffers implementations, and the other way round.",
      "inputs", "all schemas and values",
      "Tests compare some recorded buffers.",
      [R + "builder.rs", R + "table_reader.rs"],
      [("wire format", R + "table_writer.rs, " + R + "table_reader.rs")],
      na="the other implementation is not part of this source tree; what can be decided from this source alone (the format's layout rules) is P04, P05, P10, P11 and P25"),
    P("P22", "Formatting a schema keeps all of it, comments included",
      "The text the formatter prints for a schema that parses has the same words, punctuation, names, literals, attributes and nesting in the same order, with the separators the grammar asks for and neighbouring words kept apart, so that it means the same. Every comment of the input, wherever it stands, appears exactly once in the output, with its marker, on a line it ends.",
      "inputs", "all schemas and all comments in them",
      "Tests format a handful of files; which part or comment is lost depends on the combination of optional parts and on which token of which construct the comment stands at.",
      [T + "pretty_print.rs", "crates/planus-types/src/cst.rs", "crates/planus-lexer/src/raw_lexer.rs"],
      [("printing", T + "pretty_print.rs: PrettyPrinter, pretty_print"), ("comments of a part", "crates/planus-types/src/cst.rs: token_metas, token_metadata_iterator"), ("comment markers", "crates/planus-lexer/src/raw_lexer.rs: CommentKind::to_string")]),
    P("P30", "Formatting a formatted schema changes nothing",
      "Formatting the output of the formatter gives the same text again, and the formatted text means the same schema.",
      "inputs", "all schemas",
      "Tests format some files.",
      [T + "pretty_print.rs"],
      [("formatter", T + "pretty_print.rs")],
      na="equality of texts after lexing and parsing again quantifies over strings built at run time through a generated LR parser"),
    P("P32", "The interactive inspector never crashes on any buffer",
      "Whatever bytes the inspected file holds, the viewer shows what can be decoded and never panics.",
      "inputs", "all byte strings and all key presses",
      "The viewer has no tests.",
      ["crates/planus-buffer-inspection/src/lib.rs", "crates/planus-inspector/src/ui.rs"],
      [("decoder", "crates/planus-buffer-inspection/src/lib.rs")],
      na="the viewer indexes buffers with offsets it has bounded through earlier interactive state kept in maps and trees; bounding these needs invariants over the history of key presses"),
    P("P34", "The compiler never panics",
      "For every schema text the command line tool ends with generated code or with an error message, never with a panic.",
      "inputs", "all schema texts",
      "Tests compile some hundred schemas.",
      [I, G + "rust/mod.rs"],
      [("front end", I + ": Translator"), ("generator", G + "rust/mod.rs: RustBackend")],
      na="the generator rests on invariants between passes (every declaration resolved, every size known) kept in maps filled at run time; the arithmetic and literal parts are covered by P31 and P33, the rest is unwraps on map lookups no static argument in reach discharges"),
]
