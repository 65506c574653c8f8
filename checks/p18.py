"""Names of a schema come out as distinct, usable names."""
from sa import facts, gcheck, genspec, witness

RULE = (
    "The compiler is run on witness schemas whose names are reserved words of Rust, names of the runtime and the prelude, names in other spellings than Rust's, and names that collide with each other, with generated helper names or with type parameters after conversion. "
    "Obligations: what is generated type-checks (so no two items share a name and no name is reserved or shadowed), and for the schema of reserved and respelled names the whole generated code is interpreted abstractly: every member is found under the expected name and its reader, writer, builder, conversion, number and default are those of that very member."
)
TRUSTED = gcheck.TRUSTED
TECHNIQUE = "type-checking and abstract interpretation of the code generated for witness schemas of difficult names"


def check(store, rep):
    for k, files in witness.CLASH_FILES.items():
        try:
            crate, texts = store.witness(k, files)
            rep.ob(True, "clash:" + k, "what is generated for %s type-checks: %d functions" % (k, len(crate.fns)))
        except facts.GenFailure as e:
            rep.ob(False, "clash:" + k, "schema %s (names that collide) does not give usable code (%s): %s" % (k, e.kind, e.text[-1500:]))
    gcheck.run(store, rep, ("name", "slot", "number", "builder", "convert", "default", "presence", "readtype", "writetype"), {"name": 150, "slot": 600}, [("names", witness.names)])
