"""Table fields live at the slots the schema assigns."""
from sa import gcheck

RULE = (
    "The compiler is run on witness schemas and the code it generates is type-checked, lowered to MIR and interpreted abstractly together with the runtime crate, with calls of table accessors, table writer and builder recorded as events. "
    "Obligations: the slot every accessor looks up and every slot a writer fills equals the slot computed from the schema (declaration order or explicit ids, two slots for a union or vector of unions, deprecated fields keep theirs); a slot is filled exactly when the field is there; the value written at the place a slot records is the one prepared for that field; everything is prepared before, and the position returned is taken after, the table is written."
)
TRUSTED = gcheck.TRUSTED
TECHNIQUE = "abstract interpretation of the generated code's MIR against a schema model"


def check(store, rep):
    gcheck.run(store, rep, ("slot", "presence/write:", "default/write:", "builder/finish:", "builder/b:"), {"slot": 6000})
