"""Enum values and union tags are numbered as the schema says."""
from sa import gcheck

RULE = (
    "The compiler is run on witness schemas and the code it generates is type-checked, lowered to MIR and interpreted abstractly together with the runtime crate, with calls of table accessors, table writer and builder recorded as events. "
    "Obligations: discriminants, conversion from and to numbers, the bytes written and read, and the elision against a default agree with the numbers of the schema for each enum value (all base types, extremes, gaps); each union variant is written with its tag and read back for exactly that tag as exactly that variant; other numbers give an error that carries the number."
)
TRUSTED = gcheck.TRUSTED
TECHNIQUE = "abstract interpretation of the generated code's MIR against a schema model"


def check(store, rep):
    gcheck.run(store, rep, ("number", "builder/setter:", "builder/finish:"), {"number": 800})
