"""Absent fields read as the schema's default."""
from sa import gcheck

RULE = (
    "The compiler is run on witness schemas and the code it generates is type-checked, lowered to MIR and interpreted abstractly together with the runtime crate, with calls of table accessors, table writer and builder recorded as events. "
    "Obligations: the value an accessor returns for an absent field, the value a writer compares with to leave a field out, the field of the owned type's default value, and the value the owned conversion gives an absent field are all the literal in the schema (or zero, false, the empty string or vector, the enum value named)."
)
TRUSTED = gcheck.TRUSTED
TECHNIQUE = "abstract interpretation of the generated code's MIR against a schema model"


def check(store, rep):
    gcheck.run(store, rep, ("default", "number/default:"), {"default": 900})
