"""Accessors carry the schema's names, and errors name the place they come from."""
from sa import gcheck

RULE = (
    "The compiler is run on witness schemas and the code it generates is type-checked, lowered to MIR and interpreted abstractly together with the runtime crate, with calls of table accessors, table writer and builder recorded as events. "
    "Obligations: every live field has an accessor of its name, and the table and field names it passes on for errors are those of the schema; conversions of enum fields in structs, vectors of tables and roots name themselves."
)
TRUSTED = gcheck.TRUSTED
TECHNIQUE = "abstract interpretation of the generated code's MIR against a schema model"


def check(store, rep):
    gcheck.run(store, rep, ("name", "slot/read:", "struct/getter:"), {"name": 500})
