"""Converting a reader to an owned value keeps every field."""
from sa import gcheck

RULE = (
    "The compiler is run on witness schemas and the code it generates is type-checked, lowered to MIR and interpreted abstractly together with the runtime crate, with calls of table accessors, table writer and builder recorded as events. "
    "Obligations: in the conversion from a reader to the owned type, each field of the result is derived from the accessor of that field's slot and from nothing else, presence is kept, a failing accessor makes the conversion fail with its error, and union variants and struct fields map to the same name."
)
TRUSTED = gcheck.TRUSTED
TECHNIQUE = "abstract interpretation of the generated code's MIR against a schema model"


def check(store, rep):
    gcheck.run(store, rep, ("convert", "presence/convert:", "default/convert:"), {"convert": 2000})
