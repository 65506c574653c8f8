"""Fields are stored and read as the type the schema declares."""
from sa import gcheck

RULE = (
    "The compiler is run on witness schemas and the code it generates is type-checked, lowered to MIR and interpreted abstractly together with the runtime crate, with calls of table accessors, table writer and builder recorded as events. "
    "Obligations: an accessor asks the table for the type of the field; the writer announces and writes the field with that type's size and alignment, in an order of non-increasing alignment so that every value lies aligned without padding."
)
TRUSTED = gcheck.TRUSTED
TECHNIQUE = "abstract interpretation of the generated code's MIR against a schema model"


def check(store, rep):
    gcheck.run(store, rep, ("readtype", "writetype", "align"), {"readtype": 300, "writetype": 500, "align": 2400})
