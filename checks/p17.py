"""The builder writes each value to the field it was set for."""
from sa import gcheck

RULE = (
    "The compiler is run on witness schemas and the code it generates is type-checked, lowered to MIR and interpreted abstractly together with the runtime crate, with calls of table accessors, table writer and builder recorded as events. "
    "Obligations: each setter of a generated builder adds exactly its argument (or the default or null marker) to what was set before; finishing writes the value of each setter to that field's slot, with the field's presence and default; setters exist exactly for what the schema allows; a union builder's setter leads to the tag of its variant."
)
TRUSTED = gcheck.TRUSTED
TECHNIQUE = "abstract interpretation of the generated code's MIR against a schema model"


def check(store, rep):
    gcheck.run(store, rep, ("builder", "slot/value:", "slot/order:", "slot/prepare:", "slot/delegate:", "slot/entry:", "slot/paths:", "presence/write:", "number/create:", "number/write:"), {"builder": 2200})
