"""Optional, required, defaulted and deprecated fields behave as declared."""
from sa import gcheck

RULE = (
    "The compiler is run on witness schemas and the code it generates is type-checked, lowered to MIR and interpreted abstractly together with the runtime crate, with calls of table accessors, table writer and builder recorded as events. "
    "Obligations: accessors of optional fields pass on absence, of required fields report it as an error, of defaulted fields replace it; writers use the corresponding trait; the owned type has none for absent optional fields; deprecated fields have no accessor and are never written."
)
TRUSTED = gcheck.TRUSTED
TECHNIQUE = "abstract interpretation of the generated code's MIR against a schema model"


def check(store, rep):
    gcheck.run(store, rep, ("presence", "default/read:", "default/write:"), {"presence": 2200})
