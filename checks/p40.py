"""Readers of structs compare, order and hash like the values they stand for."""
from sa import gcheck

RULE = (
    "The compiler is run on witness schemas and the code it generates is type-checked, lowered to MIR and interpreted abstractly. Each comparison, ordering or hashing of two parts of "
    "the readers is an event with one successor per possible outcome (less, equal, greater, and unordered where floating point numbers are involved); comparisons written with operators become facts of the path. "
    "Obligations, for every struct without enums and on every path: `eq` answers true only where every field is known to be equal and false only where one is known to differ; "
    "`partial_cmp` and `cmp` answer the relation of the first field, in the order of the schema, that is not equal; `hash` feeds every field, in that order; no comparison is of two different fields or of a field with itself."
)
TRUSTED = gcheck.TRUSTED + ["sa/cmpspec.py (the specification of comparisons)"]
TECHNIQUE = "abstract interpretation of the generated code's MIR, relations of fields per path"


def check(store, rep):
    gcheck.run(store, rep, ("compare",), {"compare": 800})
    rep.assumptions.append("comparing, ordering and hashing the numbers of Rust's own types is as the standard library documents it; the getters return the fields (P15 decides that)")
