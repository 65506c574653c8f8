"""Structs have the documented layout."""
from sa import gcheck

RULE = (
    "The compiler is run on witness schemas and the code it generates is type-checked, lowered to MIR and interpreted abstractly together with the runtime crate, with calls of table accessors, table writer and builder recorded as events. "
    "Obligations: size, alignment and stride constants, the offset every getter reads at and the offset every field is written at equal those computed from the schema; the bytes in between are written as zeroes, every byte of the struct is written once; the writer reserves the struct's size at its alignment; the reader accepts a position exactly when the whole struct lies inside the buffer."
)
TRUSTED = gcheck.TRUSTED
TECHNIQUE = "abstract interpretation of the generated code's MIR against a schema model"


def check(store, rep):
    gcheck.run(store, rep, ("struct",), {"struct": 1200})
