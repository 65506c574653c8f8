"""Absent and default values are left out exactly when they should be."""
from sa import gcheck, wcheck

LEVEL = "proof"
RULE = (
    "Abstract interpretation of the MIR of the writing half of the runtime crate with the growable buffer summarised as a byte string growing at its front. Obligations: the preparing functions of optional and defaulted fields return 'nothing to write' exactly when the value is absent or equal to the default (floats by comparison, as documented), return the value itself otherwise, and write nothing when they leave the field out. In the code generated for the witness schemas, each field is written exactly when its preparing function returned a value, the default it is compared with is the schema's, and the null and default markers of builders mean absence."
)
TRUSTED = wcheck.TRUSTED


def check(store, rep):
    n, sp, eng, c = wcheck.run(store, rep, ("elide",), (("scalar some", 20), ("scalar none", 8), ("option some", 2), ("option none", 2), ("nothing", 3)))
    gcheck.run(store, rep, ("presence/write:", "default/write:", "number/default:", "builder/b:"), {"presence": 100, "default": 100, "number": 4, "builder": 100})
