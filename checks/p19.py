"""The compiler's output compiles."""
from sa import facts, witness

RULE = (
    "The compiler is run on the witness schemas and what it generates is given to rustc's type checker (nothing is linked or run): for every language edition, with and without the runtime's default features, and inside a crate without the standard library. "
    "An accepted schema whose generated code is rejected is a violation, as is a witness schema the compiler rejects: all of them are valid."
)
TRUSTED = ["rustc's type checker"]
TECHNIQUE = "type-checking the code generated for witness schemas"
STD = ("std", "vtable-cache", "string-cache", "bytes-cache")


def check(store, rep):
    sets = {"main": witness.main().texts(), "names": witness.names().texts(), "word2024": {"word2024.fbs": "table Holder { gen: int; safe: int; raw: int; }\n"}}
    cases = [("main", "2021", STD, ""), ("main", "2018", STD, ""), ("main", "2024", STD, ""), ("main", "2021", (), "#![no_std]\n"), ("names", "2021", STD, ""), ("names", "2018", (), ""), ("names", "2024", STD, ""), ("word2024", "2021", STD, ""), ("word2024", "2024", STD, "")]
    n = 0
    for stem, edition, feats, attrs in cases:
        key = "%s:%s%s" % (stem, edition, ":no_std" if attrs else "")
        try:
            texts, r = store.generate(stem, sets[stem])
            if r["rc"] != 0:
                raise facts.GenFailure("generate", r["out"][-4000:])
            c = store.check_rust(stem, {k + ".rs": v for k, v in texts.items()}, feats=feats, edition=edition, attrs=attrs)
            rep.ob(True, key, "the code generated for witness schema %s type-checks (edition %s, features %s%s)" % (stem, edition, ",".join(feats) or "none", ", no_std" if attrs else ""))
            rep.cov["functions type-checked: " + key] = len(c.fns)
            n += len(c.fns)
        except facts.GenFailure as e:
            rep.ob(False, key, "witness schema %s: %s" % (stem, "the compiler rejects a valid schema" if e.kind == "generate" else "the generated code does not compile in edition %s" % edition) + ":\n" + e.text[-1500:])
    rep.floor("generated functions type-checked", n, 20000)
    rep.assumptions.append("the witness schemas contain each construct of the schema language; what rustc accepts for them it accepts for other schemas with the same constructs")
