"""Currencies: every constant carries the standard's code, number and minor unit of
its own currency, and as many fractions as the minor unit has."""
from ziso import *

FLOOR = 150
CR = "RustQuant_instruments"


def run(C):
    C.part("constants", constants)
    C.part("codes", codes)


def constants(C):
    got = rows(C, CR, "Currency", ("name", "code", "minor", "fractions"))
    seen = {}
    for nm, (d, it) in sorted(got.items()):
        c = d["code"]
        a, n = (strip(C.S.get(c, "ISO_4217", f, "RustQuant_iso")) for f in ("alphabetic", "numeric"))
        mi, fr = d["minor"], d["fractions"]
        if a is None or n is None or mi.op != "num" or fr.op != "num":
            C.undecided("%s" % nm, it, "not literal")
            continue
        # a constant named by a code of the standard has that code
        C.fact("%s: code is its own" % nm, a == nm or nm not in T["currencies"], it, "code %s" % a, rule="standard")
        if a in T["currencies"]:
            want = T["currencies"][a]
            C.fact("%s: number" % nm, n == want[0], it, "%s, the standard has %s" % (n, want[0]), rule="standard")
            C.fact("%s: minor unit" % nm, mi.a[0] == want[1], it, "%s, the standard has %s" % (mi.a[0], want[1]), rule="standard")
        C.fact("%s: fractions are the minor units of one unit" % nm, fr.a[0] == 10 ** int(mi.a[0]), it,
               "%s fractions, minor unit %s" % (fr.a[0], mi.a[0]), rule="fractions")
        k = d["name"] if d["name"].op == "str" else None
        if k is not None:
            C.fact("%s: name is no other currency's" % nm, seen.get(k, a) == a, it, "shared with %s" % seen.get(k), rule="unique")
            seen[k] = a
    if not got:
        raise SpecError("no currency constants")


def codes(C):
    a, n = V("a n")
    it = C.method("ISO_4217", "new", None, "RustQuant_iso")
    R = it and C.ev(it, [a, n])
    if R:
        C.eq("code, alphabetic", C.S.get(R.ret, "ISO_4217", "alphabetic", "RustQuant_iso"), a, it)
        C.eq("code, numeric", C.S.get(R.ret, "ISO_4217", "numeric", "RustQuant_iso"), n, it)
    c = C.S.make("ISO_4217", crate="RustQuant_iso", alphabetic=a, numeric=n)
    for f, v in (("alphabetic", a), ("numeric", n)):
        it = C.method("ISO_4217", f, None, "RustQuant_iso")
        R = it and C.ev(it, [c])
        if R:
            C.eq("code, accessor " + f, R.ret, v, it)
