"""Country codes: every constant is the standard's triple of its own country, and
the lookup by alpha-2 code finds exactly the country with that code."""
from ziso import *

FLOOR = 250
CR = "RustQuant_iso"
TY = "ISO_3166"
F3 = ("alpha_2", "alpha_3", "numeric")


def run(C):
    C.part("constants", constants)
    C.part("lookup", lookup)
    C.part("accessors", accessors)


def constants(C):
    got = rows(C, CR, TY, F3)
    known = {tuple(v) for v in T["countries"].values()}
    for nm, (d, it) in sorted(got.items()):
        v = tuple(text(d, f) for f in F3)
        if None in v:
            C.undecided("%s: codes" % nm, it, "not literal")
        elif nm in T["countries"]:
            want = tuple(T["countries"][nm])
            C.fact("%s: codes of the country" % nm, v == want, it, "%s, the standard has %s" % (v, want), rule="standard")
        else:
            C.fact("%s: codes of one country" % nm, v in known, it, "%s is no country of the standard" % (v,), rule="standard")
    if not got:
        raise SpecError("no country constants")


def lookup(C):
    it = C.method(TY, "from_alpha_2", None, CR)
    if not it:
        return
    for nm, want in sorted(T["countries"].items()):
        R = C.ev(it, [TM.mk("str", want[0])])
        if not R:
            return
        some_ = R.ret.op == "agg" and R.ret.a[1] == 1
        none = R.ret.op == "agg" and R.ret.a[1] == 0
        if not some_ and not none:
            C.undecided("lookup %s" % want[0], it, TM.show(R.ret, -1)[:80])
            continue
        v = some_ and [strip(C.S.get(R.ret.a[2], TY, f, CR)) for f in F3]
        C.fact("lookup %s" % want[0], v == want, it, "%s for %s" % (v or "nothing", want), rule="lookup")
    s = var("s")
    R = C.ev(it, [s])
    if R:
        m = {}
        for c in TM.subterms(R.ret):
            if c.op == "cmp" and c.a[0] == "eq" and s in c.a[1:] and any(x.op == "str" and len(x.a[0]) == 2 for x in c.a[1:]):
                x = next(x for x in c.a[1:] if x.op == "str")
                if any(x.a[0] == w[0] for w in T["countries"].values()):
                    m[c] = FALSE
        C.eq("lookup of anything else finds nothing", discr(TM.subst(R.ret, m), 2), num(0), it, rule="lookup")


def accessors(C):
    kw = {f: var(f) for f in F3}
    c = C.S.make(TY, crate=CR, **kw)
    for f in F3:
        it = C.method(TY, f, None, CR)
        R = it and C.ev(it, [c])
        if R:
            C.eq("accessor " + f, R.ret, kw[f], it)
