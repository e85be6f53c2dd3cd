"""Market identifier codes: operating markets are listed themselves and operate
themselves, segments lie in the country of the market that operates them, a
market lies in the country of its city, and countries are those of the standard."""
from ziso import *

FLOOR = 2000
CR = "RustQuant_iso"
TY = "ISO_10383"
FS = ("operating_mic", "country_code", "oprt_sgmt", "status", "city")


def run(C):
    C.part("markets", markets)


def flag(C, t, enum):
    if t.op == "agg":
        return C.S.adt(enum, CR)["variants"][t.a[1]]["name"]
    return None


def markets(C):
    got = rows(C, CR, TY, FS)
    if not got:
        raise SpecError("no market constants")
    alpha2 = {v[0] for v in T["countries"].values()} | {"ZZ"}       # ZZ: no country
    D = {}
    for nm, (d, it) in sorted(got.items()):
        v = [text(d, "operating_mic"), text(d, "country_code"), flag(C, d["oprt_sgmt"], "OperatingOrSegment"), flag(C, d["status"], "MICStatus"), text(d, "city")]
        if None in v:
            C.undecided("%s" % nm, it, "not literal")
        else:
            D[nm] = v + [it]
    for nm, (op, cc, seg, st, city, it) in D.items():
        bad = []
        if cc not in alpha2:
            bad.append("%s is no country" % cc)
        if op not in D:
            bad.append("operating market %s is not listed" % op)
        if (seg == "Operating") != (op == nm):
            bad.append("%s market operated by %s" % (seg, op))
        if st != "Expired" and op in D and D[op][2] != "Operating":
            bad.append("operated by the segment %s" % op)
        if st != "Expired" and op in D and D[op][1] != cc:
            bad.append("in %s, its operating market in %s" % (cc, D[op][1]))
        if nm in T["operating"] and T["operating"][nm] != op:
            bad.append("operated by %s, published with %s" % (op, T["operating"][nm]))
        places = T["cities"].get(city.strip().upper())
        if places is not None and cc not in places:
            bad.append("%s does not lie in %s" % (city, cc))
        C.fact("%s" % nm, not bad, it, "; ".join(bad) or "consistent", rule="register")
