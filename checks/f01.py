"""Money and foreign exchange: arithmetic and comparison only within one
currency; conversions use the rate of exactly the requested pair and direction."""
from spec import *
import term as TM
import models

FLOOR = 15
CR = "RustQuant_instruments"
MO, CU, ER, EX, CP = "money::Money", "currency::Currency", "exchange::ExchangeRate", "exchange::Exchange", "currency::CurrencyPair"
a, b, c, d, x = V("a b c d x")
CUF = "name symbol code minor fractions".split()
OPT = "core::option::Option"


def run(C):
    C.part("money", money)
    C.part("currency", currency)
    C.part("exchange", exchange)


def m(C, t, f, ty=MO):
    return C.S.get(t, ty, f, CR)


def code(C, cu, f):
    return C.S.get(m(C, cu, "code", CU), "ISO_4217", f, "RustQuant_iso")


def samecode(C, u, v):
    return And(eq(code(C, u, "alphabetic"), code(C, v, "alphabetic")), eq(code(C, u, "numeric"), code(C, v, "numeric")))


def identical(C, u, v):
    return And(samecode(C, u, v), *[eq(m(C, u, f, CU), m(C, v, f, CU)) for f in CUF if f != "code"])


def cueq(C, n, got, want, it, assume=()):
    for f in CUF:
        if f == "code":
            for f2 in ("alphabetic", "numeric"):
                C.eq("%s: currency code %s" % (n, f2), code(C, got, f2), code(C, want, f2), it, assume)
        else:
            C.eq("%s: currency %s" % (n, f), m(C, got, f, CU), m(C, want, f, CU), it, assume)


def guard(C, n, r, it, u, v):
    """runs when the currencies are identical, never when their codes differ"""
    C.prove(n + ": defined within a currency", runs(r), it, [identical(C, u, v)], rule="guard")
    for f in ("alphabetic", "numeric"):
        C.eq(n + ": refused across currencies (%s)" % f, runs(r), FALSE, it, [ne(code(C, u, f), code(C, v, f))], rule="guard")


def money(C):
    A, B = m(C, a, "amount"), m(C, b, "amount")
    u, v = m(C, a, "currency"), m(C, b, "currency")
    same = [identical(C, u, v)]
    it = C.method("Money", "new", None, CR)
    r = C.ev(it, [c, x])
    if r:
        C.eq("money new: amount", m(C, r.ret, "amount"), x, it)
        cueq(C, "money new", m(C, r.ret, "currency"), c, it)
    for nm, w in (("amount", A),):
        it = C.method("Money", nm, None, CR)
        r = C.ev(it, [a])
        if r:
            C.eq("money " + nm, r.ret, w, it)
    it = C.method("Money", "currency", None, CR)
    r = C.ev(it, [a])
    if r:
        cueq(C, "money currency", r.ret, u, it)
    for nm, w in (("add", A + B), ("sub", A - B), ("mul", A * B), ("div", A / B)):
        for it in need(C, "Money", nm):
            r = C.ev(it, [a, b])
            if r:
                C.eq("money %s: amount" % nm, m(C, r.ret, "amount"), w, it, same)
                cueq(C, "money " + nm, m(C, r.ret, "currency"), u, it, same)
                guard(C, "money " + nm, r, it, u, v)
    it = C.method("Money", "eq", None, CR)
    r = C.ev(it, [a, b])
    if r:
        C.eq("money equal", If(r.ret, 1, 0), If(And(samecode(C, u, v), eq(A, B)), 1, 0), it)
    it = C.method("Money", "partial_cmp", None, CR)
    r = C.ev(it, [a, b])
    if r:
        s = discr(r.ret, 2)
        C.eq("money ordered within a currency", s, num(1), it, same)
        for f in ("alphabetic", "numeric"):
            C.eq("money unordered across currencies (%s)" % f, s, num(0), it, [ne(code(C, u, f), code(C, v, f))])
        o = discr(fld(r.ret, 1, 0, OPT, 1), 3)
        C.eq("money order", o, If(A < B, 0, If(eq(A, B), 1, 2)), it, same)


def need(C, ty, nm):
    its = C.F.method(ty, nm, None, CR)
    if not its:
        raise SpecError("%s::%s not found" % (ty, nm))
    return its


def currency(C):
    vs = V("nm sy co mi fr")
    it = C.method("Currency", "new", None, CR)
    r = C.ev(it, vs)
    if r:
        for f, v in zip(CUF, vs):
            C.eq("currency new: " + f, m(C, r.ret, f, CU), v, it)
    for f in CUF:
        it = C.method("Currency", f, None, CR)
        r = C.ev(it, [a])
        if r:
            C.eq("currency " + f, r.ret, m(C, a, f, CU), it)
    it = C.method("Currency", "price", None, CR)
    r = C.ev(it, [a])
    if r:
        C.eq("a currency is worth one of itself", r.ret, 1, it)
    for it in C.F.method("Currency", "eq", None, CR):
        r = C.ev(it, [a, b])
        if r:
            C.prove("currency equal: reflexive", r.ret, it, [identical(C, a, b)])
            C.eq("currency equal: codes agree", If(r.ret, 1, 0), 0, it, [not_(samecode(C, a, b))])
    it = C.method("CurrencyPair", "new", None, CR)
    r = C.ev(it, [a, b])
    if r:
        C.eq("pair base", m(C, r.ret, "base", CP), a, it)
        C.eq("pair quote", m(C, r.ret, "quote", CP), b, it)


def exchange(C):
    it = C.method("ExchangeRate", "new", None, CR)
    r = C.ev(it, [a, b, x])
    if r:
        C.eq("rate new: from", m(C, r.ret, "from_currency", ER), a, it)
        C.eq("rate new: to", m(C, r.ret, "to_currency", ER), b, it)
        C.eq("rate new: rate", m(C, r.ret, "rate", ER), x, it)
    it = C.method("ExchangeRate", "convert", None, CR)
    r = C.ev(it, [a, b])
    cu = m(C, b, "currency")
    if r:
        fr = m(C, a, "from_currency", ER)
        same = [identical(C, cu, fr)]
        C.eq("rate convert: amount", m(C, r.ret, "amount"), m(C, b, "amount") * m(C, a, "rate", ER), it, same)
        cueq(C, "rate convert", m(C, r.ret, "currency"), m(C, a, "to_currency", ER), it, same)
        guard(C, "rate convert", r, it, cu, fr)
    rates = m(C, a, "rates", EX)
    pair = lambda u, v: C.S.make(CP, CR, base=u, quote=v)
    h = models.haskey
    it = C.method("Exchange", "new", None, CR)
    r = C.ev(it, [])
    if r:
        C.eq("exchange new: empty", If(h(m(C, r.ret, "rates", EX), pair(b, c)), 1, 0), 0, it)
    it = C.method("Exchange", "add_rate", None, CR)
    r = C.ev(it, [a, b], state={a: a})
    if r:
        got = m(C, r.final(a), "rates", EX)
        k0 = pair(m(C, b, "from_currency", ER), m(C, b, "to_currency", ER))
        kv = var("k?")
        for n, k, ass, hw, w in (("the pair", k0, [], TRUE, b), ("another pair", kv, [ne(kv, k0)], h(rates, kv), rates[kv])):
            C.eq("add rate: %s present" % n, If(h(got, k), 1, 0), If(hw, 1, 0), it, ass)
            g_ = expand_reads(got[k])
            C.eq("add rate: %s rate" % n, m(C, g_, "rate", ER), m(C, w, "rate", ER), it, ass + [hw])
            for f in ("from_currency", "to_currency"):
                C.eq("add rate: %s %s" % (n, f), m(C, g_, f, ER), m(C, w, f, ER), it, ass + [hw])
    it = C.method("Exchange", "get_rate", None, CR)
    r = C.ev(it, [a, b, c])
    if r:
        k0 = pair(b, c)
        C.eq("get rate: present iff listed", If(cmp("eq", discr(r.ret, 2), num(1)), 1, 0), If(h(rates, k0), 1, 0), it)
        C.eq("get rate", fld(r.ret, 1, 0, OPT, 1), rates[k0], it, [h(rates, k0)])
    it = C.method("Exchange", "convert", None, CR)
    r = C.ev(it, [a, b, c])
    if r:
        k0 = pair(cu, c)
        rt = rates[k0]
        # rates are stored under the pair they convert between (add_rate)
        ok = [h(rates, k0), identical(C, m(C, rt, "from_currency", ER), cu), identical(C, m(C, rt, "to_currency", ER), c)]
        C.prove("exchange convert: defined when the rate is listed", runs(r), it, ok, rule="guard")
        C.eq("exchange convert: refused when no rate is listed", If(runs(r), 1, 0), 0, it, [not_(h(rates, k0))], rule="guard")
        C.eq("exchange convert: amount", m(C, r.ret, "amount"), m(C, b, "amount") * m(C, rt, "rate", ER), it, ok)
        cueq(C, "exchange convert", m(C, r.ret, "currency"), c, it, ok)
