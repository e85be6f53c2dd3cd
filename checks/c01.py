"""Cashflows, legs and quotes: every operation value-numbered and compared with
its definition (component by component, with the panic guards as conditions)."""
from spec import *
import term as TM
import models

FLOOR = 20
CR = "RustQuant_cashflows"
CF, LEG, SQ = "cashflow::Cashflow", "legs::Leg", "quotes::SimpleQuote"
a, b, x, d = V("a b x d")


def run(C):
    C.part("cashflow", cashflow)
    C.part("leg", leg)
    C.part("quote", quote)


def g(C, t, f, ty=CF):
    return C.S.get(t, ty, f, CR)


def same(C, n, got, amount, date, it, assume=()):
    C.eq(n + ": amount", g(C, got, "amount"), amount, it, assume)
    C.eq(n + ": date", g(C, got, "date"), date, it, assume)


def cashflow(C):
    A, D, B, E = (g(C, a, "amount"), g(C, a, "date"), g(C, b, "amount"), g(C, b, "date"))
    it = C.method("Cashflow", "new", None, CR)
    r = C.ev(it, [x, d])
    if r:
        same(C, "new", r.ret, x, d, it)
    for nm, w in (("amount", A), ("date", D)):
        it = C.method("Cashflow", nm, None, CR)
        r = C.ev(it, [a])
        if r:
            C.eq(nm, r.ret, w, it)
    it = C.method("Cashflow", "npv", None, CR)
    r = C.ev(it, [a, x])
    if r:
        C.eq("cashflow npv", r.ret, A * x, it)
        C.fact("cashflow npv: total", runs(r) is TRUE, it, "panics unless " + show(runs(r)))
    for nm, w in (("add", A + B), ("sub", A - B)):
        for it in need(C, nm):
            r = C.ev(it, [a, b])
            if r:
                same(C, nm, r.ret, w, D, it, [eq(D, E)])
                C.eq(nm + ": only on one date", runs(r), eq(D, E), it, rule="guard")
        for it in need(C, nm + "_assign"):
            r = C.ev(it, [a, b], state={a: a})
            if r:
                same(C, nm + " assign", r.final(a), w, D, it, [eq(D, E)])
                C.eq(nm + " assign: only on one date", runs(r), eq(D, E), it, rule="guard")
    for nm, w in (("mul", A * x), ("div", A / x)):
        for it in need(C, nm):
            r = C.ev(it, [a, x])
            if r:
                same(C, nm, r.ret, w, D, it)
                C.fact(nm + ": total", runs(r) is TRUE, it, "panics unless " + show(runs(r)))
        for it in need(C, nm + "_assign"):
            r = C.ev(it, [a, x], state={a: a})
            if r:
                same(C, nm + " assign", r.final(a), w, D, it)
    for it in need(C, "neg"):
        r = C.ev(it, [a])
        if r:
            same(C, "neg " + it.path.split(" as")[0], r.ret, -A, D, it)
            f = r.final(a)
            if f is not a:
                same(C, "neg leaves its operand", f, A, D, it)


def need(C, nm, ty="Cashflow"):
    its = C.F.method(ty, nm, None, CR)
    if not its:
        raise SpecError("%s::%s not found" % (ty, nm))
    return its


def leg(C):
    fl = g(C, a, "cashflows", LEG)
    date = lambda j: g(C, fl[j], "date")
    n = LEN(fl)
    it = C.method("Leg", "new", None, CR)
    r = C.ev(it, [x])
    if r:
        C.eq("leg new", g(C, r.ret, "cashflows", LEG), x, it)
    it = C.method("Leg", "size", None, CR)
    r = C.ev(it, [a])
    if r:
        C.eq("leg size", r.ret, n, it)
    it = C.method("Leg", "cashflows", None, CR)
    r = C.ev(it, [a])
    if r:
        C.eq("leg cashflows", r.ret, fl, it)
    it = C.method("Leg", "npv", None, CR)
    r = C.ev(it, [a, x])
    if r:
        C.eq("leg npv", r.ret, SUM(n, lambda j: g(C, fl[j], "amount") * x), it)
    it = C.method("Leg", "add_cashflow", None, CR)
    r = C.ev(it, [a, b], state={a: a})
    if r:
        C.eq("leg add: appended", g(C, r.final(a), "cashflows", LEG), models.vpush(fl, b), it)
    first, last = mk("SMIN", n, lamf(date)), mk("SMAX", n, lamf(date))
    ne_ = cmp("lt", num(0), n)
    for nm, w in (("start_date", first), ("end_date", last)):
        it = C.method("Leg", nm, None, CR)
        r = C.ev(it, [a])
        if r:
            C.eq("leg %s: defined iff not empty" % nm, cmp("eq", discr(r.ret, 2), num(1)), ne_, it)
            C.eq("leg " + nm, fld(r.ret, 1, 0, "core::option::Option", 1), w, it, [ne_])
    it = C.method("Leg", "is_active", None, CR)
    r = C.ev(it, [a, d])
    if r:
        j = lambda t: fn("jdn", t)
        C.eq("leg active", r.ret, And(ne_, j(first) <= j(d), j(d) <= j(last)), it)


def quote(C):
    v = g(C, a, "value", SQ)
    O = lambda t: fld(t, 1, 0, "core::option::Option", 1)
    isv = lambda t: cmp("eq", discr(t, 2), num(1))

    def opteq(n, got, want, it, assume=()):
        assume = list(assume)
        C.eq(n + ": present", isv(got), isv(want), it, assume)
        C.eq(n + ": content", O(got), O(want), it, assume + [isv(want)])
    it = C.method("SimpleQuote", "new", None, CR)
    r = C.ev(it, [x])
    if r:
        opteq("quote new", g(C, r.ret, "value", SQ), x, it)
    it = C.method("SimpleQuote", "value", None, CR)
    r = C.ev(it, [a])
    if r:
        opteq("quote value", r.ret, v, it)
    it = C.method("SimpleQuote", "is_valid", None, CR)
    r = C.ev(it, [a])
    if r:
        C.eq("quote validity", r.ret, isv(v), it)
    it = C.method("SimpleQuote", "set_value", None, CR)
    r = C.ev(it, [a, x], state={a: a})
    if r:
        for na, ca in (("unset", not_(isv(v))), ("set", isv(v))):
            for nb, cb in (("nothing", not_(isv(x))), ("a value", isv(x))):
                n = "quote %s, set to %s" % (na, nb)
                opteq(n, g(C, r.final(a), "value", SQ), x, it, [ca, cb])
                w = If(isv(x), If(isv(v), O(x) - O(v), O(x)), 0)
                C.eq(n + ": change returned", r.ret, w, it, [ca, cb])
    it = C.method("SimpleQuote", "reset", None, CR)
    r = C.ev(it, [a], state={a: a})
    if r:
        C.eq("quote reset", isv(g(C, r.final(a), "value", SQ)), FALSE, it)
