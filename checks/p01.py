"""Portfolio: totals are sums over the positions, an update touches exactly the
named position, weights are value shares."""
from spec import *
import term as TM
import models

FLOOR = 10
CR = "RustQuant_portfolios"
a, k, x = V("a k x")
PO, PF = "Position", "Portfolio"
FIELDS = "instrument quantity purchase_price current_price currency".split()


def run(C):
    C.part("position", position)
    C.part("portfolio", portfolio)


def p(C, t, f):
    return C.S.get(t, PO, f, CR)


def position(C):
    q, c, m = p(C, a, "quantity"), p(C, a, "purchase_price"), p(C, a, "current_price")
    it = C.method(PO, "new", None, CR)
    vs = V("i q pp cp cu")
    r = C.ev(it, vs)
    if r:
        for f, v in zip(FIELDS, vs):
            C.eq("position new: " + f, p(C, r.ret, f), v, it)
    for nm, w in (("value", q * m), ("profit", q * m - q * c)):
        it = C.method(PO, nm, None, CR)
        r = C.ev(it, [a])
        if r:
            C.eq("position " + nm, r.ret, w, it)
            C.fact("position %s: total" % nm, runs(r) is TRUE, it, show(runs(r))[:200])
    for nm, f in (("update_price", "current_price"), ("update_quantity", "quantity")):
        it = C.method(PO, nm, None, CR)
        r = C.ev(it, [a, x], state={a: a})
        if r:
            for f2 in FIELDS:
                C.eq("position %s: %s" % (nm, f2), p(C, r.final(a), f2), x if f == f2 else p(C, a, f2), it)


def portfolio(C):
    ps = C.S.get(a, PF, "positions", CR)
    it = C.method(PF, "new", None, CR)
    r = C.ev(it, [x])
    if r:
        C.eq("portfolio new", C.S.get(r.ret, PF, "positions", CR), x, it)
    n = models.maplen(ps)
    key = lambda j: models.nthkey(ps, j)
    vs = SEQ(n, lambda j: ps[key(j)])
    value = SUM(n, lambda j: p(C, vs[j], "quantity") * p(C, vs[j], "current_price"))
    cost = SUM(n, lambda j: p(C, vs[j], "quantity") * p(C, vs[j], "purchase_price"))
    for nm, w in (("value", value), ("cost", cost), ("profit", value - cost)):
        it = C.method(PF, nm, None, CR)
        r = C.ev(it, [a])
        if r:
            C.eq("portfolio " + nm, r.ret, w, it)
            C.fact("portfolio %s: total" % nm, runs(r) is TRUE, it, show(runs(r))[:200])
    for nm, f in (("update_price", "current_price"), ("update_quantity", "quantity")):
        it = C.method(PF, nm, None, CR)
        r = C.ev(it, [a, k, x], state={a: a})
        if not r:
            continue
        got = C.S.get(r.final(a), PF, "positions", CR)
        kv = var("k?")
        h = models.haskey
        for n_, kk, ass in (("the named position", k, [h(ps, k)]), ("any other position", kv, [ne(kv, k), h(ps, kv), h(ps, k)])):
            C.eq("portfolio %s: keeps %s" % (nm, n_), If(h(got, kk), 1, 0), 1, it, ass)
            for f2 in FIELDS:
                w = x if (f == f2 and kk is k) else p(C, ps[kk], f2)
                C.eq("portfolio %s: %s of %s" % (nm, f2, n_), p(C, expand_reads(got[kk]), f2), w, it, ass)
        C.eq("portfolio %s: adds no position" % nm, If(h(got, kv), 1, 0), If(h(ps, kv), 1, 0), it, [ne(kv, k), h(ps, k)])
        C.eq("portfolio %s: defined iff the position exists" % nm, If(runs(r), 1, 0), If(h(ps, k), 1, 0), it, rule="guard")
    it = C.method(PF, "position_weights", None, CR)
    r = C.ev(it, [a])
    if r:
        t = r.ret
        while t.op == "app" and str(t.a[0]).startswith("collect:"):
            t = t.a[1]
        C.eq("weights: one per position", LEN(t), n, it)
        i = var("i")
        # the i-th entry of the result, i ranging over the positions
        inr = [cmp("le", num(0), i), cmp("lt", i, n)]
        C.eq("weights: name", fld(t[i], 0, 0, "tuple", 2), key(i), it, inr)
        pos = ps[key(i)]
        C.eq("weights: share of the value", fld(t[i], 0, 1, "tuple", 2), p(C, pos, "quantity") * p(C, pos, "current_price") / value, it, inr)
