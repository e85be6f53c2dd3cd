"""Yield curve: nodes and interpolator stay in step, queries prefer the node and
otherwise interpolate, brackets enclose the date, the fit minimises the mean
log-cosh distance to the curve of its own type."""
from spec import *
import term as TM
import models

FLOOR = 20
CR = "RustQuant_data"
CU = "curves::Curve"
a, x, b, i, N, T, M, I, Sv = V("a x b i N T M I S")
RES, OPT = "core::result::Result", "core::option::Option"
INT = "RustQuant_math::interpolation::Interpolator::interpolate"
JD = lambda d: fn("jdn", d)
h, L, nth = models.haskey, models.maplen, models.nthkey


def run(C):
    C.part("construction", construct)
    C.part("queries", queries)
    C.part("updates", updates)
    C.part("brackets", brackets)
    C.part("fit", fit)


def g(C, t, f):
    return C.S.get(t, CU, f, CR)


def curve(C):
    return C.S.make(CU, CR, nodes=N, curve_type=T, interpolation_method=M, interpolator=I, nss=Sv)


def ints(t):
    return t.op in ("app", "first", "len") or t is i


def okv(t):
    return cmp("eq", discr(t, 2), num(0))


def somev(t):
    return cmp("eq", discr(t, 2), num(1))


def val(t):
    return fld(t, 1, 0, OPT, 1)


def method(C, m):
    """(interpolation method value, interpolator type)"""
    return [(C.S.variant("InterpolationMethod", v), v + "Interpolator") for v in ("Linear", "Exponential")]


def construct(C):
    d, r_, ct = V("d r ct")
    for mv, ty in method(C, M):
        k = ty[:3].lower()
        it = C.method("Curve", "new", None, CR)
        r = C.ev(it, [d, r_, ct, mv])
        if r:
            same = [eq(LEN(d), LEN(r_))]
            C.eq("new %s: accepts exactly equal lengths" % k, If(okv(r.ret), 1, 0), If(same[0], 1, 0), it)
            cu = fld(r.ret, 0, 0, RES, 1)
            nodes = g(C, cu, "nodes")
            while nodes.op == "app" and str(nodes.a[0]).startswith("collect:"):
                nodes = nodes.a[1]
            inr = same + [cmp("le", num(0), i), cmp("lt", i, LEN(d))]
            C.eq("new %s: node dates" % k, fld(nodes[i], 0, 0, "tuple", 2), d[i], it, inr)
            C.eq("new %s: node rates" % k, fld(nodes[i], 0, 1, "tuple", 2), r_[i], it, inr)
            C.eq("new %s: every pair" % k, LEN(nodes), LEN(d), it, same)
            C.eq("new %s: curve type" % k, g(C, cu, "curve_type"), ct, it, same)
            C.eq("new %s: method" % k, discr(g(C, cu, "interpolation_method"), 4), discr(mv, 4), it, same)
            C.eq("new %s: not fitted" % k, discr(g(C, cu, "nss"), 2), num(0), it, same)
            s = mk("sorted", SEQ(LEN(d), lambda j: tup(d[j], r_[j])), models.ascending(lambda p: JD(fld(p, 0, 0, "tuple", 2))))
            sees(C, "new " + k, g(C, cu, "interpolator"), ty, LEN(d), lambda j: fld(s[j], 0, 0, "tuple", 2), lambda j: fld(s[j], 0, 1, "tuple", 2), it, same)
        it = C.method("Curve", "from_nodes", None, CR)
        r = C.ev(it, [N, ct, mv])
        if r:
            C.eq("from nodes %s: accepted" % k, okv(r.ret), TRUE, it)
            cu = fld(r.ret, 0, 0, RES, 1)
            C.eq("from nodes %s: nodes" % k, g(C, cu, "nodes"), N, it)
            C.eq("from nodes %s: curve type" % k, g(C, cu, "curve_type"), ct, it)
            C.eq("from nodes %s: method" % k, discr(g(C, cu, "interpolation_method"), 4), discr(mv, 4), it)
            C.eq("from nodes %s: not fitted" % k, discr(g(C, cu, "nss"), 2), num(0), it)
            ofmap(C, "from nodes " + k, g(C, cu, "interpolator"), ty, N, it)


def sees(C, n, ip, ty, ln, xs, ys, it, ass=()):
    """the interpolator is of the type and holds exactly these nodes"""
    C.fact(n + ": interpolator of the method", ip.op == "agg" and str(ip.a[0]).endswith(ty), it, show(ip)[:200])
    f = lambda m: C.S.get(ip, ty, m, "RustQuant_math")
    ass = list(ass)
    inr = ass + [cmp("le", num(0), i), cmp("lt", i, ln)]
    for m, w in (("xs", xs), ("ys", ys)):
        C.eq("%s: interpolator %s length" % (n, m), LEN(f(m)), ln, it, ass, ints=ints)
        C.eq("%s: interpolator %s" % (n, m), f(m)[i], w(i), it, inr, ints=ints)


def ofmap(C, n, ip, ty, m, it, ass=()):
    sees(C, n, ip, ty, L(m), lambda j: nth(m, j), lambda j: m[nth(m, j)], it, ass)


def queries(C):
    n = g(C, a, "nodes")
    ip = app(INT, g(C, a, "interpolator"), x)
    got = lambda t: fld(ip, 0, 0, RES, 1)
    it = C.method("Curve", "get_rate", None, CR)
    r = C.ev(it, [a, x])

    def answer(nm, ret, it, ass=()):
        C.eq(nm + ": answered at nodes and wherever interpolation succeeds", If(somev(ret), 1, 0), If(Or(h(n, x), okv(ip)), 1, 0), it, ass)
        C.eq(nm + ": the node's rate at a node", val(ret), n[x], it, [h(n, x)])
        C.eq(nm + ": the interpolated rate elsewhere", val(ret), got(ip), it, [not_(h(n, x)), okv(ip)])
    if r:
        answer("rate", r.ret, it)
    it = C.method("Curve", "get_rate_and_insert", None, CR)
    r = C.ev(it, [a, x], state={a: a})
    if r:
        answer("rate and insert", r.ret, it)
        f = r.final(a)
        kv = var("k?")
        m = g(C, f, "nodes")
        for w, k, ass in (("the date", x, []), ("another date", kv, [ne(kv, x)])):
            new = Or(h(n, x), okv(ip)) if k is x else h(n, k)
            C.eq("rate and insert: node for " + w, If(h(m, k), 1, 0), If(new, 1, 0), it, ass)
            want = If(h(n, x), n[x], got(ip)) if k is x else n[k]
            C.eq("rate and insert: rate for " + w, expand_reads(m[k]), want, it, ass + [new])
        for fd in ("curve_type", "interpolation_method", "interpolator", "nss"):
            C.eq("rate and insert: keeps the " + fd, g(C, f, fd), g(C, a, fd), it)
    it = C.method("Curve", "get_rates", None, CR)
    r = C.ev(it, [a, b])
    if r:
        C.eq("rates: one per date", LEN(r.ret), LEN(b), it)
        e = r.ret[i]
        ipb = app(INT, g(C, a, "interpolator"), b[i])
        inr = [cmp("le", num(0), i), cmp("lt", i, LEN(b))]
        C.eq("rates: answered", If(somev(e), 1, 0), If(Or(h(n, b[i]), okv(ipb)), 1, 0), it, inr)
        C.eq("rates: value", val(e), If(h(n, b[i]), n[b[i]], fld(ipb, 0, 0, RES, 1)), it, inr + [Or(h(n, b[i]), okv(ipb))])
    for nm, w in (("dates", lambda j: nth(n, j)), ("rates", lambda j: n[nth(n, j)])):
        it = C.method("Curve", nm, None, CR)
        r = C.ev(it, [a])
        if r:
            C.eq(nm + ": all nodes", LEN(r.ret), L(n), it)
            C.eq(nm + ": in date order", r.ret[i], w(i), it, [cmp("le", num(0), i), cmp("lt", i, L(n))], ints=ints)
    for nm, w in (("len", L(n)), ("is_empty", eq(L(n), 0))):
        it = C.method("Curve", nm, None, CR)
        r = C.ev(it, [a])
        if r:
            C.eq(nm, r.ret, w, it)
    it = C.method("Curve", "interpolation_method", None, CR)
    r = C.ev(it, [a])
    if r:
        C.eq("method", r.ret, g(C, a, "interpolation_method"), it)
    some_ = [cmp("lt", num(0), L(n))]
    for nm, j, v in (("first_date", num(0), False), ("last_date", L(n) - 1, False), ("first_rate", num(0), True), ("last_rate", L(n) - 1, True)):
        it = C.method("Curve", nm, None, CR)
        r = C.ev(it, [a])
        if r:
            C.eq(nm + ": present iff there are nodes", somev(r.ret), some_[0], it)
            w = nth(n, j)
            C.eq(nm, val(r.ret), n[w] if v else w, it, some_, ints=ints)


def updates(C):
    cu = curve(C)
    same = ("curve_type", "interpolation_method", "nss")
    for mv, ty in method(C, M):
        k = ty[:3].lower()
        cm = TM.subst(cu, {M: mv})
        it = C.method("Curve", "set_rate", None, CR)
        r = C.ev(it, [a, x, b], state={a: cm})
        if r:
            f = r.final(a)
            setmap(C, "set rate " + k, g(C, f, "nodes"), N, x, b, it)
            new = mk("mapset", N, x, b)
            ofmap(C, "set rate " + k, g(C, f, "interpolator"), ty, new, it)
            for fd in same:
                C.eq("set rate %s: keeps the %s" % (k, fd), g(C, f, fd), g(C, cm, fd), it)
        it = C.method("Curve", "shift", None, CR)
        r = C.ev(it, [a, x], state={a: cm})
        if r:
            f = r.final(a)
            kv = var("k?")
            m = g(C, f, "nodes")
            C.eq("shift %s: same dates" % k, If(h(m, kv), 1, 0), If(h(N, kv), 1, 0), it)
            C.eq("shift %s: every rate moves by the shift" % k, m[kv], N[kv] + x, it, [h(N, kv)])
            j = lambda t: N[nth(N, t)] + x
            sees(C, "shift " + k, g(C, f, "interpolator"), ty, L(N), lambda t: nth(N, t), j, it)
            for fd in same:
                C.eq("shift %s: keeps the %s" % (k, fd), g(C, f, fd), g(C, cm, fd), it)


    for mv, ty in method(C, M):
        k = ty[:3].lower()
        cm = TM.subst(cu, {M: mv})
        it = C.method("Curve", "set_rates", None, CR)
        r = C.ev(it, [a, x], state={a: cm})
        if r:
            f = r.final(a)
            ns, ip = g(C, f, "nodes"), g(C, f, "interpolator")
            F = fold(ns, {"n": N})
            C.eq("set rates %s: each pair once" % k, F.n, LEN(x), it)
            pr = x[F.j]
            setmap(C, "set rates " + k, F.next["n"], F.v["n"], fld(pr, 0, 0, "tuple", 2), fld(pr, 0, 1, "tuple", 2), it)
            if ip.op == "rec":
                F = fold(ip, {"i": I, "n": N}, {"i": I})
                C.eq("set rates %s: interpolator follows each pair" % k, F.n, LEN(x), it)
                if "n" in F.v:
                    setmap(C, "set rates %s, interpolated" % k, F.next["n"], F.v["n"], fld(pr, 0, 0, "tuple", 2), fld(pr, 0, 1, "tuple", 2), it)
                    ofmap(C, "set rates " + k, F.next["i"], ty, mk("mapset", F.v["n"], fld(pr, 0, 0, "tuple", 2), fld(pr, 0, 1, "tuple", 2)), it)
            else:
                ofmap(C, "set rates " + k, ip, ty, ns, it, [cmp("lt", num(0), LEN(x))])
            for fd in same:
                C.eq("set rates %s: keeps the %s" % (k, fd), g(C, f, fd), g(C, cm, fd), it)
    it = C.method("Curve", "get_rates_and_insert", None, CR)
    r = C.ev(it, [a, x], state={a: cu})
    if r:
        f = r.final(a)
        ns = g(C, f, "nodes")
        for what, t in (("nodes", ns), ("answers", r.ret)):
            inits = [q for q in t.a[2:]] if t.op == "rec" else []
            rest = [q for q in inits if q is not N]
            F = fold(t, {"n": N} if what == "nodes" else {"o": rest[0] if rest else num(0), "n": N})
            C.eq("rates and insert, %s: each date once" % what, F.n, LEN(x), it)
            ip = app(INT, I, x[F.j])
            new = cmp("eq", discr(ip, 2), num(0))
            key, n0, n1 = x[F.j], F.v["n"], F.next["n"]
            kv = var("k?")
            C.eq("rates and insert, %s: node for the date" % what, If(h(n1, key), 1, 0), If(Or(h(n0, key), new), 1, 0), it)
            C.eq("rates and insert, %s: an existing rate stays" % what, expand_reads(n1[key]), n0[key], it, [h(n0, key)])
            C.eq("rates and insert, %s: a new rate is the interpolated one" % what, expand_reads(n1[key]), fld(ip, 0, 0, RES, 1), it, [not_(h(n0, key)), new])
            C.eq("rates and insert, %s: other dates keep their presence" % what, If(h(n1, kv), 1, 0), If(h(n0, kv), 1, 0), it, [ne(kv, key)])
            C.eq("rates and insert, %s: other dates keep their rates" % what, expand_reads(n1[kv]), n0[kv], it, [ne(kv, key), h(n0, kv)])
            if what == "answers":
                C.eq("rates and insert: answers start empty", LEN(rest[0]), 0, it)
                o0, o1 = F.v["o"], F.next["o"]
                C.eq("rates and insert: one answer per date", LEN(o1), LEN(o0) + 1, it)
                last = expand_reads(o1[LEN(o0)])
                C.eq("rates and insert: answered when known", If(somev(last), 1, 0), If(Or(h(n0, key), new), 1, 0), it)
                C.eq("rates and insert: the node's rate", val(last), n0[key], it, [h(n0, key)])
                C.eq("rates and insert: the interpolated rate", val(last), fld(ip, 0, 0, RES, 1), it, [not_(h(n0, key)), new])
        C.eq("rates and insert: keeps the interpolator", g(C, f, "interpolator"), I, it)


def setmap(C, n, m, old, key, v, it):
    kv = var("k?")
    for w, k, ass in (("the date", key, []), ("another date", kv, [ne(kv, key)])):
        C.eq("%s: node for %s" % (n, w), If(h(m, k), 1, 0), 1 if k is key else If(h(old, k), 1, 0), it, ass)
        C.eq("%s: rate for %s" % (n, w), expand_reads(m[k]), v if k is key else old[k], it, ass + ([] if k is key else [h(old, k)]))


def brackets(C):
    n = g(C, a, "nodes")
    it = C.method("Curve", "get_brackets", None, CR)
    C.dom = [cmp("lt", num(0), L(n))]
    r = C.ev(it, [a, x])
    C.dom = []
    if not r:
        return
    lo, hi = fld(r.ret, 0, 0, "tuple", 2), fld(r.ret, 0, 1, "tuple", 2)
    first, last = nth(n, num(0)), nth(n, L(n) - 1)
    full = [cmp("lt", num(0), L(n))]
    k = TM.first(L(n), lamf(lambda j: cmp("le", JD(x), JD(nth(n, j)))))
    for nm, t, w in (("left", lo, nth(n, k - 1)), ("right", hi, nth(n, k))):
        C.eq("bracket %s before the curve" % nm, t, first, it, full + [JD(x) <= JD(first)], free=[L(n)])
        C.eq("bracket %s after the curve" % nm, t, last, it, full + [JD(x) > JD(first), JD(x) >= JD(last)])
        C.eq("bracket %s inside the curve" % nm, t, w, it, full + [JD(x) > JD(first), JD(x) < JD(last)], ints=ints)


def fit(C):
    it = C.method("Curve", "cost", None, CR)
    NSS = "NelsonSiegelSvensson"
    p = V("p")
    C.dom = [cmp("eq", LEN(p), num(6))]
    n = g(C, a, "nodes")
    new = C.method(NSS, "new", None, "RustQuant_stochastics")
    rn = C.ev(new, [p[j] for j in range(6)])
    if rn is None:
        return
    for ty, nm in (("Spot", "spot_rate"), ("Forward", "forward_rate"), ("Discount", "discount_factor")):
        tv = C.S.variant("CurveType", ty)
        cu = TM.subst(curve(C), {T: tv})
        r = C.ev(it, [cu, p])
        md = C.method(NSS, nm, None, "RustQuant_stochastics")
        if not r or md is None:
            continue
        d = var("d?")
        m = C.ev(md, [rn.ret, d])
        if not m:
            continue
        C.eq("cost of a %s curve: succeeds" % ty.lower(), okv(r.ret), TRUE, it)
        e = lambda j: TM.subst(m.ret, {d: nth(N, j)}) - N[nth(N, j)]
        want = SUM(L(N), lambda j: ln(fn("cosh", e(j)))) / L(N)
        C.eq("cost of a %s curve" % ty.lower(), fld(r.ret, 0, 0, RES, 1), want, it, [cmp("lt", num(0), L(N))])
