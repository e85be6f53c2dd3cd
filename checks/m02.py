"""Descriptive statistics, number sequences and risk-reward ratios are their
definitions, for every sample of every size they accept, and refuse the rest."""
from spec import *
import term as TM
import models

FLOOR = 30
CR = "RustQuant_math"
a, b, c, i = V("a b c i")
n, m = LEN(a), LEN(b)
mean = lambda v: SUM(LEN(v), lambda j: v[j]) / LEN(v)
dev = lambda v, k: SUM(LEN(v), lambda j: (v[j] - mean(v)) ** k)
svar = lambda v: dev(v, 2) / (LEN(v) - 1)
pvar = lambda v: dev(v, 2) / LEN(v)
srt = mk("sorted", a, models.ascending(lambda p: p))
more = lambda k: [cmp("lt", num(k), n)]


def ints(t):
    return t.op == "len" or t is i or t.op == "var" and str(t.a[0]).startswith("n?")


def run(C):
    C.part("statistics", stats)
    C.part("order statistics", order)
    C.part("pairs", pairs)
    C.part("sequences", sequences)
    C.part("ratios", ratios)


def stat(C, nm, args=(a,)):
    it = C.method("Vec", nm, "Statistic", CR)
    return it, C.ev(it, list(args))


def refuses(C, nm, r, it, least):
    if r:
        C.eq("%s: refused on fewer than %d" % (nm, least), If(runs(r), 1, 0), 0, it, [cmp("lt", n, num(least))], rule="guard", ints=ints)


def stats(C):
    sd = lambda v: sqrt(svar(v))
    z = lambda k: dev(a, k) / svar(a) ** (lift(k) / 2)
    for nm, want, least in (
            ("mean", mean(a), 1), ("arithmetic_mean", mean(a), 1),
            ("geometric_mean", fn_prod(a) ** (1 / n), 1),
            ("harmonic_mean", n / SUM(n, lambda j: 1 / a[j]), 1),
            ("variance", svar(a), 1), ("sample_variance", svar(a), 1), ("population_variance", pvar(a), 1),
            ("standard_deviation", sd(a), 2), ("sample_standard_deviation", sd(a), 2), ("population_standard_deviation", sqrt(pvar(a)), 2),
            ("skewness", n * z(3) / ((n - 1) * (n - 2)), 3),
            ("kurtosis", n * (n + 1) * z(4) / ((n - 1) * (n - 2) * (n - 3)) - 3 * (n - 1) ** 2 / ((n - 2) * (n - 3)), 4)):
        it, r = stat(C, nm)
        if not r:
            continue
        C.eq(nm, r.ret, want, it, more(3) + [cmp("lt", num(0), svar(a))], ints=ints)
        C.prove(nm + ": defined for enough observations", runs(r), it, more(least - 1), rule="guard", ints=ints)
        refuses(C, nm, r, it, least)


def fn_prod(v):
    return PROD(LEN(v), lambda j: v[j])


def order(C):
    one = more(0)
    it, r = stat(C, "min")
    if r:
        C.eq("min", r.ret, mk("SMIN", n, lamf(lambda j: a[j])), it, one)
        refuses(C, "min", r, it, 1)
    it, r = stat(C, "max")
    if r:
        C.eq("max", r.ret, mk("SMAX", n, lamf(lambda j: a[j])), it, one)
        refuses(C, "max", r, it, 1)
    it, r = stat(C, "range")
    if r:
        C.eq("range", r.ret, mk("SMAX", n, lamf(lambda j: a[j])) - mk("SMIN", n, lamf(lambda j: a[j])), it, one)
        refuses(C, "range", r, it, 1)
    it, r = stat(C, "median")
    if r:
        k = var("n?")
        even, odd = [cmp("eq", n, k * 2), cmp("lt", num(0), k)], [cmp("eq", n, k * 2 + 1), cmp("le", num(0), k)]
        S = lambda t: TM.subst(t, {n: 2 * k})
        T_ = lambda t: TM.subst(t, {n: 2 * k + 1})
        C.eq("median of an even number", S(r.ret), (srt[k - 1] + srt[k]) / 2, it, [cmp("lt", num(0), k)], ints=ints)
        C.eq("median of an odd number", T_(r.ret), srt[k], it, [cmp("le", num(0), k)], ints=ints)
        refuses(C, "median", r, it, 1)
    q = b
    for nm in ("percentile", "quantile"):
        it, r = stat(C, nm, (a, q))
        if not r:
            continue
        dom = one + [cmp("le", num(0), q), cmp("le", q, num(1))]
        pos = q * (n - 1)
        fl = fn("floor", pos)
        frac = pos - fl
        lo, hi = srt[fl], srt[fl + 1]
        C.eq(nm + ": at an order statistic", TM.subst(r.ret, {q: i / (n - 1)}), srt[i], it, more(1) + [cmp("le", num(0), i), cmp("lt", i, n)], ints=ints)
        C.eq(nm + ": between order statistics", r.ret, lo + (hi - lo) * frac, it, dom + [cmp("lt", fl, pos)], ints=ints)
        C.eq(nm + ": refused outside the unit interval", If(runs(r), 1, 0), 0, it, one + [Or(cmp("lt", q, num(0)), cmp("lt", num(1), q))], rule="guard")
        C.prove(nm + ": defined on the unit interval", runs(r), it, dom, rule="guard")
        refuses(C, nm, r, it, 1)
    it, r = stat(C, "interquartile_range")
    if r:
        k = var("n?")
        for o in range(4):
            C.eq("interquartile range, %d mod 4" % o, TM.subst(r.ret, {n: 4 * k + o}), srt[3 * k + (3 * o) // 4] - srt[k], it,
                 [cmp("lt" if o == 0 else "le", num(0), k)], ints=ints, sampler=quarters(k, o))
        refuses(C, "interquartile range", r, it, 1)


def quarters(k, o):
    def f(t, seed):
        m = seed % 3 + (1 if o == 0 else 0)
        if t is k:
            return float(m)
        if t is a:
            return [((7 * j + 3 * seed) % 23) / 4 - 2 for j in range(4 * m + o)]
    return f


def pairs(C):
    cov = SUM(n, lambda j: (a[j] - mean(a)) * (b[j] - mean(b))) / (n - 1)
    same = [cmp("eq", n, m), cmp("lt", num(1), n)]
    pv = [cmp("lt", num(0), svar(a)), cmp("lt", num(0), svar(b))]
    al = lambda t: TM.subst(t, {m: n})
    it, r = stat(C, "covariance", (a, b))
    if r:
        C.eq("covariance", al(r.ret), al(cov), it, more(1), ints=ints)
        C.eq("covariance: refused for different lengths", If(runs(r), 1, 0), 0, it, [ne(n, m)], rule="guard", ints=ints)
        refuses(C, "covariance", r, it, 2)
    it, r = stat(C, "correlation", (a, b))
    if r:
        C.eq("correlation", al(r.ret), al(cov / (sqrt(svar(a)) * sqrt(svar(b)))), it, more(1) + [al(x) for x in pv], ints=ints)
        C.eq("correlation: refused for different lengths", If(runs(r), 1, 0), 0, it, [ne(n, m)], rule="guard", ints=ints)
        cst = SEQ(n, lambda j: c)
        for w, args in (("first", [cst, a]), ("second", [a, cst])):
            r2 = C.ev(it, args)
            if r2:
                C.eq("correlation: refused when the %s is constant" % w, If(runs(r2), 1, 0), 0, it, more(1), rule="guard", ints=ints)


def sequences(C):
    def meth(nm):
        its = [t for t in C.F.fns(lambda t: t.name == nm and t.did.startswith(CR) and "Sequence" in str(t.path))]
        return C.one(its, "Sequence::" + nm)
    it = meth("rep")
    r = it and C.ev(it, [a, c])
    if r:
        C.eq("rep: length", LEN(r.ret), c, it, [cmp("le", num(0), c)])
        C.eq("rep: elements", r.ret[i], a, it, inside(i, c))
    it = meth("linspace")
    r = it and C.ev(it, [a, b, c])
    if r:
        up = [cmp("lt", a, b)]
        C.eq("linspace: length", LEN(r.ret), c, it, up + [cmp("lt", num(0), c)], ints=lambda t: t is c or t is i)
        C.eq("linspace: evenly spaced", r.ret[i], a + (b - a) * i / (c - 1), it, up + [cmp("lt", num(1), c)] + inside(i, c), ints=lambda t: t is c or t is i)
        C.eq("linspace: refused for a reversed interval", If(runs(r), 1, 0), 0, it, [cmp("le", b, a)], rule="guard")
        C.eq("linspace: refused for no points", If(runs(r), 1, 0), 0, it, up + [cmp("eq", c, num(0))], rule="guard")
    it = meth("cumsum")
    r = it and C.ev(it, [a])
    if r:
        C.eq("cumsum: length", LEN(r.ret), n, it)
        C.eq("cumsum: partial sums", r.ret[i], SUM(i + 1, lambda j: a[j]), it, inside(i, n), ints=ints)
    it = meth("seq")
    r = it and C.ev(it, [a, b, c])
    if r:
        L = loop_of(r.ret, {"x": a, "s": loop_init(r.ret, a)})
        x, s = L.v["x"], L.v["s"]
        C.eq("seq: goes on exactly while the end is not passed", If(L.cond, 1, 0), If(cmp("le", x, b), 1, 0), it)
        C.eq("seq: steps by the step", L.next["x"], x + c, it)
        C.eq("seq: one element per step", LEN(L.next["s"]), LEN(s) + 1, it)
        C.eq("seq: the element is the current value", expand_reads(L.next["s"][LEN(s)]), x, it)
        C.eq("seq: earlier elements stay", expand_reads(L.next["s"][i]), s[i], it, inside(i, LEN(s)))
        C.eq("seq: returns the elements", L.at_exit(r.ret, 0), s, it)
        C.eq("seq: starts empty", LEN(loop_init(r.ret, a)), 0, it)


def loop_init(t, other):
    l = loops(t)
    r = [q for q in l[0].a[1:] if q is not other] if l else []
    if len(r) != 1:
        raise SpecError("loop variables")
    return r[0]


def inside(j, k):
    return [cmp("le", num(0), j), cmp("lt", j, k)]


def ratios(C):
    g = lambda f: C.S.get(a, "PortfolioMeasures", f, CR)
    ex = g("r_p") - g("r")
    ss = SUM(LEN(b), lambda j: b[j] ** 2)
    for nm, want in (("treynors_ratio", ex / g("beta_p")), ("sharpe_ratio", ex / g("sigma_p")), ("sortino_ratio", ex / g("sigma_down")),
                     ("burke_ratio", ex / ss), ("return_on_var", g("r_p") / g("var")),
                     ("jensens_alpha", ex - g("beta_p") * (g("r_m") - g("r")))):
        it = C.method("PortfolioMeasures", nm, None, CR)
        r = C.ev(it, [a, b] if nm == "burke_ratio" else [a])
        if r:
            C.eq(nm, r.ret, want, it)
