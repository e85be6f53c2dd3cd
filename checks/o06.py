"""Implied volatility: the arguments handed to the rational-guess solver, what the
solver may return, its third-order steps, the bracket it keeps, and the pieces
(normalised price, vega, intrinsic value, rational interpolation, transformed
objective functions) it is assembled from."""
from spec import *
from optlib import bsm
import term as TM
import norm
import math
from fractions import Fraction as Fr

FLOOR = 20
CR = "RustQuant_instruments"
MOD = "options::implied_volatility"
U = "unchecked_normalised_implied_volatility_from_a_transformed_rational_guess_with_limited_iterations"
INF = None
PIECES = {"normalised_black_call", "normalised_vega", "interpolation", "normalised_intrinsic",
          "compute_f_lower_map_and_first_two_derivatives", "compute_f_upper_map_and_first_two_derivatives",
          "inverse_f_lower_map", "inverse_f_upper_map",
          "convex_rational_cubic_control_parameter_to_fit_second_derivative_at_left_side",
          "convex_rational_cubic_control_parameter_to_fit_second_derivative_at_right_side"}
x, s, beta, q, y, h, t = V("x s beta q y h t")
Z = num(0)

def exact(term):
    """the decimals the code writes for irrational constants, as those constants"""
    pi, r2 = fn("pi"), sqrt(num(2))
    tab = [(1 / sqrt(2 * pi), 1 / math.sqrt(2 * math.pi)), (sqrt(2 * pi), math.sqrt(2 * math.pi)), (sqrt(pi / 2), math.sqrt(math.pi / 2)),
           (sqrt(num(3)), math.sqrt(3)), (1 / sqrt(num(3)), 1 / math.sqrt(3)), (2 * pi / sqrt(num(27)), 2 * math.pi / math.sqrt(27)),
           (1 / r2, math.sqrt(0.5)), (pi, math.pi)]
    m = {}
    for u in set(TM.subterms(term)):
        if u.op == "num" and u.a[0].denominator > 10 ** 9:
            f = float(u.a[0])
            for w, v in tab:
                for k in (1, 2, 4, 8, 3, 6, 12, 24):
                    for c, cv in ((num(k), k), (1 / num(k), 1 / k)):
                        for sg in (1, -1):
                            if u not in m and abs(f - sg * v * cv) <= 5e-16 * v * cv:
                                m[u] = sg * c * w
    return TM.subst(term, m) if m else term


def opaque(i):
    return i.name in PIECES


def free(C, nm):
    return C.free(nm, MOD)


def call(C, nm, *args):
    it = free(C, nm)
    return app("fn:" + it.did, *[lift(a) for a in args])


def signs(term, m):
    """conditions on positive quantities alone that do not depend on how large
    they are, decided (the values in m are tried in every combination)"""
    import itertools
    out = {}

    def value(u, vs):
        ps = [(1, 10 ** 6, Fr(1, 10 ** 6)) if m[w] == 1 else m[w] for w in vs]
        r = set()
        for c in itertools.product(*ps):
            f = TM.subst(u, {w: num(k) for w, k in zip(vs, c)})
            r.add(f)
        return r.pop() if len(r) == 1 else None
    for u in set(TM.subterms(term)):
        if u.op == "cmp":
            vs = sorted({w for w in TM.subterms(u) if w.op == "var"}, key=lambda w: w.id)
            if vs and set(vs) <= set(m):
                f = value(u, vs)
                if f is TRUE or f is FALSE:
                    out[u] = f
    return TM.subst(term, out)


def vega(x, s):
    return exp(-(x * x / (s * s) + s * s / 4) / 2) / sqrt(2 * fn("pi"))


def black(x, s):
    """the normalised Black price of a call"""
    return Phi(x / s + s / 2) * exp(x / 2) - Phi(x / s - s / 2) * exp(-x / 2)


def intrinsic(th, x):
    return vmax(th * (exp(x / 2) - exp(-x / 2)), 0)


def run(C):
    C.part("entry point", entry)
    C.part("model", model)
    C.part("solver", solver)
    C.part("normalised price", price)
    C.part("rational interpolation", rational)
    C.part("transformed objectives", maps)


def entry(C):
    it = free(C, "implied_volatility")
    P, S, K, T, r, f = V("price S K T r flag")
    und, F = P * exp(r * T), S * exp(r * T)
    pos = [P, S, K, T]
    for nm, th in (("Call", 1), ("Put", -1)):
        R = it and C.ev(it, [P, S, K, T, r, C.S.variant("TypeFlag", nm)], opaque=lambda i: i.name in PIECES or i.name == U)
        if not R:
            continue
        cs = [c for c in R.calls if c[1].endswith(U)]
        if len(cs) != 1:
            C.undecided(nm, it, "%d solver calls" % len(cs))
            continue
        out = var("solved")
        ret = TM.subst(R.ret, {cs[0][3]: out})
        inf = ret_of(ret, "inf")
        d = var("d")
        for nm2, lo, sub in (("in the money", d, {S: (K + th * d) / exp(r * T)}), ("out of the money", Z, {K: F + th * d})):
            # prices and distances are positive; in the money put: K = F + d
            if th < 0:
                sub = {K: F + d} if nm2 == "in the money" else {S: (K + d) / exp(r * T)}
            Q = lambda u: TM.subst(u, {**sub, P: P / exp(r * T)})
            R2 = Q(ret)
            high = Q(F) if th > 0 else Q(K)
            if inf and lo is d:
                C.eq("%s %s: below the intrinsic value" % (nm, nm2), If(cmp("eq", R2, TM.neg(inf)), 1, 0), 1, it, [P < d], pos=[P, S, K, T, d])
            if inf:
                C.eq("%s %s: at or above the bound on prices" % (nm, nm2), If(cmp("eq", R2, inf), 1, 0), 1, it, [cmp("le", high, P), cmp("le", lo, P)], pos=[P, S, K, T, d])
            C.eq("%s %s: scaled by the square root of time" % (nm, nm2), R2, out / sqrt(T), it, [cmp("le", lo, P), cmp("lt", P, high)], pos=[P, S, K, T, d])
            b, xx, qq = [Q(u) for u in cs[0][2]][:3]
            Fq, Kq = Q(F), Q(K)
            # which of ln(F/K), -ln(F/K) is positive
            up = (th > 0) == (nm2 == "in the money")
            lg = var("logarithm")
            xs = [u for u in set(TM.subterms(If(Z < qq * xx, b, xx))) if u.op == "fn" and u.a[0] == "ln"]
            C.eq("%s %s: moneyness is the logarithm of forward over strike" % (nm, nm2), xx, ln(Fq / Kq), it, pos=[P, S, K, T, d])
            mm = {u: (lg if up else -lg) for u in xs}
            W = lambda u: TM.subst(u, mm)
            b, xx, qq = W(b), W(xx), W(qq)
            mo = [cmp("le", lo, P), cmp("lt", P, high)]
            iv = If(Z < qq * xx, qq * (Fq - Kq) / sqrt(Fq * Kq), 0)
            C.eq("%s %s: time value" % (nm, nm2), b - iv, (P - lo) / sqrt(Fq * Kq), it, mo, pos=[P, S, K, T, d, lg])
            C.eq("%s %s: the out-of-the-money option" % (nm, nm2), If(Z < qq * xx, -qq * xx, qq * xx), -lg, it, mo, pos=[P, S, K, T, d, lg])


def ret_of(t, nm):
    c = [u for u in TM.subterms(t) if TM.show(u, 3) == nm]
    return c[0] if c else None


def model(C):
    it = C.method("BlackScholesMerton", "implied_volatility", None, CR)
    x_, P = V("x price")
    R = it and C.ev(it, [x_, P], opaque=lambda i: i.name == "implied_volatility" or i.name in ("year_fraction", "day_count_factor") or i.name == U)
    if not R:
        return
    cs = [c for c in R.calls if c[1].endswith("::implied_volatility")]
    if len(cs) != 1:
        return C.undecided("model", it, "%d calls" % len(cs))
    p, S, K, T, r, f = cs[0][2]
    g = lambda n: C.S.get(x_, "BlackScholesMerton", n, CR)
    C.eq("model: the forward is the one its price uses", S * exp(r * T), g("underlying_price") * exp(g("cost_of_carry") * T), it)
    C.eq("model: discounting", p * exp(r * T), P * exp(g("risk_free_rate") * T), it)
    C.eq("model: strike", K, g("strike_price"), it)
    C.eq("model: side", f, g("option_type"), it)
    C.eq("model: the volatility found", R.ret, cs[0][3], it)
    yf = C.method("BlackScholesMerton", "year_fraction", None, CR)
    Y = yf and C.ev(yf, [x_], opaque=lambda i: i.name in ("year_fraction", "day_count_factor"))
    Y2 = C.ev(it, [x_, P], opaque=lambda i: i.name == "implied_volatility" or i.name in ("day_count_factor",) or i.name == U)
    if Y and Y2:
        cs = [c for c in Y2.calls if c[1].endswith("::implied_volatility")]
        C.eq("model: time to expiry", cs[0][2][3], Y.ret, it)


def solver(C):
    it = free(C, U)
    n = var("n?")
    r = it and C.ev(it, [beta, -y, num(1), n], opaque=opaque, loops="system")
    if not r:
        return
    ret = signs(r.ret, {y: 1})
    x = -y
    bl, vg = (lambda s: call(C, "normalised_black_call", x, s)), (lambda s: call(C, "normalised_vega", x, s))
    sc = sqrt(2 * y)
    ret = TM.subst(ret, {fn("abs", 2 * x): 2 * y, sqrt(fn("abs", 2 * x)): sc})
    bmax = exp(x / 2)
    # ---- what is returned without searching
    inf = ret_of(ret, "inf")
    outs = {u: var("out%d" % i) for i, u in enumerate(sorted({u for u in TM.subterms(ret) if u.op == "wout"}, key=lambda u: u.id))}
    if inf:
        flat = TM.subst(ret, outs)
        C.eq("solver: no volatility below the intrinsic value", If(cmp("eq", flat, TM.neg(inf)), 1, 0), 1, it, [beta < 0], pos=[y])
        C.eq("solver: intrinsic value has volatility zero", TM.subst(flat, {beta: Z}), 0, it, pos=[y])
        C.eq("solver: no volatility above the largest price", If(cmp("eq", flat, inf), 1, 0), 1, it, [cmp("le", bmax, beta)], pos=[y, beta])
    # ---- symmetries
    for th in (1, -1):
        for sg in (1, -1):
            q = C.ev(it, [beta, sg * y, num(th), n], opaque=opaque, loops="system")
            if not q:
                continue
            a = signs(q.ret, {y: 1})
            iv = call(C, "normalised_intrinsic", sg * y, num(th))
            b = TM.subst(signs(r.ret, {y: 1}), {beta: beta - iv if th * sg > 0 else beta})
            C.eq("solver: %s %s the money is its out-of-the-money call" % ("call" if th > 0 else "put", "in" if th * sg > 0 else "out of"), a, b, it, pos=[y])
    # ---- the searches
    bc, vc = bl(sc), vg(sc)
    sl = sc - bc / vc
    su = If(num("2.220446049250313e-16") < vc, sc + (bmax - bc) / vc, sc)
    blo, bup = bl(sl), bl(su)
    fl = [fld(call(C, "compute_f_lower_map_and_first_two_derivatives", x, sl), 0, k, "tuple", 3) for k in range(3)]
    fu = [fld(call(C, "compute_f_upper_map_and_first_two_derivatives", x, su), 0, k, "tuple", 3) for k in range(3)]
    cright = lambda *a: call(C, "convex_rational_cubic_control_parameter_to_fit_second_derivative_at_right_side", *a)
    cleft = lambda *a: call(C, "convex_rational_cubic_control_parameter_to_fit_second_derivative_at_left_side", *a)
    ip = lambda *a: call(C, "interpolation", *a)
    rl = ip(beta, 0, blo, 0, fl[0], 1, fl[1], cright(0, blo, 0, fl[0], 1, fl[1], fl[2], TRUE))
    ru = ip(beta, bup, bmax, fu[0], 0, fu[1], "-0.5", cleft(bup, bmax, fu[0], 0, fu[1], "-0.5", fu[2], TRUE))
    tl, tu = beta / blo, (beta - bup) / (bmax - bup)
    quad_l = (fl[0] * tl + blo * (1 - tl)) * tl
    quad_u = (fu[0] * (1 - tu) + (bmax - bup) * tu / 2) * (1 - tu)
    big = num("1.3407807929942596e154")
    tame = And(-big < fu[2], fu[2] < big)
    lower = call(C, "inverse_f_lower_map", x, If(cmp("le", rl, Z), quad_l, rl))
    upper = call(C, "inverse_f_upper_map", If(And(tame, Z < ru), ru, quad_u))
    mid1 = ip(beta, blo, bc, sl, sc, 1 / vg(sl), 1 / vc, cright(blo, bc, sl, sc, 1 / vg(sl), 1 / vc, 0, FALSE))
    mid2 = ip(beta, bc, bup, sc, su, 1 / vc, 1 / vg(su), cleft(bc, bup, sc, su, 1 / vc, 1 / vg(su), 0, FALSE))
    B, V0, e = V("B V e")
    h2 = lambda s: x * x / s ** 3 - s / 4
    h3 = lambda s: h2(s) ** 2 - 3 * x * x / s ** 4 - num("0.25")
    be = lambda s: B + V0 * e + V0 * h2(s) * e * e / 2 + V0 * h3(s) * e ** 3 / 6
    G = {"lowest": lambda s: 1 / ln(be(s)) - 1 / ln(beta), "highest": lambda s: ln(bmax - beta) - ln(bmax - be(s)), "middle": lambda s: be(s) - beta}
    START = {"lowest": [(lower, [])], "highest": [(upper, [])],
             "middle": [(mid1, [beta < bc, Not(beta < blo)]), (mid2, [Not(beta < bc), cmp("le", beta, bup)]), (upper, [Not(beta < bc), Not(cmp("le", beta, bup))])]}
    RANGE = {"lowest": [beta < bc, beta < blo], "highest": [Not(beta < bc), Not(cmp("le", beta, bup)), bmax / 2 < beta],
             "middle": []}
    seen = set()
    for L in loops(ret):
        names = {u for a in L.a[1:] for u in TM.subterms(a) if u.op == "app"}
        kind = "middle" if mid1 in names or any(u.a[0] == mid1.a[0] and u.a[1] is beta and u.a[2] is blo for u in names) else \
            "highest" if any("inverse_f_upper" in u.a[0] for u in names) else "lowest"
        seen.add(kind)
        C.part("search, %s prices" % kind, search, it, L, kind, ret, n, x, bl, vg, bmax, G[kind], (B, V0, e), START[kind], RANGE[kind], h2)
    C.fact("solver: the three searches", len(seen) == 3, it, ", ".join(sorted(seen)))


def search(C, it, L, kind, ret, n, x, bl, vg, bmax, g, syms, starts, when, h2):
    B, V0, e = syms
    inits = list(L.a[1:])
    m = len(inits)
    v = [var("v%d" % k) for k in range(m)]
    body = L.a[0]
    for k in range(m):
        body = TM.apply(body, v[k])
    cond, exits, nxt = body.a[2], list(body.a[3:len(body.a) - m]), list(body.a[len(body.a) - m:])
    guess = lambda t: any(u.op == "app" and ("interpolation" in u.a[0] or "::inverse_f" in u.a[0]) for u in TM.subterms(t))
    ks = [k for k in range(m) if guess(inits[k])]
    if len(ks) != 1:
        raise SpecError("values of the search")
    ks = ks[0]
    kd = [k for k in range(m) if inits[k].op == "num" and inits[k].a[0] < -10 ** 300]
    ki = [k for k in range(m) if inits[k] is Z and C.equal(nxt[k], v[k] + 1)]
    kb = [k for k in range(m) if k != ks and inits[k] is not Z and k not in kd]
    if len(kd) != 1 or len(ki) != 1 or len(kb) != 2:
        raise SpecError("variables of the search")
    kd, ki = kd[0], ki[0]
    first = {v[ki]: Z, v[kd]: num(1), **{v[k]: Z for k in range(m) if inits[k] is Z}}
    s = v[ks]
    at = lambda t, p: TM.subst(t, {bl(p): B, vg(p): V0})
    N0 = [at(TM.subst(u, first), s) for u in nxt]
    for kl, kr in (kb, kb[::-1]):
        l, r = v[kl], v[kr]
        if C.equal(N0[kl], If(And(B < beta, l < s), s, l)) or C.equal(N0[kr], If(And(beta < B, s < r), s, r)):
            break
    else:
        kl, kr = kb
        l, r = v[kl], v[kr]
    C.eq(kind + ": the lower end of the bracket", N0[kl], If(And(B < beta, l < s), s, l), it, rule="bracket")
    C.eq(kind + ": the upper end of the bracket", N0[kr], If(And(beta < B, s < r), s, r), it, rule="bracket")
    C.prove(kind + ": stops after its rounds", v[ki] < n, it, [cond])
    # ---- third-order step
    def D(t):
        t = TM.subst(t, {e: Z})
        return TM.subst(t, {u: ln(B) for u in set(TM.subterms(t)) if u.op == "fn" and u.a[0] == "ln" and C.equal(u.a[1], B)})
    f = g(s)
    d1 = norm.diff(f, e)
    d2 = norm.diff(d1, e)
    d3 = norm.diff(d2, e)
    f, d1, d2, d3 = D(f), D(d1), D(d2), D(d3)
    nw, ha, hh = -f / d1, d2 / d1, d3 / d1
    step = nw * (1 + ha * nw / 2) / (1 + nw * (ha + hh * nw / 6))
    mid = lambda a, b: (a + b) / 2
    bad = {"lowest": Or(cmp("le", B, Z), cmp("le", V0, Z)), "highest": Or(cmp("le", bmax, B), cmp("le", V0, num("2.220446049250313e-16"))),
           "middle": FALSE}[kind]
    # the code's own differences to the largest price, logarithms as quantities of their own
    g1, g2, m1, m2, top = V("g1 g2 m1 m2 bmax")
    dom = {B: top - g1, beta: top - g2} if kind == "highest" else {}
    logs = {ln(B): -m1, ln(beta): -m2}
    pos = [s, y, V0] + ([g1, g2, top] if dom else [B, beta, m1, m2])
    well = [num("2.220446049250313e-16") < V0] + ([g1 < top, g2 < top, Not(eq(g1, g2))] if dom else [Not(eq(B, beta))])

    def S(t):
        t = TM.subst(t, {N0[kl]: l, N0[kr]: r})
        ex = {u: top for u in set(TM.subterms(t)) if u.op == "fn" and u.a[0] == "exp" and C.equal(u, bmax)}
        return TM.subst(TM.subst(TM.subst(t, ex), logs), dom)
    def floored(t):
        """the step kept from halving the volatility, as the step"""
        m = {}
        for u in set(TM.subterms(t)):
            if u.op == "fn" and u.a[0] == "max":
                for a, b in (u.a[1:], u.a[:0:-1]):
                    if C.equal(b, -s / 2):
                        m[u] = app("floored", a)
        return TM.subst(t, m)
    C.eq(kind + ": third-order step", floored(S(N0[ks])), floored(S(s + vmax(step, -s / 2))), it, well, pos=pos, rule="step",
         sampler=sane(s, y, V0, B, beta, g1, g2, m1, m2, top))
    if kind != "middle":
        C.eq(kind + ": bisection where the price cannot be resolved", N0[ks], s + vmax(mid(N0[kl], N0[kr]) - s, -s / 2), it, [bad, Z < s, Z < beta], pos=[s, y, beta], rule="step")
    # ---- outside the bracket: back to its middle
    M = mid(l, r)
    later = {v[ki]: var("n?i") + 1, v[kd]: num(1), **{v[k]: Z for k in range(m) if inits[k] is Z and k != ki}}
    N1 = [TM.subst(u, later) for u in nxt]
    free_ = [num("2.220446049250313e-16") * M < r - l, cmp("le", num(0), var("n?i"))]
    for nm, c in (("below", cmp("le", s, l)), ("above", cmp("le", r, s))):
        C.eq("%s: %s the bracket, the search resumes from its middle" % (kind, nm), N1[kl], If(And(bl(M) < beta, l < M), M, l), it,
             free_ + [c, l < r], rule="bracket", pos=[l, r, s], ints=[var("n?i")])
    # ---- where it starts
    for i, (want, cs) in enumerate(starts):
        C.eq("%s: first guess %d" % (kind, i + 1), inits[ks], want, it, when + cs, rule="guess", pos=[y])


def sane(s, y, V0, B, beta, g1, g2, m1, m2, top):
    def f(t, seed):
        k = seed + 1
        b, q = 0.05 + 0.11 * (k % 8), 0.06 + 0.13 * (k % 6)
        return {s: 0.3 + 0.17 * (k % 9), y: 0.2 + 0.3 * (k % 5), V0: 0.05 + 0.04 * (k % 7), B: b, beta: q, g1: b / 2, g2: q / 2,
                m1: -math.log(b), m2: -math.log(q), top: 0.98}.get(t)
    return f


def price(C):
    it = free(C, "normalised_vega")
    r = it and C.ev(it, [x, s])
    if r:
        C.eq("vega", exact(r.ret), vega(x, s), it, [Not(eq(x, Z)), num("1.5e-154") * fn("abs", x) < s], pos=[s])
        C.eq("vega at the money", exact(TM.subst(r.ret, {x: Z})), vega(Z, s), it, pos=[s])
        C.eq("vega is the derivative of the price", norm.diff(black(x, s), s), vega(x, s), it, pos=[s])
    it = free(C, "normalised_intrinsic")
    for th in (1, -1):
        r = it and C.ev(it, [x, num(th)])
        if not r:
            continue
        nm = "call" if th > 0 else "put"
        C.eq(nm + ": no intrinsic value out of the money", r.ret, 0, it, [cmp("le", th * x, Z)])
        C.eq(nm + ": intrinsic value", signs(TM.subst(r.ret, {x: th * y}), {y: (Fr("0.12"), Fr(1), Fr(40))}), intrinsic(th, th * y), it, [num("0.12") < y], pos=[y])
        taylor = sum((y ** (2 * k + 1) / (4 ** k * math.factorial(2 * k + 1)) for k in range(1, 5)), y)
        C.eq(nm + ": intrinsic value close to the money", signs(TM.subst(r.ret, {x: th * y}), {y: (Fr("1e-8"), Fr("0.005"), Fr("0.0099"))}), taylor, it, [y < num("0.01")], pos=[y],
             sampler=lambda t, k: 0.0001 * (1 + k % 90) if t is y else None)
    it = free(C, "normalized_black_call_using_norm_cdf")
    r = it and C.ev(it, [x, s])
    if r:
        C.eq("price from the normal distribution", r.ret, vmax(black(x, s), 0), it, pos=[s])
    it = free(C, "normalised_black_call_using_erfcx")
    r = it and C.ev(it, [h, t])
    if r:
        C.eq("price from the scaled error function", exact(r.ret), vmax(black(2 * h * t, 2 * t), 0), it, pos=[t])
    # ---- expansions
    pre = lambda h, t: exp(-(h * h + t * t) / 2) / sqrt(2 * fn("pi"))
    it = free(C, "asymptotic_expansion_of_normalized_black_call")
    r = it and C.ev(it, [h, t])
    e, q_ = V("e q")
    sm = next(iter(C.F.free("asymptotic_expansion_sum", MOD)), None)
    R = sm and C.ev(sm, [e, q_])
    series = num(0)
    dbl = 1
    for k in range(18):
        if k:
            dbl *= -(2 * k - 1)
        series = series + q_ ** k * dbl * 2 * sum((math.comb(2 * k + 1, 2 * i + 1) * e ** i for i in range(1, k + 1)), num(2 * k + 1))
    if R:
        C.eq("asymptotic expansion to seventeenth order", R.ret, series, sm, rule="coefficients")
    if r:
        rr = (h + t) * (h - t)
        o = C.ev(it, [h, t], opaque=lambda i: i is sm) if sm else None
        if o:
            A = app("fn:" + sm.did, (t / h) ** 2, (h / rr) ** 2)
            sums = [c[3] for c in o.calls if c[1].endswith("asymptotic_expansion_sum")]
            args = [c[2] for c in o.calls if c[1].endswith("asymptotic_expansion_sum")]
            C.eq("asymptotic expansion: first variable", args[0][0], (t / h) ** 2, it)
            C.eq("asymptotic expansion: second variable", args[0][1], (h / rr) ** 2, it)
            g = var("g")
            S = lambda u: TM.subst(u, {h: -(t + g)})
            C.eq("asymptotic expansion of the price", S(exact(TM.subst(o.ret, {sums[0]: var("A")}))), S(pre(h, t) * t / rr) * var("A"), it, pos=[t, g, var("A")])
    it = free(C, "small_t_expansion_of_normalized_black_call")
    sm = next(iter(C.F.free("small_t_expansion_sum", MOD)), None)
    a, w, z2 = V("a w h2")
    R = sm and C.ev(sm, [t, a, w, z2])
    if R:
        C.eq("expansion for short maturities to twelfth order", TM.subst(R.ret, {w: t * t}), short(t, a, z2), sm, rule="coefficients")
    o = it and C.ev(it, [h, t], opaque=lambda i: i is sm)
    if o and sm:
        cs = [c for c in o.calls if c[1].endswith("small_t_expansion_sum")]
        if len(cs) == 1:
            tt, aa, ww, hh = cs[0][2]
            C.eq("short maturities: expansion point", exact(aa), 1 + h * sqrt(2 * fn("pi")) * exp(h * h / 2) * Phi(h), it)
            C.eq("short maturities: half the volatility", tt, t, it)
            C.eq("short maturities: its square", ww, t * t, it)
            C.eq("short maturities: squared moneyness", hh, h * h, it)
            C.eq("short maturities: the price", exact(TM.subst(o.ret, {cs[0][3]: var("A")})), vmax(pre(h, t) * var("A"), 0), it)
    # ---- which of them is used
    it = free(C, "normalised_black_call")
    small = {"normalized_black_call_using_norm_cdf", "normalised_black_call_using_erfcx", "asymptotic_expansion_of_normalized_black_call",
             "small_t_expansion_of_normalized_black_call", "normalised_intrinsic", "normalised_intrinsic_call"}
    o = it and C.ev(it, [-y, s], opaque=lambda i: i.name in small or i is it)
    if o:
        ret = signs(o.ret, {y: 1, s: 1})
        f3, f4 = call(C, "normalized_black_call_using_norm_cdf", -y, s), call(C, "normalised_black_call_using_erfcx", -y / s, s / 2)
        f1, f2 = call(C, "asymptotic_expansion_of_normalized_black_call", -y / s, s / 2), call(C, "small_t_expansion_of_normalized_black_call", -y / s, s / 2)
        tau, eta = num("0.21022410381342865"), num(-10)
        far = And(-y < s * eta, s * s / 2 - y < s * (tau + eta))
        want = If(far, f1, If(s / 2 < tau, f2, If(s * num("0.85") < s * s / 2 - y, f3, f4)))
        C.eq("each formula is used where it is accurate", ret, want, it, pos=[y, s])
    o = it and C.ev(it, [y, s], opaque=lambda i: i.name in small or i is it)
    if o:
        ret = signs(o.ret, {y: 1, s: 1})
        ic = [c for c in o.calls if "intrinsic" in c[1]]
        lo = app("fn:" + it.did, -y, s)
        iv = next((c[3] for c in ic), call(C, "normalised_intrinsic", y, num(1)))
        C.eq("in the money: intrinsic value plus the out-of-the-money price", ret, iv + lo, it, pos=[y, s])


def short(t, a, z2):
    """Y(h+t) - Y(h-t) to order thirteen in t; Y' = 1 + z Y, a = Y'(h)"""
    h = var("h.")
    from fractions import Fraction
    # polynomials in a and z = h^2, derivative n = p + h r parts: Y^(n+1) = h Y^(n) + n Y^(n-1)
    # odd derivatives are polynomials in (a, z); even ones are those times 1/h: keep h*Y^(even)
    add_ = lambda p, q: {k: p.get(k, 0) + q.get(k, 0) for k in set(p) | set(q)}
    scale = lambda p, c: {k: c * v for k, v in p.items()}
    up = lambda p: {(i, j + 1): v for (i, j), v in p.items()}
    odd = {(1, 0): Fraction(1)}                       # Y'
    even = {(1, 0): Fraction(1), (0, 0): Fraction(-1)}  # h Y
    out, k = num(0), 1
    while k <= 13:
        term = num(0)
        for (i, j), v in odd.items():
            if v:
                term = term + num(v / math.factorial(k)) * a ** i * z2 ** j
        out = out + 2 * t ** k * term
        # Y^(k+1) = h Y^(k) + k Y^(k-1)  ->  h Y^(k+1) = z Y^(k) + k h Y^(k-1)
        even = add_(up(odd), scale(even, k))
        # Y^(k+2) = h Y^(k+1) + (k+1) Y^(k)
        odd = add_(even, scale(odd, k + 1))
        k += 2
    return out


def rational(C):
    it = free(C, "interpolation")
    xl, xr, yl, yr, dl, dr, r, w = V("xl xr yl yr dl dr r w")
    R = it and C.ev(it, [x, xl, xr, yl, yr, dl, dr, r])
    top = num("4.056481920730334e31")
    if R:
        span = [xl < xr, r < top, num(-1) < r]
        S = lambda u: TM.subst(u, {xr: xl + w})
        ret = S(R.ret)
        z = var("z")
        own = [r < top, num(-1) < r]
        tt = (x - xl) / w
        want = (yr * tt ** 3 + (r * yr - w * dr) * tt ** 2 * (1 - tt) + (r * yl + w * dl) * tt * (1 - tt) ** 2 + yl * (1 - tt) ** 3) / (1 + (r - 3) * tt * (1 - tt))
        at = lambda u: TM.subst(u, {x: xl + w * z})
        C.eq("rational cubic", at(ret), at(want), it, own + [cmp("le", Z, z), cmp("le", z, num(1))], pos=[w])
        D = norm.diff(want, x)
        D2 = norm.diff(D, x)
        for nm, at, yy, dd in (("left", xl, yl, dl), ("right", xl + w, yr, dr)):
            C.eq("rational cubic: value at its %s end" % nm, TM.subst(ret, {x: at}), yy, it, own, pos=[w])
            C.eq("rational cubic: slope at its %s end" % nm, TM.subst(D, {x: at}), dd, it, own, pos=[w])
        C.eq("no control: the chord", ret, yl + (yr - yl) * tt, it, [cmp("le", top, r)], pos=[w])
        for side, at in (("left", xl), ("right", xl + w)):
            ct = free(C, "rational_cubic_control_parameter_to_fit_second_derivative_at_%s_side" % side)
            c = var("c")
            Q = ct and C.ev(ct, [xl, xr, yl, yr, dl, dr, c])
            if not Q:
                continue
            den = (yr - yl) / w - dl if side == "left" else dr - (yr - yl) / w
            ok = [num("1e-9") < fn("abs", w * c / 2 + dr - dl), num("1e-9") < fn("abs", den)]
            C.eq("control parameter: second derivative at the %s end" % side, TM.subst(TM.subst(D2, {x: at}), {r: S(Q.ret)}), c, ct, ok, pos=[w])
            cv = free(C, "convex_rational_cubic_control_parameter_to_fit_second_derivative_at_%s_side" % side)
            mi = free(C, "minimum_rational_cubic_control_parameter")
            fl = var("shape")
            Q2 = cv and mi and C.ev(cv, [xl, xr, yl, yr, dl, dr, c, fl], opaque=lambda i: i is ct or i is mi)
            if Q2:
                C.eq("control parameter at the %s end, kept above the smallest that preserves shape" % side, Q2.ret,
                     vmax(app("fn:" + ct.did, xl, xr, yl, yr, dl, dr, c), app("fn:" + mi.did, dl, dr, (yr - yl) / (xr - xl), fl)), cv)
    it = free(C, "minimum_rational_cubic_control_parameter")
    sl, fl = V("slope shape")
    for nm, b in (("shape", TRUE), ("smoothness", FALSE)):
        Q = it and C.ev(it, [dl, dr, sl, b])
        if not Q:
            continue
        ret = Q.ret
        lo = num("1.4901161193847656e-8")
        p1, p2, p3 = V("p1 p2 p3")
        away = [num("1e-9") < p for p in (p1, p2, p3)]
        r1 = (dl + dr) / sl
        r2 = vmax(fn("abs", (dr - dl) / (dr - sl)), fn("abs", (dr - dl) / (sl - dl)))
        lin = top if b is TRUE else None
        for cn, sub, want in (
                ("convex", {dl: -p1, sl: p2, dr: p2 + p3}, vmax(lo, r2)), ("concave", {dl: p1, sl: -p2, dr: -p2 - p3}, vmax(lo, r2)),
                ("monotone and convex", {dl: p1, sl: p1 + p2, dr: p1 + p2 + p3}, vmax(lo, vmax(r1, r2))),
                ("falling and concave", {dl: -p1, sl: -p1 - p2, dr: -p1 - p2 - p3}, vmax(lo, vmax(r1, r2))),
                ("monotone", {dl: p1, sl: p1 + p2, dr: p1 + p2 / 2}, vmax(lo, vmax(r1, lin) if lin else r1)), ("falling", {dl: -p1, sl: -p1 - p2, dr: -p1 - p2 / 2}, vmax(lo, vmax(r1, lin) if lin else r1)),
                ("monotone, flat in between", {dl: p1 + p2, sl: p1, dr: p1 + p3}, vmax(lo, vmax(r1, lin) if lin else r1)),
                ("neither", {dl: -p1, sl: p2, dr: -p3}, lo), ("neither, rising between falling slopes", {dl: p1, sl: -p2, dr: p3}, lo)):
            S = lambda u: TM.subst(u, sub)
            C.eq("shape parameter, preferring %s: %s data" % (nm, cn), S(ret), S(want), it, away, pos=[p1, p2, p3])


def maps(C):
    vg = vega(-y, s)
    for nm, fwd, inv in (("lower", "compute_f_lower_map_and_first_two_derivatives", "inverse_f_lower_map"),
                         ("upper", "compute_f_upper_map_and_first_two_derivatives", "inverse_f_upper_map")):
        it = free(C, fwd)
        r = it and C.ev(it, [-y, s])
        if r:
            f, fp, fpp = (exact(signs(fld(r.ret, 0, k, "tuple", 3), {y: 1, s: 1})) for k in range(3))
            want = 2 * fn("pi") / sqrt(num(27)) * y * Phi(-y / (sqrt(num(3)) * s)) ** 3 if nm == "lower" else Phi(-s / 2)
            C.eq(nm + " map", f, want, it, pos=[y, s])
            C.eq(nm + " map: first derivative in the price", fp, norm.diff(want, s) / vg, it, pos=[y, s])
            C.eq(nm + " map: second derivative in the price", fpp, norm.diff(norm.diff(want, s) / vg, s) / vg, it, pos=[y, s])
        it = free(C, inv)
        f = var("f")
        Q = lambda p: sqrt(num(2)) * fn("erf_inv", 2 * p - 1)
        if nm == "lower":
            r = it and C.ev(it, [-y, f])
            if r:
                p = (f / (2 * fn("pi") / sqrt(num(27)) * y)) ** "1/3"
                C.eq("lower map inverted", exact(signs(r.ret, {f: 1})), fn("abs", -y / (sqrt(num(3)) * Q(p))), it, pos=[y, f])
        else:
            r = it and C.ev(it, [f])
            if r:
                C.eq("upper map inverted", r.ret, -2 * Q(f), it, pos=[f])
