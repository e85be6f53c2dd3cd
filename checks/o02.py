"""Call and put legs of every model are value-numbered on the same symbolic
parameters and the parity relations (price, delta, and equality of the
second-order and volatility Greeks) are decided in normal form.  For Heston the
numerical integral stays uninterpreted, so parity holds whatever the quadrature
returns, and the integrand handed to it is compared with the characteristic-
function formula."""
from spec import *
import optlib as OL
import o01
import term as TM

FLOOR = 40


def run(C):
    for m in o01.models():
        C.part(m[0], gbsm, *m)
    C.part("Bachelier", bachelier)
    C.part("Heston", heston)
    C.part("BlackScholesMerton", struct)


def both(C, it, mk_args, **kw):
    a, b = C.ev(it, mk_args("Call"), **kw), C.ev(it, mk_args("Put"), **kw)
    return (None, None) if a is None or b is None else (a.ret, b.ret)


def parity(C, nm, getter, s, k, t, r, b, pos, names):
    fw = s * exp((b - r) * t)
    want = {"price": fw - k * exp(-r * t), "delta": exp((b - r) * t), "gamma": 0, "vega": 0, "vanna": 0, "zomma": 0,
            "speed": 0, "color": 0, "colour": 0, "vomma": 0, "ultima": 0,
            "theta": -(fw * (b - r) + r * k * exp(-r * t)), "charm": -(b - r) * exp((b - r) * t)}
    for g in names:
        it, c, p = getter(g)
        if c is not None:
            C.eq("%s %s call - put" % (nm, g), c - p, lift(want[g]), it, pos=pos, rule="parity")


def gbsm(C, name, params, s, r, b, rv, v):
    k, t = V("k t")
    o = C.ev(C.method(name, "new"), params)
    if o is None:
        return

    def get(g):
        it = C.method(name, g, "GeneralisedBlackScholesMerton")
        return (it,) + both(C, it, lambda side: [o.ret, k, t, OL.flag(C, side)])
    parity(C, name, get, s, k, t, r, b, [s, k, t, v],
           ["price", "delta", "gamma", "vega", "theta", "vanna", "charm", "zomma", "speed", "color", "vomma", "ultima"])


def struct(C):
    s, k, v, r, b, t = V("S K v r b T")
    o = lambda side: C.S.make("BlackScholesMerton", "RustQuant_instruments", cost_of_carry=b, underlying_price=s, strike_price=k,
                              volatility=v, risk_free_rate=r, evaluation_date=var("eval"), expiration_date=var("expiry"), option_type=OL.flag(C, side))
    y = C.ev(C.method("BlackScholesMerton", "year_fraction"), [o("Call")])
    if y is None:
        return

    def get(g):
        it = C.method("BlackScholesMerton", g, None, "RustQuant_instruments")
        c, p = both(C, it, lambda side: [o(side)])
        return it, c and subst(c, {y.ret: t}), p and subst(p, {y.ret: t})
    parity(C, "BlackScholesMerton", get, s, k, t, r, b, [s, k, t, v],
           ["price", "delta", "gamma", "vega", "theta", "vanna", "charm", "zomma", "speed", "colour", "vomma", "ultima"])


def bachelier(C):
    f, r, v, k, t = V("f r v k t")
    o = C.ev(C.method("Bachelier", "new"), [f, r, v])
    if o is None:
        return
    df = exp(-r * t)
    want = {"price": df * (f - k), "delta": df, "gamma": num(0), "vega": num(0), "theta": r * df * (f - k)}
    for g in want:
        it = C.method("Bachelier", g)
        c, p = both(C, it, lambda side: [o.ret, k, t, OL.flag(C, side)])
        if c is not None:
            C.eq("Bachelier %s call - put" % g, c - p, want[g], it, pos=[v, t], rule="parity")
    # implied volatility: (undiscounted) prices in parity imply one volatility
    it = C.method("Bachelier", "iv")
    m, p2 = V("m p")            # f = k + m, forward call price (p + m)/2, put price (p - m)/2
    o = C.ev(C.method("Bachelier", "new"), [k + m, r, v])
    c = C.ev(it, [o.ret, df * (p2 + m) / 2, k, t, OL.flag(C, "Call")])
    p = C.ev(it, [o.ret, df * (p2 - m) / 2, k, t, OL.flag(C, "Put")])
    if c is not None and p is not None:
        C.eq("Bachelier implied volatility call = put in parity", c.ret, p.ret, it, pos=[v, t, p2], rule="parity")


def heston(C):
    s, v, r, q, rho, kappa, theta, sigma, k, t = V("s v r q rho kappa theta sigma k t")
    o = C.ev(C.method("Heston93", "new"), [s, v, r, q, rho, kappa, theta, sigma])
    if o is None:
        return
    pos = [s, v, k, t, sigma, kappa, theta]
    opq = lambda it: it.name == "integrate"
    want = {"price": s * exp(-q * t) - k * exp(-r * t), "delta": exp(-q * t), "gamma": num(0), "rho": k * t * exp(-r * t)}
    for g in want:
        it = C.method("Heston93", g)
        c, p = both(C, it, lambda side: [o.ret, k, t, OL.flag(C, side)], opaque=opq)
        if c is not None:
            C.eq("Heston %s call - put" % g, c - p, want[g], it, pos=pos, rule="parity")
    # integrands
    it = C.method("Heston93", "price")
    x = C.ev(it, [o.ret, k, t, OL.flag(C, "Call")], opaque=opq)
    if x is None:
        return
    w = var("w")
    ints = [c for c in x.calls if c[1].startswith("fn:") and c[1].endswith("integrate")]
    P = {}
    for _, key, args, res in ints:
        f, _ = x.ev.call_closure(args[0], [w], x.state.copy(), ())
        P[res] = f
    I1, I2 = var("I1"), var("I2")
    if len(P) != 2:
        C.undecided("Heston integrals", it, "%d integrals" % len(P))
        return
    a, b = P
    want = s * exp(-q * t) * (num(1) / 2 + I1 / PI) - k * exp(-r * t) * (num(1) / 2 + I2 / PI)
    C.eq("Heston call price from the two probabilities", subst(x.ret, {a: I1, b: I2}), want, it, pos=pos, rule="Heston")
    i = fn("I")

    def cf(j):
        u = num(1) / 2 if j == 1 else num(-1) / 2
        bj = kappa - rho * sigma if j == 1 else kappa
        m = rho * sigma * i * w
        d = sqrt((m - bj) ** 2 - sigma ** 2 * (2 * u * i * w - w ** 2))
        g = (bj - m + d) / (bj - m - d)
        Cc = (r - q) * i * w * t + kappa * theta / sigma ** 2 * ((bj - m + d) * t - 2 * ln((1 - g * exp(d * t)) / (1 - g)))
        D = (bj - m + d) / sigma ** 2 * (1 - exp(d * t)) / (1 - g * exp(d * t))
        return exp(Cc + D * v + i * w * ln(s))
    for nm, got, j in (("P1", P[a], 1), ("P2", P[b], 2)):
        C.eq("Heston %s integrand" % nm, got, re(exp(-i * w * ln(k)) * cf(j) / (i * w)), it, pos=pos + [w], rule="Heston")
    it = C.method("Heston93", "gamma")
    x = C.ev(it, [o.ret, k, t, OL.flag(C, "Call")], opaque=opq)
    if x is not None:
        ints = [c for c in x.calls if c[1].startswith("fn:") and c[1].endswith("integrate")]
        if len(ints) == 1:
            f, _ = x.ev.call_closure(ints[0][2][0], [w], x.state.copy(), ())
            C.eq("Heston gamma integrand", f, re(exp(-i * w * ln(k)) * cf(1)), it, pos=pos + [w], rule="Heston")
            C.eq("Heston gamma", subst(x.ret, {ints[0][3]: I1}), exp(-q * t) * I1 / (PI * s), it, pos=pos, rule="Heston")
    # delta and rho are the derivatives of the price at fixed probabilities
    for g, sign in (("delta", exp(-q * t) * (num(1) / 2 + I1 / PI)), ("rho", k * t * exp(-r * t) * (num(1) / 2 + I2 / PI))):
        it = C.method("Heston93", g)
        x = C.ev(it, [o.ret, k, t, OL.flag(C, "Call")], opaque=opq)
        if x is not None:
            C.eq("Heston call " + g, subst(x.ret, {a: I1, b: I2}), sign, it, pos=pos, rule="Heston")


def re(x):
    return fn("re", x)
