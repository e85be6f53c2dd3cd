"""Prices and Greeks of the analytic models are value-numbered on symbolic
parameters; the price is compared with the closed form of its model, and every
Greek with the symbolic derivative of that price that its name denotes, for calls
and puts separately and for all positive spot, strike, volatility and maturity."""
from spec import *
import optlib as OL
import norm

FLOOR = 100
GREEKS = ["price", "delta", "gamma", "theta", "vega", "rho", "vanna", "charm", "lambda", "zomma", "speed", "color",
          "vomma", "ultima"]


def models():
    s, f, r, q, v, rd, rf = V("s f r q v r_d r_f")
    return [
        ("BlackScholes73", [s, r, v], s, r, r, r, v),
        ("Merton73", [s, r, q, v], s, r, r - q, r, v),
        ("Black76", [f, r, v], f, r, num(0), r, v),
        ("Asay82", [f, v], f, num(0), num(0), None, v),
        ("GarmanKohlhagen83", [s, rd, rf, v], s, rd, rd - rf, rd, v),
    ]


def run(C):
    for m in models():
        C.part(m[0], gbsm, *m)
    C.part("Bachelier", bachelier)
    C.part("BlackScholesMerton", bsm_struct)
    C.part("SABR", sabr)


def gbsm(C, name, params, s, r, b, rv, v):
    k, t = V("k t")
    pos = [s, k, t, v]
    ctor = C.method(name, "new")
    o = C.ev(ctor, params)
    if o is None:
        return
    o = o.ret
    for side in ("Call", "Put"):
        P = OL.bsm(s, k, t, r, b, v, side == "Call")
        G = OL.greeks(P, s, k, t, rv, v)
        for g in GREEKS:
            it = C.method(name, g, "GeneralisedBlackScholesMerton")
            x = C.ev(it, [o, k, t, OL.flag(C, side)])
            if x is None:
                continue
            C.eq("%s %s %s" % (name, side, g), x.ret, G[g], it, pos=pos, rule=g)
    d1, d2 = OL.d12(s, k, t, b, v)
    for nm, w in (("d1", d1), ("d2", d2)):
        it = C.method(name, nm, "GeneralisedBlackScholesMerton")
        x = C.ev(it, [o, k, t])
        if x is not None:
            C.eq("%s %s" % (name, nm), x.ret, w, it, pos=pos, rule="d1/d2")


def bachelier(C):
    f, r, v, k, t = V("f r v k t")
    o = C.ev(C.method("Bachelier", "new"), [f, r, v])
    if o is None:
        return
    o = o.ret
    pos = [v, t]
    d = (f - k) / (v * sqrt(t))
    for side in ("Call", "Put"):
        w = 1 if side == "Call" else -1
        P = exp(-r * t) * (w * (f - k) * Phi(w * d) + v * sqrt(t) * phi(d))
        G = {"price": P, "delta": OL.D(P, f), "gamma": OL.D(OL.D(P, f), f), "vega": OL.D(P, v), "theta": -OL.D(P, t)}
        for g in G:
            it = C.method("Bachelier", g)
            x = C.ev(it, [o, k, t, OL.flag(C, side)])
            if x is not None:
                C.eq("Bachelier %s %s" % (side, g), x.ret, G[g], it, pos=pos, rule=g)
    it = C.method("Bachelier", "atm_price")
    x = C.ev(it, [o, t])
    if x is not None:
        C.eq("Bachelier atm_price", x.ret, exp(-r * t) * v * sqrt(t) * phi(num(0)), it, pos=pos, rule="at-the-money")
    p = var("price")
    it = C.method("Bachelier", "atm_vol")
    y = C.ev(it, [o, p, t])
    if x is not None and y is not None:
        C.eq("Bachelier atm_vol inverts atm_price", subst(y.ret, {p: x.ret}), v, it, pos=pos, rule="at-the-money")
    implied(C, o, f, r, k, t, v)


def implied(C, o, f, r, k, t, v):
    """the rational approximation stands for the inverse of the price: with all
    literals of the source folded, it returns the volatility of the exact price"""
    import evalt
    it = C.method("Bachelier", "iv")
    p = var("price")
    for side in ("Call", "Put"):
        x = it and C.ev(it, [o, p, k, t, OL.flag(C, side)])
        if not x:
            continue
        w = 1 if side == "Call" else -1
        d = (f - k) / (v * sqrt(t))
        P = exp(-r * t) * (w * (f - k) * Phi(w * d) + v * sqrt(t) * phi(d))
        for m in "0 1/1000 1/10 1/2 1 3/2 2 5/2 3 7/2 4".split():
            for sg in (1, -1):
                at = {f: num(100), k: 100 + sg * num(m) * num("3/2"), t: num("9/4"), v: num(1), r: num("1/20")}
                q = subst(subst(x.ret, {p: P}), at)
                try:
                    got = float(evalt.Eval(0).ev(q, {}))
                    ok = abs(got - 1) <= 1e-9
                except evalt.Bad as e:
                    got, ok = "undefined (%s)" % e, False
                except evalt.Undef as e:
                    got, ok = str(e), None
                C.fact("Bachelier %s implied volatility %s deviations %s the money" % (side, m, "above" if sg > 0 else "below"), ok, it,
                       "the price at volatility 1 implies %s" % got, rule="literals folded")


def bsm_struct(C):
    s, k, v, r, b, t = V("S K v r b T")
    pos = [s, k, v, t]
    yf = C.method("BlackScholesMerton", "year_fraction")
    names = ["price", "delta", "vanna", "charm", "lambda", "gamma", "gamma_percent", "zomma", "zomma_percent", "speed",
             "colour", "vega", "vomma", "ultima", "vega_bleed", "theta", "rho", "phi", "zeta", "strike_delta", "strike_gamma"]
    for side in ("Call", "Put"):
        call = side == "Call"
        o = C.S.make("BlackScholesMerton", "RustQuant_instruments", cost_of_carry=b, underlying_price=s, strike_price=k, volatility=v,
                     risk_free_rate=r, evaluation_date=var("eval"), expiration_date=var("expiry"), option_type=OL.flag(C, side))
        P = OL.bsm(s, k, t, r, b, v, call)
        G = OL.greeks(P, s, k, t, r, v)
        q = var("q")
        Pq = subst(P, {b: r - q})
        d1, d2 = OL.d12(s, k, t, b, v)
        back = lambda x: subst(x, {q: r - b})
        G.update(rho=back(OL.D(Pq, r)), phi=back(OL.D(Pq, q)), colour=G["color"], vega_bleed=-OL.D(G["vega"], t),
                 gamma_percent=G["gamma"] * s / 100, zomma_percent=G["zomma"] * s / 100,
                 zeta=Phi(d2) if call else Phi(-d2), strike_delta=OL.D(P, k), strike_gamma=OL.D(OL.D(P, k), k))
        y = C.ev(yf, [o])
        for g in names:
            it = C.method("BlackScholesMerton", g, None, "RustQuant_instruments")
            x = C.ev(it, [o])
            if x is None or y is None:
                continue
            C.eq("BlackScholesMerton %s %s" % (side, g), subst(x.ret, {y.ret: t}), G[g], it, pos=pos, rule=g)


def sabr(C):
    """Hagan's lognormal SABR volatility"""
    f, k, t, al, be, rho, nu = V("f k t alpha beta rho nu")
    o = C.ev(C.method("Sabr02", "new"), [f, al, be, rho, nu])
    it = C.method("Sabr02", "volatility")
    x = o and C.ev(it, [o.ret, k, t])
    if not x:
        return
    L = ln(f / k)
    fk = (f * k) ** ((1 - be) / 2)
    z = nu / al * fk * L
    chi = ln((sqrt(1 - 2 * rho * z + z ** 2) + z - rho) / (1 - rho))
    front = al / (fk * (1 + (1 - be) ** 2 / 24 * L ** 2 + (1 - be) ** 4 / 1920 * L ** 4))
    corr = 1 + ((1 - be) ** 2 / 24 * al ** 2 / fk ** 2 + rho * be * nu * al / (4 * fk) + (2 - 3 * rho ** 2) / 24 * nu ** 2) * t
    dom = [lift(-1) < rho, rho < 1]
    pos = [f, k, t, al, nu]
    C.eq("SABR volatility", x.ret, front * corr * z / chi, it, dom + [ne(z, 0)], pos=pos, rule="SABR")
    y = C.ev(it, [o.ret, f, t])
    if y:
        fb = f ** (1 - be)
        C.eq("SABR volatility at the money", y.ret, al / fb * (1 + ((1 - be) ** 2 / 24 * al ** 2 / fb ** 2 + rho * be * nu * al / (4 * fb)
             + (2 - 3 * rho ** 2) / 24 * nu ** 2) * t), it, dom, pos=pos, rule="SABR")
