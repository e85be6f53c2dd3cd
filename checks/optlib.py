"""Shared by the option checks: the generalised Black-Scholes price and the
definitions of the Greeks as derivatives of a price."""
from spec import *
import norm

S0, K, T_, R, B_, SIG = V("S K T r b sigma")


def flag(C, name):
    return C.S.variant("TypeFlag", name)


def d12(s, k, t, b, v):
    d1 = (ln(s / k) + (b + v * v / 2) * t) / (v * sqrt(t))
    return d1, d1 - v * sqrt(t)


def bsm(s, k, t, r, b, v, call):
    d1, d2 = d12(s, k, t, b, v)
    if call:
        return s * exp((b - r) * t) * Phi(d1) - k * exp(-r * t) * Phi(d2)
    return k * exp(-r * t) * Phi(-d2) - s * exp((b - r) * t) * Phi(-d1)


D = norm.diff


def greeks(P, s, k, t, r, v, q=None):
    """name -> term, each defined as a derivative of the price P"""
    dl = D(P, s)
    gm = D(dl, s)
    vg = D(P, v)
    vm = D(vg, v)
    out = {
        "price": P, "delta": dl, "gamma": gm, "theta": -D(P, t), "vega": vg, "rho": D(P, r) if r is not None else num(0),
        "vanna": D(dl, v), "charm": -D(dl, t), "lambda": dl * s / P, "zomma": D(gm, v), "speed": D(gm, s),
        "color": -D(gm, t), "vomma": vm, "ultima": D(vm, v),
    }
    return out
