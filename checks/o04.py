"""Every payoff function is value-numbered on a symbolic contract and a symbolic
terminal price (or path of arbitrary length) and compared with its contract
definition, per option type, barrier type, strike flag and averaging method;
knock-in plus knock-out is compared with vanilla plus rebate."""
from spec import *
import optlib as OL

FLOOR = 40
CR = "RustQuant_instruments"


def contract(C, side, strike=None):
    S = C.S
    sf = var("strike_flag") if strike is None else agg("core::option::Option", 1, S.variant("StrikeFlag", strike)) if strike else NONE
    return S.make("OptionContract", CR, type_flag=OL.flag(C, side), strike_flag=sf)


def run(C):
    for f in (scalar, barrier, lookback, asian):
        C.part(f.__name__, f)


def payoff(C, ty, obj, u, nm, want, assume=(), pos=(), **kw):
    it = C.method(ty, "payoff", "Payoff")
    x = C.ev(it, [obj, u])
    if x is not None:
        C.eq(nm, x.ret, want, it, list(assume), pos=pos, rule="payoff", **kw)
        return x.ret


def scalar(C):
    S = C.S
    s, k, p, cap, k1, k2 = V("s k p cap k1 k2")
    for side in ("Call", "Put"):
        w = 1 if side == "Call" else -1
        van = vmax(w * (s - k), num(0))
        pw = vmax(w * (s ** p - k), num(0))
        ct = contract(C, side)
        payoff(C, "EuropeanVanillaOption", S.make("EuropeanVanillaOption", CR, strike=k, type_flag=OL.flag(C, side)), s, "vanilla " + side, van)
        payoff(C, "PowerOption", S.make("PowerOption", CR, contract=ct, strike=k, power=p), s, "power " + side, pw, pos=[s])
        payoff(C, "PoweredOption", S.make("PoweredOption", CR, contract=ct, strike=k, power=p), s, "powered " + side, van ** p, pos=[s])
        payoff(C, "CappedPowerOption", S.make("CappedPowerOption", CR, contract=ct, strike=k, power=p, cap=cap), s, "capped power " + side, vmin(pw, cap), pos=[s])
        itm = (k < s) if side == "Call" else (s < k)
        for bt, amt in (("AssetOrNothing", s), ("CashOrNothing", k)):
            payoff(C, "BinaryOption", S.make("BinaryOption", CR, contract=ct, strike=k, binary_type=S.variant("BinaryType", bt)), s,
                   "binary %s %s" % (bt, side), If(itm, amt, 0))
        lo = ln(s / k)
        payoff(C, "LogOption", S.make("LogOption", CR, contract=ct, strike=k), s, "log option " + side, vmax(lo, num(0)), pos=[s, k])
        payoff(C, "LogMoneynessContract", S.make("LogMoneynessContract", CR, contract=ct, strike=k), s, "log moneyness " + side, lo, pos=[s, k])
        payoff(C, "LogUnderlyingContract", S.make("LogUnderlyingContract", CR, contract=ct, strike=k), s, "log underlying " + side, ln(s), pos=[s, k])
        payoff(C, "SupershareOption", S.make("SupershareOption", CR, contract=ct, strike_1=k1, strike_2=k2), s, "supershare " + side,
               If(And(k1 <= s, s <= k2), s / k1, 0), [ne(s, k2)])
    payoff(C, "PowerContract", S.make("PowerContract", CR, strike=k, power=p), s, "power contract", (s / k) ** p, pos=[s, k])


def barrier(C):
    S = C.S
    v, b, k = V("path b k")
    n = LEN(v)
    for side in ("Call", "Put"):
        w = 1 if side == "Call" else -1
        van = vmax(w * (v[n - 1] - k), num(0))
        for reb, rv in ((NONE, num(0)), (agg("core::option::Option", 1, var("rebate")), var("rebate"))):
            got = {}
            for bt in ("UpAndOut", "DownAndOut", "UpAndIn", "DownAndIn"):
                o = S.make("BarrierOption", CR, contract=contract(C, side), barrier_type=S.variant("BarrierType", bt), barrier=b, strike=k, rebate=reb)
                hit = mk("exists", n, lamf(lambda j: b <= v[j])) if bt.startswith("Up") else mk("exists", n, lamf(lambda j: v[j] <= b))
                want = If(hit, rv, van) if bt.endswith("Out") else If(hit, van, rv)
                got[bt] = payoff(C, "BarrierOption", o, v, "barrier %s %s%s" % (bt, side, "" if reb is NONE else " with rebate"), want, [lift(0) < n])
            it = C.method("BarrierOption", "payoff", "Payoff")
            for d in ("Up", "Down"):
                i, o = got[d + "AndIn"], got[d + "AndOut"]
                if i is not None and o is not None:
                    C.eq("%s-and-in + %s-and-out = vanilla + rebate, %s" % (d.lower(), d.lower(), side), i + o, van + rv, it, [lift(0) < n], rule="in-out parity")


def lookback(C):
    S = C.S
    v, k = V("path k")
    n = LEN(v)
    mx, mn = mk("SMAX", n, lamf(lambda j: v[j])), mk("SMIN", n, lamf(lambda j: v[j]))
    last = v[n - 1]
    for side in ("Call", "Put"):
        for sf in ("Fixed", "Floating", ""):
            o = S.make("LookbackOption", CR, contract=contract(C, side, sf), strike=agg("core::option::Option", 1, k))
            if sf == "Fixed":
                want = mx - k if side == "Call" else k - mn
            else:
                want = last - mn if side == "Call" else mx - last
            payoff(C, "LookbackOption", o, v, "lookback %s %s" % (sf or "default", side), vmax(want, num(0)), [lift(0) < n])


def asian(C):
    S = C.S
    v, k = V("path k")
    n = LEN(v)
    av = {"ArithmeticDiscrete": SUM(n, lambda j: v[j]) / n, "GeometricDiscrete": PROD(n, lambda j: v[j]) ** (1 / n)}
    for m, a in av.items():
        for side in ("Call", "Put"):
            w = 1 if side == "Call" else -1
            for sf in ("Fixed", "Floating"):
                o = S.make("AsianOption", CR, contract=contract(C, side, sf), averaging_method=S.variant("AveragingMethod", m), strike=agg("core::option::Option", 1, k))
                want = w * (a - k) if sf == "Fixed" else w * (v[n - 1] - a)
                payoff(C, "AsianOption", o, v, "asian %s %s %s" % (m, sf, side), vmax(want, num(0)), [lift(0) < n])
