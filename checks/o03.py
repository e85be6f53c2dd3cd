"""Every method of the contract-level pricer is value-numbered and compared with
the model's own method of that name evaluated at the contract's strike, at the
year fraction from today to the contract's expiry, and at the contract's
call/put flag; accessors and setters of the pricer are compared with their
effect on its two fields."""
from spec import *
import optlib as OL

FLOOR = 60
G = ["price", "delta", "gamma", "theta", "vega", "rho", "vanna", "charm", "lambda", "zomma", "speed", "color", "vomma", "ultima"]
MODELS = {m: G for m in ("BlackScholes73", "Merton73", "Black76", "Asay82", "GarmanKohlhagen83")}
MODELS["Heston93"] = ["price", "delta", "gamma", "rho"]
MODELS["Bachelier"] = ["price", "delta", "gamma", "theta", "vega", "iv", "atm_price", "atm_vol"]


def run(C):
    for m, gs in MODELS.items():
        C.part(m, forward, m, gs)
    C.part("accessors", accessors)
    C.part("contracts", contracts)


def pricer(C, option, model):
    return C.S.make("AnalyticOptionPricer", "RustQuant_instruments", option=option, model=model)


def forward(C, model, names):
    opq = lambda it: it.name == "integrate"
    opt = lambda side: C.S.make("EuropeanVanillaOption", "RustQuant_instruments", strike=var("k"), expiry=var("expiry"), type_flag=OL.flag(C, side))
    a = C.S.adt(model, "RustQuant_instruments")
    M = agg(a["did"], 0, *[var(f[0]) for f in a["variants"][0]["fields"]])
    today, yf = C.free("today", "RustQuant_time"), C.free("year_fraction", "RustQuant_time")
    td = C.ev(today, [])
    t = td and C.ev(yf, [td.ret, var("expiry")])
    if not t:
        return
    t = t.ret
    p = var("p")
    for g in names:
        its = [i for i in C.F.method("AnalyticOptionPricer", g) if ("::%s>" % model) in i.self_ty.s or i.self_ty.s.endswith(model + ">")]
        it = C.one(its, "AnalyticOptionPricer<_, %s>::%s" % (model, g))
        mt = C.one([i for i in C.F.method(model, g) if i.did.startswith("RustQuant_instruments")], "%s::%s" % (model, g))
        if it is None or mt is None:
            continue
        for side in ("Call", "Put"):
            o = opt(side)
            pa = [pricer(C, o, M)] + ([p] if g in ("iv", "atm_vol") else [])
            ma = {"iv": [M, p, var("k"), t, OL.flag(C, side)], "atm_vol": [M, p, t], "atm_price": [M, t]}.get(g, [M, var("k"), t, OL.flag(C, side)])
            x, y = C.ev(it, pa, opaque=opq), C.ev(mt, ma, opaque=opq)
            if x is not None and y is not None:
                C.eq("%s %s %s" % (model, g, side), x.ret, y.ret, it, rule="forwarding")


def accessors(C):
    o, m, n = V("o m n")
    P = pricer(C, o, m)
    for nm, want in (("option", o), ("model", m)):
        it = C.method("AnalyticOptionPricer", nm)
        x = C.ev(it, [P])
        if x is not None:
            C.eq("pricer." + nm, x.ret, want, it, rule="accessor")
    it = C.method("AnalyticOptionPricer", "new")
    x = C.ev(it, [o, m])
    if x is not None:
        C.eq("pricer new", x.ret, P, it, rule="accessor")
    for nm, want in (("set_option", pricer(C, n, m)), ("set_model", pricer(C, o, n))):
        it = C.method("AnalyticOptionPricer", nm)
        x = C.ev(it, [var("p"), n], state={var("p"): P})
        if x is not None:
            C.eq("pricer." + nm, x.final(var("p")), want, it, rule="accessor")


def contracts(C):
    k, e, f = V("k e f")
    it = C.method("EuropeanVanillaOption", "new")
    x = C.ev(it, [k, e, f])
    if x is not None:
        C.eq("vanilla new", x.ret, C.S.make("EuropeanVanillaOption", "RustQuant_instruments", strike=k, expiry=e, type_flag=f), it, rule="accessor")
    it = C.method("ExerciseFlag", "expiry")
    S = C.S
    a, b, v = V("a b v")
    for nm, arg, want in (("European", dict(expiry=a), a), ("American", dict(start=a, end=b), b), ("Bermudan", dict(exercise_dates=v), v[LEN(v) - 1])):
        x = C.ev(it, [S.make("ExerciseFlag", "RustQuant_instruments", variant=nm, **arg)])
        if x is not None:
            C.eq("expiry of " + nm, x.ret, want, it, [lift(0) < LEN(v)], rule="accessor")
