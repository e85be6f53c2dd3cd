"""Contracts, models and their builders keep exactly the terms they are given; an
instrument describes itself by its own terms."""
from spec import *
import term as TM

FLOOR = 60
CR = "RustQuant_instruments"

# type: fields in the order the constructor takes them
NEW = {
    "PowerOption": "contract strike power", "PoweredOption": "contract strike power",
    "CappedPowerOption": "contract strike power cap", "PowerContract": "strike power",
    "AsianOption": "contract averaging_method strike", "EuropeanVanillaOption": "strike expiry type_flag",
    "BlackScholesMerton": "cost_of_carry underlying_price strike_price volatility risk_free_rate evaluation_date expiration_date option_type",
    "BlackScholes73": "s r v", "Merton73": "s r q v", "Black76": "f r v", "Asay82": "f v",
    "GarmanKohlhagen83": "s r_d r_f v", "Heston93": "s v r q rho kappa theta sigma",
    "Bachelier": "f r v", "Sabr02": "f alpha beta rho nu", "CurrencyPair": "base quote",
}
# the same of other crates: crate, fields, fields set besides
OTHER = {
    "StochasticProcessConfig": ("RustQuant_stochastics", "x_0 t_0 t_n n_steps scheme m_paths parallel seed", ""),
    "LassoInput": ("RustQuant_ml", "x y lambda fit_intercept max_iter tolerance", ""),
    "RidgeRegressionInput": ("RustQuant_ml", "x y lambda fit_intercept max_iter tolerance", ""),
    "LinearRegressionInput": ("RustQuant_ml", "x y", ""),
    "Bisection": ("RustQuant_math", "function guess data", ""),
    "Brent": ("RustQuant_math", "function guess data", ""),
    "NewtonRaphson": ("RustQuant_math", "function derivative guess data", ""),
}
# builder of: crate, fields that may be left out (and are then absent)
BUILD = {
    "OptionContract": (CR, ["strike_flag", "settlement_flag"]),
    "BlackScholesMerton": (CR, ["evaluation_date"]),
    "AsianOption": (CR, []),
    "EuropeanVanillaOption": (CR, []),
    "AnalyticOptionPricer": (CR, []),
    "Curve": ("RustQuant_data", []),
}


def run(C):
    for nm, fs in NEW.items():
        C.part(nm + " new", new, nm, fs.split(), CR)
    for nm, (cr, fs, _) in OTHER.items():
        C.part(nm + " new", new, nm, fs.split(), cr)
    C.part("root finder settings", settings)
    for nm, (cr, optional) in BUILD.items():
        C.part(nm + " builder", builder, nm, cr, optional)
    C.part("instrument", instrument)


def fields(C, ty, cr):
    a = C.S.adt(ty, cr)
    return [f[0] for f in a["variants"][0]["fields"]]


def settings(C):
    cr, nm = "RustQuant_math", "RootfinderData"
    acc, step, lo, hi, enf = V("accuracy stepsize lower upper enforced")
    it = C.method(nm, "new", None, cr)
    r = it and C.ev(it, [acc, step, lo, hi, enf])
    g = lambda f: C.S.get(r.ret, nm, f, cr)
    if r:
        for f, w in (("accuracy", acc), ("stepsize", step), ("interval_enforced", enf), ("iteration_count", num(0))):
            C.eq("%s new: %s" % (nm, f), g(f), w, it, rule="constructor")
        C.eq(nm + " new: lower bound", fld(g("interval"), 0, 0, "tuple", 2), lo, it, rule="constructor")
        C.eq(nm + " new: upper bound", fld(g("interval"), 0, 1, "tuple", 2), hi, it, rule="constructor")


def new(C, nm, fs, cr):
    it = C.method(nm, "new", None, cr)
    r = it and C.ev(it, [var(f) for f in fs])
    if r:
        for f in fs:
            C.eq("%s new: %s" % (nm, f), C.S.get(r.ret, nm, f, cr), var(f), it, rule="constructor")
        C.prove("%s new: every contract is accepted" % nm, runs(r), it)


def builder(C, nm, cr, optional):
    B = nm + "Builder"
    fs = fields(C, nm, cr)
    its = [i for i in C.F.fns(lambda i: i.did.startswith(cr) and i.self_ty is not None and i.self_ty.s.split("<")[0].endswith("::" + B))]
    st = {f: var("b_" + f) for f in fs}
    for f in fs:
        it = C.one([i for i in its if i.name == f], B + "::" + f)
        s = var("self")
        r = it and C.ev(it, [s, var("x")], state={s: C.S.make(B, cr, **st)})
        if r:
            for g in fs:
                C.eq("%s: setting %s, %s" % (B, f, "sets it" if g == f else "keeps " + g), C.S.get(r.final(s), B, g, cr),
                     some(var("x")) if g == f else st[g], it, rule="setter")
    it = C.one([i for i in its if i.name == "build"], B + "::build")
    if not it:
        return
    full = {f: some(var(f)) for f in fs}
    r = C.ev(it, [C.S.make(B, cr, **full)])
    if r:
        C.eq(B + ": complete terms are built", If(eq(discr(r.ret, 2), num(0)), 1, 0), 1, it)
        for f in fs:
            C.eq("%s: builds %s" % (B, f), C.S.get(fld(r.ret, 0, 0, "core::result::Result", 1), nm, f, cr), var(f), it, rule="constructor")
    for f in fs:
        r = C.ev(it, [C.S.make(B, cr, **dict(full, **{f: NONE}))])
        if not r:
            continue
        if f in optional:
            C.eq("%s: %s may be left out" % (B, f), If(eq(discr(r.ret, 2), num(0)), 1, 0), 1, it)
            C.eq("%s: %s left out is absent" % (B, f), C.S.get(fld(r.ret, 0, 0, "core::result::Result", 1), nm, f, cr), NONE, it)
        else:
            C.eq("%s: %s is mandatory" % (B, f), If(eq(discr(r.ret, 2), num(0)), 1, 0), 0, it, rule="guard")
    for e in [i for i in its if i.name in ("create_empty", "default")]:
        r = C.ev(e, [])
        if r:
            for f in fs:
                C.eq("%s: %s starts without %s" % (B, e.name, f), C.S.get(r.ret, B, f, cr), NONE, e)


def instrument(C):
    fs = NEW["BlackScholesMerton"].split()
    for side in ("Call", "Put"):
        M = C.S.make("BlackScholesMerton", CR, **dict({f: var(f) for f in fs}, option_type=C.S.variant("TypeFlag", side)))
        tr = C.F.method("BlackScholesMerton", "price", "Instrument", CR)
        inh = [i for i in C.F.method("BlackScholesMerton", "price", None, CR) if i not in tr]
        a, b = C.one(inh, "BlackScholesMerton::price"), C.one(tr, "Instrument for BlackScholesMerton::price")
        if a and b:
            x, y = C.ev(a, [M]), C.ev(b, [M])
            if x and y:
                C.eq("the instrument's price is the model's, " + side, y.ret, x.ret, b, rule="forwarding")
    today = C.free("today", "RustQuant_time")
    td = today and C.ev(today, [])
    it = C.method("BlackScholesMerton", "valuation_date", "Instrument", CR)
    mk = lambda d: C.S.make("BlackScholesMerton", CR, **dict({f: var(f) for f in fs}, evaluation_date=d))
    for what, d, want in (("a dated option is valued on its evaluation date", some(var("d")), var("d")), ("an undated option is valued today", NONE, td and td.ret)):
        r = it and C.ev(it, [mk(d)])
        if r and want is not None:
            C.eq(what, r.ret, want, it)
    it = C.method("BlackScholesMerton", "error", "Instrument", CR)
    r = it and C.ev(it, [mk(NONE)])
    if r:
        C.eq("a closed form has no sampling error", r.ret, NONE, it)
    cur = C.S.adt("Currency", CR)
    cf = [f[0] for f in cur["variants"][0]["fields"]]
    U = agg(cur["did"], 0, *[var(f) for f in cf])
    for nm, want in (("price", num(1)), ("error", NONE), ("valuation_date", td and td.ret), ("instrument_type", var("name"))):
        it = C.method("Currency", nm, "Instrument", CR)
        r = it and C.ev(it, [U])
        if r and want is not None:
            C.eq("a currency's %s" % nm, r.ret, want, it)
