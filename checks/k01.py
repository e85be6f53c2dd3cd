"""Calibration: the parameters a fit stores are the ones its objective scored, the
objective is the distance between the fitted model and the quotes it was given, a
failed optimisation changes nothing."""
from spec import *
import term as TM
import models

FLOOR = 12
OC, DC, SC = "RustQuant_instruments", "RustQuant_data", "RustQuant_stochastics"
p, s, v, k, t, x, i = V("p s v k t x i")
RES, OPT = "core::result::Result", "core::option::Option"
h, L, nth = models.haskey, models.maplen, models.nthkey
SF = "f alpha beta rho nu".split()
CF = "nodes curve_type interpolation_method interpolator nss".split()


def run(C):
    C.part("SABR", sabr)
    C.part("curve", curve)


def optimised(C, n, ret, it):
    """the optimiser call whose failure the fit reports"""
    runs_ = [q for q in subterms(ret) if q.op == "app" and q.a[0] == "argmin::core::executor::Executor::run"]
    runs_ = list(dict.fromkeys(runs_))
    if len(runs_) != 1:
        C.undecided("%s: optimiser" % n, it, "%d optimiser runs" % len(runs_))
        return None
    ok = cmp("eq", discr(runs_[0], 2), num(0))
    C.eq("%s: succeeds exactly when the optimiser does" % n, If(cmp("eq", discr(ret, 2), num(0)), 1, 0), If(ok, 1, 0), it)
    return runs_[0], ok


def position(ts):
    """the best position the stored parameters are read from"""
    ps = []
    for q in ts:
        for u in subterms(q):
            if u.op == "fld" and u.a[0].op == "fld" and any(y.op == "app" and "get_best_param" in str(y.a[0]) for y in subterms(u)) \
                    and not any(z is u for z in ps) and u.a[0].a[0].op == "app" and "get_best_param" in str(u.a[0].a[0].a[0]):
                ps.append(u)
    return ps


def fitted(C, n, terms, it):
    ps = position(terms)
    if len(ps) != 1:
        C.undecided("%s: best position" % n, it, "%d positions read" % len(ps))
        return None
    return ps[0]


def sabr(C):
    C.dom = [cmp("le", num(3), LEN(p))]
    it = C.method("Sabr02", "fit", None, OC)
    m0 = C.S.make("Sabr02", OC, **{f: var("m." + f) for f in SF})
    r = C.ev(it, [s, v, k, t], state={s: m0})
    cost = C.method("Sabr02Calibrator", "cost", None, OC)
    vol = C.method("Sabr02", "volatility", None, OC)
    if not r or cost is None or vol is None:
        return
    o = optimised(C, "SABR fit", r.ret, it)
    if not o:
        return
    run_, ok = o
    f = r.final(s)
    get = lambda q, fd: C.S.get(q, "Sabr02", fd, OC)
    for fd in SF:
        C.eq("SABR fit: a failed fit keeps " + fd, get(f, fd), var("m." + fd), it, [not_(ok)])
    for fd in ("f", "beta"):
        C.eq("SABR fit: keeps the fixed " + fd, get(f, fd), var("m." + fd), it)
    pos = fitted(C, "SABR fit", [get(f, fd) for fd in SF], it)
    cal = [q for q in subterms(run_) if q.op == "agg" and "Calibrator" in str(q.a[0])]
    if pos is None or len(set(cal)) != 1:
        C.undecided("SABR fit: objective", it, "objective not found")
        return
    done = TM.subst(f, {ok: TRUE, pos: p})
    done = C.S.make("Sabr02", OC, **{fd: TM.subst(get(f, fd), {ok: TRUE, pos: p}) for fd in SF})
    rc = C.ev(cost, [cal[0], p])
    rv = C.ev(vol, [done, k[i], x])
    if not rc or not rv:
        return
    e = lambda j: TM.subst(rv.ret, {i: j, x: t}) - v[j]
    C.eq("SABR objective: always defined", If(cmp("eq", discr(rc.ret, 2), num(0)), 1, 0), 1, cost)
    C.eq("SABR objective: root of the squared volatility errors of the model the fit stores", fld(rc.ret, 0, 0, RES, 1),
         sqrt(SUM(LEN(v), lambda j: e(j) ** 2)), cost, [cmp("eq", LEN(v), LEN(k))])


def curve(C):
    C.dom = [cmp("le", num(6), LEN(p))]
    m0 = C.S.make("curves::Curve", DC, **{f: var("c." + f) for f in CF})
    it = C.method("Curve", "fit_nss", None, DC)
    cost = C.method("Curve", "cost", None, DC)
    r = C.ev(it, [s], state={s: m0})
    if not r or cost is None:
        return
    get = lambda q, fd: C.S.get(q, "curves::Curve", fd, DC)
    o = optimised(C, "curve fit", r.ret, it)
    if not o:
        return
    run_, ok = o
    f = r.final(s)
    for fd in CF:
        C.eq("curve fit: a failed fit keeps the " + fd, get(f, fd), var("c." + fd), it, [not_(ok)])
        if fd != "nss":
            C.eq("curve fit: keeps the " + fd, get(f, fd), var("c." + fd), it)
    pos = fitted(C, "curve fit", [get(f, "nss")], it)
    if pos is None:
        return
    nss = TM.subst(get(f, "nss"), {ok: TRUE, pos: p})
    nss = fld(nss, 1, 0, OPT, 1)
    objs = [q for q in subterms(run_) if q.op == "app" and q.a[0] == "argmin::core::executor::Executor::new"]
    if len(set(objs)) != 1:
        C.undecided("curve fit: objective", it, "objective not found")
        return
    obj = objs[0].a[1]
    N = var("c.nodes")
    for ty, nm in (("Spot", "spot_rate"), ("Forward", "forward_rate"), ("Discount", "discount_factor")):
        tv = C.S.variant("CurveType", ty)
        rc = C.ev(cost, [TM.subst(obj, {var("c.curve_type"): tv, s: m0}), p])
        md = C.method("NelsonSiegelSvensson", nm, None, SC)
        rm = md and C.ev(md, [nss, x])
        if not rc or not rm:
            continue
        e = lambda j: TM.subst(rm.ret, {x: nth(N, j)}) - N[nth(N, j)]
        C.eq("objective of a %s curve: mean log-cosh error of the curve the fit stores" % ty.lower(), fld(rc.ret, 0, 0, RES, 1),
             SUM(L(N), lambda j: ln(fn("cosh", e(j)))) / L(N), cost, [cmp("lt", num(0), L(N))])
