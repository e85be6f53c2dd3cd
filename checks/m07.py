"""Regressions: the estimators solve the problem they are named after."""
from spec import *
import term as TM
from mlib import *
import models
import interp

FLOOR = 20
CR = "RustQuant_ml"
a, b, c, x = V("a b c x")
n, p, i = var("n?rows"), var("n?cols"), var("n?i")
OK = lambda t: fld(t, 0, 0, "core::result::Result", 1)


def ints(t):
    return t.op == "len" or t in (n, p, i) or (t.op == "var" and t.a[0].startswith("n?"))


def run(C):
    C.part("inputs", inputs)
    C.part("linear regression", linear)
    C.part("ridge regression", ridge)
    C.part("lasso", lasso)
    C.part("logistic regression: input", logistic_input)
    C.part("logistic regression: fit", logistic_fit)
    C.part("logistic regression: output", logistic_output)
    C.part("nearest neighbours", knn)


def bound(k, m):
    return [cmp("le", num(0), k), cmp("lt", k, m), cmp("lt", num(0), n), cmp("lt", num(0), p)]


def data(C, ty):
    X, y = C.S.get(x, ty, "x", CR), C.S.get(x, ty, "y", CR)
    return leaf(X, n, p), leaf(y, n), Tr({X: leaf(X, n, p), y: leaf(y, n)})


def ones(X):
    """the design matrix with its column of ones"""
    return Mat(X.nr, X.nc + 1, lambda r, q: ite(cmp("eq", q, num(0)), num(1), X.e(r, q - 1)))


def same(C, name, got, want, it, as_=[]):
    C.eq(name + ": rows", got.nr, want.nr, it, bound(i, n) + as_, ints=ints)
    g, w = got.e(i, num(0)), want.e(i, num(0))
    if not C.equal(g, w):
        g, w = flat(g), flat(w)
    C.eq(name, g, w, it, bound(i, want.nr) + as_, ints=ints)


def predictor(C, ty):
    it = C.method(ty, "predict", None, CR)
    B = V("B")
    r = it and C.ev(it, [x, B])
    if r:
        co = C.S.get(x, ty, "coefficients", CR)
        k = var("n?coef")
        t = Tr({co: leaf(co, p + 1), B: leaf(B, n, p)})
        out = t.m(OK(r.ret))
        same(C, ty + " predicts intercept + x * slopes", out,
             Mat(n, 1, lambda r_, q: C.S.get(x, ty, "intercept", CR) + SUM(p, lambda j: B[tup(r_, j)] * co[j + 1])), it)


def refused(C, name, r, T, m, it):
    none = cmp("eq", discr(app("mat:try_inverse", m.dense()), 2), num(0))
    C.eq(name, If(T.s(cmp("eq", discr(r.ret, 2), num(1))), 1, 0), If(none, 1, 0), it, ints=ints)


FIELDS = {"LinearRegressionInput": "x y", "LogisticRegressionInput": "x y", "LassoInput": "x y lambda fit_intercept max_iter tolerance",
          "RidgeRegressionInput": "x y lambda fit_intercept max_iter tolerance", "KNearestClassifier": "x y metric"}


def inputs(C):
    """estimators keep what they are built from; two of them refuse a number of responses other than the number of rows"""
    for ty, fs in FIELDS.items():
        it = C.method(ty, "new", None, CR)
        vs = [var("arg_" + f) for f in fs.split()]
        r = it and C.ev(it, vs)
        if not r:
            continue
        for f, v in zip(fs.split(), vs):
            C.eq("%s keeps its %s" % (ty, f), C.S.get(r.ret, ty, f, CR), v, it)
        if ty in ("LogisticRegressionInput", "KNearestClassifier"):
            k = var("n?len")
            T = Tr({vs[0]: leaf(vs[0], n, p), vs[1]: leaf(vs[1], k)})
            c = TM.TRUE
            for g, q, w, *_ in r.assumes:
                if not w.startswith("+"):
                    c = And(c, Or(*[TM.not_(z) for z in g], q) if g else q)
            C.eq("%s: refused exactly when the rows do not match" % ty, If(T.s(c), 1, 0), If(cmp("eq", n, k), 1, 0), it, ints=ints, rule="guard")
        else:
            C.fact(ty + " is built from any data", all(w.startswith("+") for g, q, w, *_ in r.assumes), it)


def linear(C):
    ty = "LinearRegressionInput"
    it = C.method(ty, "fit", None, CR)
    m = V("method")
    for v in ("None", "QR", "SVD"):
        e = C.S.variant("Decomposition", v, crate=CR)
        r = it and C.ev(it, [x, e])
        if not r:
            continue
        X, y, T = data(C, ty)
        D = ones(X)
        out = OK(r.ret)
        get = lambda f: C.S.get(out, "LinearRegressionOutput", f, CR)
        co = T.m(get("coefficients"))
        if v == "None":
            want = inv(D.T @ D) @ (D.T @ y)
        elif v == "QR":
            q, rr = qr(D)
            want = inv(rr) @ q.T @ y
        else:
            u, sv, vt = svd(D)
            want = vt.T @ diag(sv.map(lambda z: 1 / z)) @ u.T @ y
        same(C, "linear %s: the least squares solution" % v, co, want, it)
        if v != "SVD":
            key = (D.T @ D) if v == "None" else qr(D)[1]
            refused(C, "linear %s: refused exactly when singular" % v, r, T, key, it)
        C.eq("linear %s: the intercept is the first coefficient" % v, T.s(get("intercept")), co.e(num(0), num(0)), it, bound(i, n), ints=ints)
    predictor(C, "LinearRegressionOutput")


def ridge(C):
    ty = "RidgeRegressionInput"
    it = C.method(ty, "fit", None, CR)
    r = it and C.ev(it, [x])
    if r:
        X, y, T = data(C, ty)
        lam, on = C.S.get(x, ty, "lambda", CR), C.S.get(x, ty, "fit_intercept", CR)
        out = OK(r.ret)
        get = lambda f: C.S.get(out, "RidgeRegressionOutput", f, CR)
        for flag in (True, False):
            S = lambda t: TM.subst(t, {on: boolt(flag)})
            D = ones(X) if flag else X
            pen = Mat(D.nc, D.nc, lambda q, k: ite(And(cmp("eq", q, k), cmp("lt", num(0), q) if flag else boolt(True)), lam, num(0)))
            M = (D.T @ D).zip(pen, lambda u, v: u + v)
            want = inv(M) @ D.T @ y
            full = want if flag else Mat(want.nr + 1, 1, lambda q, k: ite(cmp("eq", q, num(0)), num(0), want.e(q - 1, k)))
            nm = "ridge %s intercept: " % ("with" if flag else "without")
            same(C, nm + "the penalised least squares solution", T.m(S(get("coefficients"))), full, it)
            C.eq(nm + "the intercept is the first coefficient", flat(T.s(S(get("intercept")))), flat(full.e(num(0), num(0))), it, bound(i, n), ints=ints)
    predictor(C, "RidgeRegressionOutput")


def quiet(T, t):
    try:
        return T(t)
    except SpecError:
        return None


def soft(r, lam):
    return If(cmp("lt", r, -lam), r + lam, If(cmp("lt", lam, r), r - lam, num(0)))


def lasso(C):
    ty = "LassoInput"
    predictor(C, "LassoOutput")
    it = C.method(ty, "fit", None, CR)
    r = it and C.ev(it, [x])
    if not r:
        return
    X, y, T = data(C, ty)
    g = lambda f: C.S.get(x, ty, f, CR)
    lam, on, tol, mx = g("lambda"), g("fit_intercept"), g("tolerance"), g("max_iter")
    xt, yt = g("x"), g("y")
    recs = [s for s in TM.subterms(r.ret) if s.op == "rec"]
    mean = lambda j: SUM(n, lambda q: X.e(q, j)) / n
    ymean = SUM(n, lambda q: yt[q]) / n
    # the centred features
    u, w = var("n?u"), var("n?w")
    cell = [cmp("le", num(0), q) for q in (u, w)] + [cmp("lt", u, n), cmp("lt", w, p)]
    cen = [s for s in recs if len(s.a) == 3 and T.leaves.get(s.a[2]) is not None and isinstance(quiet(T, s), Mat)]
    cen = [s for s in cen if not any(s is not z and s in set(TM.subterms(z)) for z in cen)]
    if len(cen) != 1:
        raise SpecError("one centring of the features expected")
    cen = cen[0]
    C.eq("lasso: centring subtracts its column's mean from each entry", T.m(cen).e(u, w), X.e(u, w) - mean(w), it, cell, ints=ints)
    T2 = Tr(dict(T.leaves))
    T2.leaves[cen] = Mat(n, p, lambda q, k: X.e(q, k) - mean(k))
    for flag in (True, False):
        nm = "lasso %s intercept: " % ("with" if flag else "without")
        S = lambda t: TM.subst(t, {on: boolt(flag)})
        F = T2.leaves[cen] if flag else X
        ret = S(OK(r.ret))
        sweeps = [s for s in TM.subterms(ret) if s.op == "rec" and len(s.a) in (4, 5) and s.a[0].op == "app" and T2.s(s.a[0]) is p]
        seen = set()
        for s in sweeps:
            if s.a[1] in seen:
                continue
            seen.add(s.a[1])
            k = len(s.a) - 2
            vs = [var("sweep.%d" % q) for q in range(k)]
            b = s.a[1]
            for v in vs:
                b = TM.apply(b, v)
            j = var("n?j")
            nxt = list(TM.apply(b, j).a[2:])
            co = [q for q in range(k) if nxt[q].op == "withidx"]
            md = [q for q in range(k) if s.a[2 + q] is num(0)]
            rs = [q for q in range(k) if q not in co + md]
            if len(co) != 1 or len(rs) != 1 or len(md) != k - 2:
                raise SpecError("variables of the coordinate sweep")
            co, rs = co[0], rs[0]
            tr = Tr(dict(T2.leaves))
            cv, rv = vs[co], vs[rs]
            tr.leaves[cv], tr.leaves[rv] = leaf(cv, p), leaf(rv, n)
            norm = SUM(n, lambda q: F.e(q, j) * F.e(q, j))
            rho = (SUM(n, lambda q: rv[q] * F.e(q, j)) + cv[j] * norm) / n
            new = soft(rho, lam) / (norm / n)
            at = [cmp("le", num(0), q) for q in (u, w, j)] + [cmp("lt", u, n), cmp("lt", w, p), cmp("lt", j, p), cmp("lt", num(0), n), cmp("le", num(0), lam)]
            C.eq(nm + "a coordinate moves to its soft-thresholded optimum", tr.m(nxt[co]).e(j, num(0)), new, it, at, ints=ints)
            C.eq(nm + "the other coordinates stay", tr.m(nxt[co]).e(w, num(0)), cv[w], it, at + [Not(cmp("eq", w, j))], ints=ints)
            nc, moved = var("moved"), tr.m(nxt[co]).e(j, num(0))
            res = TM.subst(tr.m(nxt[rs]).e(u, num(0)), {moved: nc})
            C.eq(nm + "the residuals follow a move", res, rv[u] - F.e(u, j) * (nc - cv[j]), it, at + [cmp("lt", num(0), fn("abs", nc - cv[j]))], ints=ints)
            C.eq(nm + "the residuals stay without one", TM.subst(res, {nc: cv[j]}), rv[u], it, at, ints=ints)
            for q in md:
                C.eq(nm + "the largest move is kept", tr.s(nxt[q]), fn("max", *sorted((vs[q], fn("abs", tr.m(nxt[co]).e(j, num(0)) - cv[j])), key=lambda z: z.id)), it, at, ints=ints)
        if not seen:
            raise SpecError("no sweep over the coordinates")
        # the intercept
        out = lambda f: C.S.get(ret, "LassoOutput", f, CR)
        ct = out("coefficients")
        if not (ct.op == "app" and ct.a[0].endswith("insert_row")):
            raise SpecError("coefficients with their intercept")
        K = ct.a[1]
        T3 = Tr(dict(T2.leaves))
        T3.leaves[K] = leaf(var("K"), p)
        full = T3.m(ct)
        want = ymean - SUM(p, lambda q: mean(q) * var("K")[q]) if flag else num(0)
        C.eq(nm + "the intercept", T3.s(out("intercept")), want, it, [cmp("lt", num(0), n)], ints=ints)
        C.eq(nm + "the first coefficient is the intercept", full.e(num(0), num(0)), want, it, [cmp("lt", num(0), n)], ints=ints)
        C.eq(nm + "the others are the slopes", full.e(w + 1, num(0)), var("K")[w], it, [cmp("le", num(0), w), cmp("lt", w, p)], ints=ints)
        # the starts and the end of the iteration
        starts = [s for s in TM.subterms(K) if s.op == "rec" and len(s.a) == 4 and s.a[0] is mx]
        for s in starts:
            for z in s.a[2:]:
                if z.op == "seq":
                    C.eq(nm + "starts from zero coefficients", T2.s(z[w]), num(0), it, [cmp("le", num(0), w), cmp("lt", w, p)], ints=ints)
                else:
                    C.eq(nm + "starts from the residuals of that", T2.m(z).e(u, num(0)), yt[u] - (ymean if flag else num(0)), it, [cmp("lt", num(0), n)], ints=ints)
        if K.op == "ite" and K.a[0].op == "exists":
            e = K.a[0]
            body = TM.apply(e.a[1], var("n?t"))
            C.eq(nm + "at most max_iter sweeps", e.a[0], mx, it)
            ok = body.op == "cmp" and body.a[0] == "lt" and body.a[2] is tol and body.a[1].op == "rec" and len(body.a[1].a) == 5
            if not ok:
                raise SpecError("stopping rule")
            C.fact(nm + "stops early only when no coordinate moved by the tolerance", ok, it, "", rule="shape of the stopping rule")


def logistic_input(C):
    ty = "LogisticRegressionInput"
    it = C.method(ty, "prepare_input", None, CR)
    r = it and C.ev(it, [x])
    if not r:
        return
    X, y, T = data(C, ty)
    k = var("n?len")
    T.leaves[C.S.get(x, ty, "y", CR)] = leaf(C.S.get(x, ty, "y", CR), k)
    yt = C.S.get(x, ty, "y", CR)
    eps = num("2.220446049250313e-16")
    wrong = lambda v: And(cmp("le", eps, fn("abs", v)), cmp("le", eps, fn("abs", v - 1)))
    ex = TM._hooks["exists"]
    bad = ex(k, TM.lamf(lambda q: wrong(yt[q])))
    isok = T.s(cmp("eq", discr(r.ret, 2), num(0)))
    flat = ex(n * p, TM.lamf(lambda q: Not(app("is_finite", X.e(fn("irem", q, n), fn("idiv", q, n))))))
    bady = ex(k, TM.lamf(lambda q: Not(app("is_finite", yt[q]))))
    C.eq("logistic: accepted exactly when the responses are 0 or 1, one per row, and all is finite", If(isok, 1, 0),
         If(And(Not(bad), cmp("eq", n, k), Not(flat), Not(bady)), 1, 0), it, ints=ints)
    C.prove("logistic: as many responses as rows", Or(Not(isok), cmp("eq", n, k)), it, ints=ints)
    payload = OK(r.ret)
    D = ones(X)
    g = lambda q: T.m(TM.fld(payload, 0, q, "tuple", 3))
    i2 = var("n?i2")
    at = bound(i, n) + [cmp("le", num(0), i2), cmp("le", i2, p)]
    as_ = [isok]
    C.eq("logistic: the design matrix has its column of ones", g(0).e(i, i2), D.e(i, i2), it, at + as_, ints=ints)
    C.eq("logistic: and its transpose", g(1).e(i2, i), D.e(i, i2), it, at + as_, ints=ints)
    C.eq("logistic: the responses", g(2).e(i, num(0)), yt[i], it, at + as_, ints=ints)


def logistic(v):
    return 1 / (1 + fn("exp", -v))


def logistic_fit(C):
    ty = "LogisticRegressionInput"
    it = C.method(ty, "fit", None, CR)
    tol = V("tol")
    r = it and C.ev(it, [x, C.S.variant("LogisticRegressionAlgorithm", "IRLS", crate=CR), tol])
    if not r:
        return
    Ls = loops(r.ret)
    if len(Ls) != 1:
        raise SpecError("one iteration expected")
    Lt = Ls[0]
    X, y, T = data(C, ty)
    yt = C.S.get(x, ty, "y", CR)
    D = ones(X)
    out = OK(r.ret)
    get = lambda f, t=out: C.S.get(t, "LogisticRegressionOutput", f, CR)
    ct, kt = get("coefficients"), get("iterations")
    if not (ct.op == "wout" and kt.op == "wout"):
        raise SpecError("the result is not what the iteration ends with")
    ic, ik = int(ct.a[1].a[0]), int(kt.a[1].a[0])
    roles = {"beta": Slot(ic), "k": Slot(ik)}
    for q, z in enumerate(Lt.a[1:]):
        if q not in (ic, ik):
            roles["flag%d" % q if z.op == "bool" else "last%d" % q] = Slot(q)
    L = Loop(Lt, roles)
    for nm, v in L.v.items():
        if nm == "beta" or nm.startswith("last"):
            T.leaves[v] = leaf(v, p + 1)
    b = T.leaves[L.v["beta"]]
    mu = (D @ b).map(logistic)
    wt = mu.map(lambda m: m * (1 - m))
    H = Mat(p + 1, p + 1, lambda q, k: SUM(n, lambda z: D.e(z, q) * wt.e(z, num(0)) * D.e(z, k)))
    step = inv(H) @ (D.T @ y.zip(mu, lambda u, v: u - v))
    nb = T.m(L.next["beta"])
    same(C, "logistic: a Newton step on the log-likelihood", nb, b.zip(step, lambda u, v: u + v), it)
    C.eq("logistic: each step is counted", L.next["k"], L.v["k"] + 1, it)
    C.eq("logistic: counting from none", Lt.a[1 + ik], num(0), it)
    lasts = [q for q in L.v if q.startswith("last")]
    if len(lasts) != 1:
        raise SpecError("the coefficients before the last step")
    la = lasts[0]
    same(C, "logistic: the move is measured from the coefficients before the step", T.m(L.next[la]), b, it)
    move = powt(norm2(T.leaves[L.v[la]].zip(b, lambda u, v: u - v)), num("1/2"))
    fit = app("mat:amax", y.zip(mu, lambda u, v: u - v).map(lambda z: fn("abs", z)).dense())
    small = cmp("lt", move, tol)
    sep = cmp("lt", fit, tol)
    C.eq("logistic: ends when it stands still or every response is fitted", If(T.s(L.cond), 1, 0), If(Or(small, sep), 0, 1), it, ints=ints)
    init = T.m(Lt.a[1 + L.ix[la]])
    C.eq("logistic: starts away from its guess, so that a step is made", init.e(i, num(0)), mk("const", "inf"), it, bound(i, p + 1), ints=ints)


def logistic_output(C):
    ty = "LogisticRegressionOutput"
    it = C.method(ty, "predict_proba", None, CR)
    B = V("B")
    co = C.S.get(x, ty, "coefficients", CR)
    T = Tr({co: leaf(co, p + 1), B: leaf(B, n, p)})
    r = it and C.ev(it, [x, B])
    prob = Mat(n, 1, lambda q, k: logistic(co[num(0)] + SUM(p, lambda j: B[tup(q, j)] * co[j + 1])))
    if r:
        same(C, "logistic: the probabilities", T.m(r.ret), prob, it)
    it = C.method(ty, "predict", None, CR)
    r = it and C.ev(it, [x, B])
    if r:
        same(C, "logistic: the predicted class is the likelier one", T.m(r.ret), prob.map(lambda v: If(cmp("lt", num("1/2"), v), num(1), num(0))), it)
    yv, ph = V("yv ph")
    T = Tr({yv: leaf(yv, n), ph: leaf(ph, n)})
    it = C.method(ty, "score_misclassification", None, CR)
    r = it and C.ev(it, [x, yv, ph])
    if r:
        C.eq("logistic: the misclassification rate", T.s(r.ret), SUM(n, lambda q: fn("abs", yv[q] - ph[q])) / n, it, [cmp("lt", num(0), n)], ints=ints)
    it = C.method(ty, "score_cross_entropy", None, CR)
    r = it and C.ev(it, [x, yv, ph])
    if r:
        ln = lambda v: fn("ln", v)
        C.eq("logistic: the cross-entropy", T.s(r.ret), -SUM(n, lambda q: yv[q] * ln(ph[q]) + (1 - yv[q]) * ln(1 - ph[q])) / n, it, [cmp("lt", num(0), n)], ints=ints)


def knn(C):
    ty = "KNearestClassifier"
    xp, k = V("xp k")
    g = lambda f: C.S.get(x, ty, f, CR)
    X = leaf(g("x"), n, p)
    xr = Mat(1, p, lambda q, j: xp[tup(q, j)])
    it = C.method(ty, "find_neighbors", None, CR)
    r = it and C.ev(it, [x, xp, k])
    u = var("n?u")
    if r:
        for mt in ("Euclidean", "Manhattan", "Minkowski"):
            pw = var("n?pw")
            me = C.S.variant("Metric", mt, *([pw] if mt == "Minkowski" else []), crate=CR)
            T = Tr({g("x"): X, xp: xr})
            t = T.s(TM.subst(r.ret, {g("metric"): me}))
            w = TM.proj_index(t, u)
            nm = "nearest neighbours, %s: " % mt
            C.eq(nm + "as many as asked for, or all", LEN(t), fn("min", *sorted((n, k), key=lambda q: q.id)), it, ints=lambda q: ints(q) or q is k)
            if not (w.op == "idx" and w.a[0].op == "sorted" and w.a[1] is u):
                raise SpecError("the nearest come first in a sorted list")
            v, key = w.a[0].a
            row = Mat(1, p, lambda q, j: X.e(u, j))
            if mt == "Euclidean":
                d = powt(norm2(row.zip(xr, lambda a_, b_: a_ - b_)), num("1/2"))
            else:
                d = app("mat:distance", row.dense(), xr.dense(), mk("agg", "nalgebra::base::norm::LpNorm", 0, num(1) if mt == "Manhattan" else pw))
            e = TM.proj_index(v, u)
            at = [cmp("le", num(0), u), cmp("lt", u, n)]
            C.eq(nm + "every sample is a candidate", LEN(v), n, it, ints=ints)
            C.eq(nm + "the candidate's index", fld(e, 0, 0, "tuple", 2), u, it, at, ints=ints)
            C.eq(nm + "the candidate's distance", fld(e, 0, 1, "tuple", 2), d, it, at, ints=ints)
            ranks(C, nm + "nearest first", key, it)
    it = C.method(ty, "predict_one", None, CR)
    r = it and C.ev(it, [x, xp, k], opaque=lambda q: q.name == "find_neighbors")
    if r:
        votes(C, r.ret, g, it)
    it = C.method(ty, "predict", None, CR)
    r = it and C.ev(it, [x, xp, k], opaque=lambda q: q.name == "predict_one")
    if r:
        m = var("n?new")
        T = Tr({xp: Mat(m, p, lambda q, j: xp[tup(q, j)]), g("x"): X})
        C.eq("nearest neighbours: one class for every row", T.s(LEN(r.ret)), m, it, ints=ints)
        e = TM.proj_index(r.ret, u)
        if not (e.op == "app" and e.a[0].endswith("predict_one") and len(e.a) == 4):
            raise SpecError("each row is classified on its own")
        C.eq("nearest neighbours: by this model", e.a[1], x, it)
        C.eq("nearest neighbours: with the same number of neighbours", e.a[3], k, it)
        q = T.m(e.a[2])
        at = bound(i, p) + [cmp("le", num(0), u), cmp("lt", u, m)]
        C.eq("nearest neighbours: from its row of the data", q.e(num(0), i), xp[tup(u, i)], it, at, ints=ints)
        C.eq("nearest neighbours: one row at a time", q.nr, num(1), it, ints=ints)
        C.eq("nearest neighbours: with all its columns", q.nc, p, it, ints=ints)


def ranks(C, name, key, it):
    """the order sorts pairs by their second component, ascending"""
    d0, d1, i0, i1 = V("d0 d1 n?0 n?1")
    t0, t1 = tup(i0, d0), tup(i1, d1)
    if key.op != "lam":
        raise SpecError("order of the neighbours")
    b_ = TM.apply(key, t0)
    if b_.op == "lam":
        o = TM.apply(b_, t1)
        C.eq(name, discr(o, 3), If(cmp("lt", d0, d1), 0, If(cmp("eq", d0, d1), 1, 2)), it)
    else:
        C.eq(name, b_, d0, it)


def votes(C, ret, g, it):
    """the label whose running count is largest: the running count of a label
    reaches its total at its last vote, so the largest is a majority's"""
    nb = [s for s in TM.subterms(ret) if s.op == "app" and s.a[0].endswith("find_neighbors")]
    mb = [s for s in TM.subterms(ret) if s.op == "app" and s.a[0] == "max_by_key"]
    if len(nb) != 1 or len(mb) != 1 or ret is not fld(mb[0], 1, 0, "core::option::Option", 1):
        raise SpecError("the label with the largest count")
    nb, mb = nb[0], mb[0]
    C.eq("nearest neighbours: votes of the neighbours of the point", tup(*nb.a[1:]), tup(x, V("xp"), V("k")), it)
    u = var("n?u")
    C.eq("nearest neighbours: one vote each", LEN(mb.a[1]), LEN(nb), it)
    C.eq("nearest neighbours: a vote is the neighbour's label", TM.proj_index(mb.a[1], u), g("y")[fld(nb[u], 0, 0, "tuple", 2)], it)
    f = mb.a[2]
    if not (f.op == "agg" and len(f.a) == 3 and f.a[2].op == "emptymap"):
        raise SpecError("counts that start empty")
    e, st = interp.Ev(C.F), interp.State()
    cell, counts, val, o = V("cell counts val n?other")
    st.m[cell] = counts
    q, st = e.call_closure(mk("agg", f.a[0], f.a[1], mk("ref", cell)), [mk("ref", mk("cell", val))], st)
    h = models.haskey
    key = [z.a[1] for z in TM.subterms(q) if z.op == "idx" and z.a[0] is counts]
    if not key or any(z is not key[0] for z in key):
        raise SpecError("the count of a label")
    key = key[0]
    lab = lambda t: TM.subst(t, {key: val})
    q, m = lab(q), lab(st.m[cell])
    new = If(h(counts, val), counts[val] + 1, num(1))
    C.eq("nearest neighbours: a vote is worth its label's count so far", q, new, it)
    C.eq("nearest neighbours: the count is kept", models.mapget(m, val), new, it)
    C.eq("nearest neighbours: for a label that has one", If(h(m, val), 1, 0), num(1), it)
    other = Not(cmp("eq", o, val))
    C.eq("nearest neighbours: other labels keep their counts", expand_reads(m[o]), counts[o], it, [other, h(counts, o)])
    C.eq("nearest neighbours: and gain none", If(h(m, o), 1, 0), If(h(counts, o), 1, 0), it, [other])
    w, z = V("n?l1 n?l2")
    C.prove("nearest neighbours: different (integer) labels are counted apart",
            Or(cmp("eq", w, z), Not(cmp("eq", TM.subst(key, {val: w}), TM.subst(key, {val: z})))), it, ints=ints)
