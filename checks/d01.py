"""Per distribution, density, distribution function and quantile are value-
numbered with symbolic parameters: the derivative of the continuous cdf must be
the pdf (and its value at the lower end 0), the discrete pmf and cdf must be the
family's, pmf and pdf must agree, and the quantile must undo the cdf (closed
forms) or be the least point whose cdf reaches the level (searches)."""
from spec import *
from dlib import *
import norm
import term as TM

FLOOR = 25


def run(C):
    for f in (gaussian, exponential, gamma, chisq, uniform_c, uniform_d, bernoulli, binomial, poisson, searches, same, ranges):
        C.part(f.__name__, f)


def need(C, it, t, nm, want, assume, rule, ints=()):
    if t is not None:
        C.eq(nm, t, want, it, assume, ints=list(ints), rule=rule)


def deriv(C, nm, d, assume, ints=()):
    ip, p = m(C, d, "pdf", [X])
    ic, c = m(C, d, "cdf", [X])
    if p is None or c is None:
        return None, None
    try:
        dc = norm.diff(c, X)
    except norm.NotDiff as e:
        C.undecided(nm + " pdf", ip, str(e))
        return p, c
    C.eq(nm + " pdf = d cdf / dx", dc, p, ip, assume, ints=list(ints), rule="density")
    return p, c


def gaussian(C):
    d = dist(C, "Gaussian")
    p, c = deriv(C, "Gaussian", d, [VAR > 0])
    if c is None:
        return
    it = C.method("Gaussian", "cdf", "Distribution", CR)
    C.eq("Gaussian cdf is symmetric about the mean", TM.subst(c, {X: MU + X}) + TM.subst(c, {X: MU - X}), num(1), it, [VAR > 0], rule="cdf")
    C.eq("Gaussian cdf", c, Phi((X - MU) / sqrt(VAR)), it, [VAR > 0], rule="cdf")
    iq, q = m(C, d, "inv_cdf", [PR])
    need(C, iq, q, "Gaussian quantile", MU + sqrt(2 * VAR) * fn("erf_inv", 2 * PR - 1), [VAR > 0, PR > 0, PR < 1], "quantile")


def exponential(C):
    d = dist(C, "Exponential")
    p, c = deriv(C, "Exponential", d, [LAM > 0, X > 0])
    it, c0 = m(C, d, "cdf", [num(0)])
    need(C, it, c0, "Exponential cdf at 0", num(0), [LAM > 0], "cdf")
    iq, q = m(C, d, "inv_cdf", [PR])
    if q is not None:
        i2, r = m(C, d, "cdf", [q])
        need(C, iq, r, "Exponential cdf(inv_cdf(p)) = p", PR, [LAM > 0, PR >= 0, PR < 1], "quantile")


def gamma(C):
    d = dist(C, "Gamma")
    p, c = deriv(C, "Gamma", d, [AL > 0, BE > 0, X > 0])
    it = C.method("Gamma", "cdf", "Distribution", CR)
    need(C, it, c, "Gamma cdf", fn("gamma_lr", AL, BE * X), [AL > 0, BE > 0, X > 0], "cdf")


def chisq(C):
    d = dist(C, "ChiSquared")
    p, c = deriv(C, "ChiSquared", d, [KN >= 1, X > 0], [KN])
    it = C.method("ChiSquared", "cdf", "Distribution", CR)
    need(C, it, c, "ChiSquared cdf", fn("gamma_lr", KN / 2, X / 2), [KN >= 1, X > 0], "cdf", [KN])
    for name, dom in (("ChiSquared", [KN >= 1]), ("Exponential", [LAM > 0])):
        it, c = m(C, dist(C, name), "cdf", [num(0)])
        need(C, it, c, name + " cdf at the origin", num(0), dom, "cdf", [KN])


def uniform_c(C):
    d = dist(C, "Uniform", "Continuous")
    ip, p = m(C, d, "pdf", [X])
    ic, c = m(C, d, "cdf", [X])
    ab = [A_ < B_]
    need(C, ip, p, "Uniform continuous pdf", If(And(X >= A_, X <= B_), 1 / (B_ - A_), 0), ab, "density")
    need(C, ic, c, "Uniform continuous cdf", If(X < A_, 0, If(X <= B_, (X - A_) / (B_ - A_), 1)), ab, "cdf")
    iq, q = m(C, d, "inv_cdf", [PR])
    if q is not None and c is not None:
        w = var("w")
        t = TM.subst(TM.subst(c, {X: q}), {B_: A_ + w})
        C.eq("Uniform cdf(inv_cdf(p)) = p", t, PR, iq, [PR >= 0, PR <= 1], pos=[w], rule="quantile")


def uniform_d(C):
    d = dist(C, "Uniform", "Discrete")
    k, a, b = V("k a b")
    n = b - a + 1
    for nm in ("pdf", "pmf"):
        ip, p = m(C, d, nm, [k])
        need(C, ip, p, "Uniform discrete %s" % nm, If(And(k >= a, k <= b), 1 / n, 0), [a <= b], "mass", [k, a, b])
    ic, c = m(C, d, "cdf", [k])
    need(C, ic, c, "Uniform discrete cdf", If(k < a, 0, If(k <= b, (k - a + 1) / n, 1)), [a <= b], "cdf", [k, a, b])
    i2 = C.method("Uniform", "cdf", "Distribution", CR)
    if c is not None:
        _, p = m(C, d, "pmf", [k])
        C.eq("Uniform discrete cdf step is the pmf", c - TM.subst(c, {k: k - 1}), p, i2, [a <= b], ints=[k, a, b], rule="cdf")


def bernoulli(C):
    d = dist(C, "Bernoulli")
    dom = [PR > 0, PR < 1]
    for k, w in ((0, 1 - PR), (1, PR)):
        for nm in ("pmf", "pdf"):
            it, p = m(C, d, nm, [num(k)])
            need(C, it, p, "Bernoulli %s(%d)" % (nm, k), w, dom, "mass")
    it, c = m(C, d, "cdf", [X])
    need(C, it, c, "Bernoulli cdf", If(X < 0, 0, If(X < 1, 1 - PR, 1)), dom, "cdf")
    q = var("q")
    it, t = m(C, d, "inv_cdf", [q])
    # at q = 1 - p exactly both ends of the flat piece of the cdf are quantiles
    need(C, it, t, "Bernoulli quantile", If(q < 1 - PR, 0, 1), dom + [q >= 0, q <= 1, ne(q, 1 - PR)], "quantile")


def binomial(C):
    d = dist(C, "Binomial")
    k = var("k")
    dom = [PR > 0, PR < 1, NN >= 1, k >= 0, k <= NN]
    want = PROD(k, lambda j: (NN - k + j + 1) / (j + 1)) * PR ** k * (1 - PR) ** (NN - k)
    fac = lambda n: PROD(n, lambda j: j + 1)
    for nm in ("pmf", "pdf"):
        it, p = m(C, d, nm, [k])
        if p is None:
            continue
        v = C._cmp(p, want, dom, None, lambda t: t in (NN, k), {})
        if v.kind != "equal":
            want2 = fac(NN) / (fac(k) * fac(NN - k)) * PR ** k * (1 - PR) ** (NN - k)
            v = C._cmp(p, want2, dom, None, lambda t: t in (NN, k), {})
            if v.kind == "equal":
                want = want2
        C.eq("Binomial " + nm, p, want, it, dom, ints=[NN, k], rule="mass")
    it, c = m(C, d, "cdf", [X])
    fl = fn("floor", X)
    need(C, it, c, "Binomial cdf", If(fl < 0, 0, If(fl >= NN, 1, fn("beta_reg", NN - fl, fl + 1, 1 - PR))), [PR > 0, PR < 1, NN >= 1], "cdf", [NN])


def poisson(C):
    d = dist(C, "Poisson")
    k = var("k")
    dom = [LAM > 0, k >= 0]
    want = exp(-LAM) * PROD(k, lambda j: LAM / (j + 1))
    for nm in ("pmf", "pdf"):
        it, p = m(C, d, nm, [k])
        if p is None:
            continue
        w2 = exp(-LAM) * LAM ** k / PROD(k, lambda j: j + 1)
        w = w2 if C._cmp(p, w2, dom, None, lambda t: t is k, {}).kind == "equal" else want
        C.eq("Poisson " + nm, p, w, it, dom, ints=[k], rule="mass")
    it, c = m(C, d, "cdf", [k])
    if c is not None:
        s, x = k + 1, LAM
        C.eq("Poisson cdf", c, fn("gamma_ur", s, x), it, dom, ints=[k],
             known={"D01-poisson-cdf": 1 - fn("gamma_li", s, x) / fn("gamma_ui", s, x)}, rule="cdf")


def searches(C):
    """quantiles found by walking up the support"""
    q = var("q")
    C.dom = [0 <= q, q <= 1]
    for name, dom in (("Poisson", [LAM > 0]), ("Binomial", [PR > 0, PR < 1, NN >= 1])):
        d = dist(C, name)
        it, t = m(C, d, "inv_cdf", [q])
        if t is None:
            continue
        walk(C, name, d, it, t, q, dom)
    d = dist(C, "ChiSquared")
    it, t = m(C, d, "inv_cdf", [q])
    if t is not None:
        bisect(C, it, t, q)


def loops(t):
    return [x for x in subterms(t) if x.op == "wloop"]


def walk(C, name, d, it, t, q, dom):
    ls = loops(t)
    if len(ls) != 1:
        return C.undecided(name + " quantile search", it, "%d loops" % len(ls))
    L = ls[0]
    step, inits = L.a[0], list(L.a[1:])
    vs = [var("_s%d" % i) for i in range(len(inits))]
    body = TM.apply_all(step, vs) if hasattr(TM, "apply_all") else None
    if body is None:
        body = step
        for v in vs:
            body = TM.apply(body, v)
    cond, new = body.a[2], list(body.a[-len(inits):])
    if len(inits) != 2 or len(new) != 2:
        return C.undecided(name + " quantile search", it, "unrecognised search state")
    # which slot counts?
    for i in (0, 1):
        cnt, acc = vs[i], vs[1 - i]
        if num_of(sub(new[i], cnt)) is not None:
            break
    else:
        return C.undecided(name + " quantile search", it, "no counter")
    c0, a0 = inits[i], inits[1 - i]
    out = mk("wout", L, i)
    C.eq(name + " quantile search walks over every value", new[i], cnt + 1, it, rule="quantile search")
    ints = [NN, cnt]
    _, pm = m(C, d, "pmf", [cnt + 1])
    _, cd = m(C, d, "cdf", [cnt + 1])
    _, cd0 = m(C, d, "cdf", [c0])
    _, pm0 = m(C, d, "pmf", [c0])
    got = new[1 - i]
    if C._cmp(cond, acc < q, [], None, None, {}).kind != "equal":
        # what is accumulated is the cdf at the count: then the condition is wrong
        is_ = lambda z, w, ass: C._cmp(z, w, ass, None, lambda t: t in ints, {}).kind == "equal"
        if is_(got, acc + pm, dom + [cnt >= 0]) and is_(a0, pm0, dom) or is_(got, cd, dom + [cnt >= 0]) and is_(a0, cd0, dom):
            C.eq(name + " quantile search goes on while the cdf is below the level", If(cond, 1, 0), If(acc < q, 1, 0), it,
                 dom + [0 <= acc, acc <= 1, 0 < q, q < 1], ints=ints, rule="quantile search")
        else:
            return C.undecided(name + " quantile search", it, "search condition")
    if mentions(got, {acc}):
        C.eq(name + " quantile search adds the next mass", got, acc + pm, it, dom + [cnt >= 0], ints=ints, rule="quantile search")
        C.eq(name + " quantile search starts with the first mass", a0, pm0, it, dom, ints=ints, rule="quantile search")
    else:
        C.eq(name + " quantile search looks at the next cdf", got, cd, it, dom + [cnt >= 0], ints=ints, rule="quantile search")
        C.eq(name + " quantile search starts with the first cdf", a0, cd0, it, dom, ints=ints, rule="quantile search")
    C.eq(name + " quantile search starts at 0", spread(c0), num(0), it, dom, rule="quantile search")
    inner = TM.subst(t, {mk("wout", L, num(i)): var("kstar"), out: var("kstar")})
    C.eq(name + " quantile is where the search stops", inner, var("kstar"), it, dom + [q >= 0, q < 1, abs_ge(q)], rule="quantile search")


def abs_ge(q):
    return 1 - q >= Fr(1, 10 ** 9)


def num_of(t):
    return t.a[0] if t.op == "num" else None


def bisect(C, it, t, q):
    """a search whose step length shrinks geometrically from a start that does
    not depend on the level reaches a bounded range only, while the support
    is unbounded"""
    for L in loops(t):
        step, inits = L.a[0], list(L.a[1:])
        vs = [var("_s%d" % i) for i in range(len(inits))]
        body = step
        for v in vs:
            body = TM.apply(body, v)
        new = list(body.a[-len(inits):])
        shrink = [i for i in range(len(new)) if new[i].op == "mul" and vs[i] in new[i].a and any(num_of(z) is not None and abs(num_of(z)) < 1 for z in new[i].a)]
        if len(shrink) != 1 or len(new) != 2:
            continue
        i = shrink[0]
        d, x = vs[i], vs[1 - i]
        d0, x0 = inits[i], inits[1 - i]
        f = [z for z in new[i].a if num_of(z) is not None][0]
        move = new[1 - i]
        if move.op == "ite" and {move.a[1], move.a[2]} == {add(x, d), sub(x, d)}:
            ok = mentions(inits[0], {q}) or mentions(inits[1], {q})
            C.fact("ChiSquared quantile search range depends on the level", ok, it,
                   "steps shrink geometrically from %s: quantiles beyond start + 2 * step are cut off" % show(inits[i])[:80], rule="quantile search")
            up = move.a[0]
            _, c = m(C, dist(C, "ChiSquared"), "cdf", [x])
            if c is not None:
                reaches(C, it, q, [x0 + d0, x0 + d0 / (1 - num_of(f))])
                lo = C.ev(C.method("ChiSquared", "cdf", "Distribution", CR), [dist(C, "ChiSquared"), x0 - d0])
                for g, c_, w, *_ in lo.assumes:
                    C.prove("ChiSquared quantile search stays where the cdf is defined (%s)" % w, Or(*[not_(z) for z in g], c_), it, [KN >= 1, 0 < q, q < 1],
                            ints=[KN])
                C.eq("ChiSquared quantile of level 0", TM.subst(t, {q: num(0)}), num(0), it, [KN >= 1], ints=[KN], rule="quantile")
                C.eq("ChiSquared quantile search moves up exactly when the cdf is below the level",
                     up if move.a[1] is add(x, d) else not_(up), c < q, it, [KN >= 1, x > 0], ints=[KN], rule="quantile search")
            return
    C.undecided("ChiSquared quantile search", it, "no bisection loop recognised")


def reaches(C, it, q, tops):
    """the loop that prepares the search goes on as long as the quantile is above
    a point of the search's range"""
    top = tops[-1]
    Ls = [L for L in loops(top) if not any(L in set(subterms(M)) and L is not M for M in loops(top))]
    if len(Ls) != 1:
        return C.undecided("ChiSquared quantile search reaches the quantile", it, "no enlarging loop recognised")
    L = Ls[0]
    inits = list(L.a[1:])
    vs = [var("_s%d" % i) for i in range(len(inits))]
    body = L.a[0]
    for v in vs:
        body = TM.apply(body, v)
    cond = body.a[2]
    dom = [KN >= 1, 0 < q, q < 1] + [z for v in vs for z in (v > 0, v < 1000)]
    goals = []
    for top in tops:
        _, c = m(C, dist(C, "ChiSquared"), "cdf", [TM.subst(top, {mk("wout", L, num(i)): v for i, v in enumerate(vs)})])
        if c is not None:
            goals.append(Or(not_(c < q), cond))
    for g in goals:
        if C._cmp(If(g, 1, 0), num(1), dom, None, lambda t: t is KN, {}).kind == "equal":
            return C.prove("ChiSquared quantile search reaches the quantile", g, it, dom, ints=[KN])
    if goals:
        C.prove("ChiSquared quantile search reaches the quantile", goals[-1], it, dom, ints=[KN])


def same(C):
    C.dom = [0 <= X]
    for name in ("Exponential", "Gamma", "Gaussian", "ChiSquared"):
        d = dist(C, name)
        it, a = m(C, d, "pmf", [X])
        _, b = m(C, d, "pdf", [X])
        if a is not None and b is not None:
            C.eq(name + " pmf = pdf", a, b, it, DISTS[name][1], rule="mass")


def int_products(C, it):
    """calls in `it` (and closures inside it) that multiply an unbounded number
    of machine integers"""
    out = []
    for f in C.F.items.values():
        if f.did != it.did and not f.did.startswith(it.did + "::"):
            continue
        for b in f.blocks:
            t = b["t"]
            if t and t[0] == "call" and t[1][0] == "k" and isinstance(t[1][1].get("v"), dict):
                fn_ = t[1][1]["v"].get("fn") or {}
                if fn_.get("did", "").endswith("Iterator::product"):
                    ty = f.ty(fn_["targs"][1])
                    if ty.k in ("int", "uint") or ty.s in ("usize", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "isize"):
                        out.append("%s:%s product::<%s>" % (f.file, b["l"], ty.s))
    return out


def ranges(C):
    for name in ("Poisson", "Binomial"):
        it = C.method(name, "pmf", "Distribution", CR)
        if it is None:
            continue
        bad = int_products(C, it)
        C.fact(name + " pmf forms no factorial in a machine integer", not bad, it,
               "overflows for moderate counts: " + ", ".join(bad), rule="machine range")


def spread(start):
    """a start that depends on the parameters alone is taken at a distribution
    whose support reaches far below its bulk: any level may be asked for"""
    return TM.subst(start, {NN: num(400), LAM: num(400), PR: num("1/2")})
