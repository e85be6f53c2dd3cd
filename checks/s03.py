"""Path simulation.  `simulate_stochatic_process` is value-numbered with drift,
diffusion and jump of the process uninterpreted, for every scheme, noise kind,
jump configuration and both execution modes; the recurrence obtained for every
path must be the scheme's."""
from slib import *

FLOOR = 12
SCHEMES = ("EulerMaruyama", "Milstein", "StrangSplitting")
proc = var("process")


def meth(C, name):
    return "RustQuant_stochastics::process::StochasticProcess::" + name


def run(C):
    C.part("schemes", schemes)
    C.part("noise", fgn)
    C.part("two factors", two)


def sim(C, scheme, par, jump, frac, seed_=None):
    it = C.free("simulate_stochatic_process")
    r = C.ev(it, [proc, config(C, scheme, par, seed_), jump, frac])
    return it, r


def dt():
    return (tn - t0) / n


def time(t):
    return t0 + dt() * t


def step(C, scheme, X, t, dW):
    b = lambda x, s: app(meth(C, "drift"), proc, x, s)
    sg = lambda x, s: app(meth(C, "diffusion"), proc, x, s)
    T = time(t)
    if scheme == "EulerMaruyama":
        return X + b(X, T) * dt() + sg(X, T) * dW
    if scheme == "Milstein":
        ds = app("s1", T) + 2 * app("s2", T) * X
        return X + b(X, T) * dt() + sg(X, T) * dW + sg(X, T) * ds * (dW * dW - dt()) / 2
    half = X + b(X, T) * dt() / 2
    return half + sg(half, T + dt() / 2) * dW + b(X, T) * dt() / 2


def paths(C, scheme, noise, jump=None):
    """rec over the paths; noise(i) = (generator at the start, dW(gen, t), gen after)"""
    init = SEQ(m, lambda i: array(x0))

    def one(P, i):
        g0, dW, after = noise(i)

        def inner(Q, g, t):
            X = Q[i][t]
            nx = step(C, scheme, X, t, dW(g, t))
            if jump is not None:
                nx = nx + jump(i, X, t)
            Q2 = mk("withidx", Q, i, mk("vpush", Q[i], nx))
            return Q2, (after(g) if g is not None else None)
        if g0 is None:
            lam = TM.lamf(lambda Q: TM.lamf(lambda t: tup(inner(Q, None, t)[0])))
            return mk("rec", n, lam, P)
        lam = TM.lamf(lambda Q: TM.lamf(lambda g: TM.lamf(lambda t: tup(*inner(Q, g, t)))))
        return mk("rec", n, lam, P, g0)
    return mk("rec", m, TM.lamf(lambda P: TM.lamf(lambda i: tup(one(P, i)))), init)


def gauss(i):
    g = app("rand_core::SeedableRng::seed_from_u64", seed + i)
    return g, lambda s, t: sqrt(dt()) * app("z", s), lambda s: app("after z", s)


def quadratic(C, t):
    """the diffusion as a quadratic in the state, whose difference quotient is the
    derivative whatever the step: s0(t) + s1(t) x + s2(t) x^2"""
    def f(s):
        if s.op == "app" and s.a[0] == meth(C, "diffusion"):
            x, u = s.a[2:4]
            return app("s0", u) + app("s1", u) * x + app("s2", u) * x * x
    return rewrite(t, f)


def schemes(C):
    C.dom = [t0 < tn, 1 <= n, 1 <= m]
    jl, H, fgn = V("lambda hurst fgn")
    noise = [("gaussian", NONE_, gauss), ("fractional", SOME(tup(fgn, H)), lambda i: fgauss(fgn, H, i))]
    for sch in SCHEMES:
        for par in (False, True):
            for kind, frac, ns in noise:
                for jump in (False, True):
                    what = "%s %s, %s noise%s" % (sch, "parallel" if par else "serial", kind, " and jumps" if jump else "")
                    it, r = sim(C, sch, TRUE if par else FALSE, SOME(jl) if jump else NONE_, frac)
                    if r is None:
                        continue
                    g = lambda f: C.S.get(r.ret, "Trajectories", f, crate=CR)
                    C.eq(what + ": time grid", g("times"), SEQ(n + 1, time), it, rule="time grid")
                    q = (lambda x: quadratic(C, x)) if sch == "Milstein" else (lambda x: x)
                    C.eq(what + ": paths", q(canon(g("paths"))), q(paths(C, sch, ns, jumps(C, jl) if jump else None)), it,
                         [t0 < tn, 1 <= n, 1 <= m], rule="scheme recurrence")


def fgauss(fgn, H, i):
    """the increments of the noise generator over [t0, tn], a seed per path"""
    return None, lambda s, t: app("call", fgn, H, n, tn - t0, SOME(seed + i))[t], None


def jumps(C, lam):
    """one jump in a step with arrivals; the number of arrivals is Poisson(lambda dt),
    drawn per path from a seeded stream"""
    def j(i, X, t):
        js = app(meth(C, "jump"), proc, X, time(t))
        d = fld(app("rand_distr::poisson::Poisson::new", lam * dt()), 0, 0, "core::result::Result", 1)
        k = app("rand::distributions::distribution::Distribution::sample_iter", d, app("rand_core::SeedableRng::seed_from_u64", seed + (m + i)))[t]
        return If(eq(discr(js, 2), 0), 0, If(lift(0) < k, fld(js, 1, 0, "core::option::Option", 1), 0))
    return j


def acf(H, k):
    g = lambda x: TM.powt(x, 2 * H)
    return If(eq(k, 0), 1, (g(k + 1) - 2 * g(k) + g(k - 1)) / 2)


def fgn(C):
    """autocovariance of unit fractional noise; exact-covariance generators: the
    Cholesky factor of the covariance, or the circulant embedding of length 2n
    with eigenvalues dft(first row); both scaled by (length / n)^H"""
    H = var("hurst")
    T = tn
    it = C.free("acf_vector")
    r = C.ev(it, [H, n])
    dom = [2 <= n, 0 <= H, H <= 1, 0 < T]
    if r is not None:
        C.eq("autocovariance of fractional noise", r.ret, SEQ(n, lambda k: acf(H, k)), it, dom, ints=[n], rule="fractional noise")
        k = var("k")
        C.eq("autocovariance at lag k", TM.proj_index(r.ret, k), acf(H, k), it, dom + [0 <= k, k < n], ints=[n, k], rule="fractional noise")
    it = C.free("acf_matrix_sqrt")
    r = C.ev(it, [H, n])
    if r is not None:
        ch = [s for s in subterms(r.ret) if s.op == "app" and str(s.a[0]).endswith("::cholesky")]
        if len(ch) == 1:
            lower_triangle(C, it, ch[0].a[1], H)
        else:
            C.undecided("covariance matrix", it, "no single factorisation")
    it = C.free("fgn_cholesky")
    r = C.ev(it, [H, n, T, SOME(seed)], opaque=lambda i: i.name == "acf_matrix_sqrt")
    if r is not None:
        z = [s for s in subterms(canon(r.ret)) if s.op == "app" and str(s.a[0]).endswith("Rng::sample_iter")]
        sc = [s for s in subterms(r.ret) if s.op == "app" and s.a[0] == "matscale"]
        ok = len(set(z)) == 1 and len(sc) <= 1
        scale, prod = (sc[0].a[2], sc[0].a[1]) if len(sc) == 1 else (None, r.ret)
        if ok and not sc and r.ret.op == "seq":
            # entry by entry
            x, e = var("#entry"), TM.apply(r.ret.a[1], var("#row"))
            rd = [s for s in subterms(e) if s.op == "idx" and s.a[1] is var("#row") and any(u.op == "app" and u.a[0] == "matmul" for u in subterms(s.a[0]))]
            ok = len(set(rd)) == 1
            if ok:
                C.eq("noise by factorisation: scale", TM.subst(e, {rd[0]: x}), x * TM.powt(T / n, H), it, dom, rule="fractional noise")
                prod = rd[0]
        elif ok:
            C.eq("noise by factorisation: scale", scale, TM.powt(T / n, H), it, dom, rule="fractional noise")
        if ok:
            mm = [s for s in subterms(prod) if s.op == "app" and s.a[0] == "matmul"]
            fac = [s for s in subterms(prod) if s.op == "app" and str(s.a[0]).endswith("::acf_matrix_sqrt")]
            if len(mm) == 1 and len(fac) == 1:
                C.eq("noise by factorisation: factor", fac[0].a[1], H, it, rule="fractional noise")
                C.eq("noise by factorisation: size", fac[0].a[2], n, it, rule="fractional noise")
                C.fact("noise by factorisation: factor times draws", mm[0].a[1] is fac[0] and z[0] in set(subterms(mm[0].a[2])), it, "the matrix product is not factor x draws", rule="fractional noise")
            else:
                ok = False
        if not ok:
            C.undecided("noise by factorisation", it, "another construction")
    it = C.free("fgn_fft")
    r = C.ev(it, [H, n, T, SOME(seed)])
    if r is not None:
        got = TM.subst(canon(r.ret), {TM.powt(T / n, H): TM.powt(n, -H) * TM.powt(T, H), TM.powt(n / T, -H): TM.powt(n, -H) * TM.powt(T, H)})
        dr = [s for s in subterms(got) if s.op == "app" and s.a[0] == "draws"]
        if len(set(dr)) != 1:
            C.undecided("noise by circulant embedding", it, "%d sources" % len(set(dr)))
            return
        c = SEQ(2 * n, lambda j: acf(H, If(j < n + 1, j, 2 * n - j)))
        lam = lambda k: fn("re", app("dft", c)[k])
        w = app("dft", SEQ(2 * n, lambda k: sqrt(lam(k) / (2 * n)) * dr[0][k]))
        C.eq("noise by circulant embedding", got, SEQ(n, lambda j: fn("re", w[j + 1]) * TM.powt(n, -H) * TM.powt(T, H)), it, dom, ints=[n], rule="fractional noise")


def lower_triangle(C, it, M, H):
    """only the lower triangle is read by the factorisation"""
    i, j = V("i j")
    A = lambda k: acf(H, k)
    base = [s for s in subterms(M) if s.op == "app" and str(s.a[0]).endswith("from_diagonal_element_generic")]
    if not base:
        C.undecided("covariance matrix", it, "another construction")
        return
    want = mk("rec", n - 1, TM.lamf(lambda P: TM.lamf(lambda r: tup(mk("rec", r + 1, TM.lamf(lambda Q: TM.lamf(lambda q: tup(
        mk("withidx", Q, tup(r + 1, q), A(r + 1 - q))))), P)))), app(base[0].a[0], n, n, 1))
    if C.equal(M, want):
        C.add("covariance matrix", "ok", it, "", "fractional noise")
        return
    # small sizes, entry by entry
    for size in (2, 3, 4):
        x = unroll(TM.subst(M, {n: num(size)}))
        ent, ok = {}, True
        while x.op == "withidx":
            ij = x.a[1]
            if ij.op != "agg" or not all(y.op == "num" for y in ij.a[2:]):
                ok = False
                break
            ent.setdefault(tuple(int(y.a[0]) for y in ij.a[2:]), x.a[2])
            x = x.a[0]
        if not ok or x.op != "app" or x.a[0] != base[0].a[0]:
            C.undecided("covariance matrix", it, "another construction")
            return
        for a in range(size):
            for b in range(a + 1):
                C.eq("covariance of size %d at (%d, %d)" % (size, a, b), ent.get((a, b), x.a[3] if a == b else num(0)), A(lift(a - b)), it, [0 <= H, H <= 1], rule="fractional noise")


def standard(d):
    """the distribution is the standard normal"""
    if d.op == "agg":
        return True if "StandardNormal" in str(d.a[0]) else None
    new = [x for x in subterms(d) if x.op == "app" and str(x.a[0]).endswith("Normal::new")]
    if len(new) != 1:
        return None
    return new[0].a[1:] == (num(0), num(1))


def two(C):
    """first component of a two-factor simulation"""
    it = C.one([i for i in C.F.items.values() if i.name == "euler_maruyama" and i.did.startswith(CR)], "euler_maruyama")
    if it is None:
        return
    me, y0 = V("self y0")
    C.dom = [t0 < tn, 1 <= n, 1 <= m]
    for par in (FALSE, TRUE):
        r = C.ev(it, [me, x0, y0, t0, tn, n, m, par])
        if r is None:
            continue
        P = "RustQuant_stochastics::process::StochasticVolatilityProcess::"
        dW = lambda j: [s for s in subterms(r.ret) if s.op == "app" and str(s.a[0]).endswith("Distribution::sample_iter")][0][j] * sqrt(dt())

        def step(Q, i, k):
            X = Q[i][k]
            return mk("withidx", Q, i, mk("withidx", Q[i], k + 1, X + app(P + "drift_1", me, X, time(k)) * dt() + app(P + "diffusion_1", me, X, time(k)) * dW(k)))
        want = mk("rec", m, TM.lamf(lambda P_: TM.lamf(lambda i: tup(mk("rec", n, TM.lamf(lambda Q: TM.lamf(lambda k: tup(step(Q, i, k)))), P_)))), SEQ(m, lambda i: SEQ(n + 1, lambda j: x0)))
        src = {s.a[1] for s in subterms(r.ret) if s.op == "app" and str(s.a[0]).endswith("Distribution::sample_iter")}
        C.fact("two factors: standard normal draws", len(src) == 1 and standard(list(src)[0]) if src else None, it, "draws from %s" % [TM.show(s) for s in src], rule="scheme recurrence")
        C.eq("two factors: time grid", C.S.get(r.ret, "Trajectories", "times", crate=CR), SEQ(n + 1, time), it, rule="time grid")
        C.eq("two factors: paths", canon(C.S.get(r.ret, "Trajectories", "paths", crate=CR)), canon(want), it, [t0 < tn, 1 <= n, 1 <= m], rule="scheme recurrence")
