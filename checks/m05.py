"""Root finders: what the searches keep true at every step, for every function
and starting point, and what that makes of the value they return."""
from spec import *
import term as TM
import itertools

FLOOR = 20
CR = "RustQuant_math"
x = V("x")
SOLVERS = ("Bisection", "NewtonRaphson", "Brent")
EPS = num("2.220446049250313e-16")
TOL = (42 * EPS) ** 2


def field(C, ty):
    d = C.S.get(x, ty, "data", CR)
    return lambda f, s=None: C.S.get(C.S.get(s, ty, "data", CR) if s is not None else d, "RootfinderData", f, CR)


def fcall(C, ty, nm="function"):
    f = C.S.get(x, ty, nm, CR)
    return lambda t: app("call", f, lift(t))


def close0(y):
    return cmp("lt", fn("abs", y), TOL)


def same(p, q):
    """strictly the same sign"""
    z = num(0)
    return Or(And(cmp("lt", z, p), cmp("lt", z, q)), And(cmp("lt", p, z), cmp("lt", q, z)))


def run(C):
    C.part("bounds", bounds)
    for ty in SOLVERS:
        C.part(ty + " search for a bracket", outer, ty)
    C.part("bisection", bisection)
    C.part("Newton-Raphson", newton)
    C.part("Brent", brent)


def bounds(C):
    it = C.method("RootfinderData", "enforce_bounds", None, CR)
    v = V("v")
    r = it and C.ev(it, [x, v])
    if r:
        g = lambda f: C.S.get(x, "RootfinderData", f, CR)
        lo, hi = (fld(g("interval"), 0, k, "tuple", 2) for k in (0, 1))
        on = g("interval_enforced")
        C.eq("enforce_bounds", r.ret, If(on, If(cmp("lt", v, lo), lo, If(cmp("lt", hi, v), hi, v)), v), it, [cmp("le", lo, hi)])
    it = C.method("RootfinderData", "close", None, CR)
    r = it and C.ev(it, [v, num(0)])
    if r:
        C.eq("close to zero", If(r.ret, 1, 0), If(close0(v), 1, 0), it)
    w = V("w")
    r = it and C.ev(it, [v, w])
    if r:
        small = lambda q: cmp("le", fn("abs", v - w), 42 * EPS * fn("abs", q))
        for nm, sv, sw in (("positive", 1, 1), ("negative", -1, -1), ("of opposite sign", 1, -1)):
            S = lambda t: TM.subst(t, {v: sv * v, w: sw * w})
            C.eq("close: numbers %s, within a relative distance of both" % nm, If(S(r.ret), 1, 0), If(And(S(small(v)), S(small(w))), 1, 0), it,
                 [Not(cmp("eq", sv * v, sw * w))], pos=[v, w], sampler=near(v, w))
        C.eq("close: equal values are close", If(TM.subst(r.ret, {w: v}), 1, 0), 1, it)
    it = next(iter(C.F.method("RootfinderData", "nrsign", None, CR)), None)
    r = it and C.ev(it, [v, w])
    if r:
        C.eq("smallest step goes towards the middle", r.ret, If(cmp("le", num(0), w), fn("abs", v), -fn("abs", v)), it)


def near(v, w):
    def f(t, seed):
        base = 1 + seed % 7
        if t is v:
            return float(base)
        if t is w:
            return [base * (1 + 3e-15 * (seed % 5 - 2)), base * (1 + (seed % 11) * 2e-15), base + 1.0][seed // 2 % 3]
    return f


def exits(L, is_out):
    ks = [k for k, c in enumerate(L.exits)]
    return [k for k in ks if is_out(L.exits[k])], [k for k in ks if not is_out(L.exits[k])]


def outer(C, ty):
    it = C.method(ty, "solve", "Rootfinder", CR)
    r = it and C.ev(it, [x], state={x: x}, opaque=lambda t: t.name == "solve_impl", loops="system")
    if not r:
        return
    D, F = field(C, ty), fcall(C, ty)
    n = lambda s: "%s: %s" % (ty, s)
    guess = C.S.get(x, ty, "guess", CR)
    acc, step = D("accuracy"), D("stepsize")
    lo, hi = (fld(D("interval"), 0, k, "tuple", 2) for k in (0, 1))
    on = D("interval_enforced")
    ok = [cmp("lt", num(0), acc)]
    C.eq(n("refused unless the accuracy is positive"), If(runs(r), 1, 0), If(cmp("lt", num(0), acc), 1, 0), it, rule="guard")
    calls = [c for c in r.calls if "solve_impl" in c[1]]
    if len(calls) != 1 or len(loops(r.ret)) != 1:
        raise SpecError("one loop and one refinement expected")
    arg = calls[0][2][0]
    g = lambda f: D(f, arg)
    Lt = loops(r.ret)[0]
    at = {}
    for f in ("x_min", "x_max", "y_min", "y_max", "iteration_count"):
        t = g(f)
        if t.op != "wout":
            raise SpecError("bracket is not a loop variable")
        at[f] = Slot(int(t.a[1].a[0]))
    rest = [k for k in range(len(Lt.a) - 1) if k not in at.values()]
    if len(rest) != 1:
        raise SpecError("loop variables not accounted for")
    L = Loop(Lt, dict(at, flip=Slot(rest[0])))
    v, nx = L.v, L.next
    init = {q: Lt.a[1 + L.ix[q]] for q in L.ix}
    first = [cmp("le", TOL, fn("abs", F(guess)))]
    C.eq(n("a root as the guess is returned"), r.ret, guess, it, [close0(F(guess))] + ok)
    inb = lambda t: [Or(Not(on), And(cmp("le", lo, t), cmp("le", t, hi)))]
    st = ok + [cmp("le", num(0), step), cmp("le", lo, hi)] + inb(guess) + first
    for e in ("min", "max"):
        C.eq(n("y_%s is the function there at the start" % e), init["y_" + e], F(init["x_" + e]), it, st)
        C.eq(n("y_%s is the function there after a step" % e), nx["y_" + e], F(nx["x_" + e]), it,
             [cmp("eq", v["y_min"], F(v["x_min"])), cmp("eq", v["y_max"], F(v["x_max"]))])
    C.prove(n("the bracket starts in order"), cmp("le", init["x_min"], init["x_max"]), it, st)
    C.prove(n("the guess is in the bracket"), And(cmp("le", init["x_min"], guess), cmp("le", guess, init["x_max"])), it, st)
    inv = [cmp("le", v["x_min"], v["x_max"]), cmp("le", lo, hi)] + inb(v["x_min"]) + inb(v["x_max"])
    C.prove(n("a step never shrinks the bracket"), And(cmp("le", nx["x_min"], v["x_min"]), cmp("le", v["x_max"], nx["x_max"])), it, inv)
    for e in ("min", "max"):
        C.prove(n("x_%s stays within the bounds" % e), inb(nx["x_" + e])[0], it, inv + [on])
        C.prove(n("x_%s starts within the bounds" % e), inb(init["x_" + e])[0], it, st + [on])
    fl = [Or(cmp("eq", v["flip"], num(1)), cmp("eq", v["flip"], num(-1)))]
    C.prove(n("the alternating side is one of two"), Or(cmp("eq", nx["flip"], num(1)), cmp("eq", nx["flip"], num(-1))), it, fl)
    C.eq(n("the alternating side starts"), init["flip"] ** 2, 1, it)
    C.eq(n("without bounds each step widens the bracket 2.6 times"), nx["x_max"] - nx["x_min"], num("13/5") * (v["x_max"] - v["x_min"]), it, fl + [Not(on)])
    C.prove(n("each step is counted"), cmp("lt", v["iteration_count"], nx["iteration_count"]), it)
    # how the search ends
    opp = cmp("le", v["y_min"] * v["y_max"], num(0))
    mx = None
    for k, c in enumerate(L.exits):
        out = L.at_exit(r.ret, k)
        callk = [s for s in TM.subterms(out) if s.op == "app" and "solve_impl" in s.a[0]]
        if not callk:
            # the budget is spent
            w = lambda t: If(close0(F(guess)), guess, t)
            C.eq(n("a failed search claims no root"), out, w(mk("const", "nan")), it, ok,
                 known={"M05-%s-no-bracket" % ty.lower(): w(num(0))})
            continue
        C.prove(n("refined only across a sign change"), Or(Not(c), opp), it)
        a2 = L.at_exit(arg, k)
        g2 = lambda f: D(f, a2)
        as_ = first + ok + [opp]
        C.eq(n("a root at the lower end is returned"), out, v["x_min"], it, as_ + [close0(v["y_min"])])
        C.eq(n("a root at the upper end is returned"), out, v["x_max"], it, as_ + [close0(v["y_max"]), Not(close0(v["y_min"]))])
        C.eq(n("otherwise the refined root is returned"), out, callk[0], it, as_ + [Not(close0(v["y_max"])), Not(close0(v["y_min"]))])
        for f in ("x_min", "x_max", "y_min", "y_max"):
            C.eq(n("the refinement gets " + f), g2(f), v[f], it, as_)
        C.eq(n("the refinement starts in the middle"), g2("root"), (v["x_min"] + v["x_max"]) / 2, it, as_)
        C.eq(n("the refinement's accuracy"), g2("accuracy"), fn("max", acc, EPS), it, as_)


def impl(C, ty):
    it = C.method(ty, "solve_impl", "Rootfinder", CR)
    r = it and C.ev(it, [x], state={x: x}, loops="system")
    if not r:
        return None, None, None
    ls = loops(r.ret)
    if len(ls) != 1:
        raise SpecError("one loop expected")
    return it, r, ls[0]


def pre(C, ty):
    """what the search for a bracket hands over"""
    D, F = field(C, ty), fcall(C, ty)
    a, b = D("x_min"), D("x_max")
    return [cmp("eq", D("y_min"), F(a)), cmp("eq", D("y_max"), F(b)),
            Or(And(cmp("lt", F(a), num(0)), cmp("le", num(0), F(b))), And(cmp("lt", num(0), F(a)), cmp("le", F(b), num(0))))]


def by_exit(L, r):
    """(exit through the spent budget, the others)"""
    spent, found = [], []
    for k in range(len(L.exits)):
        out = L.at_exit(r.ret, k)
        (found if any(s in set(L.v.values()) for s in TM.subterms(out)) else spent).append((k, out))
    return spent, found


def spent(C, ty, it, outs):
    for k, out in outs:
        C.eq("%s: a spent budget claims no root" % ty, out, mk("const", "nan"), it, known={"M05-%s-no-convergence" % ty.lower(): num(0)})


def bisection(C):
    ty = "Bisection"
    it, r, Lt = impl(C, ty)
    if not it:
        return
    D, F = field(C, ty), fcall(C, ty)
    ym, a, b, acc = D("y_min"), D("x_min"), D("x_max"), D("accuracy")
    up = cmp("lt", ym, num(0))
    L = Loop(Lt, {"n": D("iteration_count"), "dx": If(up, b - a, a - b), "root": If(up, a, b)}, C.equal)
    v, nx = L.v, L.next
    init = {q: Lt.a[1 + L.ix[q]] for q in L.ix}
    C.prove("bisection: starts with f(root) <= 0", cmp("le", F(init["root"]), num(0)), it, pre(C, ty))
    C.prove("bisection: starts with f(root + dx) >= 0", cmp("le", num(0), F(init["root"] + init["dx"])), it, pre(C, ty))
    inv = [cmp("le", F(v["root"]), num(0)), cmp("le", num(0), F(v["root"] + v["dx"]))]
    C.prove("bisection: keeps f(root) <= 0", cmp("le", F(nx["root"]), num(0)), it, inv + [L.cond])
    C.prove("bisection: keeps f(root + dx) >= 0", cmp("le", num(0), F(nx["root"] + nx["dx"])), it, inv + [L.cond])
    C.eq("bisection: halves the bracket", nx["dx"], v["dx"] / 2, it)
    C.prove("bisection: counts its steps", cmp("lt", v["n"], nx["n"]), it)
    sp, fd = by_exit(L, r)
    spent(C, ty, it, sp)
    half = v["dx"] / 2
    for k, out in fd:
        C.prove("bisection: the root is accurate", Or(close0(F(out)), And(cmp("lt", fn("abs", half), acc), cmp("le", F(out), num(0)), cmp("le", num(0), F(out + half)))),
                it, inv + [L.exits[k]])
        C.prove("bisection: goes on unless accurate", Or(cmp("lt", fn("abs", half), acc), close0(F(v["root"] + half)), Not(L.exits[k])), it)


def newton(C):
    ty = "NewtonRaphson"
    it, r, Lt = impl(C, ty)
    if not it:
        return
    D, F, G = field(C, ty), fcall(C, ty), fcall(C, ty, "derivative")
    ym, a, b, acc, root = D("y_min"), D("x_min"), D("x_max"), D("accuracy"), D("root")
    up = cmp("lt", ym, num(0))
    z = num(0)
    Ls = systems(Lt, {"n": D("iteration_count") + 1, "root": root, "xh": If(up, b, a), "df": G(root), "f": F(root), "xl": If(up, a, b),
                      "dxold": b - a, "dx": b - a})
    L = [q for q in Ls if q.next["dxold"] is q.v["dx"]]
    if len(L) != 1:
        raise SpecError("the step before last")
    L = L[0]
    v, nx = L.v, L.next
    init = {q: Lt.a[1 + L.ix[q]] for q in L.ix}
    C.prove("Newton: starts with f(xl) <= 0", cmp("le", F(init["xl"]), z), it, pre(C, ty))
    C.prove("Newton: starts with f(xh) >= 0", cmp("le", z, F(init["xh"])), it, pre(C, ty))
    val = [cmp("eq", v["f"], F(v["root"])), cmp("eq", v["df"], G(v["root"]))]
    inv = val + [cmp("le", F(v["xl"]), z), cmp("le", z, F(v["xh"]))]
    C.eq("Newton: f is the function at the root", nx["f"], F(nx["root"]), it)
    C.eq("Newton: df is the derivative at the root", nx["df"], G(nx["root"]), it)
    C.prove("Newton: keeps f(xl) <= 0", cmp("le", F(nx["xl"]), z), it, inv)
    C.prove("Newton: keeps f(xh) >= 0", cmp("le", z, F(nx["xh"])), it, inv)
    for e in ("xl", "xh"):
        C.prove("Newton: %s is the old end or the new root" % e, Or(cmp("eq", nx[e], v[e]), cmp("eq", nx[e], nx["root"])), it)
    newt, mid = v["root"] - v["f"] / v["df"], (v["xl"] + v["xh"]) / 2
    leaves = ((v["root"] - v["xh"]) * v["df"] - v["f"]) * ((v["root"] - v["xl"]) * v["df"] - v["f"])
    slow = cmp("lt", fn("abs", v["dxold"] * v["df"]), fn("abs", 2 * v["f"]))
    C.eq("Newton: the next point", nx["root"], If(Or(cmp("lt", z, leaves), slow), mid, newt), it)
    C.eq("Newton: the step", fn("abs", nx["dx"]), If(Or(cmp("lt", z, leaves), slow), fn("abs", v["xh"] - v["xl"]) / 2, fn("abs", v["f"] / v["df"])), it)
    C.prove("Newton: counts its steps", cmp("lt", v["n"], nx["n"]), it)
    sp, fd = by_exit(L, r)
    spent(C, ty, it, sp)
    for k, out in fd:
        C.eq("Newton: the last point is the root", out, nx["root"], it)
        C.prove("Newton: the root is accurate", cmp("lt", fn("abs", nx["dx"]), acc), it, [L.exits[k]])
        C.prove("Newton: goes on unless accurate", Or(cmp("lt", fn("abs", nx["dx"]), acc), Not(L.exits[k])), it)


def brent(C):
    ty = "Brent"
    it, r, Lt = impl(C, ty)
    if not it:
        return
    D, F = field(C, ty), fcall(C, ty)
    acc = D("accuracy")
    roles = {"n": D("iteration_count"), "f": D("y_max"), "y_max": D("y_max"), "y_min": D("y_min"), "root": D("x_max"), "x_max": D("x_max"),
             "x_min": D("x_min"), "d": num(0), "e": num(0)}
    # the variables that end as the fields of the same name
    fin = r.final(x)
    Ls = [L for L in systems(Lt, roles) if any(out is L.v["root"] or L.v["root"] in set(TM.subterms(out)) for k, out in by_exit(L, r)[1])]
    Ls = [L for L in Ls if L.next["y_min"] is not L.v["y_min"] and proves(L)]
    if not Ls:
        raise SpecError("loop variables")
    L = Ls[0]
    v, nx = L.v, L.next
    z = num(0)
    val = [cmp("eq", v["f"], F(v["root"])), cmp("eq", v["y_min"], F(v["x_min"])), cmp("eq", v["y_max"], F(v["x_max"]))]
    J = lambda s: Or(Not(same(s["f"], s["y_max"])), Not(same(s["f"], s["y_min"])))
    init = {q: Lt.a[1 + L.ix[q]] for q in L.ix}
    C.prove("Brent: starts across a sign change", J(init), it, pre(C, ty))
    for e, p in (("f", "root"), ("y_min", "x_min"), ("y_max", "x_max")):
        C.eq("Brent: %s is the function at %s" % (e, p), nx[e], F(nx[p]), it, val)
    J2 = TM.subst(J({k: nx[k] for k in ("f", "y_max", "y_min")}), {nx["f"]: var("f'")})
    C.prove("Brent: keeps a sign change", J2, it, [J(v)])
    C.prove("Brent: counts its steps", cmp("lt", v["n"], nx["n"]), it)
    # the step itself is a long expression; whatever it is, it is only taken
    # when it is longer than the tolerance
    steps = [t.a[1] for t in TM.subterms(nx["root"]) if t.op == "fn" and t.a[0] == "abs"]
    m = {max(steps, key=lambda t: len(set(TM.subterms(t)))): var("d'")} if steps else {}
    q = lambda t: TM.subst(TM.subst(t, m), {nx["x_min"]: var("old")})
    C.prove("Brent: moves by at least the tolerance", cmp("le", 2 * EPS * fn("abs", var("old")) + acc / 2, fn("abs", q(nx["root"]) - var("old"))),
            it, [cmp("lt", z, acc)])
    sp, fd = by_exit(L, r)
    spent(C, ty, it, sp)
    for k, out in fd:
        f2 = L.at_exit(fin, k)
        other = D("x_max", f2)
        tol = 2 * EPS * fn("abs", out) + acc / 2
        C.prove("Brent: the root is accurate", Or(close0(F(out)), And(cmp("le", fn("abs", other - out) / 2, tol), Not(same(F(out), F(other))))), it,
                val + [J(v), L.exits[k]])


def proves(L):
    return L.next["f"].op == "app" and L.next["f"].a[0] == "call" and L.next["f"].a[2] is L.next["root"]
