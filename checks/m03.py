"""The fast Fourier transform computes the discrete Fourier transform: the
recursion step of the Cooley-Tukey identity for every even length, with the
transform itself for the halves as induction hypothesis, and the length-one base."""
from spec import *
import term as TM

FLOOR = 8
CR = "RustQuant_math"
x, k = V("x k")
m = var("n?m")
J = fn("I")


def ints(t):
    return t.op == "len" or t is k or t is m


def w(a, b):
    """exp(-2 pi i a / b)"""
    return fn("exp", J * (-2 * fn("pi") * a / b))


def dft(v, q):
    return SUM(LEN(v), lambda j: v[j] * w(j * q, LEN(v)))


def run(C):
    C.part("complex", complex_)
    C.part("real", real)
    C.part("entry points", entry)


def calc(C, nm):
    it = C.free(nm, "fft")
    return it, it and C.ev(it, [x], state={x: x}, opaque=lambda t: t.did == it.did)


def hyp(t, did, f=lambda z: z):
    """the recursive calls replaced by the transform of their argument"""
    m = {}
    for s in TM.subterms(t):
        if s.op == "app" and s.a[0].startswith("mut:fn:" + did):
            v = hyp(s.a[1], did, f)
            m[s] = SEQ(LEN(v), lambda q: f(dft(v, q)))
    return TM.subst(t, m)


def halves(q):
    """the definition with its sum taken over even and odd positions"""
    return SUM(m, lambda j: x[2 * j] * w(2 * j * q, 2 * m)) + SUM(m, lambda j: x[2 * j + 1] * w((2 * j + 1) * q, 2 * m))


def complex_(C):
    it, r = calc(C, "fft_complex_calculation")
    if not r:
        return
    S = lambda t, n: TM.subst(t, {LEN(x): n})
    out = hyp(r.final(x), it.did)
    want = halves
    ge1 = [cmp("lt", num(0), m)]
    C.eq("length one is left as it is", S(out, num(1))[num(0)], x[num(0)], it)
    C.eq("length is kept", S(LEN(out), 2 * m), 2 * m, it, ge1, ints=ints)
    C.eq("first half", S(out[k], 2 * m), want(k), it, ge1 + [cmp("le", num(0), k), cmp("lt", k, m)], ints=ints)
    C.eq("second half", S(out[m + k], 2 * m), want(m + k), it, ge1 + [cmp("le", num(0), k), cmp("lt", k, m)], ints=ints)


def real(C):
    cal, r = calc(C, "fft_complex_calculation")
    if not r:
        return
    it = C.free("fft_real_calculation", "fft")
    rr = it and C.ev(it, [x], state={x: x}, opaque=lambda t: t.did in (it.did, cal.did))
    if not rr:
        return
    at = [cmp("le", num(0), k), cmp("lt", k, m)]
    out = hyp(rr.final(x), cal.did)
    want = fn("cnorm", dft(x, k))
    S = lambda t: t
    own = [s for s in TM.subterms(out) if s.op == "app" and s.a[0].startswith("mut:fn:" + it.did)]
    if own:
        # a recursion of its own: even lengths, given the magnitudes of the halves
        out = hyp(out, it.did, lambda z: fn("cnorm", z))
        want = fn("cnorm", halves(k))
        S = lambda t: TM.subst(t, {LEN(x): 2 * m})
    else:
        at = [cmp("le", num(0), k), cmp("lt", k, LEN(x)), cmp("lt", num(1), LEN(x))]
    C.eq("real: length is kept", S(LEN(out)), S(LEN(x)), it, at, ints=ints)
    C.eq("real: magnitudes of the transform", S(out[k]), want, it, at, ints=ints)


def entry(C):
    n = var("n?l")
    for kind in ("complex", "real"):
        cal = C.free("fft_%s_calculation" % kind, "fft")
        for place in ("", "_inplace"):
            it = C.free("fft_%s%s" % (kind, place), "fft")
            if not it or not cal:
                continue
            r = C.ev(it, [x], state={x: x}, opaque=lambda t: t.did == cal.did)
            if not r:
                continue
            out = r.final(x) if place else r.ret
            C.nopanic = False       # the guard on the length is the next obligation
            C.eq("%s%s: runs the transform on the whole input" % (kind, place), out, app("mut:fn:%s:0" % cal.did, x), it)
            C.nopanic = True
            C.over_ints("%s%s: accepts exactly the powers of two" % (kind, place), If(TM.subst(runs(r), {LEN(x): n}), 1, 0),
                        lambda q: int(q > 0 and q & (q - 1) == 0), n, range(1, 4200), it, rule="guard on every length")
