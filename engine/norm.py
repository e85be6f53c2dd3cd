"""Normal form for value-number terms and the equality decision.

Scalars are normalised to quotients of generalised polynomials (monomials with
rational exponents over an open set of atoms: variables, primes, exponentials of
monomials, logarithms, fractional powers of polynomials, sums ...).  Gates
(`ite`) are resolved by splitting on canonical linear conditions, kept in an
interval domain.  The verdict is three-valued: EQUAL (normal forms coincide on
every leaf), DIFF (they differ on some leaf and an evaluation of the two leaf
terms confirms it) or UNKNOWN."""
from fractions import Fraction as Fr
from math import gcd
import os, time
import itertools
from term import *
import term as TM


DEADLINE = None


def tick():
    if DEADLINE is not None and time.time() > DEADLINE:
        raise TooBig("time")


class NeedSplit(Exception):
    def __init__(self, c):
        self.c = c


class TooBig(Exception):
    pass


LIMIT = 6000


class Atom:
    __slots__ = ("id", "key", "kind", "pos", "int", "data", "term", "bound")


class Reg:
    """registry of atoms and polynomials (one per comparison session)"""

    def __init__(self, pos=None, ints=None):
        self.atoms = []
        self.bykey = {}
        self.polys = []
        self.pbykey = {}
        self.rats = []
        self.rbykey = {}
        self.pos_t = pos or (lambda t: False)
        self.int_t = ints or (lambda t: False)
        self.pieces = {}

    def atom(self, key, pos=False, isint=False, data=None, term=None, bound=False):
        a = self.bykey.get(key)
        if a is None:
            a = Atom()
            a.id = len(self.atoms)
            a.key = key
            a.kind = key[0]
            a.pos = pos
            a.int = isint
            a.data = data
            a.term = term
            a.bound = bound
            self.atoms.append(a)
            self.bykey[key] = a
        return a

    def poly(self, p):
        k = tuple(sorted(p.items()))
        i = self.pbykey.get(k)
        if i is None:
            i = len(self.polys)
            self.polys.append(p)
            self.pbykey[k] = i
        return i

    def rat(self, r):
        """hashable id of a rational function (equality, not structure)"""
        k = (tuple(sorted(r.n.items())), r.d)
        i = self.rbykey.get(k)
        if i is not None:
            return i
        if r.d:
            for j, q in enumerate(self.rats):
                if q.d and req(self, r, q):
                    self.rbykey[k] = j
                    return j
        i = len(self.rats)
        self.rats.append(r)
        self.rbykey[k] = i
        return i


class Rat:
    __slots__ = ("n", "d")

    def __init__(self, n, d=()):
        self.n = n
        self.d = d if n else ()


def const(c):
    c = Fr(c)
    return Rat({(): c} if c else {})


R0, R1 = const(0), const(1)


def isconst(r):
    return not r.d and (not r.n or (len(r.n) == 1 and () in r.n))


def cval(r):
    return r.n.get((), Fr(0))


def mmul(a, b):
    """merge monomials (tuples of (atom, exp) sorted by atom)"""
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e:
                out.append((x[0], e))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def mpow(m, e):
    return tuple((a, x * e) for a, x in m)


def special(reg, m):
    for a, e in m:
        k = reg.atoms[a].kind
        if k == "I" and not (0 <= e < 2 and e.denominator == 1):
            return True
        if k == "prime" and not (0 < e < 1):
            return True
        if k == "pw" and not (0 < e < 1):
            return True
        if k == "absv" and e.denominator == 1 and (e >= 2 or e < 0):
            return True
    return False


def reduce_mono(reg, c, m):
    """c*m with special atoms brought to range: returns Rat"""
    out = []
    extra = []
    den = {}
    for a, e in m:
        at = reg.atoms[a]
        if at.kind == "I" and e.denominator == 1:
            k = int(e) % 4
            if k >= 2:
                c = -c
            if k % 2:
                out.append((a, Fr(1)))
        elif at.kind == "prime":
            f = e.numerator // e.denominator
            c = c * Fr(at.data) ** f
            if e - f:
                out.append((a, e - f))
        elif at.kind == "pw":
            f = e.numerator // e.denominator
            if e - f:
                out.append((a, e - f))
            if f > 0:
                extra.append((at.data, f))
            elif f < 0:
                den[at.data] = den.get(at.data, 0) - f
        elif at.kind == "absv" and e.denominator == 1:
            k = int(e) // 2 * 2
            if e - k:
                out.append((a, e - k))
            if k:
                extra.append(("rat", at.data, k))
        else:
            out.append((a, e))
    r = Rat({tuple(out): c})
    for x in extra:
        if x[0] == "rat":
            r = rmul(reg, r, rpow_int(reg, reg.rats[x[1]], x[2]))
        else:
            r = rmul(reg, r, rpow_int(reg, Rat(reg.polys[x[0]]), x[1]))
    for p, k in den.items():
        r = rmul(reg, r, rpow_int(reg, rinv(reg, Rat(reg.polys[p])), k))
    return r


def padd(p, q, s=1):
    if len(p) < len(q) and s == 1:
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pmul(reg, p, q):
    """product of polynomials -> Rat (reductions may create denominators)"""
    if len(p) * len(q) > LIMIT * 4:
        raise TooBig()
    r = {}
    extra = []
    for m1, c1 in p.items():
        tick()
        for m2, c2 in q.items():
            m = mmul(m1, m2)
            c = c1 * c2
            if special(reg, m):
                extra.append((c, m))
                continue
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    out = Rat(r)
    for c, m in extra:
        out = radd(reg, out, reduce_mono(reg, c, m))
    return out


def prim(reg, p):
    """p = content_mono * prim ; returns (coef, mono, primpoly) with the leading
    coefficient of primpoly 1"""
    ms = list(p)
    mins = None
    for m in ms:
        d = dict(m)
        if mins is None:
            mins = d
        else:
            for a in list(mins):
                e = d.get(a, Fr(0))
                if e < mins[a]:
                    mins[a] = e
            for a, e in d.items():
                if a not in mins and e < 0:
                    mins[a] = e
    for m in ms:
        d = dict(m)
        for a in mins:
            if a not in d and mins[a] > 0:
                mins[a] = Fr(0)
    mono = tuple(sorted((a, e) for a, e in mins.items() if e and reg.atoms[a].kind not in ("prime", "pw", "I", "absv")))
    inv = mpow(mono, -1)
    q = {mmul(m, inv): c for m, c in p.items()}
    lead = q[max(q, key=mkey)]
    q = {m: c / lead for m, c in q.items()}
    return lead, mono, q


def mkey(m):
    return (sum(e for _, e in m), m)


def exact_div(reg, p, q):
    """p / q as polynomials if exact (same Laurent ring), else None"""
    if len(q) == 0:
        return None
    lm = max(q, key=mkey)
    lc = q[lm]
    inv = mpow(lm, -1)
    out = {}
    r = dict(p)
    n = 0
    lowest = None
    # bounded long division
    while r:
        n += 1
        if n > 400:
            return None
        tick()
        m = max(r, key=mkey)
        t = mmul(m, inv)
        if special(reg, t):
            return None
        # must not introduce negative exponents for atoms p did not have
        c = r[m] / lc
        out[t] = out.get(t, 0) + c
        for m2, c2 in q.items():
            mm = mmul(t, m2)
            if special(reg, mm):
                return None
            v = r.get(mm, 0) - c * c2
            if v:
                r[mm] = v
            else:
                r.pop(mm, None)
        if r and mkey(max(r, key=mkey)) >= mkey(m):
            return None
        if r and lowest is None:
            lowest = min(mkey(x)[0] for x in p) - max(mkey(x)[0] for x in q)
        if r and mkey(max(r, key=mkey))[0] - mkey(lm)[0] < min(mkey(x)[0] for x in p) - max(mkey(x)[0] for x in q) - 1:
            return None
    return out


def rdeno(reg, r):
    """expanded denominator"""
    out = R1
    for p, k in r.d:
        out = rmul(reg, out, rpow_int(reg, Rat(reg.polys[p]), k))
    return out


def radd(reg, a, b, s=1):
    if not b.n:
        return a
    if not a.n:
        return b if s == 1 else Rat({m: -c for m, c in b.n.items()}, b.d)
    if a.d == b.d:
        return cancel(reg, Rat(padd(a.n, b.n, s), a.d))
    da, db = dict(a.d), dict(b.d)
    l = dict(da)
    for p, k in db.items():
        l[p] = max(l.get(p, 0), k)
    na = Rat(a.n)
    for p, k in l.items():
        e = k - da.get(p, 0)
        if e:
            na = rmul(reg, na, rpow_int(reg, Rat(reg.polys[p]), e))
    nb = Rat(b.n)
    for p, k in l.items():
        e = k - db.get(p, 0)
        if e:
            nb = rmul(reg, nb, rpow_int(reg, Rat(reg.polys[p]), e))
    if na.d or nb.d:
        x = radd(reg, na, nb, s)
        return Rat(x.n, dmerge(x.d, tuple(sorted(l.items()))))
    return cancel(reg, Rat(padd(na.n, nb.n, s), tuple(sorted(l.items()))))


def dmerge(a, b):
    d = dict(a)
    for p, k in b:
        d[p] = d.get(p, 0) + k
    return tuple(sorted((p, k) for p, k in d.items() if k))


def cancel(reg, r):
    if not r.d or not r.n:
        return r
    if len(r.n) > 400:
        return r
    d = dict(r.d)
    n = r.n
    ch = False
    for p in list(d):
        while d[p] > 0:
            q = exact_div(reg, n, reg.polys[p])
            if q is None:
                break
            n = q
            d[p] -= 1
            ch = True
    if not ch:
        return r
    return Rat(n, tuple(sorted((p, k) for p, k in d.items() if k)))


def rneg(a):
    return Rat({m: -c for m, c in a.n.items()}, a.d)


def rmul(reg, a, b):
    if not a.n or not b.n:
        return R0
    n = pmul(reg, a.n, b.n)
    d = dmerge(dmerge(a.d, b.d), n.d)
    if len(n.n) > LIMIT:
        raise TooBig()
    return cancel(reg, Rat(n.n, d)) if d else n


def rinv(reg, a):
    if not a.n:
        raise ZeroDivisionError
    num_ = R1
    for p, k in a.d:
        num_ = rmul(reg, num_, rpow_int(reg, Rat(reg.polys[p]), k))
    if len(a.n) == 1:
        (m, c), = a.n.items()
        return rmul(reg, num_, reduce_mono(reg, 1 / c, mpow(m, -1)))
    c, m, q = prim(reg, a.n)
    base = reduce_mono(reg, 1 / c, mpow(m, -1))
    return rmul(reg, num_, Rat(base.n, dmerge(base.d, ((reg.poly(q), 1),))))


def rdiv(reg, a, b):
    return rmul(reg, a, rinv(reg, b))


def rpow_int(reg, r, k):
    if k == 0:
        return R1
    if k < 0:
        return rpow_int(reg, rinv(reg, r), -k)
    if k > 40 and len(r.n) > 1:
        raise TooBig()
    if len(r.n) == 1 and not r.d:
        (m, c), = r.n.items()
        return reduce_mono(reg, c ** k, mpow(m, k))
    out = R1
    b = r
    while k:
        if k & 1:
            out = rmul(reg, out, b)
        k >>= 1
        if k:
            b = rmul(reg, b, b)
    return out


def req(reg, a, b):
    if a.d == b.d:
        return a.n == b.n
    return not radd(reg, a, b, -1).n


def factor_int(n):
    out = {}
    p = 2
    while p * p <= n:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
        if p > 100000:
            break
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def poly_pos(reg, p):
    """all coefficients positive and all atoms positive"""
    return all(c > 0 for c in p.values()) and all(
        reg.atoms[a].pos or (e.denominator == 1 and e.numerator % 2 == 0) for m in p for a, e in m)


class Ctx:
    """interval facts about canonical linear forms, plus opaque booleans"""
    __slots__ = ("iv", "bools", "eqs", "memo", "path", "nsplit")

    def __init__(self):
        self.iv = {}
        self.bools = {}
        self.eqs = {}
        self.memo = {}
        self.path = ()
        self.nsplit = 0

    def copy(self):
        c = Ctx()
        c.iv = dict(self.iv)
        c.bools = dict(self.bools)
        c.eqs = dict(self.eqs)
        c.path = self.path
        c.nsplit = self.nsplit
        return c


class Normal:
    def __init__(self, pos=None, ints=None, maxsplit=14):
        self.reg = Reg()
        self.pos = pos or (lambda t: False)
        self.ints = ints or (lambda t: False)
        self.maxsplit = maxsplit
        self.depth = 0
        self.lamdepth = 0
        self.ATOM_I = self.reg.atom(("I",))
        self.ATOM_PI = self.reg.atom(("pi",), pos=True)

    # ------------------------------------------------------------- scalars
    def A(self, a, e=1):
        return Rat({((a.id, Fr(e)),): Fr(1)})

    def rat(self, t, cx):
        r = cx.memo.get(t)
        if r is None:
            r = self._rat(t, cx)
            cx.memo[t] = r
        return r

    def _rat(self, t, cx):
        reg = self.reg
        o, a = t.op, t.a
        if o == "num":
            return const(a[0])
        if o == "add":
            return radd(reg, self.rat(a[0], cx), self.rat(a[1], cx))
        if o == "sub":
            return radd(reg, self.rat(a[0], cx), self.rat(a[1], cx), -1)
        if o == "neg":
            return rneg(self.rat(a[0], cx))
        if o == "mul":
            return rmul(reg, self.rat(a[0], cx), self.rat(a[1], cx))
        if o == "div":
            d = self.rat(a[1], cx)
            n = self.rat(a[0], cx)
            if not d.n:
                return self.opq(("div0", reg.rat(n)), t)
            return rdiv(reg, n, d)
        if o == "pow":
            return self.pow(self.rat(a[0], cx), self.rat(a[1], cx), cx, a[0])
        if o == "fn":
            return self.fn(a[0], a[1:], t, cx)
        if o == "lastof" and not nonscalar(a[2]):
            # the value the last of n rounds gives, the initial one if there is none
            return self.rat(ite(cmp("lt", ZERO, a[0]), TM.apply(a[1], sub(a[0], ONE)), a[2]), cx)
        if o == "ite":
            c = self.decide(a[0], cx)
            if c is True:
                return self.rat(a[1], cx)
            if c is False:
                return self.rat(a[2], cx)
            # condition mentions a bound variable: piecewise atom
            ck, flip = c
            x, y = a[1], a[2]
            if flip:
                x, y = y, x
            c1 = cx.copy(); self.assume_key(c1, ck, True)
            c2 = cx.copy(); self.assume_key(c2, ck, False)
            rx, ry = self.rat(x, c1), self.rat(y, c2)
            if req(reg, rx, ry):
                return rx
            return self.A(reg.atom(("piece", ck, reg.rat(rx), reg.rat(ry)), term=t, bound=True))
        if o == "bool":
            return const(1 if a[0] else 0)
        if o in ("cmp", "and", "or", "not", "exists"):
            c = self.decide(t, cx)
            if c is True:
                return R1
            if c is False:
                return R0
            ck, flip = c
            x = self.A(reg.atom(("ind", ck), term=t, bound=True))
            return radd(reg, R1, x, -1) if flip else x
        if o == "SUM":
            return self.sum(t, cx)
        if o == "discr":
            return self.var_atom(t, cx, isint=True)
        return self.var_atom(t, cx)

    def var_atom(self, t, cx, isint=False):
        key = self.canon_op(t, cx)
        if key[0] == "r":
            return self.reg.rats[key[1]]
        isint = isint or t.op in ("len", "first", "discr", "trunc") or self.ints(t) or (t.op == "bvc")
        at = self.reg.atom(("v", key), pos=self.pos(t) or t.op == "len", isint=isint, term=t,
                           bound=self.has_bvc(t))
        e = cx.eqs.get(at.id)
        if e is not None:
            return e
        return self.A(at)

    def has_bvc(self, t):
        memo = self.__dict__.setdefault("_hb", {})
        r = memo.get(t)
        if r is None:
            r = t.op == "bvc" or any(isinstance(x, T) and self.has_bvc(x) for x in t.a)
            memo[t] = r
        return r

    def opq(self, key, t, pos=False, isint=False):
        return self.A(self.reg.atom(key, pos=pos, isint=isint, term=t, bound=self.has_bvc(t)))

    def pow(self, b, e, cx, bt=None):
        reg = self.reg
        if isconst(e):
            k = cval(e)
            if k.denominator == 1:
                if k < 0 and not b.n:
                    return self.A(reg.atom(("pow0",)))
                return rpow_int(reg, b, int(k))
            return self.rpow(b, k)
        if isconst(b):
            c = cval(b)
            if c == 0:
                return R0
            if c < 0 and not e.d and all(x.denominator == 1 for x in e.n.values()) and \
                    all(reg.atoms[a].int and q.denominator == 1 and q > 0 for m in e.n for a, q in m):
                # the sign of an integer power is that of its parity
                odd = {m: Fr(1) for m, x in e.n.items() if x.numerator % 2}
                s = const(-1) if odd == {(): Fr(1)} else R1
                if odd and s is R1:
                    s = self.A(reg.atom(("powneg", reg.rat(const(-1)), reg.rat(Rat({m: x for m, x in odd.items() if m})))))
                    if () in odd:
                        s = rneg(s)
                return s if c == -1 else rmul(reg, s, self.pow(const(-c), e, cx))
            if c < 0:
                return self.A(reg.atom(("powneg", reg.rat(b), reg.rat(e))))
        return self.exp(rmul(reg, e, self.ln(b)), cx)

    def rpow(self, r, k):
        """fractional power (real, nonnegative base)"""
        reg = self.reg
        if not r.n:
            return R0
        if isconst(r) and cval(r) < 0:
            return self.A(reg.atom(("powneg", reg.rat(r), k)))
        out = R1
        if len(r.n) == 1:
            (m, c), = r.n.items()
            q = None
        else:
            c, m, q = prim(reg, r.n)
            if c < 0:
                q = {mm: -cc for mm, cc in q.items()}
                c = -c
        if c < 0:
            # push the sign into the power atom
            p = reg.poly({m: c})
            out = self.A(reg.atom(("pw", p), data=p))
            out = Rat({tuple((a, e * k) for a, e in list(out.n)[0]): Fr(1)})
            return rmul(reg, out, self.denpow(r, k))
        out = self.cpow(c, k)
        for a, e in m:
            at = reg.atoms[a]
            if not at.pos and e.denominator == 1 and e.numerator % 2 == 0 and (e * k).denominator == 1 and (e * k).numerator % 2:
                ab = self.abs_atom(Rat({((a, Fr(1)),): Fr(1)}))
                out = rmul(reg, out, rpow_int(reg, ab, int(e * k)))
            else:
                out = rmul(reg, out, reduce_mono(reg, Fr(1), ((a, e * k),)))
        if q is not None:
            sq = self.perfect(q, k)
            if sq is not None:
                out = rmul(reg, out, sq)
            else:
                p = reg.poly(q)
                at = reg.atom(("pw", p), data=p, pos=True)
                out = rmul(reg, out, reduce_mono(reg, Fr(1), ((at.id, k),)))
        return rmul(reg, out, self.denpow(r, k))

    def perfect(self, q, k):
        """split a univariate quadratic with rational roots into linear factors
        (the positive ones between/outside the roots) before taking the power"""
        reg = self.reg
        ats = {a for m in q for a, e in m}
        if len(ats) != 1:
            return None
        a = next(iter(ats))
        co = {}
        for m, c in q.items():
            if len(m) > 1 or (m and m[0][1].denominator != 1):
                return None
            co[int(m[0][1]) if m else 0] = c
        if max(co) != 2 or min(co) < 0:
            return None
        A, B, C = co[2], co.get(1, Fr(0)), co.get(0, Fr(0))
        D = B * B - 4 * A * C
        if D <= 0:
            return None
        import math
        n, d = math.isqrt(D.numerator), math.isqrt(D.denominator)
        if n * n != D.numerator or d * d != D.denominator:
            return None
        s = Fr(n, d)
        r1, r2 = sorted(((-B - s) / (2 * A), (-B + s) / (2 * A)))
        if r1 == 0 or r2 == 0:
            return None
        x = {((a, Fr(1)),): Fr(1)}
        f1 = padd(x, {(): -r1})
        f2 = padd(x, {(): -r2})
        if A < 0:
            f2 = {m: -c for m, c in f2.items()}
        out = self.cpow(abs(A), k)
        for f in (f1, f2):
            out = rmul(reg, out, self.rpow(Rat(f), k))
        return out

    def abs_atom(self, r):
        reg = self.reg
        i = reg.rat(r)
        return self.A(reg.atom(("absv", i), pos=True, data=i))

    def denpow(self, r, k):
        reg = self.reg
        out = R1
        for p, n in r.d:
            at = reg.atom(("pw", p), data=p, pos=True)
            out = rmul(reg, out, reduce_mono(reg, Fr(1), ((at.id, -k * n),)))
        return out

    def cpow(self, c, k):
        reg = self.reg
        if c == 1:
            return R1
        m = []
        for sgn, v in ((1, c.numerator), (-1, c.denominator)):
            for p, e in factor_int(v).items():
                at = reg.atom(("prime", p), pos=True, data=p)
                m.append((at.id, Fr(e) * k * sgn))
        m = tuple(sorted(m))
        return reduce_mono(reg, Fr(1), m)

    def exp(self, r, cx=None):
        reg = self.reg
        if not r.n:
            return R1
        out = R1
        quo, rem = r.n, {}
        if r.d:
            quo, rem = self.polydiv(r)
        for m, c in quo.items():
            out = rmul(reg, out, self.expmono(m, c, ()))
        for m, c in rem.items():
            out = rmul(reg, out, self.expmono(m, c, r.d))
        return out

    def expmono(self, m, c, d):
        reg = self.reg
        if not d:
            if len(m) == 1 and m[0][1] == 1 and reg.atoms[m[0][0]].kind == "ln":
                at = reg.atoms[m[0][0]]
                base = Rat(reg.polys[at.data]) if at.data is not None else const(at.key[2])
                if c.denominator == 1:
                    return rpow_int(reg, base, int(c))
                return self.rpow(base, c)
            at = reg.atom(("exp", m, ()), pos=not self.has_I(m))
            sign = 1
            if not at.pos:
                rest = [(a, e) for a, e in m if (a, e) not in ((self.ATOM_I.id, 1), (self.ATOM_PI.id, 1))]
                if len(rest) == len(m) - 2 and all(reg.atoms[a].int and e > 0 and e.denominator == 1 for a, e in rest):
                    # a whole number of turns
                    c = c % 2
                    if not rest and c >= 1:
                        c, sign = c - 1, -1
                    if not c:
                        return const(sign)
            return Rat({((at.id, c),): Fr(sign)})
        at = reg.atom(("exp", m, d), pos=not self.has_I(m))
        return Rat({((at.id, c),): Fr(1)})

    def has_I(self, m):
        return any(self.reg.atoms[a].kind == "I" for a, e in m)

    def polydiv(self, r):
        """r = quo + rem/den with rem reduced (single divisor)"""
        reg = self.reg
        if any(e < 0 or e.denominator != 1 for m in r.n for a, e in m):
            return {}, r.n
        D = rdeno(reg, r)
        if D.d or any(e < 0 for m in D.n for a, e in m) or len(D.n) > 60:
            return {}, r.n
        q = D.n
        lm = max(q, key=mkey)
        lc = q[lm]
        quo, rem = {}, {}
        w = dict(r.n)
        n = 0
        while w:
            n += 1
            if n > 500:
                return {}, r.n
            m = max(w, key=mkey)
            t = mmul(m, mpow(lm, -1))
            if any(e < 0 for a, e in t):
                rem[m] = w.pop(m)
                continue
            c = w[m] / lc
            quo[t] = quo.get(t, 0) + c
            for m2, c2 in q.items():
                mm = mmul(t, m2)
                v = w.get(mm, 0) - c * c2
                if v:
                    w[mm] = v
                else:
                    w.pop(mm, None)
        return quo, rem

    def ln(self, r):
        reg = self.reg
        if not r.n:
            return self.A(reg.atom(("ln0",)))
        q = None
        if len(r.n) == 1:
            (m, c), = r.n.items()
        else:
            c, m, q = prim(reg, r.n)
            if c < 0:
                q = {mm: -cc for mm, cc in q.items()}
                c = -c
        if c < 0:
            p = reg.poly({m: c})
            out = self.A(reg.atom(("ln", p), data=p))
        else:
            out = R0
            for sgn, v in ((1, c.numerator), (-1, c.denominator)):
                for p, e in factor_int(v).items():
                    at = reg.atom(("ln", "n", p), data=None, pos=True)
                    out = radd(reg, out, Rat({((at.id, Fr(1)),): Fr(e) * sgn}))
            for a, e in m:
                at = reg.atoms[a]
                if at.kind == "exp":
                    t = Rat({at.key[1]: e}, at.key[2])
                    out = radd(reg, out, t)
                elif at.kind == "pw":
                    la = self.lnpoly(reg.polys[at.data])
                    out = radd(reg, out, rmul(reg, const(e), la))
                elif at.kind == "prime":
                    at2 = reg.atom(("ln", "n", at.data), data=None, pos=True)
                    out = radd(reg, out, Rat({((at2.id, Fr(1)),): e}))
                else:
                    la = self.lnpoly({((a, Fr(1)),): Fr(1)})
                    out = radd(reg, out, rmul(reg, const(e), la))
        if q is not None:
            out = radd(reg, out, self.lnpoly(q))
        for p, k in r.d:
            out = radd(reg, out, rmul(reg, const(k), self.lnpoly(reg.polys[p])), -1)
        return out

    def lnpoly(self, q):
        p = self.reg.poly(q)
        return self.A(self.reg.atom(("ln", p), data=p))

    def neg_lead(self, r):
        """canonical sign: True if r should be negated"""
        if not r.n:
            return False
        m = max(r.n, key=mkey)
        return r.n[m] < 0

    def sign(self, r, cx):
        """+1/-1/0 if known else None"""
        if not r.n:
            return 0
        reg = self.reg
        if isconst(r):
            return 1 if cval(r) > 0 else -1
        for p, k in r.d:
            if k % 2 and not poly_pos(reg, reg.polys[p]):
                break
        else:
            if poly_pos(reg, r.n):
                return 1
            if poly_pos(reg, {m: -c for m, c in r.n.items()}):
                return -1
        v = self.cmp_known(r, "lt", cx)
        if v is True:
            return -1
        v2 = self.cmp_known(rneg(r), "lt", cx)
        if v2 is True:
            return 1
        return None

    def fn(self, name, args, t, cx):
        reg = self.reg
        if name == "pi":
            return self.A(self.ATOM_PI)
        if name == "I":
            return self.A(self.ATOM_I)
        if name in ("min", "max"):
            a, b = args
            r = radd(reg, self.rat(a, cx), self.rat(b, cx), -1)
            if not r.n:
                return self.rat(a, cx)
            if prim(reg, r.n)[0] < 0:
                a, b = b, a     # the same choice whichever way round they are written
            c = cmp("lt", a, b)
            return self.rat(ite(c, a, b) if name == "min" else ite(c, b, a), cx)
        if name == "abs":
            r = self.rat(args[0], cx)
            s = self.sign(r, cx)
            if s is not None:
                return r if s >= 0 else rneg(r)
            return self.rat(ite(cmp("lt", args[0], ZERO), TM.neg(args[0]), args[0]), cx)
        if name == "signum":
            r = self.rat(args[0], cx)
            s = self.sign(r, cx)
            if s in (1, -1):
                return const(s)
            return self.rat(ite(cmp("lt", args[0], ZERO), num(-1), ONE), cx)
        if name == "ceildiv":
            pass
        rs = [self.rat(x, cx) for x in args]
        r = rs[0] if rs else None
        if name == "exp":
            return self.exp(r, cx)
        if name == "ln":
            return self.ln(r)
        if name in ("sin", "cos", "tan"):
            ir = rmul(reg, self.A(self.ATOM_I), r)
            e1, e2 = self.exp(ir), self.exp(rneg(ir))
            s = rdiv(reg, radd(reg, e1, e2, -1), rmul(reg, const(2), self.A(self.ATOM_I)))
            c = rdiv(reg, radd(reg, e1, e2), const(2))
            if name == "sin":
                return s
            if name == "cos":
                return c
            return rdiv(reg, s, c)
        if name in ("sinh", "cosh", "tanh"):
            e1, e2 = self.exp(r), self.exp(rneg(r))
            s = rdiv(reg, radd(reg, e1, e2, -1), const(2))
            c = rdiv(reg, radd(reg, e1, e2), const(2))
            return s if name == "sinh" else c if name == "cosh" else rdiv(reg, s, c)
        if name == "asinh":
            s = self.rpow(radd(reg, rmul(reg, r, r), R1), Fr(1, 2))
            return self.ln(radd(reg, r, s))
        if name == "acosh":
            s = self.rpow(radd(reg, rmul(reg, r, r), R1, -1), Fr(1, 2))
            return self.ln(radd(reg, r, s))
        if name == "atanh":
            return rmul(reg, const(Fr(1, 2)), radd(reg, self.ln(radd(reg, R1, r)), self.ln(radd(reg, R1, r, -1)), -1))
        if name == "acos":
            x = self.fn("asin", args, t, cx)
            return radd(reg, rdiv(reg, self.A(self.ATOM_PI), const(2)), x, -1)
        if name == "cbrt":
            return self.rpow(r, Fr(1, 3))
        if name == "erfc":
            return radd(reg, R1, self.odd("erf", r), -1)
        if name == "erfcx":
            return rmul(reg, self.exp(rmul(reg, r, r)), radd(reg, R1, self.odd("erf", r), -1))
        if name in ("erf", "asin", "atan"):
            if not r.n:
                return R0
            return self.odd(name, r)
        if name == "atan2":
            return self.opq(("fn", name) + tuple(reg.rat(x) for x in rs), t)
        if name == "fract":
            return radd(reg, r, self.A(reg.atom(("fn", "ftrunc", reg.rat(r)), isint=True)), -1)
        if name in ("floor", "ceil", "trunc", "round", "ftrunc"):
            if self.isint(r):
                return r
            if isconst(r):
                c = cval(r)
                import math
                v = {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "ftrunc": math.trunc}.get(name)
                if v:
                    return const(v(c))
            if name in ("trunc", "ftrunc"):
                name = "trunc"
                if self.cmp_known(r, "lt", cx) is False:
                    name = "floor"
            if name in ("floor", "ceil"):
                P, rest = self.int_part(r)
                if P.n:
                    return radd(reg, P, self.fn_floor(name, rest, t, cx))
                return self.fn_floor(name, r, t, cx)
            return self.opq(("fn", name, reg.rat(r)), t, isint=True)
        if name in ("idiv", "irem", "rem_euclid", "div_euclid"):
            if isconst(rs[1]) and cval(rs[1]) == 1:
                return r if name in ("idiv", "div_euclid") else R0
            if isconst(rs[0]) and isconst(rs[1]) and cval(rs[1]) != 0:
                x = (self.int_fn)(name, cval(rs[0]), cval(rs[1]))
                return const(x)
            if isconst(rs[1]) and cval(rs[1]) > 0 and self.isint(r):
                d = cval(rs[1])
                P, rest = self.int_part(rmul(reg, r, const(1 / d)))
                if isconst(rest) and (name.endswith("euclid") or not rest.n or self.cmp_known(r, "lt", cx) is False):
                    k = cval(rest) // 1 if rest.n else Fr(0)
                    q = radd(reg, P, const(k))
                    return q if name in ("idiv", "div_euclid") else radd(reg, r, rmul(reg, rs[1], q), -1)
            if name == "irem":
                q = self.opq(("fn", "idiv") + tuple(reg.rat(x) for x in rs), t, isint=True)
                return radd(reg, r, rmul(reg, rs[1], q), -1)
            return self.opq(("fn", name) + tuple(reg.rat(x) for x in rs), t, isint=True)
        if name in ("jdn", "date_year", "date_day", "date_ordinal"):
            k = self.canon(args[0], cx)
            return self.opq(("fn", name, k), t, isint=True)
        if name == "gamma" and len(rs) == 1:
            return self.opq(("fn", "gamma", reg.rat(rs[0])), t, pos=True)
        if name in ("gamma_li", "gamma_ui") and len(rs) == 2:
            li = self.opq(("fn", "gamma_li", reg.rat(rs[0]), reg.rat(rs[1])), t) if not (isconst(rs[1]) and cval(rs[1]) == 0) else R0
            if name == "gamma_li":
                return li
            g = self.opq(("fn", "gamma", reg.rat(rs[0])), t, pos=True)
            return radd(reg, g, li, -1)
        if name in ("gamma_lr", "gamma_ur") and len(rs) == 2:
            li = self.opq(("fn", "gamma_li", reg.rat(rs[0]), reg.rat(rs[1])), t) if not (isconst(rs[1]) and cval(rs[1]) == 0) else R0
            g = self.opq(("fn", "gamma", reg.rat(rs[0])), t, pos=True)
            x = rdiv(reg, li, g)
            return x if name == "gamma_lr" else radd(reg, R1, x, -1)
        return self.opq(("fn", name) + tuple(self.canon(x, cx) for x in args), t)

    def int_part(self, r):
        """r = P + rest with P an integer-valued polynomial without constant term"""
        if r.d:
            return R0, r
        P, rest = {}, {}
        for m, c in r.n.items():
            whole = m and all(self.reg.atoms[a].int and e > 0 and e.denominator == 1 for a, e in m)
            k = Fr(c // 1) if whole else Fr(0)
            if k:
                P[m] = k
            if c != k:
                rest[m] = c - k
        return Rat(P), Rat(rest)

    def fn_floor(self, name, r, t, cx):
        import math
        reg = self.reg
        if isconst(r):
            return const({"floor": math.floor, "ceil": math.ceil}[name](cval(r) if r.n else 0))
        fl = self.opq(("fn", "floor", reg.rat(r)), t, isint=True)
        if name == "floor":
            return fl
        up = self.cmp_known(radd(reg, fl, r, -1), "lt", cx)
        if up is not None:
            return radd(reg, fl, R1) if up else fl
        return self.opq(("fn", "ceil", reg.rat(r)), t, isint=True)

    def int_fn(self, name, a, b):
        q = abs(a) // abs(b)
        q = q if (a >= 0) == (b > 0) else -q
        if name == "idiv":
            return q
        if name == "irem":
            return a - q * b
        m = a % abs(b)
        return m if name == "rem_euclid" else (a - m) / b

    def odd(self, name, r):
        reg = self.reg
        if self.neg_lead(r):
            return rneg(self.odd(name, rneg(r)))
        return self.A(reg.atom(("fn", name, reg.rat(r)), pos=False))

    def isint(self, r):
        if r.d:
            return False
        return all(c.denominator == 1 and all(self.reg.atoms[a].int and e > 0 and e.denominator == 1 for a, e in m)
                   for m, c in r.n.items())

    # ---------------------------------------------------------------- sums
    def open(self, l):
        """open a lambda with its canonical bound variable"""
        b = mk("bvc", self.bvlevel(l))
        return b, subst(l.a[1], {mk("bv", l.a[0]): b})

    def bvlevel(self, t):
        """1 + the highest opened binder t depends on (0 for a closed term)"""
        memo = self.__dict__.setdefault("_bl", {})
        r = memo.get(t)
        if r is None:
            r = t.a[0] + 1 if t.op == "bvc" else max([self.bvlevel(x) for x in t.a if isinstance(x, T)], default=0)
            memo[t] = r
        return r

    def enter(self, cx, bv):
        """context for the body of a binder: facts about an outer use of the
        same canonical bound variable do not apply"""
        c2 = cx.copy()
        c2.memo = {}
        bat = self.reg.atom(("v", (bv.op,) + bv.a), isint=True, term=bv, bound=True).id
        c2.iv = {k: v for k, v in c2.iv.items() if not self.poly_dep(k, bat)}
        c2.eqs = {a: r for a, r in c2.eqs.items()
                  if not self.dep_atom(a, bat) and not any(self.dep_atom(x, bat) for m in r.n for x, e in m)}
        c2.bools = {k: v for k, v in c2.bools.items() if not self.mentions_bv(k, bv)}
        return c2, bat

    def mentions_bv(self, k, bv):
        if isinstance(k, T):
            return mentions(k, {bv})
        if isinstance(k, (tuple, frozenset)):
            return tuple(k) == (bv.op,) + bv.a or any(self.mentions_bv(x, bv) for x in k)
        return False

    def sum(self, t, cx):
        reg = self.reg
        n, l = t.a
        nr = self.rat(n, cx)
        k = nr.n.get((), 0)
        if 1 <= k <= 4 and len(nr.n) > 1 and k.denominator == 1 and self.isint(nr) \
                and self.cmp_known(radd(reg, nr, const(k), -1), "lt", cx) is False:
            low = add(n, num(-k))
            out = self.sum(mk("SUM", low, l), cx)
            for j in range(int(k)):
                out = radd(reg, out, self.rat(TM.apply(l, add(low, num(j))), cx))
            return out
        bv, body = self.open(l)
        c2, bat = self.enter(cx, bv)
        self.range_facts(c2, bv, n)
        nk = reg.rat(nr)
        r = self.rat(body, c2)
        dep = lambda a: self.dep_atom(a, bat)
        dfree = tuple((p, k) for p, k in r.d if not any(dep(a) for m in reg.polys[p] for a, e in m))
        ddep = tuple((p, k) for p, k in r.d if (p, k) not in dfree)
        groups = {}
        for m, c in r.n.items():
            mf = tuple((a, e) for a, e in m if not dep(a))
            md = tuple((a, e) for a, e in m if dep(a))
            groups.setdefault(md, {})
            g = groups[md]
            g[mf] = g.get(mf, 0) + c
        out = R0
        items = sorted(groups.items())
        if ddep:
            # keep the dependent part of the numerator together, normalised up to
            # an independent factor when there is only one group
            if len(items) == 1:
                md, g = items[0]
                s = self.A(reg.atom(("S", nk, md, ddep), term=t, bound=self.has_bvc(t)))
                out = rmul(reg, Rat(g), s)
            else:
                for md, g in items:
                    s = self.A(reg.atom(("S", nk, md, ddep), term=t, bound=self.has_bvc(t)))
                    out = radd(reg, out, rmul(reg, Rat(g), s))
        else:
            for md, g in items:
                if not md:
                    s = nr
                elif md == ((bat, Fr(1)),):
                    s = rmul(reg, const(Fr(1, 2)), rmul(reg, nr, radd(reg, nr, R1, -1)))
                else:
                    s = self.A(reg.atom(("S", nk, md, ()), term=t, bound=self.has_bvc(t)))
                out = radd(reg, out, rmul(reg, Rat(g), s))
        if dfree:
            out = rmul(reg, out, self.dinv(dfree))
        return out

    def dinv(self, d):
        return Rat({(): Fr(1)}, d)

    def dep_atom(self, a, bat):
        memo = self.__dict__.setdefault("_dep", {})
        k = (a, bat)
        r = memo.get(k)
        if r is not None:
            return r
        memo[k] = False
        r = a == bat or self.key_dep(self.reg.atoms[a], bat)
        memo[k] = r
        return r

    def key_dep(self, at, bat):
        reg = self.reg
        k = at.kind
        if k in ("I", "pi", "prime"):
            return False
        if k == "exp":
            return any(self.dep_atom(a, bat) for a, e in at.key[1]) or any(
                self.poly_dep(p, bat) for p, _ in at.key[2])
        if k in ("ln", "pw"):
            return at.data is not None and self.poly_dep(at.data, bat)
        if k == "absv":
            return self.rat_dep(at.data, bat)
        if at.term is not None:
            bt = reg.atoms[bat].term
            return bt is not None and mentions(at.term, {bt})
        # function atoms keyed by rat ids
        for x in at.key[1:]:
            if isinstance(x, int) and k in ("fn",) and x < len(reg.rats):
                if self.rat_dep(x, bat):
                    return True
        return False

    def poly_dep(self, p, bat):
        return any(self.dep_atom(a, bat) for m in self.reg.polys[p] for a, e in m)

    def rat_dep(self, i, bat):
        r = self.reg.rats[i]
        return any(self.dep_atom(a, bat) for m in r.n for a, e in m) or any(self.poly_dep(p, bat) for p, _ in r.d)

    def range_facts(self, cx, bv, n):
        """0 <= bv < n"""
        try:
            self.assume(cx, cmp("le", ZERO, bv), True)
            if n.op != "const":
                self.assume(cx, cmp("lt", bv, n), True)
        except NeedSplit:
            raise
        cx.memo = {}

    # ---------------------------------------------------------- conditions
    def canon_cond(self, op, a, b, cx):
        """comparison a op b with op in lt/le/eq -> (formkey, op, const, flip) or
        bool.  formkey identifies the constant-free primitive linear part."""
        reg = self.reg
        r = radd(reg, self.rat(a, cx), self.rat(b, cx), -1)   # r op 0
        return self.canon_rel(r, op)

    def canon_rel(self, r, op):
        reg = self.reg
        if isconst(r):
            c = cval(r)
            return {"lt": c < 0, "le": c <= 0, "eq": c == 0}[op]
        n = Rat(r.n)
        sgn = 1
        for p, k in r.d:
            if op == "eq" or k % 2 == 0 or poly_pos(reg, reg.polys[p]):
                continue
            if poly_pos(reg, {m: -c for m, c in reg.polys[p].items()}):
                sgn = -sgn
                continue
            n = rmul(reg, n, Rat(reg.polys[p]))
        n = n.n
        c, m, q = prim(reg, n) if len(n) > 1 else (list(n.values())[0], list(n)[0], {(): Fr(1)})
        keep = tuple((a, e) for a, e in m if not reg.atoms[a].pos or (reg.atoms[a].term is not None and reg.atoms[a].term.op == "len" and e > 0))
        if op == "eq":
            pass
        # odd powers reduce to first power, even powers are kept squared
        keep2 = []
        for a, e in keep:
            if e.denominator == 1:
                keep2.append((a, Fr(1) if e.numerator % 2 else Fr(2)))
            else:
                keep2.append((a, e))
        keep = tuple(keep2)
        # drop only strictly positive factors
        p = {mmul(mm, keep): cc for mm, cc in q.items()}
        if c < 0:
            sgn = -sgn
        if op == "eq":
            sgn = 1
        # constants: primes with fractional exponents only -> positive
        const_ = p.pop((), Fr(0))
        if not p:
            v = const_ * sgn
            return {"lt": v < 0, "le": v <= 0, "eq": v == 0}[op]
        lead = p[max(p, key=mkey)]
        p = {mm: cc / lead for mm, cc in p.items()}
        const_ /= lead
        if lead < 0:
            sgn = -sgn
        key = reg.poly(p)
        # sgn*(p + const_) op 0
        if op == "eq":
            return (key, "eq", -const_)
        if sgn > 0:
            return (key, op, -const_)            # p op -const
        return (key, {"lt": "gt", "le": "ge"}[op], -const_)

    def form_int(self, key):
        p = self.reg.polys[key]
        return all(c.denominator == 1 and all(self.reg.atoms[a].int and e > 0 and e.denominator == 1 for a, e in m)
                   for m, c in p.items())

    def base_iv(self, key):
        p = self.reg.polys[key]
        lo = (None, False)
        if poly_pos(self.reg, p):
            strict = all(self.reg.atoms[a].pos and self.reg.atoms[a].term is not None and self.reg.atoms[a].term.op != "len"
                         or self.reg.atoms[a].kind in ("exp", "pi", "prime") for m in p for a, e in m)
            return (Fr(0), strict, None, False, frozenset())
        if len(p) == 1:
            (m, c), = p.items()
            if all(e.denominator == 1 and e.numerator % 2 == 0 for a, e in m):
                return (Fr(0), False, None, False, frozenset())
            if len(m) == 1 and m[0][1] == 1:
                at = self.reg.atoms[m[0][0]]
                if at.term is not None and at.term.op == "discr" and at.term.a[1]:
                    return (Fr(0), False, Fr(at.term.a[1] - 1), False, frozenset())
                if at.kind == "absv":
                    return (Fr(0), False, None, False, frozenset())
        return (None, False, None, False, frozenset())

    def iv(self, key, cx):
        r = cx.iv.get(key)
        return r if r is not None else self.base_iv(key)

    def test(self, cond, cx):
        if cond is True or cond is False:
            return cond
        key, op, t = cond
        lo, los, hi, his, ex = self.iv(key, cx)
        if op in ("gt", "ge"):
            v = self._test("le" if op == "gt" else "lt", t, lo, los, hi, his, ex)
            return None if v is None else not v
        return self._test(op, t, lo, los, hi, his, ex)

    def _test(self, op, t, lo, los, hi, his, ex):
        if op == "eq":
            if t in ex:
                return False
            if lo is not None and (t < lo or (t == lo and los)):
                return False
            if hi is not None and (t > hi or (t == hi and his)):
                return False
            if lo is not None and lo == hi:
                return True
            return None
        if op == "lt":
            if hi is not None and (hi < t or (hi == t and his)):
                return True
            if lo is not None and lo >= t:
                return False
            return None
        if hi is not None and hi <= t:
            return True
        if lo is not None and (lo > t or (lo == t and los)):
            return False
        return None

    def cmp_known(self, r, op, cx):
        return self.test(self.canon_rel(r, op), cx)

    def assume_cond(self, cx, cond, val):
        """returns False if infeasible"""
        if cond is True or cond is False:
            return cond == val
        key, op, t = cond
        lo, los, hi, his, ex = self.iv(key, cx)
        if not val:
            if op == "eq":
                ex = ex | {t}
                op = None
            else:
                op = {"lt": "ge", "le": "gt", "gt": "le", "ge": "lt"}[op]
        if op == "eq":
            if self._test("eq", t, lo, los, hi, his, ex) is False:
                return False
            lo = hi = t
            los = his = False
        elif op in ("lt", "le"):
            if hi is None or t < hi or (t == hi and op == "lt"):
                hi, his = t, op == "lt"
        elif op in ("gt", "ge"):
            if lo is None or t > lo or (t == lo and op == "gt"):
                lo, los = t, op == "gt"
        if self.form_int(key):
            import math
            if lo is not None:
                l2 = Fr(math.ceil(lo))
                if los and l2 == lo:
                    l2 += 1
                lo, los = l2, False
            if hi is not None:
                h2 = Fr(math.floor(hi))
                if his and h2 == hi:
                    h2 -= 1
                hi, his = h2, False
            while lo is not None and lo in ex and (hi is None or lo <= hi):
                lo += 1
            while hi is not None and hi in ex and (lo is None or lo <= hi):
                hi -= 1
        else:
            if lo is not None and lo in ex and not los:
                los = True
            if hi is not None and hi in ex and not his:
                his = True
        if lo is not None and hi is not None and (lo > hi or (lo == hi and (los or his))):
            return False
        cx.iv[key] = (lo, los, hi, his, ex)
        if lo is not None and lo == hi:
            self.add_eq(cx, key, lo)
        cx.memo = {}
        return True

    def add_eq(self, cx, key, v):
        """p == v : solve for an atom occurring linearly"""
        reg = self.reg
        p = reg.polys[key]
        for m in sorted(p, key=mkey, reverse=True):
            if len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                at = reg.atoms[a]
                if at.kind != "v" or at.term is None or at.term.op == "bvc":
                    continue
                if any(x == a for mm in p if mm != m for x, e in mm):
                    continue
                rest = Rat({mm: -c / p[m] for mm, c in p.items() if mm != m})
                rest = radd(reg, rest, const(v / p[m]))
                # do not create cycles
                if any(x in cx.eqs for mm in rest.n for x, e in mm):
                    continue
                if any(self.mentions_atom(x, a) for mm in rest.n for x, e in mm):
                    continue
                cx.eqs = {x: self.subst_atom(r, a, rest) for x, r in cx.eqs.items()}
                cx.eqs[a] = rest
                cx.memo = {}
                return

    def zero_mod(self, ra, rb, cx):
        """ra == rb modulo the polynomial equations pinned on this leaf"""
        qs = []
        for key, (lo, los, hi, his, ex) in cx.iv.items():
            if lo is not None and lo == hi:
                q = dict(self.reg.polys[key])
                q[()] = q.get((), Fr(0)) - lo
                qs.append({m: c for m, c in q.items() if c})
        if not qs:
            return False
        n = radd(self.reg, ra, rneg(rb)).n
        for q in qs:
            lead = max(q, key=mkey)
            ld = dict(lead)
            for _ in range(40):
                hit = None
                for m in n:
                    dm = dict(m)
                    if lead and any(a in dm for a, e in lead) and all(
                            self.reg.atoms[a].pos or (dm.get(a, 0) >= e if e > 0 else dm.get(a, 0) <= e) for a, e in lead):
                        hit = m
                        break
                if hit is None:
                    break
                c = n[hit] / q[lead]
                f = {}
                for a, e in hit:
                    f[a] = e
                for a, e in lead:
                    f[a] = f.get(a, Fr(0)) - e
                mono = Rat({tuple(sorted((a, e) for a, e in f.items() if e)): c})
                n = radd(self.reg, Rat(n), rneg(rmul(self.reg, mono, Rat(q)))).n
            if not n:
                return True
        return not n

    def subst_atom(self, r, a, v):
        """r with atom a replaced by v (numerator occurrences of natural power)"""
        reg = self.reg
        if r.d or not any(x == a for m in r.n for x, e in m):
            return r
        out = Rat({})
        for m, c in r.n.items():
            k = dict(m).get(a, Fr(0))
            if k.denominator != 1 or k < 0:
                return r
            t = Rat({tuple(y for y in m if y[0] != a): c})
            if k:
                t = rmul(reg, t, rpow_int(reg, v, int(k)))
            out = radd(reg, out, t)
        return out

    def mentions_atom(self, x, a):
        t, u = self.reg.atoms[x].term, self.reg.atoms[a].term
        return t is not None and u is not None and mentions(t, {u})

    def decide(self, c, cx):
        """truth of a boolean term under cx: True/False, or (condkey, flip) if it
        concerns a bound variable; raises NeedSplit otherwise"""
        o, a = c.op, c.a
        if o == "bool":
            return a[0]
        if o == "not":
            r = self.decide(a[0], cx)
            if r is True or r is False:
                return not r
            return (r[0], not r[1])
        if o == "and" or o == "or":
            x = self.decide(a[0], cx)
            if x is (o == "or"):
                return x
            if x is (o == "and"):
                return self.decide(a[1], cx)
            y = self.decide(a[1], cx)
            if y is (o == "or"):
                return y
            if y is (o == "and"):
                return x
            return ((o, frozenset((x, y))), False)
        if o == "ite":
            x = self.decide(a[0], cx)
            if x is True:
                return self.decide(a[1], cx)
            if x is False:
                return self.decide(a[2], cx)
            return (("itec", x, self.decide(a[1], cx), self.decide(a[2], cx)), False)
        if o == "cmp" and a[0] in ("lt", "le", "eq"):
            if a[0] == "eq" and (nonscalar(a[1]) or nonscalar(a[2])):
                return self.decide_opaque(c, cx)
            cond = self.canon_cond(a[0], a[1], a[2], cx)
            v = self.test(cond, cx)
            if v is not None:
                return v
            if self.cond_bound(cond):
                key, op, t = cond
                flip = False
                if op == "gt":
                    op, flip = "le", True
                elif op == "ge":
                    op, flip = "lt", True
                return (("c", key, op, t), flip)
            raise NeedSplit(cond)
        return self.decide_opaque(c, cx)

    def decide_opaque(self, c, cx):
        key = self.canon_op(c, cx)
        if key[0] == "r":
            # opaque boolean equal to a registered rational: treat by atom
            key = ("b",) + key
        v = cx.bools.get(key)
        if v is not None:
            return v
        if self.has_bvc(c):
            return (("ob", key), False)
        raise NeedSplit(("bool", key, c))

    def cond_bound(self, cond):
        p = self.reg.polys[cond[0]]
        return any(self.atom_bound(a) for m in p for a, e in m)

    def atom_bound(self, a):
        memo = self.__dict__.setdefault("_ab", {})
        r = memo.get(a)
        if r is not None:
            return r
        at = self.reg.atoms[a]
        memo[a] = at.bound
        if at.bound:
            return True
        k = at.kind
        reg = self.reg
        r = False
        if k == "exp":
            r = any(self.atom_bound(x) for x, e in at.key[1]) or any(self.atom_bound(x) for p, _ in at.key[2] for m in reg.polys[p] for x, e in m)
        elif k in ("ln", "pw") and at.data is not None:
            r = any(self.atom_bound(x) for m in reg.polys[at.data] for x, e in m)
        elif k == "absv" or (k == "fn" and at.term is None):
            ids = [at.data] if k == "absv" else [x for x in at.key[2:] if isinstance(x, int)]
            for i in ids:
                q = reg.rats[i]
                r = r or any(self.atom_bound(x) for m in q.n for x, e in m)
        memo[a] = r
        return r

    def assume(self, cx, c, val):
        """add a boolean term as a fact; False if infeasible"""
        o, a = c.op, c.a
        if o == "bool":
            return a[0] == val
        if o == "not":
            return self.assume(cx, a[0], not val)
        if o == "and" and val or o == "or" and not val:
            return self.assume(cx, a[0], val) and self.assume(cx, a[1], val)
        if o == "cmp" and a[0] in ("lt", "le", "eq") and not (a[0] == "eq" and (nonscalar(a[1]) or nonscalar(a[2]))):
            return self.assume_cond(cx, self.canon_cond(a[0], a[1], a[2], cx), val)
        if o in ("and", "or", "ite"):
            return True
        key = self.canon_op(c, cx)
        if key[0] == "r":
            key = ("b",) + key
        if cx.bools.get(key, val) != val:
            return False
        cx.bools[key] = val
        cx.memo = {}
        return True

    def assume_key(self, cx, ck, val):
        if ck[0] == "c":
            self.assume_cond(cx, (ck[1], ck[2], ck[3]), val)
        elif ck[0] == "ob":
            cx.bools[ck[1]] = val
            cx.memo = {}

    # ---------------------------------------------------- canonical values
    def canon(self, t, cx):
        """hashable canonical form of any term"""
        k = ("k", t)
        r = cx.memo.get(k)
        if r is None:
            r = self._canon(t, cx)
            cx.memo[k] = r
        return r

    def _canon(self, t, cx):
        o, a = t.op, t.a
        if o in ("agg",):
            return ("agg", a[0], a[1]) + tuple(self.canon(x, cx) for x in a[2:])
        if o in ("str", "char", "const", "undef", "fnval", "emptymap"):
            return (o,) + a
        if o in ("bool", "cmp", "and", "or", "not", "exists"):
            d = self.decide(t, cx)
            if d is True or d is False:
                return ("bool", d)
            return ("cond",) + d
        if o == "ite":
            c = self.decide(a[0], cx)
            if c is True:
                return self.canon(a[1], cx)
            if c is False:
                return self.canon(a[2], cx)
            if not nonscalar(a[1]) and not nonscalar(a[2]):
                r = self.rat(t, cx)
                return ("r", self.reg.rat(r))
            ck, flip = c
            x, y = a[1], a[2]
            if flip:
                x, y = y, x
            c1 = cx.copy(); self.assume_key(c1, ck, True)
            c2 = cx.copy(); self.assume_key(c2, ck, False)
            kx, ky = self.canon(x, c1), self.canon(y, c2)
            return kx if kx == ky else ("pieceK", ck, kx, ky)
        if o == "seq" and a[0] is ZERO:
            return ("seq0",)
        if o == "seq" and isnum(a[0]) and 0 < a[0].a[0] <= 8:
            return ("agg", "array", 0) + tuple(self.canon(proj_index(t, num(k)), cx) for k in range(int(a[0].a[0])))
        if o in ("seq",):
            n = self.canon(a[0], cx)
            bv, body = self.open(a[1])
            c2, _ = self.enter(cx, bv)
            self.range_facts(c2, bv, a[0])
            b = self.canon(body, c2)
            # eta: [v[j] : j < len v]
            return ("seq", n, b)
        if o == "lam":
            bv, body = self.open(t)
            c2, _ = self.enter(cx, bv)
            return ("lam", self.canon(body, c2))
        if o in ("num", "add", "sub", "mul", "div", "neg", "pow", "fn", "SUM", "discr"):
            return ("r", self.reg.rat(self.rat(t, cx)))
        r = self.rat(t, cx)
        return ("r", self.reg.rat(r))

    def canon_op(self, t, cx):
        """key of an opaque operator application"""
        o, a = t.op, t.a
        if o in ("var", "fresh", "bvc", "bv"):
            return (o,) + a
        if o == "idx":
            return (o,) + tuple(self.canon(x, cx) for x in a)
        if o in ("vpush", "concat", "withidx") and isnum(length(t)) and length(t).a[0] <= 40:
            return ("agg", "array", 0) + tuple(self.canon(proj_index(t, num(k)), cx) for k in range(int(length(t).a[0])))
        return (o,) + tuple(self.canon(x, cx) if isinstance(x, T) else x for x in a)


NONSC = ("agg", "str", "char", "seq", "bool", "and", "or", "not", "cmp", "vpush", "concat", "withidx", "sorted",
         "fnval", "exists", "iter", "lam", "mapset", "mapdel", "emptymap", "vinsert", "vpop")


def nonscalar(t):
    if t.op == "ite":
        return nonscalar(t.a[1]) or nonscalar(t.a[2])
    return t.op in NONSC


# ------------------------------------------------------------- comparison
class Leaf:
    def __init__(self, cx, a, b, why):
        self.cx, self.a, self.b, self.why = cx, a, b, why


class Verdict:
    def __init__(self, kind, leaf=None, leaves=0, note=""):
        self.kind = kind            # equal / diff / unknown
        self.leaf = leaf
        self.leaves = leaves
        self.note = note

    def __bool__(self):
        return self.kind == "equal"


class Budget(Exception):
    pass


def infeasible(nm, cx, cap=160):
    """the linear bounds collected on this path contradict each other
    (elimination of variables; monomials count as independent variables)"""
    rows = set()
    for key, (lo, los, hi, his, ex) in cx.iv.items():
        p = nm.reg.polys[key]
        if len(p) > 8:
            continue
        if lo is not None:
            rows.add(_row({m: c for m, c in p.items()}, -lo, los))
        if hi is not None:
            rows.add(_row({m: -c for m, c in p.items()}, hi, his))
    while True:
        live = []
        for co, k, s in rows:
            if co:
                live.append((co, k, s))
            elif k < 0 or (k == 0 and s):
                return True
        if not live or len(live) > cap:
            return False
        occ = {}
        for co, k, s in live:
            for m, c in co:
                o = occ.setdefault(m, [0, 0])
                o[c > 0] += 1
        m = min(occ, key=lambda x: (occ[x][0] * occ[x][1], mkey(x)))
        rows = set()
        up, dn = [], []
        for r in live:
            c = dict(r[0]).get(m)
            (rows.add(r) if c is None else up.append((r, c)) if c > 0 else dn.append((r, c)))
        for r, c in up:
            for q, d in dn:
                co = {}
                for x, w in r[0]:
                    co[x] = co.get(x, 0) + w / c
                for x, w in q[0]:
                    co[x] = co.get(x, 0) - w / d
                rows.add(_row(co, r[1] / c - q[1] / d, r[2] or q[2]))


def _row(co, k, strict):
    """sum co.m + k >= 0 (or > 0), scaled"""
    k += co.pop((), 0)
    co = {m: c for m, c in co.items() if c}
    if not co:
        return ((), k, strict)
    f = abs(co[min(co, key=mkey)])
    return (tuple(sorted(((m, c / f) for m, c in co.items()), key=lambda x: mkey(x[0]))), k / f, strict)


def disjunctive(c, val=True):
    if c.op == "not":
        return disjunctive(c.a[0], not val)
    if c.op in ("and", "or"):
        return (c.op == "or") == val or disjunctive(c.a[0], val) or disjunctive(c.a[1], val)
    return c.op == "ite"


def compare(a, b, assume=(), pos=None, ints=None, maxleaves=3000, witness=True, sampler=None):
    """decide a == b under the assumptions (list of boolean terms)"""
    import evalt
    nm = Normal(pos, ints)
    if witness:
        w = evalt.witness(nm, a, b, [], assume, pos, ints, sampler, tries=3, limit=3)
        if w is not None:
            return Verdict("diff", w, 1)
    cx = Ctx()
    n = [0]
    global DEADLINE
    diffs = []
    unk = []

    def split(cx, f, c):
        for val in (True, False):
            c2 = cx.copy()
            if c[0] == "bool":
                c2.bools[c[1]] = val
                c2.path = c2.path + ((c[2], val),)
                okk = True
            else:
                okk = nm.assume_cond(c2, c, val)
                c2.path = c2.path + ((c, val),)
            if okk:
                f(c2)

    FALSEK = nm.canon(FALSE, Ctx())
    later = [c for c in assume if isinstance(c, T) and disjunctive(c)]
    t_end = DEADLINE = time.time() + float(os.environ.get("RQ_EQ_S", "60"))

    def leaf(cx):
        n[0] += 1
        if n[0] > maxleaves or time.time() > t_end:
            raise Budget()
        try:
            ka, kb = nm.canon(a, cx), nm.canon(b, cx)
        except NeedSplit as s:
            n[0] -= 1
            if len(cx.path) > 60:
                unk.append("split depth")
                return
            split(cx, leaf, s.c)
            return
        except (TooBig, ZeroDivisionError) as e:
            unk.append(type(e).__name__)
            # fall through to the witness
            diffs.append(cx)
            return
        if ka != kb and not (ka[0] == "r" and kb[0] == "r" and nm.zero_mod(nm.reg.rats[ka[1]], nm.reg.rats[kb[1]], cx)):
            # disjunctive assumptions are decided only where they matter
            try:
                for c in later:
                    if nm.canon(c, cx) == FALSEK:
                        return
            except NeedSplit as s:
                n[0] -= 1
                if len(cx.path) > 60:
                    unk.append("split depth")
                    return
                split(cx, leaf, s.c)
                return
            except (TooBig, ZeroDivisionError):
                pass
            if not infeasible(nm, cx):
                diffs.append(cx)

    def start(cx, todo):
        if not todo:
            leaf(cx)
            return
        try:
            f = nm.assume(cx, todo[0], True)
        except NeedSplit as s:
            split(cx, lambda c: start(c, todo), s.c)
            return
        if f:
            start(cx, todo[1:])

    try:
        start(cx, list(assume))
    except Budget:
        unk.append("leaf budget")
    if not diffs and not unk:
        return Verdict("equal", leaves=n[0])
    if not witness:
        return Verdict("diff" if diffs else "unknown", leaves=n[0])
    w = evalt.witness(nm, a, b, diffs, assume, pos, ints, sampler)
    if w is not None:
        return Verdict("diff", w, n[0])
    return Verdict("unknown", None, n[0], "; ".join(sorted(set(unk))) or "normal forms differ without a confirming valuation")


# ---------------------------------------------------------- differentiation
class NotDiff(Exception):
    pass


def diff(t, x):
    memo = {}

    def D(t):
        r = memo.get(t)
        if r is None:
            r = _d(t)
            memo[t] = r
        return r

    def _d(t):
        if t is x:
            return ONE
        if not mentions(t, {x}):
            return ZERO
        o, a = t.op, t.a
        if o == "add":
            return add(D(a[0]), D(a[1]))
        if o == "sub":
            return sub(D(a[0]), D(a[1]))
        if o == "neg":
            return TM.neg(D(a[0]))
        if o == "mul":
            return add(mul0(D(a[0]), a[1]), mul0(a[0], D(a[1])))
        if o == "div":
            return sub(div(D(a[0]), a[1]), div(mul0(a[0], D(a[1])), mul(a[1], a[1])))
        if o == "pow":
            b, e = a
            if not mentions(e, {x}):
                return mul0(mul(e, powt(b, sub(e, ONE))), D(b))
            return mul(t, add(mul0(D(e), ln(b)), div(mul0(e, D(b)), b)))
        if o == "ite":
            if mentions(a[0], {x}) and False:
                raise NotDiff()
            return ite(a[0], D(a[1]), D(a[2]))
        if o == "SUM":
            n, l = a
            if mentions(n, {x}):
                raise NotDiff("sum bound")
            j = fresh("j")
            return mk("SUM", n, lam(D(TM.apply(l, j)), j))
        if o == "fn":
            return dfn(a[0], a[1:], t)
        raise NotDiff(o)

    def dfn(name, args, t):
        u = args[0]
        if name in ("gamma_li", "gamma_ui", "gamma_lr", "gamma_ur") and not mentions(args[0], {x}):
            s, z = args
            v = mul(powt(z, sub(s, ONE)), exp(TM.neg(z)))
            if name.endswith("r"):
                v = div(v, fn("gamma", s))
            if name in ("gamma_ui", "gamma_ur"):
                v = TM.neg(v)
            return mul(v, D(z))
        if name == "beta_reg" and not mentions(args[0], {x}) and not mentions(args[1], {x}):
            p, q, z = args
            v = div(mul(powt(z, sub(p, ONE)), powt(sub(ONE, z), sub(q, ONE))), fn("beta", p, q))
            return mul(v, D(z))
        if len(args) == 2 and name in ("min", "max"):
            c = cmp("lt", args[0], args[1])
            p, q = D(args[0]), D(args[1])
            return ite(c, p, q) if name == "min" else ite(c, q, p)
        if len(args) != 1:
            raise NotDiff(name)
        du = D(u)
        one_m = sub(ONE, mul(u, u))
        tab = {
            "exp": lambda: t, "ln": lambda: div(ONE, u), "sin": lambda: fn("cos", u),
            "cos": lambda: TM.neg(fn("sin", u)),
            "tan": lambda: div(ONE, mul(fn("cos", u), fn("cos", u))),
            "asin": lambda: div(ONE, sqrt(one_m)), "acos": lambda: div(num(-1), sqrt(one_m)),
            "atan": lambda: div(ONE, add(ONE, mul(u, u))),
            "sinh": lambda: fn("cosh", u), "cosh": lambda: fn("sinh", u),
            "tanh": lambda: div(ONE, mul(fn("cosh", u), fn("cosh", u))),
            "asinh": lambda: div(ONE, sqrt(add(mul(u, u), ONE))),
            "acosh": lambda: div(ONE, sqrt(sub(mul(u, u), ONE))),
            "atanh": lambda: div(ONE, one_m),
            "erf": lambda: mul(div(TWO, sqrt(fn("pi"))), exp(TM.neg(mul(u, u)))),
            "erfc": lambda: TM.neg(mul(div(TWO, sqrt(fn("pi"))), exp(TM.neg(mul(u, u))))),
            "abs": lambda: fn("signum", u),
            "cbrt": lambda: div(t, mul(num(3), u)),
            "signum": lambda: ZERO, "floor": lambda: ZERO, "ceil": lambda: ZERO, "round": lambda: ZERO,
            "trunc": lambda: ZERO, "ftrunc": lambda: ZERO, "fract": lambda: ONE,
        }
        if name not in tab:
            raise NotDiff(name)
        return mul0(tab[name](), du)

    def mul0(a, b):
        if a is ZERO or b is ZERO:
            return ZERO
        return mul(a, b)
    return D(t)
