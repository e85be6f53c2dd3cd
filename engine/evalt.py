"""Evaluation of value-number *terms* (not of the program) at a valuation of
their free symbols, used only to confirm that two differing normal forms denote
different functions, i.e. to suppress reports caused by an incomplete normal
form.  Uninterpreted applications are interpreted by a hash function."""
import os, time
import hashlib, random, datetime
from fractions import Fraction as Fr
from term import *
import mpmath as mp

mp.mp.dps = 30


def saturating(f, x):
    """1 - f(x) would cancel altogether, at any precision in use"""
    if abs(x) > 1.2 * mp.mp.dps ** 0.5 and not isinstance(x, mp.mpc):
        raise Bad
    return f(x)



def incomplete(f, a, x, *args, **kw):
    """an incomplete gamma or beta function, where it is one"""
    if isinstance(a, mp.mpc) or isinstance(x, mp.mpc) or a <= 0 or x < 0 or a > 1e4 or x > 1e6 or f is mp.betainc and x > 1:
        raise Bad
    return f(*args, **kw)


class Undef(Exception):
    pass


class Bad(Exception):
    """the valuation is outside the domain"""


class NaN(Bad):
    """an elementary function of the reals outside its domain: not a number"""


FNS = {
    "exp": mp.exp, "ln": mp.log, "sin": mp.sin, "cos": mp.cos, "tan": mp.tan, "asin": mp.asin, "acos": mp.acos,
    "atan": mp.atan, "sinh": mp.sinh, "cosh": mp.cosh, "tanh": lambda x: saturating(mp.tanh, x), "asinh": mp.asinh, "acosh": mp.acosh,
    "atanh": mp.atanh, "erf": lambda x: saturating(mp.erf, x), "erfc": mp.erfc, "abs": abs, "gamma": mp.gamma, "floor": mp.floor,
    "ceil": mp.ceil, "ln_gamma": mp.loggamma, "erfcx": lambda x: mp.exp(x * x) * mp.erfc(x),
    "digamma": mp.digamma, "atan2": mp.atan2, "cnorm": abs,
    "gamma_li": lambda a, x: incomplete(mp.gammainc, a, x, a, 0, x), "gamma_ui": lambda a, x: incomplete(mp.gammainc, a, x, a, x),
    "gamma_lr": lambda a, x: incomplete(mp.gammainc, a, x, a, 0, x, regularized=True),
    "gamma_ur": lambda a, x: incomplete(mp.gammainc, a, x, a, x, regularized=True),
    "beta_reg": lambda a, b, x: incomplete(mp.betainc, min(a, b), x, a, b, 0, x, regularized=True), "beta": mp.beta,
}


def h(*xs):
    d = hashlib.sha256(repr(xs).encode()).digest()
    return int.from_bytes(d[:6], "big") / 2.0 ** 48


def key(v):
    if isinstance(v, mp.mpc):
        if abs(v.imag) < mp.mpf(10) ** -16 * (1 + abs(v.real)):
            return key(v.real)
        return "%s + %s i" % (key(v.real), key(v.imag))
    if isinstance(v, bool):
        return v
    if isinstance(v, (mp.mpf, int)):
        v = mp.mpf(v)
        return "0.0" if abs(v) < mp.mpf(10) ** -16 else mp.nstr(v, 14)
    if isinstance(v, list):
        return ("L",) + tuple(key(x) for x in v)
    if isinstance(v, tuple):
        return tuple(key(x) for x in v)
    if isinstance(v, Lam):
        return ("lam",) + tuple(key(v(mp.mpf(s))) for s in ("0.37", "1.21"))
    return v


DATEPARTS = ("year", "day", "ordinal", "month", "weekday")
JD0 = 1721425
LOOP_MAX = 120
# operations evaluated as themselves; any other is uninterpreted
NATIVE = {"num", "bv", "bvc", "add", "sub", "mul", "neg", "div", "pow", "bool", "not", "and", "or", "ite", "cmp", "fn", "agg", "str",
          "char", "const", "fld", "idx", "len", "seq", "SUM", "SMAX", "SMIN", "PROD", "exists", "first", "lastof", "rec", "vpush",
          "concat", "withidx", "vinsert", "vpop", "lam", "discr", "var", "dmap", "fnval", "wout", "wloop", "wexit", "filtered"}
NATIVE_FN = set(FNS) | {"pi", "I", "jdn", "leap", "rem_euclid", "div_euclid", "min", "max", "re", "im", "signum", "trunc", "ftrunc", "idiv",
                        "irem", "fmod", "fract", "round", "cbrt", "ceildiv"} | {"date_" + x for x in ("year", "day", "ordinal", "month", "weekday")}
SPECIAL = [(1, 1), (1, 2), (1, 30), (1, 31), (2, 1), (2, 27), (2, 28), (2, 29), (3, 1), (3, 2), (3, 30), (3, 31),
           (4, 29), (4, 30), (5, 30), (5, 31), (6, 30), (8, 31), (11, 30), (12, 30), (12, 31)]


def cal(j):
    try:
        return datetime.date.fromordinal(j - JD0)
    except (ValueError, OverflowError):
        raise Bad("date range")


def pick_date(u, v, w):
    """a Julian day number from three uniforms: half of them at month ends"""
    if u < 0.6:
        y = (1999 + int(v * 14)) if v < 0.8 else (1901 + int(w * 298))
        m, d = SPECIAL[int(w * 977 * len(SPECIAL)) % len(SPECIAL)]
        try:
            return datetime.date(y, m, d).toordinal() + JD0
        except ValueError:
            return datetime.date(y, 2, 28).toordinal() + JD0
    return datetime.date(1990, 1, 1).toordinal() + JD0 + int(v * 14000)


class Lam:
    def __init__(self, f):
        self.f = f

    def __call__(self, x):
        return self.f(x)


class Eval:
    def __init__(self, seed, pos=None, ints=None, sampler=None):
        self.seed = seed
        self.pos = pos or (lambda t: False)
        self.ints = ints or (lambda t: False)
        self.sampler = sampler
        self.memo = {}
        self.n = 0
        self.t_end = time.time() + 2
        self.wide = 0
        self.consts = ()
        self.ties = seed % 5 == 4       # few distinct values, so that some coincide

    def free(self, t, k):
        """value of an opaque scalar with canonical key k"""
        if self.sampler:
            v = self.sampler(t, self.seed)
            if v is not None:
                return v if isinstance(v, (int, bool, list, tuple)) else mp.mpf(v)
        u = h(self.seed, k)
        if self.consts and h(self.seed, (k, "const")) < 0.6:
            # beside a constant the terms compare with
            v = h(self.seed, (k, "which"))
            c = self.consts[int(v * len(self.consts))]
            if t.op == "len" or self.ints(t):
                n = int(c) + (-1, 0, 1)[int(u * 3)]
                if (0 < n < 60) if t.op == "len" else n >= 0:
                    return n
            else:
                m = mp.mpf(c.numerator) / c.denominator
                m = (m * (0.4 + 1.2 * u), m, 1 / m, m * (1 + u / 1000))[int(h(self.seed, (k, "near")) * 4)]
                return m if self.pos(t) or h(self.seed, (k, "sign")) < 0.6 else -m
        if self.wide and t.op != "len":
            w = self.wide * h(self.seed, (k, "wide"))
            if self.ints(t):
                return 2 + int(u * (7 + w))
            if self.seed % 2:   # of any magnitude
                m = mp.exp((2 * u - 1) * mp.log(self.wide))
                return m if self.pos(t) or w < 0.6 * self.wide else -m
            return mp.mpf(0.35 + (1.4 + w) * u) if self.pos(t) else mp.mpf((u - 0.4) * (3.2 + w))
        if t.op == "len":
            return 1 + int(u * 4) if self.ties else 3 + int(u * 3)
        if self.ints(t):
            if self.ties:
                return int(u * 4)
            return 2 + int(u * 7)
        if self.ties:
            if self.seed % 2 and self.ties == "unit":
                return mp.mpf((1 + int(2 * u)) / 4)
            return mp.mpf((1 + int(3 * u)) / 2 if self.pos(t) else (-1, -0.5, 0.5, 1, 1.5)[int(5 * u)])
        if self.pos(t):
            return mp.mpf(0.35 + 1.4 * u)
        return mp.mpf(-1.5 + 3.2 * u)

    def ev(self, t, env):
        # env: dict bv-height -> value
        fv = self.fv(t)
        k = (t, tuple((x, key(env[x])) for x in fv if x in env)) if fv else t
        r = self.memo.get(k)
        if r is None:
            self.n += 1
            if self.n > 60000 or (self.n & 63 == 0 and time.time() > self.t_end):
                raise Undef("budget")
            r = self._ev(t, env)
            self.memo[k] = r
        return r

    _fv = {}

    def fv(self, t):
        r = Eval._fv.get(t)
        if r is None:
            s = set()
            if t.op in ("bv", "bvc"):
                s.add(t.a[0])
            for x in t.a:
                if isinstance(x, T):
                    s |= set(self.fv(x))
            if t.op == "lam":
                s.discard(t.a[0])
            r = tuple(sorted(s))
            Eval._fv[t] = r
        return r

    def lam(self, l, env):
        def f(x):
            e = dict(env)
            e[l.a[0]] = x
            return self.ev(l.a[1], e)
        return Lam(f)

    def date(self, v):
        """Julian day number of a date value"""
        if isinstance(v, tuple) and v[:1] == ("date",):
            return v[1]
        k = key(v)
        return pick_date(h(self.seed, "d1", k), h(self.seed, "d2", k), h(self.seed, "d3", k))

    def truth(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, bool):
            return v
        if isinstance(v, (mp.mpf, int)):
            # an opaque boolean
            return h("b", key(v)) < 0.5
        return h("b", key(v)) < 0.5

    def num(self, v):
        if isinstance(v, bool):
            return mp.mpf(int(v))
        if isinstance(v, (int, mp.mpf, mp.mpc)):
            return v
        return mp.mpf(h(self.seed, "asnum", key(v)))

    def vec(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, list):
            return v
        if isinstance(v, tuple) and v and v[0] == "array":
            return list(v[2:])
        if isinstance(v, tuple) and v[:1] == ("written",):
            over, v = dict(v[2]), v[1]
            n = self.oplen(t, v)
            return [over.get(key(mp.mpf(j)), self.opel(v, j)) for j in range(n)]
        # opaque vector: length and elements through the hash
        n = self.oplen(t, v)
        return [self.opel(v, j) for j in range(n)]

    def oplen(self, t, v):
        if self.sampler:
            x = self.sampler(mk("len", t), self.seed)
            if x is not None:
                return x
        return 1 + int(h(self.seed, "len") * 4) if self.ties else 3 + int(h(self.seed, "len") * 3)

    def opel(self, v, j):
        u = h(self.seed, "idx", key(v), j)
        return mp.mpf((1 + int(3 * u)) / 2 if self.ties else 0.35 + 1.4 * u)

    def _ev(self, t, env):
        o, a = t.op, t.a
        E = lambda x: self.ev(x, env)
        N = lambda x: self.num(self.ev(x, env))
        if o == "num":
            return int(a[0]) if a[0].denominator == 1 else mp.mpf(a[0].numerator) / a[0].denominator
        if o in ("bv", "bvc"):
            if a[0] in env:
                return env[a[0]]
            return mp.mpf(h(self.seed, "bv", a[0]))
        if o == "add":
            return N(a[0]) + N(a[1])
        if o == "sub":
            return N(a[0]) - N(a[1])
        if o == "mul":
            return N(a[0]) * N(a[1])
        if o == "neg":
            return -N(a[0])
        if o == "div":
            d = N(a[1])
            if d == 0:
                raise Bad("div0")
            n = N(a[0])
            return mp.mpf(n) / d if not isinstance(n, mp.mpc) else n / d
        if o == "pow":
            b, e = N(a[0]), N(a[1])
            if b == 0 and mp.re(e) <= 0:
                if e == 0:
                    return 1
                raise Bad("pow0")
            if isinstance(b, int):
                b = mp.mpf(b)
            if isinstance(b, mp.mpf) and b < 0 and isinstance(e, mp.mpf) and e != int(e):
                raise NaN("neg pow")
            return mp.power(b, e)
        if o == "bool":
            return a[0]
        if o == "not":
            return not self.truth(a[0], env)
        if o == "and":
            return self.truth(a[0], env) and self.truth(a[1], env)
        if o == "or":
            return self.truth(a[0], env) or self.truth(a[1], env)
        if o == "ite":
            return E(a[1]) if self.truth(a[0], env) else E(a[2])
        if o == "cmp":
            x, y = E(a[1]), E(a[2])
            if a[0] == "eq":
                if any(isinstance(z, tuple) and z[:1] in (("time::Month",), ("time::Weekday",)) for z in (x, y)):
                    if isinstance(x, tuple) and isinstance(y, tuple):
                        return x[1] == y[1]
                if any(isinstance(z, tuple) and z[:1] == ("date",) for z in (x, y)):
                    return self.date(x) == self.date(y)
                if isinstance(x, (int, mp.mpf, mp.mpc)) and isinstance(y, (int, mp.mpf, mp.mpc)) and not isinstance(x, bool):
                    return abs(x - y) < mp.mpf(10) ** -18
                return key(x) == key(y)
            x, y = self.num(x), self.num(y)
            if isinstance(x, mp.mpc) or isinstance(y, mp.mpc):
                raise Bad("complex order")
            return x < y if a[0] == "lt" else x <= y
        if o == "fn":
            return self.fn(a[0], a[1:], env)
        if o == "agg":
            if a[0] == "array":
                return [E(x) for x in a[2:]]
            return (a[0], a[1]) + tuple(E(x) for x in a[2:])
        if o == "str" or o == "char":
            return (o, a[0])
        if o == "const":
            if a[0] == "inf":
                return mp.mpf(10) ** 40
            return ("const", a[0])
        if o == "undef":
            return ("undef",)
        if o == "fld":
            b = E(a[0])
            if isinstance(b, tuple) and len(b) > 2 + a[2] and isinstance(b[0], str):
                return b[2 + a[2]]
            return self.free(t, ("fld", key(b), a[1], a[2]))
        if o == "idx":
            b, i = E(a[0]), E(a[1])
            if isinstance(b, list):
                try:
                    ii = int(i)
                except Exception:
                    raise Bad("index")
                if not (0 <= ii < len(b)):
                    if a[0].op == "agg" and isnum(a[1]):
                        # a read outside a vector of known size yields no value
                        return self.free(t, ("outside", key(b), key(i)))
                    raise Bad("range")
                return b[ii]
            if isinstance(b, tuple) and b[:1] == ("written",):
                for k, x in b[2]:
                    if k == key(i):
                        return x
                b = b[1]
            if isinstance(i, (int, mp.mpf)):
                return self.opel2(t, b, i)
            return self.free(t, ("idx", key(b), key(i)))
        if o == "len":
            b = E(a[0])
            if isinstance(b, tuple) and b[:1] == ("written",):
                b = b[1]
            if isinstance(b, list):
                return len(b)
            return self.oplen(a[0], b)
        if o == "seq":
            n = self.nat(a[0], env)
            f = self.lam(a[1], env)
            return [f(j) for j in range(n)]
        if o == "SUM":
            n = self.nat(a[0], env)
            f = self.lam(a[1], env)
            s = 0
            for j in range(n):
                s = s + self.num(f(j))
            return s
        if o in ("SMAX", "SMIN"):
            n = self.nat(a[0], env)
            f = self.lam(a[1], env)
            vs = [self.num(f(j)) for j in range(n)]
            if not vs:
                raise Bad("empty extremum")
            return max(vs) if o == "SMAX" else min(vs)
        if o == "PROD":
            n = self.nat(a[0], env)
            f = self.lam(a[1], env)
            s = 1
            for j in range(n):
                s = s * self.num(f(j))
            return s
        if o in ("exists", "first"):
            n = self.nat(a[0], env)
            f = self.lam(a[1], env)
            for j in range(n):
                v = f(j)
                if v if isinstance(v, bool) else h("b", key(v)) < 0.5:
                    return True if o == "exists" else j
            return False if o == "exists" else n
        if o == "lastof":
            n = self.nat(a[0], env)
            return self.lam(a[1], env)(n - 1) if n else E(a[2])
        if o == "rec":
            n = self.nat(a[0], env)
            st = [E(x) for x in a[2:]]
            l = a[1]
            for j in range(n):
                e = dict(env)
                q = l
                for x in st + [j]:
                    e[q.a[0]] = x
                    q = q.a[1]
                r = self.ev(q, e)
                st = list(r[2:])
            return st[0]
        if o == "vpush":
            return self.vec(a[0], env) + [E(a[1])]
        if o == "concat":
            return self.vec(a[0], env) + self.vec(a[1], env)
        if o == "withidx":
            v = E(a[0])
            i = E(a[1])
            if isinstance(v, list):
                v = list(v)
                if not 0 <= int(i) < len(v):
                    raise Bad("range")
                v[int(i)] = E(a[2])
                return v
            # cells written over an unknown base: the order of writes to
            # different cells does not matter, nor does writing what is there
            x = E(a[2])
            w = dict(v[2]) if isinstance(v, tuple) and v[:1] == ("written",) else {}
            base = v[1] if isinstance(v, tuple) and v[:1] == ("written",) else v
            w[key(i)] = x
            return ("written", base, tuple(sorted(w.items(), key=lambda p: repr(p[0]))))
        if o == "vinsert":
            v = self.vec(a[0], env)
            i = int(self.num(E(a[1])))
            if not 0 <= i <= len(v):
                raise Bad("range")
            return v[:i] + [E(a[2])] + v[i:]
        if o == "vpop":
            return self.vec(a[0], env)[:-1]
        if o == "iter":
            return ("iter", key(E(a[0])), key(E(a[1])))
        if o == "lam":
            return self.lam(t, env)
        if o == "discr":
            b = E(a[0])
            if isinstance(b, tuple) and len(b) >= 2 and isinstance(b[1], int) and isinstance(b[0], str):
                return b[1]
            n = a[1] or 2
            return int(h(self.seed, "discr", key(b)) * n) % n
        if o in ("var", "fresh"):
            return self.free(t, (o,) + a)
        if o == "app" and a[0] == "date_add":
            n = N(a[2])
            return ("date", self.date(E(a[1])) + int(n))
        if o == "app" and a[0] == "mkdate":
            y, m, d = int(N(a[1])), E(a[2]), int(N(a[3]))
            m = m[1] + 1 if isinstance(m, tuple) and len(m) == 2 and isinstance(m[1], int) else 1 + int(h(self.seed, "discr", key(m)) * 12) % 12
            try:
                return ("date", datetime.date(y, m, d).toordinal() + JD0)
            except ValueError:
                raise Bad("date")
        if o == "dmap":
            return a[1][int(N(a[0]))]
        if o == "app" and a[0] == "haskey":
            return bool(int(self.free(t, ("app", a[0]) + tuple(key(E(x)) for x in a[1:]), "int")) % 2)
        if o == "app":
            return self.free(t, ("app", a[0]) + tuple(key(E(x)) if isinstance(x, T) else x for x in a[1:]))
        if o == "fnval":
            return ("fnval", str(a[0]))
        if o == "sorted":
            v = self.vec(a[0], env)
            if all(isinstance(x, (int, mp.mpf)) for x in v):
                l = a[1]
                f = self.lam(l, env) if l.op == "lam" else None
                if f is not None:
                    g = f(mp.mpf(1))
                    if isinstance(g, Lam):
                        r = g(mp.mpf(2))
                        if isinstance(r, tuple) and r[:1] == ("core::cmp::Ordering",):
                            return sorted(v, reverse=(r[1] == 2))
                else:
                    return sorted(v)
            return ("sorted", key(v), key(E(a[1])))
        if o == "wout":
            return self.loop(a[0], env)[0][int(a[1].a[0])]
        if o == "wexit":
            return self.loop(a[0], env)[1] == int(a[1].a[0])
        if o == "wloop":
            raise Undef("loop value")
        if o == "filtered":
            m, v = self.vec(a[0], env), self.vec(a[1], env)
            if len(m) != len(v):
                raise Bad("mask")
            return [x for c, x in zip(m, v) if (c if isinstance(c, bool) else h("b", key(c)) < 0.5)]
        return mp.mpf(h(self.seed, o, *[key(E(x)) if isinstance(x, T) else str(x) for x in a]))

    def loop(self, L, env):
        """run a loop term: header values on leaving it and the exit taken"""
        k = ("loop", L, tuple((x, key(env[x])) for x in self.fv(L) if x in env))
        r = self.memo.get(k)
        if r is not None:
            return r
        step, st = L.a[0], [self.ev(x, env) for x in L.a[1:]]
        names, body = [], step
        for _ in st:
            names.append(body.a[0])
            body = body.a[1]
        nex = len(body.a) - 3 - len(st)
        for it in range(LOOP_MAX):
            e = dict(env)
            e.update(zip(names, st))
            if not self.truth(body.a[2], e):
                q = next((j for j in range(nex) if self.truth(body.a[3 + j], e)), None)
                if q is None:
                    raise Undef("no exit")
                r = self.memo[k] = (st, q)
                return r
            st = [self.ev(x, e) for x in body.a[3 + nex:]]
        raise Undef("long loop")

    def opel2(self, t, b, i):
        if self.sampler:
            v = self.sampler(t, self.seed)
            if v is not None:
                return v
        u = h(self.seed, "idx", key(b), key(i))
        return mp.mpf((1 + int(3 * u)) / 2 if self.ties else 0.35 + 1.4 * u) if isinstance(i, (int, mp.mpf)) else u

    def nat(self, t, env):
        v = self.num(self.ev(t, env))
        if isinstance(v, mp.mpc):
            raise Bad("len")
        n = int(mp.floor(v + mp.mpf("1e-15")))
        if n < 0:
            n = 0
        if n > 40:
            raise Undef("long")
        return n

    def fn(self, name, args, env):
        if name == "pi":
            return +mp.pi
        if name == "I":
            return mp.mpc(0, 1)
        if name == "jdn" or name.startswith("date_") and name[5:] in DATEPARTS:
            j = self.date(self.ev(args[0], env))
            if name == "jdn":
                return j
            d = cal(j)
            p = name[5:]
            if p in ("year", "day"):
                return getattr(d, p)
            if p == "ordinal":
                return d.timetuple().tm_yday
            return ("time::Month", d.month - 1) if p == "month" else ("time::Weekday", d.weekday())
        if name == "leap":
            y = int(self.num(self.ev(args[0], env)))
            return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
        if name in ("rem_euclid", "div_euclid"):
            x, y = [self.num(self.ev(q, env)) for q in args]
            if not isinstance(x, int) or not isinstance(y, int):
                if x != int(x) or y != int(y):
                    raise Undef("euclid")
                x, y = int(x), int(y)
            if y <= 0:
                raise Bad("mod")
            return x % y if name[0] == "r" else x // y
        v = [self.num(self.ev(x, env)) for x in args]
        if name in ("min", "max"):
            return (min if name == "min" else max)(v)
        if name in ("re", "im"):
            z = v[0]
            if isinstance(z, mp.mpc):
                return z.real if name == "re" else z.imag
            return z if name == "re" else 0
        if name == "signum":
            return 1 if v[0] >= 0 else -1
        if name in ("trunc", "ftrunc", "floor", "ceil", "round", "sin", "cos", "tan", "gamma", "ln_gamma", "digamma") and abs(v[0]) > 1e30:
            raise Bad("magnitude")
        if name in ("trunc", "ftrunc"):
            return int(v[0])
        if name == "idiv":
            if v[1] == 0:
                raise Bad("idiv0")
            q = abs(int(v[0])) // abs(int(v[1]))
            return q if (v[0] >= 0) == (v[1] > 0) else -q
        if name == "irem":
            if v[1] == 0:
                raise Bad("irem0")
            r = abs(int(v[0])) % abs(int(v[1]))
            return r if v[0] >= 0 else -r
        if name == "fmod":
            if v[1] == 0:
                raise Bad("fmod0")
            if not isinstance(v[0], (int, mp.mpc)) and abs(v[0] - mp.nint(v[0])) < mp.mpf("1e-25"):
                v[0] = mp.nint(v[0])
            return mp.fmod(v[0], v[1])
        if name == "fract":
            return v[0] - int(v[0])
        if name == "round":
            return int(mp.floor(abs(v[0]) + mp.mpf("0.5"))) * (1 if v[0] >= 0 else -1)
        if name == "cbrt":
            return mp.cbrt(v[0]) if v[0] >= 0 else -mp.cbrt(-v[0])
        if name in ("band", "bor", "bxor", "shl", "shr") and len(v) == 2 and all(isinstance(x, (int, mp.mpf)) and x == int(x) and x >= 0 for x in v):
            x, y = int(v[0]), int(v[1])
            if name in ("shl", "shr") and y > 127:
                raise Bad("shift")
            return x & y if name == "band" else x | y if name == "bor" else x ^ y if name == "bxor" else x << y if name == "shl" else x >> y
        if name == "ceildiv":
            return -(-int(v[0]) // int(v[1]))
        f = FNS.get(name)
        if f is None:
            return mp.mpf(h(self.seed, "fn", name, *[key(x) for x in v]))
        if name in ("ln",) and v[0] == 0:
            raise Bad("ln0")
        if name in ("ln", "ln_gamma") and isinstance(v[0], (int, mp.mpf)) and v[0] < 0:
            raise NaN("ln neg")
        if name in ("asin", "acos", "atanh") and isinstance(v[0], (int, mp.mpf)) and abs(v[0]) >= 1:
            raise Bad("dom")
        if name == "acosh" and isinstance(v[0], (int, mp.mpf)) and v[0] <= 1:
            raise Bad("dom")
        try:
            return f(*[mp.mpf(x) if isinstance(x, int) else x for x in v])
        except (ValueError, ZeroDivisionError, OverflowError) as e:
            raise Bad(str(e))


def close(x, y):
    if isinstance(x, bool) or isinstance(y, bool):
        return x == y if isinstance(x, bool) and isinstance(y, bool) else False
    nx, ny = isinstance(x, (int, mp.mpf, mp.mpc)), isinstance(y, (int, mp.mpf, mp.mpc))
    if nx and ny:
        s = max(1, abs(x), abs(y))
        return abs(x - y) <= s * mp.mpf(10) ** -11
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        return len(x) == len(y) and all(close(p, q) for p, q in zip(x, y))
    if isinstance(x, Lam) and isinstance(y, Lam):
        return key(x) == key(y)
    if type(x) != type(y):
        # opaque scalar vs structure
        return False
    return key(x) == key(y)


def resolve(nm, t, cx, memo=None):
    """replace every gate decided by the leaf's context"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    import norm
    if t.op == "ite" and not nm.has_bvc(t):
        try:
            d = nm.decide(t.a[0], cx)
        except Exception:
            d = None
        if d is True or d is False:
            r = resolve(nm, t.a[1] if d else t.a[2], cx, memo)
            memo[t] = r
            return r
    na = [resolve(nm, x, cx, memo) if isinstance(x, T) else x for x in t.a]
    ch = any(x is not y for x, y in zip(na, t.a))
    import term
    r = term.rebuild(t.op, na) if ch else t
    memo[t] = r
    return r


class W:
    def __init__(self, cx, a, b, va, vb, seed):
        self.cx, self.a, self.b, self.va, self.vb, self.seed = cx, a, b, va, vb, seed

    def show(self):
        def s(v):
            if isinstance(v, (mp.mpf, mp.mpc)):
                return mp.nstr(v, 10)
            if isinstance(v, (list, tuple)):
                return "[" + ", ".join(s(x) for x in v) + "]"
            return str(v)
        return "%s  vs  %s" % (s(self.va)[:300], s(self.vb)[:300])


def holds(nm, ev, assume):
    for c in assume:
        if not ev.truth(c, {}):
            return False
    return True


def constants(*ts):
    """the sizes the terms compare with"""
    out = {}
    for t in ts:
        for x in subterms(t):
            if x.op == "cmp":
                for y in x.a[1:]:
                    for z in ([y] + [z for z in y.a if isinstance(z, T)] if isinstance(y, T) and y.op in ("num", "add", "sub", "mul", "neg", "div") else []):
                        if z.op == "num" and z.a[0] not in (0, 1, -1):
                            out[abs(z.a[0])] = 1
    return list(out)[:12]


def stable(a, b, x, y, seed, wide, pos, ints, sampler, consts=(), ties=False):
    """the values at a valuation are not an artefact of the precision"""
    d = mp.mp.dps if hasattr(mp, "mp") else mp.dps
    for k in (3, 10):
        try:
            with mp.workdps(d * k):
                ev = Eval(seed, pos, ints, sampler)
                ev.wide, ev.consts = wide, consts
                ev.ties = ties or ev.ties
                x2, y2 = ev.ev(a, {}), ev.ev(b, {})
        except (Bad, Undef, NaN, OverflowError, ZeroDivisionError, TypeError, ValueError, RecursionError, mp.libmp.ComplexResult):
            return not (wide or consts or ties)
        if close(x2, y2):
            return False
        if close(x, x2) and close(y, y2):
            return True
        x, y = x2, y2
    return not (wide or consts or ties)


def witness(nm, a, b, leaves, assume, pos, ints, sampler, tries=60, limit=None):
    """a valuation satisfying the assumptions at which a and b differ"""
    # 1. valuations of the whole terms satisfying the assumptions
    good = 0
    nans = []
    dated = any(x.op == "fn" and (x.a[0] == "jdn" or x.a[0].startswith("date_")) for t in (a, b) for x in subterms(t))
    if dated and limit is None:
        tries = 1500
    deadline = time.time() + (limit or float(os.environ.get("RQ_WITNESS_S", "12")))
    consts = constants(a, b)
    for seed in range(tries * 9):
        if time.time() > deadline:
            break
        ev = Eval(seed, pos, ints, sampler)
        tied = seed >= 7 * tries
        if tied:
            ev.ties = "unit"      # coincidences, also within the unit interval
        elif seed >= 5 * tries:
            if not consts:
                continue
            ev.consts = consts
        elif seed >= 4 * tries or not good and seed >= 2 * tries:
            ev.wide = 40 if not good or seed % 4 == 1 else 8    # the assumptions exclude the usual range, or nothing differs there
        elif good >= tries:
            continue
        try:
            if not holds(nm, ev, assume):
                continue
            try:
                x = ev.ev(a, {})
            except NaN:
                if limit is None and not good:
                    y = Eval(seed, pos, ints, sampler).ev(b, {})
                    nans.append(W(None, a, b, "NaN", y, seed))
                continue
            try:
                y = ev.ev(b, {})
            except NaN:
                if limit is None and not good:
                    nans.append(W(None, a, b, x, "NaN", seed))
                continue
        except (Bad, Undef, OverflowError, ZeroDivisionError, TypeError, ValueError, mp.libmp.ComplexResult):
            continue
        except RecursionError:
            return None
        good += 1
        if not close(x, y) and stable(a, b, x, y, seed, ev.wide, pos, ints, sampler, ev.consts, tied and "unit"):
            return W(None, a, b, x, y, seed)
    if not good and len(nans) >= 6:
        return nans[0]      # not a number wherever the other is one
    if dated:
        return None     # pinned date parts need not be those of a date
    # 2. per differing leaf: the terms with the leaf's decisions applied
    for cx in leaves[:40]:
        ra, rb = resolve(nm, a, cx), resolve(nm, b, cx)
        if ra is rb:
            continue
        bad = 0
        seen = 0
        w = None
        for seed in range(40):
            ev = Eval(1000 + seed, pos, ints, sampler)
            ev.ties = False
            pin(nm, ev, cx)
            try:
                if not leaf_ok(nm, ev, cx):
                    continue
                x = ev.ev(ra, {})
                y = ev.ev(rb, {})
            except (Bad, Undef, OverflowError, ZeroDivisionError, TypeError, ValueError, mp.libmp.ComplexResult):
                continue
            except RecursionError:
                return None
            seen += 1
            if not close(x, y):
                w = W(cx, ra, rb, x, y, seed)
                bad += 1
            if seen >= 6:
                break
        if seen and bad == seen:
            return w
    return None


def pin(nm, ev, cx):
    """force the valuation of atoms the leaf equates"""
    old = ev.free
    fixed = {}
    for aid, r in cx.eqs.items():
        at = nm.reg.atoms[aid]
        if at.term is not None:
            fixed[at.term] = r

    busy = set()

    def free(t, k):
        if t in fixed and t not in busy:
            busy.add(t)
            try:
                return evrat(nm, ev, fixed[t])
            finally:
                busy.discard(t)
        return old(t, k)
    ev.free = free
    od = ev._ev

    def _ev(t, env):
        if t.op in ("discr", "fn") and t in fixed:
            v = evrat(nm, ev, fixed[t])
            return int(mp.nint(v)) if t.op == "discr" else v
        return od(t, env)
    ev._ev = _ev


def evrat(nm, ev, r):
    def poly(p):
        s = mp.mpf(0)
        for m, c in p.items():
            v = mp.mpf(c.numerator) / c.denominator
            for a, e in m:
                at = nm.reg.atoms[a]
                if at.kind == "pi":
                    x = +mp.pi
                elif at.kind == "prime":
                    x = mp.mpf(at.data)
                elif at.kind == "exp":
                    x = mp.exp(poly({at.key[1]: Fr(1)}))
                    for p2, k in at.key[2]:
                        raise Undef("exp den")
                elif at.kind == "ln" and at.data is not None:
                    x = mp.log(poly(nm.reg.polys[at.data]))
                elif at.kind == "ln":
                    x = mp.log(at.key[2])
                elif at.kind == "pw":
                    x = poly(nm.reg.polys[at.data])
                elif at.term is not None:
                    x = ev.num(ev.ev(at.term, {}))
                else:
                    raise Undef("atom")
                v = v * mp.power(x, mp.mpf(e.numerator) / e.denominator)
            s += v
        return s
    v = poly(r.n)
    for p, k in r.d:
        v = v / poly(nm.reg.polys[p]) ** k
    return v


COMPUTED = {"exists", "first", "rec", "SUM", "PROD", "SMAX", "SMIN", "lastof"}


def leaf_ok(nm, ev, cx):
    """the valuation satisfies the leaf's decisions on computed conditions and
    its interval facts"""
    for c, val in cx.path:
        if isinstance(c, T) and any(x.op in COMPUTED for x in subterms(c)):
            if nm.has_bvc(c):
                return False
            if ev.truth(c, {}) != val:
                return False
    for keyp, (lo, los, hi, his, ex) in cx.iv.items():
        try:
            if any(nm.atom_bound(a) for m in nm.reg.polys[keyp] for a, e in m):
                continue
            from norm import Rat
            v = evrat(nm, ev, Rat(nm.reg.polys[keyp]))
        except (Bad, Undef):
            return False
        if isinstance(v, mp.mpc):
            return False
        eps = mp.mpf(10) ** -15
        if lo is not None and v < mp.mpf(lo.numerator) / lo.denominator + (eps if los else -eps):
            return False
        if hi is not None and v > mp.mpf(hi.numerator) / hi.denominator - (eps if his else -eps):
            return False
    return True


def refuted(clauses, want, assume, pos, ints, sampler, tries=40):
    """a clause false at a valuation that satisfies the assumptions and at which
    the requirement has a value: (clause, valuation) or None"""
    deadline = time.time() + 3
    good = 0
    for seed in range(tries * 3):
        if time.time() > deadline or good >= tries:
            break
        ev = Eval(seed, pos, ints, sampler)
        try:
            if not all(ev.truth(c, {}) for c in assume):
                continue
            y = ev.ev(want, {})
            if isinstance(y, mp.mpf) and not mp.isfinite(y):
                continue
        except (Bad, Undef, OverflowError, ZeroDivisionError, TypeError, ValueError, IndexError, RecursionError, mp.libmp.ComplexResult):
            continue
        good += 1
        for c in clauses:
            try:
                if not ev.truth(c, {}):
                    return c, seed
            except (Bad, Undef, OverflowError, ZeroDivisionError, TypeError, ValueError, IndexError, RecursionError, mp.libmp.ComplexResult):
                pass
    return None
