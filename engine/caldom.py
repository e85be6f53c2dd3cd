"""Predicates of one date over their whole finite domain.

A boolean or integer term whose only non-constant leaves are the parts of one
date (year, month, day, weekday, day of the year, day number) is a function on
the days of 1901-2199.  `differs` compares two such terms over that domain; it
is used when their normal forms differ, to tell a reformulation that is only
equal on the calendar from a real difference, and to name the day."""
import datetime
import numpy as np
from term import *

JD0 = 1721425
FIRST, LAST = datetime.date(1901, 1, 1), datetime.date(2199, 12, 31)
WIDE = 1000


class Outside(Exception):
    pass


def days(lo, hi):
    n = hi - lo + 1
    o = np.arange(lo, hi + 1) - JD0
    d64 = np.array(o - 719163, dtype="datetime64[D]")
    Y = d64.astype("datetime64[Y]")
    M = d64.astype("datetime64[M]")
    y = Y.astype(int) + 1970
    return {"year": y, "month": M.astype(int) % 12, "day": (d64 - M).astype(int) + 1,
            "ordinal": (d64 - Y).astype(int) + 1, "weekday": (o + 6) % 7, "jdn": np.arange(lo, hi + 1), "lo": lo, "hi": hi}


def hebrew_new_year(y):
    """ordinal day (proleptic Gregorian) of 1 Tishrei of Hebrew year y: the
    molad with the four postponements"""
    m = (235 * y - 234) // 19
    parts = 12084 + 13753 * m
    day = 29 * m + parts // 25920
    if 3 * (day + 1) % 7 < 3:
        day += 1
    return day


def _hny(y):
    a, b, c = hebrew_new_year(y - 1), hebrew_new_year(y), hebrew_new_year(y + 1)
    d = 2 if c - b == 356 else 1 if b - a == 382 else 0
    return b + d - 1373429 + 2  # 1 Tishrei AM 1 is fixed day -1373427


def hebrew_days(lo, hi):
    """month ordinal (1 = Tishrei; a leap year has 13), day, leap year"""
    n = hi - lo + 1
    M, D, L = np.zeros(n, int), np.zeros(n, int), np.zeros(n, bool)
    first = lo - JD0
    y = int((first + 1373427) / 365.2468) - 2
    while _hny(y + 1) <= first:
        y += 1
    while True:
        s, e = _hny(y), _hny(y + 1)
        if s > hi - JD0:
            break
        leap = (7 * y + 1) % 19 < 7
        ln = e - s
        ms = [30, 30 if ln % 10 == 5 else 29, 29 if ln % 10 == 3 else 30, 29, 30] + ([30, 29] if leap else [29]) + [30, 29, 30, 29, 30, 29]
        assert sum(ms) == ln, (y, ln, sum(ms))
        k = s
        for i, x in enumerate(ms):
            for j in range(x):
                q = k + j - first
                if 0 <= q < n:
                    M[q], D[q], L[q] = i + 1, j + 1, leap
            k += x
        y += 1
    return {"hmonth": M, "hday": D, "hleap": L}


ROUNDS = 64             # iterations a loop over dates may take


def bases(t):
    """the date terms a term reads parts of (through shifts by constants)"""
    out, seen = set(), set()

    def go(b):
        if b in seen:
            return
        seen.add(b)
        if b.op == "app" and b.a[0] == "date_add":
            go(b.a[1])
        elif b.op == "ite":
            go(b.a[1])
            go(b.a[2])
        elif not (b.op == "app" and b.a[0] == "mkdate"):
            out.add(b)

    for x in subterms(t):
        if x.op == "fn" and (x.a[0] == "jdn" or x.a[0].startswith("date_")):
            go(x.a[1])
    return out


def leapv(y):
    return (y % 4 == 0) & ((y % 100 != 0) | (y % 400 == 0))


class Vec:
    def __init__(self, base):
        self.base = base
        self.lo = FIRST.toordinal() + JD0
        self.hi = LAST.toordinal() + JD0
        self.parts = {}
        self.memo = {}

    def shifted(self, k):
        if k not in self.parts:
            self.parts[k] = days(self.lo + k, self.hi + k)
        return self.parts[k]

    def part(self, name, b):
        if b is self.base:
            p = self.shifted(0)
            if name[0] == "h" and name not in p:
                p.update(hebrew_days(p["lo"], p["hi"]))
            return p[name]
        if name[0] == "h":
            raise Outside(show(b))
        j = np.asarray(self.jd(b))
        if name == "jdn":
            return j
        if self.wide is None:
            self.wide = days(self.lo - WIDE, self.hi + WIDE)
        i = j - (self.lo - WIDE)
        if i.min() < 0 or i.max() >= len(self.wide["jdn"]):
            raise Outside("far date %s" % show(b)[:80])
        return self.wide[name][i]

    wide = None

    def jd(self, b):
        """day numbers of a date-valued term"""
        r = self.memo.get((b, "jd"))
        if r is None:
            r = self.memo[b, "jd"] = self._jd(b)
        return r

    def _jd(self, b):
        if b is self.base:
            return np.arange(self.lo, self.hi + 1)
        if b.op == "app" and b.a[0] == "date_add":
            return self.jd(b.a[1]) + self.ev(b.a[2])
        if b.op == "app" and b.a[0] == "mkdate":
            y, m, d = (np.asarray(self.ev(x)) for x in b.a[1:4])
            ok = (d >= 1) & (d <= np.where(m == 1, np.where(leapv(y), 29, 28), np.array([31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31])[m]))
            if not ok.all():
                raise Outside("invalid day in %s" % show(b)[:80])
            q = (y - 1970) * 12 + m
            return q.astype("datetime64[M]").astype("datetime64[D]").astype(int) + 719163 + JD0 + d - 1
        if b.op == "ite":
            return np.where(self.ev(b.a[0]), self.jd(b.a[1]), self.jd(b.a[2]))
        if b.op == "wout" and b.a[0].op == "wloop":
            st, dates = self.loop(b.a[0])
            if dates[int(b.a[1].a[0])]:
                return st[int(b.a[1].a[0])]
        raise Outside("date %s" % show(b)[:80])

    def loop(self, L):
        """a bounded loop over dates and whole numbers, all days in step"""
        r = self.memo.get((L, "loop"))
        if r is not None:
            return r
        n = self.hi - self.lo + 1
        step, inits = L.a[0], L.a[1:]
        vs = [mk("var", "#loop%d" % i) for i in range(len(inits))]
        body = step
        for v in vs:
            body = apply(body, v)
        if body.op != "agg" or len(body.a) < 3 + len(vs):
            raise Outside("loop")
        st, dates = [], []
        for x in inits:
            try:
                st.append(np.broadcast_to(self.ev(x), (n,)))
                dates.append(False)
            except Outside:
                st.append(np.broadcast_to(self.jd(x), (n,)))
                dates.append(True)
        active = np.ones(n, bool)
        for _ in range(ROUNDS):
            c = Vec(self.base)
            c.parts, c.wide = self.parts, self.wide
            for v, x, d in zip(vs, st, dates):
                c.memo[(v, "jd") if d else v] = x
            active = active & c.ev(body.a[2])
            if not active.any():
                r = self.memo[L, "loop"] = st, dates
                return r
            new = body.a[len(body.a) - len(vs):]
            st = [np.where(active, c.jd(y) if d else c.ev(y), x) for y, x, d in zip(new, st, dates)]
            self.wide = c.wide
        raise Outside("long loop")

    def ev(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._ev(t)
        return r

    def _ev(self, t):
        o, a = t.op, t.a
        E = self.ev
        if o == "num":
            if a[0].denominator != 1:
                raise Outside("fraction")
            return np.int64(int(a[0]))
        if o == "bool":
            return np.bool_(a[0])
        if o == "add":
            return E(a[0]) + E(a[1])
        if o == "sub":
            return E(a[0]) - E(a[1])
        if o == "mul":
            return E(a[0]) * E(a[1])
        if o == "neg":
            return -E(a[0])
        if o == "not":
            return np.logical_not(E(a[0]))
        if o == "and":
            return np.logical_and(E(a[0]), E(a[1]))
        if o == "or":
            return np.logical_or(E(a[0]), E(a[1]))
        if o == "ite":
            return np.where(E(a[0]), E(a[1]), E(a[2]))
        if o == "cmp":
            x, y = E(a[1]), E(a[2])
            return {"eq": np.equal, "lt": np.less, "le": np.less_equal}[a[0]](x, y)
        if o == "discr":
            return E(a[0])
        if o == "dmap":
            return np.array(a[1])[E(a[0])]
        if o == "agg" and len(a) == 2 and str(a[0]).split("::")[-1] in ("Month", "Weekday"):
            return np.int64(a[1])
        if o == "agg" and a[0] == "array":
            return [E(x) for x in a[2:]]
        if o == "fn":
            if a[0] == "jdn" or a[0].startswith("date_"):
                return self.part(a[0].replace("date_", ""), a[1])
            if a[0] == "leap":
                return leapv(E(a[1]))
            if a[0] == "rem_euclid":
                return E(a[1]) % E(a[2])
            if a[0] == "div_euclid":
                return E(a[1]) // E(a[2])
            if a[0] == "irem":
                return np.fmod(E(a[1]), E(a[2]))
            if a[0] == "idiv":
                return np.trunc(E(a[1]) / E(a[2])).astype(int)
            if a[0] == "abs":
                return np.abs(E(a[1]))
            if a[0] in ("min", "max"):
                return (np.minimum if a[0] == "min" else np.maximum)(E(a[1]), E(a[2]))
        if o == "idx":
            l = E(a[0])
            i = E(a[1])
            if isinstance(l, list):
                if np.ndim(i) == 0:
                    return l[int(i)]
                if all(np.ndim(x) == 0 and not isinstance(x, list) for x in l):
                    arr = np.array(l)
                    bad = (i < 0) | (i >= len(l))
                    return np.where(bad, -10 ** 6, arr[np.clip(i, 0, len(l) - 1)])
        if o == "wout" and a[0].op == "wloop":
            st, dates = self.loop(a[0])
            if not dates[int(a[1].a[0])]:
                return st[int(a[1].a[0])]
        raise Outside("%s %s" % (o, show(t)[:80]))


def differs(a, b, base):
    """None: equal on every day; (date, va, vb): the first day they differ.
    b: a term, or a function of the days' parts"""
    v = Vec(base)
    x, y = v.ev(a), (b(v.shifted(0)) if callable(b) else v.ev(b))
    n = v.hi - v.lo + 1
    x, y = np.broadcast_to(x, (n,)), np.broadcast_to(y, (n,))
    w = np.nonzero(x != y)[0]
    if len(w) == 0:
        return None
    k = int(w[0])
    return datetime.date.fromordinal(v.lo + k - JD0), x[k], y[k], len(w)
