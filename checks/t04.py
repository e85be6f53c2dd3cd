"""Date utilities and frequencies.  Functions of one date, or of a year and a
month, are compared with their definition on every day of 1901-2199; functions
of two dates with the closed form in the two dates' parts."""
import numpy as np
import caldom
from tlib import *
import term as TM

FLOOR = 25
DAYS = ["monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday"]


def run(C):
    for n in PRED:
        C.part(n, pred, n)
    for k, wd in enumerate(DAYS):
        C.part("first " + wd, nth, "get_first_%s_of_month" % wd, k, False)
        C.part("last " + wd, nth, "get_last_%s_of_month" % wd, k, True)
    C.part("first and last day", ends)
    C.part("ranges", ranges)
    C.part("date_sequence", sequence)
    C.part("frequency", frequency)


def last_day(p):
    y, m = p["year"], p["month"]
    return np.where(m == 1, np.where(caldom.leapv(y), 29, 28), np.array([31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31])[m])


PRED = {
    "is_weekend": lambda p: p["weekday"] >= 5,
    "is_weekday": lambda p: p["weekday"] < 5,
    "is_leap_day": lambda p: (p["month"] == 1) & (p["day"] == 29),
    "is_first_day_of_month": lambda p: p["day"] == 1,
    "is_last_day_of_month": lambda p: p["day"] == last_day(p),
    "is_last_day_of_february": lambda p: (p["month"] == 1) & (p["day"] == last_day(p)),
}


def pred(C, n):
    it = C.free(n, "utilities")
    r = C.ev(it, [S0])
    if r is not None:
        C.over_days(n, r.ret, PRED[n], S0, it)


def payload(C, r):
    t = r.ret
    if t.op == "agg" and str(t.a[0]).endswith("Result") and t.a[1] == 0:
        return t.a[2]
    return fld(t, 0, 0, *(t.a[0:1] if t.op == "agg" else ("Result",)), 1)


def nth(C, fname, k, last):
    """the only day of the month on that weekday in its first (last) seven days;
    year and month are those of an arbitrary day"""
    it = C.free(fname, "utilities")
    r = C.ev(it, [Y(S0), P("month", S0)])
    if r is None:
        return
    d = payload(C, r)

    def want(p):
        edge = p["jdn"] - p["day"] + (last_day(p) if last else 1)      # last (first) day of the month
        wd = (edge - caldom.JD0 + 6) % 7
        return edge - (wd - k) % 7 if last else edge + (k - wd) % 7
    C.over_days(fname, J(d), want, S0, it, rule="nth weekday")


def ends(C):
    for n, f in (("get_first_day_of_month", lambda p: p["jdn"] - p["day"] + 1), ("get_last_day_of_month", lambda p: p["jdn"] - p["day"] + last_day(p))):
        it = C.free(n, "utilities")
        r = C.ev(it, [Y(S0), P("month", S0)])
        if r is not None:
            C.over_days(n, discr(payload(C, r), 7), lambda p: (f(p) - caldom.JD0 + 6) % 7, S0, it, rule="weekday of the month's first and last day")


def ranges(C):
    ny = Y(E0) - Y(S0) + 1
    n = J(E0) - J(S0)
    W = {
        "days_between": fn("abs", n),
        "year_fraction": fn("abs", n) / "365.25",
        "get_years_in_range": seq(ny, TM.lamf(lambda j: Y(S0) + j)),
        "get_days_in_years_in_range": seq(ny, TM.lamf(lambda j: If(leap(Y(S0) + j), num(366), num(365)))),
        "contains_leap_year": mk("exists", ny, TM.lamf(lambda j: leap(Y(S0) + j))),
        "leap_day_count": leapdays_to(E0) - leapdays_to(S0),
    }
    for k, w in W.items():
        it = C.free(k, "utilities")
        r = C.ev(it, [S0, E0])
        if r is not None:
            C.eq(k, r.ret, w, it, rule="definition over the range")
            if k == "contains_leap_year":
                spans(C, k, r.ret, lambda ys: any(greg(v) for v in ys), it)
    it = C.free("leap_year_count", "utilities")
    r = C.ev(it, [S0, E0])
    if r is not None:
        w = count(ny, lambda j: leap(Y(S0) + j))
        C.eq("leap_year_count", uncount(r.ret), w, it, rule="definition over the range")
        spans(C, "leap_year_count", uncount(r.ret), lambda ys: sum(greg(v) for v in ys), it)


def spans(C, name, got, want, item):
    """a function of the two dates' years, on every range of years from 1895 to
    2110 of at most nine years"""
    y = var("year")
    if any(s.op == "fn" and s is not Y(S0) and s is not Y(E0) and s.a[0] in ("jdn", "date_month", "date_day", "date_ordinal") for s in subterms(got)):
        return
    for k in range(9):
        g = TM.subst(got, {Y(S0): y, Y(E0): y + k})
        if not C.over_ints("%s, %d years" % (name, k + 1), g, lambda v: want(range(v, v + k + 1)), y, range(1895, 2110), item, rule="every range of years"):
            return


def greg(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def count(n, p):
    return SUM(n, lambda j: If(p(j), num(1), num(0)))


def uncount(t):
    """the length of a filtered sequence as the number of elements kept"""
    m = {}
    for x in subterms(t):
        if x.op == "len" and x.a[0].op == "filtered":
            mask = x.a[0].a[0]
            if mask.op == "seq":
                m[x] = SUM(mask.a[0], lambda j: If(TM.apply(mask.a[1], j), num(1), num(0)))
    return TM.subst(t, m)


def sequence(C):
    it = C.free("date_sequence", "utilities")
    r = C.ev(it, [S0, E0])
    if r is None:
        return
    C.eq("date_sequence", seqform(r.ret), seq(fn("max", num(0), J(E0) - J(S0) + 1), TM.lamf(lambda j: date_plus(S0, j))), it, rule="every day of the range in order")


def seqform(t):
    """wout(wloop(while jdn(c) <= jdn(e): v.push(c); c += 1), 1) is the sequence
    of the days from the start to the end (empty when the start is after the end)"""
    if t.op == "wout" and t.a[1] is num(1) and t.a[0].op == "wloop":
        L = t.a[0]
        step, cur0, v0 = L.a
        c, v = var("#c"), var("#v")
        body = TM.apply(TM.apply(step, c), v)
        if body.op == "agg" and len(body.a) == 6 and v0.op == "seq" and v0.a[0] is num(0):
            cond, ex, nc, nv = body.a[2:]
            if ex is TM.not_(cond) and nc is date_plus(c, num(1)) and nv.op == "vpush" and nv.a[0] is v and nv.a[1] is c:
                if cond.op == "not" and cond.a[0].op == "cmp" and cond.a[0].a[0] == "lt":
                    cond = cmp("le", cond.a[0].a[2], cond.a[0].a[1])        # days are integers
                if cond.op == "cmp" and cond.a[0] == "le" and cond.a[1] is J(c) and "#" not in show(cond.a[2]):
                    return seq(fn("max", num(0), cond.a[2] - J(cur0) + 1), TM.lamf(lambda j: date_plus(cur0, j)))
    return t


FREQ = [("Daily", 252, 1, 1), ("Weekly", 52, 7, 7), ("BiWeekly", 26, 14, 14), ("SemiMonthly", 24, 15, 15), ("Monthly", 12, 28, 31),
        ("SemiQuarterly", 8, 45, 46), ("Quarterly", 4, 91, 92), ("TriAnnually", 3, 121, 122), ("SemiAnnually", 2, 182, 183),
        ("Annually", 1, 365, 366)]


def frequency(C):
    it = C.method("Frequency", "infer_frequency", crate=CR)
    n = var("n")
    r = C.ev(it, [S0, E0])
    if r is None:
        return
    t = discr_of(C, TM.subst(r.ret, {J(E0): n + J(S0)}))
    for v, per, lo, hi in FREQ:
        a = C.S.variant("Frequency", v, crate=CR)
        C.eq("inferred " + v, t, discr_of(C, a), it, assume=[num(lo) <= n, n <= hi], ints=[n, J(S0)], rule="days between the dates")
        for g, k, w, *_ in r.assumes:
            if not w.startswith("+"):
                k = TM.subst(Or(*[TM.not_(z) for z in g], k), {J(E0): n + J(S0)})
                for day in sorted({lo, hi}):
                    C.prove("inferred %s from %d days" % (v, day), TM.subst(k, {n: num(day)}), it, [cmp("le", num(0), J(S0))], ints=[J(S0)])
    table(C, it)


def discr_of(C, t):
    return discr(t, 11)


def table(C, it):
    ad = C.S.adt("Frequency", CR)
    for v, per, lo, hi in FREQ + [("Zero", 0, 0, 0)]:
        d = next((x.get("discr") for x in ad["variants"] if x["name"] == v), None)
        C.fact("periods per year of " + v, d is not None and int(d) == per, it, "Frequency::%s is %s per year, required %d" % (v, d, per), rule="periods per year")
