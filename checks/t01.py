"""Every variant of DayCountConvention is pushed through the public dispatch
`day_count_factor` by value numbering and compared with the closed form of the
convention (ISDA 2006 / Strata definitions) in the year, month, day and day
number of the two dates.  Calendar's wrappers must hand the two dates, in
order, to that dispatch."""
from tlib import *

FLOOR = 18


def days():
    return J(E0) - J(S0)


def run(C):
    conv = lambda n: C.S.variant("DayCountConvention", n, crate=CR)
    it = C.method("DayCountConvention", "day_count_factor", crate=CR)
    T = {
        "One_One": num(1),
        "Actual_360": days() / 360, "Actual_364": days() / 364, "Actual_366": days() / 366,
        "Actual_365_25": days() / "365.25", "Actual_365_Fixed": days() / 365,
    }
    for n, w in T.items():
        C.part(n, one, it, conv, n, w)
    touched = mk("exists", Y(E0) - Y(S0) + 1, TM.lamf(lambda j: leap(Y(S0) + j)))
    for n in ("Actual_365_Actual", "Actual_365_Leap"):
        C.part(n, one, it, conv, n, days() / If(touched, num(366), num(365)))
    nl = days() - (leapdays_to(E0) - leapdays_to(S0))
    C.part("No_Leap_360", one, it, conv, "No_Leap_360", nl / 360)
    C.part("No_Leap_365", one, it, conv, "No_Leap_365", nl / 365)
    # 30/360 family
    y1, m1, d1, y2, m2, d2 = Y(S0), MI(S0), DD(S0), Y(E0), MI(E0), DD(E0)
    N = lambda a, b, den, y2=y2, m2=m2: (360 * (y2 - y1) + 30 * (m2 - m1) + (b - a)) / den
    d31 = lambda d: If(eq(d, 31), num(30), d)
    a = d31(d1)
    C.part("Thirty_E_360", one, it, conv, "Thirty_E_360", N(a, d31(d2), 360))
    C.part("Thirty_360_ISDA", one, it, conv, "Thirty_360_ISDA", N(a, If(And(eq(d2, 31), eq(a, 30)), num(30), d2), 360))
    f1 = If(Or(eq(d1, 31), lastfeb(S0)), num(30), d1)
    f2 = If(Or(eq(d2, 31), lastfeb(E0)), num(30), d2)
    C.part("Thirty_E_360_ISDA", one, it, conv, "Thirty_E_360_ISDA", N(f1, f2, 360))
    C.part("Thirty_E_365", one, it, conv, "Thirty_E_365", N(f1, f2, 365))
    # d2 = 31 counts as the first day of the next month
    nx = date_plus(E0, num(1))
    C.part("Thirty_E_Plus_360", one, it, conv, "Thirty_E_Plus_360",
           If(eq(d2, 31), N(a, DD(nx), 360, Y(nx), MI(nx)), N(a, d2, 360)))
    g2 = If(Or(And(eq(d2, 31), eq(f1, 30)), And(lastfeb(S0), lastfeb(E0))), num(30), d2)
    C.part("Thirty_U_360", one, it, conv, "Thirty_U_360", N(f1, g2, 360))
    C.part("Actual_Actual_ISDA", isda, it, conv)
    C.part("Actual_Actual_AFB", afb, it, conv)
    C.part("wrappers", wrappers)


def one(C, it, conv, n, want):
    r = C.ev(it, [conv(n), S0, E0])
    if r is None:
        return
    C.eq(n, r.ret, want, it, rule="day count formula")


def jan1(C, y):
    return J(mkdate(y, month_const(C, 0), num(1)))


def expand_days(C, t, ds):
    """day numbers from 1 January of the date's year, and the length of a year:
    jdn(d) = jan1(year d) + ordinal d - 1, jan1(y+1) = jan1(y) + 365 (366)"""
    F = lambda y: fn("jan1", y)
    t = TM.subst(t, {J(d): F(Y(d)) + P("ordinal", d) - 1 for d in ds})
    m = {}
    for x in subterms(t):
        if x.op == "fn" and x.a[0] == "jdn" and x.a[1].op == "app" and x.a[1].a[0] == "mkdate":
            y, mo, d = x.a[1].a[1:]
            if d is num(1) and isnum(discr(mo, 12)) and discr(mo, 12).a[0] == 0:
                base = next((z for z in (Y(q) for q in ds) if isnum(y - z) or y is z + 1), None)
                if base is not None and y is base:
                    m[x] = F(base)
                elif base is not None and y is base + 1:
                    m[x] = F(base) + If(leap(base), num(366), num(365))
    return TM.subst(t, m)


def isda(C, it, conv):
    r = C.ev(it, [conv("Actual_Actual_ISDA"), S0, E0])
    if r is None:
        return
    dib = lambda d: If(leap(Y(d)), num(366), num(365))
    o1, o2 = P("ordinal", S0), P("ordinal", E0)
    got = expand_days(C, r.ret, (S0, E0))
    # days in each year over the length of that year
    want = (Y(E0) - Y(S0) - 1) + (dib(S0) - (o1 - 1)) / dib(S0) + (o2 - 1) / dib(E0)
    dom = [1 <= o1, o1 <= dib(S0), 1 <= o2, o2 <= dib(E0)]
    same = TM.subst(want, {E0: S0})
    C.eq("Actual_Actual_ISDA equal dates", TM.subst(got, {E0: S0}), num(0), it, [TM.subst(c, {E0: S0}) for c in dom], rule="day count formula")
    if C._cmp(got, want, dom + [not_(eq(S0, E0))], None, None, {}).kind != "equal":
        # not the required form: the day numbers themselves for a witness
        dib = lambda d: If(leap(Y(d)), num(366), num(365))
        jan = [s.a[2] for s in subterms(r.ret) if s.op == "app" and s.a[0] == "mkdate" and discr(s.a[2], 12) is num(0)]
        if jan:
            first = lambda y: J(mkdate(y, jan[0], num(1)))
            got, want = r.ret, (Y(E0) - Y(S0) - 1) + (first(Y(S0) + 1) - J(S0)) / dib(S0) + (J(E0) - first(Y(E0))) / dib(E0)
    C.eq("Actual_Actual_ISDA", got, want, it, dom + [not_(eq(S0, E0))], rule="day count formula")


def afb(C, it, conv):
    r = C.ev(it, [conv("Actual_Actual_AFB"), S0, E0])
    if r is None:
        return
    def anniv(y):
        return mkdate(y, P("month", E0), If(lastfeb(E0), If(leap(y), num(29), num(28)), DD(E0)))
    a0, a1 = anniv(Y(S0)), anniv(Y(S0) + 1)
    early = J(a0) < J(S0)
    isleapday = lambda d: And(eq(MI(d), 1), eq(DD(d), 29))
    b = lambda c: If(c, num(1), num(0))

    def value(stub):
        ld = leapdays_to(stub) - leapdays_to(S0) + b(isleapday(S0)) - b(isleapday(stub))
        return (Y(E0) - Y(stub)) + (J(stub) - J(S0)) / If(0 < ld, num(366), num(365))
    C.eq("Actual_Actual_AFB", r.ret, If(early, value(a1), value(a0)), it, rule="day count formula")
    # the anniversary is always a date
    for c in r.assumes:
        if c[2].startswith("+"):
            continue
        g, cond = c[0], c[1]
        dom = []
        for d in (S0, E0):
            dom += [1 <= DD(d), DD(d) <= month_len(P("month", d), Y(d))]
        C.eq("Actual_Actual_AFB no panic", cond, TRUE, it, list(g) + dom, rule="panic freedom")


def wrappers(C):
    cal, cv = var("cal"), var("conv")
    it = C.method("Calendar", "day_count_factor", crate=CR)
    op = lambda i: i.name == "day_count_factor" and "DayCountConvention" in i.path
    d1, d2 = var("d1"), var("d2")
    r = C.ev(it, [cal, d1, d2, cv], opaque=op)
    base = C.method("DayCountConvention", "day_count_factor", crate=CR)
    if r is not None:
        C.eq("Calendar::day_count_factor", r.ret, call(C, base, cv, d1, d2), it)
    it = C.method("Calendar", "day_count_factors", crate=CR)
    v = var("dates")
    r = C.ev(it, [cal, v, cv], opaque=op)
    if r is not None:
        C.eq("Calendar::day_count_factors", r.ret,
             SEQ(LEN(v) - 1, lambda j: call(C, base, cv, v[j], v[j + 1])), it, [1 <= LEN(v)])
    it = C.free("year_fraction", "utilities")
    r = C.ev(it, [S0, E0])
    if r is not None:
        C.eq("year_fraction", r.ret, days() / "365.25", it, [0 <= days()])


def call(C, item, *args):
    return app("fn:" + item.did, *args)
