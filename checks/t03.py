"""Market holidays.  Each country's rule function is value-numbered; the term
obtained, a predicate of one date, is compared on every day of 1901-2199 (its
whole domain) with the country's rules: fixed dates, substitute days, nth or
last weekdays, Easter-relative days and one-off days, plus the recorded dates of
lunar festivals (checks/holiday_tables.json).  The Easter table is compared
with the Gregorian and Julian computus; the Hebrew calendar conversion of the
icu crate is read as the arithmetic Hebrew calendar."""
import json, os
import numpy as np
from tlib import *
import caldom

FLOOR = 25
D0 = var("date")
JAN, FEB, MAR, APR, MAY, JUN, JUL, AUG, SEP, OCT, NOV, DEC = range(12)
MON, TUE, WED, THU, FRI, SAT, SUN = range(7)
Y0, Y1 = 1901, 2199


def easter_monday(y, orthodox):
    """day of the year of Easter Monday"""
    if not orthodox:
        a, b, c = y % 19, y // 100, y % 100
        d, e = b // 4, b % 4
        f = (b + 8) // 25
        g = (b - f + 1) // 3
        h = (19 * a + b - d - g + 15) % 30
        i, k = c // 4, c % 4
        l = (32 + 2 * e + 2 * i - h - k) % 7
        m = (a + 11 * h + 22 * l) // 451
        mo, da = (h + l - 7 * m + 114) // 31, (h + l - 7 * m + 114) % 31 + 1
        shift = 0
    else:
        a, b, c = y % 4, y % 7, y % 19
        d = (19 * c + 15) % 30
        e = (2 * a + 4 * b - d + 34) % 7
        mo, da = (d + e + 114) // 31, (d + e + 114) % 31 + 1
        shift = y // 100 - y // 400 - 2       # Julian to Gregorian
    leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    return sum([31, 29 if leap else 28, 31, 30, 31][:mo - 1]) + da + shift + 1


class Day:
    """the rule language: predicates of the day, as arrays over all days"""

    def __init__(self, p, tables):
        self.p = p
        self.y, self.m, self.d, self.w, self.yd = p["year"], p["month"], p["day"], p["weekday"], p["ordinal"]
        self.em = np.array([easter_monday(y, False) for y in range(Y0, Y1 + 1)])[self.y - Y0]
        self.tables = tables

    def on(self, d, m, wd=None, since=None, until=None, year=None):
        r = (self.d == d) & (self.m == m)
        if wd is not None:
            r = r & np.isin(self.w, wd if isinstance(wd, (list, tuple)) else [wd])
        return self.years(r, since, until, year)

    def years(self, r, since=None, until=None, year=None):
        if since is not None:
            r = r & (self.y >= since)
        if until is not None:
            r = r & (self.y <= until)
        if year is not None:
            r = r & np.isin(self.y, year if isinstance(year, (list, tuple)) else [year])
        return r

    def easter(self, k):
        return self.yd == self.em + k

    def nth(self, n, wd, m, **k):
        return self.years((self.m == m) & (self.w == wd) & (self.d > 7 * (n - 1)) & (self.d <= 7 * n), **k)

    def between(self, lo, hi, wd, m):
        return (self.m == m) & (self.w == wd) & (self.d >= lo) & (self.d <= hi)

    def last(self, wd, m):
        n = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m]
        return (self.m == m) & (self.w == wd) & (self.d > n - 7)

    def to_monday(self, d, m):
        """the day itself, and the Monday after it when it falls on a weekend"""
        return self.on(d, m) | self.on(d + 1, m, MON) | self.on(d + 2, m, MON)

    def sunday_to_monday(self, d, m):
        return self.on(d, m) | self.on(d + 1, m, MON)

    def moved2(self, d, m):
        """the day, or two days later when that is a Monday or Tuesday"""
        return self.on(d, m) | self.on(d + 2, m, [MON, TUE])

    def us(self, d, m, **k):
        """observed on Monday if it falls on a Sunday, on Friday if on a Saturday"""
        return self.on(d, m, **k) | self.on(d + 1, m, MON, **k) | self.on(d - 1, m, FRI, **k)

    def table(self, country):
        t = self.tables[country]
        days = set(t)
        key = self.y * 10000 + (self.m + 1) * 100 + self.d
        return np.isin(key, sorted(days))


def one_of(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = r | x
    return r


XMAS = lambda D: D.on(25, DEC)
R = {}
R["argentina"] = lambda D: one_of(
    D.on(1, JAN), D.easter(-4), D.easter(-3), D.on(1, MAY), D.on(25, MAY), D.nth(3, MON, JUN), D.on(9, JUL), D.nth(3, MON, AUG),
    *[D.on(k, OCT, MON) for k in (10, 11, 12, 15, 16)], D.on(8, DEC), D.on(24, DEC), XMAS(D), D.on(31, DEC), D.on(30, DEC, FRI))
R["australia"] = lambda D: one_of(
    D.to_monday(1, JAN), D.to_monday(26, JAN), D.easter(-3), D.easter(0), D.on(25, APR), D.nth(2, MON, JUN), D.nth(1, MON, AUG),
    D.nth(1, MON, OCT), D.moved2(25, DEC), D.moved2(26, DEC), D.on(22, SEP, year=2022))
R["austria"] = lambda D: one_of(
    D.on(1, JAN), D.on(6, JAN), D.easter(0), D.easter(38), D.easter(49), D.easter(59), D.on(1, MAY), D.on(15, AUG),
    D.on(26, OCT, since=1967), D.on(12, NOV, since=1919, until=1934), D.on(1, NOV), D.on(8, DEC), XMAS(D), D.on(26, DEC))
R["botswana"] = lambda D: one_of(
    D.on(1, JAN), D.on(2, JAN, MON), D.on(3, JAN, TUE), D.easter(-3), D.easter(0), D.sunday_to_monday(1, MAY), D.easter(38),
    D.sunday_to_monday(1, JUL), D.nth(3, MON, JUL), D.on(30, SEP), D.on(1, OCT, MON), D.on(1, OCT), D.on(2, OCT, MON),
    D.on(3, OCT, TUE), XMAS(D), D.sunday_to_monday(26, DEC))
R["brazil"] = lambda D: one_of(
    D.on(1, JAN), D.on(21, APR), D.on(1, MAY), D.on(7, SEP), D.on(12, OCT), D.on(2, NOV), D.on(15, NOV), D.on(20, NOV, since=2024),
    XMAS(D), D.easter(-3), D.easter(-49), D.easter(-48), D.easter(59))
R["canada"] = lambda D: one_of(
    D.to_monday(1, JAN), D.nth(3, MON, FEB, since=2008), D.easter(-3), D.between(18, 24, MON, MAY), D.to_monday(1, JUL),
    D.nth(1, MON, AUG), D.nth(1, MON, SEP), D.on(30, SEP, since=2021), D.on(1, OCT, MON, since=2021), D.on(2, OCT, MON, since=2021),
    D.nth(2, MON, OCT), D.to_monday(11, NOV), D.moved2(25, DEC), D.moved2(26, DEC))
R["chile"] = lambda D: one_of(
    D.on(1, JAN), D.on(2, JAN, MON, since=2017), D.easter(-3), D.easter(-2), D.on(1, MAY), D.on(21, MAY), D.on(21, JUN, since=2021),
    D.between(26, 29, MON, JUN), D.on(2, JUL, MON), D.on(16, JUL), D.on(15, AUG), D.on(17, SEP, MON, since=2007),
    D.on(17, SEP, FRI, since=2017), D.on(18, SEP), D.on(19, SEP), D.on(20, SEP, FRI, since=2007), D.between(9, 12, MON, OCT),
    D.on(15, OCT, MON), D.on(27, OCT, FRI, since=2008), D.on(31, OCT, [MON, THU, FRI, SAT, SUN], since=2008),
    D.on(2, NOV, FRI, since=2008), D.on(1, NOV), D.on(8, DEC), XMAS(D))
R["czech_republic"] = lambda D: one_of(
    D.on(1, JAN), D.years(D.easter(-3), since=2016), D.easter(0), D.on(1, MAY), D.on(8, MAY), D.on(5, JUL), D.on(6, JUL),
    D.on(28, SEP), D.on(28, OCT), D.on(17, NOV), D.on(24, DEC), XMAS(D), D.on(26, DEC), D.on(2, JAN, year=2004), D.on(31, DEC, year=2004))
R["denmark"] = lambda D: one_of(
    D.easter(-4), D.easter(-3), D.easter(0), D.years(D.easter(25), until=2023), D.easter(38), D.years(D.easter(39), since=2009),
    D.easter(49), D.on(1, JAN), D.on(5, JUN), D.on(24, DEC), XMAS(D), D.on(26, DEC), D.on(31, DEC))
R["finland"] = lambda D: one_of(
    D.on(1, JAN), D.on(6, JAN), D.easter(-3), D.easter(0), D.easter(38), D.on(1, MAY), D.between(18, 24, FRI, JUN), D.on(6, DEC),
    D.on(24, DEC), XMAS(D), D.on(26, DEC))
R["france"] = lambda D: one_of(
    D.on(1, JAN), D.easter(0), D.on(1, MAY), D.on(8, MAY), D.easter(38), D.easter(49), D.on(14, JUL), D.on(15, AUG), D.on(1, NOV),
    D.on(11, NOV), XMAS(D))
R["germany"] = lambda D: one_of(
    D.on(1, JAN), D.easter(-3), D.easter(0), D.easter(38), D.easter(49), D.easter(59), D.on(1, MAY), D.on(3, OCT), D.on(24, DEC),
    XMAS(D), D.on(26, DEC))
R["hungary"] = lambda D: one_of(
    D.on(1, JAN), D.on(15, MAR), D.easter(-3), D.easter(0), D.on(1, MAY), D.easter(49), D.on(20, AUG), D.on(23, OCT), D.on(1, NOV),
    XMAS(D), D.on(26, DEC))
R["iceland"] = lambda D: one_of(
    D.on(1, JAN), D.easter(-4), D.easter(-3), D.easter(0), D.between(19, 25, THU, APR), D.on(1, MAY), D.easter(38), D.easter(49),
    D.on(17, JUN), D.nth(1, MON, AUG), D.on(24, DEC), XMAS(D), D.on(26, DEC), D.on(31, DEC))
R["italy"] = lambda D: one_of(
    D.on(1, JAN), D.on(6, JAN), D.easter(0), D.on(25, APR), D.on(1, MAY), D.on(2, JUN), D.on(15, AUG), D.on(1, NOV), D.on(8, DEC),
    XMAS(D), D.on(26, DEC))
R["mexico"] = lambda D: one_of(
    D.on(1, JAN), D.nth(1, MON, FEB), D.nth(3, MON, MAR), D.on(1, MAY), D.on(16, SEP), D.nth(3, MON, NOV),
    D.on(1, OCT) & (np.fmod(D.y - 2018, 6) == 0), XMAS(D))
R["netherlands"] = lambda D: one_of(
    D.on(1, JAN), D.easter(-3), D.easter(-1), D.easter(0), D.on(27, APR, [MON, TUE, WED, THU, FRI, SAT]), D.on(26, APR, SAT),
    D.on(5, MAY, since=2020) & (D.y % 5 == 0), D.easter(38), D.easter(48), D.easter(49), XMAS(D), D.on(26, DEC))
R["new_zealand"] = lambda D: one_of(
    D.moved2(1, JAN), D.moved2(2, JAN), D.between(19, 25, MON, JAN), D.on(6, FEB), D.on(7, FEB, MON, since=2014), D.on(8, FEB, MON, since=2014),
    D.easter(-3), D.easter(0), D.on(25, APR), D.on(26, APR, MON, since=2014), D.on(27, APR, MON, since=2014), D.nth(1, MON, JUN),
    D.nth(4, MON, OCT), D.moved2(25, DEC), D.moved2(26, DEC), D.table("new_zealand"))
R["switzerland"] = lambda D: one_of(
    D.on(1, JAN), D.on(2, JAN), D.easter(-3), D.easter(0), D.on(1, MAY), D.easter(38), D.easter(49), D.on(1, AUG), D.on(24, DEC),
    XMAS(D), D.on(26, DEC), D.on(31, DEC))
R["united_kingdom"] = lambda D: one_of(
    D.to_monday(1, JAN), D.easter(-3), D.easter(0), D.nth(1, MON, MAY) & (D.y != 1995) & (D.y != 2020), D.on(8, MAY, year=[1995, 2020, 2023]),
    D.last(MON, MAY) & ~np.isin(D.y, [2002, 2012, 2022]), D.on(3, JUN, year=2002), D.on(4, JUN, year=[2002, 2012]), D.on(5, JUN, year=2012),
    D.on(2, JUN, year=2022), D.on(3, JUN, year=2022), D.last(MON, AUG), D.on(29, APR, year=2011), D.on(19, SEP, year=2022),
    D.moved2(25, DEC), D.moved2(26, DEC), D.on(31, DEC, year=1999))
R["united_states"] = lambda D: one_of(
    D.on(1, JAN), D.on(2, JAN, MON), D.on(31, DEC, FRI), D.nth(3, MON, JAN, since=1983),
    D.nth(3, MON, FEB, since=1971), D.us(22, FEB, until=1970), D.years(D.last(MON, MAY), since=1971), D.us(30, MAY, until=1970),
    D.us(19, JUN, since=2022), D.us(4, JUL), D.nth(1, MON, SEP), D.nth(2, MON, OCT, since=1971),
    D.us(11, NOV, until=1970), D.us(11, NOV, since=1978), D.nth(4, MON, OCT, since=1971, until=1977), D.nth(4, THU, NOV), D.us(25, DEC))
R["hong_kong"] = lambda D: one_of(
    D.sunday_to_monday(1, JAN), D.easter(-3), D.easter(0), D.sunday_to_monday(1, MAY), D.sunday_to_monday(1, JUL),
    D.sunday_to_monday(1, OCT), XMAS(D), D.on(26, DEC), D.table("hong_kong"))
R["singapore"] = lambda D: one_of(
    D.sunday_to_monday(1, JAN), D.easter(-3), D.sunday_to_monday(1, MAY), D.sunday_to_monday(9, AUG), D.sunday_to_monday(25, DEC),
    D.table("singapore"))
R["india"] = lambda D: one_of(
    D.on(26, JAN), D.easter(-3), D.on(1, MAY), D.on(15, AUG), D.on(2, OCT), XMAS(D), D.table("india"))
R["indonesia"] = lambda D: one_of(
    D.on(1, JAN), D.easter(-3), D.on(1, MAY), D.easter(38), D.on(18, MAY, year=2007), D.on(2, MAY, year=2008), D.on(10, MAY, year=2024),
    D.on(1, JUN), D.on(17, AUG), XMAS(D), D.on(26, DEC), D.table("indonesia"))
R["china"] = lambda D: one_of(
    D.on(1, JAN), *[D.on(k, m, until=u) for u, m, ks in ((2008, APR, [4]), (2007, MAY, range(1, 8)), (2008, JUN, [9]), (2008, SEP, [15]), (2007, OCT, range(1, 8))) for k in ks],
    D.table("china"))


def israel(D):
    hm, hd = D.p["hmonth"], D.p["hday"]
    leap = D.p["hleap"]
    m = np.where(leap & (hm > 6), hm - 1, np.where(leap & (hm == 6), 0, hm))   # 1 Tishrei .. 6 Adar (II) .. 12 Elul; 0 = Adar I
    day = lambda a, b: (m == a) & (hd == b)
    r = one_of(*[day(a, b) for a, b in ((12, 29), (1, 1), (1, 2), (1, 9), (1, 10), (1, 14), (1, 15), (1, 22), (1, 23), (6, 14),
                                        (7, 14), (7, 15), (7, 20), (7, 21), (9, 5), (9, 6), (11, 9))])
    r = r | day(11, 10) & (D.w == SUN)                     # Tisha B'Av moved from a Saturday
    # Independence Day: 5 Iyar, moved off Friday and Saturday to the Thursday before and off
    # Monday to Tuesday; Memorial Day is the day before it
    for hday, wd in ((5, WED), (4, THU), (3, THU), (6, TUE)):
        r = r | day(8, hday) & (D.w == wd) | day(8, hday - 1) & (D.w == wd - 1)
    return r


def hebrew(t):
    """icu's Hebrew date of the same day, as parts of the date"""
    def is_same_day(x):
        for s in subterms(x):
            if s.op == "app" and "try_new_iso_date" in str(s.a[0]):
                y, m, d = s.a[1:4]
                return y is P("year", D0) and m is discr(P("month", D0), 12) + 1 and d is P("day", D0)
        return False
    sub = {}
    for s in subterms(t):
        if s.op == "app" and "icu_calendar" in str(s.a[0]) and "is_in_leap_year" in s.a[0] and is_same_day(s):
            sub[s] = fn("date_hleap", D0)
        if s.op == "fld":
            b = s.a[0]
            if b.op == "app" and str(b.a[0]).startswith("icu_calendar") and is_same_day(b) and "Hebrew" in show(b):
                if b.a[0].endswith("::month") and show(s).endswith(".ordinal"):
                    sub[s] = fn("date_hmonth", D0)
                if b.a[0].endswith("::day_of_month"):
                    sub[s] = fn("date_hday", D0)
    return TM.subst(t, sub)


def tables():
    return json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "holiday_tables.json")))


def run(C):
    T = tables()
    C.part("easter", easter)
    for c in sorted(R):
        C.part(c, country, c, R[c], T)
    C.part("israel", country, "israel", israel, T)


def easter(C):
    it = C.free("easter_monday", "utilities")
    for orth in (False, True):
        r = C.ev(it, [P("year", D0), TRUE if orth else FALSE])
        if r is None:
            continue
        tab = np.array([easter_monday(y, orth) for y in range(Y0, Y1 + 1)])
        C.over_days("Easter Monday %s" % ("orthodox" if orth else "western"), r.ret, lambda p: tab[p["year"] - Y0], D0, it, rule="computus")
    it = C.free("unpack_date", "utilities")
    for orth in (False, True):
        r = C.ev(it, [D0, TRUE if orth else FALSE])
        if r is None:
            continue
        tab = np.array([easter_monday(y, orth) for y in range(Y0, Y1 + 1)])
        el = lambda i: fld(r.ret, 0, i, "tuple", 6)
        C.over_days("unpack_date Easter", el(5), lambda p: tab[p["year"] - Y0], D0, it, rule="computus")
        C.eq("unpack_date parts", mk("agg", "tuple", 0, *[el(i) for i in range(5)]),
             mk("agg", "tuple", 0, P("year", D0), P("month", D0), P("day", D0), P("weekday", D0), P("ordinal", D0)), it, rule="date parts")


def country(C, c, rule, T):
    it = C.free("is_holiday_impl_" + c)
    r = C.ev(it, [D0])
    if r is None:
        return
    t = hebrew(r.ret) if c == "israel" else r.ret
    C.over_days("holidays of " + c, t, lambda p: rule(Day(hp(p) if c == "israel" else p, T)), D0, it, rule="holiday rules on every day")


def hp(p):
    if "hmonth" not in p:
        p.update(caldom.hebrew_days(p["lo"], p["hi"]))
    return p
