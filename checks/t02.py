"""Business days, rolling and schedules.  Calendar's methods are value-numbered
with the per-market holiday rules (decided in T03) uninterpreted; every
rolling convention is compared with its definition in the module's
documentation, stated over the day-by-day search."""
from tlib import *

FLOOR = 40
MARKETS = {
    "Argentina": "argentina", "Australia": "australia", "Austria": "austria", "Botswana": "botswana", "Brazil": "brazil",
    "Canada": "canada", "Chile": "chile", "China": "china", "CzechRepublic": "czech_republic", "Denmark": "denmark",
    "Finland": "finland", "France": "france", "Germany": "germany", "HongKong": "hong_kong", "Hungary": "hungary",
    "Iceland": "iceland", "India": "india", "Indonesia": "indonesia", "Israel": "israel", "Italy": "italy",
    "Mexico": "mexico", "Netherlands": "netherlands", "NewZealand": "new_zealand", "Singapore": "singapore",
    "UnitedKingdom": "united_kingdom", "UnitedStates": "united_states", "Switzerland": "switzerland"}
HOL = lambda i: i.name == "is_holiday" or i.name.startswith("is_holiday_impl")
cal, D = var("calendar"), var("date")


def call(item, *args):
    return app("fn:" + item.did, *args)


def run(C):
    is_hol = C.method("Calendar", "is_holiday", crate=CR)

    def weekend(d, c=cal):
        isr = C.S.isv(C.S.get(c, "Calendar", "market", crate=CR), "Market", "Israel", crate=CR)
        w = WD(d)
        return If(isr, Or(eq(w, 4), eq(w, 5)), Or(eq(w, 5), eq(w, 6)))

    def busi(d, c=cal):
        return And(not_(weekend(d, c)), not_(call(is_hol, c, d)))

    def search(sign, d=D, c=cal):
        """first business day on or after (before) d"""
        body = TM.lamf(lambda x: mk("agg", "tuple", 0, not_(busi(x, c)), busi(x, c), date_plus(x, num(sign))))
        return mk("wout", mk("wloop", body, d), num(0))

    fwd, back = search(1), search(-1)

    def weekend_part(C):
        it = C.method("Calendar", "is_weekend", crate=CR)
        r = C.ev(it, [cal, D])
        if r is not None:
            C.eq("is_weekend", r.ret, weekend(D), it, rule="weekend definition")
        it = C.method("Calendar", "is_business_day", crate=CR)
        r = C.ev(it, [cal, D], opaque=HOL)
        if r is not None:
            C.eq("is_business_day", r.ret, busi(D), it, rule="business day = neither weekend nor holiday")
    C.part("weekend", weekend_part)

    def dispatch(C):
        C_extra = C.S.get(cal, "Calendar", "extra", crate=CR)
        for m in list(MARKETS) + ["None", "Weekends"]:
            v = C.S.variant("Market", m, crate=CR)
            c = C.S.make("Calendar", crate=CR, market=v, extra=C_extra)
            r = C.ev(is_hol, [c, D], opaque=lambda i: i.name.startswith("is_holiday_impl"))
            if r is None:
                continue
            used = set()
            for x in subterms(r.ret):
                if x.op == "app" and "is_holiday_impl" in str(x.a[0]):
                    used.add(str(x.a[0]).split("is_holiday_impl_")[-1])
            if m in MARKETS:
                impl = C.free("is_holiday_impl_" + MARKETS[m], MARKETS[m])
                if impl is None:
                    continue
                other = used - {MARKETS[m]}
                C.fact("%s uses its own country's rules" % m, not other, is_hol,
                       "market %s is decided by the holiday rules of %s" % (m, sorted(other)), rule="dispatch")
                if not other:
                    C.eq("is_holiday %s" % m, r.ret, Or(app("haskey", C_extra, D), call(impl, D)), is_hol, rule="dispatch")
            else:
                C.fact("%s has no market holidays" % m, not used, is_hol, "market %s is decided by the holiday rules of %s" % (m, sorted(used)), rule="dispatch")
                if not used:
                    C.eq("is_holiday %s" % m, r.ret, app("haskey", C_extra, D), is_hol, rule="dispatch")
    C.part("dispatch", dispatch)

    def rolling(C):
        it = C.method("Calendar", "roll_date", crate=CR)
        samem = lambda x: eq(MI(x), MI(D))
        T = {"Actual": D, "Following": fwd, "Preceding": back, "ModifiedRolling": fwd,
             "ModifiedFollowing": If(samem(fwd), fwd, back), "ModifiedPreceding": If(samem(back), back, fwd)}
        for n, w in T.items():
            r = C.ev(it, [cal, D, C.S.variant("DateRollingConvention", n, crate=CR)], opaque=HOL)
            if r is not None:
                C.eq("roll_date " + n, r.ret, w, it, rule="rolling convention")
        op = lambda i: i.name == "roll_date"
        it2 = C.method("Calendar", "roll_dates", crate=CR)
        ds, cv = var("dates"), var("convention")
        r = C.ev(it2, [cal, ds, cv], opaque=op)
        if r is not None:
            C.eq("roll_dates", r.ret, SEQ(LEN(ds), lambda j: call(it, cal, ds[j], cv)), it2, rule="rolling each date")
        for n, w in (("next_business_day", fwd), ("previous_business_day", back)):
            i3 = C.free(n, "utilities")
            r = C.ev(i3, [D, cal], opaque=HOL)
            if r is not None:
                C.eq(n, r.ret, w, i3, rule="rolling convention")
    C.part("rolling", rolling)

    def counts(C):
        d1, d2, ds = var("date1"), var("date2"), var("dates")
        it = C.method("Calendar", "business_day_count", crate=CR)
        r = C.ev(it, [cal, d1, d2], opaque=HOL)
        L = mk("wloop", TM.lamf(lambda x: TM.lamf(lambda n: mk("agg", "tuple", 0, J(x) <= J(d2), not_(J(x) <= J(d2)), date_plus(x, num(1)), If(busi(x), n + 1, n)))), d1, num(0))
        if r is not None:
            C.eq("business_day_count", r.ret, mk("wout", L, num(1)), it, rule="business days of [date1, date2]")
        it4 = C.method("Calendar", "calendar_day_count", crate=CR)
        r = C.ev(it4, [cal, d1, d2])
        if r is not None:
            C.eq("calendar_day_count", r.ret, J(d2) - J(d1), it4, rule="day count")
        for n, one in (("calendar_day_counts", it4), ("business_day_counts", it)):
            i2 = C.method("Calendar", n, crate=CR)
            r = C.ev(i2, [cal, ds], opaque=lambda i: i.name == one.name)
            if r is not None:
                j = var("j")
                C.eq(n + ": number of counts", LEN(r.ret), LEN(ds) - 1, i2, [1 <= LEN(ds)], rule="one count per consecutive pair")
                C.eq(n, r.ret[j], call(one, cal, ds[j], ds[j + 1]), i2, [0 <= j, j < LEN(ds) - 1], ints=[j], rule="one count per consecutive pair")
    C.part("counts", counts)

    def schedule(C):
        it = C.method("Calendar", "generate_schedule_from_dates", crate=CR)
        roll = C.method("Calendar", "roll_date", crate=CR)
        dcf = C.method("DayCountConvention", "day_count_factor", crate=CR)
        ds, rc, dc = var("dates"), var("rolling"), var("counting")
        r = C.ev(it, [cal, ds, rc, dc], opaque=lambda i: i.name == "roll_date" or i.name == "day_count_factor" and "DayCount" in i.path or i is dcf)
        if r is None:
            return
        g = lambda f: C.S.get(r.ret, "Schedule", f, crate=CR)
        rd = lambda j: call(roll, cal, ds[j], rc)
        C.eq("schedule dates", g("dates"), SEQ(LEN(ds), rd), it, [1 <= LEN(ds)], rule="schedule")
        j = var("j")
        fs = g("day_count_factors")
        C.eq("schedule: one factor per date", LEN(fs), LEN(ds), it, [1 <= LEN(ds)], rule="schedule")
        today = C.free("today", "utilities")
        t = C.ev(today, [])
        C.eq("schedule: first factor from today", fs[num(0)], call(dcf, dc, t.ret, rd(num(0))), it, [1 <= LEN(ds)], rule="schedule")
        C.eq("schedule: factors between consecutive dates", fs[j], call(dcf, dc, rd(j - 1), rd(j)), it, [1 <= LEN(ds), 1 <= j, j < LEN(ds)], ints=[j], rule="schedule")
        C.eq("schedule conventions", mk("agg", "tuple", 0, g("date_rolling_convention"), g("day_counting_convention")), mk("agg", "tuple", 0, rc, dc), it, rule="schedule")
    C.part("schedule", schedule)

    def holidays(C):
        c0, ds = var("before"), var("dates")
        ins = lambda s, d: app("mut:alloc::collections::btree::set::BTreeSet::insert:0", s, d)
        mkc = lambda c, e: C.S.make("Calendar", crate=CR, market=C.S.get(c, "Calendar", "market", crate=CR), extra=e)
        ex = lambda c: C.S.get(c, "Calendar", "extra", crate=CR)
        it = C.method("Calendar", "add_holiday", crate=CR)
        r = C.ev(it, [cal, D], state={cal: c0})
        if r is not None:
            C.eq("add_holiday", r.final(cal), mkc(c0, ins(ex(c0), D)), it, rule="effect")
        it = C.method("Calendar", "add_holidays", crate=CR)
        r = C.ev(it, [cal, ds], state={cal: c0})
        if r is not None:
            C.eq("add_holidays", r.final(cal), mk("rec", LEN(ds), TM.lamf(lambda c: TM.lamf(lambda i: mk("agg", "tuple", 0, mkc(c, ins(ex(c), ds[i]))))), c0), it, rule="effect")
        it = C.method("Calendar", "new", crate=CR)
        m = var("market")
        r = C.ev(it, [m])
        if r is not None:
            C.eq("new has the market", C.S.get(r.ret, "Calendar", "market", crate=CR), m, it, rule="effect")
        it = C.method("Calendar", "market", crate=CR)
        r = C.ev(it, [cal])
        if r is not None:
            C.eq("market", r.ret, C.S.get(cal, "Calendar", "market", crate=CR), it, rule="accessor")
        it = C.method("Calendar", "extra_holidays", crate=CR)
        r = C.ev(it, [cal])
        if r is not None:
            C.eq("extra_holidays", r.ret, ex(cal), it, rule="accessor")
    C.part("holidays", holidays)
