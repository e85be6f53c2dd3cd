from spec import *
from models import date_part, month_len, leap, mkdate, date_plus, date_of
import term as TM

CR = "RustQuant_time"
S0, E0 = var("start_date"), var("end_date")


def P(name, d):
    return date_part(name, d)


def Y(d):
    return P("year", d)


def MI(d):
    """month, 0 = January"""
    return discr(P("month", d), 12)


def DD(d):
    return P("day", d)


def WD(d):
    """weekday, 0 = Monday"""
    return discr(P("weekday", d), 7)


def J(d):
    return date_of(d)


def month_const(C, k):
    return C.S.variant("Month", ["January", "February", "March", "April", "May", "June", "July", "August", "September",
                                 "October", "November", "December"][k], crate="time")


def lastfeb(d):
    return And(eq(MI(d), 1), eq(DD(d), If(leap(Y(d)), num(29), num(28))))


def leapdays_to(d):
    """number of 29ths of February up to and including d"""
    y = Y(d) - 1
    q = lambda k: fn("div_euclid", y, num(k))
    return q(4) - q(100) + q(400) + If(And(leap(Y(d)), num(60) <= P("ordinal", d)), num(1), num(0))
