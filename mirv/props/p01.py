"""construction of a date from year, month, day"""
from .common import *


def build(S):
    a = [S.i32('y'), S.i32('m'), S.i32('d')]
    return a, a


def ensures(K, a, out):
    y, m, d = a
    if not K.choose(rng(m, 1, 12)):
        return [('a month outside 1..12 is refused', iserr(out))]
    m = K.concrete(m)
    if K.choose(eq(y, 0)):
        return [('year zero is refused', iserr(out))]
    ay = y
    if not K.choose(gt(y, 0)):
        ay = add(y, 1)          # 1 BC is astronomical year 0
    if not K.choose(real_day(ay, m, d)):
        return [('a day the calendar does not have is refused', iserr(out))]
    v = sub(jdn(ay, m, d), EPOCH)
    if K.choose(is_date(v)):
        return [('a real date gives the day number of that date', ok_is(out, v))]
    return [('a date outside the supported range is refused', iserr(out))]


def obs():
    return [Ob('date from year, month, day', 'vp_date_try_from_ymd', build, ensures)]
