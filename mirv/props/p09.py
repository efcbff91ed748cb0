"""justify_hours, justify_days, justify_interval"""
from .common import *


def one(S):
    i = iv(S)
    return [i], i


def samesign(*xs):
    return or_(and_(*[ge(x, 0) for x in xs]), and_(*[le(x, 0) for x in xs]))


def absless(x, n):
    return and_(lt(x, n), lt(-n, x))


def hours(K, i, o):
    if not isok(o):
        return [('never fails', False)]
    r = o[1]
    d = add(i.day, tquot(K, i.time, DAY))
    if not K.choose(in_i32(d)):
        return [('no crash', True)]
    return [('months kept', eq(r.month, i.month)),
            ('same length', eq(add(mul(r.day, DAY), r.time), add(mul(i.day, DAY), i.time))),
            ('less than a day of time', absless(r.time, DAY)), ('same sign', samesign(r.day, r.time))]


def days(K, i, o):
    if not isok(o):
        return [('never fails', False)]
    r = o[1]
    m = add(i.month, tquot(K, i.day, 30))
    if not K.choose(in_i32(m)):
        return [('no crash', True)]
    return [('time kept', eq(r.time, i.time)),
            ('same length', eq(add(mul(r.month, 30), r.day), add(mul(i.month, 30), i.day))),
            ('less than a month of days', absless(r.day, 30)), ('same sign', samesign(r.month, r.day))]


def both(K, i, o):
    if not isok(o):
        return [('never fails', False)]
    r = o[1]
    d = add(i.day, tquot(K, i.time, DAY))
    if not K.choose(in_i32(d)):
        return [('no crash', True)]
    m = add(i.month, tquot(K, d, 30))
    if not K.choose(in_i32(m)):
        return [('no crash', True)]
    tot = lambda x: add(mul(add(mul(x.month, 30), x.day), DAY), x.time)
    return [('same length', eq(tot(r), tot(i))), ('less than a month of days', absless(r.day, 30)),
            ('less than a day of time', absless(r.time, DAY)), ('same sign', samesign(r.month, r.day, r.time))]


def obs():
    return [Ob('justify hours', 'vp_iv_justify_hours', one, hours),
            Ob('justify days', 'vp_iv_justify_days', one, days),
            Ob('justify interval', 'vp_iv_justify_interval', one, both)]
