"""fields of intervals and times of day"""
from .common import *
from .p13 import few_hours

CLOCK = ['MicroSec', 'MilliSec', 'Second', 'Minute', 'Hour']
CAL = ['Day', 'Month', 'Quarter', 'Year', 'Decade', 'Century', 'Millennium']


def clock(K, t, unit):
    """part of a signed amount of time, with its sign"""
    if unit == 'Hour':
        return tquot(K, t, HOUR), 0
    if unit == 'Minute':
        return tquot(K, trem(K, t, HOUR), MINUTE), 0
    s = trem(K, t, MINUTE)
    n, tol = {'MicroSec': (1, 0), 'MilliSec': (1000, Fraction(1, 10**8)), 'Second': (US, Fraction(1, 10**11))}[unit]
    return mul(s, Fraction(1, n)), tol


def calendar(K, i, unit):
    if unit == 'Day':
        return i.day
    m = trem(K, i.month, 12)
    if unit == 'Month':
        return m
    if unit == 'Quarter':
        return add(tquot(K, m, 3), 1)
    return tquot(K, i.month, {'Year': 12, 'Decade': 120, 'Century': 1200, 'Millennium': 12000}[unit])


def is_float(o, v, tol):
    return [('the part of the value', close(o[1], v, tol) if isok(o) else False)]


def total_seconds(K, i):
    """a year counts 365.25 days, a further month 30 days"""
    y = tquot(K, i.month, 12)
    m = sub(i.month, mul(y, 12))
    return add(add(add(mul(y, 31557600), mul(m, 2592000)), mul(i.day, 86400)), mul(i.time, Fraction(1, US)))


def obs():
    out = []
    refused = lambda K, e, o: [('refused', iserr(o))]
    for unit in UNITS:
        def b(S, unit=unit):
            i = iv(S)
            return [i, 'Unit', unit], i

        def bt(S, unit=unit):
            t = tod(S)
            return [t, 'Unit', unit], t

        def e(K, i, o, unit=unit):
            if not K.choose(few_hours(i)):
                return [('more than 2^31 hours are refused', iserr(o))]
            v, tol = clock(K, i.time, unit) if unit in CLOCK else (calendar(K, i, unit), 0)
            return is_float(o, v, tol)

        def et(K, t, o, unit=unit):
            return is_float(o, *clock(K, t, unit))
        ok = unit in CLOCK + CAL
        out.append(Ob(('%s of an interval' if ok else '%s of an interval is refused') % unit, 'vp_iv_part', b, e if ok else refused))
        ok = unit in CLOCK
        out.append(Ob(('%s of a time' if ok else '%s of a time is refused') % unit, 'vp_time_part', bt, et if ok else refused))
        if unit != 'Epoch':
            def be(S, unit=unit):
                return [iv(S), 'Epoch', unit], None

            def bte(S, unit=unit):
                return [tod(S), 'Epoch', unit], None
            out.append(Ob('epoch %s of an interval is refused' % unit, 'vp_iv_part', be, refused))
            out.append(Ob('epoch %s of a time is refused' % unit, 'vp_time_part', bte, refused))

    def b(S):
        t = tod(S)
        return [t, 'Epoch', 'Epoch'], t
    out.append(Ob('seconds of a time', 'vp_time_part', b, lambda K, t, o: is_float(o, mul(t, Fraction(1, US)), Fraction(1, 10**9))))
    for nm, mo, d, h, tol in (('interval', 1 << 31, 1 << 31, 1 << 63, 8), ('usual interval', 12000, 400000, 10**6 * HOUR, Fraction(1, 10**4)),
                              ('short interval', 12, 400, 1000 * DAY, Fraction(1, 10**6))):
        def b(S, mo=mo, d=d, h=h):
            i = Iv(S.int('i.month', -mo, mo - 1), S.int('i.day', -d, d - 1), S.int('i.time', -h, h - 1))
            return [i, 'Epoch', 'Epoch'], i
        out.append(Ob('seconds of an %s' % nm if nm[0] == 'i' else 'seconds of a %s' % nm, 'vp_iv_part', b,
                      lambda K, i, o, tol=tol: is_float(o, total_seconds(K, i), tol)))
    return out
