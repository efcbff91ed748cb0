"""truncation of intervals and times of day"""
from .common import *

TIME_STEP = {'MicroSec': 1, 'MilliSec': 1000, 'Second': US, 'Minute': MINUTE, 'Hour': HOUR}
MONTHS = {'Month': 1, 'Quarter': 3, 'Year': 12, 'Decade': 120, 'Century': 1200, 'Millennium': 12000}
HOURS = (1 << 31) * HOUR


def towards_zero(K, x, n):
    return mul(tquot(K, x, n), n) if n != 1 else x


def start(K, i, unit):
    if unit in TIME_STEP:
        return Iv(i.month, i.day, towards_zero(K, i.time, TIME_STEP[unit]))
    if unit == 'Day':
        return Iv(i.month, i.day, 0)
    return Iv(towards_zero(K, i.month, MONTHS[unit]), 0, 0)


def few_hours(i):
    return and_(lt(i.time, HOURS), gt(i.time, -HOURS - HOUR))


def obs():
    out = []
    for unit in UNITS:
        ok = unit in TIME_STEP or unit in MONTHS or unit == 'Day'

        def b(S, unit=unit):
            i = iv(S)
            return [i, 'Unit', unit], i

        def bt(S, unit=unit):
            t = tod(S)
            return [t, 'Unit', unit], t

        def e(K, i, o, unit=unit):
            if not K.choose(few_hours(i)):
                return [('more than 2^31 hours are refused', iserr(o))]
            return [('the part down to the unit', ok_is(o, start(K, i, unit)))]

        def et(K, t, o, unit=unit):
            r = start(K, Iv(0, 0, t), unit).time
            return [('the part down to the unit, as a clock time', ok_is(o, fmod(r, DAY)))]
        refused = lambda K, e, o: [('refused', iserr(o))]
        out.append(Ob('interval truncated to %s' % unit if ok else 'interval cannot be truncated to %s' % unit, 'vp_iv_truncate', b, e if ok else refused))
        out.append(Ob('time truncated to %s' % unit if ok else 'time cannot be truncated to %s' % unit, 'vp_time_truncate', bt, et if ok else refused))

        def be(S, unit=unit):
            return [iv(S), 'Epoch', unit], None

        def bte(S, unit=unit):
            return [tod(S), 'Epoch', unit], None
        out.append(Ob('interval cannot be truncated to epoch %s' % unit, 'vp_iv_truncate', be, refused))
        out.append(Ob('time cannot be truncated to epoch %s' % unit, 'vp_time_truncate', bte, refused))
    return out
