"""fields of timestamps and dates"""
from .common import *

SPLIT = ['MicroSec', 'MilliSec', 'Second', 'Minute', 'Hour']
FIELDS = SPLIT + ['Day', 'Month', 'Quarter', 'Week', 'Year', 'Decade', 'Century', 'Millennium', 'JULIAN', 'IsoYear', 'Dow', 'IsoDow', 'Doy']
GROW = ['Year', 'Decade', 'Century', 'Millennium', 'JULIAN', 'IsoYear', 'Epoch']
CYCLE = [u for u in FIELDS if u not in GROW] + ['Tz', 'TzMinute', 'TzHour']
NO_CHAIN = SPLIT + ['JULIAN', 'Dow', 'IsoDow']


def no_year_zero(K, y):
    return y if K.choose(gt(y, 0)) else sub(y, 1)


def age_of(K, y, n):
    """1st, 2nd .. century (millennium) of the common era, or -1st, -2nd .. before it"""
    if K.choose(gt(y, 0)):
        return fdiv(add(y, n - 1), n)
    return mul(-1, fdiv(add(sub(1, y), n - 1), n))


def field(K, t, unit):
    """(exact value, tolerance) of a field of a finite timestamp"""
    d, u = split_day(t)
    j = add(d, EPOCH)
    if unit in SPLIT:
        h, mi, s, f = hms(u)
        if unit == 'MicroSec':
            return add(mul(s, US), f), 0
        if unit == 'MilliSec':
            return add(mul(s, 1000), mul(f, Fraction(1, 1000))), Fraction(1, 10**8)
        if unit == 'Second':
            return add(s, mul(f, Fraction(1, US))), Fraction(1, 10**11)
        return {'Minute': mi, 'Hour': h}[unit], 0
    if unit == 'JULIAN':
        return add(j, mul(u, Fraction(1, DAY))), Fraction(1, 10**6)
    if unit == 'Dow':
        return weekday(j), 0
    if unit == 'IsoDow':
        return add(fmod(j, 7), 1), 0
    if unit in ('Week', 'IsoYear'):
        th = add(monday(j), 3)          # the year of a week is the year of its Thursday
        y, m, c = civil(K, j)
        if K.choose(lt(th, day_number(K, y, 1, 1))):
            y = sub(y, 1)
        elif K.choose(ge(th, day_number(K, add(y, 1), 1, 1))):
            y = add(y, 1)
        if unit == 'IsoYear':
            return no_year_zero(K, y), 0
        return add(fdiv(sub(th, day_number(K, y, 1, 1)), 7), 1), 0
    y, m, c = civil(K, j)
    if unit == 'Doy':
        return add(sub(j, day_number(K, y, 1, 1)), 1), 0
    return {'Day': lambda: c, 'Month': lambda: m, 'Quarter': lambda: (m + 2) // 3, 'Year': lambda: no_year_zero(K, y),
            'Decade': lambda: fdiv(y, 10), 'Century': lambda: age_of(K, y, 100),
            'Millennium': lambda: age_of(K, y, 1000)}[unit](), 0


def judge(K, t, unit, o):
    if not isok(o):
        return [('the field of the instant', False)]
    v, tol = field(K, t, unit)
    return [('the field of the instant', close(o[1], v, tol))]


def obs():
    out = []
    refused = lambda K, e, o: [('refused', iserr(o))]
    for unit in UNITS:
        for nm, entry in (('timestamp', 'vp_ts_part'), ('date', 'vp_date_part')):
            if nm == 'timestamp':
                def b(S, unit=unit):
                    t = ts(S)
                    return [t, 'Unit', unit], t
                e = lambda K, t, o, unit=unit: judge(K, t, unit, o)
            else:
                def b(S, unit=unit):
                    d = date(S)
                    return [d, 'Unit', unit], d

                def e(K, d, o, unit=unit):
                    t = mul(d, DAY)
                    if not K.choose(is_ts(t)):
                        return [('a date beyond the timestamp range is refused', iserr(o))]
                    return judge(K, t, unit, o)
            if unit in FIELDS:
                iso = unit in ('Week', 'IsoYear')
                out.append(Ob('%s of a %s' % (unit, nm), entry, b, e, timeout=150, light=None if unit in NO_CHAIN else 'iso' if iso else 'chain', lazy=1 if iso else False))
            else:
                out.append(Ob('%s of a %s is refused' % (unit, nm), entry, b, refused))

            def b2(S, nm=nm, unit=unit):
                return [ts(S) if nm == 'timestamp' else date(S), 'Epoch', unit], None
            out.append(Ob('epoch %s of a %s is refused' % (unit, nm), entry, b2, refused))
            for ty in ('Unit', 'Epoch'):
                for v, w in (((NEG_INF_T, -1), (INF_T, 1)) if nm == 'timestamp' else ((NEG_INF_D, -1), (INF_D, 1))):
                    if ty == 'Epoch' and unit != 'Epoch':
                        continue
                    ex = 0.0 if unit in CYCLE else w * float('inf') if unit in GROW else None
                    out.append(Ob('%s %s of %s %d' % (ty, unit, nm, v), entry, const(v, ty, unit),
                                  lambda K, e, o, ex=ex: [('refused', iserr(o)) if ex is None else ('zero or that infinity', ok_is(o, ex))]))
    return out
