"""truncation of timestamps and dates"""
from .common import *
from ..contracts import Public, Ok, Err

STEP = {'MilliSec': 1000, 'Second': US, 'Minute': MINUTE, 'Hour': HOUR, 'Day': DAY}
YEARS = {'Decade': (10, 0), 'Century': (100, 1), 'Millennium': (1000, 1)}


def start(K, t, unit):
    """first instant of the calendar unit t lies in"""
    if unit == 'MicroSec':
        return t
    if unit in STEP:
        return mul(fdiv(t, STEP[unit]), STEP[unit])
    d, u = split_day(t)
    j = add(d, EPOCH)
    if unit == 'Week':
        return mul(sub(monday(j), EPOCH), DAY)
    y, m, c = civil(K, j)
    if unit == 'Quarter':
        m = (m - 1) // 3 * 3 + 1
    elif unit != 'Month':
        m = 1
    if unit in YEARS:
        n, o = YEARS[unit]
        y = add(mul(fdiv(sub(y, o), n), n), o)
    return mul(sub(day_number(K, y, m, 1), EPOCH), DAY)


UNITS_OK = ['MicroSec'] + list(STEP) + ['Week', 'Month', 'Quarter', 'Year'] + list(YEARS)


def judge(K, t, unit, o, div=1):
    r = start(K, t, unit)
    if K.choose(is_ts(r)):
        return [('the first instant of the unit', ok_is(o, r if div == 1 else fdiv(r, div)))]
    return [('a start outside the range is refused', iserr(o))]


def contract(K, I, t, ty, unit):
    """Timestamp::truncate of a finite timestamp"""
    t = t[0]
    if ty not in ('Unit', 'Epoch') or unit not in UNITS or I.ctx.decide(is_ts(t)) is not True:
        return NotImplemented
    if ty == 'Epoch' or unit not in UNITS_OK:
        return Err()
    r = start(K, t, unit)
    return Ok(r) if K.choose(is_ts(r)) else Err()


PROVIDES = [Public('<pgdatetime::Timestamp as pgdatetime::DateTime>::truncate', contract)]


def obs():
    out = []
    gives = lambda nm: PROVIDES[0].name if nm == 'timestamp' else None
    for unit in UNITS:
        un = unit
        for nm, entry in (('timestamp', 'vp_ts_truncate'), ('date', 'vp_date_truncate')):
            if unit in UNITS_OK:
                parts = [('', TS_MIN, TS_MAX)]
                if nm == 'timestamp' and unit in ('Week', 'Month', 'Quarter', 'Year', 'Decade', 'Century', 'Millennium'):
                    parts = [(' before 2000', TS_MIN, -1), (' from 2000', 0, TS_MAX)]
                for pn, lo, hi in parts:
                    if nm == 'timestamp':
                        def b(S, lo=lo, hi=hi, un=un):
                            t = ts(S, 't', lo, hi)
                            return [t, 'Unit', un], t
                        e = lambda K, t, o, unit=unit: judge(K, t, unit, o)
                    else:
                        def b(S, un=un):
                            d = date(S)
                            return [d, 'Unit', un], d

                        def e(K, d, o, unit=unit):
                            t = mul(d, DAY)
                            if not K.choose(is_ts(t)):
                                return [('a date beyond the timestamp range is refused', iserr(o))]
                            return judge(K, t, unit, o, DAY)
                    out.append(Ob('%s truncated to %s%s' % (nm, unit, pn), entry, b, e, timeout=150, gives=gives(nm), light='iso' if unit == 'Week' else 'chain', lazy=1 if unit == 'Week' else False))
            else:
                def b(S, nm=nm, un=un):
                    t = ts(S) if nm == 'timestamp' else date(S)
                    return [t, 'Unit', un], t
                out.append(Ob('%s cannot be truncated to %s' % (nm, unit), entry, b, lambda K, e, o: [('refused', iserr(o))], gives=gives(nm)))
    for nm, entry, mk, infs in (('timestamp', 'vp_ts_truncate', ts, (NEG_INF_T, INF_T)), ('date', 'vp_date_truncate', date, (NEG_INF_D, INF_D))):
        for unit in UNITS:
            def b(S, mk=mk, unit=unit):
                return [mk(S), 'Epoch', unit], None
            out.append(Ob('%s cannot be truncated to epoch %s' % (nm, unit), entry, b, lambda K, e, o: [('refused', iserr(o))], gives=gives(nm)))
            if unit in UNITS_OK:
                for v in infs:
                    out.append(Ob('%s %d truncated to %s' % (nm, v, unit), entry, const(v, 'Unit', unit),
                                  lambda K, e, o, v=v: [('infinity stays', ok_is(o, v))]))
    return out
