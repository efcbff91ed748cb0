"""differences of timestamps"""
from .common import *


def judge(K, a, b, o):
    x = sub(a, b)
    if not K.choose(in_i64(x)):
        return [('a difference that does not fit is refused', iserr(o))]
    if not isok(o):
        return [('a difference that fits is given', False)]
    r = o[1]
    return [('no months', eq(r.month, 0)), ('days and time add up to the exact difference', eq(add(mul(r.day, DAY), r.time), x)),
            ('less than a day of time', and_(lt(r.time, DAY), lt(-DAY, r.time))),
            ('days and time have the same sign', and_(implies(gt(r.day, 0), ge(r.time, 0)), implies(lt(r.day, 0), le(r.time, 0))))]


def obs():
    out = []

    def b(S):
        a = [ts(S, 'a'), ts(S, 'b')]
        return a, a
    out.append(Ob('timestamp - timestamp', 'vp_ts_sub_timestamp', b, lambda K, a, o: judge(K, a[0], a[1], o)))

    def b(S):
        a = [ts(S, 'a'), date(S, 'b')]
        return a, a

    def e(K, a, o):
        x = mul(a[1], DAY)
        if not K.choose(is_ts(x)):
            return [('a date beyond the timestamp range is refused', iserr(o))]
        return judge(K, a[0], x, o)
    out.append(Ob('timestamp - date', 'vp_ts_sub_date', b, e))
    bad = lambda K, e, o: [('no difference with infinity', iserr(o))]
    for v, w in ((NEG_INF_T, NEG_INF_D), (INF_T, INF_D)):
        out.append(Ob('%d - timestamp' % v, 'vp_ts_sub_timestamp', lambda S, v=v: ([v, ts(S)], v), bad))
        out.append(Ob('timestamp - %d' % v, 'vp_ts_sub_timestamp', lambda S, v=v: ([ts(S), v], v), bad))
        out.append(Ob('%d - date' % v, 'vp_ts_sub_date', lambda S, v=v: ([v, date(S)], v), bad))
        out.append(Ob('timestamp - date %d' % w, 'vp_ts_sub_date', lambda S, w=w: ([ts(S), w], w), bad))
        for x in (NEG_INF_T, INF_T):
            out.append(Ob('%d - %d' % (v, x), 'vp_ts_sub_timestamp', const(v, x), bad))
    return out
