"""conversions between the types, ordering"""
from .common import *


def obs():
    out = []

    def one(name, entry, mk, ens):
        def b(S):
            v = mk(S)
            return [v], v
        out.append(Ob(name, entry, b, lambda K, v, o: ens(K, v, o)))

    def e(K, d, o):
        r = mul(d, DAY)
        if K.choose(is_ts(r)):
            return [('midnight of that day', ok_is(o, r))]
        return [('refused', iserr(o))]
    one('date -> timestamp', 'vp_ts_from_date', date, e)
    for x, y in ((NEG_INF_D, NEG_INF_T), (INF_D, INF_T)):
        one('infinite date -> timestamp %d' % x, 'vp_ts_from_date', lambda S, x=x: x, lambda K, v, o, y=y: [('the same infinity', ok_is(o, y))])
        one('infinite timestamp -> date %d' % x, 'vp_date_from_timestamp', lambda S, y=y: y, lambda K, v, o, x=x: [('the same infinity', ok_is(o, x))])
        one('infinite timestamp -> time %d' % x, 'vp_time_from_timestamp', lambda S, y=y: y, lambda K, v, o: [('no time of day', ok_is(o, None))])
        one('finiteness of infinite date %d' % x, 'vp_date_is_finite', lambda S, x=x: x, lambda K, v, o: [('not finite', ok_is(o, False))])
        one('infiniteness of infinite date %d' % x, 'vp_date_is_infinite', lambda S, x=x: x, lambda K, v, o: [('infinite', ok_is(o, True))])
        one('finiteness of infinite timestamp %d' % x, 'vp_ts_is_finite', lambda S, y=y: y, lambda K, v, o: [('not finite', ok_is(o, False))])
        one('infiniteness of infinite timestamp %d' % x, 'vp_ts_is_infinite', lambda S, y=y: y, lambda K, v, o: [('infinite', ok_is(o, True))])
    fin = lambda K, v, o: [('finite', ok_is(o, True))]
    nin = lambda K, v, o: [('not infinite', ok_is(o, False))]
    one('finite date', 'vp_date_is_finite', date, fin)
    one('finite date, negated', 'vp_date_is_infinite', date, nin)
    one('finite timestamp', 'vp_ts_is_finite', ts, fin)
    one('finite timestamp, negated', 'vp_ts_is_infinite', ts, nin)
    one('time is finite', 'vp_time_is_finite', tod, fin)
    one('interval is finite', 'vp_iv_is_finite', iv, fin)
    one('timestamp -> date', 'vp_date_from_timestamp', ts, lambda K, t, o: [('the day that contains it', ok_is(o, split_day(t)[0]))])
    one('timestamp -> time', 'vp_time_from_timestamp', ts, lambda K, t, o: [('the time since that day began', ok_is(o, ('some', split_day(t)[1])))])
    one('time -> interval', 'vp_iv_from_time', tod, lambda K, t, o: [('the same amount of time', ok_is(o, Iv(0, 0, t)))])
    one('interval -> time', 'vp_time_from_interval', iv, lambda K, i, o: [('the time part modulo 24 hours', ok_is(o, split_day(i.time)[1]))])
    ident = lambda K, v, o: [('the value is kept', ok_is(o, v))]
    i32 = lambda S: S.i32('v')
    i64 = lambda S: S.i64('v')
    for n, mk in (('vp_date_from_i32', i32), ('vp_date_into_i32', i32), ('vp_time_from_i64', i64), ('vp_time_into_i64', i64),
                  ('vp_ts_from_i64', i64), ('vp_ts_into_i64', i64)):
        one('raw value ' + n, n, mk, ident)
    out.append(Ob('new time', 'vp_time_new', lambda S: ([], None), lambda K, v, o: [('midnight', ok_is(o, 0))]))
    out.append(Ob('new interval', 'vp_iv_new', lambda S: ([], None), lambda K, v, o: [('zero', ok_is(o, Iv(0, 0, 0)))]))

    for n, mk in (('date', lambda S, n: S.i32(n)), ('time', lambda S, n: S.i64(n)), ('ts', lambda S, n: S.i64(n))):
        def b(S, mk=mk):
            a = [mk(S, 'a'), mk(S, 'b')]
            return a, a

        def ec(K, a, o):
            if K.choose(lt(a[0], a[1])):
                return [('earlier is less', ok_is(o, -1))]
            if K.choose(eq(a[0], a[1])):
                return [('same is equal', ok_is(o, 0))]
            return [('later is greater', ok_is(o, 1))]
        out.append(Ob(n + ' order', 'vp_%s_cmp' % n, b, ec))
        out.append(Ob(n + ' equality', 'vp_%s_eq' % n, b, lambda K, a, o: [('equal exactly when the same instant', ok_is(o, eq(a[0], a[1])))]))
    return out
