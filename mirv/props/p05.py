"""timestamp/date plus or minus interval/time: calendar arithmetic"""
from .common import *
from ..contracts import Public, Ok, Err
from ..interp import Undecided


def shift(K, t, i):
    """t plus interval i: months first (same day of month, or its last day), then days, then time;
    None when a step leaves the range"""
    if not K.choose(eq(i.month, 0)):
        d, u = split_day(t)
        y, m, dd = civil(K, add(d, EPOCH))
        n = add(i.month, m - 1)
        y2 = add(y, fdiv(n, 12))
        m2 = K.concrete(add(fmod(n, 12), 1))
        L = MLEN[m2 - 1]
        if m2 == 2 and K.choose(leap(y2)):
            L = 29
        if K.choose(gt(dd, L)):
            dd = L
        t = add(mul(sub(day_number(K, y2, m2, dd), EPOCH), DAY), u)
        if not K.choose(is_ts(t)):
            return None
    t = add(t, mul(i.day, DAY))
    if not K.choose(is_ts(t)):
        return None
    t = add(t, i.time)
    if not K.choose(is_ts(t)):
        return None
    return t


def judge(K, t, i, o):
    r = shift(K, t, i)
    if r is None:
        return [('out of range is refused', iserr(o))]
    return [('calendar arithmetic', ok_is(o, r))]


def minus(i):
    return Iv(neg(i.month), neg(i.day), neg(i.time))


def can_negate(i):
    return and_(ne(i.month, I32[0]), ne(i.day, I32[0]), ne(i.time, I64[0]))


def add_contract(K, I, t, i):
    """Timestamp::add_interval: the calendar shift of a finite timestamp"""
    t, i = t[0], unpack(I, i)
    if i is None or I.ctx.decide(is_ts(t)) is not True:
        return NotImplemented
    r = shift(K, t, i)
    return Err() if r is None else Ok(r)


def unpack(I, v):
    for ty in I.p.types.values():
        if ty['k'] == 'adt' and ty['name'].split('::')[-1] == 'Interval':
            return Iv(**dict(zip([f[0] for f in ty['variants'][0]['fields']], v)))


PROVIDES = [Public('pgdatetime::Timestamp::add_interval', add_contract)]


def obs():
    out = []
    months = [('no month', lambda S: 0)]
    for k in range(12):
        # every month count is 12*q + k
        def mk(S, k=k):
            q = S.int('q', -178956971, 178956970)
            m = add(mul(q, 12), k)
            S.require(and_(in_i32(m), ne(m, 0)))
            return m
        months.append(('months = %d mod 12' % k, mk))
    for nm, mk in months:
        for tn, tlo, thi in (('before 2000', TS_MIN, -1), ('from 2000', 0, TS_MAX)):
            def b(S, mk=mk, tlo=tlo, thi=thi):
                t = ts(S, 't', tlo, thi)
                i = Iv(mk(S), S.i32('i.day'), S.i64('i.time'))
                return [t, i], (t, i)
            out.append(Ob('timestamp + interval, %s, %s' % (nm, tn), 'vp_ts_add_interval', b, lambda K, e, o: judge(K, e[0], e[1], o),
                          timeout=150, weight=5, lazy=True if nm == 'no month' else 1, light=True, gives=PROVIDES[0].name))

    def b(S):
        t, i = ts(S), iv(S)
        return [t, i], (t, i)

    def e(K, e, o):
        t, i = e
        if not K.choose(can_negate(i)):
            return [('an interval without a negation is refused', iserr(o))]
        return judge(K, t, minus(i), o)
    out.append(Ob('timestamp - interval', 'vp_ts_sub_interval', b, e, timeout=150, weight=5, light=True))

    def b(S):
        d, i = date(S), iv(S)
        return [d, i], (d, i)

    def e(K, e, o, sg=1):
        d, i = e
        t = mul(d, DAY)
        if not K.choose(is_ts(t)):
            return [('a date beyond the timestamp range is refused', iserr(o))]
        if sg < 0:
            if not K.choose(can_negate(i)):
                return [('an interval without a negation is refused', iserr(o))]
            i = minus(i)
        return judge(K, t, i, o)
    out.append(Ob('date + interval', 'vp_date_add_interval', b, e, timeout=150, weight=4, light=True))
    out.append(Ob('date - interval', 'vp_date_sub_interval', b, lambda K, x, o, e=e: e(K, x, o, -1), timeout=150, weight=4, light=True))

    for nm, sg in (('add', 1), ('sub', -1)):
        def b(S):
            t, x = ts(S), tod(S, 'x')
            return [t, x], (t, x)
        out.append(Ob('timestamp %s time' % nm, 'vp_ts_%s_time' % nm, b, lambda K, e, o, sg=sg: judge(K, e[0], Iv(0, 0, mul(e[1], sg)), o)))

    def b(S):
        d, x = date(S), tod(S, 'x')
        return [d, x], (d, x)

    def e(K, e, o):
        t = mul(e[0], DAY)
        if not K.choose(is_ts(t)):
            return [('a date beyond the timestamp range is refused', iserr(o))]
        return judge(K, t, Iv(0, 0, e[1]), o)
    out.append(Ob('date + time', 'vp_date_add_time', b, e))

    for v, w in ((NEG_INF_T, NEG_INF_D), (INF_T, INF_D)):
        keep = lambda K, e, o, v=v: [('infinity stays', ok_is(o, v))]
        kneg = lambda K, e, o, v=v: [('infinity stays (or the interval has no negation)', or_(ok_is(o, v), and_(iserr(o), not_(can_negate(e)))))]

        def bi(S, v=v):
            i = iv(S)
            return [v, i], i

        def bt(S, v=v):
            x = tod(S, 'x')
            return [v, x], x
        out.append(Ob('%d + interval' % v, 'vp_ts_add_interval', bi, keep))
        out.append(Ob('%d - interval' % v, 'vp_ts_sub_interval', bi, kneg))
        out.append(Ob('%d + time' % v, 'vp_ts_add_time', bt, keep))
        out.append(Ob('%d - time' % v, 'vp_ts_sub_time', bt, keep))

        def bi(S, w=w):
            i = iv(S)
            return [w, i], i

        def bt(S, w=w):
            x = tod(S, 'x')
            return [w, x], x
        out.append(Ob('date %d + interval' % w, 'vp_date_add_interval', bi, keep))
        out.append(Ob('date %d - interval' % w, 'vp_date_sub_interval', bi, kneg))
        out.append(Ob('date %d + time' % w, 'vp_date_add_time', bt, keep))
    return out
