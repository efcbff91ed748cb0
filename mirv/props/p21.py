"""serialization round trips"""
from .common import *
from . import text as X
from .p19 import regions, HM
import itertools


def obs():
    out = []

    def binary(name, entry, mk):
        for w in (False, True):
            def b(S, w=w):
                v = mk(S)
                return [v, False, w], v
            out.append(Ob('%s through a %s format' % (name, 'self-describing binary' if w else 'binary'), entry, b, lambda K, v, o: [('unchanged', ok_is(o, v))]))
    binary('date', 'vp_date_serde', lambda S: S.i32('d'))
    binary('time', 'vp_time_serde', lambda S: S.i64('t'))
    binary('timestamp', 'vp_ts_serde', lambda S: S.i64('t'))
    anyiv = lambda S: Iv(S.i32('i.month'), S.i32('i.day'), S.i64('i.time'))
    binary('interval', 'vp_iv_serde', anyiv)

    def b(S):
        i = S.i64('i')
        return [i], i
    out.append(Ob('date from a wide integer', 'vp_date_serde_int', b, lambda K, i, o: [('the day, or refused when too large', ok_is(o, i) if K.choose(and_(ge(i, -2 ** 31), lt(i, 2 ** 31))) else iserr(o))]))

    for nm, fn, hi in (('date', 'vp_date_serde_uint', 2 ** 31), ('time', 'vp_time_serde_uint', 2 ** 63), ('timestamp', 'vp_ts_serde_uint', 2 ** 63)):
        def b(S):
            i = S.i64('i')
            return [i], i
        # a negative number stands for the unsigned one 2^64 above it
        out.append(Ob('%s from an unsigned number of 64 bits' % nm, fn, b, lambda K, i, o, hi=hi: [('the value, or refused when too large', ok_is(o, i) if K.choose(and_(ge(i, 0), lt(i, hi))) else iserr(o))]))

    def rec(name, m, n, o, good):
        def b(S):
            v = anyiv(S)
            return [v, m, n] + list(o), v
        out.append(Ob('interval record %s' % name, 'vp_iv_serde_rec', b, (lambda K, v, o: [('unchanged', ok_is(o, v))]) if good else (lambda K, v, o: [('refused', iserr(o))])))
    for o in itertools.permutations(range(3)):
        rec('as a map in order %d%d%d' % o, True, 3, o + (0,), True)
    for n in range(3):
        rec('as a sequence of %d' % n, False, n, (0, 1, 2, 0), False)
        for o in itertools.permutations(range(3)):
            if n or o == (0, 1, 2):
                rec('as a map of %s' % (o[:n],), True, n, o + (0,), False)
    for o in ((0, 0, 1, 2), (1, 0, 1, 2), (0, 1, 2, 2), (2, 1, 0, 2)):
        rec('as a map with a repeated field %s' % (o,), True, 4, o, False)
    for pn, lo, hi in (('BC', DATE_MIN, X.AD1 - 1), ('AD', X.AD1, DATE_MAX)):
        def b(S, lo=lo, hi=hi):
            d = S.int('d', lo, hi)
            return [d], d
        out.append(Ob('date as text %s' % pn, 'vp_date_serde_text', b, lambda K, d, o: X.is_text(o, X.date_text(K, d, 'ISO', 'YMD')), timeout=100))

        def b(S, lo=lo, hi=hi):
            d = S.int('d', lo, hi)
            return [d, True, False], d
        out.append(Ob('date through a text format %s' % pn, 'vp_date_serde', b, lambda K, d, o: [('unchanged', ok_is(o, d))], timeout=200, lazy='text'))
    for pn, lo, hi in (('BC', TS_MIN, X.AD1 * DAY - 1), ('AD', X.AD1 * DAY, TS_MAX)):
        def b(S, lo=lo, hi=hi):
            t = S.int('t', lo, hi)
            return [t], t
        out.append(Ob('timestamp as text %s' % pn, 'vp_ts_serde_text', b, lambda K, t, o: X.is_text(o, X.ts_text(K, t, 'ISO', 'YMD')), timeout=150, lazy='text'))

        def b(S, lo=lo, hi=hi):
            t = S.int('t', lo, hi)
            return [t, True, False], t
        out.append(Ob('timestamp through a text format %s' % pn, 'vp_ts_serde', b, lambda K, t, o: [('unchanged', ok_is(o, t))], timeout=200, lazy='text'))

    def b(S):
        t = tod(S)
        return [t], t
    out.append(Ob('time as text', 'vp_time_serde_text', b, lambda K, t, o: X.is_text(o, X.time_text(K, t))))

    def b(S):
        t = tod(S)
        return [t, True, False], t
    out.append(Ob('time through a text format', 'vp_time_serde', b, lambda K, t, o: [('unchanged', ok_is(o, t))]))
    for v, w in ((NEG_INF_D, '-infinity'), (INF_D, 'infinity')):
        out.append(Ob('date %s as text' % w, 'vp_date_serde_text', const(v), lambda K, e, o, w=w: X.is_text(o, X.lit(w))))
        out.append(Ob('date %s through a text format' % w, 'vp_date_serde', const(v, True, False), lambda K, e, o, v=v: [('unchanged', ok_is(o, v))]))
    for v, w in ((NEG_INF_T, '-infinity'), (INF_T, 'infinity')):
        out.append(Ob('timestamp %s as text' % w, 'vp_ts_serde_text', const(v), lambda K, e, o, w=w: X.is_text(o, X.lit(w))))
        out.append(Ob('timestamp %s through a text format' % w, 'vp_ts_serde', const(v, True, False), lambda K, e, o, v=v: [('unchanged', ok_is(o, v))]))
    for name, mk, deep in regions():
        def b(S, mk=mk):
            i = mk(S)
            return [i], i
        out.append(Ob('interval as text, %s' % name, 'vp_iv_serde_text', b, lambda K, i, o: X.is_text(o, X.iv_text(K, i, 'SQLStandard')), timeout=200, mirror=True, deep=deep))

        def b(S, mk=mk):
            i = mk(S)
            return [i, True, False], i
        out.append(Ob('interval through a text format, %s' % name, 'vp_iv_serde', b, lambda K, i, o: [('unchanged', ok_is(o, i))], timeout=200, mirror=True, deep=deep))
    return out
