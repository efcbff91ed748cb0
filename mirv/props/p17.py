"""text of timestamps"""
from .common import *
from . import text as X


def judge(style, order):
    def f(K, t, o):
        return X.is_text(o, X.ts_text(K, t, style, order))
    return f


def obs():
    out = []
    parts = [('BC', TS_MIN, X.AD1 * DAY - 1), ('AD', X.AD1 * DAY, TS_MAX)]
    for style in STYLES:
        for order in ORDERS:
            for pn, lo, hi in parts:
                def b(S, style=style, order=order, lo=lo, hi=hi):
                    t = S.int('t', lo, hi)
                    return [t, style, order], t
                out.append(Ob('timestamp text %s %s %s' % (style, order, pn), 'vp_ts_format', b, judge(style, order), timeout=150, lazy='text'))
                for rd in X.ts_reads(style, order) if order in X.written(style) else []:
                    def b(S, style=style, order=order, lo=lo, hi=hi, rd=rd):
                        t = S.int('t', lo, hi)
                        return [t, style, order, -1, rd], t
                    out.append(Ob('timestamp read back %s %s as %s %s' % (style, order, rd, pn), 'vp_ts_text', b, lambda K, t, o: [('the same timestamp', ok_is(o, t))], timeout=200, lazy='text'))
            for v, t in ((NEG_INF_T, '-infinity'), (INF_T, 'infinity')):
                out.append(Ob('timestamp text %s %s %s' % (style, order, t), 'vp_ts_format', const(v, style, order), lambda K, e, o, t=t: X.is_text(o, X.lit(t))))
                out.append(Ob('timestamp read back %s %s %s' % (style, order, t), 'vp_ts_text', const(v, style, order, -1, order), lambda K, e, o, v=v: [('the same timestamp', ok_is(o, v))]))
    return out
