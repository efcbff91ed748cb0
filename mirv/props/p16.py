"""text of dates: what format writes, and that try_from_str reads it back"""
from .common import *
from . import text as X


def judge(style, order):
    def f(K, d, o):
        return X.is_text(o, X.date_text(K, d, style, order))
    return f


def obs():
    out = []
    parts = [('BC', DATE_MIN, X.AD1 - 1), ('AD', X.AD1, DATE_MAX)]
    for style in STYLES:
        for order in ORDERS:
            for pn, lo, hi in parts:
                def b(S, style=style, order=order, lo=lo, hi=hi):
                    d = S.int('d', lo, hi)
                    return [d, style, order], d
                out.append(Ob('date text %s %s %s' % (style, order, pn), 'vp_date_format', b, judge(style, order), timeout=100))
                for rd in X.reads(style, order) if order in X.written(style) else []:
                    def b(S, style=style, order=order, lo=lo, hi=hi, rd=rd):
                        d = S.int('d', lo, hi)
                        return [d, style, order, rd], d
                    out.append(Ob('date read back %s %s as %s %s' % (style, order, rd, pn), 'vp_date_text', b, lambda K, d, o: [('the same date', ok_is(o, d))], timeout=200, lazy='text'))
            for v, t in ((NEG_INF_D, '-infinity'), (INF_D, 'infinity')):
                out.append(Ob('date text %s %s %s' % (style, order, t), 'vp_date_format', const(v, style, order), lambda K, e, o, t=t: X.is_text(o, X.lit(t))))
                out.append(Ob('date read back %s %s %s' % (style, order, t), 'vp_date_text', const(v, style, order, order), lambda K, e, o, v=v: [('the same date', ok_is(o, v))]))
    return out
