"""precision and field restrictions (type modifiers) applied on reading"""
from .common import *
from . import text as X
from .p19 import rng

UNIT = [10 ** (6 - p) for p in range(7)]
Y, M, D, H, MI, SE = (1 << b for b in (2, 1, 3, 10, 11, 12))
FULL = 0x7FFF


def rounded(K, v, p):
    """v rounded to p digits of a second, halves away from zero"""
    n = UNIT[p]
    if n == 1:
        return v
    if K.choose(ge(v, 0)):
        return mul(fdiv(add(v, n // 2), n), n)
    return neg(mul(fdiv(add(neg(v), n // 2), n), n))


def ts(p):
    def f(K, t, o):
        w = rounded(K, t, p) if 0 <= p <= 6 else t
        if not K.choose(le(w, TS_MAX)):
            return [('rounding beyond the range is refused', iserr(o))]
        return [('rounded to the precision', ok_is(o, w))]
    return f


def cleared(K, i, r):
    """an interval restricted to the fields of range r"""
    if r == FULL or r & SE:
        return i
    if r & (MI | H):
        n = 60000000 if r & MI else HOUR
        return Iv(i.month, i.day, mul(tquot(K, i.time, n), n))
    if r & D:
        return Iv(i.month, i.day, 0)
    if r & M:
        return Iv(i.month, 0, 0)
    return Iv(mul(tquot(K, i.month, 12), 12), 0, 0)


RANGES = [('year', Y), ('month', M), ('year to month', Y | M), ('day', D), ('hour', H), ('day to hour', D | H), ('minute', MI), ('hour to minute', H | MI),
          ('day to minute', D | H | MI), ('second', SE), ('minute to second', MI | SE), ('hour to second', H | MI | SE), ('day to second', D | H | MI | SE)]


def iv(r, p):
    def f(K, i, o):
        c = cleared(K, i, r)
        return [('restricted to the fields and the precision', ok_is(o, Iv(c.month, c.day, rounded(K, c.time, p) if p <= 6 else c.time)))]
    return f


def obs():
    out = []
    parts = [('1999', -365 * DAY, -1), ('2000', 0, 366 * DAY - 1), ('before 2000', X.AD1 * DAY, -1), ('from 2000', 0, 8000 * 366 * DAY), ('five and six digit years', 8000 * 366 * DAY + 1, TS_MAX), ('years BC', TS_MIN, X.AD1 * DAY - 1), ('last day', TS_MAX - DAY + 1, TS_MAX), ('first day', TS_MIN, TS_MIN + DAY - 1)]
    for p in range(7):
        for pn, lo, hi in parts:
            def b(S, p=p, lo=lo, hi=hi):
                t = S.int('t', lo, hi)
                return [t, 'ISO', 'YMD', p, 'YMD'], t
            out.append(Ob('timestamp read with %d digits, %s' % (p, pn), 'vp_ts_text', b, ts(p), timeout=300, lazy='text', mirror=True))
        for v in (NEG_INF_T, INF_T):
            out.append(Ob('infinite timestamp read with %d digits, %d' % (p, v), 'vp_ts_text', const(v, 'ISO', 'YMD', p, 'YMD'), lambda K, e, o, v=v: [('stays', ok_is(o, v))]))

        def b(S, p=p):
            t = tod(S)
            return [t, 'ISO', p, 'YMD'], t
        out.append(Ob('time read with %d digits' % p, 'vp_time_text', b, lambda K, t, o, p=p: [('rounded to the precision', ok_is(o, rounded(K, t, p)))]))

        def b(S, p=p):
            t = S.int('i.time', -100 * HOUR + 1, 100 * HOUR - 1)
            return [Iv(0, 0, t), 'Postgres', FULL << 16 | p, 'Postgres'], Iv(0, 0, t)
        out.append(Ob('interval read with %d digits' % p, 'vp_iv_text', b, iv(FULL, p), mirror=True))
        for sg, nm in ((1, 'positive'), (-1, 'negative')):
            def b(S, p=p, sg=sg):
                t = S.int('i.time', *rng(sg, 100 * HOUR, (2 ** 31 - 1) * HOUR))
                return [Iv(0, 0, t), 'Postgres', FULL << 16 | p, 'Postgres'], Iv(0, 0, t)
            out.append(Ob('long %s interval read with %d digits' % (nm, p), 'vp_iv_text', b, iv(FULL, p), mirror=True, timeout=150))
    for p in (-2, 7, 2 ** 31 - 1, -2 ** 31):
        def b(S, p=p):
            t = S.int('t', 0, DAY - 1)
            return [t, 'ISO', 'YMD', p, 'YMD'], t
        out.append(Ob('timestamp precision %d is refused' % p, 'vp_ts_text', b, lambda K, t, o: [('refused', iserr(o))], lazy='text'))

        def b(S, p=p):
            t = tod(S)
            return [t, 'ISO', p, 'YMD'], t
        out.append(Ob('time precision %d has no effect' % p, 'vp_time_text', b, lambda K, t, o: [('unchanged', ok_is(o, t))]))
    for p in (7, 0xFFFE):
        def b(S, p=p):
            t = S.int('i.time', 0, 24 * HOUR)
            return [Iv(0, 0, t), 'Postgres', FULL << 16 | p, 'Postgres'], t
        out.append(Ob('interval precision %d is refused' % p, 'vp_iv_text', b, lambda K, t, o: [('refused', iserr(o))]))
    for rn, r in RANGES:
        for p in (0xFFFF, 3):
            for a, c in ((1, 1), (-1, -1), (1, -1), (-1, 1)):
                def b(S, r=r, p=p, a=a, c=c):
                    i = Iv(S.int('i.month', *rng(a, 26, 33)), S.int('i.day', *rng(a, 2, 9)), S.int('i.time', *rng(c, 1, 24 * HOUR - 1)))
                    return [i, 'Postgres', r << 16 | p, 'Postgres'], i
                out.append(Ob('interval read as %s%s, %s %s' % (rn, ' with 3 digits' if p == 3 else '', 'positive' if a > 0 else 'negative', 'positive' if c > 0 else 'negative'),
                              'vp_iv_text', b, iv(r, p), mirror=True, timeout=150, deep=p == 3 and not r & SE))
        for sg, nm in ((1, 'positive'), (-1, 'negative')):
            for part, lo, hi in (('months', 12, 2 ** 31 - 13), ('days', 1, 2 ** 31 - 1), ('time', 1, (2 ** 31 - 1) * HOUR)):
                def b(S, r=r, sg=sg, part=part, lo=lo, hi=hi):
                    n = S.int({'months': 'i.month', 'days': 'i.day', 'time': 'i.time'}[part], *rng(sg, lo, hi))
                    i = Iv(*(n if q == part else 0 for q in ('months', 'days', 'time')))
                    return [i, 'Postgres', r << 16 | 0xFFFF, 'Postgres'], i
                out.append(Ob('interval of %s %s read as %s' % (nm, part, rn), 'vp_iv_text', b, iv(r, 0xFFFF), mirror=True, timeout=150, deep=part == 'time' and sg < 0 and r not in (H, MI, SE, D)))
    for r in (Y | D, M | D, Y | H, D | MI, H | SE, D | SE, Y | M | D, 1 << 13, 0):
        def b(S, r=r):
            i = Iv(S.int('i.month', 12, 35), S.int('i.day', 1, 9), S.int('i.time', 3600000000, 3600000000 + 1000000))
            return [i, 'Postgres', r << 16 | 0xFFFF, 'Postgres'], i
        out.append(Ob('interval fields %d are refused' % r, 'vp_iv_text', b, lambda K, i, o: [('refused', iserr(o))]))
    return out
