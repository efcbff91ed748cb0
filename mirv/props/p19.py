"""text of intervals"""
from .common import *
from . import text as X
import itertools

HM = (1 << 31) * HOUR
MAXD = (1 << 31) - 1
SG = ((-1, 'negative'), (0, 'no'), (1, 'positive'))


def rng(g, lo, hi):
    return 0 if not g else (lo, hi) if g > 0 else (-hi, -lo)


def regions():
    """sets of intervals (name, text build, thorough only): each part alone over its whole range, and all
    combinations of signs for parts of a few shapes (small, longest)"""
    out = []

    def region(name, mo, d, t, unit=1, deep=False):
        def b(S):
            part = lambda n, r: r if isinstance(r, int) else S.int(n, *r)
            tm = part('i.time', t)
            return Iv(part('i.month', mo), part('i.day', d), tm if isinstance(tm, int) else mul(tm, unit))
        out.append((name, b, deep))
    region('months only', I32, 0, 0)
    region('days only', 0, (-MAXD, MAXD), 0)
    region('time only', 0, 0, (-1000 * HOUR + 1, 1000 * HOUR - 1))
    region('long time only', 0, 0, (1000 * HOUR, HM - 1), deep=True)
    region('long negative time only', 0, 0, (1 - HM, -1000 * HOUR), deep=True)
    region('none', 0, 0, 0)
    for (a, an), (b, bn), (c, cn) in itertools.product(SG, SG, SG):
        if (a, b, c).count(0) < 2:
            nm = '%s months, %s days, %s time' % (an, bn, cn)
            region('small: ' + nm, rng(a, 30, 33), rng(b, 2, 9), rng(c, 3600, 3 * 3600 - 1), 1000000)
            region('ones: ' + nm, rng(a, 12, 13), rng(b, 1, 1), rng(c, 1, 4), 500000)
            region('long: ' + nm, rng(a, 12 * 10 ** 8 + 10, 12 * 10 ** 8 + 11), rng(b, 10 ** 9, MAXD), rng(c, 10 ** 9 * HOUR, HM - 1), deep=(a, b, c).count(0) > 0)
    return out


def small(i):
    return and_(lt(i.time, HM), gt(i.time, -HM - HOUR))


def judge(style):
    def f(K, i, o):
        if not K.choose(small(i)):
            return [('more than 2^31 hours are refused', iserr(o))]
        return X.is_text(o, X.iv_text(K, i, style))
    return f


def same(K, i, o):
    return [('the same interval', ok_is(o, i))]


def obs():
    out = []
    for style in ISTYLES:
        def b(S, style=style):
            i = Iv(S.i32('i.month'), S.i32('i.day'), S.i64('i.time'))
            S.require(not_(small(i)))
            return [i, style], i
        out.append(Ob('interval text %s, too long' % style, 'vp_iv_format', b, judge(style)))
        for name, mk, deep in regions():
            def b(S, mk=mk, style=style):
                i = mk(S)
                return [i, style], i
            out.append(Ob('interval text %s, %s' % (style, name), 'vp_iv_format', b, judge(style), timeout=300, deep=deep, mirror=True))
            for rd in ISTYLES:
                if style == 'SQLStandard' and rd != style:
                    continue

                def b(S, mk=mk, style=style, rd=rd):
                    i = mk(S)
                    return [i, style, -1, rd], i
                out.append(Ob('interval read back %s as %s, %s' % (style, rd, name), 'vp_iv_text', b, same, timeout=300,
                              deep=deep or rd not in (style, 'SQLStandard'), mirror=True))
    return out
