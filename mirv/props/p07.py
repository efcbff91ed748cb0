"""age of two timestamps"""
from .common import *
from ..contracts import lazy_month, era


def lexle(a, b, r):
    """a is before b field by field, or the same and r"""
    for x, y in reversed(list(zip(a, b))):
        r = or_(lt(x, y), and_(eq(x, y), r))
    return r


def date_of(K, j):
    """the date of day j with the month left symbolic"""
    if K.ctx is None or not isinstance(j, Lin):
        return civil(K, j)
    Y, M, D = T.uf('Y', (j,), -6000000, 6000000), lazy_month(j), T.uf('D', (j,), 1, 31)
    for f in year_bounds(Y, M, j) + era(K.ctx, Y, j):
        K.define(f)
    return Y, M, D


def age(K, a, b):
    """calendar months, days and time from b to the later (or same) timestamp a"""
    d1, u1 = split_day(a)
    d2, u2 = split_day(b)
    j1, j2 = add(d1, EPOCH), add(d2, EPOCH)
    y1, m1, c1 = date_of(K, j1)
    y2, m2, c2 = date_of(K, j2)
    if K.ctx is not None:
        # contrapositive of the lemma that day numbers of real dates increase with the date
        K.define(le(j2, j1))
        K.define(lexle((y2, m2, c2), (y1, m1, c1), eq(j1, j2)))
    u, d, m = sub(u1, u2), sub(c1, c2), add(mul(sub(y1, y2), 12), sub(m1, m2))
    if not K.choose(ge(u, 0)):
        u, d = add(u, DAY), sub(d, 1)
    if not K.choose(ge(d, 0)):
        m2 = K.concrete(m2)
        L = MLEN[m2 - 1]
        if m2 == 2 and K.choose(leap(y2)):
            L = 29
        d, m = add(d, L), sub(m, 1)
    return m, d, u


def judge(K, e, o):
    a, b = e
    if K.choose(ge(a, b)):
        m, d, u = age(K, a, b)
        s = 1
    else:
        m, d, u = age(K, b, a)
        s = -1
    r = Iv(mul(m, s), mul(d, s), mul(u, s))
    return [('months, days and time all point the same way', and_(ge(m, 0), rng(d, 0, 30), rng(u, 0, DAY - 1))),
            ('months, then days, then time from the earlier to the later', ok_is(o, r))]


def obs():
    out = []
    for an, alo, ahi in (('before 2000', TS_MIN, -1), ('from 2000', 0, TS_MAX)):
        for bn, blo, bhi in (('before 2000', TS_MIN, -1), ('from 2000', 0, TS_MAX)):
            for later in (True, False):
                if an != bn and later != (alo > blo):
                    continue

                def b(S, alo=alo, ahi=ahi, blo=blo, bhi=bhi, later=later):
                    e = (ts(S, 'a', alo, ahi), ts(S, 'b', blo, bhi))
                    S.require(ge(*e) if later else lt(*e))
                    return list(e), e
                out.append(Ob('age of a timestamp %s and %s one %s' % (an, 'an earlier' if later else 'a later', bn), 'vp_ts_age', b, judge,
                              timeout=150, lazy=True, light=True))
    bad = lambda K, e, o: [('no age with infinity', iserr(o))]
    for v in (NEG_INF_T, INF_T):
        out.append(Ob('age of %d' % v, 'vp_ts_age', lambda S, v=v: ([v, ts(S)], v), bad))
        out.append(Ob('age against %d' % v, 'vp_ts_age', lambda S, v=v: ([ts(S), v], v), bad))
        for x in (NEG_INF_T, INF_T):
            out.append(Ob('age of %d and %d' % (v, x), 'vp_ts_age', const(v, x), bad))
    return out
