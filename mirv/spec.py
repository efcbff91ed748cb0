"""Mathematical specification functions.  Every function works both on concrete Python numbers (used to
judge a replay on the compiled code) and on symbolic terms (used in the proof obligations), so there is
exactly one statement of what the code must do.

K is the evaluation mode: K.choose(b) decides a condition (case split in the proof, plain bool when
concrete), K.concrete(x) enumerates a small range."""
import datetime
from fractions import Fraction
from collections import namedtuple
from .terms import *
from . import terms as T

US = 1000000
MINUTE = 60 * US
HOUR = 3600 * US
DAY = 86400 * US
EPOCH = 2451545                     # Julian day number of 2000-01-01
I32 = (-(1 << 31), (1 << 31) - 1)
I64 = (-(1 << 63), (1 << 63) - 1)
DATE_MIN = 0 - EPOCH                # 4714-11-24 BC
DATE_MAX = 2147483494 - EPOCH - 1   # 5874897-12-31
TS_MIN = DATE_MIN * DAY
TS_END = (109203528 - EPOCH) * DAY  # 294277-01-01, first disallowed
TS_MAX = TS_END - 1
NEG_INF_D, INF_D = I32
NEG_INF_T, INF_T = I64

Iv = namedtuple('Iv', 'month day time')
Iv.__bool__ = lambda s: True


def rng(x, lo, hi):
    return and_(le(lo, x), le(x, hi))


def in_i32(x):
    return rng(x, *I32)


def in_i64(x):
    return rng(x, *I64)


def is_date(d):
    """finite, in the supported range"""
    return rng(d, DATE_MIN, DATE_MAX)


def is_ts(t):
    return rng(t, TS_MIN, TS_MAX)


def leap(y):
    return and_(eq(fmod(y, 4), 0), or_(ne(fmod(y, 100), 0), eq(fmod(y, 400), 0)))


MLEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]


def real_day(y, m, d):
    """d is a day of month m (concrete) of astronomical year y"""
    n = MLEN[m - 1]
    if m == 2:
        return and_(le(1, d), or_(le(d, 28), and_(eq(d, 29), leap(y))))
    return and_(le(1, d), le(d, n))


def jdn(y, m, d):
    """Julian day number of the proleptic Gregorian date, m concrete, y astronomical (0 = 1 BC):
    365 days per year plus one for every leap year completed, plus the days of this year"""
    y1 = sub(y, 1)
    yl = y if m > 2 else y1      # from March on, this year's leap day (if any) has passed
    leaps = add(sub(fdiv(yl, 4), fdiv(yl, 100)), fdiv(yl, 400))
    return add(add(add(mul(y1, 365), leaps), CUM[m - 1] + 1721425), d)


def is_leap01(K, y):
    """1 in leap years, 0 otherwise"""
    if not isinstance(y, Lin):
        return 1 if leap(y) else 0
    L = T.uf('L', (y,), 0, 1)
    if T.CHAIN[0] != 2:
        K.define(iff(eq(L, 1), leap(y)))
    return L


def year_start(K, y):
    """jdn(y, 1, 1), years near each other being expressed through the same first one (lemma: the next
    year starts 365 or 366 days later)"""
    if not isinstance(y, Lin):
        return jdn(y, 1, 1)
    n = y.k if isinstance(y.k, int) and abs(y.k) <= 4 else 0
    b = sub(y, n)
    r = J = T.uf('J1', (b,), -10000, 4000000000)
    K.define(eq(J, jdn(b, 1, 1)), heavy=True)
    for f in year_bounds(b, 1, J, 1):
        K.define(f)
    for i in range(n):
        r = add(r, add(is_leap01(K, add(b, i)), 365))
    for i in range(n, 0):
        r = sub(r, add(is_leap01(K, add(b, i)), 365))
    return r


def day_number(K, y, m, d):
    """jdn(y, m, d) as a named value"""
    if K.ctx is not None:
        y, m, d = T.simp(y, K.ctx), T.simp(m, K.ctx), T.simp(d, K.ctx)
        if T.CHAIN[0] and isinstance(y, Lin):
            r = add(add(year_start(K, y), CUM[m - 1] - 1), d)
            if m > 2:
                r = add(r, is_leap01(K, y))
            T.DATES[r] = (y, m, d)
            return r
    r = jdn(y, m, d)
    if not isinstance(r, Lin) or len(r.c) <= 2:
        return r
    lo, hi = bounds(r, K.ctx)
    J = T.uf('J', (y, m, d), lo, hi)
    K.define(eq(J, r), heavy=True)
    for f in year_bounds(y, m, J, d):
        K.define(f)
    return J


def year_bounds(Y, M, j, d=None):
    """linear consequences of 'the date of day j is in month M of year Y'"""
    a = sub(mul(j, 400), mul(sub(Y, 1), 146097))
    if d is not None:
        a = sub(a, mul(sub(d, 1), 400))
        return [ge(a, add(688570400 - 700 - 800, mul(sub(M, 1), 12000))), le(a, add(688570400 - 400 + 396 + 400, mul(sub(M, 1), 12400)))]
    return [ge(a, add(688570400 - 700 - 800, mul(sub(M, 1), 12000))), le(a, add(688570400 - 400 + 396, mul(M, 12400)))]


def civil_concrete(j):
    n = j - 1721426
    c, r = divmod(n, 146097)
    t = datetime.date.fromordinal(r + 1)
    return t.year + 400 * c, t.month, t.day


def civil(K, j):
    """the unique real date whose Julian day number is j: (year, concrete month, day)"""
    if not isinstance(j, Lin):
        return civil_concrete(j)
    Y = T.uf('Y', (j,), -6000000, 6000000)
    M = T.uf('M', (j,), 1, 12)
    D = T.uf('D', (j,), 1, 31)
    m = K.concrete(M)
    if T.CHAIN[0]:
        K.define(eq(day_number(K, Y, m, D), j))
    else:
        K.define(eq(jdn(Y, m, D), j), heavy=True)
    for f in year_bounds(Y, m, j, D):
        K.define(f)
    if T.CHAIN[0] == 2 and m == 2:
        K.define(rng(D, 1, add(is_leap01(K, Y), 28)))
    else:
        K.define(real_day(Y, m, D))
    return Y, m, D


def split_day(t):
    """(day number, microseconds within the day), floor convention"""
    d = fdiv(t, DAY)
    return d, sub(t, mul(d, DAY))


def hms(u):
    """microseconds of a day (or any non-negative count) -> hour, minute, second, microsecond"""
    h = fdiv(u, HOUR)
    mi = fmod(fdiv(u, MINUTE), 60)
    s = fmod(fdiv(u, US), 60)
    f = fmod(u, US)
    return h, mi, s, f


def tquot(K, x, c):
    """quotient towards zero"""
    if K.choose(ge(x, 0)):
        return fdiv(x, c, K.ctx)
    if c <= 10 or K.sym and K.I.mirror:
        return neg(fdiv(neg(x), c, K.ctx))
    q = fdiv(x, c, K.ctx)
    return q if K.choose(eq(sub(x, mul(q, c)), 0)) else add(q, 1)


def trem(K, x, c):
    return sub(x, mul(tquot(K, x, c), c))


def weekday(j):
    """0 = Sunday .. 6 = Saturday (Julian day 0 is a Monday)"""
    return fmod(add(j, 1), 7)


def monday(j):
    """Julian day of the Monday of j's ISO week"""
    return sub(j, fmod(j, 7))


def same(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return and_(*[same(x, y) for x, y in zip(a, b)])
    if isinstance(a, (int, Lin, B, Fraction)) and isinstance(b, (int, Lin, B, Fraction)):
        return eq(a, b)
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    return a is b or a == b


def isok(out):
    return out[0] == 'ok'


def ok_is(out, v):
    return and_(isok(out), same(out[1], v)) if isok(out) else False


def iserr(out):
    return out[0] == 'err'


def flt(x):
    from .interp import Flt
    if isinstance(x, Flt):
        return x.lin, x.err
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return None
        return T._norm(Fraction(x)), 0
    raise TypeError(x)


def close(x, exact, tol):
    """float x is within tol of the exact (linear) value"""
    f = flt(x)
    if f is None:
        return False
    lin, err = f
    slack = tol - err
    if slack < 0:
        from .interp import Undecided
        raise Undecided('float error bound exceeds tolerance')
    d = sub(lin, exact)
    if slack == 0:
        return eq(d, 0)
    return and_(le(d, slack), le(-slack, d))
