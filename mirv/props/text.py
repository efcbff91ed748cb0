"""the documented text layouts, as byte sequences over the digits of the fields"""
from .common import *
from .p07 import date_of
AD1 = 1721426 - EPOCH            # 0001-01-01
MON = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']
WDAY = ['Sun', 'Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat']


def lit(s):
    return tuple(s.encode())


def digits(x, n):
    """the n decimal digits of x"""
    return tuple(add(fmod(fdiv(x, 10 ** i), 10), 48) for i in range(n - 1, -1, -1))


def number(K, x, width=1):
    """decimal digits of x >= 0, at least width of them"""
    n = width
    while not K.choose(lt(x, 10 ** n)):
        n += 1
    return digits(x, n)


def reads(style, order):
    """orders under which the style's text means the same day"""
    if style in ('ISO', 'XSD'):
        return ORDERS
    if style == 'German':
        return ['DMY']
    return ['DMY' if order == 'DMY' else 'MDY']


def written(style):
    """one order for each different layout of the style.  The text obligations show that the other orders
    write the same text as one of these, so reading back is shown for these only"""
    return ['DMY', 'MDY'] if style in ('SQL', 'Postgres') else ['MDY']


def year_text(K, y):
    """digits of the year, and the BC mark"""
    if K.choose(ge(y, 1)):
        return number(K, y, 4), ()
    return number(K, sub(1, y), 4), lit(' BC')


def date_text(K, d, style, order):
    y, m, c = date_of(K, add(d, EPOCH))
    yt, bc = year_text(K, y)
    mt, dt = digits(m, 2), digits(c, 2)
    if style in ('ISO', 'XSD'):
        r = yt + lit('-') + mt + lit('-') + dt
    else:
        s = lit('/' if style == 'SQL' else '.')
        r = (dt + s + mt if order == 'DMY' or style == 'German' else mt + s + dt) + s + yt
    return r + bc


def is_text(o, want):
    if o[0] != 'ok':
        return [('text is produced', False)]
    got = o[1][1]
    if len(got) != len(want):
        return [('as long as the layout', False)]
    return [('the documented layout', and_(*[eq(a, b) for a, b in zip(got, want)]))]


def seconds_text(K, s, f):
    """two digits of seconds, then the fraction without trailing zeros"""
    r = digits(s, 2)
    if K.choose(eq(f, 0)):
        return r
    for n in range(1, 7):
        if n == 6 or K.choose(eq(fmod(f, 10 ** (6 - n)), 0)):
            return r + lit('.') + digits(fdiv(f, 10 ** (6 - n)), n)


def time_text(K, u):
    h, mi, s, f = hms(u)
    return digits(h, 2) + lit(':') + digits(mi, 2) + lit(':') + seconds_text(K, s, f)


def ts_reads(style, order):
    return ORDERS if style == 'Postgres' else reads(style, order)


def ts_text(K, t, style, order):
    d, u = split_day(t)
    if style != 'Postgres':
        r = date_text(K, d, style, order)
        bc = lit(' BC') if r[-1:] == lit('C') else ()
        return r[:len(r) - len(bc)] + lit('T' if style == 'XSD' else ' ') + time_text(K, u) + bc
    j = add(d, EPOCH)
    y, m, c = civil(K, j)
    yt, bc = year_text(K, y)
    w = lit(WDAY[K.concrete(weekday(j))])
    mt, dt = lit(MON[m - 1]), digits(c, 2)
    md = dt + lit(' ') + mt if order == 'DMY' else mt + lit(' ') + dt
    return w + lit(' ') + md + lit(' ') + time_text(K, u) + lit(' ') + yt + bc


def split_iv(K, i):
    """signs and magnitudes of an interval's parts: months, days, time of day parts"""
    def sg(x):
        return 0 if K.choose(eq(x, 0)) else 1 if K.choose(gt(x, 0)) else -1
    sm, sd, st = sg(i.month), sg(i.day), sg(i.time)
    m = neg(i.month) if sm < 0 else i.month
    d = neg(i.day) if sd < 0 else i.day
    t = neg(i.time) if st < 0 else i.time
    return (sm, fdiv(m, 12), fmod(m, 12)), (sd, d), (st,) + hms(t)


def frac_text(K, f):
    """the fraction without trailing zeros, with its point, or nothing"""
    if K.choose(eq(f, 0)):
        return ()
    for n in range(1, 7):
        if n == 6 or K.choose(eq(fmod(f, 10 ** (6 - n)), 0)):
            return lit('.') + digits(fdiv(f, 10 ** (6 - n)), n)


def clock_text(K, h, mi, s, f, width):
    return number(K, h, width) + lit(':') + digits(mi, 2) + lit(':') + digits(s, 2) + frac_text(K, f)


def iv_text(K, i, style):
    (sm, y, mo), (sd, d), (st, h, mi, s, f) = split_iv(K, i)
    zero = lambda x: K.choose(eq(x, 0))
    if style == 'SQLStandard':
        if not (sm or sd or st):
            return lit('0')
        plain = not (-1 in (sm, sd, st) and 1 in (sm, sd, st) or sm and (sd or st))
        if not plain:
            pm = lambda g: lit('-' if g < 0 else '+')
            return (pm(sm) + number(K, y) + lit('-') + number(K, mo) + lit(' ') + pm(sd) + number(K, d) + lit(' ') + pm(st) +
                    clock_text(K, h, mi, s, f, 1))
        r = lit('-') if -1 in (sm, sd, st) else ()
        if sm:
            return r + number(K, y) + lit('-') + number(K, mo)
        if sd:
            r += number(K, d) + lit(' ')
        return r + clock_text(K, h, mi, s, f, 1)
    if style == 'ISO8601':
        if not (sm or sd or st):
            return lit('PT0S')

        def part(g, v, u):
            return () if zero(v) else (lit('-') if g < 0 else ()) + number(K, v) + lit(u)
        r = lit('P')
        if sm:
            r += part(sm, y, 'Y') + part(sm, mo, 'M')
        if sd:
            r += part(sd, d, 'D')
        if st:
            r += lit('T') + part(st, h, 'H') + part(st, mi, 'M')
            if not (zero(s) and zero(f)):
                r += (lit('-') if st < 0 else ()) + number(K, s) + frac_text(K, f) + lit('S')
        return r
    parts = [(sm, y, 'year'), (sm, mo, 'mon')] if sm else []
    parts += [(sd, d, 'day')] if sd else []
    if style == 'Postgres':
        r, last = (), 0
        for g, v, u in parts:
            if zero(v):
                continue
            one = g > 0 and K.choose(eq(v, 1))
            r += (lit(' ') if last else ()) + lit('-' if g < 0 else '+' if last < 0 else '') + number(K, v) + lit(' ' + u + ('' if one else 's'))
            last = g
        if st or not last:
            r += (lit(' ') if last else ()) + lit('-' if st < 0 else '+' if last < 0 else '') + clock_text(K, h, mi, s, f, 2)
        return r
    # verbose: the first part decides whether the whole is "ago"; the others are signed relative to it
    parts += [(st, h, 'hour'), (st, mi, 'min')] if st else []
    r, first = lit('@'), 0
    for g, v, u in parts:
        if zero(v):
            continue
        one = K.choose(eq(v, 1))
        first = first or g
        r += lit(' -' if g != first else ' ') + number(K, v) + lit(' ' + u + ('' if one and g == first else 's'))
    if st and not (zero(s) and zero(f)):
        first = first or st
        one = K.choose(eq(s, 1)) and zero(f)
        r += lit(' -' if st != first else ' ') + number(K, s) + frac_text(K, f) + lit(' sec' + ('' if one else 's'))
    if not first:
        r += lit(' 0')
    return r + (lit(' ago') if first < 0 else ())
