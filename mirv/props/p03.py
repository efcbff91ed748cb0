"""construction from fields: timestamp, time, interval"""
from .common import *


def secs_cases(S_lo, S_hi):
    """the floating-point argument: every non-finite value, and every finite value of the range"""
    return [('nan', lambda S: float('nan')), ('+inf', lambda S: float('inf')), ('-inf', lambda S: float('-inf')),
            ('finite', lambda S: S.f64('s', S_lo, S_hi))]


def real(x):
    """exact real value of a float argument"""
    if isinstance(x, float):
        return T._norm(Fraction(x))
    return x.lin


def time_fields_ok(h, mi, s):
    """0..23 : 0..59 : 0..60, or 24:00:00"""
    return and_(rng(h, 0, 24), rng(mi, 0, 59), le(0, s), le(s, 60), or_(lt(h, 24), and_(eq(mi, 0), eq(s, 0))))


TOL = Fraction(1, 2) + Fraction(1, 10**6)


def near(v, base, s, tol=TOL):
    """v is base plus s seconds, rounded to the microsecond"""
    e = sub(sub(v, base), mul(s, US))
    return and_(le(e, tol), le(-tol, e))


def obs():
    out = []
    for nm, mk in secs_cases(-10**9, 10**9):
        def b(S, mk=mk):
            a = [S.i32('y'), S.i32('mo'), S.i32('d'), S.i32('h'), S.i32('mi'), mk(S)]
            return a, a

        def e(K, a, o):
            y, mo, d, h, mi, s = a
            if isinstance(s, float) and (s != s or s in (float('inf'), float('-inf'))):
                return [('a non-finite second is refused', iserr(o))]
            s = real(s)
            if not K.choose(and_(rng(mo, 1, 12), gt(y, 0))):
                return [('an impossible month or a non-positive year is refused', iserr(o))]
            mo = K.concrete(mo)
            if not K.choose(and_(real_day(y, mo, d), time_fields_ok(h, mi, s))):
                return [('impossible fields are refused', iserr(o))]
            base = add(mul(sub(jdn(y, mo, d), EPOCH), DAY), mul(add(mul(h, 60), mi), 60 * US))
            exact = add(base, mul(s, US))
            g = [('out of range is refused, in range is accepted', or_(iserr(o), lt(exact, TS_END + 1)) if not isok(o) else True)]
            if isok(o):
                return [('that date and time, to the microsecond', near(o[1], base, s)), ('in range', is_ts(o[1]))]
            return [('in-range fields are accepted', ge(exact, TS_END - 1) if iserr(o) else False)]
        out.append(Ob('timestamp from fields, second %s' % nm, 'vp_ts_try_from_ymd_hms', b, e, timeout=120))

        def b(S, mk=mk):
            a = [S.i32('h'), S.i32('mi'), mk(S)]
            return a, a

        def e(K, a, o):
            h, mi, s = a
            if isinstance(s, float) and (s != s or s in (float('inf'), float('-inf'))):
                return [('a non-finite second is refused', iserr(o))]
            s = real(s)
            if not K.choose(time_fields_ok(h, mi, s)):
                return [('impossible fields are refused', iserr(o))]
            if not isok(o):
                return [('possible fields are accepted', False)]
            return [('that time, to the microsecond', near(o[1], mul(add(mul(h, 60), mi), 60 * US), s)),
                    ('at most 24:00:00', rng(o[1], 0, DAY))]
        out.append(Ob('time from fields, second %s' % nm, 'vp_time_try_from_hms', b, e))

    for nm, mk in secs_cases(-10**9, 10**9):
        def b(S, mk=mk):
            a = [S.i32('y'), S.i32('mo'), S.i32('w'), S.i32('d'), S.i32('h'), S.i32('mi'), mk(S)]
            return a, a

        def e(K, a, o):
            y, mo, w, d, h, mi, s = a
            if isinstance(s, float) and (s != s or s in (float('inf'), float('-inf'))):
                return [('a non-finite second is refused', iserr(o))]
            s = real(s)
            months, days = add(mul(y, 12), mo), add(mul(w, 7), d)
            if not K.choose(and_(in_i32(months), in_i32(days))):
                return [('no crash', isok(o) or iserr(o))]
            if not isok(o):
                return [('representable fields are accepted', False)]
            base = mul(add(mul(h, 60), mi), 60 * US)
            r = o[1]
            return [('months', eq(r.month, months)), ('days', eq(r.day, days)),
                    ('time', near(r.time, base, s, Fraction(1, 2) + Fraction(13, 100)))]
        out.append(Ob('interval from fields, second %s' % nm, 'vp_iv_try_from_ymwd_hms', b, e))
    return out
