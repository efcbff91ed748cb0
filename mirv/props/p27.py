"""products and quotients of intervals by a number"""
import math
from fractions import Fraction
from .common import *
from ..terms import recip, Lin
from .p03 import real

WHOLE = [0, 1, -1, 2, -2, 3, 7, 10, -12, 60, 100, 365, 1000, 123456789, -10 ** 12]
FRAC = [0.5, -0.5, 0.25, 0.1, 0.3, 0.7, 0.88, 1.5, -1.1, 3.14159, 1 / 3, 1e-3, 1e-9, 1234.5678, 0.999999999999]


def length(i):
    return add(mul(add(mul(i.month, 30), i.day), DAY), i.time)


def fit(m, d, u):
    return and_(rng(m, -2 ** 31, 2 ** 31 - 1), rng(d, -2 ** 31, 2 ** 31 - 1), rng(u, -2 ** 63, 2 ** 63 - 1))


def within(x, t):
    return and_(le(x, t), le(-t, x))


def same_zero(x):
    return not isinstance(x, Lin) and x == 0


def by(f, tol):
    """times the exact number f"""
    def e(K, i, o):
        m, d, u = mul(i.month, f), mul(i.day, f), mul(i.time, f)
        if isok(o):
            r = o[1]
            return [('the length is that of the interval times the number', within(sub(length(r), add(mul(add(mul(m, 30), d), DAY), u)), tol)),
                    ('months are kept whole, what is left goes to days and time', within(sub(r.month, m), Fraction(1000001, 1000000))),
                    ('less than a day of what is left goes to the time', within(r.time, DAY - 1) if same_zero(i.time) else within(sub(r.time, u), DAY + tol))]
        return [('refused only when a part does not fit', not_(and_(within(m, 2 ** 31 - 2), within(d, 2 ** 31 - 64), within(u, 2 ** 63 - 2 ** 40))))]
    return e


def exact(f):
    """the number a float is"""
    return f.lin if hasattr(f, 'lin') else Fraction(f)


def any_number(out):
    """every factor and divisor within the given bounds"""
    def whole(S):
        i, f = Iv(S.i32('i.month'), S.i32('i.day'), S.int('i.time', -2 ** 53, 2 ** 53)), S.whole('f', -2 ** 53, 2 ** 53)
        for x in (i.month, i.day, i.time):
            S.require(within(mul(x, exact(f)), 2 ** 53))
        return [i, f], (i, f)

    def every(K, v, o):
        i, f = v[0], exact(v[1])
        m, d, u = mul(i.month, f), mul(i.day, f), mul(i.time, f)
        return [('every field times the number, or refused when one does not fit', ok_is(o, Iv(m, d, u)) if K.choose(fit(m, d, u)) else iserr(o))]
    out.append(Ob('times any whole number', 'vp_iv_mul_f64', whole, every, timeout=100))
    big = 2.0 ** 900
    for fn, op, ranges in (('vp_iv_mul_f64', 'times', [(-big, big)]), ('vp_iv_div_f64', 'divided by', [(2.0 ** -900, big), (-big, -2.0 ** -900)])):
        for lo, hi in ranges:
            num = (lambda f: exact(f)) if op == 'times' else (lambda f: recip(exact(f)))
            where = '' if op == 'times' else ', positive' if lo > 0 else ', negative'
            for size, M, D, U, tol in (('any size', 2 ** 31, 2 ** 31, 2 ** 62, 30), ('moderate', 120000, 4 * 10 ** 6, 10 ** 14, Fraction(1, 10)),
                                       ('months and days, any size', 2 ** 31, 2 ** 31, 0, 30), ('months and days, moderate', 120000, 4 * 10 ** 6, 0, Fraction(1, 10)),
                                       ('days and time, moderate', 0, 4 * 10 ** 6, 10 ** 14, Fraction(1, 1000)), ('time, moderate', 0, 0, 10 ** 14, Fraction(6, 10 ** 7))):
                def b(S, lo=lo, hi=hi, M=M, D=D, U=U, size=size, num=num):
                    c = lambda B, n: S.int(n, -B, B - 1) if B else 0
                    f = S.f64('f', lo, hi)
                    i = Iv(c(M and 2 ** 31, 'i.month'), c(D and 2 ** 31, 'i.day'), c(U and 2 ** 53, 'i.time'))
                    if 'any size' not in size:
                        for x, B in ((i.month, M), (i.day, D), (i.time, U)):
                            S.require(within(mul(x, num(f)), B))
                    return [i, f], (i, f)
                out.append(Ob('%s any number, %s%s' % (op, size, where), fn, b, lambda K, v, o, tol=tol, num=num: by(num(v[1]), tol * US)(K, v[0], o), timeout=200))


def obs():
    out = []
    any_number(out)
    for fn, op in (('vp_iv_mul_f64', 'times'), ('vp_iv_div_f64', 'divided by')):
        for k in WHOLE:
            if op == 'divided by' and abs(k) != 1:
                continue

            def b(S, k=k):
                i = iv(S)
                for x in (i.month, i.day, i.time):
                    S.require(within(mul(x, k), 2 ** 53))
                return [i, float(k)], i

            def e(K, i, o, k=k):
                m, d, u = mul(i.month, k), mul(i.day, k), mul(i.time, k)
                return [('every field times the number, or refused when one does not fit', ok_is(o, Iv(m, d, u)) if K.choose(fit(m, d, u)) else iserr(o))]
            out.append(Ob('%s %d' % (op, k), fn, b, e, timeout=100))
        for f in FRAC + ([float(k) for k in WHOLE if abs(k) > 1] if op == 'divided by' else []):
            ex = Fraction(f) if op == 'times' else 1 / Fraction(f)
            k = max(1, abs(ex))
            for size, M, D, U, tol in (('moderate', 120000, 4 * 10 ** 6, 10 ** 14, Fraction(1, 10)), ('months and days, moderate', 120000, 4 * 10 ** 6, 0, Fraction(1, 10)), ('any', 2 ** 31, 2 ** 31, 2 ** 62, 30),
                                           ('months and days, any size', 2 ** 31, 2 ** 31, 0, 30), ('months and days, moderate', 120000, 4 * 10 ** 6, 0, Fraction(1, 10)),
                                       ('days and time, moderate', 0, 4 * 10 ** 6, 10 ** 14, Fraction(1, 1000)), ('time, moderate', 0, 0, 10 ** 14, Fraction(6, 10 ** 7))):
                def b(S, f=f, M=M, D=D, U=U, k=k):
                    c = lambda B, hi: min(hi, int(B / k))
                    i = Iv(S.int('i.month', -c(M, 2 ** 31), c(M, 2 ** 31 - 1)), S.int('i.day', -c(D, 2 ** 31), c(D, 2 ** 31 - 1)), S.int('i.time', -c(U, 2 ** 63), c(U, 2 ** 63 - 1)))
                    return [i, f], i
                out.append(Ob('%s %r, %s size' % (op, f, size), fn, b, by(ex, tol * US), timeout=100, deep=size == 'any' and f not in (0.5, 1.5, 0.1, -12.0) or f == 0.25 and 'moderate' == size))
        for f in (float('nan'), float('inf'), float('-inf')) if op == 'times' else (float('nan'), 0.0, -0.0):
            out.append(Ob('%s %r' % (op, f), fn, lambda S, f=f: ([iv(S), f], None), lambda K, i, o: [('refused', iserr(o))], timeout=60))
        # times at the ends of the range, with numbers for which the arithmetic is exact
        for t in [x * y for x in (1, -1) for y in (2 ** 62, 2 ** 62 - 2 ** 10, 2 ** 62 + 2 ** 10, 2 ** 61, 2 ** 63 - 2 ** 10, 2 ** 63)]:
            for f in (1.0, -1.0, 2.0, -2.0, 4.0, -4.0, 0.5, -0.5, 0.25, 2.0 ** -63, -2.0 ** -63, 2.0 ** 900, -2.0 ** 900, 2.0 ** 1020):
                p = Fraction(t) * Fraction(f) if op == 'times' else Fraction(t) / Fraction(f)
                if not -2 ** 63 <= t < 2 ** 63 or p.denominator != 1 or abs(p) < 2 ** 1023 and float(p) != p:
                    continue
                out.append(Ob('%s %r, a time of %d' % (op, f, t), fn, lambda S, t=t, f=f: ([Iv(0, 0, t), f], None),
                              lambda K, i, o, p=int(p): [('exact, or refused when it does not fit', ok_is(o, Iv(0, 0, p)) if -2 ** 63 <= p < 2 ** 63 else iserr(o))], timeout=60))
    return out
