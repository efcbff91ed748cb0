"""order and equality of intervals"""
from .common import *


def two(S):
    a = [iv(S, 'a'), iv(S, 'b')]
    return a, a


def tot(x):
    return add(mul(add(mul(x.month, 30), x.day), DAY), x.time)


def ordv(K, a):
    x, y = tot(a[0]), tot(a[1])
    if K.choose(lt(x, y)):
        return -1
    return 0 if K.choose(eq(x, y)) else 1


def obs():
    def len_(S):
        i = iv(S)
        return [i], i
    return [
        Ob('total order by length', 'vp_iv_cmp', two, lambda K, a, o: [('order of the lengths', ok_is(o, ordv(K, a)))]),
        Ob('partial order', 'vp_iv_partial_cmp', two, lambda K, a, o: [('order of the lengths', ok_is(o, ('some', ordv(K, a))))]),
        Ob('equality agrees with the order', 'vp_iv_eq', two, lambda K, a, o: [('equal exactly when neither is less', ok_is(o, ordv(K, a) == 0))]),
        Ob('equal intervals hash alike', 'vp_iv_same_hash', two, lambda K, a, o: [('same hash input', implies(eq(tot(a[0]), tot(a[1])), o[1]) if isok(o) else False)]),
        Ob('length in microseconds', 'vp_iv_into_i128', len_, lambda K, i, o: [('30-day months, 24-hour days', ok_is(o, tot(i)))]),
    ]
