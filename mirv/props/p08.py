"""interval sum, difference, negation"""
from .common import *


def obs():
    out = []

    def two(S):
        a = [iv(S, 'a'), iv(S, 'b')]
        return a, a

    def judge(K, r, o, plain=False):
        if K.choose(and_(in_i32(r.month), in_i32(r.day), in_i64(r.time))):
            return [('field by field, exactly', ok_is(o, r))]
        if plain:
            return [('overflow is not turned into a value', not isok(o))]
        return [('overflow is refused', iserr(o))]

    def comb(sg):
        return lambda K, a, o, sg=sg: judge(K, Iv(*[add(x, mul(y, sg)) for x, y in zip(a[0], a[1])]), o)
    out.append(Ob('interval + interval', 'vp_iv_add', two, comb(1)))
    out.append(Ob('interval - interval', 'vp_iv_sub', two, comb(-1)))
    out.append(Ob('interval + interval (operator)', 'vp_iv_op_add', two,
                  lambda K, a, o: judge(K, Iv(*[add(x, y) for x, y in zip(a[0], a[1])]), o, True)))
    out.append(Ob('negate', 'vp_iv_negate', lambda S: (lambda i: ([i], i))(iv(S)),
                  lambda K, i, o: judge(K, Iv(neg(i.month), neg(i.day), neg(i.time)), o)))
    return out
