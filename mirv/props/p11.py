"""arithmetic on times of day"""
from .common import *


def obs():
    out = []

    def b(S):
        t, i = tod(S), iv(S)
        return [t, i], (t, i)
    for nm, sg in (('add', 1), ('sub', -1)):
        def e(K, a, o, sg=sg):
            t, i = a
            return [('clock arithmetic modulo 24 hours', ok_is(o, split_day(add(t, mul(i.time, sg)))[1]))]
        out.append(Ob('time %s interval' % nm, 'vp_time_%s_interval' % nm, b, e))

    def b2(S):
        a = [tod(S, 'a'), tod(S, 'b')]
        return a, a
    out.append(Ob('time - time', 'vp_time_sub_time', b2, lambda K, a, o: [('the exact difference', ok_is(o, Iv(0, 0, sub(a[0], a[1]))))]))
    return out
