"""day arithmetic on dates"""
from .common import *


def obs():
    out = []
    for nm, entry, sg in (('add', 'vp_date_add_days', 1), ('subtract', 'vp_date_sub_days', -1)):
        def build(S):
            a = [date(S), S.i32('n')]
            return a, a

        def ens(K, a, out, sg=sg):
            d, n = a
            r = add(d, mul(n, sg))
            if K.choose(is_date(r)):
                return [('the result is exactly that many days away', ok_is(out, r))]
            return [('a result outside the range is refused', iserr(out))]
        out.append(Ob('%s days' % nm, entry, build, ens))
        for v in (NEG_INF_D, INF_D):
            def bi(S, v=v):
                return [v, S.i32('n')], v

            def ei(K, v, out):
                return [('an infinite date stays as it is', ok_is(out, v))]
            out.append(Ob('%s days, %s' % (nm, v), entry, bi, ei))

    def b2(S):
        a = [date(S, 'a'), date(S, 'b')]
        return a, a

    def e2(K, a, out):
        return [('the exact number of days between', ok_is(out, sub(a[0], a[1])))]
    out.append(Ob('date - date', 'vp_date_sub_date', b2, e2))

    def einf(K, a, out):
        return [('no difference with an infinite date', iserr(out))]
    for v in (NEG_INF_D, INF_D):
        def bl(S, v=v):
            a = [v, date(S, 'b')]
            return a, a

        def br(S, v=v):
            a = [date(S, 'a'), v]
            return a, a
        out.append(Ob('%d - date' % v, 'vp_date_sub_date', bl, einf))
        out.append(Ob('date - %d' % v, 'vp_date_sub_date', br, einf))
        for w in (NEG_INF_D, INF_D):
            out.append(Ob('%d - %d' % (v, w), 'vp_date_sub_date', const(v, w), einf))
    return out
