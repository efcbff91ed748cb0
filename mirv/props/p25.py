"""input forms of intervals: which interval each documented form names, and that amounts that do not fit are refused"""
import itertools
from .common import *
from . import text as X
from .p22 import fill

# unit words: part of the interval they count in, how much, and whether a fraction spills
UNIT = {}


def unit(part, n, *words):
    for w in words:
        UNIT[w] = (part, n)


unit('us', 1, 'us', 'usec', 'usecs', 'useconds', 'microsecond', 'microseconds', 'microsecon')
unit('us', 1000, 'ms', 'msec', 'msecs', 'mseconds', 'millisecond', 'milliseconds', 'msecond')
unit('us', US, 's', 'sec', 'secs', 'second', 'seconds')
unit('us', MINUTE, 'm', 'min', 'mins', 'minute', 'minutes')
unit('us', HOUR, 'h', 'hr', 'hrs', 'hour', 'hours')
unit('d', 1, 'd', 'day', 'days')
unit('d', 7, 'w', 'week', 'weeks')
unit('m', 1, 'mon', 'mons', 'month', 'months')
unit('m', 12, 'y', 'yr', 'yrs', 'year', 'years')
unit('m', 120, 'dec', 'decs', 'decade', 'decades')
unit('m', 1200, 'c', 'cent', 'century', 'centuries')
unit('m', 12000, 'mil', 'mils', 'millennium', 'millennia')
MAIN = ['microseconds', 'milliseconds', 'seconds', 'minutes', 'hours', 'days', 'weeks', 'mons', 'years', 'decades', 'centuries', 'millennia']
NOT = ['qtr', 'quarter', 'timezone', 'timezone_h', 'timezone_m', 'xyz', 'secon', 'mill', 'yea', 'am', 'bc', 'january', 'now', 'infinity', 'invalid', 'undefined']


def amount(sg, n, w):
    """months, days and microseconds of n of the unit"""
    p, k = UNIT[w]
    x = mul(n, sg * k)
    return (x if p == 'm' else 0, x if p == 'd' else 0, x if p == 'us' else 0)


def total(parts):
    m = d = u = 0
    for a, b, c in parts:
        m, d, u = add(m, a), add(d, b), add(u, c)
    return m, d, u


def i32(x):
    return rng(x, -2 ** 31, 2 ** 31 - 1)


def fits(K, w, sg, n):
    """the number fits and so does the field it is counted in"""
    p, k = UNIT[w]
    return and_(i32(mul(n, sg)), i32(mul(n, sg * k)) if p != 'us' else True)


def edge(w, n):
    """the field the number is counted in, which AGO negates"""
    p, k = UNIT[w]
    if p == 'us':
        return 0 if k < US else n
    return mul(n, k if p == 'd' else max(1, k // 12))


def part_of(sg, n, f, fd, w):
    """months, days and microseconds of the number n.f (fd digits of fraction) of the unit"""
    p, k = UNIT[w]
    D = 10 ** fd
    if w in ('microseconds', 'milliseconds'):
        return 0, 0, mul(add(mul(n, k), fdiv(add(mul(f, 2 * k), D), 2 * D)), sg)
    m, d, u = amount(sg, n, w)
    if p == 'us':
        u = add(u, mul(f, sg * k // D)) if k % D == 0 else None
    elif p == 'm' and k == 1:
        days = fdiv(mul(f, 30), D)
        d, u = mul(days, sg), mul(fmod(mul(f, 30), D), sg * (DAY // D))
    elif p == 'm':
        m = add(m, mul(fdiv(mul(f, k), D), sg))
    elif k == 1:
        u = mul(f, sg * (DAY // D))
    else:
        d, u = add(d, mul(fdiv(mul(f, 7), D), sg)), mul(fmod(mul(f, 7), D), sg * (DAY // D))
    return m, d, u


SIGN = ((1, ''), (-1, '-'), (1, '+'))
WHAT = 'the interval named'
TOO = 'an amount that does not fit is refused'


def obs():
    out = []

    def ob(title, form, want, styles=('Postgres',), need=None, **kw):
        for st in styles:
            def b(S, st=st):
                bs, v = fill(S, form)
                if need:
                    S.require(need(v))
                return [S.str(bs), -1, st], v

            def e(K, v, o, st=st):
                w = want(K, v, st)
                if w is None:
                    return [(TOO, iserr(o))]
                if w == 'bad':
                    return [('not a form of interval, refused', iserr(o))]
                return [(WHAT, ok_is(o, Iv(*w)))]
            kw2 = dict(lazy='text', timeout=100)
            kw2.update(kw, deep=False)
            out.append(Ob('%s%s' % (title, '' if st == 'Postgres' else ', ' + st), 'vp_iv_from_str', b, e, **kw2))
    # every unit word, with and without a blank, sign, AGO, capitals
    for w in UNIT:
        for sp in ('< >', '') if w not in ('t',) else ('< >',):
            ob('nn%s%s' % (sp, w), 'nn%s<%s>' % (sp, w), lambda K, v, st, w=w: amount(1, v['n'], w), deep=not sp and w not in MAIN)
        ob('-nn %s' % w, '<->nn< %s>' % w, lambda K, v, st, w=w: amount(-1, v['n'], w), deep=w not in MAIN)
        ob('@ nn %s ago' % w, '<@ >nn< %s ago>' % w, lambda K, v, st, w=w: amount(-1, v['n'], w), deep=w not in MAIN)
        ob('nn %s' % w.upper(), 'nn< %s>' % w.upper(), lambda K, v, st, w=w: amount(1, v['n'], w), deep=w not in MAIN)
    for w in NOT:
        ob('nn %s' % w, 'nn< %s>' % w, lambda K, v, st: 'bad')
    for w in MAIN:
        # the whole range
        for (sg, s), ago in itertools.product(SIGN, ('', ' ago')):
            for n in (5, 9, 10):
                def want(K, v, st, w=w, sg=sg, ago=ago):
                    if not K.choose(fits(K, w, sg, v['n'])):
                        return None
                    if ago and not K.choose(not_(eq(edge(w, mul(v['n'], sg)), -2 ** 31))):
                        return None
                    return amount(-sg if ago else sg, v['n'], w)
                ob('%s%d digits %s%s' % (s, n, w, ago), '<%s>%s< %s%s>' % (s, 'n' * n, w, ago), want, deep=n == 9 or s == '+')
        # fractions
        if w in ('microseconds', 'milliseconds'):
            # to the nearest microsecond (a tie may go either way)
            for (sg, s), n, fd, ago in itertools.product(SIGN[:2], (1, 3, 7), range(1, 7), ('', ' ago')):
                ob('%s%d digits.%d digits %s%s' % (s, n, fd, w, ago), '<%s>%s<.>%s< %s%s>' % (s, 'n' * n, 'F' * fd, w, ago),
                   lambda K, v, st, w=w, sg=-sg if ago else sg, fd=fd: part_of(sg, v['n'], v['F'], fd, w),
                   need=lambda v, w=w, D=10 ** fd: not_(eq(fmod(mul(v['F'], 2 * UNIT[w][1]), 2 * D), D)))
            continue
        for sg, s in SIGN[:2]:
            for fd in range(1, 7):
                for pre in ('n', '') if sg > 0 else ('n', 'nnn'):
                    deep = fd not in (1, 2, 3, 6) or pre == 'nnn' and UNIT[w][0] == 'm'
                    # at whole days or months the product of the binary fraction is computed, elsewhere its error is bounded
                    D = 10 ** fd
                    step = {'weeks': D, 'mons': D // 10, 'years': D // 2 if fd == 1 else D // 4}.get(w)
                    for k in range(0, D, step) if step else ():
                        lit = '%0*d' % (fd, k)
                        ob('%s%s.%s %s' % (s, pre, lit, w), '<%s>%s<.%s %s>' % (s, pre, lit, w),
                           lambda K, v, st, w=w, sg=sg, fd=fd, k=k: part_of(sg, v.get('n', 0), k, fd, w), deep=deep)
                    if step != 1:
                        ob('%s%s.%s %s' % (s, pre, 'F' * fd, w), '<%s>%s<.>%s< %s>' % (s, pre, 'F' * fd, w),
                           lambda K, v, st, w=w, sg=sg, fd=fd: part_of(sg, v.get('n', 0), v['F'], fd, w), deep=deep,
                           need=step and (lambda v, step=step: not_(eq(fmod(v['F'], step), 0))))
    # several parts
    for w1, w2 in itertools.permutations(MAIN, 2):
        for (s1, t1), (s2, t2) in itertools.product(SIGN[:2], SIGN[:2]):
            ob('%saa %s %sbb %s' % (t1, w1, t2, w2), '<%s>aa< %s %s>bb< %s>' % (t1, w1, t2, w2),
               lambda K, v, st, a=(s1, w1), b=(s2, w2): total([amount(a[0], v['a'], a[1]), amount(b[0], v['b'], b[1])]), deep=s1 != s2 or UNIT[w1][0] != UNIT[w2][0])
    for w in MAIN:
        ob('the same unit twice, %s' % w, 'aa< %s >bb< %s>' % (w, w), lambda K, v, st: 'bad')
    whole = 'a< year >b< mons >c< weeks >dd< days >ee< hours >ff< mins >gg<.>FFFFFF< secs>'

    def all_(K, v, st, sg=1):
        return total([amount(sg, v[c], u) for c, u in zip('abcdefg', ('year', 'mon', 'week', 'day', 'hour', 'min', 'sec'))] + [(0, 0, mul(v['F'], sg))])
    ob('all units', whole, all_, timeout=200)
    ob('all units ago', '<@ >' + whole + '< ago>', lambda K, v, st: all_(K, v, st, -1), timeout=200)
    # clock
    for f, fd in (('HH:II', 0), ('HH:II:SS', 0), ('HHH:II:SS', 0), ('HHHHHHHHHH:II:SS', 0), ('HH:II:SS.F', 1), ('HH:II:SS.FFF', 3), ('HH:II:SS.FFFFFF', 6)):
        def clock(K, v, fd=fd):
            if not K.choose(and_(le(v['I'], 59), le(v.get('S', 0), 60), le(v['H'], 2 ** 31 - 1))):
                return None
            return add(mul(add(mul(add(mul(v['H'], 60), v['I']), 60), v.get('S', 0)), US), mul(v['F'], 10 ** (6 - fd)) if fd else 0)
        for sg, s in SIGN:
            for dsg, d in SIGN + ((0, ''),):
                for u in ('< >', '< days >', '<d >') if dsg else ('',):
                    for ago in ('', '< ago>'):
                        for st in ISTYLES:
                            if (st != 'SQLStandard' and st != 'Postgres') or (ago and st != 'Postgres'):
                                continue

                            def want(K, v, st, sg=sg, dsg=dsg, s=s, d=d, ago=ago, clock=clock):
                                t = clock(K, v)
                                if t is None:
                                    return None
                                k = -1 if ago else 1
                                tk = -1 if st == 'SQLStandard' and d == '-' and dsg and not s else sg
                                return 0, mul(v.get('d', 0), dsg * k), mul(t, tk * k)
                            form = ('<%s>dd%s' % (d, u) if dsg else '') + '<%s>' % s + f + ago
                            ob('clock ' + form, form, want, (st,), deep=fd in (1, 3) or s == '+' or d == '+' or f == 'HH:II')
    # SQL years-months
    for yw, mw in ((1, 1), (2, 1), (4, 2), (9, 2), (10, 2)):
        for sg, s in SIGN:
            def ym(K, v, st, sg=sg):
                y, m = v['y'], v['m']
                if not K.choose(and_(le(m, 11), i32(mul(y, sg)), i32(mul(add(mul(y, 12), m), sg)))):
                    return None
                return mul(add(mul(y, 12), m), sg), 0, 0
            ob('%sy%d-m%d' % (s, yw, mw), '<%s>%s<->%s' % (s, 'y' * yw, 'm' * mw), ym, ('Postgres', 'SQLStandard'))
    for (sg, s), (s2, t2), (s3, t3) in itertools.product(SIGN, SIGN, SIGN):
        def sql(K, v, st, sg=sg, s2=s2, s3=s3, lone=s == '-' and not t2 and not t3):
            if not K.choose(and_(le(v['m'], 11), le(v['I'], 59), le(v['S'], 60))):
                return None
            if lone and st == 'SQLStandard':
                s2 = s3 = -1
            return (mul(add(mul(v['y'], 12), v['m']), sg), mul(v['d'], s2), mul(add(mul(add(mul(v['H'], 60), v['I']), 60), v['S']), US * s3))
        ob('%sy-m %sd %sHH:II:SS' % (s, t2, t3), '<%s>yy-m< %s>dd< %s>HH:II:SS' % (s, t2, t3), sql, ('Postgres', 'SQLStandard'), deep='+' in (s, t2, t3))
    # seconds alone
    for sg, s in SIGN:
        ob('bare %snn' % s, '<%s>nn' % s, lambda K, v, st, sg=sg: amount(sg, v['n'], 's'))
        ob('bare %snn.FFF' % s, '<%s>nn.FFF' % s, lambda K, v, st, sg=sg: part_of(sg, v['n'], v['F'], 3, 's'))
    # ISO 8601 with designators
    DES = (('Y', 'years'), ('M', 'mons'), ('W', 'weeks'), ('D', 'days'))
    TD = (('H', 'hours'), ('M', 'minutes'), ('S', 'seconds'))
    for t, ds in (('', DES), ('T', TD)):
        for l, w in ds:
            for sg, s in SIGN[:2]:
                for n in (1, 2, 5, 10):
                    def want(K, v, st, w=w, sg=sg):
                        return amount(sg, v['n'], w) if K.choose(fits(K, w, sg, v['n'])) else None
                    ob('P%s%s%d digits %s' % (t, s, n, l), '<P%s%s>%s<%s>' % (t, s, 'n' * n, l), want, ('ISO8601',))
        for (l1, w1), (l2, w2) in itertools.combinations(ds, 2):
            for (s1, t1), (s2, t2) in itertools.product(SIGN[:2], SIGN[:2]):
                ob('P%s%saa%s%sbb%s' % (t, t1, l1, t2, l2), '<P%s%s>aa<%s%s>bb<%s>' % (t, t1, l1, t2, l2),
                   lambda K, v, st, a=(s1, w1), b=(s2, w2): total([amount(a[0], v['a'], a[1]), amount(b[0], v['b'], b[1])]), ('ISO8601',))
    for sg, s in SIGN[:2]:
        for n in (1, 2, 4, 10):
            for fd in range(1, 7):
                def secs(K, v, st, sg=sg, fd=fd):
                    if not K.choose(i32(mul(v['n'], sg))):
                        return ('edge',)
                    return 0, 0, mul(add(mul(v['n'], US), mul(v['F'], 10 ** (6 - fd))), sg)
                if n < 10:
                    ob('PT%s%d digits.%dS' % (s, n, fd), '<PT%s>%s<.>%s<S>' % (s, 'n' * n, 'F' * fd), secs, ('ISO8601',), deep=fd not in (1, 3, 6))
    ob('P all designators', '<P>aa<Y>bb<M>c<W>dd<DT>ee<H>ff<M>gg<.>FFFFFF<S>', all_, ('ISO8601',), timeout=200)
    ob('P all designators, negative', '<P->aa<Y->bb<M->c<W->dd<DT->ee<H->ff<M->gg<.>FFFFFF<S>', lambda K, v, st: all_(K, v, st, -1), ('ISO8601',), timeout=200)

    # ISO 8601 alternative formats

    def alt(K, v, st):
        return total([amount(1, v[c], u) for c, u in zip('ymdHIS', ('year', 'mon', 'day', 'hour', 'min', 'sec')) if c in v] + [(0, 0, v.get('F', 0))])
    for f in ('yyyy-mm-dd', 'yyyy-m-d', 'yyyy-mm-dd<T>HH:II:SS', 'yyyymmdd', 'yyyymmdd<T>HHIISS', 'yyyy-mm', 'yyyy', 'yyyy-mm-dd<T>HH', 'yyyy-mm-dd<T>HH:II',
              '<T>HH:II:SS', '<T>HHIISS', '<T>HH:II', 'yyyymmdd<T>HH:II:SS', 'yyyy-mm-dd<T>HHIISS',
              'yyyy-mm<T>HH:II:SS', 'yyyy-m<T>HH:II', 'yyyy<T>HH:II:SS', 'yyyy-mm<T>HHIISS', 'yyyy-mm-dd<T>HH:II:SS.FFFFFF', 'yyyymmdd<T>HHIISS.FFFFFF', 'yyyymmdd<T>HH', 'yyyymmdd<T>HH:II', '<T>HH:II:SS.FFFFFF', '<T>HHIISS.FFFFFF'):
        ob('P' + f, '<P>' + f, alt, ('ISO8601', 'Postgres'))
    for bad in ('P', 'PY', 'P1H', 'PT1D', 'PT1Y', 'P1S', 'P1D2', 'PT1H-2', 'P1YM', 'P--1D', 'P1X', '', ' ', '@', 'ago', '-', 'days', '1 2', '1:2:3:4', 'one day', '1 day x', 'x 1 day', '1..5 days',
                '1.5.5 s', '1-12', '1--1', 'P-1-2-3', '1 day 2 days'):
        for st in ISTYLES:
            ob('refused: %r' % bad, '<%s>' % bad, lambda K, v, st: 'bad', (st,))
    return out
