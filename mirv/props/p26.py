"""reading any text gives a value or an error: no panic, no undefined behaviour.  Bounded: every text of up to three ASCII
bytes; typical texts with any bytes put in any place; long repetitions"""
import itertools
import re
from .common import *
from . import text as X

READ = [('date', 'vp_date_from_str', lambda s, o: [s, o]), ('time', 'vp_time_from_str', lambda s, o: [s, -1, o]), ('timestamp', 'vp_ts_from_str', lambda s, o: [s, -1, o]),
        ('interval', 'vp_iv_from_str', lambda s, o: [s, -1, 'Postgres' if o == 'YMD' else 'SQLStandard'])]
DATES = ['1999-01-08', '1/8/1999', '08.01.1999 BC', '19990108', 'January 8, 1999', '8 Jan 99', '1999.008', 'J2451187', 'Thu Jan 08 1999', 'infinity', '4714-11-24 BC', 'y1999m1d8']
TIMES = ['04:05:06.789', '040506', 'T04:05', '4:05 PM', '24:00:00', 'allballs', 'h04mm05s06']
STAMPS = ['1999-01-08 04:05:06.5', '19990108T040506', 'Thu Jan 08 04:05:06 1999', '-infinity', '1/8/1999 4:05 PM BC']
IVS = ['1 day 02:03:04.5', '-1-2 +3 -4:05:06', '@ 1 year 2 mons ago', 'P1Y2M3W4DT5H6M7.8S', 'P0001-02-03T04:05:06', 'P00010203T040506', '1.5 weeks', '2147483648 us', '1 2:03']

# numbers with a fraction
DEC = {'date': ['J#.%', '#.%'], 'time': ['#.%', 'T#.%', '04:05:#.%', '04:#.%'], 'timestamp': ['1999-01-08 #.%', 'J#.%', '1999-01-08 04:05:#.%', '#.%'],
       'interval': ['P#.%Y', 'P#.%M', 'P#.%W', 'P#.%D', 'PT#.%H', 'PT#.%M', 'PT-#.%S', '#.% weeks', '-#.% years', '#.% mons', '#.% ms', '#.%', '04:05:#.%', '1 04:#.%', 'P0001-02-03T04:05:#.%']}


CLASS = {'a': (97, 122), '9': (48, 57), '#': (43, 47)}
FIELDS = ['a', 'aaa', '9', '99', '9999', '#9', '99#', '9a', 'a9', '9#9', '99:99', '99:99:99', '9.9', '99#99#99']


def total(K, v, o):
    return [('a value or an error', o[0] in ('ok', 'err'))]


def obs():
    out = []

    def ob(title, nm, fn, args, mk, n, what, lo=0, hi=127, **kw):
        def b(S):
            bs = mk([S.int('c%d' % i, lo, hi) for i in range(n)])
            return args(S.str(tuple(bs))), None
        kw.setdefault('timeout', 300)
        out.append(Ob('%s, %s' % (nm, title), fn, b, total, lazy='text', bounded=what, **kw))
    def shape(t, nm, fn, args, **kw):
        def b(S):
            return args(S.str(tuple(y for i, x in enumerate(t) for y in ([S.int('c%d' % i, *CLASS[x])] if x in CLASS else X.lit(x))))), None
        out.append(Ob('%s, any %s' % (nm, t), fn, b, total, lazy='text', bounded='fields of these lengths', timeout=300, **kw))
    def wide(t, p, nm, fn, a, bs):
        def b(S):
            return a(S.str(tuple(bs[:p] + [S.int('c0', 0xc2, 0xdf), S.int('c1', 0x80, 0xbf)] + bs[p + 1:]))), None
        out.append(Ob('%s, %r with any two-byte character at %d' % (nm, t, p), fn, b, total, lazy='text', bounded='one character replaced', timeout=300))
    for nm, fn, args in READ:
        a = lambda s, args=args: args(s, 'YMD')
        for n in (3, 0, 1, 2):
            ob('any text of %d bytes' % n, nm, fn, a, lambda c: c, n, 'all texts of %d ASCII bytes' % n)
        # signs, digits and separators
        for n in (4, 5, 6, 7):
            ob('any text of %d of +,-./0123456789:' % n, nm, fn, a, lambda c: c, n, 'all texts of %d of these characters' % n, lo=43, hi=58, deep=n > 5)
        # and with spaces, quotes and other punctuation; letters
        for n in (4, 5, 6):
            ob('any text of %d characters from space to colon' % n, nm, fn, a, lambda c: c, n, 'all texts of %d of these characters' % n, lo=32, hi=58, deep=n > 4)
        for n in range(4, 28):
            ob('any %d letters' % n, nm, fn, a, lambda c: c, n, 'all texts of %d letters' % n, lo=97, hi=122, deep=n not in (4, 5, 11, 26))
        ob('any text of 4 characters from space to @', nm, fn, a, lambda c: c, 4, 'all texts of 4 of these characters', lo=32, hi=64, deep=True)
        ob('any 4 of @, letters and brackets', nm, fn, a, lambda c: c, 4, 'all texts of 4 of these characters', lo=64, hi=127, deep=True)
    for nm, fn, args in READ:
        for order in ('YMD', 'MDY', 'DMY'):
            if order == 'DMY' and nm in ('interval', 'time'):
                continue
            a = lambda s, args=args, order=order: args(s, order)
            own = {'date': DATES, 'time': TIMES, 'timestamp': STAMPS + DATES[:3] + TIMES[:2], 'interval': IVS}[nm]
            others = [t for t in DATES + TIMES + STAMPS + IVS if t not in own]
            for t in own + others:
                bs = list(X.lit(t))
                deep = order != 'YMD' or t in others
                for p in range(len(bs) + 1):
                    ob('%s, %r with any byte at %d' % (order, t, p), nm, fn, a, lambda c, bs=bs, p=p: bs[:p] + c + bs[p + 1:], 1, 'one byte replaced', deep=deep)
                    ob('%s, %r with a byte inserted at %d' % (order, t, p), nm, fn, a, lambda c, bs=bs, p=p: bs[:p] + c + bs[p:], 1, 'one byte inserted', deep=True)
                    if t in own and order == 'YMD':
                        wide(t, p, nm, fn, a, bs)
                    if p < len(bs):
                        ob('%s, %r up to %d' % (order, t, p), nm, fn, a, lambda c, bs=bs, p=p: bs[:p], 0, 'a prefix', deep=deep)
                        if t in own and order == 'YMD':
                            ob('%s, %r with any two bytes at %d' % (order, t, p), nm, fn, a, lambda c, bs=bs, p=p: bs[:p] + c + bs[p + 2:], 2, 'two bytes replaced', deep=True)
                for r in re.finditer('[0-9]+', t):
                    for n in range(1, 26):
                        # quick: lengths at which the decoders change their mind
                        ob('%s, %r with any %d digits at %d' % (order, t, n, r.start()), nm, fn, a, lambda c, bs=bs, r=r: bs[:r.start()] + c + bs[r.end():], n, 'one number replaced by %d digits' % n,
                           deep=deep or n not in (1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 19, 20), lo=48, hi=57)
    for nm, fn, args in READ:
        a = lambda s, args=args: args(s, 'YMD')
        for t in DEC[nm]:
            for n, f in itertools.product((1, 2, 4, 6, 7, 8, 9, 10, 11, 18, 19, 20), (1, 6, 7, 8, 9, 10, 18, 19)):
                ob('any %d digits and %d of fraction in %r' % (n, f, t), nm, fn, a, lambda c, t=t, n=n: sum([c[:n] if x == '#' else c[n:] if x == '%' else list(X.lit(x)) for x in re.split('([#%])', t)], []),
                   n + f, 'one number replaced', lo=48, hi=57, deep=not (n in (9, 10, 11) and f in (6, 7, 8, 9)))
        for u in ['1', 'a', ' ', '-', '+', '.', ':', '/', ',', 'T', 'p', '@', '1 ', 'a ', '- ', '1-', '1:', '1.', '1/', '-1', '1a', 'jan ', '1 day ', 'P1Y', '00', '1 2-', '\x7f', '\x01', '(', 't 1 ', '1 am ', 'bc ', '12:']:
            for k in (24, 25, 26, 60, 127, 128, 129, 300):
                t = X.lit((u * k)[:400])
                ob('%r %d times' % (u, k), nm, fn, a, lambda c, t=t: t, 0, 'long texts', deep=k not in (26, 128, 300))
    # fields of letters (a), digits (9) and signs or separators (#)
    for nm, fn, args in READ:
        a = lambda s, args=args: args(s, 'YMD')
        for n, some in ((2, FIELDS), (3, ['aaa', '9', '9999', '#9', '9#9', '99:99'])):
            for fs in itertools.product(some, repeat=n):
                t = ' '.join(fs)
                if n == 2 or t.count('a') in (0, 3):
                    shape(t, nm, fn, a, deep=n > 2 or t.count('a') > 1)
    return out
