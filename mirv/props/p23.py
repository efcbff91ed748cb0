"""reading does not depend on what was read before (the token caches)"""
from .common import *
from . import text as X
from .p22 import fill, NAMES, named_day
from .p24 import clock

# words the decoders know, among them prefixes of each other, and words they do not
WORDS = [n.lower() for n in NAMES] + [n[:3].lower() for n in NAMES] + ['sept', 'sunday', 'mon', 'monday', 'tues', 'tuesday', 'wed', 'thu', 'thurs', 'thursday', 'fri', 'sat',
         'am', 'pm', 'ad', 'bc', 'at', 'on', 't', 'y', 'm', 'mm', 'd', 'h', 's', 'j', 'jd', 'julian', 'dow', 'doy', 'allballs', 'utc', 'z', 'mart', 'mat', 'undefined', 'infinity', 'xyz', '@']
UNITS_ = [('us', 'us', 1), ('microseconds', 'us', 1), ('ms', 'us', 1000), ('milliseconds', 'us', 1000), ('s', 'us', 10 ** 6), ('second', 'us', 10 ** 6), ('m', 'us', 6 * 10 ** 7), ('minutes', 'us', 6 * 10 ** 7),
          ('h', 'us', HOUR), ('hours', 'us', HOUR), ('d', 'd', 1), ('days', 'd', 1), ('w', 'd', 7), ('week', 'd', 7), ('mon', 'm', 1), ('months', 'm', 1), ('y', 'm', 12), ('years', 'm', 12),
          ('dec', 'm', 120), ('decade', 'm', 120), ('c', 'm', 1200), ('century', 'm', 1200), ('mil', 'm', 12000), ('millennium', 'm', 12000)]


def obs():
    out = []

    def date(prev, form, word, month, title, **kw):
        def b(S):
            bs, v = fill(S, form, word)
            return [S.str(X.lit(prev)), S.str(bs), 'DMY'], v

        def e(K, v, o):
            if month is None:
                return [('refused as without a history', iserr(o))]
            return named_day(K, v['y'], month, v['d'], 'BC' in form, o)
        out.append(Ob(title, 'vp_date_after', b, e, lazy='text', timeout=60, **kw))
    for w in WORDS:
        for m in range(1, 13):
            for nm in (NAMES[m - 1], NAMES[m - 1][:3]):
                near = w[:2] == nm[:2].lower()
                date(w, 'N dd yyyy', nm, m, '%s after %s' % (nm, w), deep=not near and m != 9)
                date('1 ' + w, 'dd N yyyy', nm, m, 'day %s after 1 %s' % (nm, w), deep=not near)
        for x in ('xyz', 'ma', 'marc', 'septe', 'decemberx', 'mon'):
            date(w, 'N dd yyyy', x, None, 'unknown month %s after %s' % (x, w), deep=w[:1] != x[:1] and x != 'xyz')
        for x, month in (('BC', 2), ('AD', 2), ('AB', None)):
            date('1 2 1 ' + w, 'dd <Feb> yyyy< %s>' % x, None, month, '%s after %s' % (x, w))
        for x, half in (('AM', 0), ('PM', 12)):
            def b(S, w=w, x=x):
                bs, v = fill(S, 'HH:II< %s>' % x)
                return [S.str(X.lit('1 ' + w)), S.str(bs), 'YMD'], v

            def e(K, v, o, half=half):
                t = clock(K, v, 0, 'PM' if half else 'AM')
                return [('the time read without a history', iserr(o) if t is None else ok_is(o, t))]
            out.append(Ob('time %s after 1 %s' % (x, w), 'vp_time_after', b, e, lazy='text', timeout=60))
    for w in sorted(set(WORDS + [u for u, _, _ in UNITS_] + ['ago', 'minute', 'min', 'mons', 'month', 'mi', 'mill', 'sec', 'msec', 'usec', 'qtr', 'quarter', 'timezone'])):
        for u, part, n in UNITS_ + [('mi', None, 0), ('secon', None, 0)]:
            for ago in ('', ' ago'):
                def b(S, w=w, u=u, ago=ago):
                    bs, v = fill(S, 'nn< %s>' % (u + ago))
                    return [S.str(X.lit('1 ' + w + (' 1 ' if ago else ''))), S.str(bs), 'YMD'], v

                def e(K, v, o, part=part, n=n, ago=ago):
                    if part is None:
                        return [('refused as without a history', iserr(o))]
                    x = mul(v['n'], -n if ago else n)
                    return [('the interval read without a history', ok_is(o, Iv(x if part == 'm' else 0, x if part == 'd' else 0, x if part == 'us' else 0)))]
                out.append(Ob('%s%s after 1 %s' % (u, ago, w), 'vp_iv_after', b, e, lazy='text', timeout=60, deep=w[:1] != u[:1] or bool(ago) and w[:2] != 'ag'))
    return out
