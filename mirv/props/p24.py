"""input forms of times of day and timestamps: which time each documented form names, and that impossible times are refused"""
from .common import *
from . import text as X
from .p22 import fill, NAMES, full_year

# forms: H hour, I minute, S second, F fraction, <..> literal text
TIMES = ['HH:II', 'H:II', 'HH:II:SS', 'H:II:SS', 'HH:I:S', 'HH:II:SS.F', 'HH:II:SS.FF', 'HH:II:SS.FFF', 'HH:II:SS.FFFF', 'HH:II:SS.FFFFF', 'HH:II:SS.FFFFFF',
         'II:SS.F', 'II:SS.FFF', 'II:SS.FFFFFF',  # minutes and seconds when there is a fraction
         'HHII', 'HHIISS', 'HHIISS.FFF', 'HHIISS.FFFFFF', '<T>HH:II:SS', '<t>HH:II', '<T>HHIISS', '<T>HHII', '<T>HHIISS.FFFFFF', '< >HH:II:SS.FFFFFF<  >', '<h>HH<mm>II<s>SS', '<00>HH:II']
HALF = ['HH:II', 'H:II', 'HH:II:SS', 'HH:II:SS.FFFFFF', 'HHII', 'HHIISS', '<T>HH:II:SS']
# with a date; forms the ISO and Postgres layouts of P17 do not contain
STAMPS = [('yyyy-mm-dd HH:II:SS', 'YMD'), ('yyyy-mm-dd HH:II', 'MDY'), ('yyyymmdd<T>HHIISS', 'YMD'), ('yyyymmdd HHIISS', 'MDY'), ('yyyy-mm-dd II:SS.FFFFFF', 'YMD'), ('yyyymmdd HHII', 'DMY'), ('yyyymmdd<T>HHII', 'YMD'),
          ('yyyy-mm-dd HHIISS.FFFFFF', 'YMD'), ('yyyy-mm-dd<T>HH:II:SS.FFFFFF', 'MDY'), ('mm/dd/yyyy HH:II:SS', 'MDY'), ('dd/mm/yyyy HH:II:SS', 'DMY'),
          ('yyyy-mm-dd HH:II:SS< BC>', 'YMD'), ('yyyy-mm-dd<  >HH:II:SS.FFF', 'DMY'), ('yy-mm-dd HH:II', 'YMD')]
# every date form of P22 with two forms of times
DATES = ['yyyy-mm-dd', 'yyyy/mm/dd', 'yyyy.mm.dd', 'yyyy mm dd', 'yyyyy-mm-dd', 'yyyyyy-mm-dd', 'yyyymmdd', 'yymmdd', '<y>yyyy<m>mm<d>dd']
BY_ORDER = [('mm/dd/yyyy', 'MDY'), ('dd/mm/yyyy', 'DMY'), ('dd.mm.yyyy', 'DMY'), ('yy-mm-dd', 'YMD'), ('mm-dd-yy', 'MDY'), ('dd-mm-yy', 'DMY'), ('m/d/yyyy', 'MDY'), ('d-m-yyyy', 'DMY')]
CLOCKS = [' HH:II:SS', ' HH:II:SS.FFFFFF', ' II:SS.FFF', ' HHIISS.FFF', '<T>HH:II:SS.F', ' <h>HH<mm>II<s>SS', ' HH:II:SS< BC>', ' HH:II< PM BC>']
NAMED = [('N dd, yyyy HH:II:SS', 'MDY'), ('dd N yyyy HH:II', 'DMY'), ('<Thu >N dd HH:II:SS yyyy', 'MDY')]


def micros(v, fd):
    return v.get('F', 0) if fd == 6 else mul(v['F'], 10 ** (6 - fd)) if fd else 0


def clock(K, v, fd, half=None):
    """microseconds since midnight, or None when there is no such time"""
    h, mi, s, f = v.get('H', 0), v['I'], v.get('S', 0), micros(v, fd)
    if half:
        if not K.choose(le(h, 12)):
            return None
        if K.choose(eq(h, 12)):
            h = 0 if half == 'AM' else 12
        elif half == 'PM':
            h = add(h, 12)
    t = add(mul(add(mul(add(mul(h, 60), mi), 60), s), US), f)
    if K.choose(and_(le(mi, 59), le(s, 60), le(t, DAY))):
        return t
    return None


def digits_of(f, c):
    import re
    return re.sub('<.*?>', '', f).count(c)


def stamp_ob(f, order, mon=None, name='', half=None, suffix='', entry='vp_ts_from_str', **kw):
    """a text of date and time read as a timestamp, as a date (its day) or as a time (its time of day)"""
    fd, width = digits_of(f, 'F'), digits_of(f, 'y')
    kind = entry.split('_')[1]

    def b(S):
        bs, v = fill(S, f + suffix, name)
        return [S.str(bs)] + ([-1] if kind != 'date' else []) + [order], v

    def e(K, v, o):
        t = clock(K, v, fd, half) if 'I' in v else 0
        if t is None:
            return [('a time outside the day or a field outside its range is refused', iserr(o))]
        if 'j' in v:
            day = sub(v['j'], EPOCH)
        else:
            y = v['y'] if 'BC' in f else full_year(K, v['y'], width)
            ay = sub(1, y) if 'BC' in f else y
            if 'd' in v and 'm' not in v and mon is None:
                if not K.choose(and_(ge(y, 1), rng(v['d'], 1, 366))):
                    return [('no such day of the year is refused', iserr(o))]
                day = add(sub(jdn(ay, 1, 1), EPOCH), sub(v['d'], 1))
            else:
                m, d = v['m'] if mon is None else mon, v['d']
                if not K.choose(and_(rng(m, 1, 12), ge(y, 1))):
                    return [('a month outside 1..12 or year zero is refused', iserr(o))]
                m = K.concrete(m)
                if not K.choose(real_day(ay, m, d)):
                    return [('a day the calendar does not have is refused', iserr(o))]
                day = sub(jdn(ay, m, d), EPOCH)
        if kind == 'time':
            return [('the time of day', ok_is(o, t))]
        w = add(mul(day, DAY), t)
        if K.choose(is_date(day) if kind == 'date' else is_ts(w)):
            return [('the day', ok_is(o, day)) if kind == 'date' else ('the instant named', ok_is(o, w))]
        return [('out of range is refused', iserr(o))]
    kw.setdefault('timeout', 150)
    return Ob('%s %s%s, %s' % ({'ts': 'timestamp', 'date': 'day of', 'time': 'time of'}[kind], f.replace('N', name), suffix, order), entry, b, e, lazy='text', **kw)


# a day alone is its midnight; day numbers, days of the year; the time first
MORE = [('<J>jjjjjjj HH:II:SS', 'YMD'), ('<J>jjjjjj HH:II', 'MDY'), ('<J>jjjjjjj', 'DMY'), ('<J>jjjjjjj HHIISS.FFFFFF', 'YMD'), ('HH:II:SS <J>jjjjjjj', 'YMD'), ('yyyy.ddd HH:II:SS', 'YMD'), ('yyyy-ddd HH:II', 'MDY'), ('yyyy-ddd HH:II:SS.FFF', 'DMY'),
        ('yyyy.ddd', 'MDY'), ('yyyy-ddd', 'YMD'), ('yyyy-mm-dd', 'YMD'), ('yyyymmdd', 'YMD'), ('yymmdd', 'MDY'), ('mm/dd/yyyy', 'MDY'), ('dd/mm/yyyy', 'DMY'), ('yyyy-mm-dd< BC>', 'YMD'), ('HH:II:SS yyyymmdd', 'YMD'), ('HH:II:SS yymmdd', 'MDY'), ('HH:II yyyymmdd', 'DMY'),
        ('yyyy-mm-dd< at >HH:II:SS', 'YMD'), ('<on >yyyy-mm-dd HH:II', 'MDY'), ('yyyy-mm-dd< allballs>', 'YMD'), ('yyy-mm-dd HH:II:SS', 'YMD'), ('<J>jjjjjjj< allballs>', 'DMY')]
MORE_NAMED = [('HH:II:SS N dd yyyy', 'MDY'), ('HH:II:SS dd N yyyy', 'DMY'), ('N d yyyy', 'MDY'), ('dd-N-yyyy HH:II:SS', 'YMD'), ('yyyy-N-dd HH:II', 'YMD'), ('N dd HH:II:SS yyyy< BC>', 'MDY')]
ON_DATE = [('yyyy-mm-dd HH:II:SS', 'YMD'), ('yyyy-mm-dd HH:II', 'DMY'), ('yyyy-mm-dd<T>HH:II:SS.FFFFFF', 'MDY'), ('mm/dd/yyyy HH:II:SS', 'MDY'), ('dd.mm.yyyy HH:II', 'DMY'), ('yyyymmdd<T>HHIISS', 'YMD'), ('<J>jjjjjjj HH:II:SS', 'YMD'), ('yyyyyyy-mm-dd HH:II:SS', 'YMD'), ('yyyy-ddd HH:II:SS', 'DMY'), ('yyyy-mm-dd HH:II:SS< BC>', 'YMD')]
ON_TIME = [('yyyy-mm-dd HH:II:SS', 'YMD'), ('yyyy-mm-dd HH:II', 'MDY'), ('yyyy-mm-dd HH:II:SS.FFFFFF', 'DMY'), ('yyyy/mm/dd HH:II:SS', 'YMD'), ('dd/mm/yyyy HH:II:SS', 'DMY'), ('mm/dd/yyyy HH:II:SS', 'MDY'), ('yyyy-mm-dd HH:II:SS< BC>', 'YMD')]


def of_date():
    return [stamp_ob(f, o, half=h, suffix='< %s>' % h if h else '', entry='vp_date_from_str') for f, o in ON_DATE for h in (None, 'PM') if not (h and 'BC' in f)]


def obs():
    out = []
    orders = {}

    def time(f, half=None, suffix='', **kw):
        fd = digits_of(f, 'F')

        def b(S):
            bs, v = fill(S, f + suffix)
            return [S.str(bs), -1, 'YMD'], v

        def e(K, v, o):
            t = clock(K, v, fd, half)
            if t is None:
                return [('a time outside the day or a field outside its range is refused', iserr(o))]
            return [('the time named', ok_is(o, t))]
        out.append(Ob('time ' + f + suffix, 'vp_time_from_str', b, e, lazy='text', timeout=100, **kw))

    def stamp(*a, **kw):
        out.append(stamp_ob(*a, **kw))
    for f in TIMES:
        time(f)
    for f in HALF:
        for h in ('AM', 'PM'):
            for suf in ('< %s>' % h, '<%s>' % h.lower()):
                time(f, h, suf)
    for f, o in STAMPS:
        stamp(f, o)
        if 'BC' not in f:
            for h in ('AM', 'PM'):
                stamp(f, o, half=h, suffix='< %s>' % h)
    have = {(f, o) for f, o in STAMPS}
    for d, o in [(d, o) for d in DATES for o in ORDERS] + BY_ORDER:
        for c in CLOCKS:
            if (d + c, o) not in have:
                half = 'PM' if 'PM' in c else None
                stamp(d + c, o, half=half)
    for f, o in MORE:
        stamp(f, o)
    for f, o in ON_TIME:
        for h in (None, 'AM', 'PM'):
            if not (h and 'BC' in f):
                stamp(f, o, half=h, suffix='< %s>' % h if h else '', entry='vp_time_from_str')
    for f, o in NAMED + MORE_NAMED:
        for m in range(1, 13):
            stamp(f, o, m, NAMES[m - 1][:3])
    for w in ('allballs', 'ALLBALLS'):
        out.append(Ob('time ' + w, 'vp_time_from_str', const(X_str(w), -1, 'MDY'), lambda K, e, o: [('midnight', ok_is(o, 0))]))
    return out


def X_str(w):
    return ('str', X.lit(w))
