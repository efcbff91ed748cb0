"""input forms of dates: which day each documented form names, and that impossible days are refused"""
import re
from .common import *
from . import text as X

NAMES = ['January', 'February', 'March', 'April', 'May', 'June', 'July', 'August', 'September', 'October', 'November', 'December']


def fill(S, form, mon=None):
    """the text of a form: a letter stands for one digit of that field, <..> for literal text, M for a month name when given.
    returns the text and the fields"""
    v, bs, i = {}, [], 0
    while i < len(form):
        c = form[i]
        if c == '<':
            j = form.index('>', i)
            bs += X.lit(form[i + 1:j])
            i = j + 1
        elif c == 'N':
            bs += X.lit(mon) if isinstance(mon, str) else mon
            i += 1
        elif c.isalpha():
            n = 1
            while form[i + n:i + n + 1] == c:
                n += 1
            lo = 10 ** (n - 1) if n > 4 and c != 'F' else 0
            v[c] = S.int(c, lo, 10 ** n - 1)
            bs += X.digits(v[c], n)
            i += n
        else:
            bs += X.lit(c)
            i += 1
    return tuple(bs), v


def full_year(K, y, n):
    """a year of one or two digits means 1970 to 2069 (without BC)"""
    if n > 2:
        return y
    return add(y, 2000) if K.choose(lt(y, 70)) else add(y, 1900)


def named_day(K, y, m, d, bc, o):
    """the outcome is that day, or an error when there is no such day"""
    if not K.choose(and_(rng(m, 1, 12), ge(y, 1))):
        return [('a month outside 1..12 or year zero is refused', iserr(o))]
    m = K.concrete(m)
    ay = sub(1, y) if bc else y
    if not K.choose(real_day(ay, m, d)):
        return [('a day the calendar does not have is refused', iserr(o))]
    v = sub(jdn(ay, m, d), EPOCH)
    if K.choose(is_date(v)):
        return [('the day named', ok_is(o, v))]
    return [('a date outside the supported range is refused', iserr(o))]


# forms and the orders under which they are understood
YMD, MDY, DMY = ['YMD'], ['MDY'], ['DMY']
FORMS = [('y-m-d', 'yyyy-mm-dd', ORDERS), ('y/m/d', 'yyyy/mm/dd', ORDERS), ('y.m.d', 'yyyy.mm.dd', ORDERS), ('y m d', 'yyyy mm dd', ORDERS), ('y/m/d BC', 'yyyy/mm/dd< BC>', MDY),
         ('short y-m-d', 'yyyy-m-d', MDY), ('m/d/y', 'mm/dd/yyyy', MDY), ('d/m/y', 'dd/mm/yyyy', DMY), ('d.m.y', 'dd.mm.yyyy', DMY), ('m/d/y short', 'm/d/yyyy', MDY), ('d-m-y short', 'd-m-yyyy', DMY), ('m d y', 'mm dd yyyy', MDY), ('d m y', 'dd mm yyyy', DMY), ('m.d.y', 'mm.dd.yyyy', MDY), ('d-m-y', 'dd-mm-yyyy', DMY), ('m/d/yyyyy', 'mm/dd/yyyyy', MDY), ('d/m/yyyyy', 'dd/mm/yyyyy', DMY), ('d/m/y BC', 'dd/mm/yyyy< BC>', DMY), ('m-d-y', 'm-d-yyyy', MDY),
         ('five digit year', 'yyyyy-mm-dd', DMY), ('six digit year', 'yyyyyy-mm-dd', MDY), ('seven digit year', 'yyyyyyy-mm-dd', YMD),
         ('three digit y-m-d', 'yyy-mm-dd', ORDERS), ('three digit m/d/y', 'm/d/yyy', MDY), ('three digit d.m.y', 'dd.mm.yyy', DMY),
         ('yymd', 'yyyymmdd', ORDERS), ('yyyyymd', 'yyyyymmdd', YMD), ('ymd', 'yymmdd', ORDERS),
         ('two digit y-m-d', 'yy-mm-dd', YMD), ('two digit m-d-y', 'mm-dd-yy', MDY), ('two digit d-m-y', 'dd-mm-yy', DMY), ('two digit m/d/y', 'm/d/yy', MDY), ('two digit d/m/y', 'd/m/yy', DMY), ('two digit y/m/d', 'yy/m/d', YMD), ('two digit y m d', 'yy mm dd', YMD),
         ('BC', 'yyyy-mm-dd< BC>', YMD), ('two digit year BC', 'yy-mm-dd< BC>', YMD), ('run together BC', 'yymmdd< BC>', MDY), ('long run together BC', 'yyyymmdd< bc>', DMY), ('dd.mm.yy BC', 'dd.mm.yy< BC>', DMY), ('bc without blank', 'yyyy-mm-dd<bc>', DMY), ('m/d/y BC', 'mm/dd/yyyy< BC>', MDY), ('AD', 'yyyy-mm-dd< AD>', MDY),
         ('blanks', '<  >yyyy-mm-dd<\t >', YMD), ('letters', '<y>yyyy<m>mm<d>dd', MDY)]
NFORMS = [('weekday name dd y', '<Thu >N dd yyyy', MDY), ('weekday, dd name y', '<THURSDAY, >dd N yyyy', DMY), ('name d, y', 'N d, yyyy', MDY), ('name dd y', 'N dd yyyy', YMD), ('dd name y', 'dd N yyyy', DMY), ('y name dd', 'yyyy N dd', MDY), ('y-name-dd', 'yyyy-N-dd', DMY),
          ('name-dd-y', 'N-dd-yyyy', MDY), ('dd-name-y', 'dd-N-yyyy', YMD), ('yy-name-dd', 'yy-N-dd', YMD), ('dd-name-yy', 'dd-N-yy', DMY), ('name-dd-yy', 'N-dd-yy', MDY),
          ('y-name-d, three digits', 'yyy-N-d', ORDERS), ('d-name-y, three digits', 'd-N-yyy', ORDERS), ('dd name y, three digits', 'dd N yyy', ORDERS), ('name dd y, three digits', 'N dd yyy', ORDERS), ('dd-name-yyyyy', 'dd-N-yyyyy', ORDERS),
          ('name d, y BC', 'N d, yyyy< BC>', DMY)]

WEEKDAYS = 'sun sunday mon monday tue tues tuesday wed weds wednesday thu thur thurs thursday fri friday sat saturday'.split()


def obs():
    from . import p24
    out = p24.of_date()

    def form(title, f, order, mon=None, tag='', **kw):
        width = re.sub('<.*?>', '', f).count('y')

        def b(S):
            bs, v = fill(S, f, tag)
            return [S.str(bs), order], v

        def e(K, v, o):
            bc = 'bc' in f.lower()
            return named_day(K, v['y'] if bc else full_year(K, v['y'], width), v['m'] if mon is None else mon, v['d'], bc, o)
        out.append(Ob('%s, %s' % (title, order), 'vp_date_from_str', b, e, lazy='text', timeout=120, **kw))
    for t, f, orders in FORMS:
        for o in orders:
            form(t, f, o)
    for t, f, orders in NFORMS:
        for o in ORDERS if 'yyy' in f else orders:
            for m in range(1, 13):
                for nm in (NAMES[m - 1], NAMES[m - 1][:3].upper()):
                    form('%s %s' % (t, nm), f, o, m, nm)
    for m, nm in ((9, 'sept'),):
        form('name d, y %s' % nm, 'N d, yyyy', 'MDY', m, nm)
    # every weekday word, which does not matter
    for k, wd in enumerate(WEEKDAYS):
        m = k % 12 + 1
        form('%s name dd y' % wd, '<%s >N dd yyyy' % wd, 'MDY', m, NAMES[m - 1])
        form('dd name y %s' % wd.upper(), 'dd N yyyy< %s>' % wd.upper(), 'DMY', m, NAMES[m - 1][:3])
        form('y-m-d %s' % wd, 'yyyy-mm-dd< %s>' % wd, 'YMD')
    for wd in ('on', 'at', 'AT', 'On'):
        form('%s y-m-d' % wd, '<%s >yyyy-mm-dd' % wd, 'YMD')
        form('y-m-d %s' % wd, 'yyyy-mm-dd< %s>' % wd, 'MDY')
    for w in ('ad', 'Ad', 'aD', 'AD', 'bc', 'Bc', 'bC', 'BC'):
        form('y-m-d%s' % w, 'yyyy-mm-dd<%s>' % w, 'YMD')
        form('name d, y %s' % w, 'N d, yyyy< %s>' % w, 'MDY', 3, 'mar')
    # month names in any mix of small and capital letters
    for m in range(1, 13):
        for nm in (NAMES[m - 1][:3],) + ((NAMES[m - 1],) if 3 < len(NAMES[m - 1]) < 6 else ()):
            for f, o in (('N dd yyyy', 'YMD'), ('dd-N-yyyy', 'DMY')):
                def b(S, nm=nm, f=f, o=o):
                    name = tuple(sub(c, mul(32, S.int('case%d' % i, 0, 1))) for i, c in enumerate(X.lit(nm.lower())))
                    bs, v = fill(S, f, name)
                    return [S.str(bs), o], v
                out.append(Ob('%s in any case, %s' % (nm, f), 'vp_date_from_str', b, lambda K, v, o, m=m: named_day(K, v['y'], m, v['d'], False, o), lazy='text', timeout=120))
    for t, f in (('y.doy', 'yyyy.ddd'), ('y-doy', 'yyyy-ddd'), ('five digit y.doy', 'yyyyy.ddd'), ('seven digit y.doy', 'yyyyyyy.ddd'), ('seven digit y-doy', 'yyyyyyy-ddd'), ('eight digit y.doy', 'yyyyyyyy.ddd'),
                 ('y.doy BC', 'yyyy.ddd< BC>'), ('y-doy BC', 'yyyy-ddd< BC>')):
        def b(S, f=f):
            bs, v = fill(S, f)
            return [S.str(bs), 'MDY'], v

        def e(K, v, o, f=f):
            y, d = v['y'], v['d']
            if not K.choose(and_(ge(y, 1), rng(d, 1, 366))):
                return [('no such day of the year is refused', iserr(o))]
            w = add(sub(jdn(sub(1, y) if 'BC' in f else y, 1, 1), EPOCH), sub(d, 1))
            if K.choose(is_date(w)):
                return [('that day of the year', ok_is(o, w))]
            return [('a day outside the range is refused', iserr(o))]
        out.append(Ob(t, 'vp_date_from_str', b, e, lazy='text', timeout=120))
    for n in (1, 5, 6, 7, 8, 9, 10):
        for t, f in (('J', '<J>' + 'j' * n), ('j and blank', '<j >' + 'j' * n), ('JD', '<JD>' + 'j' * n), ('julian', '<Julian >' + 'j' * n)):
            def b(S, f=f):
                bs, v = fill(S, f)
                return [S.str(bs), 'YMD'], v

            def e(K, v, o):
                d = sub(v['j'], EPOCH)
                if K.choose(is_date(d)):
                    return [('that day number', ok_is(o, d))]
                return [('a day number outside the range is refused', iserr(o))]
            out.append(Ob('%s with %d digits' % (t, n), 'vp_date_from_str', b, e, lazy='text', timeout=200, deep=t != 'J' and n != 7))
    return out
