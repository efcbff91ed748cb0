"""text of times of day"""
from .common import *
from . import text as X


def obs():
    out = []
    for style in STYLES:
        def b(S, style=style):
            t = tod(S)
            return [t, style], t
        out.append(Ob('time text %s' % style, 'vp_time_format', b, lambda K, t, o: X.is_text(o, X.time_text(K, t))))
        for rd in ORDERS:
            for tm in (-1, 6):
                def b(S, style=style, rd=rd, tm=tm):
                    t = tod(S)
                    return [t, style, tm, rd], t
                out.append(Ob('time read back %s as %s%s' % (style, rd, '' if tm < 0 else ' at full precision'), 'vp_time_text', b, lambda K, t, o: [('the same time', ok_is(o, t))]))
    return out
