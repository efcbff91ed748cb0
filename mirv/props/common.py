from ..terms import *
from .. import terms as T
from ..spec import *
from ..engine import Ob

UNITS = ['Delta', 'Second', 'Minute', 'Hour', 'Day', 'Week', 'Month', 'Quarter', 'Year', 'Decade', 'Century',
         'MilliSec', 'MicroSec', 'JULIAN', 'Dow', 'IsoDow', 'Doy', 'Tz', 'TzMinute', 'TzHour', 'Millennium',
         'IsoYear', 'Epoch']
STYLES = ['Postgres', 'ISO', 'SQL', 'German', 'XSD']
ORDERS = ['YMD', 'DMY', 'MDY']
ISTYLES = ['Postgres', 'PostgresVerbose', 'SQLStandard', 'ISO8601']


def date(S, n='d'):
    """any finite date"""
    return S.int(n, DATE_MIN, DATE_MAX)


def ts(S, n='t', lo=TS_MIN, hi=TS_MAX):
    """any finite timestamp"""
    return S.int(n, lo, hi)


def tod(S, n='t'):
    """any time of day, 00:00:00 .. 24:00:00"""
    return S.int(n, 0, DAY)


def iv(S, n='i'):
    """any interval"""
    return Iv(S.i32(n + '.month'), S.i32(n + '.day'), S.i64(n + '.time'))


def const(*args):
    """an obligation on constant arguments"""
    def build(S):
        return list(args), args
    return build
