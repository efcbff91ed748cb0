"""Contracts on internal functions of the crate.

A contract gives the result of a call as a specification function of its arguments (for arguments inside
its stated domain; outside it the call is inlined).  A caller is verified against the contract, and the
contract itself is an obligation on the body (obs()), discharged in the same run; a contract whose
obligations are not all discharged in the run is not used at all in that run (the body is inlined)."""
from .terms import *
from . import terms as T
from .spec import *
from .engine import Ob, SymK
from .interp import Undecided, Fork, En, Opaque, Ref
NOT = NotImplemented


class Contract:
    name = None
    needs = ()          # contracts (by name) its own proof may rely on

    def fn(self, prog):
        fs = [f for f in prog.byname.get(self.name, []) if f.has_body]
        return fs[0] if len(fs) == 1 else None

    def sig(self, prog, fn, kinds):
        """parameter and return type kinds as expected?"""
        def kd(t):
            ty = prog.types[t]
            if ty['k'] == 'int':
                return ('i' if ty['signed'] else 'u') + str(ty['bits'])
            if ty['k'] == 'tuple':
                return tuple(kd(e) for e in ty['elems'])
            return ty['k']
        return [kd(fn.ltys[i]) for i in range(fn.nargs + 1)] == kinds


MAXJ = I32[1]
CMAX = (MAXJ + 32044) // 146097


class CtxK:
    def __init__(self, ctx):
        self.ctx = ctx

    def define(self, b, heavy=False):
        if not (heavy and T.LIGHT[0]):
            self.ctx.assume(b)


def lazy_month(j):
    def fixed(ctx, m):
        Y, D = T.uf('Y', (j,), -6000000, 6000000), T.uf('D', (j,), 1, 31)
        if T.CHAIN[0]:
            ctx.assume(eq(day_number(CtxK(ctx), Y, m, D), j))
        elif not T.LIGHT[0]:
            ctx.assume(eq(jdn(Y, m, D), j))
        for f in year_bounds(Y, m, j, D):
            ctx.assume(f)
        ctx.assume(real_day(Y, m, D))
    return T.uf('M', (j,), 1, 12, on_fixed=fixed)


def whole_date(ctx, y, m, d, fixed=False):
    """j when (y, m, d) is exactly the date the contract of julian2date gave for j"""
    def of(x, n):
        if isinstance(x, Lin) and len(x.c) == 1 and x.c[0][1] == 1 and x.k == 0:
            a = T.ATOMS[x.c[0][0]]
            if a.op == 'uf' and a.name == n:
                return a.args[0]
    j = of(y, 'Y')
    if j is None and fixed:
        j = of(T.simp(y, ctx), 'Y')
    if j is None:
        return None
    D = T.uf('D', (j,), 1, 31)
    if of(d, 'D') != j and not (fixed and ctx.quick(eq(D, d)) is True):
        return None
    M = T.uf('M', (j,), 1, 12)
    if of(m, 'M') == j or ctx.quick(eq(M, m)) is True:
        return j
    return None


def same_day(y, m):
    """j when y and m are the (symbolic) year and month the contract of julian2date gave for j"""
    def of(x, n):
        if isinstance(x, Lin) and len(x.c) == 1 and x.c[0][1] == 1 and x.k == 0:
            a = T.ATOMS[x.c[0][0]]
            if a.op == 'uf' and a.name == n:
                return a.args[0]
    j = of(y, 'Y')
    return j if j is not None and of(m, 'M') == j else None


def era(ctx, Y, j):
    """the year is 1 or later exactly from day 1721426 on (lemma: day numbers increase with the date)"""
    a = ctx.quick(ge(j, 1721426))
    if a is None:
        return [iff(ge(j, 1721426), ge(Y, 1))]
    return [ge(Y, 1) if a else le(Y, 0)]


def increasing():
    """goals (hypotheses, conclusion) that together give: two different real dates have different day numbers"""
    y, z = var('y', -6000000, 6000000), var('z', -6000000, 6000000)
    d, e = var('d', 1, 31), var('e', 1, 31)
    out = []
    for m in range(1, 13):
        out.append(('within a month', [lt(d, e)], lt(jdn(y, m, d), jdn(y, m, e))))
        if m < 12:
            out.append(('next month', [real_day(y, m, d), real_day(y, m + 1, e)], lt(jdn(y, m, d), jdn(y, m + 1, e))))
            out.append(('next month starts after the last day', [real_day(y, m, d)], lt(jdn(y, m, d), jdn(y, m + 1, 1))))
            out.append(('first of month precedes', [], lt(jdn(y, m, 1), jdn(y, m + 1, 1))))
        out.append(('the year ends after', [real_day(y, m, d)], le(jdn(y, m, d), jdn(y, 12, 31))))
        out.append(('the year starts before', [], le(jdn(y, 1, 1), jdn(y, m, d))))
        leaps = [(1, [leap(y)]), (0, [not_(leap(y))])]
        for L, h in leaps:
            out.append(('days since the start of the year', h, eq(jdn(y, m, d), add(add(jdn(y, 1, 1), CUM[m - 1] - 1 + (L if m > 2 else 0)), d))))
    for L, h in leaps:
        out.append(('the next year starts 365 or 366 days later', h, eq(jdn(add(y, 1), 1, 1), add(jdn(y, 1, 1), 365 + L))))
    out.append(('years up to 0 end before 0001-01-01', [le(y, 0)], lt(jdn(y, 12, 31), 1721426)))
    out.append(('years from 1 start on 0001-01-01 or later', [ge(y, 1)], ge(jdn(y, 1, 1), 1721426)))
    out.append(('next year', [], lt(jdn(y, 12, 31), jdn(add(y, 1), 1, 1))))
    out.append(('later years', [le(y, z)], le(jdn(y, 1, 1), jdn(z, 1, 1))))
    return out


class Julian2Date(Contract):
    """for 0 <= j <= 2^31-1 the result is the real calendar date whose Julian day number is j"""
    name = 'pgdatetime::common::julian2date'
    kinds = [('i32', 'i32', 'i32'), 'i32']

    def apply(self, I, st, a, fn):
        j = a[0]
        if not self.sig(I.p, fn, self.kinds):
            return NotImplemented
        if I.ctx.decide(rng(j, 0, MAXJ)) is not True:
            return NotImplemented
        if isinstance(j, Lin) and len(j.c) == 1 and j.c[0][1] == 1 and j.k == 0:
            at = T.ATOMS[j.c[0][0]]
            if at.op == 'uf' and at.name == 'J' and I.ctx.decide(real_day(*at.args)) is True:
                return at.args          # real dates with the same day number are the same (lemma)
        if j in T.DATES and I.ctx.decide(real_day(*T.DATES[j])) is True:
            return T.DATES[j]
        n = st.ghost.get('civil', 0)
        if isinstance(j, Lin) and (I.lazy is True or n >= I.lazy > 0):
            Y, M, D = T.uf('Y', (j,), -6000000, 6000000), lazy_month(j), T.uf('D', (j,), 1, 31)
            for f in year_bounds(Y, M, j) + era(I.ctx, Y, j):
                I.ctx.assume(f)
            return Y, M, D
        r = civil(SymK(I), j)
        st.ghost['civil'] = n + 1
        return r

    def obs(self):
        out = [Ob('contract julian2date, lemma: day numbers of real dates increase with the date', None, lambda S: (([], None)), None, pure=increasing)]
        N = 16
        w = -(-146097 // N)
        for i in range(N):
            lo, hi = i * w, min(146096, (i + 1) * w - 1)

            def build(S, lo=lo, hi=hi):
                c = S.int('c', 0, CMAX)
                r = S.int('r', lo, hi)
                j = add(mul(c, 146097), sub(r, 32044))
                S.require(rng(j, 0, MAXJ))
                return [j], j

            def ensures(K, j, out):
                if out[0] != 'ok':
                    return [('no panic', False)]
                y, m, d = out[1]
                m = K.concrete(m)
                if not 1 <= m <= 12:
                    return [('month in 1..12', False)]
                bs = [('linear bounds on year and month', f) for f in year_bounds(y, m, j) + year_bounds(y, m, j, d)]
                return bs + [('a real day', real_day(y, m, d)), ('Julian day of the result is the argument', eq(jdn(y, m, d), j))]
            out.append(Ob('contract julian2date[%d]' % i, self.fn, build, ensures, timeout=90, qtimeout=30000))
        return out


class Date2Julian(Contract):
    """for -4799 <= y <= 5874898, 1 <= m <= 12, 1 <= d <= 31 and a Julian day number that fits in an i32 the
    result is the Julian day number of (y, m, d)"""
    name = 'pgdatetime::common::date2julian'
    kinds = ['i32', 'i32', 'i32', 'i32']

    def apply(self, I, st, a, fn):
        if not self.sig(I.p, fn, self.kinds):
            return NotImplemented
        y, m, d = a
        j = whole_date(I.ctx, y, m, d, I.lazy_ml)
        if j is not None and I.ctx.decide(rng(j, 0, I32[1])) is True:
            return j
        if I.ctx.decide(and_(rng(y, -4799, 5874898), rng(m, 1, 12), rng(d, 1, 31))) is not True:
            return NotImplemented
        m = I.concrete(m)
        r = jdn(y, m, d)
        if I.ctx.decide(le(r, I32[1])) is not True:
            return NotImplemented
        return day_number(SymK(I), y, m, d)

    def obs(self):
        def build(S):
            a = [S.int('y', -4799, 5874898), S.int('m', 1, 12), S.int('d', 1, 31)]
            return a, a

        def ensures(K, a, out):
            y, m, d = a
            m = K.concrete(m)
            if not K.choose(le(jdn(y, m, d), I32[1])):
                return [('outside the domain', True)]
            return [('result is the Julian day number', ok_is(out, jdn(y, m, d)))]
        return [Ob('contract date2julian', self.fn, build, ensures)]


class DaysOfMonth(Contract):
    """for 1 <= m <= 12 and any year the result is the number of days of month m of year y"""
    name = 'pgdatetime::common::days_of_month'
    kinds = ['i32', 'i32', 'i32']

    def apply(self, I, st, a, fn):
        if not self.sig(I.p, fn, self.kinds):
            return NotImplemented
        y, m = a
        if I.ctx.decide(and_(in_i32(y), rng(m, 1, 12))) is not True:
            return NotImplemented
        j = same_day(T.simp(y, I.ctx), T.simp(m, I.ctx)) if I.lazy_ml else None
        if j is not None:
            # the day of a real date is one of its month
            L = T.uf('ML', (j,), 28, 31)
            I.ctx.assume(le(T.uf('D', (j,), 1, 31), L))
            return L
        m = I.concrete(m)
        if m == 2:
            return 29 if I.choose(leap(y)) else 28
        return MLEN[m - 1]

    def obs(self):
        def build(S):
            a = [S.i32('y'), S.int('m', 1, 12)]
            return a, a

        def ensures(K, a, out):
            y, m = a
            m = K.concrete(m)
            n = MLEN[m - 1]
            if m == 2 and K.choose(leap(y)):
                n = 29
            return [('days of the month', ok_is(out, n))]
        return [Ob('contract days_of_month', self.fn, build, ensures)]


class Public(Contract):
    """contract on a public function whose obligations are obligations of a property (those with gives=name)"""
    def __init__(self, name, spec):
        self.name, self.spec = name, spec

    def apply(self, I, st, a, fn):
        b = []
        for i, x in enumerate(a):
            if isinstance(x, Ref) and x.win is None:
                x = I.getpath(st, x.root, x.path)
            ty = I.p.types[fn.ltys[i + 1]]
            if isinstance(x, En) and ty['k'] == 'adt' and ty['kind'] == 'enum':
                x = ty['variants'][x.var]['name']
            b.append(x)
        return self.spec(SymK(I), I, *b)


def Ok(*fields):
    return En(0, (tuple(fields),))


def Err():
    return En(1, (Opaque('error'),))


ALL = [Date2Julian(), DaysOfMonth(), Julian2Date()]
