"""Terms of the verification conditions: linear integer/real forms over interned atoms, booleans
over them, and a path context (interval facts + an incremental SMT solver).

Machine integers are *not* treated as mathematical ones: every place where a machine operation can
leave its range is an explicit case split or obligation in interp.py; the terms themselves denote
exact mathematical values."""
import math, sys
from fractions import Fraction
import z3

sys.setrecursionlimit(100000)

INF = None  # unbounded


class Atom:
    __slots__ = ('id', 'op', 'args', 'lo', 'hi', 'isint', 'z', 'facts', 'name', 'on_fixed')

    def __init__(self, id, op, args, lo, hi, isint, name):
        self.id, self.op, self.args, self.lo, self.hi, self.isint = id, op, args, lo, hi, isint
        self.name = name
        self.z = None
        self.facts = None
        self.on_fixed = None

    def __repr__(self):
        if self.op == 'var':
            return self.name
        if self.op == 'fdiv':
            return '(%s // %d)' % (self.args[0], self.args[1])
        if self.op == 'mul':
            return '(%s * %s)' % self.args
        if self.op == 'ite':
            return 'ite(%s, %s, %s)' % self.args
        return '%s(%s)' % (self.name, ', '.join(map(str, self.args)))


ATOMS = []
_intern = {}


DATES = {}      # day number -> the (year, month, day) it was formed from


def reset():
    DATES.clear()
    del ATOMS[:]
    _intern.clear()
    _lins.clear()


def _atom(op, args, lo, hi, isint=True, name=None):
    key = (op, name) + tuple(args)
    a = _intern.get(key)
    if a is None:
        a = Atom(len(ATOMS), op, args, lo, hi, isint, name or op)
        ATOMS.append(a)
        _intern[key] = a
    return a


class Lin:
    """sum of coef*atom + k.  c is a tuple of (atom id, coef), sorted by id, non-empty."""
    __slots__ = ('c', 'k', '_h', '_int', '__weakref__')

    def __init__(self, c, k):
        self.c = c
        self.k = k
        self._h = hash((c, k))
        self._int = None

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Lin) and self.c == o.c and self.k == o.k)

    def __ne__(self, o):
        return not self == o

    def __add__(self, o):
        return add(self, o)

    __radd__ = __add__

    def __sub__(self, o):
        return add(self, neg(o))

    def __rsub__(self, o):
        return add(o, neg(self))

    def __neg__(self):
        return neg(self)

    def __mul__(self, o):
        return mul(self, o)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        return fdiv(self, o)

    def __mod__(self, o):
        return fmod(self, o)

    def __truediv__(self, o):
        return mul(self, Fraction(1) / Fraction(o))

    def __le__(self, o):
        return le(self, o)

    def __lt__(self, o):
        return lt(self, o)

    def __ge__(self, o):
        return le(o, self)

    def __gt__(self, o):
        return lt(o, self)

    def __bool__(self):
        raise TypeError('symbolic value used as a Python bool')

    @property
    def isint(self):
        if self._int is None:
            self._int = all(ATOMS[a].isint and (isinstance(q, int)) for a, q in self.c) and isinstance(self.k, int)
        return self._int

    def __repr__(self):
        s = []
        for a, q in self.c:
            s.append(('%s*' % q if q != 1 else '') + repr(ATOMS[a]))
        if self.k != 0:
            s.append(str(self.k))
        return '(' + ' + '.join(s) + ')' if len(s) > 1 else s[0]


_lins = {}


def _norm(q):
    if isinstance(q, Fraction) and q.denominator == 1:
        return q.numerator
    return q


def mk(d, k):
    k = _norm(k)
    items = tuple(sorted((a, _norm(q)) for a, q in d.items() if q != 0))
    if not items:
        return k
    key = (items, k)
    l = _lins.get(key)
    if l is None:
        l = Lin(items, k)
        _lins[key] = l
    return l


def of_atom(a):
    return mk({a.id: 1}, 0)


def is_sym(x):
    return isinstance(x, (Lin, B))


def add(a, b):
    if not isinstance(a, Lin):
        if not isinstance(b, Lin):
            return _norm(a + b)
        a, b = b, a
    if not isinstance(b, Lin):
        if b == 0:
            return a
        return mk(dict(a.c), a.k + b)
    d = dict(a.c)
    for x, q in b.c:
        d[x] = d.get(x, 0) + q
    return mk(d, a.k + b.k)


def neg(a):
    if not isinstance(a, Lin):
        return -a
    return mk({x: -q for x, q in a.c}, -a.k)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if isinstance(a, Lin) and isinstance(b, Lin):
        if (b.c, b.k) < (a.c, a.k):
            a, b = b, a
        lo, hi = None, None
        la, ha = bounds(a)
        lb, hb = bounds(b)
        if None not in (la, ha, lb, hb):
            p = [la * lb, la * hb, ha * lb, ha * hb]
            lo, hi = min(p), max(p)
        return of_atom(_atom('mul', (a, b), lo, hi, a.isint and b.isint))
    if not isinstance(a, Lin):
        if not isinstance(b, Lin):
            return _norm(a * b)
        a, b = b, a
    if b == 0:
        return 0
    if b == 1:
        return a
    return mk({x: q * b for x, q in a.c}, a.k * b)


def recip(x):
    """1 / x for a number known not to be zero"""
    if not isinstance(x, Lin):
        return _norm(1 / Fraction(x))
    l, h = bounds(x)
    if l is None or h is None or l <= 0 <= h:
        raise ValueError('reciprocal')
    return of_atom(_atom('recip', (x,), 1 / Fraction(h), 1 / Fraction(l), False))


def var(name, lo=None, hi=None, isint=True):
    key = ('var', name)
    a = _atom('var', (), lo, hi, isint, name)
    a.lo, a.hi = lo, hi
    if lo is not None and lo == hi:
        return lo
    return of_atom(a)


_fresh = [0]


def fresh(prefix, lo=None, hi=None, isint=True):
    _fresh[0] += 1
    return var('%s!%d' % (prefix, _fresh[0]), lo, hi, isint)


def uf(name, args, lo=None, hi=None, facts=None, on_fixed=None):
    a = _atom('uf', tuple(args), lo, hi, True, name)
    if on_fixed is not None:
        a.on_fixed = on_fixed
    if facts is not None and a.facts is None:
        a.facts = facts
    return of_atom(a)


# ---------------------------------------------------------------- intervals

def _atom_bounds(aid, ctx):
    a = ATOMS[aid]
    lo, hi = a.lo, a.hi
    if ctx is not None:
        r = ctx.shape.get(((aid, 1),))
        if r is not None:
            if r[0] is not None and (lo is None or r[0] > lo):
                lo = r[0]
            if r[1] is not None and (hi is None or r[1] < hi):
                hi = r[1]
        if a.op == 'fdiv':
            l2, h2 = bounds(a.args[0], ctx)
            c = a.args[1]
            if l2 is not None:
                l2 = math.floor(Fraction(l2) / c)
                if lo is None or l2 > lo:
                    lo = l2
            if h2 is not None:
                h2 = math.floor(Fraction(h2) / c)
                if hi is None or h2 < hi:
                    hi = h2
    return lo, hi


def _acc(lo, hi, q, l, h):
    if q < 0:
        l, h = h, l
    if lo is not None:
        lo = None if l is None else lo + q * l
    if hi is not None:
        hi = None if h is None else hi + q * h
    return lo, hi


def bounds(x, ctx=None):
    if not isinstance(x, Lin):
        return x, x
    if ctx is not None:
        key = (x.c, x.k)
        r = ctx.bcache.get(key)
        if r is not None:
            return r
    d = dict(x.c)
    extra_lo, extra_hi = x.k, x.k
    # pull out e*(X mod r) patterns:  e*E - e*r*D with D = X//(E.c*r), E = X//E.c (or E = X itself)
    if len(d) > 1:
        divs = sorted((a for a in d if ATOMS[a].op == 'fdiv'), key=lambda a: -ATOMS[a].args[1])
        for Dn in divs:
            if Dn not in d:
                continue
            q = d[Dn]
            X, c = ATOMS[Dn].args
            done = False
            for En in divs:
                if En == Dn or En not in d:
                    continue
                X2, c2 = ATOMS[En].args
                if c % c2 == 0 and c2 < c and (X2 == X or X2.c == X.c and (X.k - X2.k) % c2 == 0):
                    r = c // c2
                    k = (X.k - X2.k) // c2
                    e = d[En]
                    if e * q < 0 and (q == -r * e or abs(q) < abs(r * e)):
                        rest = e + Fraction(q) / r
                        e = e - rest if rest else e
                        del d[Dn]
                        if rest:
                            d[En] = _norm(rest)
                        else:
                            del d[En]
                        l, h = (0, r - 1)
                        extra_lo -= e * k
                        extra_hi -= e * k
                        if e > 0:
                            extra_lo += 0
                            extra_hi += e * h
                        else:
                            extra_lo += e * h
                        done = True
                        break
            if done:
                continue
            # E = X itself
            e = Fraction(-q, c)
            e = _norm(e)
            if isinstance(X, Lin) and all(a in d and d[a] == e * qq for a, qq in X.c):
                for a, qq in X.c:
                    del d[a]
                del d[Dn]
                # value: e*(X - c*D) - e*X.k ; X mod c in [0,c-1]
                off = -e * X.k
                if e > 0:
                    extra_lo += off
                    extra_hi += off + e * (c - 1)
                else:
                    extra_lo += off + e * (c - 1)
                    extra_hi += off
    lo, hi = extra_lo, extra_hi
    for a, q in d.items():
        l, h = _atom_bounds(a, ctx)
        lo, hi = _acc(lo, hi, q, l, h)
        if lo is None and hi is None:
            break
    if ctx is not None:
        # facts about this linear shape
        sh, g, sg = _shape(x.c)
        r = ctx.shape.get(sh)
        if r is not None:
            l, h = r
            m = g * sg
            if m < 0:
                l, h = h, l
            if l is not None:
                l = l * m + x.k
                if lo is None or l > lo:
                    lo = l
            if h is not None:
                h = h * m + x.k
                if hi is None or h < hi:
                    hi = h
        ctx.bcache[(x.c, x.k)] = (lo, hi)
    return lo, hi


def _shape(c):
    """normalised coefficient tuple (gcd 1, first coefficient positive), gcd, sign"""
    if len(c) == 1:
        q = c[0][1]
        return ((c[0][0], 1),), abs(q), (1 if q > 0 else -1)
    g = None
    for _, q in c:
        f = Fraction(q)
        g = abs(f) if g is None else Fraction(math.gcd(g.numerator * f.denominator, abs(f.numerator) * g.denominator), g.denominator * f.denominator)
    sg = 1 if c[0][1] > 0 else -1
    sh = tuple((a, _norm(Fraction(q) / (g * sg))) for a, q in c)
    return sh, _norm(g), sg


def simp(x, ctx):
    """replace the atoms of x whose value the path fixes"""
    if not isinstance(x, Lin):
        return x
    d, k = {}, x.k
    for a, q in x.c:
        l, h = _atom_bounds(a, ctx)
        if l is not None and l == h:
            k += q * l
        else:
            d[a] = q
    return mk(d, k)


LIGHT = [False]     # leave out the heavy definitions (fewer facts: sound, less complete)
CHAIN = [False]     # day numbers relative to the start of their year (see spec.year_start)

# ---------------------------------------------------------------- division

def fdiv(x, c, ctx=None):
    """floor(x / c), c a positive integer constant"""
    assert isinstance(c, int) and c > 0, c
    if not isinstance(x, Lin):
        return math.floor(Fraction(x) / c) if isinstance(x, Fraction) else x // c
    if c == 1:
        return x
    assert x.isint, x
    out, rest = {}, {}
    for a, q in x.c:
        if q % c == 0:
            out[a] = q // c
        else:
            t = int(abs(q) // c) * (1 if q > 0 else -1)
            if t:
                out[a] = t
            rest[a] = q - t * c
    kq, kr = x.k // c, x.k % c
    R = mk(rest, kr)
    O = mk(out, kq)
    if not isinstance(R, Lin):
        return add(O, R // c)
    g = c
    for _, q in R.c:
        g = math.gcd(g, q)
    if g > 1:
        R = mk({a: q // g for a, q in R.c}, R.k // g)
        c //= g
        if c == 1:
            return add(O, R)
    lo, hi = bounds(R, ctx)
    if lo is not None and hi is not None and lo // c == hi // c:
        return add(O, lo // c)
    if len(R.c) == 1 and R.c[0][1] == 1:
        a = ATOMS[R.c[0][0]]
        if a.op == 'fdiv':
            X, c2 = a.args
            return add(O, fdiv(add(X, c2 * R.k), c2 * c, ctx))
    if R.c[0][1] < 0:               # canonical sign: floor(-x/c) = -floor((x+c-1)/c)
        return sub(O, fdiv(add(neg(R), c - 1), c, ctx))
    lo, hi = bounds(R)
    at = _atom('fdiv', (R, c), None if lo is None else lo // c, None if hi is None else hi // c)
    return add(O, of_atom(at))


def fmod(x, c, ctx=None):
    if not isinstance(x, Lin):
        return x % c
    return sub(x, mul(fdiv(x, c, ctx), c))


# ---------------------------------------------------------------- booleans

class B:
    __slots__ = ('op', 'args', '_h')

    def __init__(self, op, args):
        self.op, self.args = op, args
        self._h = hash((op, args))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, B) and self.op == o.op and self.args == o.args)

    def __bool__(self):
        raise TypeError('symbolic boolean used as a Python bool')

    def __repr__(self):
        if self.op == 'le0':
            return '%s <= 0' % (self.args[0],)
        if self.op == 'lt0':
            return '%s < 0' % (self.args[0],)
        if self.op == 'eq0':
            return '%s = 0' % (self.args[0],)
        if self.op == 'bvar':
            return self.args[0]
        return '%s(%s)' % (self.op, ', '.join(map(repr, self.args)))


def _gcd_int(l):
    g = 0
    for _, q in l.c:
        g = math.gcd(g, q)
    return g


def le(a, b):
    d = sub(a, b)
    if not isinstance(d, Lin):
        return d <= 0
    if d.isint:
        g = _gcd_int(d)
        if g > 1:
            d = mk({x: q // g for x, q in d.c}, -((-d.k) // g))
    lo, hi = bounds(d)
    if hi is not None and hi <= 0:
        return True
    if lo is not None and lo > 0:
        return False
    return B('le0', (d,))


def lt(a, b):
    d = sub(a, b)
    if not isinstance(d, Lin):
        return d < 0
    if d.isint:
        return le(add(d, 1), 0)
    lo, hi = bounds(d)
    if hi is not None and hi < 0:
        return True
    if lo is not None and lo >= 0:
        return False
    return B('lt0', (d,))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    if isinstance(a, (bool, B)) or isinstance(b, (bool, B)):
        return iff(a, b)
    d = sub(a, b)
    if not isinstance(d, Lin):
        return d == 0
    if d.isint:
        g = _gcd_int(d)
        if d.k % g != 0:
            return False
        if g > 1:
            d = mk({x: q // g for x, q in d.c}, d.k // g)
    lo, hi = bounds(d)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return False
    if d.c[0][1] < 0:
        d = neg(d)
    return B('eq0', (d,))


def ne(a, b):
    return not_(eq(a, b))


def not_(b):
    if isinstance(b, bool):
        return not b
    if b.op == 'not':
        return b.args[0]
    if b.op == 'le0':
        d = b.args[0]
        if d.isint:
            return le(add(neg(d), 1), 0)
        return lt(neg(d), 0)
    if b.op == 'lt0':
        return le(neg(b.args[0]), 0)
    if b.op == 'and':
        return or_(*[not_(x) for x in b.args])
    if b.op == 'or':
        return and_(*[not_(x) for x in b.args])
    return B('not', (b,))


def and_(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        if x.op == 'and':
            out.extend(y for y in x.args if y not in out)
        elif x not in out:
            out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return B('and', tuple(out))


def or_(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        if x.op == 'or':
            out.extend(y for y in x.args if y not in out)
        elif x not in out:
            out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return B('or', tuple(out))


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    if isinstance(a, bool):
        return b if a else not_(b)
    if isinstance(b, bool):
        return a if b else not_(a)
    if a == b:
        return True
    return B('iff', (a, b))


def xor(a, b):
    return not_(iff(a, b))


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, (bool, B)) or isinstance(b, (bool, B)):
        return and_(implies(c, a), implies(not_(c), b))
    if a == b:
        return a
    la, ha = bounds(a)
    lb, hb = bounds(b)
    lo = None if la is None or lb is None else min(la, lb)
    hi = None if ha is None or hb is None else max(ha, hb)
    isint = all(isinstance(x, int) or (isinstance(x, Lin) and x.isint) for x in (a, b))
    return of_atom(_atom('ite', (c, a, b), lo, hi, isint))


def bvar(name):
    return B('bvar', (name,))


# ---------------------------------------------------------------- SMT

class SolverUnknown(Exception):
    pass


STATS = {'queries': 0, 'solver_s': 0.0, 'unknown': 0, 'fast': 0}


class Ctx:
    """A path context: facts in the form of intervals on linear shapes + incremental z3 solver."""

    def __init__(self, timeout_ms=3000):
        self.shape = {}
        self.bcache = {}
        self.facts = []           # all assumptions, in order
        self.trail = []           # undo information
        self.timeout = timeout_ms
        self.solver = z3.SolverFor('QF_LIRA') if False else z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.defined = [set()]
        self.false = False
        self.conv = {}
        self.pending = []

    # -- scopes
    def push(self):
        self.trail.append((dict(self.shape), self.bcache, len(self.facts), self.false))
        self.bcache = dict(self.bcache)
        self.solver.push()
        self.defined.append(set())

    def pop(self):
        self.shape, self.bcache, n, self.false = self.trail.pop()
        del self.facts[n:]
        self.solver.pop()
        self.defined.pop()

    # -- z3 conversion
    def zatom(self, aid):
        a = ATOMS[aid]
        if a.z is None:
            a.z = z3.Int('a%d' % aid) if a.isint else z3.Real('a%d' % aid)
        if not any(aid in s for s in self.defined):
            self.defined[-1].add(aid)
            if a.lo is not None:
                self.solver.add(a.z >= zq(a.lo))
            if a.hi is not None:
                self.solver.add(a.z <= zq(a.hi))
            if a.op == 'fdiv':
                x, c = a.args
                zx = self.zlin(x)
                self.solver.add(a.z * c <= zx, zx <= a.z * c + (c - 1))
            elif a.op == 'mul' and a.isint:
                # products of reals stay uninterpreted: what is known of them is linear
                self.solver.add(a.z == self.zlin(a.args[0]) * self.zlin(a.args[1]))
            elif a.op == 'ite':
                self.solver.add(a.z == z3.If(self.zbool(a.args[0]), self.zlin(a.args[1]), self.zlin(a.args[2])))
            if a.facts is not None:
                for f in a.facts():
                    if f is not True:
                        self.solver.add(self.zbool(f))
        return a.z

    def zlin(self, x):
        if not isinstance(x, Lin):
            return zq(x)
        terms = []
        for a, q in x.c:
            z = self.zatom(a)
            terms.append(z if q == 1 else zq(q) * z)
        if x.k != 0:
            terms.append(zq(x.k))
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def zbool(self, b):
        if isinstance(b, bool):
            return z3.BoolVal(b)
        o = b.op
        if o == 'le0':
            # move negatives to the other side for readability; z3 does not care
            return self.zlin(b.args[0]) <= 0
        if o == 'lt0':
            return self.zlin(b.args[0]) < 0
        if o == 'eq0':
            return self.zlin(b.args[0]) == 0
        if o == 'not':
            return z3.Not(self.zbool(b.args[0]))
        if o == 'and':
            return z3.And([self.zbool(x) for x in b.args])
        if o == 'or':
            return z3.Or([self.zbool(x) for x in b.args])
        if o == 'iff':
            return self.zbool(b.args[0]) == self.zbool(b.args[1])
        if o == 'bvar':
            return z3.Bool(b.args[0])
        raise ValueError(o)

    # -- facts
    def note(self, b):
        """record interval information"""
        if isinstance(b, bool):
            if not b:
                self.false = True
            return
        if b.op == 'and':
            for x in b.args:
                self.note(x)
            return
        if b.op in ('le0', 'lt0', 'eq0'):
            x = b.args[0]
            sh, g, sg = _shape(x.c)
            m = g * sg
            # m*S + k (<=|=) 0
            v = Fraction(-x.k) / m
            isint = all(ATOMS[a].isint and isinstance(q, int) for a, q in sh)
            lo, hi = self.shape.get(sh, (None, None))
            if b.op == 'eq0':
                nlo = nhi = _norm(v)
                if isint and v.denominator != 1:
                    self.false = True
                    return
            elif m > 0:
                nlo, nhi = None, (math.floor(v) if isint else v)
            else:
                nlo, nhi = (math.ceil(v) if isint else v), None
            if nlo is not None and (lo is None or nlo > lo):
                lo = nlo
            if nhi is not None and (hi is None or nhi < hi):
                hi = nhi
            if (lo, hi) != self.shape.get(sh):
                self.shape[sh] = (lo, hi)
                self.bcache = {}
                if lo == hi and len(sh) == 1 and ATOMS[sh[0][0]].on_fixed is not None:
                    self.pending.append((sh[0][0], lo))

    def assume(self, b):
        if b is True:
            return
        self.facts.append(b)
        self.note(b)
        if not self.false:
            self.solver.add(self.zbool(b))
        while self.pending:
            a, v = self.pending.pop()
            ATOMS[a].on_fixed(self, v)

    def quick(self, b):
        """decide b by intervals only"""
        if isinstance(b, bool):
            return b
        if self.false:
            return None
        o = b.op
        if o in ('le0', 'lt0', 'eq0'):
            lo, hi = bounds(b.args[0], self)
            if o == 'le0':
                if hi is not None and hi <= 0:
                    return True
                if lo is not None and lo > 0:
                    return False
            elif o == 'lt0':
                if hi is not None and hi < 0:
                    return True
                if lo is not None and lo >= 0:
                    return False
            else:
                if lo is not None and lo == hi == 0:
                    return True
                if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                    return False
            return None
        if o == 'not':
            r = self.quick(b.args[0])
            return None if r is None else not r
        if o == 'and':
            rs = [self.quick(x) for x in b.args]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
            return None
        if o == 'or':
            rs = [self.quick(x) for x in b.args]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        if o == 'iff':
            x, y = self.quick(b.args[0]), self.quick(b.args[1])
            return None if x is None or y is None else x == y
        return None

    def sat(self, b=True, timeout=None):
        """is facts && b satisfiable?  returns True/False/None(unknown)"""
        import time
        if b is False or self.false:
            return False
        t = time.time()
        self.solver.push()
        self.defined.append(set())
        try:
            if b is not True:
                self.solver.add(self.zbool(b))
            full = timeout or self.timeout
            self.solver.set('timeout', min(full, 250))
            r = self.solver.check()
            if r == z3.unknown and full > 250:
                if self.lra_unsat(b):
                    r = z3.unsat
                    STATS['lra'] = STATS.get('lra', 0) + 1
                else:
                    self.solver.set('timeout', full)
                    r = self.solver.check()
            self.solver.set('timeout', self.timeout)
            STATS['queries'] += 1
            if r == z3.sat:
                self.model = self.solver.model()
                return True
            if r == z3.unsat:
                return False
            STATS['unknown'] += 1
            return None
        finally:
            self.solver.pop()
            self.defined.pop()
            STATS['solver_s'] += time.time() - t

    def lra_unsat(self, b):
        """are the facts and b inconsistent already over the reals (divisions as bounds)?"""
        c = Ctx.__new__(Ctx)
        c.conv = {}
        s = z3.SolverFor('QF_LRA')
        s.set('timeout', 1500)
        done = {}

        def atom(aid):
            z = done.get(aid)
            if z is not None:
                return z
            a = ATOMS[aid]
            z = done[aid] = z3.Real('r%d' % aid)
            if a.lo is not None:
                s.add(z >= zq(a.lo))
            if a.hi is not None:
                s.add(z <= zq(a.hi))
            if a.op == 'fdiv':
                x = c.zlin(a.args[0])
                s.add(z * a.args[1] <= x, x <= z * a.args[1] + (a.args[1] - 1))
            if a.facts is not None:
                for f in a.facts():
                    if f is not True:
                        s.add(c.zbool(f))
            return z
        c.zatom = atom
        for f in self.facts:
            s.add(c.zbool(f))
        if b is not True:
            s.add(c.zbool(b))
        return s.check() == z3.unsat

    def decide(self, b):
        """True / False if b is decided by the path facts, else None"""
        r = self.quick(b)
        if r is not None:
            STATS['fast'] += 1
            return r
        s = self.sat(b)
        if s is False:
            self.learn(not_(b))
            return False
        s = self.sat(not_(b))
        if s is False:
            self.learn(b)
            return True
        return None

    def learn(self, b):
        """interval information from a fact the others imply"""
        if CHAIN[0]:
            return          # a month or day that becomes fixed would hide the year-start link
        self.note(b)
        while self.pending:
            a, v = self.pending.pop()
            ATOMS[a].on_fixed(self, v)

    def smt2(self, goal):
        self.solver.push()
        self.defined.append(set())
        try:
            self.solver.add(self.zbool(not_(goal)))
            return self.solver.to_smt2()
        finally:
            self.solver.pop()
            self.defined.pop()


def zq(q):
    if isinstance(q, Fraction):
        if q.denominator == 1:
            return z3.IntVal(q.numerator)
        return z3.Q(q.numerator, q.denominator)
    return z3.IntVal(q)
