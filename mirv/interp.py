"""Symbolic execution of rustc MIR (as dumped by mirdump), all paths, all machine-level checks.

Every branch whose condition is not decided by the path facts is explored on both sides; a path is
dropped only when the solver proves it infeasible.  Loops are executed until the solver proves that
no further iteration is possible; a loop that cannot be exhausted raises Undecided (never success).
"""
import json, re, struct, time
from fractions import Fraction
from .terms import *
from . import terms as T


class Undecided(Exception):
    """the tool cannot decide (unsupported construct, limits)"""


class Fork(Exception):
    def __init__(self, conds, why=''):
        self.conds = conds
        self.why = why


class PanicEx(Exception):
    def __init__(self, msg):
        self.msg = msg


class Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


class En:
    """enum value with a concrete variant"""
    __slots__ = ('var', 'f', 'ty')

    def __init__(self, var, f=(), ty=None):
        self.var, self.f, self.ty = var, f, ty

    def __repr__(self):
        return 'En(%d,%r)' % (self.var, self.f)

    def __eq__(self, o):
        return isinstance(o, En) and self.var == o.var and self.f == o.f

    def __hash__(self):
        return hash((self.var, self.f))


class Ref:
    __slots__ = ('root', 'path', 'win')

    def __init__(self, root, path=(), win=None):
        self.root, self.path, self.win = root, path, win

    def __repr__(self):
        return 'Ref(%r,%r,%r)' % (self.root, self.path, self.win)

    def __eq__(self, o):
        return isinstance(o, Ref) and (self.root, self.path, self.win) == (o.root, o.path, o.win)

    def __hash__(self):
        return hash((self.root, self.path, self.win))


class FnPtr:
    __slots__ = ('key',)

    def __init__(self, key):
        self.key = key

    def __repr__(self):
        return 'Fn(%s)' % self.key

    def __eq__(self, o):
        return isinstance(o, FnPtr) and o.key == self.key

    def __hash__(self):
        return hash(self.key)


class Opaque:
    """a value whose content is irrelevant (error messages, formatting arguments)"""
    __slots__ = ('what',)

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return 'Opaque(%s)' % self.what


class SIter:
    """std::slice::Iter / IterMut over a window of an array"""
    __slots__ = ('root', 'path', 'lo', 'hi')

    def __init__(self, root, path, lo, hi):
        self.root, self.path, self.lo, self.hi = root, path, lo, hi

    def fields(self):
        """{ ptr, end_or_len, marker }"""
        return (Ref(self.root, self.path + (self.lo,)), Ref(self.root, self.path + (self.hi,)), ())

    @staticmethod
    def of(v):
        if isinstance(v, SIter):
            return v
        if isinstance(v, tuple) and len(v) >= 2 and isinstance(v[0], Ref) and isinstance(v[1], Ref):
            p, q = v[0], v[1]
            if p.root == q.root and p.win is None and q.win is None and p.path and q.path and p.path[:-1] == q.path[:-1] \
                    and isinstance(p.path[-1], int) and isinstance(q.path[-1], int):
                return SIter(p.root, p.path[:-1], p.path[-1], q.path[-1])
        raise Undecided('slice iterator %r' % (v,))


class VecV:
    """Vec<T> / String: contents live in a heap root"""
    # depth: how many wrapper layers (String, Vec, RawVec, RawVecInner) a projection has gone through
    __slots__ = ('root', 'len', 'cap', 'depth')

    def __init__(self, root, len, cap, depth=0):
        self.root, self.len, self.cap, self.depth = root, len, cap, depth

    def field(self, i):
        if i == 0:
            return VecV(self.root, self.len, self.cap, self.depth + 1)
        if i == 1:
            return self.len if self.depth < 2 else self.cap
        return ()


HUGE = Fraction(2) ** 72


class Flt:
    """a finite f64 whose exact value v satisfies |v - lin| <= err.  lin may have rational
    coefficients.  err == 0 and integer-valued lin means: exactly that integer.  one: v is lin itself,
    correctly rounded once.  uid: floats of the same uid are the same value, as they are results of the
    same operation on the same operands."""
    __slots__ = ('lin', 'err', 'one', 'uid', 'halves')

    def __init__(self, lin, err=Fraction(0), one=False, uid=None, halves=False):
        self.lin, self.err, self.one = lin, err, one
        self.halves = halves or one     # where lin is a multiple of 1/2, v is lin itself
        self.uid = ('exact', lin) if err == 0 else ('rounded', lin) if one else uid

    def lattice(self):
        """(X, D): lin = X / D with X integer valued, or (None, None)"""
        if not isinstance(self.lin, Lin):
            q = Fraction(self.lin)
            return q.numerator, q.denominator
        if not all(T.ATOMS[a].isint for a, _ in self.lin.c):
            return None, None
        import math
        D = 1
        for q in [self.lin.k] + [q for _, q in self.lin.c]:
            D = D * Fraction(q).denominator // math.gcd(D, Fraction(q).denominator)
        return mul(self.lin, D), D

    def __repr__(self):
        return 'Flt(%r ± %s)' % (self.lin, float(self.err))


class Call:
    __slots__ = ('key', 'args', 'k')

    def __init__(self, key, args, k):
        self.key, self.args, self.k = key, args, k


class Frame:
    __slots__ = ('fn', 'locals', 'bb', 'si', 'dest', 'ret', 'cont')

    def __init__(self, fn, locals, dest, ret, cont=None):
        self.fn, self.locals, self.bb, self.si, self.dest, self.ret, self.cont = fn, locals, 0, 0, dest, ret, cont

    def copy(self):
        f = Frame(self.fn, list(self.locals), self.dest, self.ret, self.cont)
        f.bb, f.si = self.bb, self.si
        return f


class State:
    __slots__ = ('frames', 'heap', 'steps', 'ghost')

    def __init__(self):
        self.frames = []
        self.heap = {}
        self.steps = 0
        self.ghost = {}

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.heap = dict(self.heap)
        s.steps = self.steps
        s.ghost = dict(self.ghost)
        return s


class Fn:
    pass


INTR = re.compile(r'core::num::<impl (\w+)>::(\w+)$')


class Program:
    def __init__(self, path):
        self.d = json.load(open(path))
        self.types = {int(k): v for k, v in self.d['types'].items()}
        self.mem = self.d['mem']
        self.files = self.d['files']
        self.fns = {}
        self.byname = {}
        for k, v in self.d['fns'].items():
            f = Fn()
            f.key = k
            f.name = v['name']
            f.kind = v['kind']
            f.intr = v['intr']
            f.targs = v['targs']
            f.has_body = 'blocks' in v
            if f.has_body:
                f.nargs = v['args']
                f.spread = v['spread']
                f.ltys = v['locals']
                f.file = self.files[v['file']]
                f.line = v['line']
                f.blocks = v['blocks']
                f.names = v['names']
            f.native = None
            f.closure = f.kind == 'Item' and re.search(r'\{closure#\d+\}$', f.name) is not None
            self.fns[k] = f
            self.byname.setdefault(f.name, []).append(f)
        self.entries = {k: self.fns[v] for k, v in self.d['entries'].items()}
        self.statics = self.d['statics']
        self._cmem = {}
        self.crange = {}
        for t, v in self.types.items():
            if v['k'] == 'int':
                b = v['bits']
                self.crange[t] = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if v['signed'] else (0, (1 << b) - 1)
            elif v['k'] == 'char':
                self.crange[t] = (0, 0x10ffff)

    def find(self, suffix):
        """functions whose path ends with suffix"""
        return [f for n, fs in self.byname.items() if n == suffix or n.endswith('::' + suffix) for f in fs]

    def reachable(self, fns):
        """names of the functions mentioned (transitively) in the bodies of fns"""
        seen, todo = {}, list(fns)

        def scan(x):
            if isinstance(x, str):
                if x in self.fns and x not in seen:
                    todo.append(self.fns[x])
            elif isinstance(x, dict):
                ty = self.types.get(x.get('ty')) if isinstance(x.get('ty'), int) else None
                if ty is not None:
                    scan(ty.get('fn'))
                    scan(ty.get('calls'))
                for y in x.values():
                    scan(y)
            elif isinstance(x, list):
                for y in x:
                    scan(y)
        while todo:
            f = todo.pop()
            if f.key in seen:
                continue
            seen[f.key] = f.name
            if f.has_body:
                scan(f.blocks)
        return set(seen.values())

    def typename(self, t):
        v = self.types[t]
        return v.get('name') or v['k']

    def const(self, j):
        if isinstance(j, (bool, int)):
            return j
        if j is None:
            return UNDEF
        if 'fbits' in j:
            b = int(j['fbits'])
            if j['n'] == 64:
                return struct.unpack('<d', struct.pack('<Q', b))[0]
            if j['n'] == 32:
                return struct.unpack('<f', struct.pack('<I', b))[0]
            raise Undecided('float const')
        if 'var' in j:
            return En(j['var'], tuple(self.const(x) for x in j['agg']), j['t'])
        if 'agg' in j:
            return tuple(self.const(x) for x in j['agg'])
        if 'arr' in j:
            return tuple(self.const(x) for x in j['arr'])
        if 'ref' in j:
            if j['fat']:
                return Ref(('k', j['ref']), (), (0, j['len']))
            return Ref(('k', j['ref']), ())
        if 'fnptr' in j:
            return FnPtr(j['fnptr'])
        if 'dangling' in j:
            n = j['len']
            if n == 0:
                return Ref(('k', 'empty'), (), (0, 0))
            return Ref(('k', 'zst'), ())
        if 'static' in j:
            if j['len'] is not None:
                return Ref(('s', j['static']), (), (0, j['len']))
            return Ref(('s', j['static']), ())
        if 'undef' in j:
            return UNDEF
        raise Undecided('constant %s' % j)

    def memval(self, key):
        v = self._cmem.get(key)
        if v is None:
            if key == 'empty':
                v = ()
            elif key == 'zst':
                v = ()
            else:
                v = self.const(self.mem[key]['v'])
            self._cmem[key] = v
        return v


TWO53 = 1 << 53
EPS = Fraction(1, TWO53)


class Interp:
    def __init__(self, prog, ctx=None, contracts=None, natives=None, max_steps=400000):
        self.p = prog
        self.ctx = ctx or Ctx()
        self.contracts = contracts or {}
        self.natives = natives or {}
        self.max_steps = max_steps
        self.leaves = 0
        self.max_leaves = 200000
        self.deadline = None
        self.used = {}        # function name -> 'inlined' | 'contract' | 'native'
        self.hid = 0
        self.trace = None
        self.nocontract = set()
        self.nomerge = set()
        self.fids, self.frnd = {}, {}
        self.approx = False
        self.lazy = self.lazy_ml = False
        self.mirror = False     # -((-a) div b) for negative a, else by whether the division is exact

    # ------------------------------------------------------------ decisions
    def choose(self, b, why=''):
        """True/False if decided on this path, otherwise fork"""
        if isinstance(b, bool):
            return b
        r = self.ctx.decide(b)
        if r is None:
            raise Fork([b, not_(b)], why)
        return r

    def concrete(self, x, lo=None, hi=None, limit=80):
        """concrete value of an integer term, forking over the possible values"""
        if not isinstance(x, Lin):
            return x
        l, h = bounds(x, self.ctx)
        if l is not None and l == h:
            return l
        if lo is not None:
            l = lo if l is None else max(l, lo)
        if hi is not None:
            h = hi if h is None else min(h, hi)
        if l is None or h is None or h - l > limit:
            for a, b in ((0, 7), (0, 13), (0, 32), (-40, 40)):
                if self.ctx.decide(and_(le(a, x), le(x, b))) is True:
                    l, h = a, b
                    break
        if l is None or h is None or h - l > limit:
            raise Undecided('symbolic index/value with too large a range: %r [%s,%s]' % (x, l, h))
        conds = [eq(x, v) for v in range(l, h + 1)]
        raise Fork(conds, 'enumerate')

    # ------------------------------------------------------------ memory
    def rootval(self, st, root):
        a = root[0]
        if a == 'k':
            return self.p.memval(root[1])
        if a == 'h':
            return st.heap[root]
        if a == 's':
            v = st.heap.get(root)
            if v is None:
                v = self.p.const(self.p.statics[root[1]]['v'])
            return v
        return st.frames[a].locals[root[1]]

    def setroot(self, st, root, v):
        a = root[0]
        if a == 'k':
            raise Undecided('write to constant memory')
        if a in ('h', 's'):
            st.heap[root] = v
        else:
            st.frames[a].locals[root[1]] = v

    def index(self, v, i):
        if isinstance(v, En):
            v = v.f
        if v is UNDEF:
            return UNDEF
        if type(v) is SIter:
            v = v.fields()
        if type(v) is VecV:
            return v.field(i)       # a String is its Vec; Vec { buf, len }
        if type(v) is Ref:
            return v if i == 0 else ()       # NonNull, Unique
        if isinstance(i, Lin):
            return self.sym_index(v, i)
        try:
            return v[i]
        except TypeError:
            raise Undecided('projection %r of %r' % (i, v))

    def sym_index(self, v, i):
        l, h = bounds(i, self.ctx)
        l = max(0, l if l is not None else 0)
        h = min(len(v) - 1, h if h is not None else len(v) - 1)
        if l == h:
            return v[l]
        sl = v[l:h + 1]
        if len(sl) <= 64 and all(isinstance(x, (int, Lin)) and not isinstance(x, bool) for x in sl):
            r = sl[-1]
            for k in range(len(sl) - 2, -1, -1):
                r = ite(eq(i, l + k), sl[k], r)
            return r
        self.concrete(i, l, h)
        raise Undecided('sym index')

    def getpath(self, st, root, path):
        v = self.rootval(st, root)
        for i in path:
            v = self.index(v, i)
        return v

    def setpath(self, v, path, n, new):
        if n == len(path):
            return new
        i = path[n]
        if isinstance(i, Lin):
            i = self.concrete(i)
        if isinstance(v, En):
            f = v.f
            return En(v.var, f[:i] + (self.setpath(f[i], path, n + 1, new),) + f[i + 1:], v.ty)
        if v is UNDEF:
            raise Undecided('partial write into undef')
        if type(v) is SIter:
            v = v.fields()
        if type(v) is VecV:
            r = self.setpath(v.field(i), path, n + 1, new)
            if i == 1:
                return VecV(v.root, r, v.cap, v.depth) if v.depth < 2 else VecV(v.root, v.len, r, v.depth)
            if i == 0 and type(r) is VecV:
                return VecV(r.root, r.len, r.cap, v.depth)
            raise Undecided('write into a vector')
        if type(v) is Ref and i == 0:
            return self.setpath(v, path, n + 1, new)
        return v[:i] + (self.setpath(v[i], path, n + 1, new),) + v[i + 1:]

    def store(self, st, ref, val):
        if not ref.path:
            self.setroot(st, ref.root, val)
        else:
            self.setroot(st, ref.root, self.setpath(self.rootval(st, ref.root), ref.path, 0, val))

    def load(self, st, ref):
        if ref.win is not None:
            a = self.getpath(st, ref.root, ref.path)
            s, n = ref.win
            return a[s:s + n]
        return self.getpath(st, ref.root, ref.path)

    def new_heap(self, st, v):
        self.hid += 1
        r = ('h', self.hid)
        st.heap[r] = v
        return r

    # place -> Ref
    def place_ref(self, st, pl):
        fi = len(st.frames) - 1
        fr = st.frames[fi]
        root, path, win = (fi, pl[0]), (), None
        for e in pl[1]:
            k = e[0]
            if k == 'd':
                v = self.getpath(st, root, path)
                if isinstance(v, VecV):
                    raise Undecided('deref vec')
                if not isinstance(v, Ref):
                    raise Undecided('deref of %r in %s' % (v, fr.fn.name))
                root, path, win = v.root, v.path, v.win
            elif k == 'f':
                path = path + (e[1],)
            elif k == 'i':
                i = fr.locals[e[1]]
                if win is not None:
                    path, win = path + (add(win[0], i),), None
                else:
                    path = path + (i,)
            elif k == 'ci':
                off, mn, fe = e[1], e[2], e[3]
                if win is not None:
                    i = win[0] + (win[1] - off if fe else off)
                else:
                    n = len(self.getpath(st, root, path))
                    i = n - off if fe else off
                path, win = path + (i,), None
            elif k == 'ss':
                f, t, fe = e[1], e[2], e[3]
                if win is None:
                    n = len(self.getpath(st, root, path))
                    win = (0, n)
                s, n = win
                win = (s + f, (n - t - f) if fe else (t - f))
            elif k == 'v':
                pass
            else:
                raise Undecided('projection ' + k)
        return Ref(root, path, win)

    def read(self, st, pl):
        fr = st.frames[-1]
        v = fr.locals[pl[0]]
        pr = pl[1]
        if not pr:
            return v
        simple = True
        for e in pr:
            k = e[0]
            if k == 'f':
                v = self.index(v, e[1])
            elif k == 'v':
                if isinstance(v, En) and v.var != e[1]:
                    raise Undecided('downcast to wrong variant in %s' % fr.fn.name)
            else:
                simple = False
                break
        if simple:
            return v
        r = self.place_ref(st, pl)
        return self.load(st, r)

    def write(self, st, pl, val):
        if not pl[1]:
            st.frames[-1].locals[pl[0]] = val
            return
        r = self.place_ref(st, pl)
        # initialise aggregates written field by field
        if r.path:
            base = self.rootval(st, r.root)
            if base is UNDEF and r.root[0] not in ('k', 'h', 's'):
                base = self.undef_of(st.frames[r.root[0]].fn.ltys[r.root[1]])
                self.setroot(st, r.root, base)
        self.store(st, r, val)

    def undef_of(self, t):
        ty = self.p.types[t]
        if ty['k'] == 'tuple':
            return tuple(self.undef_of(e) for e in ty['elems'])
        if ty['k'] == 'array':
            return (UNDEF,) * ty['len']
        if ty['k'] == 'adt' and ty['kind'] == 'struct':
            return tuple(self.undef_of(f[1]) for f in ty['variants'][0]['fields'])
        return UNDEF

    def operand(self, st, o):
        p = o.get('c')
        if p is None:
            p = o.get('m')
        if p is not None:
            return self.read(st, p)
        if 'rc' in o:
            return o['rc'] == 'OverflowChecks'
        cv = o.get('_v')
        if cv is None:
            cv = self.p.const(o['k'])
            o['_v'] = cv
        return cv

    def oty(self, o):
        p = o.get('c') or o.get('m')
        if p is not None:
            return p[2]
        return o.get('ty')

    # ------------------------------------------------------------ arithmetic
    def rng(self, t):
        r = self.p.crange.get(t)
        if r is None:
            raise Undecided('range of type %s' % self.p.types[t])
        return r

    def inrange(self, x, t):
        lo, hi = self.rng(t)
        return and_(le(lo, x), le(x, hi))

    def wrap(self, x, t):
        lo, hi = self.rng(t)
        if not isinstance(x, Lin):
            n = hi - lo + 1
            return (x - lo) % n + lo
        if self.choose(self.inrange(x, t), 'wrap'):
            return x
        n = hi - lo + 1
        r = sub(x, mul(fdiv(sub(x, lo), n, self.ctx), n))
        # common case: off by exactly one modulus
        q = fdiv(sub(x, lo), n, self.ctx)
        l, h = bounds(q, self.ctx)
        if isinstance(q, Lin) and l is not None and h is not None and h - l <= 3:
            qv = self.concrete(q)
            return sub(x, qv * n)
        return r

    def tdiv(self, a, b):
        """Rust's truncating division, b != 0"""
        if isinstance(b, Lin):
            b = self.concrete(b)
        if not isinstance(a, Lin):
            q = abs(a) // abs(b)
            return q if (a >= 0) == (b >= 0) else -q
        if b < 0:
            return neg(self.tdiv(a, -b))
        if self.choose(ge(a, 0), 'div sign'):
            return fdiv(a, b, self.ctx)
        if b <= 10 or self.mirror:      # digits
            return neg(fdiv(neg(a), b, self.ctx))
        q = fdiv(a, b, self.ctx)
        return q if self.choose(eq(sub(a, mul(q, b)), 0), 'exact division') else add(q, 1)

    def shl(self, a, b):
        return mul(a, 1 << self.concrete(b))

    def bitop(self, op, a, b, t):
        if isinstance(a, (bool, B)) or isinstance(b, (bool, B)):
            if op == 'BitAnd':
                return and_(a, b)
            if op == 'BitOr':
                return or_(a, b)
            return xor(a, b)
        if isinstance(a, int) and isinstance(b, int):
            r = a & b if op == 'BitAnd' else a | b if op == 'BitOr' else a ^ b
            return r
        if op == 'BitAnd':
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int) and b >= 0 and (b & (b + 1)) == 0:
                return fmod(a, b + 1, self.ctx)
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            x = self.maskc(a, b)
            return x if op == 'BitAnd' else sub(add(a, b), x) if op == 'BitOr' else sub(add(a, b), mul(x, 2))
        la, ha = bounds(a, self.ctx)
        lb, hb = bounds(b, self.ctx)
        if None not in (la, ha, lb, hb) and min(la, lb) >= 0:
            # disjoint bits: one below 2^k, the other a multiple of 2^k
            for x, h, y in ((a, ha, b), (b, hb, a)):
                k = h.bit_length()
                if self.ctx.quick(eq(fmod(y, 1 << k, self.ctx), 0)) is True:
                    return 0 if op == 'BitAnd' else add(a, b)
        a, b = self.concrete(a), self.concrete(b)
        return self.bitop(op, a, b, t)

    def maskc(self, a, c):
        """a & c for a constant c, in two's complement"""
        if c < 0:
            return sub(a, self.maskc(a, ~c))
        r, i = 0, 0
        while c >> i:
            if not c >> i & 1:
                i += 1
                continue
            j = i
            while c >> j & 1:
                j += 1
            r = add(r, mul(fmod(fdiv(a, 1 << i, self.ctx), 1 << (j - i), self.ctx), 1 << i))
            i = j
        return r

    def cmp(self, op, a, b, t):
        if isinstance(a, Ref) or isinstance(b, Ref) or isinstance(a, FnPtr):
            if op == 'Eq':
                return a == b
            if op == 'Ne':
                return a != b
            raise Undecided('pointer comparison')
        if isinstance(a, (Flt, float)) or isinstance(b, (Flt, float)):
            return self.fcmp(op, a, b)
        if isinstance(a, (bool, B)) and op in ('Eq', 'Ne'):
            r = iff(a, b)
            return r if op == 'Eq' else not_(r)
        if isinstance(a, (bool, B)) or isinstance(b, (bool, B)):
            a = 1 if self.choose(a) else 0
            b = 1 if self.choose(b) else 0
        if a is UNDEF or b is UNDEF:
            raise Undecided('read of uninitialised value')
        if op == 'Eq':
            return eq(a, b)
        if op == 'Ne':
            return ne(a, b)
        if op == 'Lt':
            return lt(a, b)
        if op == 'Le':
            return le(a, b)
        if op == 'Gt':
            return gt(a, b)
        if op == 'Ge':
            return ge(a, b)
        raise Undecided('cmp ' + op)

    # -- floats
    def isF(self, x):
        return isinstance(x, (float, Flt))

    def toflt(self, x):
        if isinstance(x, float):
            if x != x or x in (float('inf'), float('-inf')):
                return None
            return Flt(T._norm(Fraction(x)))
        return x

    def fcmp(self, op, a, b):
        if isinstance(a, float) and isinstance(b, float):
            return {'Eq': a == b, 'Ne': a != b, 'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[op]
        fa, fb = self.toflt(a), self.toflt(b)
        if fa is None or fb is None:
            # one side is nan/inf, the other finite
            x = a if fa is None else b
            if x != x:
                return op == 'Ne'
            big = (x > 0) == (fa is None)   # a > b ?
            return {'Eq': False, 'Ne': True, 'Lt': not big, 'Le': not big, 'Gt': big, 'Ge': big}[op]
        e = fa.err + fb.err
        d = sub(fa.lin, fb.lin)
        if e == 0:
            z = 0
            return {'Eq': lambda: eq(d, z), 'Ne': lambda: ne(d, z), 'Lt': lambda: lt(d, z), 'Le': lambda: le(d, z), 'Gt': lambda: gt(d, z), 'Ge': lambda: ge(d, z)}[op]()
        # inexact: introduce an explicit error term
        self.approx = True
        if fa.one and fb.err == 0 and not isinstance(fb.lin, Lin) and isinstance(fa.lin, Lin) or fb.one and fa.err == 0 and not isinstance(fa.lin, Lin) and isinstance(fb.lin, Lin):
            if not fa.one:
                fa, fb, op = fb, fa, {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(op, op)
            # one rounding, which is monotonic and leaves the floats where they are
            import math
            c = float(Fraction(fb.lin))
            up, down = Fraction(math.nextafter(c, math.inf)), Fraction(math.nextafter(c, -math.inf))
            x, c = fa.lin, fb.lin
            ev = fresh('ferr', -1, 1, False)
            above = or_(le(up, x), and_(lt(c, x), gt(ev, 0)))
            below = or_(le(x, down), and_(lt(x, c), lt(ev, 0)))
            return {'Gt': lambda: above, 'Le': lambda: not_(above), 'Lt': lambda: below, 'Ge': lambda: not_(below), 'Eq': lambda: and_(not_(above), not_(below)), 'Ne': lambda: or_(above, below)}[op]()
        X, D = Flt(d).lattice()
        ev = fresh('ferr', -e, e, False)
        if D is not None and e * D < 1:
            # the exact values are equal or at least 1/D apart: only equal ones may compare either way
            z = eq(X, 0)
            r = {'Eq': lambda: eq(ev, 0), 'Ne': lambda: ne(ev, 0), 'Lt': lambda: lt(ev, 0), 'Le': lambda: le(ev, 0), 'Gt': lambda: gt(ev, 0), 'Ge': lambda: ge(ev, 0)}[op]()
            strict = {'Eq': False, 'Ne': True, 'Lt': lt(X, 0), 'Le': lt(X, 0), 'Gt': gt(X, 0), 'Ge': gt(X, 0)}[op]
            return or_(and_(z, r), and_(not_(z), strict))
        d = add(d, ev)
        return {'Eq': lambda: eq(d, 0), 'Ne': lambda: ne(d, 0), 'Lt': lambda: lt(d, 0), 'Le': lambda: le(d, 0), 'Gt': lambda: gt(d, 0), 'Ge': lambda: ge(d, 0)}[op]()

    def fbounds(self, f):
        l, h = bounds(f.lin, self.ctx)
        if l is None or h is None:
            raise Undecided('unbounded float')
        return l - f.err, h + f.err

    def fuid(self, op, *xs):
        k = (op,) + tuple(x.uid for x in xs)
        return None if None in k else self.fids.setdefault(k, len(self.fids))

    def fround(self, lin, err, uid=None):
        """result of a correctly rounded operation whose exact result is within err of lin"""
        l, h = bounds(lin, self.ctx)
        if l is None or h is None:
            raise Undecided('unbounded float')
        m = max(abs(l), abs(h)) + err
        if err == 0:
            isint = (isinstance(lin, Lin) and lin.isint) or isinstance(lin, int)
            if isint and m <= TWO53:
                return Flt(lin)
            if isinstance(lin, Lin):
                # a multiple of 2^-k below 2^(53-k)
                D = Flt(lin).lattice()[1]
                if D is not None and D & (D - 1) == 0 and m * D <= TWO53:
                    return Flt(lin)
            if not isinstance(lin, Lin):
                x = float(Fraction(lin)) if abs(lin) < Fraction(2) ** 1000 else None
                if x is not None and Fraction(x) == Fraction(lin):
                    return Flt(lin)
        if m >= Fraction(2) ** 1023:
            raise Undecided('float magnitude')
        return Flt(lin, err + m * EPS + Fraction(1, 2 ** 1074), err == 0, uid)

    def int_to_float(self, x):
        if not isinstance(x, Lin):
            return float(x)
        return self.fround(x, Fraction(0))

    def fbin(self, op, a, b):
        if isinstance(a, float) and isinstance(b, float):
            try:
                if op == 'Add':
                    return a + b
                if op == 'Sub':
                    return a - b
                if op == 'Mul':
                    return a * b
                if op == 'Div':
                    if b == 0:
                        if a == 0 or a != a:
                            return float('nan')
                        import math
                        return math.copysign(float('inf'), a) * math.copysign(1.0, b)
                    return a / b
                if op == 'Rem':
                    import math
                    return math.fmod(a, b)
            except OverflowError:
                pass
            raise Undecided('float op')
        fa, fb = self.toflt(a), self.toflt(b)
        if fa is None or fb is None:
            # one side is nan/inf, the other finite
            x = a if fa is None else b
            if x != x:
                return x
            if op in ('Add', 'Sub'):
                return -x if op == 'Sub' and fb is None else x
            y = fb if fa is None else fa
            if op not in ('Mul', 'Div') or y.err != 0:
                raise Undecided('float op on nan/inf')
            if op == 'Div' and fb is None:
                return 0.0
            if self.choose(gt(y.lin, 0), 'sign'):
                return x
            if self.choose(lt(y.lin, 0), 'sign'):
                return -x
            return float('nan') if op == 'Mul' else x
        fa, fb = self.refine(fa), self.refine(fb)
        if op in ('Add', 'Sub'):
            if fb.err == 0 and not isinstance(fb.lin, Lin) and fb.lin == 0:
                return fa
            for x, y, s in ((fa, fb, 1), (fb, fa, 1 if op == 'Add' else -1)):
                if x.one and max(map(abs, self.fbounds(x))) > HUGE:
                    # far beyond any integer type: all that is kept is that it is
                    if not self.choose(le(x.lin, HUGE), 'huge'):
                        s = s
                    elif not self.choose(le(-HUGE, x.lin), 'huge'):
                        s = -s
                    else:
                        continue
                    if max(map(abs, self.fbounds(y))) > HUGE / 4:
                        raise Undecided('float magnitude')
                    m = Fraction(2) ** 1023
                    return Flt(fresh('huge', HUGE / 2, m, False) if s > 0 else fresh('huge', -m, -HUGE / 2, False))
            fa, fb = self.refine(fa), self.refine(fb)
            l = add(fa.lin, fb.lin) if op == 'Add' else sub(fa.lin, fb.lin)
            if op == 'Sub':
                self.tighten(l)
            return self.fround(l, fa.err + fb.err, self.fuid(op, fa, fb))
        if op == 'Mul':
            if isinstance(fa.lin, Lin) and isinstance(fb.lin, Lin):
                self.fbounds(fa), self.fbounds(fb)
                l = mul(fa.lin, fb.lin)
                ma, mb = (max(map(abs, bounds(x.lin, self.ctx))) for x in (fa, fb))
                return self.fround(l, ma * fb.err + mb * fa.err + fa.err * fb.err, self.fuid(op, fa, fb))
            if isinstance(fa.lin, Lin):
                fa, fb = fb, fa
            c = Fraction(fa.lin)
            l, h = bounds(fb.lin, self.ctx)
            m = max(abs(l), abs(h))
            err = abs(c) * fb.err + fa.err * m + fa.err * fb.err
            return self.fround(mul(fb.lin, c), err, self.fuid(op, fa, fb))
        if op == 'Div':
            if isinstance(fb.lin, Lin) and fb.err == 0:
                try:
                    r = T.recip(fb.lin)
                except ValueError:
                    raise Undecided('float division by unknown')
                return self.fround(mul(fa.lin, r), fa.err * max(map(abs, bounds(r))), self.fuid(op, fa, fb))
            if fb.err != 0:
                raise Undecided('float division by unknown')
            c = Fraction(fb.lin)
            if c == 0:
                raise Undecided('float division by zero')
            r = self.fround(mul(fa.lin, 1 / c), fa.err / abs(c), self.fuid(op, fa, fb))
            # a multiple of 1/2 comes from a multiple of c/2, which the dividend holds exactly
            if (fa.halves or fa.err == 0) and c.denominator == 1 and max(map(abs, self.fbounds(fa))) < TWO53 / 4:
                r.halves = True
            return r
        if op == 'Rem' and not isinstance(fb.lin, Lin) and fb.err == 0 and fb.lin != 0:
            c = abs(Fraction(fb.lin))
            k = self.float_round(Flt(mul(fa.lin, 1 / c), fa.err / c), 'trunc')
            if k.err == 0:
                # the remainder of two floats is exact
                r = sub(fa.lin, mul(k.lin, c))
                return Flt(r, fa.err, False, self.fuid('Rem', fa, fb))
        raise Undecided('float ' + op)

    def tighten(self, l):
        """a number less (about) its own rounding is small: note it, intervals do not see that"""
        if not isinstance(l, Lin) or len(l.c) < 2 or not any((T.ATOMS[a].name or '').startswith('rnd!') for a, _ in l.c):
            return
        lo, hi = bounds(l, self.ctx)
        if lo is None or hi is None or hi - lo < 256:
            return
        for b in (2, 64):
            f = and_(le(l, b), le(-b, l))
            if self.ctx.sat(not_(f), 1000) is False:
                self.ctx.assume(f)
                return

    def refine(self, x):
        """the rounding error by what is known by now of the size"""
        if x.one:
            l, h = bounds(x.lin, self.ctx)
            e = max(abs(l), abs(h)) * EPS + Fraction(1, 2 ** 1074)
            if e < x.err:
                return Flt(x.lin, e, True)
        return x

    def fneg(self, a):
        return -a if isinstance(a, float) else Flt(neg(a.lin), a.err, a.one, self.fuid('neg', a))

    def float_round(self, x, mode):
        """round / floor / ceil / trunc of a float, result integer valued Flt"""
        import math
        if isinstance(x, float):
            if x != x or x in (float('inf'), float('-inf')):
                return x
            if mode == 'round':
                r = math.floor(abs(x) + 0.5) if abs(x) < TWO53 else abs(x)
                if abs(x) < TWO53 and abs(x) - math.floor(abs(x)) < 0.5:
                    r = math.floor(abs(x))
                return math.copysign(float(r), x)
            return float({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'even': round}[mode](x))
        x = self.refine(x)
        lin, err = x.lin, x.err
        isint = (isinstance(lin, Lin) and lin.isint) or isinstance(lin, int)
        if isint and err < Fraction(1, 2) and mode in ('round', 'even'):
            return self.fround(lin, Fraction(0))
        if isint and err == 0:
            return x
        l, h = self.fbounds(x)
        X, D = x.lattice() if max(abs(l), abs(h)) < TWO53 / 4 and mode != 'even' else (None, None)
        if D is not None and 2 * D * err < 1:
            # lin is a multiple of 1/D and the float closer than that, so on the same side of every
            # integer (and half) as lin, unless lin itself is one; after a single rounding then too, as
            # rounding is monotonic and integers and halves are exact
            Y, E = (add(mul(X, 2), D), 2 * D) if mode == 'round' else (X, D)
            if x.halves or not self.choose(eq(fmod(Y, E, self.ctx), 0), 'integer'):
                if mode == 'floor':
                    return Flt(fdiv(X, D, self.ctx))
                if mode == 'ceil':
                    return Flt(neg(fdiv(neg(X), D, self.ctx)))
                if self.choose(ge(X, 0)):
                    return Flt(fdiv(X, D, self.ctx) if mode == 'trunc' else fdiv(add(mul(X, 2), D), 2 * D, self.ctx))
                return Flt(neg(fdiv(neg(X), D, self.ctx) if mode == 'trunc' else fdiv(add(mul(neg(X), 2), D), 2 * D, self.ctx)))
        rnd = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'even': round, 'round': lambda q: math.floor(q + Fraction(1, 2)) if q >= 0 else math.ceil(q - Fraction(1, 2))}[mode]
        if rnd(l) == rnd(h) and max(abs(l), abs(h)) < TWO53 / 4:
            return Flt(rnd(l))
        # the same float rounds to the same integer
        key = (mode, x.uid, l, h) if x.uid is not None else None
        k = self.frnd.get(key) if key else None
        last = self.frnd.get(key[:2]) if key else None
        if last and last[1] < len(self.ctx.facts) and self.ctx.facts[last[1]] is last[2]:
            # rounded before on this path, when its size was less well known
            k = last[0]
        elif k is None:
            k = fresh('rnd', math.floor(l), math.ceil(h))
            if key:
                self.frnd[key] = k
        if not isinstance(lin, Lin):
            lin = T._norm(Fraction(lin))
        d = sub(k, lin)
        at = len(self.ctx.facts)
        if mode in ('round', 'even'):
            half = Fraction(1, 2)
            self.ctx_assume_def(and_(le(d, half + err), le(-half - err, d)))
            if err == 0 and mode == 'round':
                # ties away from zero
                self.ctx_assume_def(implies(ge(lin, 0), lt(-half, d)))
                self.ctx_assume_def(implies(lt(lin, 0), lt(d, half)))
        elif mode == 'floor':
            self.ctx_assume_def(and_(le(d, err), lt(-1 - err, d)))
        elif mode == 'ceil':
            self.ctx_assume_def(and_(lt(d, 1 + err), le(-err, d)))
        elif mode == 'trunc':
            self.ctx_assume_def(and_(implies(ge(lin, err), and_(le(d, err), lt(-1 - err, d))), implies(le(lin, -err), and_(lt(d, 1 + err), le(-err, d)))))
            self.ctx_assume_def(and_(le(d, 1 + err), le(-1 - err, d)))
        if key and at < len(self.ctx.facts):
            self.frnd[key[:2]] = (k, at, self.ctx.facts[at])
        # the result is an integer and k stands for it
        return Flt(k)

    def ctx_assume_def(self, b):
        """assert the definition of a fresh variable (conservative: the variable is new and the
        constraint satisfiable for every value of the rest)"""
        self.ctx.assume(b)

    def float_to_int(self, x, t):
        lo, hi = self.rng(t)
        if isinstance(x, float):
            if x != x:
                return 0
            if x in (float('inf'), float('-inf')):
                return hi if x > 0 else lo
            return max(lo, min(hi, int(x)))
        r = self.float_round(x, 'trunc')
        k = r.lin
        if r.err != 0:
            # magnitude beyond 2^53: some integer within err
            import math
            l, h = self.fbounds(r)
            e = math.ceil(r.err)
            ev = fresh('ferr', -e, e)
            k = add(k, ev)
        if self.choose(lt(k, lo)):
            return lo
        if self.choose(gt(k, hi)):
            return hi
        return k

    # ------------------------------------------------------------ rvalues
    def binop(self, st, op, a, b, t):
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return self.cmp(op, a, b, t)
        if self.isF(a) or self.isF(b):
            if self.p.types[t].get('bits') == 32:
                return self.f32(self.fbin(op, a, b), 'op')
            return self.fbin(op, a, b)
        if a is UNDEF or b is UNDEF:
            raise Undecided('read of uninitialised value')
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            return self.bitop(op, a, b, t)
        if op in ('Add', 'AddUnchecked'):
            return self.wrap(add(a, b), t)
        if op in ('Sub', 'SubUnchecked'):
            return self.wrap(sub(a, b), t)
        if op in ('Mul', 'MulUnchecked'):
            return self.wrap(mul(a, b), t)
        if op == 'Div':
            return self.tdiv(a, b)
        if op == 'Rem':
            return sub(a, mul(self.tdiv(a, b), b))
        if op in ('Shl', 'ShlUnchecked'):
            return self.wrap(self.shl(a, b), t)
        if op in ('Shr', 'ShrUnchecked'):
            return fdiv(a, 1 << self.concrete(b), self.ctx)
        if op == 'Cmp':
            if self.choose(lt(a, b)):
                return self.ordering(-1)
            if self.choose(eq(a, b)):
                return self.ordering(0)
            return self.ordering(1)
        if op == 'Offset':
            if isinstance(a, Ref) and a.path:
                return Ref(a.root, a.path[:-1] + (add(a.path[-1], b),), None)
        raise Undecided('binop ' + op)

    def ordering(self, c):
        return En(c + 1, ())

    def ordv(self, e):
        return e.var - 1

    def rvalue(self, st, r):
        k = r[0]
        if k == 'use':
            return self.operand(st, r[1])
        if k == 'bin':
            return self.binop(st, r[1], self.operand(st, r[2]), self.operand(st, r[3]), r[4])
        if k == 'cbin':
            a, b = self.operand(st, r[2]), self.operand(st, r[3])
            op, t = r[1], r[4]
            if op in ('Shl', 'Shr'):
                raise Undecided('checked shift')
            if a is UNDEF or b is UNDEF:
                raise Undecided('read of uninitialised value')
            x = add(a, b) if op == 'Add' else sub(a, b) if op == 'Sub' else mul(a, b)
            ok = self.inrange(x, t)
            if self.choose(ok, 'overflow'):
                return (x, False)
            return (self.wrap(x, t), True)
        if k == 'ref' or k == 'addr':
            return self.place_ref(st, r[1])
        if k == 'cast':
            return self.cast(st, r[1], self.operand(st, r[2]), r[3], r[4])
        if k == 'agg':
            ops = tuple(self.operand(st, o) for o in r[2])
            kk = r[1]
            if kk[0] == 'adt':
                ty = self.p.types[kk[1]]
                if ty['kind'] == 'enum':
                    return En(kk[2], ops, kk[1])
                if ty['kind'] == 'union':
                    raise Undecided('union')
                return ops
            if kk[0] == 'rawptr':
                ptr, meta = ops
                if isinstance(ptr, Ref) and isinstance(meta, (int, Lin)):
                    if ptr.win is None and ptr.path:
                        return Ref(ptr.root, ptr.path[:-1], (ptr.path[-1], meta))
                    if ptr.win is not None:
                        return Ref(ptr.root, ptr.path, (ptr.win[0], meta))
                return ptr
            return ops
        if k == 'discr':
            v = self.read(st, r[1])
            ty = self.p.types[r[1][2]]
            if isinstance(v, En):
                if ty['k'] == 'adt':
                    d = int(ty['variants'][v.var]['discr'])
                    if ty.get('dty') is not None:
                        lo, hi = self.rng(ty['dty'])
                        if d > hi:
                            d -= (hi - lo + 1)
                    return d
                return v.var
            if v is UNDEF and ty.get('name') in ('std::option::Option<!>', 'std::option::Option<std::convert::Infallible>'):
                return 0        # its only value
            if v is UNDEF:
                raise Undecided('discriminant of uninitialised value in %s block %d' % (st.frames[-1].fn.name, st.frames[-1].bb))
            if ty['k'] == 'adt' and ty['kind'] != 'enum':
                return 0
            raise Undecided('discriminant of %r' % (v,))
        if k == 'un':
            a = self.operand(st, r[2])
            if r[1] == 'Not':
                if isinstance(a, (bool, B)):
                    return not_(a)
                lo, hi = self.rng(r[3])
                return sub(lo + hi, a)
            if r[1] == 'Neg':
                if self.isF(a):
                    return self.fneg(a)
                return self.wrap(neg(a), r[3])
            if r[1] == 'PtrMetadata':
                if isinstance(a, Ref):
                    if a.win is not None:
                        return a.win[1]
                    v = self.getpath(st, a.root, a.path) if self.p.types[r[3]]['k'] in ('ptr', 'ref') and self.p.types[self.p.types[r[3]]['to']]['k'] == 'slice' else None
                    if isinstance(v, tuple):
                        return len(v)
                    return ()
            raise Undecided('unop %s %r' % (r[1], a))
        if k == 'len':
            rf = self.place_ref(st, r[1])
            if rf.win is not None:
                return rf.win[1]
            return len(self.getpath(st, rf.root, rf.path))
        if k == 'repeat':
            return (self.operand(st, r[1]),) * r[2]
        raise Undecided('rvalue %r' % (r,))

    def cast(self, st, kind, v, ft, tt):
        if kind == 'IntToInt':
            if isinstance(v, (bool, B)):
                return 1 if self.choose(v) else 0
            if isinstance(v, En):
                ty = self.p.types[ft]
                return self.wrap(int(ty['variants'][v.var]['discr']), tt)
            if v is UNDEF:
                raise Undecided('cast of uninitialised value')
            return self.wrap(v, tt)
        if kind == 'IntToFloat':
            r = self.int_to_float(v)
            if self.p.types[tt]['bits'] == 32:
                return self.f32(r, 'op')
            return r
        if kind == 'FloatToInt':
            return self.float_to_int(v, tt)
        if kind == 'FloatToFloat':
            if self.p.types[tt]['bits'] == 64:
                return v
            return self.f32(v)
        if kind.startswith('PointerCoercion'):
            if 'Unsize' in kind:
                if isinstance(v, Ref):
                    if v.win is not None:
                        return v
                    to = self.p.types[tt]
                    pt = self.p.types[to['to']] if 'to' in to else None
                    if pt and pt['k'] == 'slice':
                        a = self.getpath(st, v.root, v.path)
                        return Ref(v.root, v.path, (0, len(a)))
                    return v
                return v
            if 'ReifyFnPointer' in kind:
                ty = self.p.types[ft]
                return FnPtr(ty['fn'])
            if 'ClosureFnPointer' in kind:
                return FnPtr(self.p.types[ft]['calls']['once'])
            if 'ArrayToPointer' in kind:
                return Ref(v.root, v.path + (0,), None)
            return v
        if kind in ('PtrToPtr', 'FnPtrToPtr', 'Subtype'):
            if isinstance(v, Ref) and v.win is None and v.root[0] != 'k':
                to = self.p.types[tt]
                pt = self.p.types[to['to']] if 'to' in to else None
                if pt and pt['k'] in ('int', 'float', 'bool', 'char'):
                    # a pointer to an array as a pointer to its first element
                    try:
                        x = self.getpath(st, v.root, v.path)
                    except (Undecided, IndexError):
                        x = None
                    while type(x) is tuple and x:
                        v = Ref(v.root, v.path + (0,))
                        x = x[0]
                    if type(x) is VecV:
                        return Ref(x.root, (0,))
                    return v
            if isinstance(v, Ref) and v.win is not None:
                to = self.p.types[tt]
                pt = self.p.types[to['to']] if 'to' in to else None
                if pt and pt['k'] not in ('slice', 'str', 'dyn'):
                    return Ref(v.root, v.path + (v.win[0],), None)
            return v
        if kind in ('Transmute', 'BoxDerefTransmute'):
            return self.transmute(st, v, ft, tt)
        raise Undecided('cast ' + kind)

    def f32(self, x, how='cast'):
        """x rounded to single precision"""
        if isinstance(x, float):
            try:
                return struct.unpack('<f', struct.pack('<f', x))[0]
            except OverflowError:
                return float('inf') if x > 0 else float('-inf')
        l, h = self.fbounds(x)
        m = max(abs(l), abs(h))
        if m > Fraction(2) ** 126:
            raise Undecided('f32 magnitude')
        if x.err == 0:
            if ((isinstance(x.lin, Lin) and x.lin.isint) or isinstance(x.lin, int)) and m <= 1 << 24:
                return x
            D = x.lattice()[1]
            if D is not None and D & (D - 1) == 0 and D <= 1 << 100 and m * D <= 1 << 24:
                return x
        return Flt(x.lin, x.err + m / (1 << 24) + Fraction(1, 2 ** 149), False, ('f32', how, x.uid) if x.uid is not None else None)

    def transmute(self, st, v, ft, tt):
        a, b = self.p.types[ft], self.p.types[tt]
        if ft == tt:
            return v
        if b['k'] == 'adt' and b['kind'] == 'enum' and a['k'] == 'int':
            if all(not x['fields'] for x in b['variants']):
                v = self.concrete(v, limit=300)
                for i, x in enumerate(b['variants']):
                    d = int(x['discr'])
                    lo, hi = self.rng(ft)
                    if d > hi:
                        d -= hi - lo + 1
                    if d == v:
                        return En(i, (), tt)
                raise PanicEx('undefined behaviour: transmute of %s to %s' % (v, b['name']))
        # single-field wrappers (MaybeUninit, ManuallyDrop, NonNull ...)
        if isinstance(v, Ref) or isinstance(v, FnPtr):
            return v
        if v is UNDEF:
            return UNDEF
        if type(v) is VecV and b['k'] == 'ptr':
            return Ref(v.root, (0,))
        while isinstance(v, tuple) and len(v) == 1 and b['k'] in ('int', 'float', 'bool', 'char'):
            v = v[0]
        if 'NonZero' in b.get('name', '') and isinstance(v, (int, Lin)):
            if b['name'].startswith('std::option::Option'):
                return En(0, ()) if self.choose(eq(v, 0)) else En(1, (v,))
            return v
        if 'NonZero' in a.get('name', '') and isinstance(v, (int, Lin)):
            return v
        if a['k'] in ('int', 'float') and b['k'] in ('int', 'float'):
            if a['k'] == 'int' and b['k'] == 'int':
                return self.wrap(v, tt)
        if a['k'] == b['k'] == 'array' and isinstance(v, tuple):
            return v                # [T; N] and [MaybeUninit<T>; N]
        raise Undecided('transmute %s -> %s' % (a.get('name', a['k']), b.get('name', b['k'])))

    # ------------------------------------------------------------ calls
    def push_call(self, st, key, args, dest, ret, cont=None, site=False):
        """start executing function `key`; returns nothing (pushes a frame) or finishes a native.
        site: called by a MIR call terminator (closures then take their arguments as one tuple)"""
        fn = self.p.fns[key]
        if fn.has_body:
            if site:
                if fn.closure and args and isinstance(args[-1], tuple) and len(args) == 2:
                    args = [args[0]] + list(args[1])
            elif fn.spread is not None:
                args = list(args[:fn.spread - 1]) + [tuple(args[fn.spread - 1:])]
        nat = fn.native
        if nat is None:
            nat = self.natives_for(fn)
            fn.native = nat
        if nat is not False:
            self.used.setdefault(fn.name, 'native')
            r = nat(self, st, args, fn)
            self.finish_native(st, r, dest, ret, cont)
            return
        c = self.contracts.get(fn.name)
        if c is not None and fn.name not in self.nocontract:
            r = c.apply(self, st, args, fn)
            if r is not NotImplemented:
                self.used[fn.name] = 'contract'
                self.finish_native(st, r, dest, ret, cont)
                return
        if not fn.has_body:
            raise Undecided('no body for %s' % fn.name)
        self.used.setdefault(fn.name, 'inlined')
        if len(st.frames) > 200:
            raise Undecided('call depth')
        f = Frame(fn, [UNDEF] * len(fn.ltys), dest, ret, cont)
        if len(args) != fn.nargs:
            raise Undecided('arity of %s: %d vs %d' % (fn.name, len(args), fn.nargs))
        for i, a in enumerate(args):
            f.locals[i + 1] = a
        st.frames.append(f)

    def finish_native(self, st, r, dest, ret, cont):
        if isinstance(r, Call):
            k = r.k
            d2, r2 = dest, ret

            def cont2(I, st, val, k=k, dest=dest, ret=ret, cont=cont):
                r = k(I, st, val)
                I.finish_native(st, r, dest, ret, cont)
            self.push_call(st, r.key, r.args, None, None, cont2)
            return
        self.deliver(st, r, dest, ret, cont)

    def deliver(self, st, v, dest, ret, cont):
        if cont is not None:
            cont(self, st, v)
            return
        if dest is None:
            st.ghost['result'] = v
            return
        if ret is None:
            raise PanicEx('diverging call returned')
        # evaluate the destination in the (current top) caller frame
        self.write(st, dest, v)
        fr = st.frames[-1]
        fr.bb, fr.si = ret, 0

    def natives_for(self, fn):
        f = self.natives['lookup'](fn) if 'lookup' in self.natives else None
        return f if f is not None else False

    # ------------------------------------------------------------ execution
    def step(self, st):
        """execute one statement or terminator; returns outcome or None"""
        fr = st.frames[-1]
        blk = fr.fn.blocks[fr.bb]
        ss = blk['s']
        if fr.si < len(ss):
            s = ss[fr.si]
            k = s[0]
            if k == '=':
                v = self.rvalue(st, s[2])
                self.write(st, s[1], v)
            elif k == 'live' or k == 'dead':
                fr.locals[s[1]] = UNDEF
            elif k == 'setd':
                v = self.read(st, s[1])
                f = v.f if isinstance(v, En) else ()
                self.write(st, s[1], En(s[2], f))
            else:
                raise Undecided('statement ' + k)
            fr.si += 1
            return None
        t = blk['t']
        k = t[0]
        if k == 'goto':
            fr.bb, fr.si = t[1], 0
            return None
        if k == 'switch':
            v = self.operand(st, t[1])
            ty = self.p.types[t[2]]
            if v is UNDEF:
                raise Undecided('switch on uninitialised value in %s' % fr.fn.name)
            if isinstance(v, (bool, B)):
                tg = [t[4], t[4]]
                for x, b in t[3]:
                    if int(x) in (0, 1):
                        tg[int(x)] = b
                r = self.ctx.decide(v) if isinstance(v, B) else v
                if r is None:
                    if self.converge(st, fr, tg):
                        return None
                    raise Fork([v, not_(v)], 'switch')
                fr.bb, fr.si = tg[1 if r else 0], 0
                return None
            tr = t.__len__() and getattr(self, '_x', None)
            if not isinstance(v, Lin):
                val = v
                if val < 0:
                    val += 1 << ty['bits']
                tgt = t[4]
                for x, b in t[3]:
                    if int(x) == val:
                        tgt = b
                        break
                fr.bb, fr.si = tgt, 0
                return None
            for x, b in t[3]:
                x = int(x)
                if ty['k'] == 'int' and ty['signed'] and x >= 1 << (ty['bits'] - 1):
                    x -= 1 << ty['bits']
                if self.choose(eq(v, x), 'switch'):
                    fr.bb, fr.si = b, 0
                    return None
            fr.bb, fr.si = t[4], 0
            return None
        if k == 'return':
            v = fr.locals[0]
            st.frames.pop()
            try:
                if fr.cont is not None:
                    fr.cont(self, st, v)
                elif fr.dest is None:
                    return ('return', v)
                else:
                    self.write(st, fr.dest, v)
                    c = st.frames[-1]
                    c.bb, c.si = fr.ret, 0
            except Fork:
                st.frames.append(fr)
                raise
            if not st.frames:
                return ('return', st.ghost.get('result', v))
            return None
        if k == 'call':
            fv = t[1]
            if 'k' in fv or self.p.types[t[2]]['k'] == 'fndef':
                ft = self.p.types[t[2]]
                key = ft.get('fn')
                if key is None:
                    raise Undecided('unresolved callee %s' % ft.get('name'))
            else:
                v = self.operand(st, fv)
                if not isinstance(v, FnPtr):
                    raise Undecided('indirect call through %r' % (v,))
                key = v.key
            args = [self.operand(st, o) for o in t[3]]
            self.argtys = t[4]
            self.push_call(st, key, args, t[5], t[6], site=True)
            if not st.frames:
                return ('return', st.ghost.get('result'))
            return None
        if k == 'assert':
            c = self.operand(st, t[1])
            if t[2] is False:
                c = not_(c)
            if self.choose(c, 'assert'):
                fr.bb, fr.si = t[4], 0
                return None
            raise PanicEx('%s at %s:%d' % (t[3], fr.fn.file.split('/')[-1], blk['l']))
        if k == 'unreachable':
            raise PanicEx('undefined behaviour: unreachable reached in %s' % fr.fn.name)
        raise Undecided('terminator ' + k)

    def converge(self, st, fr, targets):
        """do both branches, run straight on without any further decision, reach the same block in the same
        state?  Then continue there without a case split."""
        key = (fr.fn.key, fr.bb)
        if key in self.nomerge:
            return False
        fi = len(st.frames) - 1
        seen, common = None, False
        for tgt in targets:
            s = st.copy()
            f = s.frames[fi]
            f.bb, f.si = tgt, 0
            trace = {}
            for _ in range(5):
                trace[f.bb] = ([list(g.locals) for g in s.frames], dict(s.heap))
                blk = f.fn.blocks[f.bb]
                if blk['t'][0] != 'goto' or len(blk['s']) > 12:
                    break
                try:
                    for _ in range(len(blk['s']) + 1):
                        self.step(s)
                except (Fork, PanicEx, Undecided):
                    break
                if f.bb in trace:
                    break
            if seen is None:
                seen = trace
                continue
            for b, (ls, hp) in trace.items():
                if b not in seen:
                    continue
                common = True
                ls2, hp2 = seen[b]
                if all(x is y or x == y for l, m in zip(ls, ls2) for x, y in zip(l, m)) and hp.keys() == hp2.keys() and all(hp[k] is hp2[k] or hp[k] == hp2[k] for k in hp):
                    for g, l in zip(st.frames, ls):
                        g.locals[:] = l
                    st.heap.clear()
                    st.heap.update(hp)
                    fr.bb, fr.si = b, 0
                    return True
        if not common:
            self.nomerge.add(key)
        return False

    def run(self, st, leaf):
        """explore all paths from st; leaf(st, outcome) is called at the end of each, with
        self.ctx holding the path facts"""
        while True:
            if self.deadline is not None and time.time() > self.deadline:
                raise Undecided('time limit')
            try:
                while True:
                    st.steps += 1
                    if st.steps > self.max_steps:
                        raise Undecided('step limit')
                    out = self.step(st)
                    if out is not None:
                        break
            except PanicEx as e:
                out = ('panic', e.msg)
            except Fork as f:
                self.fork(st, f, lambda s: self.run(s, leaf))
                return
            self.leaves += 1
            if self.leaves > self.max_leaves:
                raise Undecided('path limit')
            self.at_leaf(st, out, leaf)
            return

    def at_leaf(self, st, out, leaf):
        try:
            leaf(st, out)
        except Fork as f:
            self.fork(st, f, lambda s: self.at_leaf(s, out, leaf))

    def fork(self, st, f, go):
        live = []
        for c in f.conds:
            if c is False:
                continue
            q = self.ctx.quick(c)
            if q is False:
                continue
            s = self.ctx.sat(c)
            if s is False:
                continue
            live.append(c)
        if len(live) == 1 and len(f.conds) >= 1:
            # the alternatives are exhaustive: the remaining one holds on this path
            self.ctx.push()
            try:
                self.ctx.assume(live[0])
                go(st)
            finally:
                self.ctx.pop()
            return
        for i, c in enumerate(live):
            self.ctx.push()
            try:
                self.ctx.assume(c)
                go(st.copy() if i < len(live) - 1 else st)
            finally:
                self.ctx.pop()

    def start(self, fn, args, leaf, setup=None):
        st = State()
        for root, v in (setup or {}).items():
            st.heap[root] = v
        def go(s):
            try:
                self.push_call(s, fn.key, list(args), None, None)
                if not s.frames:
                    self.at_leaf(s, ('return', s.ghost.get('result')), leaf)
                    return
            except Fork as f:
                self.fork(s, f, go)
                return
            except PanicEx as e:
                self.at_leaf(s, ('panic', e.msg), leaf)
                return
            self.run(s, leaf)
        go(st)
