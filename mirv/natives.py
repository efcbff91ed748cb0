"""Models of the standard-library functions that have no interpretable MIR (intrinsics, raw-pointer
iterators, allocation, formatting machinery, thread locals) or are much faster natively.

These models are the trusted base of the verifier, together with the MIR semantics in interp.py; they
are cross-checked against the compiled code by `check.py selftest` on concrete inputs."""
import math, re
from fractions import Fraction
from .terms import *
from . import terms as T
from .interp import *

NONE = En(0, ())


def some(x):
    return En(1, (x,))


TY = {}
for b in (8, 16, 32, 64, 128):
    TY['i%d' % b] = (-(1 << (b - 1)), (1 << (b - 1)) - 1)
    TY['u%d' % b] = (0, (1 << b) - 1)
TY['isize'] = TY['i64']
TY['usize'] = TY['u64']


def strip(n):
    """path without generic instantiations"""
    out, dep, i = [], 0, 0
    while i < len(n):
        if dep == 0 and n.startswith('::<', i) and not n.startswith('::<impl', i) and i > 0:
            dep = 1
            i += 3
            continue
        c = n[i]
        if dep:
            if c == '<':
                dep += 1
            elif c == '>' and n[i - 1] != '-':
                dep -= 1
            i += 1
            continue
        out.append(c)
        i += 1
    return ''.join(out)


def inr(x, r):
    return and_(le(r[0], x), le(x, r[1]))


def wrap_r(I, x, r):
    n = r[1] - r[0] + 1
    if not isinstance(x, Lin):
        return (x - r[0]) % n + r[0]
    if I.choose(inr(x, r), 'wrap'):
        return x
    q = fdiv(sub(x, r[0]), n, I.ctx)
    l, h = bounds(q, I.ctx)
    if isinstance(q, Lin) and l is not None and h is not None and h - l <= 3:
        return sub(x, mul(I.concrete(q), n))
    return sub(x, mul(q, n))


def tdiv(I, a, b):
    return I.tdiv(a, b)


def need_int(*xs):
    for x in xs:
        if x is UNDEF:
            raise Undecided('read of uninitialised value')


def num_native(ty, op):
    r = TY.get(ty)
    if r is None:
        return None
    arith = {'add': add, 'sub': sub, 'mul': mul}

    def two(f):
        def g(I, st, a, fn):
            need_int(*a)
            return f(I, *a)
        return g
    m = re.match(r'(checked|wrapping|saturating|overflowing|unchecked|strict)_(add|sub|mul)$', op)
    if m:
        mode, f = m.group(1), arith[m.group(2)]

        def g(I, a, b):
            x = f(a, b)
            if mode == 'wrapping':
                return wrap_r(I, x, r)
            if mode == 'saturating':
                if I.choose(lt(x, r[0])):
                    return r[0]
                if I.choose(gt(x, r[1])):
                    return r[1]
                return x
            ok = I.choose(inr(x, r), 'overflow')
            if mode == 'checked':
                return some(x) if ok else NONE
            if mode == 'overflowing':
                return (x, False) if ok else (wrap_r(I, x, r), True)
            if not ok:
                raise PanicEx('arithmetic overflow in ' + op)
            return x
        return two(g)
    m = re.match(r'(checked|wrapping|saturating|overflowing)_(neg|abs)$', op)
    if m:
        mode, o = m.groups()

        def g(I, a):
            x = neg(a)
            if o == 'abs' and I.choose(ge(a, 0)):
                x = a
            ok = I.choose(inr(x, r), 'overflow')
            if mode == 'checked':
                return some(x) if ok else NONE
            if mode == 'wrapping':
                return x if ok else wrap_r(I, x, r)
            if mode == 'saturating':
                return x if ok else r[1]
            return (x, False) if ok else (wrap_r(I, x, r), True)
        return two(g)
    if op in ('checked_div', 'checked_rem', 'checked_div_euclid', 'checked_rem_euclid'):
        def g(I, a, b):
            if I.choose(eq(b, 0)):
                return NONE
            b = I.concrete(b)
            if b == -1 and I.choose(eq(a, r[0])) and r[0] < 0:
                return NONE
            q = I.tdiv(a, b) if 'euclid' not in op else None
            if q is None:
                q = fdiv(a, b, I.ctx) if b > 0 else neg(fdiv(a, -b, I.ctx))
            return some(q if 'div' in op else sub(a, mul(q, b)))
        return two(g)
    if op in ('rem_euclid', 'div_euclid', 'wrapping_rem_euclid', 'wrapping_div_euclid'):
        def g(I, a, b):
            if I.choose(eq(b, 0)):
                raise PanicEx('division by zero')
            b = I.concrete(b)
            if b == -1 and r[0] < 0 and 'wrapping' not in op and I.choose(eq(a, r[0])):
                raise PanicEx('attempt to divide with overflow')
            if 'rem' in op:
                return fmod(a, abs(b), I.ctx)
            return fdiv(a, b, I.ctx) if b > 0 else neg(fdiv(a, -b, I.ctx))
        return two(g)
    if op == 'abs':
        def g(I, a):
            if I.choose(ge(a, 0)):
                return a
            if I.choose(eq(a, r[0])):
                raise PanicEx('attempt to negate with overflow (abs)')
            return neg(a)
        return two(g)
    if op == 'unsigned_abs':
        return two(lambda I, a: a if I.choose(ge(a, 0)) else neg(a))
    if op == 'abs_diff':
        return two(lambda I, a, b: sub(a, b) if I.choose(ge(a, b)) else sub(b, a))
    if op == 'signum':
        return two(lambda I, a: 1 if I.choose(gt(a, 0)) else (0 if I.choose(eq(a, 0)) else -1))
    if op == 'is_negative':
        return two(lambda I, a: lt(a, 0))
    if op == 'is_positive':
        return two(lambda I, a: gt(a, 0))
    if op == 'pow':
        def g(I, a, n):
            n = I.concrete(n)
            x = 1
            for _ in range(n):
                x = mul(x, a)
                if not I.choose(inr(x, r)):
                    raise PanicEx('attempt to multiply with overflow (pow)')
            return x
        return two(g)
    if op == 'max_value':
        return lambda I, st, a, fn: r[1]
    if op == 'min_value':
        return lambda I, st, a, fn: r[0]
    if ty == 'u8' and op in ASCII_CLASS:
        cls = ASCII_CLASS[op]

        def g(I, st, a, fn):
            x = load(I, st, a[0])
            return in_class(I, x, cls)
        return g
    if ty == 'u8' and op in ('to_ascii_lowercase', 'to_ascii_uppercase'):
        def g(I, st, a, fn):
            return ascii_case(I, load(I, st, a[0]), op == 'to_ascii_lowercase')
        return g
    return None


ASCII_CLASS = {
    'is_ascii_digit': [(48, 57)],
    'is_ascii_alphabetic': [(65, 90), (97, 122)],
    'is_ascii_alphanumeric': [(48, 57), (65, 90), (97, 122)],
    'is_ascii_uppercase': [(65, 90)],
    'is_ascii_lowercase': [(97, 122)],
    'is_ascii_whitespace': [(9, 10), (12, 13), (32, 32)],
    'is_ascii_punctuation': [(33, 47), (58, 64), (91, 96), (123, 126)],
    'is_ascii_graphic': [(33, 126)],
    'is_ascii_hexdigit': [(48, 57), (65, 70), (97, 102)],
    'is_ascii_control': [(0, 31), (127, 127)],
    'is_ascii': [(0, 127)],
}


def in_class(I, x, cls):
    need_int(x)
    return or_(*[and_(le(a, x), le(x, b)) for a, b in cls])


def ascii_case(I, x, lower):
    need_int(x)
    a, b, d = (65, 90, 32) if lower else (97, 122, -32)
    if I.choose(and_(le(a, x), le(x, b))):
        return add(x, d)
    return x


def load(I, st, r):
    if isinstance(r, Ref):
        return I.load(st, r)
    raise Undecided('load of %r' % (r,))


def slice_win(I, st, r):
    """(start, len) of a slice reference, concrete"""
    if not isinstance(r, Ref):
        raise Undecided('slice ref %r' % (r,))
    if r.win is None:
        a = I.getpath(st, r.root, r.path)
        if isinstance(a, tuple):
            return 0, len(a)
        raise Undecided('slice window')
    s, n = r.win
    return I.concrete(s), I.concrete(n)


def sub_slice(I, st, r, lo, hi):
    s, n = slice_win(I, st, r)
    lo, hi = I.concrete(lo, 0, n + 1), I.concrete(hi, 0, n + 1)
    if lo > hi:
        raise PanicEx('slice index starts at %d but ends at %d' % (lo, hi))
    if hi > n:
        raise PanicEx('range end index %d out of range for slice of length %d' % (hi, n))
    return Ref(r.root, r.path, (s + lo, hi - lo))


def n_index(kind):
    def g(I, st, a, fn):
        r = a[0]
        s, n = slice_win(I, st, r)
        x = a[1]
        if kind == 'Range':
            lo, hi = x[0], x[1]
        elif kind == 'RangeFrom':
            lo, hi = x[0], n
        elif kind == 'RangeTo':
            lo, hi = 0, x[0]
        elif kind == 'RangeInclusive':
            lo, hi = x[0], add(x[1], 1)
        elif kind == 'RangeToInclusive':
            lo, hi = 0, add(x[0], 1)
        else:
            lo, hi = 0, n
        lo2 = lo
        if isinstance(lo, Lin) or isinstance(hi, Lin):
            # out of bounds outcomes are separate paths
            if I.choose(gt(lo, hi)) or I.choose(gt(hi, n)):
                raise PanicEx('slice index out of range')
        if not isinstance(lo, Lin) and not isinstance(hi, Lin) and (lo > n and kind == 'RangeFrom'):
            raise PanicEx('range start index %d out of range for slice of length %d' % (lo, n))
        return sub_slice(I, st, r, lo, hi)
    return g


def n_get(I, st, a, fn):
    s, n = slice_win(I, st, a[0])
    i = a[1]
    if isinstance(i, tuple):
        lo, hi = (i[0], i[1]) if len(i) >= 2 else (i[0], n)
        lo, hi = I.concrete(lo), I.concrete(hi)
        if lo > hi or hi > n:
            return NONE
        return some(Ref(a[0].root, a[0].path, (s + lo, hi - lo)))
    if not I.choose(lt(i, n)):
        return NONE
    return some(Ref(a[0].root, a[0].path + (add(s, i),)))


def n_slice_eq(I, st, a, fn):
    x, y = load(I, st, a[0]), load(I, st, a[1])
    if len(x) != len(y):
        return False
    return and_(*[val_eq(I, p, q) for p, q in zip(x, y)])


def val_eq(I, p, q):
    if p is UNDEF or q is UNDEF:
        raise Undecided('comparison of uninitialised value')
    if isinstance(p, (int, Lin)) and isinstance(q, (int, Lin)):
        return eq(p, q)
    raise Undecided('slice element comparison')


def n_slice_cmp(I, st, a, fn):
    x, y = load(I, st, a[0]), load(I, st, a[1])
    for p, q in zip(x, y):
        if p is UNDEF or q is UNDEF:
            raise Undecided('comparison of uninitialised value')
        if I.choose(eq(p, q)):
            continue
        return I.ordering(-1 if I.choose(lt(p, q)) else 1)
    return I.ordering((len(x) > len(y)) - (len(x) < len(y)))


def n_copy_from_slice(I, st, a, fn):
    s1, n1 = slice_win(I, st, a[0])
    s2, n2 = slice_win(I, st, a[1])
    if n1 != n2:
        raise PanicEx('copy_from_slice: source slice length (%d) does not match destination slice length (%d)' % (n2, n1))
    src = I.getpath(st, a[1].root, a[1].path)[s2:s2 + n2]
    write_win(I, st, a[0], s1, src)
    return ()


def write_win(I, st, r, s, vals):
    arr = I.getpath(st, r.root, r.path)
    arr = arr[:s] + tuple(vals) + arr[s + len(vals):]
    I.store(st, Ref(r.root, r.path), arr)


def n_swap(I, st, a, fn):
    s, n = slice_win(I, st, a[0])
    i, j = I.concrete(a[1]), I.concrete(a[2])
    if i >= n or j >= n:
        raise PanicEx('swap index out of bounds')
    arr = list(I.getpath(st, a[0].root, a[0].path))
    arr[s + i], arr[s + j] = arr[s + j], arr[s + i]
    I.store(st, Ref(a[0].root, a[0].path), tuple(arr))
    return ()


def n_reverse(I, st, a, fn):
    s, n = slice_win(I, st, a[0])
    arr = I.getpath(st, a[0].root, a[0].path)
    write_win(I, st, a[0], s, arr[s:s + n][::-1])
    return ()


def n_fill(I, st, a, fn):
    s, n = slice_win(I, st, a[0])
    write_win(I, st, a[0], s, (a[1],) * n)
    return ()


def n_split_at(I, st, a, fn):
    s, n = slice_win(I, st, a[0])
    k = I.concrete(a[1])
    if k > n:
        raise PanicEx('mid > len')
    r = a[0]
    return (Ref(r.root, r.path, (s, k)), Ref(r.root, r.path, (s + k, n - k)))


def n_first(I, st, a, fn):
    s, n = slice_win(I, st, a[0])
    return some(Ref(a[0].root, a[0].path + (s,))) if n else NONE


def n_last(I, st, a, fn):
    s, n = slice_win(I, st, a[0])
    return some(Ref(a[0].root, a[0].path + (s + n - 1,))) if n else NONE


def n_starts_with(I, st, a, fn):
    x, y = load(I, st, a[0]), load(I, st, a[1])
    if len(y) > len(x):
        return False
    return and_(*[val_eq(I, p, q) for p, q in zip(x, y)])


def n_ends_with(I, st, a, fn):
    x, y = load(I, st, a[0]), load(I, st, a[1])
    if len(y) > len(x):
        return False
    return and_(*[val_eq(I, p, q) for p, q in zip(x[len(x) - len(y):], y)])


def n_contains(I, st, a, fn):
    x, y = load(I, st, a[0]), load(I, st, a[1])
    return or_(*[val_eq(I, p, y) for p in x])


def n_to_lower(I, st, a, fn):
    x = load(I, st, a[0])
    v = tuple(ascii_case(I, c, True) for c in x)
    root = I.new_heap(st, v)
    return VecV(root, len(v), len(v))


def n_make_lower(I, st, a, fn):
    s, n = slice_win(I, st, a[0])
    arr = I.getpath(st, a[0].root, a[0].path)
    write_win(I, st, a[0], s, [ascii_case(I, c, True) for c in arr[s:s + n]])
    return ()


def n_eq_ignore_case(I, st, a, fn):
    x, y = load(I, st, a[0]), load(I, st, a[1])
    if len(x) != len(y):
        return False
    return and_(*[val_eq(I, ascii_case(I, p, True), ascii_case(I, q, True)) for p, q in zip(x, y)])


def n_binary_search_by_key(I, st, a, fn):
    """the contract of binary_search on a slice sorted by key: Ok(i) iff element i has the key.  The
    real algorithm is followed (size halving), so an unsorted table misbehaves as the real one."""
    raise Undecided('binary search')


# ---------------------------------------------------------------- iterators
def n_iter(I, st, a, fn):
    s, n = slice_win(I, st, a[0])
    return SIter(a[0].root, a[0].path, s, s + n)


def it_next(I, st, a, fn):
    it = SIter.of(I.load(st, a[0]))
    if it.lo >= it.hi:
        return NONE
    I.store(st, a[0], SIter(it.root, it.path, it.lo + 1, it.hi))
    return some(Ref(it.root, it.path + (it.lo,)))


def it_next_back(I, st, a, fn):
    it = SIter.of(I.load(st, a[0]))
    if it.lo >= it.hi:
        return NONE
    I.store(st, a[0], SIter(it.root, it.path, it.lo, it.hi - 1))
    return some(Ref(it.root, it.path + (it.hi - 1,)))


def it_nth(I, st, a, fn):
    it = SIter.of(I.load(st, a[0]))
    n = I.concrete(a[1])
    if it.lo + n >= it.hi:
        I.store(st, a[0], SIter(it.root, it.path, it.hi, it.hi))
        return NONE
    I.store(st, a[0], SIter(it.root, it.path, it.lo + n + 1, it.hi))
    return some(Ref(it.root, it.path + (it.lo + n,)))


def it_get_unchecked(I, st, a, fn):
    it = SIter.of(I.load(st, a[0]))
    return Ref(it.root, it.path + (add(it.lo, a[1]),))


def it_clone(I, st, a, fn):
    return I.load(st, a[0])


def it_size_hint(I, st, a, fn):
    it = SIter.of(I.load(st, a[0]))
    n = it.hi - it.lo
    return (n, some(n))


def it_len(I, st, a, fn):
    it = SIter.of(I.load(st, a[0]))
    return it.hi - it.lo


def it_count(I, st, a, fn):
    it = SIter.of(a[0])
    return it.hi - it.lo


def it_as_slice(I, st, a, fn):
    it = SIter.of(I.load(st, a[0]))
    return Ref(it.root, it.path, (it.lo, it.hi - it.lo))


def closure_key(I, t, how):
    ty = I.p.types[t]
    if ty['k'] == 'closure':
        return ty['calls'][how]
    if ty['k'] == 'fndef':
        return ty['fn']
    if ty['k'] in ('ref', 'ptr'):
        return closure_key(I, ty['to'], how)
    raise Undecided('call of ' + ty['k'])


def callee(I, st, t, f, what):
    """the function to call for a callable value, and its environment"""
    ty = I.p.types[t]
    if ty['k'] == 'fndef':
        return ty['fn'], None
    if ty['k'] == 'closure':
        return ty['calls']['mut'], Ref(I.new_heap(st, f))
    if ty['k'] in ('ref', 'ptr'):
        # a callable behind references
        while I.p.types[ty['to']]['k'] in ('ref', 'ptr'):
            f, ty = I.load(st, f), I.p.types[ty['to']]
        to = I.p.types[ty['to']]
        if to['k'] == 'fndef':
            return to['fn'], None
        if to['k'] == 'closure':
            return to['calls']['mut'], f
    raise Undecided(what + ' callee')


def callargs(I, key, env, vals):
    """arguments for calling a closure/fn item: closure bodies take (env, a, b..)"""
    fn = I.p.fns[key]
    if env is None:
        return list(vals)
    return [env] + list(vals)


def it_fold(I, st, a, fn):
    it, acc, f = SIter.of(a[0]), a[1], a[2]
    key, env = callee(I, st, fn.targs[-1], f, 'fold')

    def go(I, st, acc, i):
        if i >= it.hi:
            return acc
        x = Ref(it.root, it.path + (i,))
        return Call(key, callargs(I, key, env, [acc, x]), lambda I, st, v: go(I, st, v, i + 1))
    return go(I, st, acc, it.lo)


def it_search(kind):
    """find, position, rposition, any, all, find_map, for_each: the closure is called element by element"""
    def native(I, st, a, fn):
        byref = kind not in ('for_each',)
        it = SIter.of(I.load(st, a[0]) if byref else a[0])
        key, env = callee(I, st, fn.targs[-1], a[1], kind)
        back = kind == 'rposition'

        def left(I, st, i):
            if byref:
                I.store(st, a[0], SIter(it.root, it.path, it.lo, i) if back else SIter(it.root, it.path, i + 1, it.hi))

        def go(I, st, i):
            if i >= it.hi or i < it.lo:
                if byref:
                    I.store(st, a[0], SIter(it.root, it.path, it.hi, it.hi))
                return {'any': False, 'all': True, 'for_each': ()}.get(kind, NONE)
            x = Ref(it.root, it.path + (i,))
            arg = Ref(I.new_heap(st, x)) if kind == 'find' else x

            def got(I, st, v):
                if kind == 'for_each':
                    return go(I, st, i + 1)
                if kind == 'find_map':
                    hit = v.var == 1 if isinstance(v, En) and isinstance(v.var, int) else None
                    if hit is None:
                        raise Undecided('find_map result')
                    if hit:
                        left(I, st, i)
                        return v
                    return go(I, st, i + 1)
                stop = I.choose(v)
                if kind == 'all':
                    stop = not stop
                if not stop:
                    return go(I, st, i - 1 if back else i + 1)
                left(I, st, i)
                return {'any': True, 'all': False, 'find': some(x)}.get(kind, some(i - it.lo))
            return Call(key, callargs(I, key, env, [arg]), got)
        return go(I, st, it.hi - 1 if back else it.lo)
    return native


# ---------------------------------------------------------------- Vec / String
def n_vec_with_capacity(I, st, a, fn):
    n = I.concrete(a[0])
    root = I.new_heap(st, (UNDEF,) * n)
    return VecV(root, 0, n)


def n_vec_new(I, st, a, fn):
    return VecV(I.new_heap(st, ()), 0, 0)


def as_vec(v):
    if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], (int, Lin)):
        b = v[0]
        while isinstance(b, tuple) and b:
            b = b[0]
        if type(b) is VecV:
            return VecV(b.root, v[1], b.cap)
    return v


def vec_of(I, st, r):
    v = as_vec(I.load(st, r))
    if type(v) is VecV and v.depth:
        v = VecV(v.root, v.len, v.cap)
    while isinstance(v, tuple) and len(v) == 1:
        v = v[0]
    if not isinstance(v, VecV):
        raise Undecided('vec %r' % (v,))
    return v


def store_vec(I, st, r, v):
    # (String is a newtype around Vec in rustc; both are represented by VecV itself)
    I.store(st, r, v)


def n_vec_set_len(I, st, a, fn):
    v = vec_of(I, st, a[0])
    n = I.concrete(a[1], 0, v.cap + 1, limit=300)
    if n > v.cap:
        raise PanicEx('undefined behaviour: set_len beyond capacity')
    store_vec(I, st, a[0], VecV(v.root, n, v.cap))
    return ()


def n_vec_as_slice(I, st, a, fn):
    v = vec_of(I, st, a[0])
    return Ref(v.root, (), (0, v.len))


def n_vec_len(I, st, a, fn):
    return vec_of(I, st, a[0]).len


def n_vec_push(I, st, a, fn):
    v = vec_of(I, st, a[0])
    arr = st.heap[v.root]
    st.heap[v.root] = arr[:v.len] + (a[1],) + arr[v.len + 1:]
    store_vec(I, st, a[0], VecV(v.root, v.len + 1, max(v.cap, v.len + 1)))
    return ()


def n_vec_truncate(I, st, a, fn):
    v = vec_of(I, st, a[0])
    n = I.concrete(a[1])
    if n < v.len:
        store_vec(I, st, a[0], VecV(v.root, n, v.cap))
    return ()


def n_vec_extend(I, st, a, fn):
    v = vec_of(I, st, a[0])
    x = load(I, st, a[1])
    arr = st.heap[v.root][:v.len] + tuple(x)
    st.heap[v.root] = arr
    store_vec(I, st, a[0], VecV(v.root, len(arr), max(v.cap, len(arr))))
    return ()


def n_string_push(I, st, a, fn):
    c = I.concrete(a[1], limit=200)
    if c > 127:
        raise Undecided('non-ascii push')
    return n_vec_push(I, st, [a[0], c], fn)


def n_to_vec(I, st, a, fn):
    x = load(I, st, a[0])
    return VecV(I.new_heap(st, tuple(x)), len(x), len(x))


def n_from_elem(I, st, a, fn):
    n = I.concrete(a[1], limit=300)
    return VecV(I.new_heap(st, (a[0],) * n), n, n)


def n_id(I, st, a, fn):
    return a[0]


def n_vec_clone(I, st, a, fn):
    v = vec_of(I, st, a[0])
    return VecV(I.new_heap(st, st.heap[v.root]), v.len, v.cap)


def n_deref_vec(I, st, a, fn):
    v = I.load(st, a[0])
    if isinstance(v, Opaque):
        return Ref(('k', 'empty'), (), (0, 0))
    v = vec_of(I, st, a[0])
    return Ref(v.root, (), (0, v.len))


def n_raw_with_capacity(I, st, a, fn):
    n = I.concrete(a[0], limit=300)
    return VecV(I.new_heap(st, (UNDEF,) * n), 0, n, 2)


def n_raw_reserve(I, st, a, fn):
    """do_reserve_and_handle(buf, len, additional) and Vec::reserve(vec, additional)"""
    v = as_vec(I.load(st, a[0]))
    if type(v) is not VecV:
        raise Undecided('reserve of %r' % (v,))
    n, more = (a[1], a[2]) if len(a) > 2 else (v.len, a[1])
    need = I.concrete(add(n, more), limit=300)
    if need > v.cap:
        cap = max(need, 2 * v.cap, 8)
        arr = st.heap[v.root]
        st.heap[v.root] = arr + (UNDEF,) * (cap - len(arr))
        I.store(st, a[0], VecV(v.root, v.len, cap, v.depth))
    return ()


def n_vec_insert(I, st, a, fn):
    v = vec_of(I, st, a[0])
    i = I.concrete(a[1])
    if i > v.len:
        raise PanicEx('insertion index (is %d) should be <= len (is %d)' % (i, v.len))
    arr = st.heap[v.root][:v.len]
    st.heap[v.root] = arr[:i] + (a[2],) + arr[i:]
    store_vec(I, st, a[0], VecV(v.root, v.len + 1, max(v.cap, v.len + 1)))
    return ()


def n_string_insert(I, st, a, fn):
    if not I.choose(lt(a[2], 128)):
        raise Undecided('non-ascii insert')
    return n_vec_insert(I, st, a, fn)


def n_vec_remove(I, st, a, fn):
    v = vec_of(I, st, a[0])
    i = I.concrete(a[1])
    if i >= v.len:
        raise PanicEx('removal index (is %d) should be < len (is %d)' % (i, v.len))
    arr = st.heap[v.root][:v.len]
    st.heap[v.root] = arr[:i] + arr[i + 1:]
    store_vec(I, st, a[0], VecV(v.root, v.len - 1, v.cap))
    return arr[i]


def n_vec_pop(I, st, a, fn):
    v = vec_of(I, st, a[0])
    if v.len == 0:
        return NONE
    store_vec(I, st, a[0], VecV(v.root, v.len - 1, v.cap))
    return some(st.heap[v.root][v.len - 1])


def n_vec_resize(I, st, a, fn):
    v = vec_of(I, st, a[0])
    n = I.concrete(a[1], limit=300)
    arr = st.heap[v.root][:v.len]
    st.heap[v.root] = arr[:n] + (a[2],) * max(0, n - len(arr))
    store_vec(I, st, a[0], VecV(v.root, n, max(v.cap, n)))
    return ()


def n_vec_clear(I, st, a, fn):
    v = vec_of(I, st, a[0])
    store_vec(I, st, a[0], VecV(v.root, 0, v.cap))
    return ()


def n_box_uninit(I, st, a, fn):
    return Ref(I.new_heap(st, I.undef_of(fn.targs[0]) if fn.targs and isinstance(fn.targs[0], int) else UNDEF))


def n_string_pop(I, st, a, fn):
    v = vec_of(I, st, a[0])
    if v.len:
        ascii_char(I, st.heap[v.root][v.len - 1], 'pop')
    return n_vec_pop(I, st, a, fn)


def n_sign_neg(I, st, a, fn):
    x = a[0]
    if isinstance(x, float):
        return math.copysign(1.0, x) < 0
    if I.choose(I.fcmp('Lt', x, 0.0)):
        return True
    if x.err == 0 and isinstance(x.lin, Lin) and x.lin.isint and x.uid and x.uid[0] == 'exact' and I.choose(ne(x.lin, 0)):
        return False
    if I.choose(I.fcmp('Gt', x, 0.0)):
        return False
    raise Undecided('sign of zero')


def n_fma(I, st, a, fn):
    r = I.fbin('Add', I.fbin('Mul', a[0], a[1]), a[2])
    if isinstance(r, float):
        if all(isinstance(x, float) and x == int(x) and abs(x) < 2 ** 24 for x in a):
            return r
        raise Undecided('mul_add')
    return Flt(r.lin, r.err)


def n_box_into_vec(I, st, a, fn):
    b = a[0]
    while isinstance(b, tuple) and b:
        b = b[0]
    if not isinstance(b, Ref):
        raise Undecided('box %r' % (b,))
    x = I.load(st, b)
    if not isinstance(x, tuple):
        raise Undecided('box content %r' % (x,))
    return VecV(I.new_heap(st, x), len(x), len(x))


# ---------------------------------------------------------------- str
def ascii_char(I, c, what):
    """a char value, which the models of str treat as one byte"""
    if not I.choose(lt(c, 128)):
        raise Undecided(what + ' of a non-ASCII character')
    return c


def pattern(I, st, a, fn, k=0):
    """a str pattern: ('bytes', bytes) or ('pred', f) with f(I, st, byte, then)"""
    t = I.p.types[fn.targs[k]]
    x = a
    while t['k'] == 'ref' and I.p.types[t['to']]['k'] in ('ref', 'char') and isinstance(x, Ref):
        x = I.load(st, x)
        t = I.p.types[t['to']]
    if t['k'] == 'char':
        return 'bytes', (ascii_char(I, x, 'pattern'),)
    if t['k'] == 'ref' and I.p.types[t['to']]['k'] == 'str':
        return 'bytes', load(I, st, x)
    if t['k'] == 'closure':
        return 'fn', (closure_key(I, fn.targs[k], 'mut'), Ref(I.new_heap(st, x)))
    if t['k'] == 'fndef':
        return 'fn', (t['fn'], None)
    if t['k'] == 'array' or t['k'] == 'ref' and I.p.types[t['to']]['k'] in ('array', 'slice'):
        v = load(I, st, x) if isinstance(x, Ref) else x
        return 'set', tuple(v)
    raise Undecided('pattern %s' % t)


def ascii_all(I, bs):
    for c in bs:
        if c is UNDEF:
            raise Undecided('read of uninitialised value')
        if not I.choose(lt(c, 128)):
            raise Undecided('non-ASCII text')


def match_at(I, st, kind, p, s, i, then):
    """does the pattern match s at i; then(I, st, length or None)"""
    if kind == 'bytes':
        n = len(p)
        ok = i + n <= len(s) and I.choose(and_(*[eq(x, y) for x, y in zip(s[i:i + n], p)]))
        return then(I, st, n if ok else None)
    if i >= len(s):
        return then(I, st, None)
    if kind == 'set':
        return then(I, st, 1 if I.choose(or_(*[eq(s[i], y) for y in p])) else None)
    key, env = p
    return Call(key, callargs(I, key, env, [s[i]]), lambda I, st, v: then(I, st, 1 if I.choose(v) else None))


def n_str_search(what):
    def g(I, st, a, fn):
        s = load(I, st, a[0])
        kind, p = pattern(I, st, a[1], fn)
        if kind != 'bytes':
            ascii_all(I, s)
        start, n = slice_win(I, st, a[0])

        def sub_(lo, hi):
            return Ref(a[0].root, a[0].path, (start + lo, hi - lo))
        if what in ('starts_with', 'strip_prefix'):
            return match_at(I, st, kind, p, s, 0, lambda I, st, m: (m is not None) if what == 'starts_with' else NONE if m is None else some(sub_(m, n)))
        if what in ('ends_with', 'strip_suffix'):
            k = n - (len(p) if kind == 'bytes' else 1)
            if k < 0:
                return False if what == 'ends_with' else NONE
            return match_at(I, st, kind, p, s, k, lambda I, st, m: (m is not None) if what == 'ends_with' else NONE if m is None else some(sub_(0, k)))
        back = what in ('rfind', 'rsplit_once')

        def go(I, st, i):
            if not 0 <= i <= len(s):
                return False if what == 'contains' else NONE

            def got(I, st, m):
                if m is None:
                    return go(I, st, i - 1 if back else i + 1)
                if what == 'contains':
                    return True
                if what in ('find', 'rfind'):
                    return some(i)
                return some((sub_(0, i), sub_(i + m, n)))
            return match_at(I, st, kind, p, s, i, got)
        return go(I, st, len(s) if back else 0)
    return g


def n_str_trim(left, right, pat=False):
    def g(I, st, a, fn):
        s = load(I, st, a[0])
        ascii_all(I, s)
        start, n = slice_win(I, st, a[0])
        if pat:
            kind, p = pattern(I, st, a[1], fn)
            if kind == 'bytes' and len(p) != 1:
                raise Undecided('trim of a string pattern')
            if kind == 'fn':
                raise Undecided('trim by predicate')
            hit = lambda c: I.choose(or_(*[eq(c, y) for y in p]))
        else:
            ws = [(9, 13), (32, 32)]
            if pat is None:                 # ascii
                ws = ASCII_CLASS['is_ascii_whitespace']
            hit = lambda c: I.choose(in_class(I, c, ws))
        lo, hi = 0, n
        while left and lo < hi and hit(s[lo]):
            lo += 1
        while right and lo < hi and hit(s[hi - 1]):
            hi -= 1
        return Ref(a[0].root, a[0].path, (start + lo, hi - lo))
    return g


def n_from_utf8(I, st, a, fn):
    s = load(I, st, a[0])
    ascii_all(I, s)
    return En(0, (a[0],))


def n_str_parse(I, st, a, fn):
    t = I.p.types[fn.targs[0]]
    if t['k'] != 'int':
        raise Undecided('parse of ' + str(t))
    lo, hi = I.p.crange[fn.targs[0]]
    s = load(I, st, a[0])
    err = lambda k: En(1, ((En(k, ()),),))
    if not s:
        return err(0)
    sign = 1
    if I.choose(or_(eq(s[0], 43), and_(eq(s[0], 45), lo < 0))):
        if len(s) == 1:
            return err(1)
        sign = 1 if I.choose(eq(s[0], 43)) else -1
        s = s[1:]
    v, over = 0, None
    for c in s:
        if not I.choose(in_class(I, c, [(48, 57)])):
            return err(1) if over is None else err(over)
        if over is None:
            v = add(mul(v, 10), mul(sub(c, 48), sign))
            if not I.choose(le(v, hi)):
                over = 2
            elif not I.choose(ge(v, lo)):
                over = 3
    return En(0, (v,)) if over is None else err(over)


def n_str_index(kind):
    """slicing of a str: char boundaries hold for ASCII text"""
    f = n_index(kind)

    def g(I, st, a, fn):
        ascii_all(I, load(I, st, a[0]))
        return f(I, st, a, fn)
    return g


def n_str_get(I, st, a, fn):
    ascii_all(I, load(I, st, a[0]))
    s, n = slice_win(I, st, a[0])
    t = I.p.types[fn.targs[0]].get('name', '')
    x = a[1]
    m = re.match(r'std::ops::(\w+)', t)
    kind = m.group(1) if m else ''
    if kind == 'Range':
        lo, hi = x
    elif kind == 'RangeFrom':
        lo, hi = x[0], n
    elif kind == 'RangeTo':
        lo, hi = 0, x[0]
    else:
        raise Undecided('str::get ' + t)
    lo, hi = I.concrete(lo), I.concrete(hi)
    if lo > hi or hi > n:
        return NONE
    return some(Ref(a[0].root, a[0].path, (s + lo, hi - lo)))


def n_char_boundary(I, st, a, fn):
    s = load(I, st, a[0])
    ascii_all(I, s)
    return le(a[1], len(s))


def n_str_chars(I, st, a, fn):
    """Bytes / Chars over ASCII text: an iterator over the bytes"""
    ascii_all(I, load(I, st, a[0])) if 'chars' in fn.name else None
    return ('striter', n_iter(I, st, a, fn))


def str_it(fun, val=True):
    """next / next_back / .. of Bytes and Chars: elements by value"""
    def g(I, st, a, fn):
        v = I.load(st, a[0])
        if not (isinstance(v, tuple) and v and v[0] == 'striter'):
            raise Undecided('iterator %r' % (v,))
        it = v[1]
        lo, hi, back = it.lo, it.hi, fun == 'next_back'
        if fun == 'nth':
            lo = min(hi, lo + I.concrete(a[1]))
        if lo >= hi:
            I.store(st, a[0], ('striter', SIter(it.root, it.path, hi, hi)))
            return NONE
        i = hi - 1 if back else lo
        I.store(st, a[0], ('striter', SIter(it.root, it.path, lo if back else lo + 1, hi - 1 if back else hi)))
        return some(I.getpath(st, it.root, it.path + (i,)))
    return g


def str_it_hint(I, st, a, fn):
    it = I.load(st, a[0])[1]
    return (it.hi - it.lo, some(it.hi - it.lo))


# ---------------------------------------------------------------- fmt, panics, misc
def n_opaque(what):
    return lambda I, st, a, fn: Opaque(what)


def n_panic(I, st, a, fn):
    msg = fn.name
    for x in a:
        if isinstance(x, Ref) and x.win is not None:
            try:
                v = I.load(st, x)
                msg = bytes(v).decode()
            except Exception:
                pass
    raise PanicEx(msg)


def n_unit(I, st, a, fn):
    return ()


def n_round(mode):
    return lambda I, st, a, fn: I.float_round(a[0], mode)


def n_fabs(I, st, a, fn):
    x = a[0]
    if isinstance(x, float):
        return abs(x)
    if x.err == 0:
        if I.choose(ge(x.lin, 0)):
            return x
        return Flt(neg(x.lin), x.err)
    if x.one:
        # rounding keeps the sign
        return x if I.choose(ge(x.lin, 0)) else Flt(neg(x.lin), x.err, True)
    if I.choose(ge(x.lin, x.err)):
        return x
    if I.choose(le(x.lin, -x.err)):
        return Flt(neg(x.lin), x.err)
    return Flt(ite(ge(x.lin, 0), x.lin, neg(x.lin)), 2 * x.err)


def n_isnan(I, st, a, fn):
    return a[0] != a[0] if isinstance(a[0], float) else False


def n_isinf(I, st, a, fn):
    return a[0] in (float('inf'), float('-inf')) if isinstance(a[0], float) else False


def n_isfinite(I, st, a, fn):
    return math.isfinite(a[0]) if isinstance(a[0], float) else True


def n_ptr_offset(I, st, a, fn):
    x, y = a
    if isinstance(x, Ref) and isinstance(y, Ref) and x.root == y.root and x.path[:-1] == y.path[:-1] and x.path and y.path:
        return sub(x.path[-1], y.path[-1])
    raise Undecided('ptr_offset')


# ---------------------------------------------------------------- thread locals
def n_local_with(I, st, a, fn):
    key = a[0]
    if not isinstance(key, Ref):
        raise Undecided('LocalKey')
    v = I.load(st, key)
    ident = repr(v)
    root = ('h', 'tls:' + ident)
    if root not in st.heap:
        init = st.ghost.get('tls')
        # RefCell<T> as (borrow, (T,)): only reached through the borrow natives below
        t = I.p.types[fn.targs[0]] if fn.targs and isinstance(fn.targs[0], int) else None
        st.heap[root] = ('refcell', init(I, st, fn, ident) if init else default_tls(I, fn))
    fty = fn.targs[1]
    ckey = closure_key(I, fty, 'once')
    return Call(ckey, [a[1], Ref(root)], lambda I, st, v: v)


def default_tls(I, fn):
    # RefCell<[Option<&T>; N]>: all None
    t = I.p.types[fn.targs[0]]
    m = re.search(r'; (\d+)\]', t.get('name', ''))
    if m and 'Option' in t.get('name', ''):
        return (NONE,) * int(m.group(1))
    raise Undecided('thread-local of type %s' % t.get('name'))


def n_borrow(I, st, a, fn):
    r = a[0]
    return ('refmut', Ref(r.root, r.path + (1,)))


def n_refmut_deref(I, st, a, fn):
    v = I.load(st, a[0])
    if isinstance(v, tuple) and len(v) == 2 and v[0] == 'refmut':
        return v[1]
    raise Undecided('RefMut')


# ---------------------------------------------------------------- more intrinsics
def int_ty(I, fn):
    ty = I.p.types[fn.targs[0]]
    if ty['k'] != 'int':
        raise Undecided('%s of %s' % (fn.name, ty.get('name', ty['k'])))
    return ty['bits'], ty['signed']


def n_imin(I, st, a, fn):
    need_int(*a)
    return a[0] if I.choose(le(a[0], a[1])) else a[1]


def n_imax(I, st, a, fn):
    need_int(*a)
    return a[1] if I.choose(le(a[0], a[1])) else a[0]


def unsigned(I, x, bits):
    return x if I.choose(ge(x, 0)) else add(x, 1 << bits)


def n_rotate(left):
    def g(I, st, a, fn):
        need_int(*a)
        bits, signed = int_ty(I, fn)
        k = I.concrete(a[1]) % bits
        if not left:
            k = (bits - k) % bits
        x = unsigned(I, a[0], bits)
        r = add(mul(fmod(x, 1 << (bits - k), I.ctx), 1 << k), fdiv(x, 1 << (bits - k), I.ctx))
        if signed and not I.choose(lt(r, 1 << (bits - 1))):
            r = sub(r, 1 << bits)
        return r
    return g


def n_ctlz(I, st, a, fn):
    need_int(*a)
    bits, _ = int_ty(I, fn)
    x = unsigned(I, a[0], bits)
    for k in range(bits):
        if I.choose(lt(x, 1 << k)):
            return bits - k
    return 0


def n_cttz(I, st, a, fn):
    need_int(*a)
    bits, _ = int_ty(I, fn)
    x = unsigned(I, a[0], bits)
    if I.choose(eq(x, 0)):
        return bits
    for k in range(1, bits + 1):
        if not I.choose(eq(fmod(x, 1 << k, I.ctx), 0)):
            return k - 1
    raise Undecided('cttz')


def n_popcount(I, st, a, fn):
    need_int(*a)
    bits, _ = int_ty(I, fn)
    x = unsigned(I, a[0], bits)
    r = 0
    for k in range(bits):
        r = add(r, fmod(fdiv(x, 1 << k, I.ctx), 2, I.ctx))
    return r


def deep_eq(I, x, y):
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return and_(*[deep_eq(I, p, q) for p, q in zip(x, y)])
    if isinstance(x, En) and isinstance(y, En) and isinstance(x.var, int) and isinstance(y.var, int):
        return x.var == y.var and deep_eq(I, x.f, y.f)
    if isinstance(x, (bool, B)) and isinstance(y, (bool, B)):
        return not_(xor(x, y))
    return val_eq(I, x, y)


def load_as(I, st, r, t):
    """the value of type t a reference points to (an array reference may point at its first element)"""
    ty = I.p.types[t]
    v = load(I, st, r)
    if ty['k'] == 'array' and not isinstance(v, tuple):
        _, s, arr = ptr_window(I, st, r, ty['len'])
        return arr[s:s + ty['len']]
    return v


def n_raw_eq(I, st, a, fn):
    return deep_eq(I, load_as(I, st, a[0], fn.targs[0]), load_as(I, st, a[1], fn.targs[0]))


def ptr_window(I, st, r, n):
    """(array reference, start) of n elements at a raw element pointer"""
    if not isinstance(r, Ref):
        raise Undecided('pointer %r' % (r,))
    if r.win is not None:
        root, path, s, have = r.root, r.path, r.win[0], None
    elif r.path:
        root, path, s = r.root, r.path[:-1], r.path[-1]
    else:
        raise Undecided('pointer to a whole object')
    s = I.concrete(s)
    arr = I.getpath(st, root, path)
    if not isinstance(arr, tuple):
        raise Undecided('pointer into %r' % (arr,))
    if n and s + n > len(arr):
        raise PanicEx('undefined behaviour: memory access beyond the end of an object')
    return Ref(root, path), s, arr


def n_compare_bytes(I, st, a, fn):
    n = I.concrete(a[2])
    if n == 0:
        return 0
    (_, s1, x), (_, s2, y) = ptr_window(I, st, a[0], n), ptr_window(I, st, a[1], n)
    for p, q in zip(x[s1:s1 + n], y[s2:s2 + n]):
        if I.choose(val_eq(I, p, q)):
            continue
        return -1 if I.choose(lt(p, q)) else 1
    return 0


def n_copy(I, st, a, fn):
    n = I.concrete(a[2])
    if n == 0:
        return ()
    if n == 1 and isinstance(a[0], Ref) and isinstance(a[1], Ref) and a[0].win is None and a[1].win is None:
        I.store(st, a[1], I.load(st, a[0]))
        return ()
    _, s1, x = ptr_window(I, st, a[0], n)
    d, s2, y = ptr_window(I, st, a[1], n)
    I.store(st, d, y[:s2] + x[s1:s1 + n] + y[s2 + n:])
    return ()


def n_typed_swap(I, st, a, fn):
    x, y = I.load(st, a[0]), I.load(st, a[1])
    I.store(st, a[0], y)
    I.store(st, a[1], x)
    return ()


def n_size_of_val(I, st, a, fn):
    ty = I.p.types[fn.targs[0]]
    if ty['k'] in ('int', 'float'):
        return ty['bits'] // 8
    if ty['k'] == 'bool':
        return 1
    raise Undecided('size of ' + str(ty.get('name', ty['k'])))


def n_fminmax(lo):
    def g(I, st, a, fn):
        x, y = a
        for p, q in ((x, y), (y, x)):
            if isinstance(p, float) and p != p:
                return q
        if lo:
            return x if I.choose(I.fcmp('Le', x, y)) else y
        return y if I.choose(I.fcmp('Le', x, y)) else x
    return g


def n_copysign(I, st, a, fn):
    x, y = a
    m = n_fabs(I, st, [x], fn)
    if isinstance(y, float):
        negative = math.copysign(1.0, y) < 0
    elif y.err == 0:
        negative = I.choose(lt(y.lin, 0))
    else:
        negative = I.choose(I.fcmp('Lt', y, 0.0))
    return I.fneg(m) if negative else m


def n_powi(I, st, a, fn):
    n = I.concrete(a[1])
    if isinstance(a[0], float) and a[0] in (10.0, 2.0, -10.0, -2.0, 1.0, 0.0) and 0 <= n <= 15:
        return a[0] ** n           # exact
    if n == 1:
        return a[0]
    raise Undecided('powi')


def n_three_way(I, st, a, fn):
    if I.choose(lt(a[0], a[1])):
        return I.ordering(-1)
    return I.ordering(0 if I.choose(eq(a[0], a[1])) else 1)


def n_exact_div(I, st, a, fn):
    return I.tdiv(a[0], a[1])


def n_write_bytes(I, st, a, fn):
    n = I.concrete(a[2])
    if n == 0:
        return ()
    d, s, y = ptr_window(I, st, a[0], n)
    I.store(st, d, y[:s] + (a[1],) * n + y[s + n:])
    return ()


EXACT = {
    'alloc::raw_vec::RawVecInner::with_capacity_in': n_raw_with_capacity,
    'alloc::raw_vec::RawVecInner::reserve::do_reserve_and_handle': n_raw_reserve,
    'std::vec::Vec::reserve': n_raw_reserve,
    'std::vec::Vec::reserve_exact': n_raw_reserve,
    'std::string::String::reserve': n_raw_reserve,
    'std::vec::Vec::insert': n_vec_insert,
    'std::string::String::insert': n_string_insert,
    'std::vec::Vec::remove': n_vec_remove,
    'std::vec::Vec::pop': n_vec_pop,
    'std::vec::Vec::resize': n_vec_resize,
    'std::vec::Vec::clear': n_vec_clear,
    'std::string::String::clear': n_vec_clear,
    'std::string::String::truncate': n_vec_truncate,
    'std::vec::Vec::is_empty': lambda I, st, a, fn: vec_of(I, st, a[0]).len == 0,
    'std::string::String::is_empty': lambda I, st, a, fn: vec_of(I, st, a[0]).len == 0,
    'std::vec::Vec::capacity': lambda I, st, a, fn: vec_of(I, st, a[0]).cap,
    'std::string::String::capacity': lambda I, st, a, fn: vec_of(I, st, a[0]).cap,
    'std::boxed::box_new_uninit': n_box_uninit,
    'std::boxed::Box::new_uninit': n_box_uninit,
    'std::string::String::pop': n_string_pop,
    'std::vec::Vec::append_elements': n_vec_extend,
    'core::f64::<impl f64>::is_sign_negative': n_sign_neg,
    'std::intrinsics::fma': n_fma,
    'std::boxed::Box::new': lambda I, st, a, fn: Ref(I.new_heap(st, a[0])),
    'std::boxed::box_assume_init_into_vec_unsafe': n_box_into_vec,
    'std::slice::<impl [T]>::into_vec': n_box_into_vec,
    'std::slice::<impl [u8]>::into_vec': n_box_into_vec,
    'core::str::<impl str>::starts_with': n_str_search('starts_with'),
    'core::str::<impl str>::ends_with': n_str_search('ends_with'),
    'core::str::<impl str>::strip_prefix': n_str_search('strip_prefix'),
    'core::str::<impl str>::strip_suffix': n_str_search('strip_suffix'),
    'core::str::<impl str>::contains': n_str_search('contains'),
    'core::str::<impl str>::find': n_str_search('find'),
    'core::str::<impl str>::rfind': n_str_search('rfind'),
    'core::str::<impl str>::split_once': n_str_search('split_once'),
    'core::str::<impl str>::rsplit_once': n_str_search('rsplit_once'),
    'core::str::<impl str>::trim': n_str_trim(True, True),
    'core::str::<impl str>::trim_start': n_str_trim(True, False),
    'core::str::<impl str>::trim_end': n_str_trim(False, True),
    'core::str::<impl str>::trim_ascii': n_str_trim(True, True, None),
    'core::str::<impl str>::trim_matches': n_str_trim(True, True, True),
    'core::str::<impl str>::trim_start_matches': n_str_trim(True, False, True),
    'core::str::<impl str>::trim_end_matches': n_str_trim(False, True, True),
    'core::str::<impl str>::parse': n_str_parse,
    'core::str::<impl str>::get': n_str_get,
    'core::str::<impl str>::is_char_boundary': n_char_boundary,
    'core::str::<impl str>::bytes': n_str_chars,
    'core::str::<impl str>::chars': n_str_chars,
    'core::str::<impl str>::eq_ignore_ascii_case': n_eq_ignore_case,
    'core::str::<impl str>::make_ascii_lowercase': n_make_lower,
    'std::str::<impl str>::to_ascii_lowercase': n_to_lower,
    'std::str::<impl str>::to_lowercase': lambda I, st, a, fn: (ascii_all(I, load(I, st, a[0])), n_to_lower(I, st, a, fn))[1],
    'std::str::from_utf8': n_from_utf8,
    'core::str::from_utf8': n_from_utf8,
    'std::str::from_utf8_unchecked': n_id,
    'core::str::from_utf8_unchecked': n_id,
    'std::string::String::from_utf8': lambda I, st, a, fn: (ascii_all(I, st.heap[a[0].root][:a[0].len]), En(0, (a[0],)))[1],
    'std::intrinsics::integer_min': n_imin,
    'std::intrinsics::integer_max': n_imax,
    'std::intrinsics::rotate_left': n_rotate(True),
    'std::intrinsics::rotate_right': n_rotate(False),
    'std::intrinsics::ctlz': n_ctlz,
    'std::intrinsics::ctlz_nonzero': n_ctlz,
    'std::intrinsics::cttz': n_cttz,
    'std::intrinsics::cttz_nonzero': n_cttz,
    'std::intrinsics::raw_eq': n_raw_eq,
    'std::intrinsics::compare_bytes': n_compare_bytes,
    'std::intrinsics::copy': n_copy,
    'std::intrinsics::copy_nonoverlapping': n_copy,
    'std::intrinsics::write_bytes': n_write_bytes,
    'std::intrinsics::typed_swap_nonoverlapping': n_typed_swap,
    'std::intrinsics::size_of_val': n_size_of_val,
    'std::intrinsics::minimum_number_nsz_f64': n_fminmax(True),
    'std::intrinsics::maximum_number_nsz_f64': n_fminmax(False),
    'std::intrinsics::minimum_number_nsz_f32': n_fminmax(True),
    'std::intrinsics::maximum_number_nsz_f32': n_fminmax(False),
    'std::intrinsics::copysignf64': n_copysign,
    'std::intrinsics::powi': n_powi,
    'std::intrinsics::round_ties_even': n_round('even'),
    'std::intrinsics::three_way_compare': n_three_way,
    'std::intrinsics::exact_div': n_exact_div,
    'core::panicking::panic': n_panic,
    'core::panicking::panic_fmt': n_panic,
    'std::rt::panic_fmt': n_panic,
    'std::rt::begin_panic': n_panic,
    'core::panicking::panic_display': n_panic,
    'core::panicking::panic_nounwind': n_panic,
    'core::panicking::panic_nounwind_fmt': n_panic,
    'core::panicking::assert_failed': n_panic,
    'std::option::unwrap_failed': n_panic,
    'std::option::expect_failed': n_panic,
    'std::result::unwrap_failed': n_panic,
    'std::result::unwrap_failed::unwrap_failed_inner': n_panic,
    'std::cell::panic_already_borrowed': n_panic,
    'core::slice::index::slice_index_fail': n_panic,
    'core::slice::copy_from_slice_impl::len_mismatch_fail': n_panic,
    'core::num::imp::overflow_panic::pow': n_panic,
    'std::fmt::format': n_opaque('string'),
    'std::hint::must_use': n_id,
    'std::hint::select_unpredictable': lambda I, st, a, fn: a[1] if I.choose(a[0]) else a[2],
    'core::str::<impl str>::as_bytes': n_id,
    'core::str::<impl str>::len': lambda I, st, a, fn: slice_win(I, st, a[0])[1],
    'core::str::<impl str>::is_empty': lambda I, st, a, fn: slice_win(I, st, a[0])[1] == 0,
    'core::str::<impl str>::as_bytes_mut': n_id,
    'std::string::String::from_utf8_unchecked': n_id,
    'std::string::String::as_bytes': n_deref_vec,
    'std::string::String::as_str': n_deref_vec,
    'std::string::String::into_bytes': n_id,
    'std::string::String::push_str': n_vec_extend,
    'std::string::String::push': n_string_push,
    'std::string::String::new': n_vec_new,
    'std::string::String::with_capacity': n_vec_with_capacity,
    'std::string::String::len': n_vec_len,
    'std::string::String::as_mut_vec': n_id,
    'std::vec::Vec::with_capacity': n_vec_with_capacity,
    'std::vec::Vec::new': n_vec_new,
    'std::vec::Vec::set_len': n_vec_set_len,
    'std::vec::Vec::as_mut_slice': n_vec_as_slice,
    'std::vec::Vec::as_slice': n_vec_as_slice,
    'std::vec::Vec::len': n_vec_len,
    'std::vec::Vec::push': n_vec_push,
    'std::vec::Vec::truncate': n_vec_truncate,
    'std::vec::Vec::extend_from_slice': n_vec_extend,
    'std::vec::from_elem': n_from_elem,
    'std::slice::<impl [T]>::to_vec': n_to_vec,
    'std::slice::<impl [u8]>::to_vec': n_to_vec,
    'std::slice::<impl [u8]>::to_ascii_lowercase': n_to_lower,
    'core::slice::ascii::<impl [u8]>::make_ascii_lowercase': n_make_lower,
    'core::slice::ascii::<impl [u8]>::eq_ignore_ascii_case': n_eq_ignore_case,
    'core::f64::<impl f64>::abs': n_fabs,
    'core::f64::<impl f64>::is_nan': n_isnan,
    'core::f64::<impl f64>::is_infinite': n_isinf,
    'core::f64::<impl f64>::is_finite': n_isfinite,
    'std::f64::<impl f64>::round': n_round('round'),
    'std::f64::<impl f64>::floor': n_round('floor'),
    'std::f64::<impl f64>::ceil': n_round('ceil'),
    'std::f64::<impl f64>::trunc': n_round('trunc'),
    'std::f64::<impl f64>::abs': n_fabs,
    'core::f64::math::round': n_round('round'),
    'core::f64::math::floor': n_round('floor'),
    'core::f64::math::ceil': n_round('ceil'),
    'core::f64::math::trunc': n_round('trunc'),
    'std::intrinsics::fabs': n_fabs,
    'std::intrinsics::round': n_round('round'),
    'std::intrinsics::floor': n_round('floor'),
    'std::intrinsics::ceil': n_round('ceil'),
    'std::intrinsics::trunc': n_round('trunc'),
    'std::intrinsics::ctpop': n_popcount,
    'std::intrinsics::assert_inhabited': n_unit,
    'std::intrinsics::cold_path': n_unit,
    'std::intrinsics::is_val_statically_known': lambda I, st, a, fn: False,
    'std::intrinsics::ptr_offset_from_unsigned': n_ptr_offset,
    'std::intrinsics::black_box': n_id,
    'std::thread::LocalKey::with': n_local_with,
    'std::cell::RefCell::borrow_mut': n_borrow,
    'std::cell::RefCell::borrow': n_borrow,
    'std::mem::MaybeUninit::uninit': lambda I, st, a, fn: uninit(I, fn),
    'std::mem::MaybeUninit::assume_init': n_id,
}


def uninit(I, fn):
    t = fn.targs[0]
    return I.undef_of(t)


SLICE = {'len': lambda I, st, a, fn: slice_win(I, st, a[0])[1],
         'is_empty': lambda I, st, a, fn: slice_win(I, st, a[0])[1] == 0,
         'iter': n_iter, 'iter_mut': n_iter, 'first': n_first, 'last': n_last, 'copy_from_slice': n_copy_from_slice,
         'clone_from_slice': n_copy_from_slice,
         'swap': n_swap, 'reverse': n_reverse, 'fill': n_fill, 'split_at': n_split_at, 'split_at_mut': n_split_at,
         'get': n_get, 'get_mut': n_get, 'starts_with': n_starts_with, 'ends_with': n_ends_with, 'contains': n_contains,
         'to_vec': n_to_vec}

RX_NUM = re.compile(r'core::num::<impl (\w+)>::(\w+)$')
RX_SLICE = re.compile(r'core::slice::<impl \[.*\]>::(\w+)$')
RX_IDX = re.compile(r'core::slice::index::<impl std::ops::Index(Mut)?<std::ops::(\w+)(?:<usize>)?> for \[.*\]>::index(_mut)?$')
RX_ITER = re.compile(r"<std::slice::Iter(Mut)?<'_, .*> as std::iter::(\w+)>::(\w+)$")
RX_ITCLONE = re.compile(r"<std::slice::Iter<'_, .*> as std::clone::Clone>::clone$")
RX_FMT = re.compile(r'(core::fmt::rt::Argument::|std::fmt::Arguments::|core::fmt::rt::)')


CTORS = {'std::option::Option::Some': lambda I, st, a, fn: some(a[0]), 'std::result::Result::Ok': lambda I, st, a, fn: En(0, (a[0],)),
         'std::result::Result::Err': lambda I, st, a, fn: En(1, (a[0],))}


def lookup(fn):
    n = strip(fn.name)
    if n in EXACT:
        return EXACT[n]
    m = RX_NUM.match(n)
    if m:
        return num_native(m.group(1), m.group(2))
    if n in CTORS:
        return CTORS[n]
    if n.endswith('::precondition_check'):
        return n_unit
    m = RX_SLICE.match(n)
    if m and m.group(1) in SLICE and 'closure' not in n:
        return SLICE[m.group(1)]
    m = RX_IDX.match(n)
    if m:
        return n_index(m.group(2))
    m = re.match(r"^<?core::slice::cmp::<impl std::cmp::PartialEq(<.*>)? for \[u8\]>::eq$", n)
    if m or n == 'core::str::traits::<impl std::cmp::PartialEq for str>::eq':
        return n_slice_eq
    if n in ('core::slice::cmp::<impl std::cmp::Ord for [u8]>::cmp', '<u8 as core::slice::cmp::SliceOrd>::compare'):
        return n_slice_cmp
    m = RX_ITER.match(n)
    if m and n.count(' as ') == 1:
        k = m.group(3)
        d = {'next': it_next, 'next_back': it_next_back, 'nth': it_nth, 'size_hint': it_size_hint, 'len': it_len,
             '__iterator_get_unchecked': it_get_unchecked, 'count': it_count, 'into_iter': n_id, 'fold': it_fold}
        g = re.search(r'::(find|find_map|position|rposition|any|all|for_each)(::<.*>)?$', n)
        if g:
            return it_search(g.group(1))
        if k in d:
            return d[k]
        return None
    m = re.match(r"<std::str::(Bytes|Chars)<'_> as std::iter::(\w+)>::(next|next_back|nth|size_hint|into_iter)$", n)
    if m:
        k = m.group(3)
        return str_it_hint if k == 'size_hint' else n_id if k == 'into_iter' else str_it(k)
    m = re.match(r"core::str::traits::<impl std::ops::Index(?:Mut)?<std::ops::(\w+)(?:<usize>)?> for str>::index(?:_mut)?$", n)
    if m:
        return n_str_index(m.group(1))
    if RX_ITCLONE.match(n) and n.count(' as ') == 1:
        return it_clone
    if re.match(r"std::slice::Iter(Mut)?::new$", n):
        return n_iter
    if re.match(r"std::slice::Iter(Mut)?::as_slice$", n):
        return it_as_slice
    if RX_FMT.match(n):
        return n_opaque('fmt')
    if re.match(r"<std::cell::Ref(Mut)?<'_, .*> as std::ops::Deref(Mut)?>::deref(_mut)?$", n):
        return n_refmut_deref
    if re.match(r'<std::(vec::Vec<u8>|string::String) as (std::ops::Deref(Mut)?>::deref(_mut)?|std::convert::AsRef<.*>>::as_ref|std::borrow::Borrow<.*>>::borrow)$', n):
        return n_deref_vec
    if n in ('<&[u8] as std::convert::Into<std::vec::Vec<u8>>>::into', '<std::vec::Vec<u8> as std::convert::From<&[u8]>>::from',
             '<str as std::string::ToString>::to_string', '<std::string::String as std::convert::From<&str>>::from',
             '<str as std::borrow::ToOwned>::to_owned', '<[u8] as std::borrow::ToOwned>::to_owned',
             'std::str::<impl str>::to_owned', 'std::str::<impl std::borrow::ToOwned for str>::to_owned'):
        return n_to_vec
    if n == '<std::vec::Vec<u8> as std::clone::Clone>::clone' or n == '<std::string::String as std::clone::Clone>::clone':
        return n_vec_clone
    if n == '<std::vec::Vec<u8> as std::convert::Into<std::vec::Vec<u8>>>::into':
        return n_id
    return None
