"""Proof obligations, their discharge, and the judgement of counterexamples on the compiled code."""
import json, os, random, signal, sys, time, traceback, subprocess, pickle, select
from fractions import Fraction
from . import terms as T
from .terms import *
from .interp import *
from . import natives
from .spec import Iv, DATE_MIN, DATE_MAX, TS_MIN, TS_MAX, DAY, EPOCH, jdn
import z3


# ------------------------------------------------------------------ evaluation modes
class SymK:
    """proof mode"""
    sym = True

    def __init__(self, I):
        self.I, self.ctx = I, I.ctx

    def choose(self, b):
        return self.I.choose(b)

    def concrete(self, x):
        return self.I.concrete(x)

    def define(self, b, heavy=False):
        """a fact that holds by definition of its function symbols"""
        if not (heavy and T.LIGHT[0]):
            self.ctx.assume(b)


class ConK:
    sym = False
    ctx = None

    def choose(self, b):
        assert isinstance(b, bool), b
        return b

    def concrete(self, x):
        return x

    def define(self, b, heavy=False):
        pass


class SymS:
    """input builder: fresh symbolic inputs"""
    sym = True

    def __init__(self):
        self.vars = {}
        self.pre = []

    def int(self, name, lo, hi):
        v = T.var(name, lo, hi)
        self.vars[name] = v
        return v

    def i32(self, n):
        return self.int(n, -(1 << 31), (1 << 31) - 1)

    def i64(self, n):
        return self.int(n, -(1 << 63), (1 << 63) - 1)

    def f64(self, name, lo, hi):
        v = T.var(name, lo, hi, False)
        self.vars[name] = v
        return Flt(v)

    def whole(self, name, lo, hi):
        """a float that is a whole number"""
        return Flt(self.int(name, lo, hi))

    def require(self, b):
        self.pre.append(b)

    def str(self, bs):
        return ('str', tuple(bs))


class Reject(Exception):
    pass


# where fields of these names lie mostly, for the search
LIKELY = {'y': (-5, 3000), 'mo': (0, 13), 'm': (0, 13), 'd': (0, 32), 'h': (-1, 25), 'mi': (-1, 60), 'w': (-100, 100)}


class ConS:
    """input builder: given or random concrete inputs"""
    sym = False

    def __init__(self, vals=None, rnd=None):
        self.vals, self.rnd = vals, rnd
        self.used = {}
        self.fits = rnd is not None and rnd.random() < 0.75

    def int(self, name, lo, hi):
        if self.vals is not None:
            v = int(self.vals.get(name, lo if lo > 0 else min(0, hi)))
            v = max(lo, min(hi, v))
        else:
            v = rand_int(self.rnd, lo, hi)
            if self.fits and name in LIKELY and hi - lo > 2 ** 30 and lo <= LIKELY[name][0] and LIKELY[name][1] <= hi and self.rnd.random() < 0.95:
                a, b = LIKELY[name]
                v = self.rnd.choice([a, a + 1, b, b - 1, self.rnd.randint(a, b), self.rnd.randint(a, b)])
        self.used[name] = v
        return v

    def i32(self, n):
        return self.int(n, -(1 << 31), (1 << 31) - 1)

    def i64(self, n):
        return self.int(n, -(1 << 63), (1 << 63) - 1)

    def f64(self, name, lo, hi):
        if self.vals is not None:
            v = float(Fraction(self.vals.get(name, lo)))
        else:
            k = self.rnd.randrange(6)
            if name == 's' and self.fits:
                r = self.rnd
                v = r.choice([0.0, 59.999999, 60.0, 60.000001, 59.9999996, -0.0, -1e-9, 1e-7, r.uniform(0, 60), round(r.uniform(0, 60), 6), float(r.randint(0, 60)), r.randint(0, 59) + 0.5])
            elif hi > 1e30:
                r = self.rnd
                v = (r.choice([0.1, 0.25, 0.3, 0.5, 0.7, 0.9, 1.0, 1.1, 1.5, 2.0, 2.5, 7.0, 12.0, 100.0, 1e6, 1e-6]), r.randint(1, 400) / r.randint(1, 400), float(r.randint(1, 1000)), r.randint(1, 10 ** 6) / 1000,
                     r.random(), 2.0 ** r.randint(-80, 80))[k]
                if lo < 0 and (hi <= 0 or r.random() < 0.4):
                    v = -v
            else:
                v = (lo, hi, self.rnd.uniform(lo, hi), float(self.rnd.randint(int(lo), int(hi))),
                     round(self.rnd.uniform(lo, hi), 6), self.rnd.randint(int(lo), int(hi)) + 0.5)[k]
        v = float(v)
        self.used[name] = v
        if not (lo <= v <= hi):
            raise Reject()
        return v

    def whole(self, name, lo, hi):
        if self.vals is None and self.rnd.random() < 0.7:
            a, b = max(lo, -self.rnd.choice([3, 12, 100])), min(hi, self.rnd.choice([3, 12, 1000]))
            lo, hi = (a, b) if a <= b else (lo, hi)
        return float(self.int(name, lo, hi))

    def require(self, b):
        if not b:
            raise Reject()

    def str(self, bs):
        return ('str', tuple(bs))


BOUNDARY = [0, 1, -1, 2, 7, 12, 28, 29, 30, 31, 59, 60, 365, 366, 1000000, 86399999999, 86400000000, 86400000001, 3600000000, 2451545, -2451545]


def rand_day(r, hi):
    """a day number near a calendar boundary (year, month, century, leap day, era, week)"""
    k = r.randrange(6)
    ymax = 5874897 if hi >= DATE_MAX else 294276
    y = (r.randint(-4713, ymax), r.randint(-4713, 5000), r.randint(1900, 2100), 100 * r.randint(-47, 60) + r.randint(-1, 2),
         1000 * r.randint(-4, 10) + r.randint(-1, 2), r.choice([-4713, -4712, -401, -400, -101, -100, -99, -4, -3, -1, 0, 1, 2, 4, 1600, 1700, 1900, 2000, 2001, ymax, ymax - 1]))[k]
    m, d = r.choice([(1, 1), (1, 1), (12, 31), (12, 31), (2, 28), (3, 1), (3, 0), (1, 4), (12, 28), (r.randint(1, 12), 1), (r.randint(1, 12), 0), (r.randint(1, 12), r.randint(1, 28))])
    return jdn(y, m, 1) + d - 1 - EPOCH + r.choice([0, 0, 0, 0, -1, 1, r.randint(-7, 7)])


def rand_int(r, lo, hi):
    if hi - lo <= 40:
        return r.randint(lo, hi)
    if (lo, hi) == (DATE_MIN, DATE_MAX) or lo == TS_MIN or hi == TS_MAX:
        if r.random() < 0.6:
            v = rand_day(r, hi)
            if hi > DATE_MAX:
                v = v * DAY + r.choice([0, 0, -1, 1, r.randint(0, DAY - 1), 3600000000 * r.randint(0, 23), 60000000 * r.randint(0, 1439), 1000000 * r.randint(0, 86399), DAY - r.randint(1, 1000000)])
            if lo <= v <= hi:
                return v
    k = r.randrange(8)
    if k == 0:
        return r.choice([lo, hi, lo + 1, hi - 1])
    if k == 1:
        v = r.choice(BOUNDARY) * r.choice([1, 1, -1])
    elif k == 2:
        m = max(abs(lo), abs(hi))
        v = r.randint(0, 1 << r.randint(0, m.bit_length())) * r.choice([1, -1])
    elif k == 3:
        v = r.randint(-5000, 5000)
    elif k == 4:
        v = r.randint(-20000, 20000) * 86400000000 + r.choice([0, 0, -1, 1, 3600000000, 43200000000])
    else:
        v = r.randint(lo, hi)
    if v < lo or v > hi:
        v = r.randint(lo, hi)
    return v


# ------------------------------------------------------------------ values
class Codec:
    """interp values <-> spec-level values, driven by the types in the dump (field names, not order)"""

    def __init__(self, prog):
        self.p = prog

    def fields(self, ty):
        return [f[0] for f in ty['variants'][0]['fields']]

    def iv_order(self, ty):
        fs = self.fields(ty)
        if sorted(fs) != ['day', 'month', 'time']:
            raise Undecided('Interval fields %s' % fs)
        return fs

    def enc(self, v, t, setup, st_id=[0]):
        """spec-level -> interp value of type t; memory is put in setup"""
        ty = self.p.types[t]
        if ty['k'] == 'ref':
            if isinstance(v, tuple) and v and v[0] == 'str':
                st_id[0] += 1
                root = ('h', 'arg%d' % st_id[0])
                setup[root] = v[1]
                return Ref(root, (), (0, len(v[1])))
            st_id[0] += 1
            root = ('h', 'arg%d' % st_id[0])
            setup[root] = self.enc(v, ty['to'], setup)
            return Ref(root)
        if ty['k'] == 'adt':
            n = ty['name'].split('::')[-1]
            if n == 'Interval':
                return tuple(getattr(v, f) for f in self.iv_order(ty))
            if ty['kind'] == 'enum':
                for i, x in enumerate(ty['variants']):
                    if x['name'] == v:
                        return En(i, (), t)
                raise Undecided('no variant %s of %s' % (v, ty['name']))
            if n in ('Date', 'Time', 'Timestamp') and len(ty['variants'][0]['fields']) == 1:
                return (v,)
            raise Undecided('encode ' + ty['name'])
        return v

    def dec(self, v, t, st):
        ty = self.p.types[t]
        if ty['k'] == 'adt':
            n = ty['name']
            if 'Result<' in n[:24]:
                x = v.f[0]
                ft = ty['variants'][v.var]['fields'][0][1]
                if v.var == 0:
                    return ('ok', self.dec(x, ft, st))
                return ('err', 'error')
            if n.startswith('std::option::Option<'):
                if v.var == 0:
                    return None
                return ('some', self.dec(v.f[0], ty['variants'][1]['fields'][0][1], st))
            if n == 'std::cmp::Ordering':
                return v.var - 1
            if n == 'std::string::String' or n.startswith('std::vec::Vec<u8'):
                if isinstance(v, Opaque):
                    return v
                arr = st.heap[v.root]
                r = arr[:v.len]
                if any(x is UNDEF for x in r):
                    raise PanicEx('undefined behaviour: uninitialised bytes in returned string')
                return ('str', tuple(r))
            last = n.split('::')[-1]
            if last == 'Interval':
                d = dict(zip(self.iv_order(ty), v))
                return Iv(d['month'], d['day'], d['time'])
            if last in ('Date', 'Time', 'Timestamp'):
                return v[0]
            if last == 'Recorded':
                return self.dec(v[0], ty['variants'][0]['fields'][0][1], st)
            raise Undecided('decode ' + n)
        if ty['k'] == 'tuple':
            return tuple(self.dec(x, e, st) for x, e in zip(v, ty['elems']))
        return v

    def out(self, outcome, fn, st):
        if outcome[0] == 'panic':
            return ('panic', outcome[1])
        r = self.dec(outcome[1], fn.ltys[0], st)
        if isinstance(r, tuple) and len(r) == 2 and r[0] in ('ok', 'err'):
            return r
        return ('ok', r)


# ------------------------------------------------------------------ obligations
class Ob:
    """one proof obligation: for all inputs produced by build(S), running the entry function gives an
    outcome for which every formula of ensures(K, env, out) holds."""

    def __init__(self, name, entry, build, ensures, timeout=60, weight=1, qtimeout=20000, bounded=None, steps=400000, contracts=True, search=None, lazy=False, pure=None, light=False, gives=None, deep=False, mirror=False):
        self.mirror = mirror
        self.deep = deep          # thorough tier only
        self.gives = gives
        self.light = light
        self.pure = pure
        self.contracts, self.search, self.lazy = contracts, search, lazy
        self.name, self.entry, self.build, self.ensures = name, entry, build, ensures
        self.timeout, self.weight, self.qtimeout, self.bounded, self.steps = timeout, weight, qtimeout, bounded, steps


def model_vals(ctx, S):
    vals = {}
    for n, v in S.vars.items():
        if not isinstance(v, Lin):
            vals[n] = v
            continue
        z = ATOMS[v.c[0][0]].z
        if z is None:
            continue
        r = ctx.model.eval(z, model_completion=True)
        if z3.is_int_value(r):
            vals[n] = r.as_long()
        elif z3.is_rational_value(r):
            vals[n] = '%d/%d' % (r.numerator_as_long(), r.denominator_as_long())
    return vals


def cvc5_unsat(smt, secs):
    try:
        p = subprocess.run(['cvc5', '--lang', 'smt2', '--tlimit', str(int(secs * 1000)), '-'], input=smt, capture_output=True, text=True, timeout=secs + 5)
        return p.stdout.strip().startswith('unsat')
    except Exception:
        return False


class Result:
    def __init__(self, name):
        self.name = name
        self.status = 'undecided'
        self.vcs = 0
        self.discharged = 0
        self.paths = 0
        self.cex = []          # list of (label, vals)
        self.reason = ''
        self.used = {}
        self.stats = {}
        self.wall = 0
        self.by = {'z3': 0, 'interval': 0, 'cvc5': 0, 'syntactic': 0}
        self.approx = False
        self.pre_sat = None


def prove_goal(I, goal, ob, res, deadline):
    """True / False(model in ctx) / None"""
    q = I.ctx.quick(goal)
    if q is True:
        res.by['interval' if not isinstance(goal, bool) else 'syntactic'] += 1
        return True
    left = max(500, min(ob.qtimeout, int((deadline - time.time()) * 1000)))
    r = I.ctx.sat(not_(goal) if not isinstance(goal, bool) else True, timeout=left)
    if r is False:
        res.by['z3'] += 1
        return True
    if r is None:
        left = min(15.0, deadline - time.time())
        if left > 1 and cvc5_unsat(I.ctx.smt2(goal), left):
            res.by['cvc5'] += 1
            return True
        return None
    return False


def run_lemma(ob, res, deadline, t0):
    """a lemma about the specification functions alone"""
    try:
        for label, hyps, goal in ob.pure():
            I = Interp.__new__(Interp)
            I.ctx = Ctx(ob.qtimeout)
            for h in hyps:
                I.ctx.assume(h)
            res.vcs += 1
            res.paths += 1
            if prove_goal(I, goal, ob, res, deadline) is True:
                res.discharged += 1
            else:
                res.reason += ' lemma not proved: ' + label
        res.pre_sat = True
        res.status = 'proved' if res.vcs and res.vcs == res.discharged else 'undecided'
    except Exception:
        res.reason = 'internal: %s' % traceback.format_exc()[-1500:]
    res.stats = dict(T.STATS)
    res.wall = time.time() - t0
    return res


def run_ob(prog, ob, contracts, budget, nocontract=()):
    T.reset()
    T.LIGHT[0] = bool(ob.light)
    T.CHAIN[0] = {'chain': 1, 'iso': 2}.get(ob.light, 0)
    res = Result(ob.name)
    t0 = time.time()
    deadline = t0 + min(budget, ob.timeout)
    cod = Codec(prog)
    if ob.pure is not None:
        return run_lemma(ob, res, deadline, t0)
    try:
        fn = prog.entries.get(ob.entry) if isinstance(ob.entry, str) else ob.entry(prog)
        if fn is None:
            raise Undecided('entry %s not found' % ob.entry)
        S = SymS()
        args, env = ob.build(S)
        ctx = Ctx(min(ob.qtimeout, 4000))
        I = Interp(prog, ctx, contracts, {'lookup': natives.lookup}, max_steps=ob.steps)
        I.deadline = deadline
        I.lazy, I.lazy_ml = (True, True) if ob.lazy == 'text' else (ob.lazy, False)
        I.mirror = ob.mirror
        I.nocontract = set(nocontract)
        for b in S.pre:
            ctx.assume(b)
        res.pre_sat = ctx.sat(True, timeout=20000)
        if res.pre_sat is False:
            raise Undecided('vacuous: precondition unsatisfiable')
        setup = {}
        iargs = [cod.enc(a, fn.ltys[i + 1], setup) for i, a in enumerate(args)]

        def leaf(st, outcome):
            K = SymK(I)
            try:
                out = cod.out(outcome, fn, st)
            except PanicEx as e:
                out = ('panic', e.msg)
            goals = ob.ensures(K, env, out)
            res.paths += 1
            for label, g in goals:
                res.vcs += 1
                if len(res.cex) >= 3:
                    return
                r = prove_goal(I, g, ob, res, deadline)
                if r is True:
                    res.discharged += 1
                elif r is False:
                    lab = label if out[0] != 'panic' else '%s [%s]' % (label, out[1])
                    res.cex.append((lab, model_vals(ctx, S), repr(g)[:400]))
                else:
                    res.reason = 'solver unknown on %s' % label
                if time.time() > deadline:
                    raise Undecided('time limit')
        I.start(fn, iargs, leaf, setup)
        if res.cex:
            res.status = 'failed'
        elif res.vcs == 0:
            res.status, res.reason = 'undecided', 'no obligations generated'
        elif res.discharged == res.vcs:
            res.status = 'proved'
        else:
            res.status = 'undecided'
    except Undecided as e:
        res.reason = str(e)
        res.status = 'failed' if res.cex else 'undecided'
    except RecursionError:
        res.reason = 'recursion limit'
    except Exception as e:
        res.reason = 'internal: %s' % traceback.format_exc()[-1500:]
        res.status = 'failed' if res.cex else 'undecided'
    try:
        res.used = dict(I.used)
        res.approx = I.approx
    except Exception:
        pass
    res.stats = dict(T.STATS)
    res.wall = time.time() - t0
    return res


# ------------------------------------------------------------------ parallel execution
def run_parallel(tasks, nproc=8, deadline=None, hard=20):
    """tasks: list of (callable returning a picklable, time limit, default-on-kill).  Each task runs in its
    own forked process."""
    results = [None] * len(tasks)
    order = sorted(range(len(tasks)), key=lambda i: -getattr(tasks[i][0], 'weight', 1))
    running = {}
    while order or running:
        while order and len(running) < nproc:
            i = order.pop(0)
            f, limit, dflt = tasks[i]
            if deadline is not None:
                left = deadline - time.time()
                if left < 1:
                    results[i] = dflt('not started: time budget exhausted')
                    continue
                limit = min(limit, left)
            r, w = os.pipe()
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    T.STATS.update(queries=0, solver_s=0.0, unknown=0, fast=0)
                    data = pickle.dumps(f(limit))
                except BaseException as e:
                    data = pickle.dumps(('crash', traceback.format_exc()))
                try:
                    with os.fdopen(w, 'wb') as fh:
                        fh.write(data)
                finally:
                    os._exit(0)
            os.close(w)
            running[r] = (i, pid, time.time() + limit + hard, [])
        if not running:
            continue
        rd, _, _ = select.select(list(running), [], [], 0.5)
        for r in rd:
            i, pid, dl, buf = running[r]
            b = os.read(r, 1 << 20)
            if b:
                buf.append(b)
                continue
            os.close(r)
            del running[r]
            os.waitpid(pid, 0)
            try:
                x = pickle.loads(b''.join(buf))
                if isinstance(x, tuple) and x and x[0] == 'crash':
                    x = tasks[i][2]('crash: ' + x[1][-1200:])
            except Exception:
                x = tasks[i][2]('worker died (memory?)')
            results[i] = x
        now = time.time()
        for r in list(running):
            i, pid, dl, buf = running[r]
            if now > dl:
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(pid, 0)
                os.close(r)
                del running[r]
                results[i] = tasks[i][2]('killed: time limit')
    return results


def undecided(name):
    def f(reason):
        r = Result(name)
        r.reason = reason
        return r
    return f
