"""The check driver: build, extract, discharge, judge, report."""
import argparse, json, os, random, subprocess, sys, time, hashlib
from . import terms as T
from .terms import *
from .interp import Program, Interp, Undecided, PanicEx, Ctx, Flt
from . import natives, contracts as C, props
from .engine import *
from .runner import Runner

QUICK = dict(total=420, samples=150, conf=3, scale=1.0, fallback=4000)
THOROUGH = dict(total=820, samples=6000, conf=20, scale=4.0, fallback=40000)


def conform(prog, ob, args, out, nocontract=()):
    """does the interpreter, on these concrete arguments, give the outcome of the compiled code?"""
    T.reset()
    cod = Codec(prog)
    fn = prog.entries[ob.entry]
    I = Interp(prog, Ctx(2000), {}, {'lookup': natives.lookup}, max_steps=2000000)
    setup = {}
    got = []

    def leaf(st, outcome):
        try:
            got.append(cod.out(outcome, fn, st))
        except PanicEx as e:
            got.append(('panic', e.msg))
    try:
        I.start(fn, [cod.enc(a, fn.ltys[i + 1], setup) for i, a in enumerate(args)], leaf, setup)
    except Undecided as e:
        return None
    except Exception as e:
        return None
    if len(got) != 1:
        return False
    return norm(got[0]) == norm(out)


def norm(o):
    if o[0] == 'panic':
        return 'panic'

    def f(x):
        if isinstance(x, Flt):
            if x.err == 0 and not isinstance(x.lin, Lin):
                return ('f', float(x.lin))
            return ('f', None)
        if isinstance(x, float):
            return ('f', 'nan' if x != x else x)
        if isinstance(x, tuple):
            return tuple(f(y) for y in x)
        return x
    return (o[0], f(o[1]))


class Ctl:
    """concrete evaluation of the obligations on the compiled code"""

    def __init__(self, prog, runner):
        self.prog, self.runner = prog, runner

    def prepare(self, ob, S):
        try:
            args, env = ob.build(S)
        except Reject:
            return None
        return args, env

    def judge(self, ob, env, out):
        """label of a violated formula, or None"""
        if out[0] == 'tool':
            return None
        try:
            for label, g in ob.ensures(ConK(), env, out):
                if g is False:
                    return label
                if g is not True:
                    raise Undecided('formula not decided on concrete values: %r' % (g,))
        except Reject:
            return None
        return None

    def try_vals(self, ob, vals):
        S = ConS(vals)
        p = self.prepare(ob, S)
        if p is None:
            return None
        out = self.runner.run([(ob.entry, p[0])])[0]
        lab = self.judge(ob, p[1], out)
        return lab, p[0], out, S.used

    def near(self, vals, rnd, n):
        """inputs near a model"""
        res = []
        for _ in range(n):
            v = dict(vals)
            for k in list(v):
                if rnd.random() < 0.5 and not isinstance(v[k], (bool, tuple)):
                    try:
                        if isinstance(v[k], str) or isinstance(v[k], float):
                            x = float(Fraction(v[k]))
                            v[k] = rnd.choice([x, float(round(x)), round(x, 3), round(x, 6), x + rnd.choice([-1, 1, 1e-6, -1e-6, 0.5])])
                        else:
                            v[k] = v[k] + rnd.choice([-2, -1, 0, 1, 2, DAYUS, -DAYUS])
                    except Exception:
                        pass
            res.append(v)
        return res


DAYUS = 86400000000


def search(ctl, ob, rnd, n, conf):
    """bounded random/boundary search on the compiled code; returns (violation or None, runs, conformance)"""
    S = []
    for _ in range(n):
        s = ConS(None, rnd)
        p = ctl.prepare(ob, s)
        if p is not None:
            S.append((s, p))
    seen, uniq = set(), []
    for s, p in S:
        k = repr(p[0])
        if k not in seen:
            seen.add(k)
            uniq.append((s, p))
    outs = ctl.runner.run([(ob.entry, p[0]) for s, p in uniq])
    bad = None
    agree = [0, 0, 0]
    for i, ((s, p), out) in enumerate(zip(uniq, outs)):
        if i < conf:
            c = conform(ctl.prog, ob, p[0], out)
            agree[0 if c is None else 1 if c else 2] += 1
        if bad is None:
            lab = ctl.judge(ob, p[1], out)
            if lab is not None:
                bad = (lab, p[0], out, s.used)
    return bad, len(uniq), agree


def show(ob, args):
    return '%s(%s)' % (ob.entry, ', '.join(map(fmtv, args)))


def fmtv(v):
    if isinstance(v, tuple) and len(v) == 2 and v[0] == 'str':
        try:
            return repr(bytes(v[1]).decode())
        except Exception:
            return repr(v)
    return str(v)


class Reporter:
    def __init__(self, here, pid):
        self.here, self.pid, self.n = here, pid, 0
        self.dir = os.path.join(here, 'build', 'replay')
        os.makedirs(self.dir, exist_ok=True)

    def violation(self, ob, label, args=None, out=None, extra=None, line=None):
        self.n += 1
        path = os.path.join(self.dir, '%s-%d.json' % (self.pid, self.n))
        d = {'property': self.pid, 'obligation': ob.name, 'failed': label, 'entry': ob.entry,
             'verifier': extra}
        if args is not None:
            d['call'] = show(ob, args)
            d['observed'] = [str(x) for x in out]
            d['runner_line'] = line
            d['how'] = 'echo "<runner_line>" | build/runner/debug/vprunner   (after build.sh)'
        json.dump(d, open(path, 'w'), indent=1, default=str)
        if args is not None:
            print('  failed obligation: %s / %s' % (ob.name, label))
            print('  input: %s   observed: %s' % (show(ob, args), ' '.join(fmtv(x) for x in out)))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
        else:
            print('  failed obligation: %s / %s' % (ob.name, label))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (self.pid, path))
        sys.stdout.flush()


def known(here, pid):
    """known findings: lines `KNOWN-FINDING: property=<id> ob=<obligation> call=<call> -- what`"""
    res = []
    p = os.path.join(here, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('KNOWN-FINDING: property=%s ' % pid):
                res.append(l)
    return res


def prove_contracts(prog, wanted, t_end, nproc):
    """prove contracts level by level; returns (usable, results)"""
    usable, allres = {}, []
    pending = [c for c in C.ALL if wanted is None or c.name in wanted]
    while pending:
        names = {c.name for c in pending}
        level = [c for c in pending if not any(n in names for n in c.needs)]
        if not level:
            level = pending
        pending = [c for c in pending if c not in level]
        tasks, owner = [], []
        for c in level:
            if c.fn(prog) is None:
                continue
            for o in c.obs():
                cs = {k: v for k, v in usable.items() if k != c.name}
                def f(lim, o=o, cs=cs):
                    return run_ob(prog, o, cs, lim)
                tasks.append((f, o.timeout, undecided(o.name)))
                owner.append(c)
        rs = run_parallel(tasks, nproc, t_end)
        for c in level:
            mine = [r for r, w in zip(rs, owner) if w is c]
            if mine and all(r.status == 'proved' for r in mine):
                usable[c.name] = c
        allres += rs
    return usable, allres


def main(argv, here):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('--nobuild', action='store_true')
    ap.add_argument('--only', default=None)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = 'thorough' if a.thorough else 'quick'
    cfg = THOROUGH if a.thorough else QUICK
    work = os.path.join(here, 'build')
    nproc = os.cpu_count() or 4
    if not a.nobuild:
        p = subprocess.run(['bash', os.path.join(here, 'build.sh'), work], capture_output=True, text=True)
        if p.returncode:
            sys.stderr.write(p.stderr[-4000:])
            print('ERROR: /repo does not build')
            return 2
    t_build = time.time() - t0
    prog = Program(os.path.join(work, 'dump.json'))
    runner = Runner(os.path.join(work, 'runner', 'debug', 'vprunner'), prog)
    ctl = Ctl(prog, runner)
    pid = a.prop
    mod = props.load(pid)
    obs = [o for o in mod.obs() if a.thorough or not o.deep]
    if a.only:
        obs = [o for o in obs if a.only in o.name]
    t_end = t0 + cfg['total']
    reach = prog.reachable([prog.entries[o.entry] for o in obs if o.entry in prog.entries])
    usable, cres = prove_contracts(prog, reach, min(t_end, time.time() + cfg['total'] * 0.5), nproc)
    if a.v:
        for r in cres:
            print('contract', r.name, r.status, r.reason[-200:], round(r.wall, 1))
    missing = [o for o in obs if o.entry not in prog.entries]
    res = [None] * len(obs)
    first = [i for i, o in enumerate(obs) if o.gives]
    provided = {c.name: c for c in getattr(mod, 'PROVIDES', [])}
    for stage in (first, [i for i in range(len(obs)) if i not in first]):
        tasks = []
        for i in stage:
            o = obs[i]

            def f(lim, o=o):
                return run_ob(prog, o, usable if o.contracts else {}, lim)
            f.weight = o.weight
            o.timeout *= cfg['scale']
            tasks.append((f, o.timeout, undecided(o.name)))
        if tasks:
            for i, r in zip(stage, run_parallel(tasks, nproc, t_end)):
                res[i] = r
        for n, c in provided.items():
            mine = [res[i].status == 'proved' for i in first if obs[i].gives == n]
            if stage is first and mine and all(mine) and c.fn(prog) is not None:
                usable = dict(usable)
                usable[n] = c
    rep = Reporter(here, pid)
    stats = dict(proved=0, failed=0, undecided=0, bounded=0, runs=0, agree=[0, 0, 0])
    samples = []
    kf = known(here, pid)
    kf_hit = []

    def report(o, label, args, out, extra):
        line = runner.line(o.entry, args)
        for l in kf:
            if ('ob="%s"' % o.name) in l and (('call="%s"' % show(o, args)) in l or 'call=*' in l):
                if l not in kf_hit:
                    kf_hit.append(l)
                return
        rep.violation(o, label, args, out, extra, line)
    t1 = time.time()
    # judge each obligation
    jobs = []
    n_open = max(1, sum(r.status != 'proved' for r in res))
    for o, r in zip(obs, res):
        def f(lim, o=o, r=r):
            rnd = random.Random('%d %s' % (seed, o.name))
            bad = None
            if r.status == 'failed':
                for label, vals, g in r.cex:
                    x = ctl.try_vals(o, vals)
                    if x is not None and x[0] is not None:
                        return x, 1, [0, 0, 0]
                for label, vals, g in r.cex:
                    for v in ctl.near(vals, rnd, 150):
                        x = ctl.try_vals(o, v)
                        if x is not None and x[0] is not None:
                            return x, 1, [0, 0, 0]
            n = cfg['samples'] if r.status == 'proved' else max(cfg['fallback'], min(20000, 300000 // n_open))
            if o.search is not None:
                n = o.search if r.status == 'proved' else max(o.search, n)
            return search(ctl, o, rnd, n, cfg['conf'])
        jobs.append((f, 120 * cfg['scale'], lambda why: (None, 0, [0, 0, 0])))
    found = run_parallel(jobs, nproc, t0 + cfg['total'] + 150)
    for o, r, (bad, runs, agree) in zip(obs, res, found):
        stats['runs'] += runs
        stats['agree'] = [x + y for x, y in zip(stats['agree'], agree)]
        tag = r.status
        if o.bounded:
            stats['bounded'] += 1
        if agree[2]:
            tag = 'undecided'
            r.reason += ' interpreter and compiled code disagree on a concrete input'
        if bad is not None:
            lab, args, out, used = bad
            stats['failed'] += 1
            if rep.n < 5:
                report(o, lab, args, out, {'status': r.status, 'formulas': [c for c in r.cex], 'reason': r.reason})
            continue
        if tag == 'failed':
            ub = [c for c in r.cex if 'undefined behaviour' in c[0]]
            if ub and not r.approx:
                stats['failed'] += 1
                rep.violation(o, ub[0][0], extra={'formulas': r.cex})
                continue
            tag = 'undecided'
            r.reason += ' model does not replay: %s' % (r.cex[:1],)
        stats['proved' if tag == 'proved' else 'undecided'] += 1
        r.status = tag
    if a.v or a.only:
        for o, r in zip(obs, res):
            print('%-10s %-60s vcs %d/%d paths %d %.1fs %s %s' % (r.status, r.name, r.discharged, r.vcs, r.paths, r.wall, r.by, r.reason[-200:]))
            if r.status != 'proved':
                for c in r.cex[:1]:
                    print('      ', str(c)[:600])
    for l in kf_hit:
        print(l)
    for o, r in list(zip(obs, res))[:3]:
        samples.append({'obligation': o.name, 'entry': o.entry, 'paths': r.paths, 'formulas': r.vcs})
    used = {}
    for r in res + cres:
        for k, v in r.used.items():
            if used.get(k) != 'contract':
                used[k] = v
    crate = lambda n: 'pgdatetime' in n
    tot = sum(r.vcs for r in res + cres)
    dis = sum(r.discharged for r in res + cres)
    by = {}
    for r in res + cres:
        for k, v in r.by.items():
            by[k] = by.get(k, 0) + v
    und = [{'obligation': r.name, 'reason': r.reason[-300:]} for r in res + cres if r.status != 'proved']
    nb = [o.name for o in obs if o.bounded]
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'proof'),
        'coverage': {
            'obligations': tot + sum(1 for r in res if r.vcs == 0), 'discharged': dis,
            'checker_cmd': './check.py %s%s' % (pid, ' --thorough' if a.thorough else ''),
            'trusted_base': [
                'rustc nightly (the MIR it emits for the crate is the verified text; debug assertions and overflow checks on)',
                'mirdump (MIR to JSON), mirv/interp.py (MIR semantics, path exploration), mirv/terms.py (normal forms, intervals)',
                'z3 %s; cvc5 as fallback' % z3.get_version_string(),
                'models of standard-library functions without analysed body: mirv/natives.py',
                'the specification functions in mirv/spec.py and mirv/props/%s.py' % pid.lower(),
            ],
            'obligation_groups': len(res), 'groups_proved': stats['proved'],
            'groups_bounded_shape': nb[:60], 'not_proved_this_run': und[:40],
            'by_backend': by, 'paths': sum(r.paths for r in res + cres),
            'solver_s': round(sum(r.stats.get('solver_s', 0) for r in res + cres), 2),
            'solver_queries': sum(r.stats.get('queries', 0) for r in res + cres),
            'contracts_used': sorted(usable), 'contract_obligations': sum(r.vcs for r in cres),
            'functions_under_contract': sorted(k for k, v in used.items() if v == 'contract'),
            'functions_verified_by_execution_of_body': sorted(k for k, v in used.items() if v == 'inlined' and crate(k)),
            'library_bodies_executed': sum(1 for k, v in used.items() if v == 'inlined' and not crate(k)),
            'modelled_library_functions': sorted({strip_generics(k) for k, v in used.items() if v == 'native'})[:80],
            'preconditions_satisfiable': sum(1 for r in res if r.pre_sat),
            'compiled_code_runs': runner.calls or stats['runs'],
            'interpreter_agrees_with_compiled': stats['agree'][1], 'interpreter_disagrees': stats['agree'][2],
            'samples': samples, 'build_s': round(t_build, 1),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []) + [
            'floating-point results are bounded by exact rational error terms (round-to-nearest), not bit-blasted',
            'memory allocation never fails'],
        'wall_s': round(time.time() - t0, 1), 'violations': rep.n,
    }
    if getattr(mod, 'LEVEL', 'proof') == 'exploration':
        ev['coverage'].update({'evaluations': stats['runs'], 'distinct_nontrivial': stats['runs'],
                               'rule': getattr(mod, 'RULE', 'random and boundary inputs of the obligations, duplicates removed')})
    os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(here, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    print('%s: %d obligation groups: %d proved, %d undecided, %d failed; %d/%d formulas discharged; %d runs of the compiled code; %.1f s' % (
        pid, len(res), stats['proved'], stats['undecided'], stats['failed'], dis, tot, stats['runs'], time.time() - t0))
    for u in und[:6]:
        print('  undecided: %s: %s' % (u['obligation'], u['reason'][-160:].replace('\n', ' ')))
    return 1 if rep.n else 0


def strip_generics(n):
    out, d = [], 0
    for ch in n:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out.append(ch)
    return ''.join(out)
