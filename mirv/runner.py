"""Execution of entry functions of the compiled crate on concrete inputs (debug build with overflow
checks), used to judge counterexamples and for the bounded searches."""
import subprocess, struct
from .spec import Iv


class Runner:
    def __init__(self, path, prog):
        self.path, self.p = path, prog
        self.calls = 0

    def arg(self, v, t):
        ty = self.p.types[t]
        if ty['k'] == 'ref':
            if isinstance(v, tuple) and v and v[0] == 'str':
                return 's' + bytes(v[1]).hex()
            return self.arg(v, ty['to'])
        if isinstance(v, Iv):
            return '%d %d %d' % (v.month, v.day, v.time)
        if isinstance(v, bool):
            return '1' if v else '0'
        if isinstance(v, float):
            return struct.pack('>d', v).hex()
        return str(v)

    def line(self, entry, args):
        fn = self.p.entries[entry]
        return 'fresh ' * 0 + entry + ''.join(' ' + self.arg(a, fn.ltys[i + 1]) for i, a in enumerate(args))

    def raw(self, lines, timeout=60):
        """results for the lines; a call that kills the process or does not end gives a 'panic' result"""
        out = []
        i = 0
        while i < len(lines):
            chunk = lines[i:i + 5000]
            self.calls += len(chunk)
            dead = None
            try:
                p = subprocess.run([self.path], input='\n'.join(chunk) + '\n', capture_output=True, text=True, timeout=timeout)
                got = p.stdout.split('\n')
                if got and got[-1] == '':
                    got.pop()
                if len(got) == len(chunk):
                    out += got
                    i += len(chunk)
                    continue
                dead = 'process died (exit %s)' % p.returncode
            except subprocess.TimeoutExpired:
                dead = 'call does not return'
            # find the culprit by running one by one, flushed
            for ln in chunk:
                try:
                    p = subprocess.run([self.path], input=ln + '\n', capture_output=True, text=True, timeout=10)
                    g = p.stdout.strip()
                    out.append(g if g else 'T bad request' if p.returncode == 97 else 'P process died (exit %s)' % p.returncode)
                except subprocess.TimeoutExpired:
                    out.append('P call does not return within 10 s')
                i += 1
                if out[-1].startswith(('P process', 'P call', 'T bad')):
                    break
        return out

    def run(self, calls):
        """calls: list of (entry, args) -> list of out"""
        return [parse(r) for r in self.raw([self.line(e, a) for e, a in calls])]


def parse(line):
    if line.startswith('P'):
        return ('panic', line[2:])
    if not line.startswith('R '):
        return ('tool', line)
    toks = line[2:].replace('{', '{ ').replace('}', ' }').split()
    pos = [0]

    def val():
        t = toks[pos[0]]
        pos[0] += 1
        if t == 'ok':
            return ('ok', val())
        if t == 'err':
            return ('err', 'error')
        if t == 'some':
            return ('some', val())
        if t == 'none':
            return None
        if t == '()':
            return ()
        if t == '(':
            r = []
            while toks[pos[0]] != ')':
                r.append(val())
            pos[0] += 1
            return tuple(r)
        if t == '{':
            m, d, x = [int(q) for q in toks[pos[0]:pos[0] + 3]]
            pos[0] += 4
            return Iv(m, d, x)
        if t in ('true', 'false'):
            return t == 'true'
        if t[0] == 's':
            return ('str', tuple(bytes.fromhex(t[1:])))
        if t[0] == 'f':
            return struct.unpack('>d', bytes.fromhex(t[1:]))[0]
        return int(t)
    r = val()
    if isinstance(r, tuple) and r and r[0] in ('ok', 'err'):
        return r
    return ('ok', r)
