#!/usr/bin/env python3
"""generate the call table of the replay runner from the signatures in ../entry/src/lib.rs"""
import re, os, sys
here = os.path.dirname(os.path.abspath(__file__))
src = open(os.path.join(here, '../entry/src/lib.rs')).read()
out = ['// generated by gen.py from ../entry/src/lib.rs', 'use super::*;', 'pub fn call(name: &str, t: &mut Toks) -> Option<String> {', '    Some(match name {']
for m in re.finditer(r'^pub fn (vp_\w+)\(([^)]*)\)\s*(?:->\s*([^{]+?))?\s*\{', src, re.M):
    name, args = m.group(1), m.group(2)
    names, lets = [], []
    for i, a in enumerate(x for x in args.split(', ') if x.strip()):
        ty = a.split(':', 1)[1].strip()
        ref = ty.startswith('&')
        t = ty[1:] if ref else ty
        if t == 'str':
            lets.append('let a%d: String = Arg::get(t);' % i)
        else:
            lets.append('let a%d: %s = Arg::get(t);' % (i, t))
        names.append(('&a%d' if ref else 'a%d') % i)
    out.append('        "%s" => { %s run(move || vpentry::%s(%s)) }' % (name, ' '.join(lets), name, ', '.join(names)))
out += ['        _ => return None,', '    })', '}', '']
p = os.path.join(here, 'src/table.rs')
s = '\n'.join(out)
if not os.path.exists(p) or open(p).read() != s:
    open(p, 'w').write(s)
