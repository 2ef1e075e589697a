#!/usr/bin/env python3
"""Recomputes harness/long_states.hpp: the reference models' states at the boundaries of C21."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vlib, re
def rows(c):
    exe = c.compile('c21.cpp', ['-DGEN'], cxx='g++', opt='-O3', name='gen')
    c.run_all([('', exe)], cpu=3000)
    return sorted(re.sub(r'^\[\S+\] ', '', x) for x in c.extra.pop('state', []))
if __name__ == '__main__':
    c = vlib.Check('C21', 'thorough'); r = rows(c)
    assert len(r) == 130 and not c.errors and not c.viol, (len(r), c.errors, c.viol)
    open(os.path.join(vlib.H, 'long_states.hpp'), 'w').write('// written by tools/gen_long.py: model states after P[b] bytes of the long message\nstatic struct { char const* name; int b; unsigned long long w[8]; } const long_states[] = {\n' + '\n'.join(r) + '\n};\n')
