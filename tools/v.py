#!/usr/bin/env python3-vt
"""developer tool: v.py SPECMODULE.. UNIT [-d] — verify one unit and print what fails"""
import sys, os, time, importlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import argparse
ap = argparse.ArgumentParser()
ap.add_argument('units', nargs='+')
ap.add_argument('-r', '--root', default=None)
ap.add_argument('-t', type=int, default=4)
ap.add_argument('-d', '--dump')
ap.add_argument('-s', '--show', type=int, default=None)
ap.add_argument('-l', '--list', action='store_true')
ap.add_argument('--tb', action='store_true')
a = ap.parse_args()
import specs
specs.load()
from pyvc import verify, solver
from pyvc.api import R
from pyvc.frontend import Program
for pat in a.units:
    us = [u for u in list(R.contracts) + list(R.lemmas) if u == pat or u.endswith('.' + pat)] or [u for u in list(R.contracts) + list(R.lemmas) if pat in u]
    for u in us:
        c = R.contracts.get(u)
        if c is not None and (c.trusted or c.inline_only):
            continue
        t = time.time()
        try:
            ex = verify.gen(u, Program(a.root))
        except Exception as e:
            if a.tb:
                raise
            print('##', u, 'ERROR', type(e).__name__, e); continue
        print('##', u, 'paths', ex.npaths, 'obligations', len(ex.obls), 'gen %.1fs' % (time.time() - t), 'inl', sorted(x.split('.')[-1] for x in ex.used_inline))
        bad = 0; mx = 0
        if not verify.vacuity(ex):
            print('   VACUOUS PRECONDITION')
        for i, o in enumerate(ex.obls):
            if a.show is not None and i != a.show: continue
            r = verify.solve_one(ex, i, [(a.t, 0, 0)], dump=a.dump, ext=False)
            mx = max(mx, r['time'])
            if r['status'] != 'proved' or a.list or r['time'] > 2:
                bad += r['status'] != 'proved'
                print('  ', i, r['status'], '%.1f' % r['time'], o.name, r.get('why', ''))
            if a.show is not None:
                for f in o.facts: print('      ', f)
                print('   GOAL', o.goal)
        print('   bad', bad, 'max %.1fs total %.1fs' % (mx, time.time() - t))
