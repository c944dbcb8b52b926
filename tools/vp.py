#!/usr/bin/env python3-vt
"""developer tool: vp.py UNIT [-d DIR] — verify one unit in parallel with the full plan; -d: write the goals of failed obligations there"""
import sys, os, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.setrecursionlimit(100000)
import argparse
ap = argparse.ArgumentParser()
ap.add_argument('units', nargs='+')
ap.add_argument('-r', '--root', default=None)
ap.add_argument('-t', '--tier', default='quick')
a = ap.parse_args()
import specs
specs.load()
from pyvc import verify
from pyvc.api import R
us = []
for pat in a.units:
    us += [u for u in list(R.contracts) + list(R.lemmas) if u == pat or u.endswith('.' + pat)]
t = time.time()
for r in verify.verify(us, a.tier, a.root):
    print('##', r['unit'], r.get('error') or '', 'paths', r.get('paths'), 'obligations', len(r['obligations']), 'trivial', r.get('trivial'), 'gen %.1f' % r.get('gentime', 0), 'total %.1f' % r.get('time', 0))
    for o in r['obligations']:
        if o['status'] != 'proved' or o['time'] > 6:
            print('  ', o['i'], o['status'], '%.1f' % o['time'], o['backend'], o['name'], o.get('why', ''), o.get('goal', ''))
print('%.1f s' % (time.time() - t))
