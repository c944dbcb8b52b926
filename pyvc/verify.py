"""Runs units (contracts and lemmas): generates the obligations from the current sources and discharges them in parallel."""
import json
import multiprocessing as mp
import os
import pickle
import sys
import tempfile
import time
import traceback
import z3
from .api import R
from .engine import Exec
from .frontend import Program, PyxError
from .sym import Unsupported, Restart
from . import solver

BUDGETS = {'quick': [(4, 0, 0), (12, 1, 0), (20, 7, 2)], 'thorough': [(4, 0, 0), (20, 1, 0), (60, 7, 2), (60, 3, 1)]}

# fewer facts: (depth, tolerance) of the choice, seconds
FILTERS = [((3, 1.5), 5), ((2, 1.5), 4), (None, 6)]


def unit_names(names):
    for n in names:
        if n not in R.contracts and n not in R.lemmas:
            raise KeyError('unknown unit %s' % n)
    return names


def gen(name, prog, debug=False, patience=None):
    ex = Exec(prog, debug)
    ex.patience = patience
    t = time.time()
    if name in R.lemmas:
        lm = R.lemmas[name]
        ex.prepare(lm.uses)
        ex.verify_lemma(lm)
    else:
        c = R.contracts[name]
        ex.prepare(c.uses)
        ex.verify_contract(c)
    ex.gentime = time.time() - t
    return ex


def solve_one(ex, i, plan, dump=None, ext=True):
    o = ex.obls[i]
    es, used = solver.build(ex, o)
    if dump:
        with open(dump, 'w') as f:
            f.write(solver.smt2(es))
    total = 0.0
    last = None
    for n, (tmo, seed, strat) in enumerate(plan):
        r, dt, why, s = solver.check(es, tmo * 1000, seed, False, strat)
        total += dt
        if r == 'unsat':
            return {'status': 'proved', 'backend': 'z3-5.3.2', 'time': total, 'axioms': used}
        last = (r, why)
        if n == 0 and len(plan) > 1:
            # the goal split at its conjunctions, and fewer facts
            us = set()
            for neg in solver.pieces(o.goal):
                for filt, lim in FILTERS:
                    es2, u = solver.build(ex, o, neg, filt)
                    r, dt, why, s = solver.check(es2, lim * 1000, 0, False, 0)
                    total += dt
                    if r == 'unsat':
                        us |= set(u)
                        break
                if r != 'unsat':
                    break
            else:
                return {'status': 'proved', 'backend': 'z3-5.3.2', 'time': total, 'axioms': sorted(us)}
    if ext:
        text = solver.smt2(es)
        for b in ('z3-4.8.12', 'cvc5'):
            r, dt = solver.ext_check(text, b, plan[1][0])
            total += dt
            if r == 'unsat':
                return {'status': 'proved', 'backend': b, 'time': total, 'axioms': used}
    return {'status': 'failed', 'backend': '', 'time': total, 'why': '%s %s' % last, 'axioms': used}


def vacuity(ex):
    """False when the entry assumptions are contradictory"""
    class O:
        pass
    o = O()
    o.facts, o.goal = ex.pre_facts, z3.BoolVal(False)
    es, _ = solver.build(ex, o)
    r, dt, why, s = solver.check(es, 2000, 0, False, 0)
    return r != 'unsat'


ERRORS = (Unsupported, PyxError, SyntaxError, RecursionError)


def described(e):
    if isinstance(e, ERRORS):
        return '%s: %s' % (type(e).__name__, e)
    return 'internal %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc(limit=-6))


def solve_all(ex, tier, nproc, sem, fails, out):
    """discharges the obligations of ex in several processes"""
    n = len(ex.obls)
    nxt = mp.Value('i', 0)
    plan = BUDGETS[tier]

    def worker(fn):
        rs = []
        while True:
            with nxt.get_lock():
                i = nxt.value
                nxt.value += 1
            if i >= n:
                break
            with sem:
                p = plan
                if fails.value >= 3:
                    p = plan[:1]
                if fails.value >= 12:
                    r = {'status': 'skipped', 'backend': '', 'time': 0, 'why': 'too many failures', 'axioms': []}
                else:
                    try:
                        r = solve_one(ex, i, p, ext=fails.value < 3)
                    except z3.Z3Exception as e:
                        r = {'status': 'failed', 'backend': '', 'time': 0, 'why': 'z3: %s' % e, 'axioms': []}
                if r['status'] != 'proved':
                    with fails.get_lock():
                        fails.value += 1
            if r['status'] != 'proved':
                r['goal'] = str(ex.obls[i].goal)[:1500]
            r.update(name=ex.obls[i].name, kind=ex.obls[i].kind, line=ex.obls[i].line, i=i)
            rs.append(r)
        json.dump(rs, open(fn, 'w'))

    procs = []
    for w in range(max(1, min(nproc, (n + 3) // 4))):
        fn = out + '.%d' % w
        p = mp.get_context('fork').Process(target=worker, args=(fn,))
        p.start()
        procs.append((p, fn))
    obs = []
    for p, fn in procs:
        p.join()
        if os.path.exists(fn):
            obs.extend(json.load(open(fn)))
            os.unlink(fn)
    obs.sort(key=lambda r: r['i'])
    if len(obs) != n:
        raise RuntimeError('solver worker died')
    return obs


class Shared:
    """the branches left open, shared by the processes that explore paths"""
    def __init__(self, prefixes):
        self.q, self.lock, self.pending = mp.SimpleQueue(), mp.Lock(), mp.Value('i', 0)
        for x in prefixes:
            self.append(x)

    def append(self, x):
        with self.lock:
            self.pending.value += 1
            self.q.put(x)

    def take(self):
        while True:
            with self.lock:
                if not self.q.empty():
                    return self.q.get()
                if self.pending.value <= 0:
                    return None
            time.sleep(.01)

    def done(self):
        with self.lock:
            self.pending.value -= 1

    def stop(self):
        with self.lock:
            while not self.q.empty():
                self.q.get()
            self.pending.value = 0


def facts_of(ex):
    return {'used_contracts': sorted(ex.used_contracts), 'inlined': sorted(ex.used_inline), 'lemmas': sorted(ex.used_lemmas), 'assumed': sorted(ex.assumed)}


def path_worker(ex, shared, tier, nproc, sem, fails, out):
    """explores paths from the shared list, then discharges their obligations"""
    res = {'error': None, 'restart': False, 'obligations': [], 'paths': 0}
    try:
        ex.obls, ex.trivial, n0 = [], 0, ex.npaths
        ex.work = shared
        t = time.time()
        while True:
            x = shared.take()
            if x is None:
                break
            try:
                with sem:
                    ex.path(x)
            finally:
                shared.done()
        res['gentime'] = time.time() - t
        res['paths'] = ex.npaths - n0
        res['trivial'] = ex.trivial
        res.update(facts_of(ex))
        if ex.obls:
            res['obligations'] = solve_all(ex, tier, nproc, sem, fails, out)
    except Restart:
        shared.stop()
        res['restart'] = True
    except Exception as e:
        shared.stop()
        res['error'] = described(e)
    json.dump(res, open(out, 'w'))


def run_unit(name, tier, root, nproc, sem, out, patience=3):
    t0 = time.time()
    res = {'unit': name, 'kind': 'lemma' if name in R.lemmas else 'contract', 'obligations': [], 'error': None}
    try:
        with sem:
            ex = gen(name, Program(root), patience=patience if nproc > 1 else None)
        res['gentime'] = ex.gentime
        res['paths'] = ex.npaths
        res['trivial'] = getattr(ex, 'trivial', 0)
        res.update(facts_of(ex))
        fails = mp.Value('i', 0)
        procs = []
        if ex.rest:
            shared = Shared(ex.rest)
            for w in range(nproc):
                fn = out + '.p%d' % w
                p = mp.get_context('fork').Process(target=path_worker, args=(ex, shared, tier, nproc, sem, fails, fn))
                p.start()
                procs.append((p, fn))
        obs = solve_all(ex, tier, nproc, sem, fails, out)
        parts = []
        for p, fn in procs:
            p.join()
            if not os.path.exists(fn):
                raise RuntimeError('path worker died')
            parts.append(json.load(open(fn)))
            os.unlink(fn)
        if any(x['restart'] for x in parts):
            # something new about a loop: once more in a single process
            return run_unit(name, tier, root, nproc, sem, out, None)
        for x in parts:
            if x['error']:
                raise Unsupported(x['error'])
            obs += x['obligations']
            res['paths'] += x['paths']
            res['trivial'] += x['trivial']
            res['gentime'] += x['gentime']
            for k in ('used_contracts', 'inlined', 'lemmas', 'assumed'):
                res[k] = sorted(set(res[k]) | set(x[k]))
        for i, o in enumerate(obs):
            o['i'] = i
        res['obligations'] = obs
        with sem:
            if not vacuity(ex):
                res['error'] = 'contradictory precondition (vacuous)'
        if not obs and not res['trivial']:
            res['error'] = 'no obligation generated'
    except Exception as e:
        res['error'] = described(e)
    res['time'] = time.time() - t0
    json.dump(res, open(out, 'w'))


def verify(names, tier='quick', root=None, nproc=None, deadline=None):
    nproc = nproc or os.cpu_count() or 4
    sem = mp.get_context('fork').Semaphore(nproc)
    results = []
    with tempfile.TemporaryDirectory() as d:
        procs = []
        for i, nme in enumerate(names):
            fn = os.path.join(d, '%d.json' % i)
            p = mp.get_context('fork').Process(target=run_unit, args=(nme, tier, root, nproc, sem, fn))
            p.start()
            procs.append((nme, p, fn))
        for nme, p, fn in procs:
            left = None if deadline is None else max(0.1, deadline - time.time())
            p.join(left)
            if p.is_alive():
                p.terminate()
                results.append({'unit': nme, 'error': 'time limit', 'obligations': [], 'kind': ''})
                continue
            if os.path.exists(fn):
                results.append(json.load(open(fn)))
            else:
                results.append({'unit': nme, 'error': 'verifier process died (exit %s)' % p.exitcode, 'obligations': [], 'kind': ''})
    return results


def failed(r):
    return r.get('error') or any(o['status'] != 'proved' for o in r['obligations'])
