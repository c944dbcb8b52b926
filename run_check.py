#!/usr/bin/env python3-vt
"""run_check.py PID [--tier quick|thorough]: decides one property on /repo's current working tree."""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'replay'))
import build_copy          # noqa: E402

PY = '/opt/venv/bin/python'


def start_harness(pid, root, seconds, seed, out):
    cmd = [PY, os.path.join(HERE, 'replay', 'harness.py'), pid, '--root', root, '--seconds', str(seconds), '--seed', str(seed), '--out', out]
    log = open(out + '.log', 'w')
    return subprocess.Popen(cmd, env=build_copy.env(), stdout=log, stderr=subprocess.STDOUT, cwd=root)


def wait_harness(p, out, limit):
    try:
        p.wait(limit)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return {'error': 'harness ran over its time limit of %d s (does the code under test terminate?)' % limit, 'hang': True}
    if os.path.exists(out):
        return json.load(open(out))
    return {'error': 'harness ended with %s: %s' % (p.returncode, open(out + '.log').read()[-1500:])}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default=os.environ.get('VERIF_REPO', '/repo'))
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    thorough = tier == 'thorough'
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % a.pid)
    try:
        rc = decide(a, tier, thorough, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def decide(a, tier, thorough, seed, scratch, t0):
    import specs
    from pyvc.api import R
    from pyvc import verify
    specs.load()
    pid = a.pid
    units = [u for u in R.props.get(pid, [])]
    has_harness = os.path.exists(os.path.join(HERE, 'replay', 'p_%s.py' % pid.lower()))
    root = os.path.join(scratch, 'tree')
    os.mkdir(root)
    build_err = None
    h = None
    hsec = 120 if thorough else 20
    if has_harness:
        build_err = build_copy.build(a.repo, root)
        if build_err is None:
            hout = os.path.join(scratch, 'h0.json')
            h = start_harness(pid, root, hsec, seed, hout)
    results = verify.verify(units, tier, a.repo, deadline=t0 + (1800 if thorough else 420))
    hres = None
    if h is not None:
        hres = wait_harness(h, hout, hsec + (300 if thorough else 120))
    bad = [r for r in results if verify.failed(r)]
    searched = []
    fail = hres.get('failure') if hres else None
    if hres and hres.get('hang'):
        fail = {'case': None, 'message': hres['error']} if False else None
    if bad and not fail and has_harness and build_err is None:
        left = 1800 if thorough else max(30, min(150, 780 - (time.time() - t0)))
        n = 7
        ps = []
        for i in range(n):
            out = os.path.join(scratch, 's%d.json' % i)
            ps.append((start_harness(pid, root, left, seed * 1000 + i + 1, out), out))
        end = time.time() + left + 60
        pend = list(ps)
        while pend and not fail:
            for (p, out) in list(pend):
                if p.poll() is not None:
                    pend.remove((p, out))
                    r = wait_harness(p, out, 1)
                    searched.append(r)
                    fail = fail or r.get('failure')
            if time.time() > end:
                break
            time.sleep(.2)
        for p, out in pend:
            p.kill()
            p.wait()
    obs = [o for r in results for o in r['obligations']]
    proved = [o for o in obs if o['status'] == 'proved']
    broken = []
    for r in bad:
        if r.get('error'):
            broken.append('%s: %s' % (r['unit'], r['error'].strip()))
        for o in r['obligations']:
            if o['status'] != 'proved':
                broken.append('%s: %s [%s %s]' % (r['unit'], o['name'], o['status'], o.get('why', '')))
    if build_err:
        broken.append(build_err)
    if hres and hres.get('error'):
        broken.append('bounded cross-check: ' + hres['error'])
    violations = 0
    lines = []
    evd = os.path.join(HERE, 'evidence')
    os.makedirs(evd, exist_ok=True)
    rp = os.path.join(evd, 'replay-%s.json' % pid)
    if fail:
        violations = 1
        json.dump({'property': pid, 'case': fail['case'], 'message': fail['message'], 'failed_obligations': broken,
                   'how': '%s %s/replay/harness.py %s --root <build of the tree> --replay <this file>' % (PY, HERE, pid)}, open(rp, 'w'), indent=1)
        lines.append('failing input: %s' % json.dumps(fail['case'], ensure_ascii=True)[:600])
        lines.append('  ' + str(fail['message'])[:600])
        for b in broken[:12]:
            lines.append('failed obligation: ' + b[:400])
        lines.append('VIOLATION property=%s replay=%s' % (pid, rp))
    elif broken or (not obs and not has_harness):
        violations = 1
        json.dump({'property': pid, 'case': None, 'failed_obligations': broken,
                   'searched': [{k: r.get(k) for k in ('evaluations', 'distinct_nontrivial', 'wall_s', 'error')} for r in searched + [hres or {}]],
                   'verifier': results}, open(rp, 'w'), indent=1)
        for b in broken[:12]:
            lines.append('failed obligation: ' + b[:400])
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
    for k in known(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    for ln in lines:
        print(ln)
    man = {}
    try:
        man = {c['property']: c for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']}.get(pid, {})
    except (OSError, ValueError):
        pass
    backends = {}
    for o in proved:
        backends[o['backend']] = backends.get(o['backend'], 0) + 1
    assumed = sorted({x for r in results for x in r.get('assumed', [])} | {x for r in results for o in r['obligations'] for x in ['axiom ' + y for y in o.get('axioms', [])]})
    cov = {'obligations': len(obs) + sum(1 for r in results if r.get('error')), 'discharged': len(proved),
           'closed_by_evaluation': sum(r.get('trivial', 0) for r in results),
           'checker_cmd': './run_check.py %s --tier %s' % (pid, tier),
           'trusted_base': ['pyvc (verification condition generator and front end in /verif/pyvc)', 'z3 5.3.2 / z3 4.8.12 / cvc5 1.1.2', 'CPython and Cython semantics as encoded by pyvc',
                            'axiomatised sequences (/verif/pyvc/theory.py)'] + assumed,
           'functions_under_contract': [r['unit'] for r in results if r.get('kind') == 'contract'],
           'lemmas': [r['unit'] for r in results if r.get('kind') == 'lemma'],
           'inlined_functions': sorted({x for r in results for x in r.get('inlined', [])}),
           'called_by_contract': sorted({x for r in results for x in r.get('used_contracts', [])}),
           'backends': backends, 'solver_s': round(sum(o['time'] for o in obs), 2), 'max_obligation_s': round(max([o['time'] for o in obs] or [0]), 2),
           'undischarged': broken[:50]}
    if hres and 'evaluations' in hres:
        cov.update(evaluations=hres['evaluations'] + sum(r.get('evaluations', 0) for r in searched), distinct_nontrivial=hres['distinct_nontrivial'],
                   rule='bounded cross-check on the real code, never counted as proof: ' + hres['rule'], samples=hres['samples'])
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': man.get('level', 'proof'), 'coverage': cov,
          'assumptions': assumed + R.notes.get(pid, []), 'wall_s': round(time.time() - t0, 2), 'violations': violations}
    if not a.no_evidence:
        json.dump(ev, open(os.path.join(evd, pid + '.json'), 'w'), indent=1, ensure_ascii=True)
    print('%s: %d/%d obligations discharged in %d units, %d bounded evaluations, %.1f s' %
          (pid, len(proved), cov['obligations'], len(results), cov.get('evaluations', 0), time.time() - t0))
    return 1 if violations else 0


def known(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p, encoding='utf-8'):
            if ln.startswith('finding: property=%s ' % pid):
                out.append(ln.split(' ', 2)[2].strip())
    return out


if __name__ == '__main__':
    main()
