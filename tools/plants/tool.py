#!/usr/bin/env python3-vt
"""plants the bugs of a list file: tool.py FILE [ID..]: each is applied to a scratch copy of /repo, built, tested and demonstrated;
those that count are written to /verif/seeded/ID"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(os.path.dirname(H))
spec = importlib.util.spec_from_file_location('bugs', os.path.join(H, sys.argv[1]))
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
only = sys.argv[2:]
base = json.load(open('/opt/vp/BASELINE.json'))
T = '/tmp/plant'
os.environ.update(LC_ALL="C.UTF-8", PYTHONUTF8="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore::UserWarning")


def sh(cmd, cwd, t=300):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=t)


def fresh(name):
    d = os.path.join(T, name)
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', d])
    return d


os.makedirs(T, exist_ok=True)
clean = fresh('clean')
PY = '/opt/venv/bin/python'
for b in m.BUGS:
    if only and b['id'] not in only:
        continue
    d = fresh('bug')
    ok = True
    for f, old, new in b['edits']:
        p = os.path.join(d, f)
        s = open(p, encoding='utf-8').read()
        if s.count(old) != 1:
            print(b['id'], 'EDIT matches', s.count(old), 'times in', f)
            ok = False
            break
        open(p, 'w', encoding='utf-8').write(s.replace(old, new))
    if not ok:
        continue
    diff = sh('git diff', d).stdout
    if any(f.endswith(('.pyx', '.pxd')) for f, _, _ in b['edits']):
        r = sh('rm -f sudachipy/*.so sudachipy/*.c; rm -rf build; CFLAGS=-O0 %s setup.py build_ext --inplace' % PY, d, 600)
        if r.returncode:
            print(b['id'], 'BUILD FAILED', r.stderr[-500:])
            continue
    r = sh('%s -m pytest -q -x tests 2>&1 | tail -5' % PY, d)
    if ' failed' in r.stdout or ' passed' not in r.stdout:
        print(b['id'], 'TESTS:', r.stdout[-400:])
        continue
    out = os.path.join(T, 'demo')
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    open(os.path.join(out, 'demo.sh'), 'w').write('#!/bin/bash\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(os.path.join(out, 'demo.sh'), 0o755)
    code = 'import os\nimport sys\nsys.path.insert(0, os.getcwd())\n' + ('from mk import *\n' if b.get('mk', True) else '') + b['demo'].strip('\n') + '\n'
    open(os.path.join(out, 'demo.py'), 'w', encoding='utf-8').write(code)
    if b.get('mk', True):
        shutil.copy(os.path.join(H, 'mk.py'), out)
    a = sh('bash %s/demo.sh' % out, clean)
    c = sh('bash %s/demo.sh' % out, d)
    shutil.rmtree(os.path.join(out, '__pycache__'), ignore_errors=True)
    if a.returncode != 0 or c.returncode == 0:
        print(b['id'], 'DEMO clean', a.returncode, a.stderr[-600:], 'bug', c.returncode, c.stderr[-300:])
        continue
    dst = os.path.join(V, 'seeded', b['id'])
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(out, dst)
    open(os.path.join(dst, 'patch.diff'), 'w', encoding='utf-8').write(diff)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(dst, 'meta.json'), 'w'), indent=1)
    print(b['id'], 'KEPT', (c.stderr.strip().splitlines() or [''])[-1][:150])
shutil.rmtree(T, ignore_errors=True)
