"""Builds a scratch copy of the repository's package (current working tree) with its three Cython extensions at -O0."""
import os
import shutil
import subprocess
import sys

PY = '/opt/venv/bin/python'


def env():
    e = dict(os.environ)
    e.update(PATH='/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', LC_ALL='C.UTF-8', PYTHONUTF8='1', PYTHONHASHSEED='0',
             PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore')
    for k in ('PYTHONPATH', 'PYTHONHOME'):
        e.pop(k, None)
    return e


def build(root, dest):
    """copy root/sudachipy and root/tests/resources to dest and compile; returns an error text or None"""
    def ign(d, names):
        return [n for n in names if n.endswith(('.so', '.c', '.pyc')) or n == '__pycache__']
    shutil.copytree(os.path.join(root, 'sudachipy'), os.path.join(dest, 'sudachipy'), ignore=ign)
    e = env()
    q = subprocess.run([PY, '-c', "import sysconfig;print(sysconfig.get_path('include'));print(sysconfig.get_config_var('EXT_SUFFIX'))"],
                       capture_output=True, text=True, env=e)
    inc, suf = q.stdout.split('\n')[:2]
    procs = []
    for d, _, fs in os.walk(os.path.join(dest, 'sudachipy')):
        for f in fs:
            if f.endswith('.pyx'):
                b = os.path.relpath(os.path.join(d, f[:-4]), dest)
                cmd = 'cython %s.pyx -o %s.c && gcc -shared -fPIC -O0 -w -I%s %s.c -o %s%s' % (b, b, inc, b, b, suf)
                procs.append((b, subprocess.Popen(cmd, shell=True, cwd=dest, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    err = None
    for b, p in procs:
        out, _ = p.communicate()
        if p.returncode != 0:
            err = '%s does not build:\n%s' % (b, out[-3000:])
    return err
