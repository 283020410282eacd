#!/usr/bin/env python3
"""tools/plant.py SPEC.py [ids...]: turns planted-bug descriptions into seeded/<id>/.

SPEC.py defines SEEDS = [dict(id, prop, edits=[(file, old, new), ...], demo, needs, breaks)].
Each is applied in a scratch copy of /repo; it must change original lines only,
compile, pass the tests of src/validation, and its demo must pass without and
fail with it.  With --check the property's quick check is run against the copy.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

BASE = '711c0b7'
ENV = dict(os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', PYTHONHASHSEED='0')
PY = '/opt/venv/bin/python'
PRE = '''import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
import contextlib, io
import numpy as np


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def close(a, b, rtol=1e-6):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= rtol * np.abs(b).max()))


'''
SH = '''#!/bin/bash
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
unset PYTHONPATH
exec /opt/venv/bin/python -B -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, env=ENV, timeout=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    check = '--check' in sys.argv
    seeds = runpy.run_path(args[0])['SEEDS']
    for s in seeds:
        if args[1:] and s['id'] not in args[1:]:
            continue
        t = tempfile.mkdtemp(prefix='plant_')
        try:
            one(s, t, check)
        finally:
            shutil.rmtree(t, ignore_errors=True)


def one(s, t, check):
    w = os.path.join(t, 'repo')
    sh(['cp', '-a', '/repo', w], '/')
    say = lambda m: print('%-28s %s %s' % (s['id'], s['prop'], m), flush=True)
    for f, old, new in s['edits']:
        p = os.path.join(w, f)
        x = open(p, newline='').read()
        crlf = '\r\n' in x
        if crlf:
            old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        if x.count(old) != 1:
            return say('BAD: %d matches in %s of %r' % (x.count(old), f, old[:60]))
        open(p, 'w', newline='').write(x.replace(old, new))
    rc, diff = sh(['git', 'diff', '--no-color'], w)
    orig = False
    for f in {e[0] for e in s['edits']}:
        _, bl = sh(['git', 'blame', '-s', '-l', 'HEAD', '--', f], w)
        lines = bl.split('\n')
        _, d = sh(['git', 'diff', '--no-color', '-U0', '--', f], w)
        for l in d.split('\n'):
            if l.startswith('@@'):
                a = l.split()[1][1:].split(',')
                for i in range(int(a[0]), int(a[0]) + int(a[1] if len(a) > 1 else 1)):
                    if lines[i - 1].lstrip('^').startswith(BASE):
                        orig = True
                    else:
                        say('warning: changes a line of a later commit: ' + lines[i - 1][50:120])
    if not orig:
        say('not planted: no original line changed')
    d = os.path.join(t, s['id'])
    os.makedirs(d)
    open(os.path.join(d, 'demo.py'), 'w').write(PRE + s['demo'].strip() + '\n')
    open(os.path.join(d, 'demo.sh'), 'w').write(SH)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    demo = ['bash', os.path.join(d, 'demo.sh')]
    for f in {e[0] for e in s['edits']}:
        rc, o = sh([PY, '-m', 'py_compile', f], w)
        if rc:
            return say('BAD: does not compile ' + o[-300:])
    rc, o = sh(demo, '/repo', timeout=280)
    if rc:
        return say('BAD: demo fails on the unchanged tree:\n' + o[-600:])
    rc1, o1 = sh(demo, w, timeout=280)
    if rc1 == 0:
        return say('BAD: demo passes with the change')
    rc, o = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--rootdir=' + w, '-o', 'python_files=*test.py test_*.py',
                '--ignore=src/validation/Old and Partial Tests', w], w, env=dict(ENV, PYTHONPATH=os.path.join(w, 'src')))
    if '15 passed' not in o:
        return say('BAD: tests: ' + o[-300:])
    if orig:
        dst = os.path.join(os.environ.get('SEED_OUT', '/verif/seeded'), s['id'])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        open(os.path.join(dst, 'patch.diff'), 'w', newline='').write(diff)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(os.path.join(dst, 'meta.json'), 'w'), indent=1)
        say('planted (%s)' % o1.strip().split('\n')[-1][:100])
    if check:
        rc, o = sh(['./check', s['prop'], '--quick'], os.environ.get('VERIF_AT', '/verif'), env=dict(ENV, VERIF_REPO=w, VERIF_SEED='1', VERIF_TIER='quick'))
        line = [l for l in o.split('\n') if '"scenario"' in l or 'what' in l]
        say(('CAUGHT ' if rc == 1 and 'VIOLATION property=' + s['prop'] in o else 'MISSED rc=%d ' % rc) + (line[0][:260] if line else o[-200:]))


main()
