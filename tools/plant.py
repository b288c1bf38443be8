#!/usr/bin/env python3
"""Confirm a planted bug in a scratch copy and keep it in /verif/seeded.

plant.py SPEC.py [ID...]: SPEC.py defines BUGS, a list of dicts with
id, property, needs, breaks, edits [(file, old, new)] and demo (Python code
that exits non-zero if the behaviour is wrong).  A bug is kept only if it
compiles, passes the stable tests and its demonstration fails with the change
and passes without.  --fast skips the tests.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor

SEEDED = '/verif/seeded'
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1',
           OMP_NUM_THREADS='1', PYTHONHASHSEED='0')
DEMO = '''#!/bin/bash
# run in the root of the repository: fails iff the behaviour is broken
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1
PYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def failing(copy):
    out = os.path.join(copy, 'junit.xml')
    subprocess.run([PY, '-m', 'pytest', 'test', '-q', '-x', '-p',
                    'no:cacheprovider', '--timeout=300', '--junitxml=' + out],
                   cwd=copy, env=dict(ENV, PYTHONPATH=copy + '/src'),
                   capture_output=True)
    bad, good = [], 0
    for c in ET.parse(out).getroot().iter('testcase'):
        if c.find('failure') is not None or c.find('error') is not None:
            bad.append(c.get('classname') + '::' + c.get('name'))
        else:
            good += 1
    return bad, good


def confirm(bug, fast=False):
    tmp = tempfile.mkdtemp(prefix='plant-')
    copy = tmp + '/repo'
    try:
        subprocess.run(['git', 'worktree', 'prune'], cwd='/repo')
        subprocess.run(['git', 'clone', '-q', '/repo', copy], check=True)
        d = tmp + '/seed'
        os.mkdir(d)
        open(d + '/demo.py', 'w').write(bug['demo'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)

        def demo():
            return subprocess.run(['bash', d + '/demo.sh'], cwd=copy,
                                  capture_output=True, text=True, timeout=300)
        r0 = demo()
        if r0.returncode != 0:
            return 'demo fails on the unchanged tree: ' + r0.stderr[-600:]
        for f, old, new in bug['edits']:
            p = copy + '/src/sparse_ir/' + f
            t = open(p).read()
            if t.count(old) != 1:
                return 'edit matches %d times: %r' % (t.count(old), old)
            t = t.replace(old, new)
            open(p, 'w').write(t)
            compile(t, p, 'exec')
            for i, l in enumerate(t.split('\n')):
                if l != l.rstrip() or len(l) > 90:
                    return 'style %s:%d' % (f, i + 1)
        diff = subprocess.run(['git', 'diff'], cwd=copy, capture_output=True,
                              text=True).stdout
        # removed lines must be original ones
        orig = set()
        for f in os.listdir('/repo/src/sparse_ir'):
            if f.endswith('.py'):
                t = subprocess.run(['git', 'show', '3f635bc:src/sparse_ir/' + f],
                                   cwd='/repo', capture_output=True, text=True)
                orig |= set(t.stdout.split('\n'))
        removed = [l[1:] for l in diff.split('\n')
                   if l.startswith('-') and not l.startswith('---')]
        bad = [l for l in removed if l not in orig]
        if bad or not removed:
            return 'changes lines that are not original: %r' % bad
        r1 = demo()
        if r1.returncode == 0:
            return 'demo passes with the change'
        if not fast:
            bad, good = failing(copy)
            if bad:
                return 'tests fail: %s' % bad[:3]
            if good < 97:
                return 'only %d tests passed' % good
        dst = os.path.join(SEEDED, bug['id'])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        shutil.rmtree(dst + '/__pycache__', ignore_errors=True)
        open(dst + '/patch.diff', 'w').write(diff)
        json.dump({'property': bug['property'], 'needs': bug['needs'],
                   'what_it_breaks': bug['breaks']},
                  open(dst + '/meta.json', 'w'), indent=1)
        return 'kept'
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    args = [a for a in sys.argv[1:] if a != '--fast']
    fast = '--fast' in sys.argv
    ns = {}
    exec(open(args[0]).read(), ns)
    bugs = [b for b in ns['BUGS'] if not args[1:] or b['id'] in args[1:]]
    with ThreadPoolExecutor(4) as ex:
        for b, r in zip(bugs, ex.map(lambda b: confirm(b, fast), bugs)):
            print(b['id'], '->', r, flush=True)


if __name__ == '__main__':
    main()
