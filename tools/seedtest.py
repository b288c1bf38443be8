#!/usr/bin/env python3
"""Run the checks against the planted bugs, each in a scratch copy.

seedtest.py [-j N] [ID...]: for every bug in /verif/seeded (or those given),
copies the repository and the machinery to a scratch folder, applies the patch
and runs the quick check of the bug's property there.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

PY = '/opt/venv/bin/python'


def run(bug):
    d = '/verif/seeded/' + bug
    prop = json.load(open(d + '/meta.json'))['property']
    tmp = tempfile.mkdtemp(prefix='seedtest-')
    try:
        shutil.copytree('/repo/src', tmp + '/repo/src',
                        ignore=shutil.ignore_patterns('__pycache__'))
        r = subprocess.run(['git', 'apply', '--unsafe-paths', '--directory',
                            tmp + '/repo', d + '/patch.diff'],
                           cwd='/', capture_output=True, text=True)
        if r.returncode:
            return '%-24s %s PATCH FAILS %s' % (bug, prop, r.stderr[:200])
        shutil.copytree('/verif/symex', tmp + '/verif/symex')
        shutil.copy('/verif/known_findings.txt', tmp + '/verif/')
        t = time.time()
        r = subprocess.run([PY, tmp + '/verif/symex/run.py', prop],
                           env=dict(os.environ, VERIF_REPO=tmp + '/repo'),
                           capture_output=True, text=True)
        out = r.stdout.splitlines()
        ok = r.returncode == 1 and any('VIOLATION property=%s ' % prop in l
                                       for l in out)
        why = [l.strip() for l in out if l.startswith('  ')][:1]
        return '%-24s %s %s %4.0fs %s' % (
            bug, prop, 'caught' if ok else 'MISSED rc=%d' % r.returncode,
            time.time() - t, (why or [''])[0][:110])
    finally:
        shutil.rmtree(tmp)


def main():
    args = sys.argv[1:]
    jobs = 2
    if args[:1] == ['-j']:
        jobs, args = int(args[1]), args[2:]
    bugs = args or sorted(os.listdir('/verif/seeded'))
    with ThreadPoolExecutor(jobs) as ex:
        for line in ex.map(run, bugs):
            print(line, flush=True)


if __name__ == '__main__':
    main()
