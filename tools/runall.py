#!/usr/bin/env python3
"""Runs every check listed in MANIFEST.json one after the other."""
import json
import os
import subprocess
import sys
import time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tier = sys.argv[1] if len(sys.argv) > 1 else 'quick'
only = sys.argv[2:]
for c in json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['checks']:
    if only and c['property'] not in only:
        continue
    t = time.time()
    r = subprocess.run(c[tier + '_cmd'].replace('/verif/', ROOT + '/'),
                       shell=True, capture_output=True, text=True,
                       env=dict(os.environ, VERIF_TIER=tier))
    last = r.stdout.strip().splitlines()[-1:] or [r.stderr[-300:]]
    print("rc=%d %.0fs %s" % (r.returncode, time.time() - t, last[0]),
          flush=True)
    if r.returncode or ' 0 inconclusive' not in last[0]:
        print('\n'.join('    ' + x[:400] for x in r.stdout.splitlines()
                        if 'incon' in x or 'VIOL' in x or x[:2] == '  '),
              flush=True)
