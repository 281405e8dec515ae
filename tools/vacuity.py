"""After the checks have run: which sub-checks had mostly trivial cases (reads /verif/evidence)."""
import glob
import json
import os
import sys

bad = 0
for f in sorted(glob.glob(os.path.join(os.path.dirname(__file__), '..', 'evidence', 'C*.json'))):
    d = json.load(open(f))
    for k, v in d['coverage']['subchecks'].items():
        t, n = v['classes'].get('trivial', 0), v['evaluations']
        if n == 0 or t * 2 > n:
            print('%s %s: %d of %d trivial' % (d['property'], k, t, n))
            bad += t == n
        if v.get('not_run_time_limit'): print('%s %s: %d not run' % (d['property'], k, v['not_run_time_limit']))
sys.exit(1 if bad else 0)
