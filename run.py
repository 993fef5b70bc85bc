#!/usr/bin/env python3
"""run.py <ID> quick|thorough      decide one property
   run.py replay FILE               run the case of a replay file again
   run.py setup                     build every tool once"""
import json, os, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
    os.environ[v] = '1'
from vlib import harness, build

if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'setup':
        try:
            build.Builder().build(build.ALL)
        except build.BuildError as e:
            print(e)
            sys.exit(1)
        sys.exit(0)
    if a[0] == 'replay':
        j = json.load(open(a[1]))
        sys.exit(harness.main(j['property'], 'quick', replay=os.path.abspath(a[1]), keep='--keep' in a))
    sys.exit(harness.main(a[0], a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick'), keep='--keep' in a))
