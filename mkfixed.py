#!/usr/bin/env python3
"""prints the `fixed:` lines of known_findings.txt from /repo's fix commits; owner by tool named in the subject"""
import re, subprocess
OWN = [('mppnccombine -r', 'C02'), ('mppnccombine', 'C01'), ('mppncscatter', 'C03'), ('scatter-ncc', 'C05'), ('decompress-ncc', 'C06'), ('combine-ncc', 'C04'),
       ('combine_restarts', 'C07'), ('is-compressed', 'C11'), ('list_ncvars', 'C11'), ('ncexists', 'C11'), ('time_average', 'C09'), ('timavg', 'C09'), ('split_ncvars', 'C10'), ('make_hgrid cubic', 'C13'), ('make_hgrid', 'C12')]
OWN += [l for l in __import__('json').load(open('owners.json'))] if __import__('os').path.exists('owners.json') else []
for l in reversed(subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s']).decode().splitlines()):
    h, s = l.split(' ', 1)
    if s.startswith('fix: '):
        own = [p for k, p in OWN if k in s]
        print('fixed: property=%s %s %s' % (own[0] if own else 'C01', h, s[5:]))
