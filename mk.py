#!/usr/bin/env python3
"""writes properties.jsonl, MANIFEST.json and the generated part of DESIGN.md from spec.py"""
import json, os, re, subprocess
os.chdir(os.path.dirname(os.path.abspath(__file__)))
from spec import P
with open('properties.jsonl', 'w') as f:
    for p in sorted(P, key=lambda p: p['id']):
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        assert len(re.findall(r'[.?!](?=\s|$)', p['statement'])) <= 3, (p['id'], re.findall(r'[.?!](?=\s|$)', p['statement']))
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                                        'hook_needed': None}}) + '\n')
for p in P:
    for x in p['files']:
        assert os.path.exists('/repo/' + x), x
m = {'version': 1, 'setup_cmd': 'python3 run.py setup',
     'hooks': {'guard': 'none', 'enable': 'no hooks in /repo: the checks compile its sources with sanitizers and watch from outside (LD_PRELOAD, files, exit codes)', 'source_commits': []},
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 run.py %s quick' % p['id'], 'thorough_cmd': 'python3 run.py %s thorough' % p['id'],
                 'technique': p['technique'], 'level': p['level'], 'level_note': p['note']} for p in sorted(P, key=lambda p: p['id'])],
     'not_applicable': []}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
head = open('DESIGN.head.md').read()
out = [head.rstrip(), '', '## Properties and how each is decided', '']
for p in sorted(P, key=lambda p: p['id']):
    out += ['### %s %s' % (p['id'], p['title']), '', '*Technique:* %s.' % p['technique'], '', p['design'], '', '*Bounds and trust:* %s' % p['note'],
            '', '*Reaches beyond the tests:* %s' % p['why'], '']
if os.path.exists('DESIGN.tail.md'):
    out += [open('DESIGN.tail.md').read().rstrip(), '']
open('DESIGN.md', 'w').write('\n'.join(out))
