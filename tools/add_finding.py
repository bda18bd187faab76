#!/usr/bin/env python3
"""add_finding.py fixed PROP GREP_OF_COMMIT WHAT | known PROP ID KEY REPLAY|- WHAT"""
import json
import os
import subprocess
import sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(p))
a = sys.argv[1:]
if a[0] == 'fixed':
    c = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h', '--grep', a[2], '-F'],
                                text=True).split()[0]
    d['findings'].append({'property': a[1], 'status': 'fixed', 'commit': c,
                          'what': f'fixed: property={a[1]} {c} {a[3]}'})
else:
    e = {'property': a[1], 'id': a[2], 'status': 'known', 'key': a[3]}
    if a[4] != '-':
        e['replay'] = a[4]
    e['what'] = a[5]
    d['findings'].append(e)
json.dump(d, open(p, 'w'), indent=1)
