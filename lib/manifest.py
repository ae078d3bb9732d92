#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the configured checks (run by hand after changing config.py)."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from config import CHECKS
from props import P
hooks = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout.splitlines()
m = dict(version=1, setup_cmd='./check --setup',
         hooks=dict(guard='PARDETRIA_VERIF', enable="the harness builds compile /repo's sources with -DPARDETRIA_VERIF=<cutoff>, e.g. ((1u<<D)+2)",
                    source_commits=[h.split()[0] for h in hooks if 'PARDETRIA_VERIF' in h]),
         checks=[], not_applicable=[], notes='see DESIGN.md')
for p in P:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        m['checks'].append(dict(property=i, quick_cmd=f'./check {i} quick', thorough_cmd=f'./check {i} thorough', evidence_file=f'evidence/{i}.json',
                                technique=c.get('technique', 'stateless model checking of the real code: exhaustive bounded enumeration of executions'),
                                level='model_checking', level_note=c.get('note', '')))
    else:
        m['not_applicable'].append(dict(property=i, reason='check not built yet'))
json.dump(m, open(os.path.join(here, '..', 'MANIFEST.json'), 'w'), indent=1)
