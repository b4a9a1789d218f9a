#!/usr/bin/env python3
"""writes MANIFEST.json from the checks present in sa/checks (each module carries TECHNIQUE and NOTE) and the reasons below"""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.setrecursionlimit(100000)
NA = {}
p = os.path.join(HERE, 'tools', 'not_applicable.json')
if os.path.exists(p):
    NA = json.load(open(p))
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl')) if l.strip()]
checks, na = [], []
for pid in ids:
    f = os.path.join(HERE, 'sa', 'checks', pid.lower() + '.py')
    if os.path.exists(f) and pid not in NA:
        m = importlib.import_module('checks.' + pid.lower())
        checks.append({'property': pid, 'quick_cmd': f'python3 check.py {pid}', 'thorough_cmd': f'python3 check.py {pid} --tier thorough',
                       'evidence_file': f'evidence/{pid}.json', 'technique': m.TECHNIQUE, 'level': 'other', 'level_note': m.NOTE})
    else:
        na.append({'property': pid, 'reason': NA.get(pid, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
