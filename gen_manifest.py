#!/usr/bin/env python3
"""regenerates MANIFEST.json from lib/props.py"""
import json, sys
sys.path.insert(0, 'lib')
from props import PROPS, NOTES, NA
TECH = 'path-sensitive typestate and dataflow analysis of the compiler IR of /repo (no execution, no solver)'
m = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': [], 'not_applicable': []}
for i in range(1, 21):
    p = 'C%02d' % i
    if p in PROPS:
        m['checks'].append({'property': p, 'quick_cmd': 'python3 check.py %s quick' % p, 'thorough_cmd': 'python3 check.py %s thorough' % p, 'technique': NOTES.get(p, {}).get('technique', TECH),
                            'level': 'other', 'level_note': NOTES.get(p, {}).get('note', 'static rules over every path of the analysed operations; see DESIGN.md')})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'no check built yet')})
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
