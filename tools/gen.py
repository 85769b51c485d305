#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py; a property is claimed when rules/<id>.py exists."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import PROPS, NOT_APPLICABLE

NOTE = ('Path-sensitive abstract interpretation of the current MIR: every path of the analysed functions is covered, '
        'with loops widened to all iteration counts, so a pass speaks for all inputs of the modelled domain. Trusted: '
        'rustc type check and MIR, driver/, fx/engine.py, the transfer functions of std/dashmap/tokio/roxmltree calls in '
        'fx/models.py. %s')
checks, na = [], []
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['all']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
        if p['id'] in NOT_APPLICABLE:
            na.append({'property': p['id'], 'reason': NOT_APPLICABLE[p['id']]})
        elif os.path.exists(os.path.join(HERE, 'rules', p['id'].lower() + '.py')):
            checks.append({
                'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'],
                'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                'evidence_file': 'evidence/%s.json' % p['id'],
                'technique': p['technique'], 'level': 'other', 'level_note': NOTE % p.get('note', '')})
        else:
            na.append({'property': p['id'], 'reason': 'no check has been built for it yet'})
json.dump({'version': 1, 'setup_cmd': './facts.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'All checks are static: facts.sh extracts typed MIR from the current /repo, check.py decides one property.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print('%d properties, %d claimed, %d not applicable' % (len(PROPS), len(checks), len(na)))
