#!/usr/bin/env python3
"""writes MANIFEST.json from manifest_table.py"""
import json, os
from manifest_table import CHECKS, NOT_APPLICABLE, NOTES
h = os.path.dirname(os.path.abspath(__file__))
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3"', 'checks': [], 'not_applicable': [], 'notes': NOTES}
for pid, technique, level, note in CHECKS:
    m['checks'].append({'property': pid, 'quick_cmd': 'python3-vt check.py %s' % pid,
                        'thorough_cmd': 'python3-vt check.py %s --thorough' % pid,
                        'evidence_file': 'evidence/%s.json' % pid, 'technique': technique, 'level': level, 'level_note': note})
claimed = {c[0] for c in CHECKS}
for ln in open(os.path.join(h, 'properties.jsonl')):
    p = json.loads(ln)
    if p['id'] not in claimed:
        m['not_applicable'].append({'property': p['id'], 'reason': NOT_APPLICABLE.get(p['id'], 'not reached yet')})
json.dump(m, open(os.path.join(h, 'MANIFEST.json'), 'w'), indent=1)
