#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec.py."""
import json
import os
import spec
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in sorted(spec.P, key=lambda p: p['id']):
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': p['mech'], 'observe_at': p['observe'], 'hook_needed': None},
        }, ensure_ascii=False) + '\n')
m = {
    'version': 1, 'setup_cmd': 'bash setup.sh',
    'checks': [{'property': p['id'], 'quick_cmd': f'python3 check.py {p["id"]}', 'thorough_cmd': f'python3 check.py {p["id"]}',
                'evidence_file': f'evidence/{p["id"]}.json', 'technique': p['tech'], 'level': p['level'], 'level_note': p['note']}
               for p in sorted(spec.P, key=lambda p: p['id']) if p['tech']],
    'not_applicable': [{'property': i, 'reason': r} for i, r in spec.NA],
    'notes': 'Static analysis only: no check runs the code under test. No hooks in /repo.',
}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
