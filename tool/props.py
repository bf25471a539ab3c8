"""Writes properties.jsonl and MANIFEST.json from the table in tool/props_table.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tool'))
from props_table import P

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['forall']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [dict(name=a, where=b) for a, b in p['mech']],
                                        **({'state': [dict(name=a, meaning=b) for a, b in p['state']]} if 'state' in p else {})}}) + '\n')
checks = [{'property': p['id'], 'quick_cmd': 'python3 run.py ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 run.py ' + p['id'],
           'technique': p['technique'], 'level': 'other', 'level_note': p['note']} for p in P if 'technique' in p]
na = [{'property': p['id'], 'reason': p['na']} for p in P if 'na' in p]
json.dump({'version': 1, 'setup_cmd': 'bash tool/build.sh', 'checks': checks, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
