"""writes MANIFEST.json from the checks present in gcv/checks"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = json.load(open(os.path.join(V, 'tools', 'na.json')))
TECH = json.load(open(os.path.join(V, 'tools', 'technique.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'gcv', 'checks', i.lower() + '.py')):
        t = TECH.get(i, {})
        checks.append({
            'property': i,
            'quick_cmd': 'python3 -m gcv.check ' + i,
            'thorough_cmd': 'python3 -m gcv.check ' + i,
            'technique': t.get('technique', 'static analysis: abstract interpretation (gated value terms) of the source'),
            'level': 'other',
            'level_note': t.get('note', TECH['default']['note']),
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 -m compileall -q gcv', 'checks': checks, 'not_applicable': na,
           'notes': 'Pure static analysis with the Python standard library; nothing of /repo is imported or executed. See DESIGN.md.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
