"""Write MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
notes = json.load(open(os.path.join(V, 'tools', 'notes.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'mc', 'props', i + '.py')):
        n = notes.get(i, {})
        checks.append({
            'property': i,
            'quick_cmd': 'bash run.sh %s quick' % i,
            'thorough_cmd': 'bash run.sh %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': n.get('technique', 'stateless model checking of the real code: exhaustive enumeration of bounded '
                                            'executions against a reference model'),
            'level': 'model_checking',
            'level_note': n.get('note', 'Exhaustive within the bounds stated in DESIGN.md, on the real code.'),
        })
    else:
        na.append({'property': i, 'reason': notes.get(i, {}).get('na', 'no check has been built for it yet')})
json.dump({'version': 1,
           'setup_cmd': '/opt/venv/bin/python -c "import twisted, zope.interface"',
           'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: the checks drive the unmodified code in /repo through its public API. See DESIGN.md.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
