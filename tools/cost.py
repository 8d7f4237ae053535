"""Collect what the last runs covered (evidence/*.json) into tools/cost.json: cost.py [EVIDENCE-DIR]."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = sys.argv[1] if len(sys.argv) > 1 else os.path.join(V, 'evidence')
C = os.path.join(V, 'tools', 'cost.json')
d = json.load(open(C)) if os.path.exists(C) else {}
for f in sorted(os.listdir(E)):
    if f.startswith('C') and f.endswith('.json'):
        e = json.load(open(os.path.join(E, f)))
        c = e['coverage']
        r = d.setdefault(e['property'], {})
        r[e['tier']] = dict(executions=c['traces_validated_against_impl'], transitions=c['transitions'], states=c['states'],
                            outcomes=c['distinct_outcomes'], wall=e['wall_s'])
        r['assumptions'] = e.get('assumptions', [])
json.dump(d, open(C, 'w'), indent=1, sort_keys=True)
