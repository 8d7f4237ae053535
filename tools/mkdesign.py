"""
Write DESIGN.md: tools/design_head.md, a section per property from
properties.jsonl and notes.json, and the planted bugs with what caught them
(tools/caught.json, written by seed.py check).
"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(V, 'tools')
notes = json.load(open(os.path.join(T, 'notes.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
try:
    caught = json.load(open(os.path.join(T, 'caught.json')))
except IOError:
    caught = {}
try:
    cost = json.load(open(os.path.join(T, 'cost.json')))
except IOError:
    cost = {}
out = [open(os.path.join(T, 'design_head.md')).read().rstrip(), '', '## The properties, one by one', '']
for p in props:
    i = p['id']
    n = notes[i]
    out += ['### %s %s' % (i, p['title']), '']
    out += ['- **Technique:** ' + n['technique'] + '.']
    out += ['- **Enumerated:** ' + n['enumerates']]
    out += ['- **Oracle:** ' + n['oracle']]
    out += ['- **Bounds:** ' + n['bounds']]
    out += ['- **Why not by tests:** ' + n['reaches']]
    c = cost.get(i)
    if c:
        for tier in ('quick', 'thorough'):
            if tier in c:
                k = c[tier]
                out += ['- **%s run:** %d executions, %d operations on the code, %d distinct states, %d distinct outcomes, %.0f s.' % (
                    tier.capitalize(), k['executions'], k['transitions'], k['states'], k['outcomes'], k['wall'])]
    a = c.get('assumptions') if c else None
    if a:
        out += ['- **Assumptions:** ' + '; '.join(a) + '.']
    out += ['']
out += ['## Planted bugs and what catches them', '',
        'Each was written from a property\'s text and the code, before looking at what the check covers. "First" says whether the '
        'check caught it as it was then; where it did not, the check was extended in the way noted and catches it now.', '',
        '| bug | property | needs | breaks | caught by |', '|---|---|---|---|---|']
hist = json.load(open(os.path.join(T, 'missed_first.json')))
S = os.path.join(V, 'seeded')
for i in sorted(os.listdir(S)) if os.path.isdir(S) else []:
    m = json.load(open(os.path.join(S, i, 'meta.json')))
    c = caught.get(i)
    w = 'not run' if c is None else (', '.join(c) if c else 'nothing')
    if i in hist:
        w += ' (missed first; ' + hist[i] + ')'
    out += ['| %s | %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/'), w)]
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
