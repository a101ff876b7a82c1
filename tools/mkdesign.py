#!/usr/bin/env python3
"""Writes DESIGN.md: design_head.md, the obligations per property from the registry, design_tail.md."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/engine', V + '/rules', V + '/tools']
import registry
from na import NA
NOTE = {}
for line in open(V + '/tools/design_notes.md'):
    if line.startswith('C') and ':' in line[:5]:
        i, t = line.split(':', 1)
        NOTE[i] = t.strip()
out = [open(V + '/tools/design_head.md').read(), '## 5. Per property\n\n`f = vp::g` is an equality for all inputs of function f with reference g (in spec/).\n']
for line in open(V + '/properties.jsonl'):
    p = json.loads(line)
    i = p['id']
    obs = registry.OBLIGATIONS.get(i)
    out.append('**%s %s.** ' % (i, p['title']))
    if not obs:
        out.append('Not applicable: %s\n' % NA[i])
        continue
    eqs = ['%s%s = %s%s' % (o.fn.split('Graph::')[-1], {'case': ' (letter case)', 'fold': ''}.get(o.case, ''), o.spec,
                            '' if o.only is None and not o.about else ' (its part)') for o in obs if o.kind == 'eq' and not o.safe]
    safe = [o.fn.split('Graph::')[-1] for o in obs if o.kind == 'eq' and o.safe]
    rules = [o.name for o in obs if o.kind == 'rule']
    t = []
    if eqs:
        t.append('Equalities: ' + ', '.join('`%s`' % e for e in eqs) + '.')
    if safe:
        t.append('Definedness of ' + ', '.join('`%s`' % e for e in safe) + '.')
    if rules:
        t.append('Rules: ' + '; '.join(rules) + '.')
    if i in NOTE:
        t.append(NOTE[i])
    out.append(' '.join(t) + '\n')
out.append(open(V + '/tools/design_tail.md').read())
s = '\n'.join(x if x.endswith('\n') else x for x in out).replace('.** \n', '.** ')
open(V + '/DESIGN.md', 'w').write(s)
print(len(s.split('\n')), 'lines')
