#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/engine', V + '/rules', V + '/tools']
import registry
from na import NA
METHOD = {'exits': 'call-graph rule on exits and handlers', 'lexer': 'equivalence of lexer automata', 'pipeline': 'typestate analysis of '
          'the thread pipeline over a finite domain', 'effects': 'interprocedural effect and escape analysis over access paths'}
checks, na = [], []
for line in open(V + '/properties.jsonl'):
    p = json.loads(line)
    i = p['id']
    obs = registry.OBLIGATIONS.get(i)
    if not obs:
        na.append({'property': i, 'reason': NA.get(i, 'No check for it has been built yet.')})
        continue
    eqs = [o for o in obs if o.kind == 'eq']
    rules = [o for o in obs if o.kind == 'rule']
    tech = []
    if eqs:
        tech.append('gated value numbering: %d function/specification equalities for all inputs' % len(eqs))
    if rules:
        tech += sorted({METHOD.get(o.f.__module__, 'structural rule over the type-checked program') for o in rules})
    checks.append({
        'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
        'technique': '; '.join(tech), 'level': 'other',
        'level_note': 'Static analysis of the current source. ' + ' '.join(
            ['Equalities decided by normal form: ' + ', '.join(o.fn.split('::')[-1] for o in eqs) + '.' if eqs else '',
             'Rules: ' + '; '.join(o.name for o in rules) + '.' if rules else '']).strip() +
        ' Trusted: the front end, the models of library calls, and the specification text. Values the analysis cannot '
        'resolve are listed as not decided in the evidence and never raise an alarm.'})
json.dump({'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks, 'not_applicable': na},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
