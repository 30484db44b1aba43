#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of checks below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib'); sys.dont_write_bytecode = True
import specs
NA = {'P28': 'Execution time and cache state are not part of the executions that can be enumerated here: there is no timing model of the processor, and the property quantifies over pairs of secrets and micro-architectural states; exhaustive exploration of functional behaviour says nothing about it.',
      'P29': 'Unforgeability is a computational assumption about all efficient adversaries; there is no finite space of executions whose exploration would decide it. P02, P03, P04, P17 cover the verifier-side conditions it rests on.'}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append(dict(property=i, reason=NA[i])); continue
    fn = getattr(specs, i, None)
    if fn is None:
        na.append(dict(property=i, reason='check not built yet (work in progress)')); continue
    tech, note = (fn.__doc__ or ' | ').split('|', 1)
    checks.append(dict(property=i, quick_cmd=f'python3 check.py {i} quick', thorough_cmd=f'python3 check.py {i} thorough', technique=' '.join(tech.split()),
                       level='model_checking', level_note=' '.join(note.split())))
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
               notes='Every check compiles what it needs from /repo; see DESIGN.md. No hooks in /repo: all control comes from link-time interposition and parameter overrides on the compiler command line.'),
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
