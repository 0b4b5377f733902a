#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, go/*/check.json and tools/na.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
na = json.load(open(V + '/tools/na.json'))
checks, nas = [], []
for p in props:
    i = p['id']
    cj = f'{V}/go/{i.lower()}/check.json'
    if os.path.exists(cj) and i not in na:
        c = json.load(open(cj))
        checks.append({
            'property': i,
            'quick_cmd': f'./run.sh {i} quick',
            'thorough_cmd': f'./run.sh {i} thorough',
            'technique': 'symbolic execution of the Go SSA of the real code; path conditions and assertions decided by Z3, counterexamples replayed natively',
            'level': 'model_checking',
            'level_note': 'Bounded, within: ' + '; '.join(c['bounds']) + '. Outside: ' + '; '.join(c['outside']) + '.',
        })
    else:
        nas.append({'property': i, 'reason': na.get(i, 'the check is not built yet')})
m = {'version': 1, 'setup_cmd': './build.sh', 'checks': checks, 'not_applicable': nas,
     'notes': 'Every check is bin/gosym, built from engine/ on each run; see DESIGN.md.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(nas), 'not applicable')
