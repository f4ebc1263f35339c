#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of implemented checks."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
src = ''.join(open(os.path.join(here, 'harness', f)).read()
              for f in sorted(os.listdir(os.path.join(here, 'harness'))) if f.endswith('.go'))
done = set(re.findall(r'register\("(C\d+)"', src))
checks, na = [], []
for p in props:
    i = p['id']
    if i in done:
        race = i in ('C15', 'C25')
        checks.append({
            'property': i,
            'quick_cmd': './run.sh ' + i,
            'thorough_cmd': './run.sh ' + i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'runtime monitoring: generated workloads on the real code, observed by a reference-model monitor'
                         + (' under the Go race detector' if race else ''),
            'level': 'exploration',
            'level_note': 'Cases are fixed by VERIF_SEED; every judged execution is compared with an independent reference. VERIF_TIER=thorough runs about ten times as many cases.',
        })
    else:
        na.append({'property': i, 'reason': 'The monitor for this property is not written yet.'})
m = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': checks,
    'not_applicable': na,
    'notes': 'Checks use only the exported interface of /repo; no hooks were added there.',
}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
