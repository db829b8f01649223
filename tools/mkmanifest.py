#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a suite harness/s_<id>.cpp is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/harness/s_%s.cpp' % (V, i)):
        checks.append({'property': i, 'quick_cmd': 'bin/check ' + i, 'thorough_cmd': 'VERIF_TIER=thorough bin/check ' + i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'TLA+ specification; TLC validates recorded executions of the real library event by event, and replays model-generated cases',
            'level': 'model_checking',
            'level_note': 'Every recorded call of the real code is checked by TLC to be a step of the specification (exact oracle, no sampling inside the check); the calls themselves are a large seeded sample of inputs, exhaustive only on the model-exported small domains. Trusts TLC, the JSON serialisation in harness/core.cpp and the Java overrides of Algebra.tla (cross-checked against their TLA+ definitions).'})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': 'make -f build.mk -j8 -s lib java', 'checks': checks, 'not_applicable': na,
  'notes': 'No hooks in /repo: the library is driven through its public API, so no guarded instrumentation is needed. fix: commits in /repo are listed in known-findings.jsonl.'},
  open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
