#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl (the committed file is its output)."""
import json
ps = [json.loads(l) for l in open(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))) + '/properties.jsonl')]
T = 'TLA+ specification of the compiler, checked with TLC; conformance of the real code by replaying TLC enumerations into it and validating recorded executions against it'
NOTE = ('The explicit TLA+ specification prescribes the exact observable result; laws stating the property are invariants of the explored models, and every '
        'explored behaviour is compared with the real crate and executable. Bounded: models are finite and programs are sampled from generators with VERIF_SEED. '
        'Trusted: TLC, the harness, the facts about characters and entities in spec/*.json.')
m = {'version': 1, 'setup_cmd': './setup.sh',
     'checks': [{'property': p['id'], 'quick_cmd': './check.sh %s quick' % p['id'], 'thorough_cmd': './check.sh %s thorough' % p['id'],
                 'technique': T, 'level': 'model_checking', 'level_note': NOTE} for p in ps],
     'not_applicable': [],
     'notes': 'No hooks in /repo: everything is observed through the public API and the papyri executable. See DESIGN.md.'}
json.dump(m, open(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))) + '/MANIFEST.json', 'w'), indent=1)
