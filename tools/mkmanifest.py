#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib')); sys.dont_write_bytecode = True
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for i in ids:
    if i not in props.PROPS: continue
    P = props.PROPS[i]
    checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
        evidence_file='evidence/%s.json' % i, level='model_checking',
        technique='TLA+ specification checked with TLC; its behaviours replayed into the library and recorded library traces validated against it by TLC',
        level_note='TLC explores the small-scope model (%s) exhaustively and checks the laws of the property on it; the transitions are replayed into the real code built with address/undefined-behaviour sanitizers, and every step of those and of seeded random histories is accepted or rejected by the same specification. %sTrusted: TLC, the driver in harness/ that reports contents through the public interface, the sanitizers; beyond the explored scope the evidence is sampled.' % (P.modelname, P.trust)))
na = [dict(property=i, reason='check under construction') for i in ids if i not in props.PROPS]
json.dump(dict(version=1, setup_cmd='python3 check.py setup', checks=checks,
    hooks=dict(guard='none', enable='no hooks: the driver uses only the public interface of the library', source_commits=[]),
    not_applicable=na, notes='See DESIGN.md. Repaired defects are listed in known_findings.txt.'),
    open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
