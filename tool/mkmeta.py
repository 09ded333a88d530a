#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PR = []
CH = []
NA = []


def prop(pid, title, statement, over, text, tests, files, mech, state=None, observe=None):
    assert len(title) <= 80, (pid, len(title))
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = None
    PR.append({'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': tests, 'anchors': a})


def check(pid, technique, note):
    CH.append({'property': pid, 'quick_cmd': 'python3 check.py %s' % pid, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % pid,
               'evidence_file': 'evidence/%s.json' % pid, 'technique': technique, 'level': 'other', 'level_note': note})


def na(pid, reason):
    NA.append({'property': pid, 'reason': reason})


exec(open(os.path.join(V, 'tool', 'meta_table.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in sorted(PR, key=lambda p: p['id']):
        f.write(json.dumps(p) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 tool/setup.py', 'checks': sorted(CH, key=lambda c: c['property']),
     'not_applicable': NA,
     'notes': 'Static analysis only; no hooks in /repo. Engine: tool/irdump.cpp (LLVM 18 IR to JSON), sa/ (value-flow analysis), check.py (driver).'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
ids = {p['id'] for p in PR}
assert ids == {c['property'] for c in CH} | {n['property'] for n in NA}, ids ^ ({c['property'] for c in CH} | {n['property'] for n in NA})
