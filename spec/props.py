#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 spec/props.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []   # (dict for properties.jsonl, technique or None, level_note or NA reason)


def prop(id, title, statement, over, text, tests, files, mech, technique=None, note=None, na=None, level='proof'):
    P.append(({'id': id, 'title': title, 'statement': statement,
               'quantifier': {'over': over, 'text': text}, 'why_tests_cant': tests,
               'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}}, technique, note, na))


exec(open(os.path.join(V, 'spec', 'list.py')).read())

if __name__ == '__main__':
    assert len({p[0]['id'] for p in P}) == len(P)
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p[0]['title']) <= 80, p[0]['title']
            f.write(json.dumps(p[0]) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 engine/facts.py', 'checks': [], 'not_applicable': [],
         'notes': 'All checks share one extraction of facts (clang libTooling) from /repo\'s working tree, cached by content hash in /verif/.cache; no hook in /repo is needed.'}
    for d, tech, note, na in P:
        if na: m['not_applicable'].append({'property': d['id'], 'reason': na})
        else:
            c = 'python3 engine/check.py ' + d['id']
            m['checks'].append({'property': d['id'], 'quick_cmd': c, 'thorough_cmd': c, 'technique': tech, 'level': 'proof', 'level_note': note})
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(m['checks']), 'claimed', len(m['not_applicable']), 'n/a')
