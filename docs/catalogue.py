#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json.  Run: python3 docs/catalogue.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, state=None):
    d = {'id': id, 'title': title, 'statement': ' '.join(statement.split()),
         'quantifier': {'over': over, 'text': ' '.join(text.split())},
         'why_tests_cant': ' '.join(why.split()),
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append((d, technique, note, na))


exec(open(os.path.join(HERE, 'docs', 'claimed.py')).read())
exec(open(os.path.join(HERE, 'docs', 'not_claimed.py')).read())


def main():
    ids = [d['id'] for d, *_ in P]
    assert len(ids) == len(set(ids)), 'duplicate ids'
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for d, *_ in P:
            assert len(d['title']) <= 80, d['title']
            f.write(json.dumps(d) + '\n')
    checks, nas = [], []
    for d, tech, note, na in P:
        if na:
            nas.append({'property': d['id'], 'reason': ' '.join(na.split())})
            continue
        checks.append({'property': d['id'], 'quick_cmd': f"./check {d['id']}", 'thorough_cmd': f"./check {d['id']} --thorough",
                       'technique': tech, 'level': 'other', 'level_note': ' '.join(note.split())})
    m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': nas,
         'notes': 'All checks parse /repo/dedalus from source on every run; nothing from /repo is imported or executed. '
                  'Known findings and fixed defects: known_findings.json.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
    print(len(checks), 'claimed', len(nas), 'not applicable')


if __name__ == '__main__':
    main()
