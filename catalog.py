#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 catalog.py"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
INPUT = 'input'
P = []


def prop(id, title, statement, text, why, files, mech, observe, state=(), over=('inputs',), claimed=True, level='proof', note='', reason=None):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech, observe=observe, state=list(state),
                  over=list(over), claimed=claimed, level=level, note=note, reason=reason))


exec(open(os.path.join(HERE, 'catalog_data.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], state=p['state'],
                             observe_at=p['observe'], hook_needed=None))) + '\n')
    checks, na = [], []
    for p in P:
        if p['claimed']:
            checks.append(dict(property=p['id'], quick_cmd='python3-vt check.py %s --tier quick' % p['id'],
                               thorough_cmd='python3-vt check.py %s --tier thorough' % p['id'],
                               technique='contract-based deductive verification: weakest-precondition obligations generated from the LLVM IR of the real functions on every run, discharged by z3/cvc5; counterexamples replayed on the real code',
                               level=p['level'], level_note=p['note'], evidence_file='evidence/%s.json' % p['id']))
        else:
            na.append(dict(property=p['id'], reason=p['reason']))
    m = dict(version=1, setup_cmd='python3-vt setup_check.py', checks=checks, not_applicable=na,
             notes='No hooks in /repo. See DESIGN.md. check.py exits 0 (held) or 1 + VIOLATION line.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
