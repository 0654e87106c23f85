#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # claimed properties
NA = []     # not applicable


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                **({'state': [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}),
                                **({'observe_at': observe} if observe else {}), hook_needed=None)), technique, note))


def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                    anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None)), reason))


exec(open(os.path.join(HERE, 'tools', 'props_data.py')).read())


def main():
    allp = sorted([x[0] for x in P] + [x[0] for x in NA], key=lambda d: d['id'])
    assert len({d['id'] for d in allp}) == len(allp)
    for d in allp:
        assert len(d['title']) <= 80, d['id']
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for d in allp: f.write(json.dumps(d) + '\n')
    m = dict(version=1, setup_cmd='python3 lib/facts.py lib',
             checks=[dict(property=d['id'], quick_cmd='python3 run.py %s --tier quick' % d['id'],
                          thorough_cmd='python3 run.py %s --tier thorough' % d['id'],
                          technique=t, level='other', level_note=n) for d, t, n in sorted(P, key=lambda x: x[0]['id'])],
             not_applicable=[dict(property=d['id'], reason=r) for d, r in NA],
             notes='Every check dumps the compiler-resolved program (MIR of all crates of the library) of the current /repo tree '
                   'through a rustc driver built from /verif/driver and decides its property on it; nothing of /repo is executed. '
                   'No hooks are needed in /repo.')
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


main()
