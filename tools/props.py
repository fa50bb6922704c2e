#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from engine import plan

T_LAW = 'abstract interpretation of MIR against law functions (trace-partitioned value-number/linear-relation domain, inductive loop summaries)'
T_RULE = 'whole-program call-graph / type rules over compiler-exported MIR'
T_BOTH = T_LAW + '; ' + T_RULE
NOTE = ('Every obligation is checked on every path of the current source for arbitrary inputs, element types and const parameters; a violation '
        'is only reported for a path free of approximation. Trusts rustc lowering, the models of core/alloc primitives and the stated contracts of type parameters. ')

P = []


def prop(id, title, statement, over, text, why, files, mech, technique=T_LAW, note='', na=None, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe:
        d['anchors']['observe_at'] = observe
    P.append((d, technique, NOTE + note, na))


exec(open(os.path.join(V, 'tools', 'props_text.py')).read())


def main():
    claimed = [p for p in P if p[0]['id'] in plan.PLAN and not p[3]]
    out = claimed + [p for p in P if p[3]]
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for d, _, _, _ in sorted(out, key=lambda p: p[0]['id']):
            f.write(json.dumps(d) + '\n')
    m = dict(version=1, setup_cmd='python3 setup.py',
             checks=[dict(property=d['id'], quick_cmd='python3 check.py ' + d['id'],
                          thorough_cmd='python3 check.py %s --thorough' % d['id'], technique=t, level='other', level_note=n)
                     for d, t, n, _ in claimed],
             not_applicable=[dict(property=d['id'], reason=na) for d, _, _, na in P if na])
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    miss = set(plan.PLAN) - {p[0]['id'] for p in P}
    if miss:
        print('no text for', miss)
    for d, _, _, _ in P:
        assert len(d['title']) <= 80, d['title']
        assert d['statement'].count('. ') <= 2, d['id']


main()
