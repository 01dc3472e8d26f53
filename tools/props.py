#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # claimed
NA = []     # listed, not claimed: (prop, reason)
def prop(id, title, statement, text, why, mech, over=('inputs',), observe=None, note='', na=None, technique=None):
    p = dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
             anchors=dict(files=['strtk.hpp'], mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: p['anchors']['observe_at'] = observe
    assert len(title) <= 80, id
    if na: NA.append((p, na))
    else: P.append((p, note, technique))
exec(open(os.path.join(ROOT, 'tools', 'props_list.py')).read())
def main():
    allp = sorted([p for p, _, _ in P] + [p for p, _ in NA], key=lambda p: p['id'])
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in allp: f.write(json.dumps(p) + '\n')
    tech = ('contract-based deductive verification: contracts on every API entry point, verification conditions generated from the LLVM IR of /repo/strtk.hpp '
            'compiled on this run, loops cut by inductive invariants, all obligations discharged by z3 (cvc5 fallback)')
    m = dict(version=1, setup_cmd='python3-vt tools/selftest.py',
             checks=[dict(property=p['id'], quick_cmd='python3-vt check.py %s --tier quick' % p['id'], thorough_cmd='python3-vt check.py %s --tier thorough' % p['id'],
                          technique=t or tech, level='proof', level_note=n) for p, n, t in sorted(P, key=lambda x: x[0]['id'])],
             not_applicable=[dict(property=p['id'], reason=r) for p, r in sorted(NA, key=lambda x: x[0]['id'])],
             notes='Exit 1 whenever an obligation is not discharged; the replay then searches natively (ASan/UBSan build of the same API calls) for a failing input.')
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    print('%d claimed, %d not applicable' % (len(P), len(NA)))
if __name__ == '__main__': main()
