#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run it after editing)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = 'src/uvm/base/'
R = 'src/uvm/reg/'
S = 'src/uvm/seq/'

TECH = 'path-sensitive guarded-effect dataflow compared with reference contracts'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, tech=TECH, note=None, na=None):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe or [], tech=tech, note=note, na=na))


exec(open(os.path.join(V, 'tools', 'proplist.py')).read())


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                            'observe_at': p['observe']}}) + '\n')
    checks, na = [], []
    for p in P:
        i = p['id']
        have = os.path.exists(os.path.join(V, 'specs', i + '.py')) or os.path.exists(os.path.join(V, 'checks', i + '.py'))
        if p['na'] or not have:
            na.append({'property': i, 'reason': p['na'] or 'check not built yet'})
            continue
        checks.append({
            'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --thorough' % i,
            'evidence_file': 'evidence/%s.json' % i, 'technique': p['tech'], 'level': 'other',
            'level_note': p['note'] or (
                'Static decision over every path of the anchored functions of the current source: their guarded effects agree '
                'with the reference contract on all jointly feasible path pairs. Trusts the analysis in lib/, the contracts in '
                'specs/ (read against the code), and that functions outside the anchors keep their documented behaviour.')})
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'python3 setup_check.py', 'checks': checks, 'not_applicable': na}, f, indent=1)
        f.write('\n')
    print(len(P), 'properties', len(checks), 'claimed', [x['property'] for x in na])


main()
