#!/usr/bin/env python3
"""Regenerate DESIGN.md (head + per-property plan + findings + seeds)."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
man = json.load(open(V + '/MANIFEST.json'))
claimed = {c['property']: c for c in man['checks']}
na = {c['property']: c['reason'] for c in man['not_applicable']}
out = [open(V + '/tools/design_head.md').read()]

PLAN = {}
exec(open(V + '/tools/plans.py').read())

seeds = {}
for s in sorted(os.listdir(V + '/seeded')) if os.path.isdir(V + '/seeded') else []:
    m = json.load(open('%s/seeded/%s/meta.json' % (V, s)))
    seeds.setdefault(m['property'], []).append((s, m))


def contracts(i):
    f = '%s/specs/%s.py' % (V, i)
    if not os.path.exists(f):
        return []
    return re.findall(r"^@contract\('([^']+)'", open(f).read(), re.M)


out.append('\n## 3. The properties and how each is decided\n')
for p in props:
    i = p['id']
    out.append('\n### %s %s\n\n%s\n\n' % (i, p['title'], p['statement']))
    if i not in claimed:
        out.append('*Not applicable*: %s\n' % na.get(i, ''))
        continue
    cs = contracts(i)
    fs = {}
    for c in cs:
        k = c.split('@')[0]
        own, _, nm = k.rpartition('.') if ':' not in k else k.rpartition(':')
        fs.setdefault(own, []).append(nm)
    out.append('*Decided on*: %s\n\n' % ('; '.join('%s: %s' % (k, ', '.join(sorted(set(v)))) for k, v in sorted(fs.items())) or p['anchors']['files'][0]))
    out.append('*Oracle*: %s%s\n\n' % (
        'the %d reference contracts in specs/%s.py' % (len(cs), i) if cs else 'structural rule',
        (', and the structural rule in checks/%s.py' % i if cs else ' in checks/%s.py' % i)
        if os.path.exists('%s/checks/%s.py' % (V, i)) else ''))
    if i in PLAN:
        out.append('*How*: %s\n\n' % ' '.join(PLAN[i].split()))
    try:
        ev = json.load(open('%s/evidence/%s.json' % (V, i)))
        c = ev['coverage']
        out.append('*Bounds and cost*: no bound on inputs, histories or schedules; %d obligations over %d functions, %s paths, %s feasible path pairs; '
                   'quick run about %d s.\n\n' % (c['obligations'], len(c['functions_analysed']), c.get('implementation_paths', 0),
                                                 c.get('feasible_path_pairs', 0), max(1, round(ev['wall_s']))))
    except (OSError, ValueError):
        pass
    out.append('*Beyond tests*: %s; quantified over %s.\n' % (p['why_tests_cant'], p['quantifier']['text']))
    if i in seeds:
        out.append('\n*Planted bugs*: %s\n' % '; '.join('`%s` (%s)' % (s, m['what_it_breaks']) for s, m in seeds[i]))

out.append('\n## 4. Planted bugs and the check that catches each\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n')
miss = json.load(open(V + '/tools/seed_results.json')) if os.path.exists(V + '/tools/seed_results.json') else {}
for i in sorted(seeds):
    for s, m in seeds[i]:
        out.append('| %s | %s | %s | %s |\n' % (s, i, m['needs'], miss.get(s, 'check.py %s' % i)))
out.append('\n## 5. Defects found in tpoikela/uvm-python\n\n')
for l in open(V + '/known_findings.txt'):
    l = l.strip()
    if l.startswith('fixed:'):
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
        out.append('* repaired, %s, %s: %s\n' % m.groups())
    elif l.startswith('finding:'):
        m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
        out.append('* **recorded, not repaired**, %s (`%s`): %s\n' % m.groups())
open(V + '/DESIGN.md', 'w').write(''.join(out))
print(len(out), 'chunks')
