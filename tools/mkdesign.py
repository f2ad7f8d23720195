#!/usr/bin/env python3
"""Fill the tables of DESIGN.md from properties.jsonl, evidence/, seeded/, tools/seed-results.txt and tools/refactor-results.txt."""
import json, os, re
V = '/verif'
P = [json.loads(l) for l in open(V + '/properties.jsonl')]
T = {}


def esc(s):
    return s.replace('|', '/').replace('\n', ' ')


def ev(i):
    return json.load(open('%s/evidence/%s.json' % (V, i)))


rows = ['| id | property | functions under contract | obligations | back ends | s |', '|---|---|---|---|---|---|']
for p in P:
    e = ev(p['id']); c = e['coverage']
    rows.append('| %s | %s | %s | %d | %s | %d |' % (p['id'], esc(p['title']), esc('; '.join(c['functions_under_contract'])), c['obligations'],
                esc(', '.join('%s %d' % (k, v) for k, v in sorted(c['backends'].items()) if v)), round(e['wall_s'], -1) or 10))
T['properties'] = rows
by = {}
for p in P:
    for a in ev(p['id'])['assumptions']:
        by.setdefault(a, []).append(p['id'])
T['assumptions'] = ['* %s: %s' % (', '.join(v), a) for a, v in sorted(by.items(), key=lambda x: (x[1], x[0]))]
res = {}
f = V + '/tools/seed-results.txt'
if os.path.exists(f):
    for l in open(f):
        res[l.split()[0]] = l
rows = ['| id | property | what it breaks | needs | by |', '|---|---|---|---|---|']
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    l = res.get(i, '')
    n = re.search(r'obl=(\d+)', l)
    by = '' if not l else 'MISSED' if 'VIOLATION' not in l else '%s failed obligations%s' % (n.group(1), '' if 'no-failing-input' in l else ' + failing input')
    rows.append('| %s | %s | %s | %s | %s |' % (i, m['property'], esc(m['what_it_breaks']), esc(m['needs']), by))
T['seeds'] = rows
f = V + '/tools/refactor-results.txt'
rows = ['| rewrite | check | result |', '|---|---|---|']
if os.path.exists(f):
    for l in open(f):
        w = l.split(None, 2)
        if len(w) > 2:
            rows.append('| %s | %s | %s |' % (w[0], w[1], esc(w[2].strip())))
T['refactors'] = rows
s = open(V + '/DESIGN.md').read()
for k, v in T.items():
    s = re.sub(r'<!-- table:%s -->.*?<!-- end -->' % k, lambda m: '<!-- table:%s -->\n\n%s\n\n<!-- end -->' % (k, '\n'.join(v)), s, flags=re.S)
open(V + '/DESIGN.md', 'w').write(s)
