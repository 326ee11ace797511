"""DESIGN.md from tools/DESIGN.in.md: fills in the tables of spaces (from
evidence/<id>.json, quick tier, f32 configuration) and of planted bugs."""
import json, os, sys
V = '/verif'
import re
def spaces(p):
    e = json.load(open('%s/evidence/%s.json' % (V, p)))
    rows, seen, again = {}, set(), {}
    for s in e['coverage']['spaces']:
        n = s['name']
        if s['config'] not in ('f32', 'f32-dev') or n in seen: continue
        if p == 'C01' and re.match(r'C\d\d\.', n): continue
        seen.add(n)
        m = re.match(r'(late|in-\w+)\.(.*)', n)
        g = re.sub(r'(-\d+)+$', '-*', m.group(2) if m else n) if re.match(r'(base|cut|layouts)-', m.group(2) if m else n) else (m.group(2) if m else n)
        if m:
            again.setdefault(m.group(1), {}).setdefault(g, 0)
            again[m.group(1)][g] += s['size']
            continue
        b = re.sub(r'base scene \d', 'a base scene', s['bound'])
        rows.setdefault(g, [b, 0])[1] += s['size']
    t = ['| space | what is enumerated | cases |', '|---|---|---|']
    t += ['| %s | %s | %s |' % (n, b.replace('|', '\\|'), '{:,}'.format(k)) for n, (b, k) in rows.items()]
    t += ['| %s.* | again in that context: %s | %s |' % (c, ', '.join(v), '{:,}'.format(sum(v.values()))) for c, v in again.items()]
    return '\n'.join(t)
def seeds():
    hits = {}
    f = V + '/tools/seed_results.json'
    if os.path.exists(f): hits = json.load(open(f))
    rows = []
    for d in sorted(os.listdir(V + '/seeded')):
        m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
        rows.append('| %s | %s | %s | %s |' % (d, m['what_it_breaks'].replace('|', '\\|'), m['needs'].replace('|', '\\|'), ', '.join(hits.get(d, [m['property']]))))
    return '\n'.join(['| planted bug | breaks | needs | caught by |', '|---|---|---|---|'] + rows)
t = open(V + '/tools/DESIGN.in.md').read()
import re
t = re.sub(r'@SPACES (C\d\d)@', lambda m: spaces(m.group(1)), t)
t = t.replace('@SEEDS@', seeds()).replace('@NSEEDS@', str(len(os.listdir(V + '/seeded'))))
open(V + '/DESIGN.md', 'w').write(t)
