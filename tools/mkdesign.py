#!/usr/bin/env python3
"""DESIGN.md = design_head.md + one section per property + design_tail.md, with the table of planted bugs filled in."""
import json, os, re
V = '/verif'
T = V + '/tools/'
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
text = {}
for block in re.split(r'^## ', open(T + 'design_props.md').read(), flags=re.M)[1:]:
    pid, body = block.split('\n', 1)
    text[pid.strip()] = body.strip()
out = [open(T + 'design_head.md').read().rstrip(), '']
for p in props:
    out += ['### %s %s' % (p['id'], p['title']), '', text[p['id']], '']
caught = json.load(open(T + 'caught.json')) if os.path.exists(T + 'caught.json') else {}
rows = ['| planted bug | property | what it breaks / needs | result |', '|---|---|---|---|']
ok = miss = 0
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/' + d + '/meta.json'))
    c = caught.get(d, {})
    r = '; '.join('%s %s' % (k, v) for k, v in sorted(c.items(), key=lambda x: x[0] != m['property']))
    if c.get(m['property'], '').startswith('caught'):
        ok += 1
    else:
        miss += 1
    rows.append('| %s | %s | %s (%s) | %s |' % (d, m['property'], m['what_it_breaks'], m['needs'], r or 'not run'))
out.append(open(T + 'design_tail.md').read().replace('@TABLE@', '\n'.join(rows)).replace('@OK@', str(ok)).replace('@N@', str(ok + miss)))
open(V + '/DESIGN.md', 'w').write('\n'.join(out).rstrip() + '\n')
