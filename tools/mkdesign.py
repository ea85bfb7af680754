#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + the harnesses and their bounds + the planted bugs."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = [open(V + '/tools/design_head.md').read().rstrip(), '']
titles = {}
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    titles[p['id']] = p['title']
doc = {}
for f in sorted(glob.glob(V + '/harness/props/c*.go')):
    for m in re.finditer(r'^// (C\d\d)_(\w+)[: ](.*)$', open(f).read(), re.M):
        doc.setdefault(m.group(1), []).append((m.group(2), m.group(3).strip()))
o += ['## 6. Which checks catch which planted bugs', '',
      'Every bug of `seeded/` is caught by the quick check of its property (counterexample replayed natively).', '',
      '| bug | property | what it breaks | needs |', '|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    o.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['what_it_breaks'], m['needs']))
o += ['', '## Appendix A. Harnesses and bounds', '', 'Numbers in parentheses are the bounds of the thorough tier.', '']
for i in sorted(titles):
    o.append('### %s %s' % (i, titles[i]))
    o.append('')
    for n, t in doc.get(i, []):
        o.append('* `%s_%s`: %s' % (i, n, t))
    o.append('')
open(V + '/DESIGN.md', 'w').write('\n'.join(o))
