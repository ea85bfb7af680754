#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json: a property is claimed iff it has a harness."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = set()
for f in glob.glob(V + '/harness/props/*.go'):
    have |= set(re.findall(r'^func (C\d+)_', open(f).read(), re.M))
NA = {}
checks, na = [], []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    if i in have:
        checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
            evidence_file='evidence/%s.json' % i,
            technique='symbolic execution of the go/ssa form of /repo, assertions decided by z3, counterexamples replayed natively',
            level='model_checking',
            level_note='Bounded: holds for every value of the symbolic inputs within the bounds stated per harness in the evidence (text length, number of sub-readers/segments, unrollings up to the step limit). Trusts go/ssa, the executor (path models are replayed against the compiled code), the models of the standard library in /verif/harness/model, and z3.'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no harness yet')))
m = dict(version=1, setup_cmd='./build.sh', checks=checks, not_applicable=na,
         notes='No hooks: the harnesses use the public API and are laid over /repo with a build overlay. See DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'claimed', len(na), 'not')
