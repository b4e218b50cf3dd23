#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with registered rules is claimed, the others get a reason."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'analysis'))
NA = {
 'C29': 'Quantifies over a probability (hash collisions for a given load); no static argument over the source bounds it, and the source promises no bound. The exact part (saturating counts, all hash functions used, table size) is decided under C05 and C19.',
 'C30': 'Depends on the contents of a tokenizer model downloaded at run time; whether its tokens decode back to the text is not determined by this source. That one tokenizer does both directions is decided under C18.',
 'C31': 'The tie order of hits is chosen by the Elasticsearch server; nothing in this source determines it. The paging protocol itself is decided under C22.',
 'C32': 'The correctness of a statistical classifier or of a pattern for personal data has no specification in the source to decide it against. What the tools do with the labels is decided under C23 and C28.',
}
TECH = {}
exec(open(os.path.join(ROOT, 'tools', 'techniques.py')).read())
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
import check
sys.modules['check'] = check
import rules
checks = []; na = []
for p in props:
    i = p['id']
    if i in check.REGISTRY and i in TECH:
        checks.append({'property': i, 'quick_cmd': 'bash run.sh ' + i, 'thorough_cmd': 'bash run.sh ' + i, 'technique': TECH[i][0], 'level': 'other', 'level_note': TECH[i][1]})
    else: na.append({'property': i, 'reason': NA.get(i, 'No check yet.')})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'Static analysis only: a rustc driver dumps the resolved MIR of /repo, an abstract interpreter turns each command into an event graph, and the rules of a property are decided on it (DESIGN.md). The repository carries no hooks.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
