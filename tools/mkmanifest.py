#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the properties and the rule table."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'sa'))
import rules
NA = {
 'C28': 'round-trip equality quantifies over every value and over serde/bincode; only its structural clauses can be decided statically, and those are claimed as C05, C09, C16, C17, C19 and C25',
 'C29': 'the library offers no such protocol (File::create truncates in place); crash states of the file system are outside the source',
 'C30': 'losslessness of lz4_flex, bincode and of user serde implementations quantifies over runtime data of third-party code',
 'C31': 'a bound on running time at any size is a quantitative runtime property; its structural clause (which chunks are read) is C15',
 'C32': 'total work on a hostile file depends on the shape of the child graph at run time; the structural clauses (progress, bounded allocation) are C12',
 'C33': 'shard balance depends on data sizes and hash values at run time',
}
TECH = rules.TECH
checks = []
na = []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    if i in rules.TABLE:
        checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                           technique=TECH[i][0], level='other', level_note=TECH[i][1]))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
