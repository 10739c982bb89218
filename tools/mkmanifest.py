#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json and /verif/tools/props.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = [
    'package reflect behaves as its documentation says; its panics are not run-time errors in the sense of the recover in UnmarshalHeaderBody',
    'a slice has at most 2^47 elements; parameters of one call do not alias unless the contract says so',
    'maps and arrays read from a havocked field are distinct from other memory (ownership)',
    'external functions return usable results when their error is nil',
    'machine integers are modelled as 64-bit vectors, exactly (no mathematical integers)',
]
# property: (level, what is proved, what the bounded stand-in covers, extra assumptions)
T = {}
NA = {}
exec(open(os.path.join(V, 'tools', 'levels.py')).read())

props, checks = {}, []
for l in open(os.path.join(V, 'properties.jsonl')):
    pid = json.loads(l)['id']
    if pid in NA:
        continue
    level, proved, bounded, extra = T[pid]
    note = 'Proved (gover, all inputs, no bound): ' + proved + ' Bounded stand-in (real code on generated inputs, 40 s): ' + bounded
    props[pid] = {'level': level, 'note': note, 'bounded_for': bounded, 'assumptions': COMMON + extra}
    if pid == 'C20':
        props[pid]['race'] = True
    checks.append({
        'property': pid,
        'quick_cmd': 'python3 tools/check.py ' + pid,
        'thorough_cmd': 'VERIF_TIER=thorough python3 tools/check.py %s thorough' % pid,
        'evidence_file': 'evidence/%s.json' % pid,
        'technique': 'contract-based deductive verification of the Go source (contracts discharged by z3/cvc5 over go/ssa), bounded runs of the real code for what is outside the contracts',
        'level': level,
        'level_note': note + ' Assumptions and trusted contracts are listed in the evidence file.',
    })
json.dump(props, open(os.path.join(V, 'tools', 'props.json'), 'w'), indent=1)
json.dump({
    'version': 1,
    'setup_cmd': 'cd gover && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off go build -o /dev/null . && ../harness/build.sh /dev/null',
    'hooks': {'guard': 'none', 'enable': 'No hooks: the contracts are files in /verif/contracts, the harness is laid over /repo with go build -overlay.', 'source_commits': []},
    'checks': checks,
    'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
