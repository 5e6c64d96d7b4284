#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
import plans
NA = {}
NOTE = {
 'C06': 'task histories of bare event loops (all schedules up to a preemption bound for small cases, random and priority schedules for larger ones) and of servers, decided by GevTrace.tla',
 'C12': 'frame streams and segmentations generated by GenWs.tla, decided by WsTrace.tla',
 'C13': 'handshake requests, hooks and segmentations generated by GenWs.tla, decided by WsTrace.tla',
 'C14': 'frame histories with control frames, close codes, blocked output and concurrent sends generated by GenWs.tla, decided by WsTrace.tla',
 'C15': 'message histories generated by GenPb.tla, decided by PbTrace.tla',
 'C17': 'concurrent histories of the real context generated by GenKv.tla; TLC searches for a linearization (KvTrace.tla)',
}
checks = []
for x in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(x)['id']
    if not plans.plan(p, 'quick')['gens']:
        NA.setdefault(p, 'check under construction')
        continue
    checks.append({'property': p,
        'quick_cmd': 'VERIF_TIER=quick bin/check ' + p, 'thorough_cmd': 'VERIF_TIER=thorough bin/check ' + p,
        'evidence_file': 'evidence/%s.json' % p,
        'technique': 'TLA+/TLC: trace validation of the real code against an explicit specification, on scenarios generated by TLC; design models checked exhaustively',
        'level': 'model_checking',
        'level_note': NOTE.get(p, 'environment behaviours generated by GenSrv.tla, executed by the real code on a simulated kernel under a controlled scheduler and virtual time, every trace decided by TLC against Gev.tla; bounded, not exhaustive, on the code side')})
doc = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks,
       'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items()) if k not in [c['property'] for c in checks]]}
json.dump(doc, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
