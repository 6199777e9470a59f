#!/usr/bin/env python3
import json, os
import jobs
ps = [json.loads(l) for l in open('properties.jsonl')]
NA = jobs.__dict__.get('NOT_APPLICABLE', {})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': [], 'not_applicable': []}
for p in ps:
    i = p['id']
    if i in jobs.PROPS:
        s = jobs.PROPS[i]
        m['checks'].append({
            'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
            'technique': 'symbolic execution of the compiled code (LLVM IR regenerated from /repo) with Z3 deciding every branch and assertion; counterexamples replayed natively',
            'level': 'model_checking',
            'level_note': 'Holds for every value within the bounds: %s. Outside: %s. Trusted: rustc up to LLVM IR, the IR interpreter in engine/ (spot-checked against native runs), Z3%s.' % (
                s['bounds'], s.get('outside', 'anything larger'), '; ideal cryptography' if s.get('ideal') else ''),
        })
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
