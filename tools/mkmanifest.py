#!/usr/bin/env python3
# Writes MANIFEST.json from lib/configs.py and the list of properties that are not claimed.
import json, os, sys
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, D + '/lib'); import configs
props = [json.loads(l) for l in open(D + '/properties.jsonl')]; na = configs.NOT_APPLICABLE
checks = [dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'], thorough_cmd='python3 check.py %s --tier=thorough' % p['id'], evidence_file='evidence/%s.json' % p['id'],
    technique='bounded symbolic execution of the compiled code (LLVM IR), Z3 deciding every branch and assertion', level='model_checking', level_note=configs.CHECKS[p['id']].get('note', 'Holds for every input, schedule and crash point within the bounds listed in the evidence. ') + ' Trusts: ' + '; '.join(configs.CHECKS[p['id']]['assumptions']) + '.') for p in props if p['id'] in configs.CHECKS]
miss = [p['id'] for p in props if p['id'] not in configs.CHECKS and p['id'] not in na]
assert not miss, miss
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(na.items()) if k not in configs.CHECKS], notes='See DESIGN.md. No hooks are needed in /repo: the code is compiled unchanged.'), open(D + '/MANIFEST.json', 'w'), indent=1)
