#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/bin')
import registry as R
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks = [dict(property=p['id'], quick_cmd='bin/check %s --tier quick' % p['id'], thorough_cmd='bin/check %s --tier thorough' % p['id'],
               technique=R.TECH, level=R.CHECKS[p['id']].get('level', 'proof'), level_note=R.CHECKS[p['id']]['note']) for p in props if p['id'] in R.CHECKS]
na = [dict(property=p['id'], reason=R.NA.get(p['id'], 'harness not built yet')) for p in props if p['id'] not in R.CHECKS]
json.dump(dict(version=1, setup_cmd='bin/setup', hooks=dict(guard='POLYMPC_VERIFICATION', enable='-DPOLYMPC_VERIFICATION when compiling the harnesses with the symbolic scalar (integer constructor of AutoDiffScalar; code instantiated with double is unchanged)', source_commits=['9e4f70e', 'edc3b72']), checks=checks, not_applicable=na),
          open(V + '/MANIFEST.json', 'w'), indent=1)
