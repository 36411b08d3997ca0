"""Writes MANIFEST.json and known_findings.json's fixed list from the registry."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, H)
from registry import PROPS
NA = {}
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    p = PROPS[i]
    checks.append(dict(property=i, quick_cmd='python3 check.py --property %s --tier quick' % i, thorough_cmd='python3 check.py --property %s --tier thorough' % i,
                       evidence_file='evidence/%s.json' % i, technique=p['technique'], level='model_checking',
                       level_note='Bounded exhaustive exploration of the real code. Quick: %s. Thorough: %s. Oracle: %s.' % (p['bounds'][0], p['bounds'][1], p['oracle'])))
na = [dict(property=i, reason=NA.get(i, 'check not built yet')) for i in ids if i not in PROPS]
m = dict(version=1, setup_cmd='python3 -m py_compile check.py registry.py && g++ --version', checks=checks, not_applicable=na,
         notes='No hooks in /repo: harnesses compile src/ and include/ of the current tree against stand-ins of the third-party libraries (stubs/). The fix: commits in /repo repair defects that the checks (or reading) found; they are listed in known_findings.json.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(H, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), len(na))
