"""addfix.py PROPERTY COMMIT: records a repaired defect in known_findings.json"""
import json, subprocess, sys, os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known_findings.json'); k = json.load(open(p))
for c in sys.argv[2:]:
    h, s = subprocess.check_output(['git', '-C', '/repo', 'log', '-1', '--format=%h %s', c], text=True).strip().split(' ', 1)
    k['fixed'].append('fixed: property=%s %s %s' % (sys.argv[1], h, s.replace('fix: ', '')))
json.dump(k, open(p, 'w'), indent=1)
