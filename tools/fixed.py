"""tools/fixed.py PROP 'commit subject substring' 'what failed': records a fix commit in known_findings.json."""
import json, subprocess, sys
p, sub, what = sys.argv[1:4]
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output = True, text = True).stdout.split('\n')
h = [l.split()[0] for l in log if sub in l][0]
d = json.load(open('/verif/known_findings.json'))
d['fixed'].append(f'fixed: property={p} {h} {what}')
json.dump(d, open('/verif/known_findings.json', 'w'), indent = 1)
