"""tools/fix.py 'fix: subject' PROP 'what failed': commits everything changed under /repo/resqpy as one fix and records it."""
import json
import subprocess
import sys

subject, prop, what = sys.argv[1:4]
hunk = sys.argv[4:]
assert subject.startswith('fix:')
g = ['git', '-C', '/repo']
if hunk and hunk[0] == '--files':
    subprocess.run(g + ['add'] + hunk[1:], check = True)
elif hunk:  # file and answers for git add -p
    subprocess.run(g + ['add', '-p', hunk[0]], input = '\n'.join(hunk[1]) + '\n', text = True, check = True, stdout = subprocess.DEVNULL)
else:
    subprocess.run(g + ['add', '-A', 'resqpy'], check = True)
subprocess.run(g + ['commit', '-qm', subject], check = True)
h = subprocess.run(g + ['log', '-1', '--format=%h'], capture_output = True, text = True).stdout.strip()
d = json.load(open('/verif/known_findings.json'))
d['fixed'].append(f'fixed: property={prop} {h} {what}')
json.dump(d, open('/verif/known_findings.json', 'w'), indent = 1)
print(h, subject)
