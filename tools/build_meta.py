"""Regenerates properties.jsonl and MANIFEST.json from props/spec.py and the property modules present."""
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
import importlib.util
s = importlib.util.spec_from_file_location('spec', os.path.join(here, 'props', 'spec.py'))
m = importlib.util.module_from_spec(s)
s.loader.exec_module(m)

mods = {n[:3].upper(): n for n in os.listdir(os.path.join(here, 'props')) if n[0] == 'c' and n[1:3].isdigit()}
NA = getattr(m, 'NOT_APPLICABLE', {})
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in m.SPECS.values():
        f.write(
            json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) +
            '\n')
checks, na = [], []
for pid, p in m.SPECS.items():
    if pid in mods and pid not in NA:
        checks.append({
            'property': pid,
            'quick_cmd': f'/opt/venv/bin/python -B check.py {pid} --tier quick',
            'thorough_cmd': f'/opt/venv/bin/python -B check.py {pid} --tier thorough',
            'technique': p['technique'],
            'level': p['level'],
            'level_note': p['level_note'],
            'evidence_file': f'evidence/{pid}.json'
        })
    else:
        na.append({'property': pid, 'reason': NA.get(pid, 'no check has been built for this property yet')})
manifest = {
    'version': 1,
    'setup_cmd': '/opt/venv/bin/python -B tools/setup.py',
    'hooks': {
        'guard': 'none: the monitors observe the public interface, no hook is added to the source',
        'enable': 'nothing to enable; checks import resqpy from the working tree of /repo',
        'source_commits': []
    },
    'checks': checks,
    'not_applicable': na,
    'notes': 'Every check is check.py <id>; --seed and VERIF_SEED select the workload; --replay FILE reruns a witness.'
}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent = 1)
print(len(checks), 'checks;', len(na), 'not claimed')
