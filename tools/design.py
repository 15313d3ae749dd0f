"""Writes the generated part of DESIGN.md (per property table, findings, planted bugs) after its hand written head."""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('RV_REPO', '/repo'))


def main():
    head = open(os.path.join(HERE, 'design', 'head.md')).read().rstrip() + '\n'
    notes = open(os.path.join(HERE, 'design', 'notes.md')).read().rstrip() + '\n'
    out = [head, '\n## Per property\n']
    out.append('Cases per scenario are for quick / thorough. "Decided by" says what is generated, what is watched and what counts as a '
               'different case.\n')
    for f in sorted(glob.glob(os.path.join(HERE, 'props', 'c[0-9]*.py'))):
        m = importlib.import_module('props.' + os.path.basename(f)[:-3])
        p = m.PROP
        out.append(f'\n### {p["id"]} {p["title"]}\n')
        out.append(f'*Decided by:* {p["rule"]}\n')
        out.append(f'*Why tests cannot settle it:* {p["why_tests_cant"]}\n')
        out.append('*Ranges over:* ' + p['quantifier']['text'] + '\n')
        rows = []
        for s in m.SCENARIOS:
            doc = (s.fn.__doc__ or '').strip().split('\n\n')[0]
            doc = ' '.join(doc.split())
            rows.append(f'* `{s.name}` ({s.quick} / {s.thorough})' + (f': {doc}' if doc else ''))
        out.append('\n'.join(rows) + '\n')
    k = json.load(open(os.path.join(HERE, 'known_findings.json')))
    out.append('\n## Findings not repaired\n')
    out.append('Each is kept to a probe scenario of its own; the other scenarios avoid just that input, so other breakage is reported.\n')
    for f in k['findings']:
        out.append(f'* **{f["id"]}** (scenario `{f["scenario"]}`): {f["what"]}')
    out.append(f'\n## Defects repaired ({len(k["fixed"])} entries, each a `fix:` commit in /repo)\n')
    by = {}
    for line in k['fixed']:
        body = line.split('property=', 1)[1]
        by.setdefault(body[:3], []).append(body[4:])
    for p in sorted(by):
        out.append(f'**{p}**\n')
        out.append('\n'.join('* ' + x for x in by[p]) + '\n')
    out.append('\n' + notes)
    out.append('\n## Planted bugs\n')
    out.append('All are valid (build, tests pass, demonstration fails only with the patch); the last column is the check run against each '
               'with `tools/mutant.py`.\n')
    out.append('| bug | what it breaks | needs | caught by |\n|---|---|---|---|')
    for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        e = json.load(open(d))
        out.append(f'| {os.path.basename(os.path.dirname(d))} | {e["what_it_breaks"]} | {e["needs"]} | {e.get("caught_by", e["property"])} |')
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out).rstrip() + '\n')


main()
