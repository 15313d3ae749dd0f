"""Records a planted bug: plant(id, property, [(file, old, new), ...], demo, needs, breaks) writes seeded/<id>/."""
import json
import os
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def plant(mid, prop, edits, demo, needs, breaks):
    d = os.path.join(VERIF, 'seeded', mid)
    work = tempfile.mkdtemp(prefix = 'plant_')
    try:
        subprocess.run('git -C /repo archive HEAD resqpy | tar x -C ' + work, shell = True, check = True)
        subprocess.run('git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -q -m x', shell = True,
                       cwd = work, check = True)
        for f, old, new in edits:
            p = os.path.join(work, f if f.startswith('resqpy/') else 'resqpy/' + f)
            with open(p) as fp:
                s = fp.read()
            assert s.count(old) == 1, (mid, f, s.count(old))
            with open(p, 'w') as fp:
                fp.write(s.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd = work, check = True, stdout = subprocess.PIPE, text = True).stdout
        os.makedirs(d, exist_ok = True)
        with open(d + '/patch.diff', 'w') as fp:
            fp.write(diff)
        with open(d + '/demo.py', 'w') as fp:
            fp.write(demo.lstrip('\n'))
        with open(d + '/demo.sh', 'w') as fp:
            fp.write('#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\n'
                     'work="$(mktemp -d)"\nPY=/opt/venv/bin/python\nDEMO_TMP="$work" "$PY" "$here/demo.py"\nrc=$?\nrm -rf "$work"\nexit $rc\n')
        with open(d + '/meta.json', 'w') as fp:
            json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, fp, indent = 1)
    finally:
        shutil.rmtree(work)
