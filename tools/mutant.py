"""Validates planted bugs in scratch copies: tools/mutant.py ID... [--checks C01,C02] [--no-tests] [--all].

For each seeded/<id>: demo passes on the unchanged tree, patch applies, demo fails with it, the stable tests pass with it,
and which of the named checks (default: the property of meta.json) report it.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import glob
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, env = None, timeout = 1800):
    e = dict(os.environ)
    e.pop('RV_REPO', None)
    e.update(env or {})
    p = subprocess.run(cmd, shell = True, cwd = cwd, env = e, stdout = subprocess.PIPE, stderr = subprocess.STDOUT, text = True,
                       timeout = timeout)
    return p.returncode, p.stdout


def stable_tests(copy, n):
    work = tempfile.mkdtemp(prefix = 'mut_tests_')
    env = {'PYTHONPATH': copy, 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'NUMBA_NUM_THREADS': '2', 'PYTHONHASHSEED': '0',
           'PYTHONDONTWRITEBYTECODE': '1', 'HOME': '/root', 'TMPDIR': work}
    base = '/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=600 --continue-on-collection-errors -o junit_family=xunit2 '
    sh(base + f'--junitxml={work}/a.xml -n {n} --dist loadfile --ignore=tests/unit_tests/multiprocessing tests', copy, env)
    sh(base + f'--junitxml={work}/b.xml tests/unit_tests/multiprocessing', copy, env)
    passed = set()
    rc, out = sh(f'/usr/bin/python3 /opt/vp/results.py {work}/o.json "junit:{work}/*.xml"', copy)
    with open(work + '/o.json') as f:
        passed = set(json.load(f)['passed'])
    with open('/opt/vp/BASELINE.json') as f:
        b = json.load(f)
    stable = set(b.get('passed') or b.get('stable') or b.get('tests'))
    shutil.rmtree(work, ignore_errors = True)
    return sorted(stable - passed)


def one(mid, args):
    d = os.path.join(VERIF, 'seeded', mid)
    with open(d + '/meta.json') as f:
        meta = json.load(f)
    copy = tempfile.mkdtemp(prefix = f'mut_{mid}_')
    out = {'id': mid, 'property': meta['property']}
    try:
        sh(f'cp -a /repo/. {copy}/ && git checkout -q -- .', copy)
        demo_dir = tempfile.mkdtemp(prefix = 'mut_demo_')
        for n in os.listdir(d):
            if not n.endswith(('.diff', '.patch')) and n != 'meta.json':
                shutil.copy(os.path.join(d, n), demo_dir)
        env = {'PYTHONPATH': copy, 'PYTHONDONTWRITEBYTECODE': '1'}
        rc, o = sh(f'bash {demo_dir}/demo.sh', copy, env, 300)
        out['demo_clean'] = rc
        if rc:
            print(o[-1500:])
        rc, o = sh(f'git apply {d}/patch.diff', copy)
        out['applies'] = rc == 0
        if rc:
            print(o)
            return out
        rc, o = sh(f'bash {demo_dir}/demo.sh', copy, env, 300)
        out['demo_patched'] = rc
        out['demo_says'] = o.strip().split('\n')[-1][:200]
        shutil.rmtree(demo_dir)
        if not args.no_tests:
            out['broken_tests'] = stable_tests(copy, args.n)
        checks = args.checks.split(',') if args.checks else [meta['property']]
        if args.also:
            checks += args.also.split(',')
        out['caught'] = {}
        for c in checks:
            rc, o = sh(f'/opt/venv/bin/python -B check.py {c} --tier {args.tier} --seed {args.seed} --jobs {args.n}', VERIF,
                       {'RV_REPO': copy, 'RV_NOEVIDENCE': '1'})
            out['caught'][c] = {1: 'CAUGHT', 0: 'missed'}.get(rc, f'rc {rc}')
            if rc == 1:
                out['how'] = [l.strip()[:160] for l in o.split('\n') if l.startswith('  scenario=')][:3]
            elif rc != 0:
                out['how'] = o[-400:]
    finally:
        shutil.rmtree(copy, ignore_errors = True)
    return out


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('ids', nargs = '*')
    ap.add_argument('--checks')
    ap.add_argument('--also')
    ap.add_argument('--no-tests', action = 'store_true')
    ap.add_argument('--all', action = 'store_true')
    ap.add_argument('--tier', default = 'quick')
    ap.add_argument('--seed', default = '1')
    ap.add_argument('-n', default = 4, type = int)
    ap.add_argument('-j', default = 2, type = int)
    args = ap.parse_args()
    ids = sorted(os.listdir(os.path.join(VERIF, 'seeded'))) if args.all else args.ids
    ids = [i for i in ids if os.path.isdir(os.path.join(VERIF, 'seeded', i))]
    with ThreadPoolExecutor(args.j) as ex:
        for r in ex.map(lambda i: one(i, args), ids):
            ok = r.get('demo_clean') == 0 and r.get('demo_patched') and not r.get('broken_tests')
            print(('VALID  ' if ok else 'INVALID'), json.dumps(r))
            sys.stdout.flush()
