"""Runs the scenarios of a property over worker processes and reports the verdict."""

import importlib
import json
import os
import pickle
import select
import shutil
import signal
import struct
import sys
import tempfile
import time

from rv import core


def load_module(prop_id):
    for name in sorted(os.listdir(os.path.join(core.VERIF, 'props'))):
        if name.lower().startswith(prop_id.lower() + '_') and name.endswith('.py'):
            return importlib.import_module('props.' + name[:-3])
    raise SystemExit(f'no property module for {prop_id}')


def known_findings(prop_id):
    path = os.path.join(core.VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [e for e in json.load(f)['findings'] if e.get('property') == prop_id]


def plan(module, tier):
    """Returns list of (scenario, index) interleaved so that every scenario is covered early."""
    work = []
    for s_i, s in enumerate(module.SCENARIOS):
        n = s.quick if tier == 'quick' else s.thorough
        for index in range(n):
            work.append(((index + 0.5) / n, s_i, index))
    work.sort()
    return [(s_i, index) for _, s_i, index in work]


def share(module, work, jobs, tier):
    """Divides the work between jobs; scenarios dominated by compilation go to few workers in the quick tier."""
    if tier != 'quick':
        return [work[w::jobs] for w in range(jobs)]
    shares = [[] for _ in range(jobs)]
    lanes, turn, nxt = {}, {}, 0
    for s_i, s in enumerate(module.SCENARIOS):
        k = min(jobs, s.workers or jobs)
        lanes[s_i] = [(nxt + q) % jobs for q in range(k)]
        if k < jobs:
            nxt = (nxt + k) % jobs
        turn[s_i] = s_i  # so that first cases of different scenarios start on different workers
    for s_i, index in work:
        shares[lanes[s_i][turn[s_i] % len(lanes[s_i])]].append((s_i, index))
        turn[s_i] += 1
    return shares


def preload():
    """Imports the package under test before forking, for speed only: workers repeat the import and report failure."""
    import logging
    import warnings
    level = logging.root.manager.disable
    logging.disable(logging.CRITICAL)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for name in ('model', 'crs', 'grid', 'lines', 'surface', 'well', 'property', 'olio.intersection',
                         'olio.point_inclusion', 'olio.triangulation', 'grid_surface', 'derived_model'):
                importlib.import_module('resqpy.' + name)
    except BaseException:
        pass
    logging.disable(level)


def worker(module_name, my_work, seed, tier, out_fd, deadline):
    """Body of a worker process."""
    if os.environ.get('RV_DEBUG'):
        import faulthandler
        faulthandler.register(signal.SIGUSR1, all_threads = True)
    import logging
    import warnings
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    out = os.fdopen(out_fd, 'wb')

    def send(kind, payload):
        blob = pickle.dumps((kind, payload))
        out.write(struct.pack('>I', len(blob)) + blob)
        out.flush()

    devnull = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get('RV_DEBUG'):
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    try:
        module = importlib.import_module(module_name)
        import resqpy
        where = os.path.realpath(os.path.dirname(resqpy.__file__))
        if where != os.path.realpath(os.path.join(core.REPO, 'resqpy')):
            send('error', f'resqpy imported from {where}')
            return
    except Exception as e:
        import traceback
        # an import failure of the package under test is a failure of everything promised about it
        send('import', traceback.format_exc()[-3000:])
        return
    for s_i, index in my_work:
        if time.time() > deadline:
            send('truncated', (s_i, index))
            break
        s = module.SCENARIOS[s_i]
        send('start', (s.name, index))
        r = core.run_case(module, s, index, seed, tier)
        send('result', r)
    send('done', None)
    out.flush()
    out.close()
    os._exit(0)


def run(prop_id, tier, seed, jobs = None, only = None, max_violations = 5, index = None):
    t0 = time.time()
    module = load_module(prop_id)
    work = plan(module, tier)
    if only is not None:
        work = [(s_i, i) for s_i, i in work if module.SCENARIOS[s_i].name == only and (index is None or i == index)]
        if not work and index is not None:
            s_i = [k for k, s in enumerate(module.SCENARIOS) if s.name == only][0]
            work = [(s_i, index)]
    jobs = jobs or int(os.environ.get('RV_JOBS', '0')) or min(8, os.cpu_count() or 1)
    jobs = max(1, min(jobs, len(work)))
    wall_cap = float(os.environ.get('RV_WALL', '0')) or (200.0 if tier == 'quick' else 800.0)
    kill_cap = wall_cap + (500.0 if tier == 'quick' else 90.0)
    deadline = t0 + wall_cap
    scratch = tempfile.mkdtemp(prefix = f'rv_{prop_id}_')
    os.environ['TMPDIR'] = scratch
    tempfile.tempdir = scratch
    os.environ['NUMBA_CACHE_DIR'] = os.path.join(scratch, 'numba')
    shares = [w for w in share(module, work, jobs, tier) if w]
    results, errors, inconclusive = [], [], []
    truncated = 0
    procs = {}
    preload()
    try:
        for my_work in shares:
            rfd, wfd = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(rfd)
                for other in procs:
                    os.close(other)
                os.setsid()
                code = 0
                try:
                    worker(module.__name__, my_work, seed, tier, wfd, deadline)
                except BaseException:
                    if os.environ.get('RV_DEBUG'):
                        import traceback
                        traceback.print_exc()
                    code = 3
                os._exit(code)
            os.close(wfd)
            procs[rfd] = {'pid': pid, 'buf': b'', 'current': None, 'done': False}
        live = set(procs)
        stop = False
        while live and not stop:
            ready, _, _ = select.select(list(live), [], [], 1.0)
            for fd in ready:
                p = procs[fd]
                chunk = os.read(fd, 1 << 20)
                if not chunk:
                    live.discard(fd)
                    _, status = os.waitpid(p['pid'], 0)
                    p['reaped'] = True
                    if not p['done']:
                        if os.WIFSIGNALED(status):
                            sig = os.WTERMSIG(status)
                            if sig in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGILL, signal.SIGFPE):
                                name, idx = p['current'] or ('?', -1)
                                results.append({
                                    'scenario': name,
                                    'index': idx,
                                    'verdict': 'violated',
                                    'code': 'crash',
                                    'message': f'process killed by signal {sig}',
                                    'data': {},
                                    'counts': {},
                                    'signature': None,
                                    'oracle': 0,
                                    'wall': 0.0
                                })
                            else:
                                inconclusive.append(f'worker ended by signal {sig} in {p["current"]}')
                        else:
                            errors.append(f'worker exit status {status} in {p["current"]}')
                    continue
                p['buf'] += chunk
                while len(p['buf']) >= 4:
                    n = struct.unpack('>I', p['buf'][:4])[0]
                    if len(p['buf']) < 4 + n:
                        break
                    kind, payload = pickle.loads(p['buf'][4:4 + n])
                    p['buf'] = p['buf'][4 + n:]
                    if kind == 'start':
                        p['current'] = payload
                    elif kind == 'result':
                        p['current'] = None
                        results.append(payload)
                    elif kind == 'done':
                        p['done'] = True
                    elif kind == 'truncated':
                        truncated += 1
                    elif kind == 'error':
                        p['done'] = True
                        errors.append(payload)
                    elif kind == 'import':
                        p['done'] = True
                        results.append({
                            'scenario': 'import',
                            'index': 0,
                            'verdict': 'violated',
                            'code': 'import-failure',
                            'message': payload,
                            'data': {},
                            'counts': {},
                            'signature': None,
                            'oracle': 0,
                            'wall': 0.0
                        })
            if time.time() > t0 + kill_cap:
                for fd in live:
                    inconclusive.append(f'watchdog: no end to {procs[fd]["current"]}')
                stop = True
            if sum(r['verdict'] == 'violated' and not classify(module, r)[0] for r in results) >= int(os.environ.get('RV_STOP', '40')):
                stop = True
    finally:
        for fd, p in procs.items():
            if not p.get('reaped'):
                try:
                    os.killpg(p['pid'], signal.SIGKILL)
                except Exception:
                    pass
                try:
                    os.waitpid(p['pid'], 0)
                except Exception:
                    pass
        shutil.rmtree(scratch, ignore_errors = True)
    return module, results, errors, inconclusive, truncated, time.time() - t0


def classify(module, r):
    """Returns (known finding entry or None); a finding is recognised by its probe scenario and failure code."""
    for e in known_findings(module.PROP['id']):
        if e.get('status') == 'fixed':
            continue
        if e['scenario'] == r['scenario'] and r['code'] in e['codes']:
            return e, True
    return None, False


def main(argv = None):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default = os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type = int, default = int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--jobs', type = int, default = None)
    ap.add_argument('--only', default = None, help = 'run only this scenario')
    ap.add_argument('--index', type = int, default = None)
    ap.add_argument('--replay', default = None)
    ap.add_argument('-v', action = 'store_true')
    args = ap.parse_args(argv)
    if args.replay:
        with open(args.replay) as f:
            w = json.load(f)
        args.tier, args.seed, args.only, args.index, args.jobs = w['tier'], w['seed'], w['scenario'], w['index'], 1
        args.v = True
    module, results, errors, inconclusive, truncated, wall = run(args.prop,
                                                                 args.tier,
                                                                 args.seed,
                                                                 jobs = args.jobs,
                                                                 only = args.only,
                                                                 index = args.index)
    prop_id = module.PROP['id']
    partial = args.only is not None
    violated = [r for r in results if r['verdict'] == 'violated']
    fresh, known = [], {}
    for r in violated:
        e, _ = classify(module, r)
        if e is None:
            fresh.append(r)
        else:
            known.setdefault(e['id'], (e, []))[1].append(r)
    by_scenario = {}
    for r in results:
        d = by_scenario.setdefault(r['scenario'], {'cases': 0, 'skipped': 0, 'oracle_evaluations': 0, 'max_s': 0.0, 'sum_s': 0.0})
        d['cases'] += 1
        d['skipped'] += r['verdict'] == 'skipped'
        d['oracle_evaluations'] += r['oracle']
        d['max_s'] = round(max(d['max_s'], r['wall']), 3)
        d['sum_s'] = round(d['sum_s'] + r['wall'], 3)
    counts = {}
    for r in results:
        for k, n in r['counts'].items():
            counts[k] = counts.get(k, 0) + n
    for r in results:
        if r['verdict'] == 'inconclusive':
            inconclusive.append(f"{r['scenario']}[{r['index']}]: {r['message']}")
    # a monitor that was never reached decides nothing
    if not partial and not fresh:
        for s in module.SCENARIOS:
            d = by_scenario.get(s.name)
            if s.probe:
                continue
            if d is None or d['cases'] - d['skipped'] < s.min_cases or d['oracle_evaluations'] == 0:
                inconclusive.append(f'scenario {s.name} observed too little: {d}')
    sigs = set(r['signature'] for r in results if r['signature'] is not None and r['verdict'] != 'skipped')
    samples = []
    for s in module.SCENARIOS:
        for r in results:
            if r['scenario'] == s.name and r.get('sample'):
                samples.append({'scenario': s.name, 'index': r['index'], 'case': r['sample']})
                break
    if args.v:
        for name, d in by_scenario.items():
            print(name, d)
        print('counters', counts)
    for e_id, (e, rs) in sorted(known.items()):
        print(f"KNOWN-FINDING: property={prop_id} {e['id']}: {e['what']} ({len(rs)} observed)")
    replay_dir = os.path.join(core.VERIF, 'evidence', 'replay')
    status = 0
    seen_codes = {}
    for r in fresh:
        key = (r['scenario'], r['code'])
        seen_codes[key] = seen_codes.get(key, 0) + 1
    shown = set()
    for r in sorted(fresh, key = lambda r: (r['scenario'], r['index'])):
        key = (r['scenario'], r['code'])
        if key in shown:
            continue
        shown.add(key)
        os.makedirs(replay_dir, exist_ok = True)
        path = os.path.join(replay_dir, f"{prop_id}-{r['scenario']}-{r['index']}-{args.seed}.json")
        with open(path, 'w') as f:
            json.dump(
                {
                    'property': prop_id,
                    'scenario': r['scenario'],
                    'index': r['index'],
                    'seed': args.seed,
                    'tier': args.tier,
                    'code': r['code'],
                    'message': r['message'],
                    'data': r.get('data'),
                    'where': r.get('where'),
                    'trail': r.get('trail'),
                    'command': f'/opt/venv/bin/python -B check.py {prop_id} --replay {path}'
                },
                f,
                indent = 1)
        print(f"VIOLATION property={prop_id} replay={path}")
        print(f"  scenario={r['scenario']} index={r['index']} code={r['code']} x{seen_codes[key]}: {core.short(r['message'], 600)}")
        if args.v:
            for k, v in (r.get('data') or {}).items():
                print(f'    {k} = {v}')
            print(r.get('where'))
            for t in r.get('trail') or []:
                print('    | ' + t)
        status = 1
    if not status and (errors or inconclusive):
        for e in errors:
            print('ERROR', e)
        for e in inconclusive[:10]:
            print('INCONCLUSIVE', e)
        status = 2
    if not partial and not args.replay and not os.environ.get('RV_NOEVIDENCE'):
        ev = {
            'property': prop_id,
            'tier': args.tier,
            'seed': args.seed,
            'level': module.PROP.get('level', 'exploration'),
            'coverage': {
                'evaluations': len(results),
                'distinct_nontrivial': len(sigs),
                'rule': module.PROP['rule'],
                'samples': samples[:12] or ['none'],
                'oracle_evaluations': sum(r['oracle'] for r in results),
                'scenarios': by_scenario,
                'observed': counts,
                'truncated_workers': truncated,
                'exhaustive': False
            },
            'assumptions': module.PROP.get('assumptions', []),
            'wall_s': round(wall, 2),
            'violations': len(fresh)
        }
        os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok = True)
        with open(os.path.join(core.VERIF, 'evidence', prop_id + '.json'), 'w') as f:
            json.dump(ev, f, indent = 1, default = str)
    verdict = {0: 'held on what was observed', 1: 'violated', 2: 'inconclusive'}[status]
    print(f"{prop_id} {args.tier} seed={args.seed}: {verdict}; {len(results)} cases, {len(sigs)} distinct, "
          f"{sum(r['oracle'] for r in results)} oracle evaluations, {wall:.1f}s")
    return status
