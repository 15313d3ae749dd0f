"""Core of the runtime monitoring framework.

A property module (props/<id>.py) holds PROP (the property's text) and SCENARIOS.  A scenario is a function
fn(ctx) which drives the real resqpy code once with values drawn from ctx.rng and hands what it observes to
oracles (ctx.check, ctx.close, ...).  The runner forks workers, runs a fixed number of cases per scenario, and
returns a three-valued verdict: violated (with a replayable witness), held on what was observed, inconclusive.
"""

import hashlib
import json
import math
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RV_REPO', '/repo')

# generous bound on the cpu time of one case (typical cases use well under two seconds)
CASE_CPU_LIMIT = 150.0


class Violation(Exception):
    """Raised by an oracle when the observed execution refutes the property."""

    def __init__(self, code, message, data = None):
        super().__init__(f'{code}: {message}')
        self.code = code
        self.message = message
        self.data = data


class Skip(Exception):
    """Raised by a scenario when the generated input falls outside the property's domain."""


class CpuLimit(BaseException):
    """Raised by the cpu timer when a single case uses an absurd amount of processor time."""


class Scenario:

    def __init__(self, fn, quick, thorough = None, name = None, min_cases = 1, probe = None, workers = None):
        """quick, thorough: number of cases for each tier; probe: known finding id this scenario reproduces.

        workers: number of processes to share the quick tier's cases (few where compilation is the main cost)
        """
        self.workers = workers
        self.fn = fn
        self.name = name or fn.__name__
        self.quick = quick
        self.thorough = thorough if thorough is not None else (quick if probe else quick * 15)
        self.min_cases = min_cases
        self.probe = probe


def case_seed(seed, prop, scenario, index):
    h = hashlib.sha256(f'{seed}|{prop}|{scenario}|{index}'.encode()).digest()
    return int.from_bytes(h[:8], 'big')


def short(v, n = 400):
    try:
        s = repr(v)
    except Exception:
        s = '<unrepresentable>'
    return s if len(s) <= n else s[:n] + '...'


class Ctx:
    """Everything a scenario needs: randomness, scratch space and oracles."""

    def __init__(self, prop, scenario, index, seed, tier):
        import numpy as np
        self.np = np
        self.prop = prop
        self.scenario = scenario
        self.index = index
        self.seed = seed
        self.tier = tier
        self.cs = case_seed(seed, prop, scenario, index)
        self.rng = np.random.default_rng(self.cs)
        self._tmp = None
        self.counts = {}
        self.signature = None
        self.trail = []
        self.sample = None
        self.n_oracle = 0

    # --- scratch ---
    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix = 'rv_case_')
        return self._tmp

    def path(self, name):
        return os.path.join(self.tmp, name)

    def cleanup(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors = True)
            self._tmp = None

    # --- random helpers ---
    def choice(self, seq):
        seq = list(seq)
        return seq[int(self.rng.integers(0, len(seq)))]

    def integer(self, lo, hi):
        """Integer in inclusive range."""
        return int(self.rng.integers(lo, hi + 1))

    def flag(self, p = 0.5):
        return bool(self.rng.random() < p)

    def uniform(self, lo, hi):
        return float(self.rng.uniform(lo, hi))

    def subset(self, seq, k = None):
        seq = list(seq)
        if k is None:
            k = self.integer(0, len(seq))
        idx = sorted(self.rng.permutation(len(seq))[:k].tolist())
        return [seq[i] for i in idx]

    # --- record what happened ---
    def observe(self, key, n = 1):
        self.counts[key] = self.counts.get(key, 0) + int(n)

    def sig(self, *parts):
        """Declares the case non-trivial with a signature for counting distinct cases."""
        self.signature = hashlib.sha256(repr(parts).encode()).hexdigest()[:16]
        if self.sample is None:
            self.sample = short(parts, 300)

    def log(self, *parts):
        """Adds to the event trail shown with a violation."""
        self.trail.append(' '.join(str(p) if isinstance(p, str) else short(p, 200) for p in parts))
        if len(self.trail) > 200:
            del self.trail[0]

    # --- oracles ---
    def fail(self, code, message = '', /, **data):
        raise Violation(code, message, {k: short(v, 1500) for k, v in data.items()})

    def check(self, cond, code, /, message = '', **data):
        self.n_oracle += 1
        if not bool(cond):
            self.fail(code, message, **data)

    def equal(self, a, b, code, /, message = '', **data):
        self.n_oracle += 1
        np = self.np
        try:
            if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
                ok = np.shape(a) == np.shape(b) and bool(np.all(np.asarray(a) == np.asarray(b)))
            else:
                ok = bool(a == b)
        except Exception:
            ok = False
        if not ok:
            self.fail(code, message or 'values differ', got = a, expected = b, **data)

    def close(self, a, b, code, /, tol = 1.0e-6, rtol = 0.0, message = '', nan = True, **data):
        """Checks shapes equal and |a - b| <= tol + rtol * |b| everywhere (NaN matching NaN)."""
        self.n_oracle += 1
        np = self.np
        try:
            aa = np.asarray(a, dtype = float)
            bb = np.asarray(b, dtype = float)
        except Exception:
            self.fail(code, 'not numeric: ' + message, got = a, expected = b, **data)
        if aa.shape != bb.shape:
            self.fail(code, 'shape mismatch ' + message, got_shape = aa.shape, expected_shape = bb.shape, got = a,
                      expected = b, **data)
        if aa.size == 0:
            return
        na, nb = np.isnan(aa), np.isnan(bb)
        if nan and not np.array_equal(na, nb):
            self.fail(code, 'NaN pattern differs ' + message, got = aa, expected = bb, **data)
        if not nan and (na.any() or nb.any()):
            self.fail(code, 'NaN found ' + message, got = aa, expected = bb, **data)
        with np.errstate(all = 'ignore'):
            d = np.abs(aa - bb)
            d = np.where(aa == bb, 0.0, d)
            bad = ~(d <= tol + rtol * np.abs(bb)) & ~(na & nb)
        if bad.any():
            w = tuple(int(x) for x in np.argwhere(bad)[0]) if aa.ndim else ()
            self.fail(code,
                      f'values differ at {w} ' + message,
                      got_there = aa[w] if aa.ndim else aa,
                      expected_there = bb[w] if bb.ndim else bb,
                      n_bad = int(bad.sum()),
                      got = aa,
                      expected = bb,
                      **data)

    def raises(self, exc, fn, code, message = ''):
        """Checks that calling fn raises one of the exception classes."""
        self.n_oracle += 1
        try:
            r = fn()
        except exc:
            return
        except Exception as e:
            self.fail(code, f'unexpected exception type {type(e).__name__}: {e} ' + message)
        self.fail(code, 'no exception raised ' + message, result = r)


def _on_cpu_limit(signum, frame):
    raise CpuLimit()


def run_case(module, scenario, index, seed, tier):
    """Runs one case in this process; returns a result dictionary."""

    ctx = Ctx(module.PROP['id'], scenario.name, index, seed, tier)
    result = {'scenario': scenario.name, 'index': index, 'verdict': 'held'}
    old_cwd = os.getcwd()
    import random
    import numpy as np
    random.seed(ctx.cs)
    np.random.seed(ctx.cs % (2**32))
    try:
        import resqpy.olio.uuid as bu
        bu.switch_on_test_mode(seed = int.from_bytes(hashlib.sha256(str(ctx.cs).encode()).digest()[:15], 'big') << 6)
    except Exception:
        pass
    signal.signal(signal.SIGPROF, _on_cpu_limit)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
    t0 = time.time()
    try:
        scenario.fn(ctx)
    except Violation as v:
        result.update(verdict = 'violated', code = v.code, message = v.message, data = v.data)
        result['where'] = traceback.format_exc(limit = -4)[-1500:]
    except Skip as s:
        result.update(verdict = 'skipped', message = str(s))
    except CpuLimit:
        result.update(verdict = 'violated',
                      code = 'no-termination',
                      message = f'case used more than {CASE_CPU_LIMIT} cpu seconds',
                      data = {},
                      where = traceback.format_exc(limit = -6)[-2500:])
    except MemoryError:
        result.update(verdict = 'inconclusive', message = 'memory exhausted')
    except Exception as e:
        # the workloads only make legal requests, so an escaping exception means a promised result was not produced
        result.update(verdict = 'violated',
                      code = 'exception-' + type(e).__name__,
                      message = short(str(e), 500),
                      data = {},
                      where = traceback.format_exc(limit = -8)[-3500:])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0.0)
        os.chdir(old_cwd)
        ctx.cleanup()
    result['wall'] = time.time() - t0
    result['counts'] = ctx.counts
    result['signature'] = ctx.signature
    result['oracle'] = ctx.n_oracle
    if result['verdict'] == 'violated':
        result['trail'] = ctx.trail
    if ctx.index < 2:
        result['sample'] = ctx.sample
    return result
