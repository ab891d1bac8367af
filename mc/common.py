"""Shared machinery of the bounded exhaustive checks.

A check module (mc/cNN.py) defines

    LEVEL, TECHNIQUE      -- strings for the evidence
    BOUNDS[tier]          -- human readable statement of the bound
    jobs(tier)            -- list of JSON-able job descriptions; together they
                             are the complete bounded space
    run(job, ck)          -- enumerate one job, reporting to `ck` (a Recorder)

`mc/main.py` shards the jobs over processes, merges the recorders, writes the
evidence file, and prints the verdict.
"""
import hashlib
import json
import os
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Stop(Exception):
    """Raised when enough violations have been collected in a job."""


def _jsonable(o):
    if isinstance(o, dict):
        return {str(k): _jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [_jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        if o.size > 64:
            return {'shape': list(o.shape), 'head': _jsonable(o.ravel()[:16])}
        return _jsonable(o.tolist())
    if isinstance(o, (np.floating, float)):
        return float(o) if np.isfinite(o) else repr(float(o))
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, complex):
        return repr(o)
    if o is None or isinstance(o, (str, int, bool)):
        return o
    return repr(o)


class Recorder:
    """Collects what one job covered and what it found."""

    MAX_VIOLATIONS = 5

    def __init__(self, pid, job):
        self.pid = pid
        self.job = job
        self.executions = 0       # executions of the real code
        self.states = set()       # hashes of distinct observed states
        self.transitions = 0      # state transitions observed / compared
        self.comparisons = 0      # individual oracle comparisons
        self.samples = []
        self.violations = []
        self.ctx = None

    # -- coverage -----------------------------------------------------------
    def begin(self, **ctx):
        """Start one execution (one point of the enumerated space)."""
        self.ctx = ctx
        self.executions += 1
        if len(self.samples) < 2:
            self.samples.append(_jsonable(ctx))

    def state(self, *parts):
        h = hashlib.blake2b(digest_size=8)
        for p in parts:
            if isinstance(p, np.ndarray):
                a = np.ascontiguousarray(p)
                if a.dtype.kind in 'fc':
                    with np.errstate(all='ignore'):
                        a = np.float32(a) if a.dtype.kind == 'f' \
                            else a.astype(np.complex64)
                h.update(a.tobytes())
            else:
                h.update(repr(p).encode())
        self.states.add(h.hexdigest())

    def step(self, n=1):
        self.transitions += n

    # -- verdicts -----------------------------------------------------------
    def fail(self, what, **data):
        self.violations.append({
            'what': what, 'job': _jsonable(self.job),
            'context': _jsonable(self.ctx), 'data': _jsonable(data)})
        if len(self.violations) >= self.MAX_VIOLATIONS:
            raise Stop()

    def expect(self, cond, what, **data):
        self.comparisons += 1
        if not cond:
            self.fail(what, **data)
        return bool(cond)

    def close(self, got, want, what, rtol=1e-9, atol=0., scale=None, **data):
        """All elements equal within rtol*scale + atol.

        `scale` defaults to the largest reference magnitude, so that round-off
        in cancelling sums does not matter.
        """
        self.comparisons += 1
        try:
            g = np.asarray(got)
            w = np.asarray(want)
            if g.shape != w.shape:
                self.fail(what + ' (shape)', got=g.shape, want=w.shape, **data)
                return False
            if g.size == 0:
                return True
            if not np.all(np.isfinite(g) == np.isfinite(w)):
                self.fail(what + ' (non-finite)', got=g, want=w, **data)
                return False
            m = np.isfinite(w)
            if scale is None:
                scale = np.max(np.abs(w[m])) if np.any(m) else 0.
            err = np.max(np.abs(g[m] - w[m])) if np.any(m) else 0.
            if not err <= rtol*scale + atol:
                self.fail(what, got=g, want=w, err=float(err),
                          tol=float(rtol*scale + atol), **data)
                return False
            return True
        except Stop:
            raise
        except Exception as e:
            self.fail(what + ' (not comparable: %r)' % (e,), **data)
            return False

    def same(self, got, want, what, **data):
        """Bitwise/exact equality of arrays."""
        self.comparisons += 1
        if not np.array_equal(np.asarray(got), np.asarray(want)):
            self.fail(what, got=got, want=want, **data)
            return False
        return True

    def guard(self, what='raised on valid input'):
        """Context manager: an exception of the code under test is a failure."""
        return _Guard(self, what)

    def raises(self, exc, f, what, **data):
        self.comparisons += 1
        try:
            f()
        except exc:
            return True
        except Exception as e:
            self.fail(what + ': wrong exception %r' % (e,), **data)
            return False
        self.fail(what + ': not rejected', **data)
        return False

    def dump(self):
        return {
            'job': _jsonable(self.job), 'executions': self.executions,
            'states': sorted(self.states), 'transitions': self.transitions,
            'comparisons': self.comparisons, 'samples': self.samples,
            'violations': self.violations}


class _Guard:
    def __init__(self, ck, what):
        self.ck, self.what = ck, what

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None or issubclass(et, (Stop, KeyboardInterrupt,
                                         SystemExit)):
            return False
        self.ck.fail(f'{self.what}: {et.__name__}: {ev}',
                     traceback=''.join(
                         traceback.format_exception(et, ev, tb))[-1500:])
        return True


def execute_job(mod, pid, job):
    t0 = time.time()
    ck = Recorder(pid, job)
    try:
        mod.run(job, ck)
    except Stop:
        pass
    except Exception as e:
        # An exception outside a guard: the code under test refused something
        # that it has to support.
        ck.violations.append({
            'what': f'unexpected exception {type(e).__name__}: {e}',
            'job': _jsonable(job), 'context': _jsonable(ck.ctx),
            'data': {'traceback': traceback.format_exc()[-3000:]}})
    d = ck.dump()
    d['wall'] = time.time() - t0
    return d
