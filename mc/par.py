"""Controlled execution of numba-parallel kernels in the interpreter.

`install()` has to be called before wake_t is imported, with NUMBA_DISABLE_JIT
set. Every function compiled with `parallel=True` then becomes a kernel whose
`prange` loops are executed under the control of `CTL`:

- the order of the iterations is the one selected by the current schedule;
- every access to memory shared between iterations is recorded per iteration,
  and two iterations touching the same element, at least one of them writing,
  are reported as a race (any two interleavings of a loop without races are
  equivalent, so one order per loop covers all of them; the orders are
  enumerated nevertheless);
- `prange` in functions which are not parallel is `range`, as in numba.
"""
import functools
import math

import numpy as np


class Control:
    def __init__(self):
        self.order = None      # f(n) -> sequence of indices
        self.monitor = False
        self.stack = []        # names and flags of the running kernels
        self.loop = None       # running loop
        self.races = []
        self.kernels = {}      # name -> number of calls
        self.loops = 0
        self.accesses = 0
        self.depth = 0

    def reset(self):
        self.races = []
        self.kernels = {}
        self.loops = 0
        self.accesses = 0


CTL = Control()


class Loop:
    def __init__(self, name):
        self.name = name
        self.it = None
        self.reads = {}
        self.writes = {}
        self.private = []

    def read(self, addrs):
        i = self.it
        for a in addrs:
            w = self.writes.get(a)
            if w is not None and w != i:
                self.race(a, w, i, 'write/read')
            r = self.reads.setdefault(a, set())
            r.add(i)

    def write(self, addrs):
        i = self.it
        for a in addrs:
            w = self.writes.get(a)
            if w is not None and w != i:
                self.race(a, w, i, 'write/write')
            r = self.reads.get(a)
            if r and (len(r) > 1 or i not in r):
                self.race(a, sorted(r - {i})[0], i, 'read/write')
            self.writes[a] = i

    def race(self, a, i, j, kind):
        CTL.races.append((self.name, kind, int(i), int(j)))


def addresses(arr):
    """Addresses of all elements of an array."""
    p = arr.__array_interface__['data'][0]
    if arr.ndim == 0:
        return (p,)
    off = np.zeros(arr.shape, dtype=np.int64)
    for ax, (n, s) in enumerate(zip(arr.shape, arr.strides)):
        sh = [1]*arr.ndim
        sh[ax] = n
        off = off + (np.arange(n)*s).reshape(sh)
    return (p + off).ravel().tolist()


class Mon(np.ndarray):
    """Array whose accesses inside of a parallel loop are recorded."""

    def __getitem__(self, idx):
        lp = CTL.loop
        if lp is None:
            return super().__getitem__(idx)
        out = super().__getitem__(idx)
        if isinstance(out, np.ndarray):
            if not np.shares_memory(out, self):
                # Copy (advanced indexing): everything addressed is read.
                CTL.accesses += 1
                lp.read(addresses(self.view(np.ndarray)))
            return out
        CTL.accesses += 1
        lp.read(self._addr(idx))
        return out

    def _addr(self, idx):
        base = self.view(np.ndarray)
        if not isinstance(idx, tuple):
            idx = (idx,)
        if len(idx) == self.ndim and all(
                isinstance(i, (int, np.integer)) for i in idx):
            p = base.__array_interface__['data'][0]
            for i, n, s in zip(idx, base.shape, base.strides):
                i = int(i)
                if i < 0:
                    i += n
                p += i*s
            return (p,)
        return addresses(np.asarray(base[idx])) if np.shares_memory(
            base[idx], base) else addresses(base)

    def __setitem__(self, idx, val):
        lp = CTL.loop
        if lp is not None:
            CTL.accesses += 1
            base = self.view(np.ndarray)
            if not isinstance(idx, tuple):
                t = (idx,)
            else:
                t = idx
            if len(t) == self.ndim and all(
                    isinstance(i, (int, np.integer)) for i in t):
                lp.write(self._addr(idx))
            else:
                try:
                    sub = base[idx]
                    ok = np.shares_memory(sub, base) and sub.size
                except Exception:
                    ok = False
                lp.write(addresses(sub) if ok else addresses(base))
            if isinstance(val, Mon):
                lp.read(addresses(val.view(np.ndarray)))
        super().__setitem__(idx, val)

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        lp = CTL.loop
        ins = [i.view(np.ndarray) if isinstance(i, Mon) else i
               for i in inputs]
        if lp is not None:
            for i in inputs:
                if isinstance(i, Mon):
                    lp.read(addresses(i.view(np.ndarray)))
            if out is not None:
                for o in out:
                    if isinstance(o, Mon):
                        lp.write(addresses(o.view(np.ndarray)))
        if out is not None:
            kw['out'] = tuple(o.view(np.ndarray) if isinstance(o, Mon) else o
                              for o in out)
        res = getattr(ufunc, method)(*ins, **kw)
        if out is not None and len(out) == 1:
            return out[0]
        return res


def _prange(*args):
    if not CTL.stack or not CTL.stack[-1][1] or CTL.loop is not None:
        # Not in a parallel kernel, or nested in a parallel loop.
        yield from range(*args)
        return
    idx = list(range(*args))
    CTL.loops += 1
    order = CTL.order(len(idx)) if CTL.order is not None else \
        range(len(idx))
    lp = Loop(CTL.stack[-1][0])
    for k in order:
        if CTL.monitor:
            lp.it = idx[k]
            CTL.loop = lp
        try:
            yield idx[k]
        finally:
            CTL.loop = None


def _mon(a):
    if isinstance(a, np.ndarray) and not isinstance(a, Mon):
        return a.view(Mon)
    return a


def _njit(*args, **kw):
    if args and callable(args[0]):
        f = args[0]
        par = bool(kw.get('parallel', False))

        @functools.wraps(f)
        def kernel(*a, **k):
            CTL.stack.append((f.__name__, par))
            outer, made = CTL.loop, None
            try:
                if par:
                    CTL.kernels[f.__name__] = \
                        CTL.kernels.get(f.__name__, 0) + 1
                    if CTL.monitor:
                        a = [_mon(x) for x in a]
                        k = {n: _mon(x) for n, x in k.items()}
                        made = _patch_creation()
                out = f(*a, **k)
            finally:
                CTL.stack.pop()
                CTL.loop = outer
                if made is not None:
                    _unpatch_creation(made)
            if isinstance(out, Mon):
                out = out.view(np.ndarray)
            elif isinstance(out, tuple):
                out = tuple(o.view(np.ndarray) if isinstance(o, Mon) else o
                            for o in out)
            return out
        kernel.py_func = f
        return kernel
    return lambda f: _njit(f, **kw)


_NAMES = ('zeros', 'empty', 'ones', 'full', 'zeros_like', 'empty_like',
          'ones_like', 'full_like', 'arange', 'linspace')


def _patch_creation():
    """Arrays made in a kernel, outside of its loops, are shared by all
    iterations; the ones made in an iteration are private."""
    saved = {n: getattr(np, n) for n in _NAMES}
    for n, g in saved.items():
        def make(*a, _g=g, **k):
            a = [x.view(np.ndarray) if isinstance(x, Mon) else x for x in a]
            r = _g(*a, **k)
            return r if CTL.loop is not None else _mon(r)
        setattr(np, n, make)
    return saved


def _unpatch_creation(saved):
    for n, g in saved.items():
        setattr(np, n, g)


def install():
    import sys
    import numba
    if numba.njit is _njit:
        return CTL
    assert 'wake_t' not in sys.modules
    assert numba.config.DISABLE_JIT
    numba.njit = _njit
    numba.jit = _njit
    numba.prange = _prange
    return CTL
