"""C21: an error or a crash in the middle of a simulation loses only what was
not done yet."""
import gc
import os
import shutil
import tempfile
from itertools import product

import h5py
import numpy as np
import scipy.constants as ct

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive fault injection on the real code: an exception, an '
             'interrupt or a process crash at every single callback of a '
             'simulation (gather, refresh, density, adaptive step, before, in '
             'the middle of and after each write), and all pairs of faults in '
             'consecutive attempts; after each fault the files on disk, the '
             'thread setting and the results of later simulations are '
             'compared with those of an undisturbed process')
BOUNDS = {
    'quick': 'every exception class of the language at the first and '
             'last fault point of each kind; every fault point of 5 simulations (field element, adaptive '
             'plasma stage with two bunches and grid field, transfer maps, '
             'beamline of both, no outputs) x {exception, interrupt, crash}; '
             'all pairs of fault points (every 5th x every 5th) in two '
             'attempts on the same diagnostics',
    'thorough': 'every exception class of the language at the first and '
             'last fault point of each kind; every fault point of 5 simulations x {exception, interrupt, '
                'crash}; all pairs of fault points in two attempts on the '
                'same diagnostics',
}
ASSUMPTIONS = [
    'faults occur in Python callbacks; a crash ends the process at once '
    '(os._exit), data handed to the operating system survive',
    'an output counts as done once the write of its file has returned; the '
    'file of the output being written may be incomplete',
    'the kernels run in the Python interpreter',
]
ENV = {'NUMBA_DISABLE_JIT': '1', 'NUMBA_NUM_THREADS': '4'}

SIMS = ('field', 'stage', 'maps', 'line', 'quiet')


def jobs(tier):
    js = []
    for s in SIMS:
        for a in ('error', 'interrupt', 'crash'):
            js.append(dict(kind='single', sim=s, action=a))
        if s != 'quiet':
            k = 5 if tier == 'quick' else 1
            # (First faults are dealt out to 6 jobs.)
            js += [dict(kind='pairs', sim=s, stride=k, part=i)
                   for i in range(6)]
    js += [dict(kind='types', sim=s, part=i) for s in SIMS for i in range(4)]
    return js


def weight(j):
    w = {'field': 2, 'stage': 8, 'maps': 1, 'line': 8, 'quiet': 2}[j['sim']]
    return w*(3 if j['kind'] == 'pairs' else 1)


class Fault(Exception):
    pass


class Inject:
    """Counts fault points; acts at the chosen one."""

    def __init__(self):
        self.reset()

    def reset(self, at=None, action=None):
        self.n = 0
        self.at = at
        self.action = action
        self.exc = None
        self.done = 0          # outputs completed
        self.trace = []

    def point(self, name):
        k = self.n
        self.n += 1
        self.trace.append(name)
        if self.at is not None and k == self.at:
            if self.action == 'crash':
                os._exit(77)
            if isinstance(self.action, BaseException):
                self.exc = self.action
            else:
                self.exc = KeyboardInterrupt('injected') \
                    if self.action == 'interrupt' else Fault('injected')
            raise self.exc


INJ = Inject()


def make_bunch(i=0, n=3):
    from wake_t import ParticleBunch
    r = np.linspace(-1, 1, n)
    return ParticleBunch(
        np.full(n, 1e5), r*1e-6, (r + .3*i)*1e-6, r*2e-6 - 1e-5, r*.1, -r*.1,
        200 + 5*r + 10*i, name='sp_%d' % i)


def probe_field():
    from wake_t.fields.base import Field

    class User(Field):
        def _gather(self, x, y, z, t, ex, ey, ez, bx, by, bz):
            INJ.point('gather')
            ex += 1e12*x*(1 + 1e9*t)
            by += 1.
    return User()


def grid_field(dz):
    from wake_t.fields.rz_wakefield import RZWakefield

    def density(z):
        INJ.point('density')
        return 1e22*(1 + z*1e2)

    class Grid(RZWakefield):
        def _initialize_properties(self, bunches):
            INJ.point('initialize')
            super()._initialize_properties(bunches)

        def _evolve_properties(self, bunches):
            INJ.point('evolve')
            super()._evolve_properties(bunches)

        def _calculate_wakefield(self, bunches):
            INJ.point('calculate')
            n = self.density(self.t*ct.c) if callable(
                getattr(self, 'density', None)) else density(self.t*ct.c)
            a = np.arange((self.n_xi+4)*(self.n_r+4)).reshape(
                self.n_xi+4, self.n_r+4)
            for k, f in enumerate((self.e_r, self.e_z, self.b_t, self.rho)):
                f[:] = a*1e6*(k + 1)*n/1e22*(1 + 1e5*np.sum(
                    [b.x[0] for b in bunches]))
            INJ.point('calculated')

        def get_openpmd_diagnostics_data(self, *a, **k):
            INJ.point('in the middle of a write')
            return super().get_openpmd_diagnostics_data(*a, **k)
    return Grid(density, r_max=3e-5, xi_min=-4e-5, xi_max=1e-5, n_r=3,
                n_xi=4, dz_fields=dz, model_name='fake')


def auto_dt(bunch):
    INJ.point('automatic step')
    return 1.3e-4/ct.c*(1 + 1e-3*np.min(bunch.pz))


class Sim:
    """A simulation and everything that it is made of."""

    def __init__(self, name):
        from wake_t import Drift, Quadrupole, Dipole, PlasmaStage, Beamline
        from wake_t.beamline_elements import FieldElement
        self.name = name
        self.n_bunches = 1
        if name in ('field', 'quiet'):
            self.el = FieldElement(
                1e-3, 2.3e-4/ct.c, 'rk4' if name == 'quiet' else 'boris',
                3 if name == 'field' else 0, fields=[probe_field()])
        elif name == 'stage':
            self.n_bunches = 2
            self.el = FieldElement(
                1e-3, ['auto', 3.1e-4/ct.c], 'boris', 2,
                fields=[grid_field(4e-4), probe_field()],
                auto_dt_bunch=auto_dt)
        elif name == 'maps':
            self.el = Beamline([Drift(.1, n_out=2), Quadrupole(
                .1, 3., n_out=1), Dipole(.2, .1, n_out=3)])
        elif name == 'line':
            self.el = Beamline([
                Drift(.1, n_out=1),
                FieldElement(1e-3, 2.3e-4/ct.c, 'boris', 2,
                             fields=[probe_field(), grid_field(6e-4)]),
                Dipole(.2, .1, n_out=2),
                PlasmaStage(1e-3, 1e22, None, 'rk4', 5e-4/ct.c, n_out=1,
                            external_fields=[probe_field()])])

    def bunches(self):
        b = [make_bunch(i) for i in range(self.n_bunches)]
        return b if self.n_bunches > 1 else b[0]

    def run(self, bunches, diag):
        return self.el.track(bunches, opmd_diag=diag,
                             show_progress_bar=False)


def diagnostics(d):
    """Real diagnostics with fault points around every write."""
    from wake_t.diagnostics import OpenPMDDiagnostics
    diag = OpenPMDDiagnostics(write_dir=d)
    real = diag.write_diagnostics

    def write(*a, **k):
        INJ.point('before a write')
        real(*a, **k)
        INJ.done += 1
        INJ.point('after a write')
    diag.write_diagnostics = write
    return diag


def flat(out):
    """Arrays of a (possibly nested) list of bunches."""
    if isinstance(out, (list, tuple)):
        return [a for o in out for a in flat(o)]
    b = out
    return [np.array(v) for v in (b.x, b.y, b.xi, b.px, b.py, b.pz, b.w)] + [
        np.array([b.prop_distance, b.t_flight, b.theta_ref, b.x_ref])]


def files(d):
    p = os.path.join(d, 'hdf5')
    return sorted(os.listdir(p)) if os.path.isdir(p) else []


def content(path):
    """Everything in a file which does not depend on when it was written."""
    out = {}
    with h5py.File(path, 'r') as f:
        def visit(name, o):
            for k, v in o.attrs.items():
                out[name + '@' + k] = np.array(v)
            if isinstance(o, h5py.Dataset):
                out[name] = np.array(o)
        f.visititems(visit)
        for k, v in f.attrs.items():
            if k not in ('date', 'machine'):
                out['@' + k] = np.array(v)
    return out


def same_content(ck, got, want, what, iteration_offset=0, **kw):
    def norm(c):
        r = {}
        for k, v in c.items():
            if k.startswith('data/'):
                k = 'data/N/' + k.split('/', 2)[2] if k.count('/') > 1 else \
                    'data/N' + ('@' + k.split('@')[1] if '@' in k else '')
            r[k] = v
        return r
    g, w = norm(got), norm(want)
    ck.expect(sorted(g) == sorted(w), what + ': records', missing=sorted(
        set(w) - set(g))[:5], extra=sorted(set(g) - set(w))[:5], **kw)
    for k in sorted(set(g) & set(w)):
        ck.expect(g[k].shape == w[k].shape and g[k].dtype == w[k].dtype and
                  (np.array_equal(g[k], w[k])), what + ': ' + k, **kw)


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='c21_')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def reference(name):
    """Undisturbed run: files, outputs, final bunches, fault points."""
    with Scratch() as d:
        INJ.reset()
        sim = Sim(name)
        b = sim.bunches()
        diag = diagnostics(d) if name != 'quiet' else False
        out = sim.run(b, diag)
        fs = files(d)
        cont = [content(os.path.join(d, 'hdf5', f)) for f in fs]
        return dict(n=INJ.n, trace=list(INJ.trace), done=INJ.done, files=fs,
                    content=cont, out=flat(out), final=flat(b))


def check_disk(ck, d, ref, done, what, first=0):
    """The first `done` outputs are complete; at most one more is begun."""
    got = files(d)
    names = ['data%08d.h5' % (first + i) for i in range(done + 1)]
    ck.expect(got[first:first + done] == names[:done] and
              set(got[first:]) <= set(names), what + ': files on disk',
              got=got, want=names[:done])
    for i in range(done):
        p = os.path.join(d, 'hdf5', names[i])
        if not os.path.exists(p):
            continue
        try:
            c = content(p)
        except Exception as e:
            ck.fail(what + ': a finished output is not readable: %r' % (e,),
                    file=names[i])
            continue
        same_content(ck, c, ref['content'][i], what + ': finished output',
                     file=names[i])


def compare(ck, got, want, what, **kw):
    ck.expect(len(got) == len(want), what + ': number of arrays', **kw)
    for i, (g, w) in enumerate(zip(got, want)):
        ck.same(g, w, what, array=i, **kw)


def run(job, ck):
    if job['kind'] == 'single':
        run_single(job, ck)
    elif job['kind'] == 'types':
        run_types(job, ck)
    else:
        run_pairs(job, ck)


def attempt(sim, diag, at, action, ck, what):
    """Run with a fault; returns (outputs done, bunches)."""
    import wake_t.utilities.numba as wn
    b = sim.bunches()
    INJ.reset(at, action)
    threads = wn.get_num_threads()
    raised = None
    try:
        sim.run(b, diag)
    except BaseException as e:
        raised = e
    same = raised is not None and raised is INJ.exc
    ck.expect(same, what + ': the error reaches the caller unchanged',
              got=repr(raised))
    ck.expect(wn.get_num_threads() == threads, what + ': number of threads '
              'is restored', want=threads, got=wn.get_num_threads())
    if raised is not None:
        raised.__traceback__ = None
        raised.__context__ = None
    INJ.exc = None
    del raised
    gc.collect()
    done = INJ.done
    ck.step(INJ.n)
    return done, b


def run_single(job, ck):
    import wake_t.utilities.numba as wn
    name, action = job['sim'], job['action']
    ref = reference(name)
    ck.begin(sim=name, reference=True)
    ck.expect(ref['n'] > 3, 'the simulation has fault points')
    ck.expect(ref['done'] == len(ref['files']), 'one file per output',
              outputs=ref['done'], files=ref['files'])
    for at in range(ref['n']):
        ck.begin(sim=name, action=action, at=at, where=ref['trace'][at])
        with ck.guard(), Scratch() as d:
            if action == 'crash':
                crash(ck, name, at, ref, d)
                continue
            # The number of threads outside must survive.
            old = wn.get_num_threads()
            outside = 3 if wn.get_num_threads() != 3 else 2
            try:
                wn.set_num_threads(outside)
            except ValueError:
                pass
            outside = wn.get_num_threads()
            try:
                sim = Sim(name)
                diag = diagnostics(d) if name != 'quiet' else False
                done, b = attempt(sim, diag, at, action, ck, 'after ' +
                                  ref['trace'][at])
                want = ref['trace'][:at + 1].count('after a write')
                ck.expect(done == want, 'outputs done before the fault',
                          got=done, want=want)
                check_disk(ck, d, ref, done, 'after the fault')
                ck.state(done, at)
                # Another attempt with the same element and new bunches.
                INJ.reset()
                with Scratch() as d2:
                    b2 = sim.bunches()
                    diag2 = diagnostics(d2) if name != 'quiet' else False
                    out = sim.run(b2, diag2)
                    compare(ck, flat(out), ref['out'], 'outputs of a later '
                            'simulation')
                    compare(ck, flat(b2), ref['final'], 'bunches of a later '
                            'simulation')
                    check_disk(ck, d2, ref, ref['done'], 'later simulation')
                # It did not touch the earlier output.
                check_disk(ck, d, ref, done, 'after a later simulation')
                ck.expect(wn.get_num_threads() == outside,
                          'number of threads after a later simulation')
            finally:
                wn.set_num_threads(old)


def exceptions():
    """An instance of every exception of the language, some of numpy's, h5py's
    and of users."""
    import builtins
    import struct
    import zlib

    class UserBase(BaseException):
        pass
    out = []
    for n, t in sorted(vars(builtins).items()):
        if not isinstance(t, type) or not issubclass(t, BaseException):
            continue
        if issubclass(t, BaseExceptionGroup):
            out.append(t('injected', [ValueError('x')]))
        elif issubclass(t, UnicodeDecodeError):
            out.append(t('ascii', b'x', 0, 1, 'injected'))
        elif issubclass(t, UnicodeEncodeError):
            out.append(t('ascii', 'x', 0, 1, 'injected'))
        elif issubclass(t, UnicodeTranslateError):
            out.append(t('x', 0, 1, 'injected'))
        else:
            out.append(t('injected'))
    out += [np.linalg.LinAlgError('injected'), UserBase('injected'),
            struct.error('injected'), zlib.error('injected'), Fault(),
            OSError(28, 'No space left on device')]
    return out


def run_types(job, ck):
    """Errors of every kind reach the caller as they are."""
    name = job['sim']
    ref = reference(name)
    # One fault point of every kind.
    pts = sorted({ref['trace'].index(t) for t in set(ref['trace'])} | {
        ref['n'] - 1 - ref['trace'][::-1].index(t)
        for t in set(ref['trace'])})
    for at in pts:
        for exc in exceptions()[job['part']::4]:
            ck.begin(sim=name, at=at, where=ref['trace'][at], error=repr(exc))
            with ck.guard(), Scratch() as d:
                sim = Sim(name)
                done, b = attempt(
                    sim, diagnostics(d) if name != 'quiet' else False, at,
                    exc, ck, 'after ' + ref['trace'][at])
                want = ref['trace'][:at + 1].count('after a write')
                ck.expect(done == want, 'outputs done before the fault',
                          got=done, want=want)
                ck.state(done, at, type(exc).__name__)
        INJ.reset()


def crash(ck, name, at, ref, d):
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            INJ.reset(at, 'crash')
            sim = Sim(name)
            sim.run(sim.bunches(), diagnostics(d) if name != 'quiet'
                    else False)
        except BaseException:
            code = 2
        os._exit(code)
    _, st = os.waitpid(pid, 0)
    ck.expect(os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77,
              'the process ended at the fault point', status=st)
    ck.step(at + 1)
    done = ref['trace'][:at + 1].count('after a write')
    check_disk(ck, d, ref, done, 'after the crash')
    ck.state(done, at)


def run_pairs(job, ck):
    """Two failing attempts and a successful one with the same diagnostics:
    finished outputs keep their numbers and content."""
    name, s = job['sim'], job['stride']
    ref = reference(name)
    if name in ('maps', 'line'):
        # Positions continue after the elements that were completed.
        skip = ('time', 'positionOffset', 'gridGlobalOffset')
    else:
        skip = ()
    pts = list(range(0, ref['n'], s))
    for i, j in product(pts[job['part']::6], pts):
        ck.begin(sim=name, faults=[i, j],
                 where=[ref['trace'][i], ref['trace'][j]])
        with ck.guard(), Scratch() as d:
            sim = Sim(name)
            diag = diagnostics(d)
            total = 0
            hashes = {}
            for at in (i, j, None):
                if at is None:
                    INJ.reset()
                    b = sim.bunches()
                    out = sim.run(b, diag)
                    done = INJ.done
                    ck.step(INJ.n)
                    compare(ck, flat(out), ref['out'], 'outputs of the last '
                            'attempt')
                    compare(ck, flat(b), ref['final'], 'bunches of the last '
                            'attempt')
                else:
                    done, _ = attempt(sim, diag, at, 'error', ck,
                                      'fault %d' % at)
                got = files(d)
                names = ['data%08d.h5' % k for k in range(total + done + 1)]
                ck.expect(got[:total + done] == names[:total + done] and
                          set(got) <= set(names), 'files on disk', got=got,
                          want=names)
                # Earlier outputs are not touched, new ones are complete.
                for f, h in hashes.items():
                    ck.expect(raw(os.path.join(d, 'hdf5', f)) == h,
                              'a finished output was changed later', file=f)
                for k in range(done):
                    f = names[total + k]
                    p = os.path.join(d, 'hdf5', f)
                    if not os.path.exists(p):
                        continue
                    c = content(p)
                    w = ref['content'][k]
                    if skip:
                        c = {q: v for q, v in c.items()
                             if not any(x in q for x in skip)}
                        w = {q: v for q, v in w.items()
                             if not any(x in q for x in skip)}
                    same_content(ck, c, w, 'output of an attempt', file=f)
                    hashes[f] = raw(p)
                total += done
            ck.state(total, i, j)


def raw(path):
    with open(path, 'rb') as f:
        return f.read()
