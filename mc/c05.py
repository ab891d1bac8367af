"""C05: openPMD diagnostics."""
import os
import shutil
import tempfile
from fractions import Fraction as F
from itertools import product

import h5py
import numpy as np
import scipy.constants as ct

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of element sequences, output counts, '
             'bunch sets and ways of requesting the diagnostics on the real '
             'code, writing real files in a scratch directory; every file is '
             'read back with plain HDF5 and compared with a reference model '
             'of indices, times, offsets, particle and field data')
BOUNDS = {
    'quick': 'all sequences of up to 3 elements out of 7 (5 kinds of '
             'transfer-map/field elements, 2 wakefield stages with/without '
             'laser) x 3 ways of requesting the output; 0-3 species; 0-4 '
             'outputs per element; bunch steps that do and do not divide the '
             'output period; up to 140001 particles and 130 outputs',
    'thorough': 'all sequences of up to 4 elements out of 7, the rest as '
                'quick with more output counts',
}
ASSUMPTIONS = [
    'kernels run by the Python interpreter (NUMBA_DISABLE_JIT)',
    'files are written by the installed openPMD-api and read with h5py',
]
ENV = {'NUMBA_DISABLE_JIT': '1'}

KINDS = ['d2', 'd0', 'b3', 'f2', 's2', 'l1', 'f0']


def jobs(tier):
    js = []
    depth = 3 if tier == 'quick' else 4
    kinds = KINDS
    for a in kinds:
        js.append(dict(kind='seq', first=a, depth=depth, kinds=kinds))
    js.append(dict(kind='species'))
    js.append(dict(kind='times', tier=tier))
    js.append(dict(kind='requests'))
    js.append(dict(kind='duplicates'))
    js.append(dict(kind='back'))
    return js


def weight(j):
    return {'seq': 5, 'species': 2, 'times': 4, 'requests': 2,
            'duplicates': 1, 'back': 1}[j['kind']]


def bunch(i, n=3):
    from wake_t import ParticleBunch
    r = np.array([1., -0.5, 0.3, 2., -1.4])[:n]
    sp = [(-ct.e, ct.m_e), (ct.e, ct.m_p), (-2*ct.e, 3*ct.m_e)][i]
    b = ParticleBunch(
        np.full(n, 2e5)*(i+1) + r, r*1e-6, r[::-1]*1e-6*(i+1),
        r*2e-6 - 15e-6, r[::-1]*1e-1, -r*1e-1, 200 + 5*r + 10*i,
        name='sp_%d' % i, q_species=sp[0], m_species=sp[1],
        prop_distance=0.3)
    return b


def rz_field(dz, laser=None):
    """A grid wakefield with made-up, time-dependent values."""
    from wake_t.fields.rz_wakefield import RZWakefield

    class Fake(RZWakefield):
        history = None

        def _calculate_wakefield(self, bunches):
            if self.history is None:
                self.history = []
            k = self.t*ct.c*1e4 + 1.
            a = np.arange((self.n_xi+4)*(self.n_r+4)).reshape(
                self.n_xi+4, self.n_r+4)
            self.e_r[:] = k*a
            self.e_z[:] = k*a + 1000.
            self.b_t[:] = k*a + 2000.
            self.rho[:] = k*a + 3000.

        def _gather(self, *args):
            pass

    return Fake(lambda z: 1e20*(1 + z*1e3), r_max=3e-6, xi_min=-4e-5,
                xi_max=1e-5, n_r=3, n_xi=4, dz_fields=dz, laser=laser,
                model_name='fake')


def silent_fields():
    """User-defined fields that do not offer openPMD output (the default)."""
    from wake_t.fields.base import Field
    from wake_t.fields.numerical_field import NumericalField
    from wake_t.fields.analytical_field import AnalyticalField

    class Plain(Field):
        def _gather(self, *args):
            pass

    class Numerical(NumericalField):
        def _calculate_field(self, bunches):
            pass

        def _gather(self, *args):
            pass

    return [Plain(), Numerical(1e-11), AnalyticalField()]


def expected_grid(k):
    a = np.arange(8*7).reshape(8, 7)
    out = {'E/r': k*a, 'E/z': k*a + 1000., 'B/t': k*a + 2000.,
           'rho': k*a + 3000., 'E/t': 0.*a, 'B/r': 0.*a, 'B/z': 0.*a}
    return {f: v[2:-2, 2:-2].T for f, v in out.items()}


class Elem:
    """One element with the reference model of its outputs."""

    def __init__(self, kind):
        from wake_t import Drift, Dipole, PlasmaStage, GaussianPulse
        from wake_t.beamline_elements import FieldElement
        self.kind = kind
        self.fields = False
        self.laser = None
        if kind == 'd2':
            self.el, self.L, self.n = Drift(0.2, n_out=2), 0.2, 2
            self.zs = [0.1, 0.2]
            self.dt = 0.1/ct.c
        elif kind == 'd0':
            self.el, self.L, self.n = Drift(0.15), 0.15, 0
            self.zs = []
        elif kind == 'b3':
            self.el, self.L, self.n = Dipole(0.3, 0.03, n_out=3), 0.3, 3
            self.zs = [0.1, 0.2, 0.3]
            self.dt = 0.1/ct.c
        elif kind == 'f2':
            self.el = FieldElement(0.05, 0.02/ct.c, n_out=2,
                                   fields=silent_fields())
            self.L, self.n = 0.05, 2
            self.zs = [0., 0.025, 0.05]
            self.dt = 0.025/ct.c
        elif kind == 'f0':
            self.el = FieldElement(0.05, 0.02/ct.c, n_out=0,
                                   fields=silent_fields())
            self.L, self.n = 0.05, 0
            self.zs = []
        elif kind == 's2':
            self.f = rz_field(3e-4)
            self.el = PlasmaStage(1e-3, 1e20, self.f, n_out=2,
                                  external_fields=silent_fields(),
                                  dt_bunch=2.3e-4/ct.c)
            self.L, self.n = 1e-3, 2
            self.zs = [0., 5e-4, 1e-3]
            self.zf = [0., 3e-4, 9e-4]      # last refresh at each output
            self.dt = 5e-4/ct.c
            self.fields = True
        elif kind == 'w2':
            # The grid wakefield is the last field of the element.
            self.f = rz_field(3e-4)
            self.el = FieldElement(1e-3, 2.3e-4/ct.c, n_out=2,
                                   fields=silent_fields() + [self.f])
            self.L, self.n = 1e-3, 2
            self.zs = [0., 5e-4, 1e-3]
            self.zf = [0., 3e-4, 9e-4]
            self.dt = 5e-4/ct.c
            self.fields = True
        elif kind == 'l1':
            self.laser = GaussianPulse(
                -1e-5, l_0=1.1e-6, w_0=20e-6, a_0=0.5, tau=10e-15, z_foc=0.)
            self.f = rz_field(7e-4, self.laser)
            self.f.laser_evolution = False
            self.el = PlasmaStage(1e-3, 1e20, self.f, n_out=1,
                                  dt_bunch=2.3e-4/ct.c)
            self.L, self.n = 1e-3, 1
            self.zs = [0., 1e-3]
            self.zf = [0., 1e-3]            # even refreshes: 5e-4 each
            self.dt = 1e-3/ct.c
            self.fields = True


def listing(d):
    out = []
    for root, _, files in os.walk(d):
        for f in files:
            out.append(os.path.relpath(os.path.join(root, f), d))
    return sorted(out)


def val(g, name, n):
    """Record component as an array of n values."""
    o = g[name]
    if isinstance(o, h5py.Dataset):
        return np.array(o)
    return np.full(n, o.attrs['value'])


def check_file(ck, path, index, z, dt, bunches, fields=None, laser=None):
    """Compare one file with the model. `bunches`: expected snapshots."""
    with h5py.File(path, 'r') as f:
        its = list(f['data'].keys())
        ck.expect(its == [str(index)], 'iteration number', got=its,
                  want=index)
        it = f['data'][str(index)]
        t = z/ct.c
        unit = it.attrs['timeUnitSI']
        ck.close(it.attrs['time']*unit, t, 'time of the output', rtol=1e-10,
                 atol=1e-24, file=path)
        if dt is not None:
            ck.close(it.attrs['dt']*unit, dt, 'dt of the output', rtol=1e-10)
        names = sorted(it['particles'].keys()) if 'particles' in it else []
        ck.expect(names == sorted(b.name for b in bunches),
                  'species in the file', got=names,
                  want=[b.name for b in bunches])
        for b in bunches:
            if b.name not in names:
                continue
            p = it['particles'][b.name]
            n = len(b.x)
            mc = b.m_species*ct.c
            for rec, want in [
                    ('position/x', b.x), ('position/y', b.y),
                    ('position/z', b.xi), ('momentum/x', b.px*mc),
                    ('momentum/y', b.py*mc), ('momentum/z', b.pz*mc),
                    ('weighting', b.w)]:
                ck.close(val(p, rec, n), want, 'species data ' + rec,
                         rtol=1e-12, species=b.name, file=path)
            for rec, want in [('positionOffset/x', 0.),
                              ('positionOffset/y', 0.),
                              ('positionOffset/z', z),
                              ('charge', b.q_species),
                              ('mass', b.m_species)]:
                ck.close(val(p, rec, 1)[0], want, 'species ' + rec,
                         rtol=1e-10, atol=1e-15 if 'Off' in rec else 0.,
                         species=b.name, file=path)
            for rec, dim in [('position', {0: 1}), ('momentum',
                             {0: 1, 1: 1, 2: -1}), ('charge', {2: 1, 3: 1}),
                             ('mass', {1: 1}), ('positionOffset', {0: 1})]:
                ud = list(p[rec].attrs['unitDimension'])
                ck.expect(ud == [dim.get(i, 0) for i in range(7)],
                          'unit of ' + rec, got=ud)
            for rec in ['position/x', 'momentum/z', 'weighting', 'charge',
                        'mass', 'positionOffset/z']:
                ck.expect(p[rec].attrs['unitSI'] == 1., 'unitSI of ' + rec)
        has = 'fields' in it and len(it['fields'].keys()) > 0
        ck.expect(has == (fields is not None), 'field data in the file',
                  got=has)
        if fields is not None and has:
            k = fields['z']*1e4 + 1.
            n_p = 1e20*(1 + fields['z']*1e3)
            want = expected_grid(k)
            want['rho'] = want['rho']*n_p*(-ct.e)
            fl = it['fields']
            for name, w in want.items():
                ck.close(np.array(fl[name])[0], w, 'field ' + name,
                         rtol=1e-9, scale=np.max(np.abs(w)) + 1e-30,
                         file=path)
            meshes = ['E', 'B', 'rho']
            if laser is not None:
                env = laser.get_envelope().T
                ck.close(np.array(fl['a_mod'])[0], np.abs(env),
                         'laser amplitude', rtol=1e-9)
                ck.close(np.array(fl['a_phase'])[0], np.angle(env),
                         'laser phase', rtol=1e-9, atol=1e-12)
                a = np.array(fl['a'])[0]
                if a.dtype.names:
                    a = a['r'] + 1j*a['i']
                ck.close(a, env, 'laser envelope', rtol=1e-9)
                ck.close(fl['a'].attrs['angularFrequency'],
                         2*np.pi*ct.c/laser.l_0, 'laser frequency', rtol=1e-9)
                pol = fl['a_mod'].attrs['polarization']
                pol = pol.decode() if isinstance(pol, bytes) else pol
                ck.expect(pol == laser.polarization, 'laser polarization',
                          got=pol)
                meshes += ['a_mod', 'a_phase', 'a']
            ck.expect(sorted(fl.keys()) == sorted(meshes), 'list of meshes',
                      got=sorted(fl.keys()))
            for m in meshes:
                at = fl[m].attrs
                geo = at['geometry']
                geo = geo.decode() if isinstance(geo, bytes) else geo
                ck.expect(geo == 'thetaMode', 'geometry of ' + m, got=geo)
                lab = [x.decode() if isinstance(x, bytes) else x
                       for x in at['axisLabels']]
                ck.expect(lab == ['r', 'z'], 'axis labels', got=lab)
                ck.close(np.array(at['gridSpacing'])*at['gridUnitSI'],
                         [1e-6, 5e-5/3], 'grid spacing of ' + m, rtol=1e-9)
                ck.close(np.array(at['gridGlobalOffset'])*at['gridUnitSI'],
                         [0., z - 4e-5], 'grid offset of ' + m, rtol=1e-10,
                         atol=1e-15)
            for m, dim in [('E', {0: 1, 1: 1, 2: -3, 3: -1}),
                           ('B', {1: 1, 2: -2, 3: -1}),
                           ('rho', {0: -3, 2: 1, 3: 1})]:
                ud = list(fl[m].attrs['unitDimension'])
                ck.expect(ud == [dim.get(i, 0) for i in range(7)],
                          'unit of ' + m, got=ud)
            for c in ['E/r', 'E/t', 'E/z', 'B/r', 'B/t', 'B/z', 'rho']:
                ck.close(np.array(fl[c].attrs['position']), [0.5, 0.],
                         'position of the nodes of ' + c)


class Scratch:
    def __enter__(self):
        base = os.environ.get('MC_SCRATCH') or None
        self.d = tempfile.mkdtemp(dir=base)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def check_all(ck, d, expected):
    """`expected`: list of (z, dt, snapshots, field info, laser)."""
    files = listing(d)
    want = [os.path.join('hdf5', 'data%08d.h5' % i)
            for i in range(len(expected))]
    if ck.expect(files == want, 'files written', got=files, want=want):
        ck.step(len(files))
        for i, (z, dt, bs, fl, las) in enumerate(expected):
            check_file(ck, os.path.join(d, want[i]), i, z, dt, bs, fl, las)


def run(job, ck):
    {'seq': sequences, 'species': species, 'times': times,
     'requests': requests, 'duplicates': duplicates,
     'back': back}[job['kind']](job, ck)


def model(elems, out, z0=0.):
    """Expected content of the files of a sequence of elements."""
    exp = []
    k = 0
    for e in elems:
        for j, z in enumerate(e.zs):
            fl = {'z': e.zf[j]} if e.fields else None
            exp.append((z0 + z, e.dt, [out[k]] if out is not None else [],
                        fl, e.laser if e.fields else None))
            k += 1
        z0 += e.L
    return exp


def sequences(job, ck):
    from wake_t import Beamline
    from wake_t.diagnostics import OpenPMDDiagnostics
    for d in range(1, job['depth'] + 1):
        for rest in product(job['kinds'], repeat=d-1):
            seq = [job['first'], *rest]
            modes = ['beamline', 'instance', 'each'] if d < 3 else \
                ['beamline']
            for mode in modes:
                ck.begin(sequence=seq, request=mode)
                with ck.guard('tracking raised'), Scratch() as tmp:
                    elems = [Elem(k) for k in seq]
                    b = bunch(0)
                    wd = os.path.join(tmp, 'out')
                    if mode == 'beamline':
                        out = Beamline([e.el for e in elems]).track(
                            b, opmd_diag=True, diag_dir=wd,
                            show_progress_bar=False)
                    elif mode == 'instance':
                        out = Beamline([e.el for e in elems]).track(
                            b, opmd_diag=OpenPMDDiagnostics(wd),
                            show_progress_bar=False)
                    else:
                        diag = OpenPMDDiagnostics(wd)
                        out = []
                        for e in elems:
                            out += e.el.track(b, opmd_diag=diag,
                                              show_progress_bar=False)
                    check_all(ck, wd, model(elems, out))
                    # Diagnostics only observe.
                    if d < 3:
                        b2 = bunch(0)
                        for e in [Elem(k) for k in seq]:
                            e.el.track(b2, show_progress_bar=False)
                        for a in ['x', 'y', 'xi', 'px', 'py', 'pz', 'w']:
                            ck.same(getattr(b, a), getattr(b2, a),
                                    'tracking with and without diagnostics')
                    ck.state(tuple(seq), mode, len(out))


def species(job, ck):
    """Any set of bunches, and none, in elements of each kind."""
    for kind, idx in product(['f2', 's2', 'l1', 'w2'],
                             [(), (0,), (1,), (0, 1), (2, 0), (2, 1, 0)]):
        ck.begin(element=kind, species=idx)
        with ck.guard('tracking raised'), Scratch() as tmp:
            e = Elem(kind)
            bs = [bunch(i, n=2+i) for i in idx]
            out = e.el.track(bs, opmd_diag=True, diag_dir=tmp,
                             show_progress_bar=False)
            if len(bs) == 1:
                out = [out]
            exp = []
            for j, z in enumerate(e.zs):
                exp.append((z, e.dt, [lst[j] for lst in out],
                            {'z': e.zf[j]} if e.fields else None, e.laser))
            check_all(ck, tmp, exp)
            ck.state(kind, idx)
    # Many particles, many outputs.
    from wake_t import Drift
    for n, n_out in [(70000, 1), (140001, 2), (1, 130), (3, 101)]:
        ck.begin(particles=n, outputs=n_out)
        with ck.guard('tracking raised'), Scratch() as tmp:
            e = Elem('d2')
            e.el, e.zs = Drift(0.2, n_out=n_out), [
                0.2*(k + 1)/n_out for k in range(n_out)]
            e.dt = 0.2/n_out/ct.c
            k = np.arange(n)
            from wake_t import ParticleBunch
            b = ParticleBunch(1. + k, 1e-6*np.sin(k), 1e-6*np.cos(k), 1e-9*k,
                              .1*np.sin(3*k), .1*np.cos(3*k), 100. + k % 7,
                              name='sp_0')
            out = e.el.track(b, opmd_diag=True, diag_dir=tmp,
                             show_progress_bar=False)
            check_all(ck, tmp, model([e], out))
            ck.state('many', n, n_out)
    # Other files in the folder are left alone.
    for kind in ['d2', 'f2', 's2']:
        ck.begin(element=kind, folder='not empty')
        with ck.guard('tracking raised'), Scratch() as tmp:
            other = [os.path.join(tmp, 'notes.txt'),
                     os.path.join(tmp, 'hdf5', 'data00000100.h5'),
                     os.path.join(tmp, 'sub', 'x')]
            for k, o in enumerate(other):
                os.makedirs(os.path.dirname(o), exist_ok=True)
                with open(o, 'w') as f:
                    f.write('content %d' % k)
            e = Elem(kind)
            out = e.el.track(bunch(0), opmd_diag=True, diag_dir=tmp,
                             show_progress_bar=False)
            for k, o in enumerate(other):
                ok = os.path.exists(o) and \
                    open(o).read() == 'content %d' % k
                ck.expect(ok, 'another file in the folder was changed',
                          file=o)
                if os.path.exists(o):
                    os.remove(o)
            check_all(ck, tmp, model([e], out))
            ck.state('folder', kind)
    # Non-contiguous particle arrays.
    from wake_t import ParticleBunch
    for step in [2, 3, -1]:
        ck.begin(strided=step)
        with ck.guard('tracking raised'), Scratch() as tmp:
            base = np.arange(9.)
            arr = [(base*1e-6*(k+1))[::step] for k in range(7)]
            b = ParticleBunch(arr[6]*1e12 + 1, *arr[:3],
                              arr[3]*1e3, arr[4]*1e3, arr[5]*1e3 + 100.,
                              name='sp_0')
            e = Elem('f2')
            out = e.el.track(b, opmd_diag=True, diag_dir=tmp,
                             show_progress_bar=False)
            check_all(ck, tmp, model([e], out))
            ck.state('strided', step)


def back(job, ck):
    """Forwards and backwards through transfer-map elements."""
    from wake_t.diagnostics import OpenPMDDiagnostics
    moves = [(k, d) for k in ('d2', 'd0', 'b3') for d in (1, -1)]
    for seq, first in product(product(moves, repeat=3), (False, True)):
        ck.begin(moves=seq, out_initial=first)
        with ck.guard('tracking raised'), Scratch() as tmp:
            diag = OpenPMDDiagnostics(tmp)
            b, exp, z0 = bunch(1), [], 0.
            for k, d in seq:
                e = Elem(k)
                out = e.el.track(b, backtrack=d < 0, opmd_diag=diag,
                                 out_initial=first, show_progress_bar=False)
                zs = ([0.] if first else []) + e.zs
                ck.expect(len(out) == len(zs), 'number of outputs')
                exp += [(z0 + d*z, None, [o], None, None)
                        for z, o in zip(zs, out)]
                z0 += d*e.L
            check_all(ck, tmp, exp) if exp else None
            ck.state('back', seq, first)


def times(job, ck):
    """Output times and field versions for many step / period ratios."""
    from wake_t import PlasmaStage
    from wake_t.diagnostics import OpenPMDDiagnostics
    from mc import tracker_model as tm
    outs = [1, 2, 3, 4, 5] if job['tier'] == 'quick' else list(range(1, 9))
    for N, n, per, step, before in product(
            ['4', '7/3'], outs, ['1', '3/2', '5'], ['1', '5/3', '9'],
            [True, False]):
        N, per, step = F(N), F(per), F(step)
        ev = tm.simulate(N, [tm.constant(step)], [(per, False)], n, before)
        if tm.near_tie([e[-1] for e in ev]):
            continue
        ck.begin(length=str(N), n_out=n, period=str(per), step=str(step),
                 push_before_out=before)
        with ck.guard('tracking raised'), Scratch() as tmp:
            u = 1e-4
            f = rz_field(float(per)*u)
            el = PlasmaStage(float(N)*u, 1e20, f, n_out=n,
                             dt_bunch=float(step)*u/ct.c,
                             push_bunches_before_diags=before)
            b = bunch(1)
            diag = OpenPMDDiagnostics(tmp)
            out = el.track(b, opmd_diag=diag, show_progress_bar=False)
            exp = []
            zr = 0.
            for e in ev:
                if e[0] == 'refresh':
                    zr = float(e[2])*u
                elif e[0] == 'out':
                    exp.append((float(e[2])*u, float(N)*u/n/ct.c,
                                [out[len(exp)]], {'z': zr}, None))
            # A second tracking with the same diagnostics goes on counting.
            el2 = PlasmaStage(float(N)*u, 1e20, rz_field(float(per)*u),
                              n_out=1, dt_bunch=float(step)*u/ct.c)
            out2 = el2.track(b, opmd_diag=diag, show_progress_bar=False)
            ev2 = tm.simulate(N, [], [(per, False)], 1, True)
            zl = [float(e[2])*u for e in ev2 if e[0] == 'refresh'][-1]
            exp.append((float(N)*u, None, [out2[0]], {'z': 0.}, None))
            exp.append((2*float(N)*u, None, [out2[1]], {'z': zl}, None))
            check_all(ck, tmp, exp)
            ck.state(repr([(x[0], x[3]) for x in exp]))


def requests(job, ck):
    """Where the files go."""
    from wake_t import Beamline
    from wake_t.diagnostics import OpenPMDDiagnostics
    cwd = os.getcwd()
    for kind, how in product(['d2', 'f2', 's2', 'beamline'],
                             ['off', 'default', 'dir', 'nested', 'relative',
                              'instance', 'instance-default']):
        ck.begin(element=kind, request=how)
        with Scratch() as tmp:
            os.chdir(tmp)
            try:
                with ck.guard('tracking raised'):
                    if kind == 'beamline':
                        elems = [Elem('d2'), Elem('f2')]
                        el = Beamline([e.el for e in elems])
                    else:
                        elems = [Elem(kind)]
                        el = elems[0].el
                    b = bunch(0)
                    kw = {'off': dict(opmd_diag=False),
                          'default': dict(opmd_diag=True),
                          'dir': dict(opmd_diag=True,
                                      diag_dir=os.path.join(tmp, 'a')),
                          'nested': dict(opmd_diag=True, diag_dir=os.path.join(
                              tmp, 'a', 'b', 'c')),
                          'relative': dict(opmd_diag=True, diag_dir='rel'),
                          'instance': dict(opmd_diag=OpenPMDDiagnostics(
                              os.path.join(tmp, 'i'))),
                          'instance-default': dict(
                              opmd_diag=OpenPMDDiagnostics())}[how]
                    out = el.track(b, show_progress_bar=False, **kw)
                    where = {'off': None, 'default': 'diags', 'dir': 'a',
                             'nested': 'a/b/c', 'relative': 'rel',
                             'instance': 'i', 'instance-default': 'diags'}[
                                 how]
                    if where is None:
                        ck.expect(listing(tmp) == [], 'files written without '
                                  'being requested', got=listing(tmp))
                    else:
                        n = len(listing(tmp))
                        ck.expect(n == len(out), 'number of files', got=n)
                        check_all(ck, os.path.join(tmp, where),
                                  model(elems, out))
                    ck.state(kind, how)
            finally:
                os.chdir(cwd)


def duplicates(job, ck):
    """Species with the same name are rejected, and nothing is written."""
    for names in product('abc', repeat=3):
        for n in [2, 3]:
            use = names[:n]
            ck.begin(names=use)
            with Scratch() as tmp:
                e = Elem('f2')
                bs = [bunch(i) for i in range(n)]
                for b, nm in zip(bs, use):
                    b.name = nm
                if len(set(use)) < n:
                    ck.raises(ValueError, lambda: e.el.track(
                        bs, opmd_diag=True, diag_dir=tmp,
                        show_progress_bar=False), 'duplicate species names')
                    ck.expect(listing(tmp) == [], 'files written despite '
                              'duplicate names', got=listing(tmp))
                else:
                    with ck.guard('tracking raised'):
                        out = e.el.track(bs, opmd_diag=True, diag_dir=tmp,
                                         show_progress_bar=False)
                        check_all(ck, tmp, [
                            (z, e.dt, [lst[j] for lst in out], None, None)
                            for j, z in enumerate(e.zs)])
                ck.state(use)
    # Bunches created without a name get distinct names.
    from wake_t import ParticleBunch
    ck.begin(unnamed=True)
    with ck.guard('tracking raised'), Scratch() as tmp:
        bs = [ParticleBunch(np.ones(1), *(np.zeros(1) for _ in range(5)),
                            np.full(1, 10.)) for _ in range(3)]
        ck.expect(len(set(b.name for b in bs)) == 3, 'unnamed bunches')
        e = Elem('f2')
        out = e.el.track(bs, opmd_diag=True, diag_dir=tmp,
                         show_progress_bar=False)
        check_all(ck, tmp, [
            (z, e.dt, [lst[j] for lst in out], None, None)
            for j, z in enumerate(e.zs)])
