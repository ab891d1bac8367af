"""C04: the result of tracking depends only on the bunch and on the definition
of the element, not on what was tracked before."""
import contextlib
import io
from itertools import product

import numpy as np
import scipy.constants as ct

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive exploration of all operation sequences up to a depth '
             'over shared (reused) elements, fields and bunches of the real '
             'code; differential oracle: after every operation the result '
             'must equal that of freshly built elements and a fresh copy of '
             'the bunch in a pristine process')
BOUNDS = {
    'quick': 'all sequences of 2 operations out of 22 element reuses x 2 '
             'bunches, and all sequences of 3 operations out of 6 per first '
             'operation class; the progress shown or not',
    'thorough': 'all sequences of 3 operations out of 22 element reuses x 2 '
                'bunches',
}
ASSUMPTIONS = [
    'kernels are run by the Python interpreter instead of the JIT compiler '
    '(history is kept in Python objects only)',
    'laser pulses, which are documented to carry their evolved envelope from '
    'stage to stage, are not shared here (see C14)',
    'before every CSR element the CSR calculator is reset, as documented for '
    'independent calculations',
]
ENV = {'NUMBA_DISABLE_JIT': '1'}

OPS = ['quad', 'quadref', 'dip', 'csr', 'csr0', 'sext', 'f1', 'f2', 'e1',
       'e2', 'rk', 'apl', 'fq', 'blow', 'cblow', 'cf', 'qs', 'quad1',
       'ramp', 'line', 'short', 'none']


def jobs(tier):
    js = []
    for a in OPS:
        js.append(dict(kind='seq', first=a, ops=OPS, depth=2))
    if tier == 'quick':
        groups = [['quad', 'dip', 'csr', 'f1'], ['f1', 'f2', 'e1', 'e2'],
                  ['quad', 'csr', 'csr0', 'dip'],
                  ['e1', 'e2', 'cf', 'rk'], ['short', 'f1', 'none'],
                  ['fq', 'apl', 'f2', 'e2']]
        for g in groups:
            for a in g:
                js.append(dict(kind='seq', first=a, ops=g, depth=3))
    else:
        for a in OPS:
            for b in OPS:
                js.append(dict(kind='seq', first=a, second=b, ops=OPS,
                               depth=3))
    js.append(dict(kind='nobunch'))
    js.append(dict(kind='shown'))
    return js


def weight(j):
    if j['kind'] != 'seq':
        return 3
    return {2: 3, 3: 4}[j['depth']]*(3 if j['first'] in ('qs', 'cf', 'csr')
                                     else 1)


def make_bunch(i):
    from wake_t import ParticleBunch
    r = np.array([1., -0.5, 0.3, 2., -1.4])
    if i == 0:
        return ParticleBunch(
            np.full(5, 2e6), r*1e-6, r[::-1]*1e-6, r*2e-6 - 15e-6,
            r[::-1]*1e-1, -r*1e-1, 200 + 5*r, name='A', z_injection=-1e-3,
            t_flight=2e-9)
    return ParticleBunch(
        np.full(3, 1e6), r[:3]*2e-6, r[2:]*1e-6, r[1:4]*1e-6 - 18e-6,
        r[:3]*1e-2, r[1:4]*1e-2, 60 + r[:3], name='B', q_species=ct.e,
        m_species=ct.m_e)


def _numerical():
    from wake_t.fields.numerical_field import NumericalField

    class Growing(NumericalField):
        """Amplitude grows with the number of refreshes and with the time."""

        def _initialize_properties(self, bunches):
            self.amp = 1.

        def _evolve_properties(self, bunches):
            self.amp += 1.

        def _calculate_field(self, bunches):
            self.val = 1e9*(self.amp + 0.25*self.t/1e-12)
            self.val *= 1. + sum(abs(b.xi).sum() for b in bunches)*1e3

        def _gather(self, x, y, z, t, ex, ey, ez, bx, by, bz):
            ez += self.val
            bx += 1e-9*self.val

    return Growing


class Pool:
    """The reusable elements (built lazily, one set per history)."""

    def __init__(self):
        self.el = {}
        self.fld = {}

    def field(self, k):
        if k not in self.fld:
            G = _numerical()
            self.fld[k] = G(2.3e-12, force_even_updates=(k == 'even'))
        return self.fld[k]

    def get(self, op):
        if op not in self.el:
            self.el[op] = self.build(op)
        return self.el[op]

    def build(self, op):
        import wake_t
        from wake_t import (Drift, Dipole, Quadrupole, Sextupole, PlasmaStage,
                            ActivePlasmaLens, GaussianPulse, PlasmaRamp,
                            Beamline)
        from wake_t.beamline_elements import FieldElement, FieldQuadrupole
        ps = 1e-12*ct.c
        if op == 'quad':
            return Quadrupole(0.1, 4., n_out=2)
        if op == 'quad1':
            return Quadrupole(0.1, 4., order=1)
        if op == 'ramp':
            return PlasmaRamp(
                2e-4, 'exponential', 'downramp',
                plasma_dens_top=1e23, plasma_dens_down=1e21, n_out=1)
        if op == 'line':
            # Also with elements of zero length, and nested.
            return Beamline([
                self.get('quad1'), Drift(0., n_out=1), self.get('f2'),
                Beamline([Drift(0.), self.get('quad')]), self.get('quad1')])
        if op == 'quadref':
            return Quadrupole(0.1, 4., gamma_ref=150.)
        if op == 'dip':
            return Dipole(0.2, 0.1, n_out=3)
        if op == 'csr':
            return Dipole(0.2, 0.1, n_out=2, csr_on=True)
        if op == 'csr0':
            return Drift(0.1, csr_on=True)
        if op == 'sext':
            return Sextupole(0.1, 50., order=2)
        if op == 'f1':
            from wake_t.physics_models.em_fields.linear_b_theta import \
                LinearBThetaField
            return FieldElement(12*ps, 1.7e-12, n_out=2,
                                fields=[self.field('free'),
                                        LinearBThetaField(-50.)])
        if op == 'f2':
            return FieldElement(7*ps, [1e-12], n_out=1,
                                fields=[self.field('free'),
                                        self.field('even')])
        if op == 'short':
            # Shorter than the period of the field.
            return FieldElement(1.6*ps, .7e-12, n_out=1,
                                fields=[self.field('free')])
        if op == 'none':
            return FieldElement(4*ps, 1.7e-12, n_out=1, fields=[])
        if op == 'e1':
            return FieldElement(12*ps, 1.7e-12, n_out=3,
                                fields=[self.field('even')])
        if op == 'e2':
            return FieldElement(1.1*ps, 1.7e-12, n_out=0,
                                fields=[self.field('even')],
                                push_bunches_before_diags=False)
        if op == 'rk':
            return FieldElement(5*ps, ['auto'], n_out=1, bunch_pusher='rk4',
                                auto_dt_bunch=lambda b: 1e-14*b.pz.min(),
                                fields=[self.field('free')])
        if op == 'apl':
            return ActivePlasmaLens(1e-2, 1000., n_out=2)
        if op == 'fq':
            return FieldQuadrupole(1e-2, 500., n_out=1, bunch_pusher='rk4')
        las = GaussianPulse(0., l_0=0.8e-6, w_0=20e-6, a_0=0.1, tau=10e-15,
                            z_foc=0.)
        if op == 'blow':
            return PlasmaStage(2e-4, 1e23, wakefield_model='simple_blowout',
                               n_out=2, laser=las)
        if op == 'cblow':
            return PlasmaStage(
                2e-4, 1e23, wakefield_model='custom_blowout', n_out=1,
                laser=las, lon_field=-1e9, lon_field_slope=1e13,
                foc_strength=1e5, xi_fields=-10e-6)
        kw = dict(r_max=30e-6, xi_min=-40e-6, xi_max=0., n_r=5, n_xi=5,
                  dz_fields=45e-6)
        if op == 'cf':
            return PlasmaStage(
                1e-4, lambda z: np.ones_like(z)*1e23*(1 + z*1e4),
                wakefield_model='cold_fluid_1d', n_out=1, dt_bunch=1.2e-13,
                beam_wakefields=True, **kw)
        return PlasmaStage(
            1e-4, lambda z: np.ones_like(z)*1e23*(1 + z*1e4),
            wakefield_model='quasistatic_2d', n_out=1, dt_bunch=1.2e-13,
            ppc=1, **kw)


def apply(op, el, bunch, show=False):
    import wake_t
    from wake_t.physics_models.collective_effects.csr import (
        reset_csr_calculator, set_csr_settings)
    if op in ('csr', 'csr0'):
        set_csr_settings(csr_step=0.05, csr_traj_step=0.005, n_bins=40)
        reset_csr_calculator()
    if show:
        # With the progress shown, as by default.
        with contextlib.redirect_stdout(io.StringIO()):
            return el.track(bunch)
    return el.track(bunch, show_progress_bar=False)


KEYS = ['x', 'y', 'xi', 'px', 'py', 'pz', 'w']
META = ['prop_distance', 't_flight', 'z_injection', 'x_ref', 'theta_ref',
        'name', 'q_species', 'm_species']

CONST = ['t_flight', 'z_injection', 'name', 'q_species', 'm_species']


def pack(b):
    d = {k: np.array(getattr(b, k)) for k in KEYS}
    d.update({k: getattr(b, k) for k in META})
    return d


def pack_same(a, b):
    return a.keys() == b.keys() and all(
        np.array_equal(a[k], b[k]) for k in a)


class Obj:
    def __init__(self, d):
        self.__dict__.update(d)


def unpack(d):
    from wake_t import ParticleBunch
    b = ParticleBunch(
        d['w'].copy(), *(d[k].copy() for k in KEYS[:6]),
        prop_distance=d['prop_distance'], t_flight=d['t_flight'],
        z_injection=d['z_injection'], name=d['name'],
        q_species=d['q_species'], m_species=d['m_species'])
    b.x_ref, b.theta_ref = d['x_ref'], d['theta_ref']
    return b


def pristine(op, packed):
    """Runs in a process in which nothing has been tracked before."""
    b = unpack(packed)
    out = apply(op, Pool().build(op), b)
    return pack(b), [pack(o) for o in out]


def pristine_stage(op, idx):
    el = Pool().build(op)
    bs = [make_bunch(i) for i in idx]
    el.track(bs, show_progress_bar=False)
    return [pack(b) for b in bs], fields_of(el)


def fields_of(el):
    wf = el.wakefield
    return [np.array(a) for a in (wf.e_z, wf.e_r, wf.b_t, wf.rho)]


ORACLE = None
ORACLE_STAGE = None


CACHE = {}


def oracle(op, packed):
    import pickle
    key = (op, pickle.dumps(packed))
    if key not in CACHE:
        CACHE[key] = ORACLE(op, packed)
    return CACHE[key]


def start_oracles():
    global ORACLE, ORACLE_STAGE
    if ORACLE is None:
        import wake_t
        import wake_t.beamline_elements
        from mc.zygote import Zygote
        ORACLE = Zygote(pristine)
        ORACLE_STAGE = Zygote(pristine_stage)


def same_bunch(ck, a, b, what, **d):
    for k in KEYS:
        x, y = getattr(a, k), getattr(b, k)
        s = np.max(np.abs(y)) if y.size else 0.
        ck.close(x, y, what + ': ' + k, rtol=1e-11, scale=s, **d)
    for k in META:
        x, y = getattr(a, k), getattr(b, k)
        if isinstance(y, float) and isinstance(x, (int, float)):
            ok = abs(x-y) <= 1e-12*max(abs(y), 1e-30)
        else:
            ok = x == y
        ck.expect(ok, what + ': ' + k, got=x, want=y, **d)


DEFS = ['length', 'theta', 'k1', 'k2', 'gamma_ref', 'n_out', 'order',
        'dt_bunch', 'bunch_pusher', 'foc_strength', 'name',
        'push_bunches_before_diags']


def definition(el):
    d = {k: (list(v) if isinstance(v, list) else v)
         for k, v in vars(el).items() if k in DEFS}
    for k in ('fields', 'external_fields'):
        if k in vars(el):
            d[k] = [id(f) for f in getattr(el, k)]
    if 'elements' in vars(el):
        d['elements'] = [id(e) for e in el.elements]
    return d


def explore(ck, seq, show=False):
    """seq: list of (op, bunch index)."""
    pool = Pool()
    bunches = [make_bunch(0), make_bunch(1)]
    hist = []
    aside = []      # copies and outputs that nobody tracks, and their content
    for op, i in seq:
        hist.append([op, i])
        ck.begin(history=list(hist), progress_shown=show)
        b = bunches[i]
        # Either the bunch or a copy of it is tracked; the other is left
        # alone from then on.
        copy = b.copy()
        ck.expect(pack_same(pack(copy), pack(b)), 'content of a copy')
        if len(hist) % 2:
            aside.append(('copy of a tracked bunch', copy, pack(copy)))
        else:
            aside.append(('bunch whose copy is tracked', b, pack(b)))
            bunches[i] = b = copy
        with ck.guard('fresh tracking raised'):
            d_b, d_out = oracle(op, pack(b))
            fresh_b, want = Obj(d_b), [Obj(d) for d in d_out]
        other = Obj(pack(bunches[1-i]))
        with ck.guard('reused tracking raised'):
            el = pool.get(op)
            d0 = definition(el)
            const = {k: getattr(b, k) for k in CONST}
            got = apply(op, el, b, show)
            ck.step()
            same_bunch(ck, b, fresh_b, 'tracked bunch')
            for k in CONST:
                ck.expect(getattr(b, k) == const[k], 'changed by tracking: '
                          + k, got=getattr(b, k), want=const[k])
            same_bunch(ck, bunches[1-i], other, 'bunch that is not tracked')
            if ck.expect(len(got) == len(want), 'number of outputs',
                         got=len(got), want=len(want)):
                for k, (g, w) in enumerate(zip(got, want)):
                    same_bunch(ck, g, w, 'output', output=k)
            aside += [('earlier output', g, pack(g)) for g in got]
            for what, a, d in aside:
                ck.expect(pack_same(pack(a), d), what + ' changed',
                          got=pack(a), want=d)
            ck.expect(definition(el) == d0, 'definition of the element '
                      'changed by tracking', got=definition(el), want=d0)
            ck.state(b.x, b.px, b.pz, b.prop_distance, op)


def run(job, ck):
    start_oracles()
    if job['kind'] == 'nobunch':
        return nobunch(ck)
    if job['kind'] == 'shown':
        for op, i in product(OPS, [0, 1]):
            explore(ck, [(op, i), (op, 1-i)], show=True)
        return
    ops = job['ops']
    if job['depth'] == 2:
        for i, b, j in product([0, 1], ops, [0, 1]):
            explore(ck, [(job['first'], i), (b, j)])
    elif 'second' in job:
        for i, j, c, k in product([0], [0, 1], ops, [0, 1]):
            explore(ck, [(job['first'], i), (job['second'], j), (c, k)])
    else:
        for i, b, j, c, k in product([0], ops, [0, 1], ops, [0, 1]):
            explore(ck, [(job['first'], i), (b, j), (c, k)])


def nobunch(ck):
    """Reuse with different sets of bunches, including none."""
    sets = [(), (0,), (1,), (0, 1), (1, 0)]
    for op in ['qs', 'cf']:
        for a, b in product(sets, sets):
            ck.begin(model=op, first=a, then=b)
            with ck.guard('tracking raised'):
                pool = Pool()
                el = pool.get(op)
                el.track([make_bunch(i) for i in a], show_progress_bar=False)
                bs = [make_bunch(i) for i in b]
                got = el.track(bs, show_progress_bar=False)
                d_bs, flds = ORACLE_STAGE(op, list(b))
                ck.step(2)
                for x, y in zip(bs, d_bs):
                    same_bunch(ck, x, Obj(y), 'tracked bunch')
                for x, y in zip(fields_of(el), flds):
                    ck.close(x, y, 'wakefield', rtol=1e-11)
                ck.state(op, a, b, el.wakefield.e_z)
