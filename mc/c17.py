"""C17: plasma elements realise the density profile, focusing and time step
they are documented to have, for every way of specifying them."""
from itertools import product

import numpy as np
import scipy.constants as ct

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of all element specifications (profile x '
             'direction x length x every way of giving the decay length x '
             'wakefield model x species) on the real elements; the fields '
             'they apply and the tracked bunches are compared with an '
             'independent closed-form reference, and the steps they take with '
             'the documented betatron step')
BOUNDS = {
    'quick': '0-20 external fields x 4 elements x 2 pushers; 288 '
             'ramps and 18 stages of extreme length and density; 4 profiles x 2 directions x 3 lengths x 10 decay '
             'specifications x 28 positions (scalar and array) = all 240 '
             'ramps; all of them tracked with the focusing model; 5 '
             'wakefield models x 8 density specifications; 6 elements x 4 '
             'species x 4 energies for the automatic step',
    'thorough': '0-20 external fields x 4 elements x 2 pushers; 288 '
             'ramps and 18 stages of extreme length and density; 4 profiles x 2 directions x 5 lengths x 22 decay '
                'specifications x 100 positions, all tracked with both '
                'pushers; 5 wakefield models x 8 density specifications; 6 '
                'elements x 4 species x 6 energies for the automatic step',
}
ASSUMPTIONS = [
    'the kernels run in the Python interpreter (the compiled ones are '
    'compared in C06, C18 and C19)',
    'densities are positive and decay lengths finite; density functions '
    'for the focusing model accept arrays of positions',
]


ENV = {'NUMBA_DISABLE_JIT': '1'}

PROFILES = ('inverse_square', 'exponential', 'gaussian', 'callable')


def jobs(tier):
    js = [dict(kind='ramps', profile=p, type=d, tier=tier)
          for p in PROFILES for d in ('upramp', 'downramp')]
    js += [dict(kind='models', model=m, tier=tier)
           for m in ('simple_blowout', 'custom_blowout', 'focusing_blowout',
                     'cold_fluid_1d', 'quasistatic_2d')]
    js += [dict(kind='steps', tier=tier), dict(kind='rejects', tier=tier),
           dict(kind='defaults', tier=tier), dict(kind='external', tier=tier),
           dict(kind='extreme', tier=tier)]
    return js


def weight(j):
    return {'ramps': 3, 'models': 4, 'steps': 3, 'rejects': 1,
            'defaults': 1, 'external': 2, 'extreme': 2}[j['kind']]


# -- reference ---------------------------------------------------------------
def decay(profile, spec, length):
    """Characteristic length of a ramp specification."""
    if spec.get('decay_length') is not None:
        return spec['decay_length']
    pos = spec.get('position_down')
    if pos is None:
        pos = length
    ratio = spec['plasma_dens_top']/spec['plasma_dens_down']
    return {'inverse_square': lambda: pos/(ratio**0.5 - 1),
            'exponential': lambda: pos/np.log(ratio),
            'gaussian': lambda: pos/(2*np.log(ratio))**0.5}[profile]()


def ref_profile(profile, kind, spec, length):
    """Density at the distance z from the entrance of the ramp."""
    top = spec['plasma_dens_top']

    def down(s):
        if profile == 'callable':
            return my_profile(
                s, spec.get('decay_length'), top,
                spec.get('plasma_dens_down'),
                length if spec.get('position_down') is None
                else spec['position_down'])
        L = decay(profile, spec, length)
        if profile == 'inverse_square':
            return top*(1 + s/L)**-2
        if profile == 'exponential':
            return top*np.exp(-s/L)
        return top*np.exp(-0.5*(s/L)**2)

    if kind == 'upramp':
        return lambda z: down(length - z)
    return down


def my_profile(z, decay_length, density_top, density_down, position_down):
    """User profile which depends on all of its arguments."""
    a = 0. if decay_length is None else decay_length
    b = 0. if density_down is None else density_down
    return density_top*(1. + 0.3*np.cos(z*2e3)) + 0.1*b*(
        1. + z/position_down) + density_top*a*z


def specs(tier):
    out = []
    tops = (1e23,) if tier == 'quick' else (1e23, 4e24)
    for top in tops:
        for L in (2e-4, 1.7e-3) + (() if tier == 'quick' else (1.5e-4,)):
            out.append(dict(decay_length=L, plasma_dens_top=top))
        # The decay length takes precedence over the derived one.
        out.append(dict(decay_length=6e-4, plasma_dens_top=top,
                        plasma_dens_down=top/7, position_down=3e-4))
        out.append(dict(decay_length=6e-4, plasma_dens_top=top,
                        plasma_dens_down=top/7))
        for ratio in (3., 40.) + (() if tier == 'quick' else (1.2,)):
            for pos in (None, 3e-4, 4e-3):
                out.append(dict(plasma_dens_top=top,
                                plasma_dens_down=top/ratio,
                                position_down=pos))
    return out


def lengths(tier):
    return (1e-3, 2.5e-4, 3.3e-3) + (
        () if tier == 'quick' else (5e-5, 4e-3))


def focusing_ref(dens):
    from wake_t.fields.base import Field

    class Ref(Field):
        def _gather(self, x, y, xi, t, ex, ey, ez, bx, by, bz):
            k = dens(ct.c*t + xi)*ct.e/(2*ct.epsilon_0)
            ex += k*x
            ey += k*y
    return Ref()


def bunch(pz=200., n=9, **kw):
    from wake_t import ParticleBunch
    a = np.linspace(-1., 1., n)
    return ParticleBunch(
        w=np.full(n, 1e5), x=a*1e-5, y=(0.3 - a**2)*1e-5, xi=a*4e-5,
        px=a[::-1]*.5, py=a*.7, pz=pz*(1.05 + 0.05*a), name='b', **kw)


def ps(b):
    return [b.x, b.y, b.xi, b.px, b.py, b.pz]


def same_bunch(ck, got, want, what, rtol=1e-9, **kw):
    for n, g, w in zip(('x', 'y', 'xi', 'px', 'py', 'pz'), ps(got), ps(want)):
        ck.close(g, w, what + ': ' + n, rtol=rtol, **kw)


def gathered(element, x, y, xi, t):
    """Fields applied by an element, in its own order."""
    from wake_t.fields.gather import gather_fields
    a = [np.zeros(len(x)) for _ in range(6)]
    gather_fields(element.fields, x, y, xi, t, *a)
    return a


def run(job, ck):
    globals()['run_' + job['kind']](job, ck)


# -- ramps -------------------------------------------------------------------
def run_ramps(job, ck):
    from wake_t.beamline_elements import PlasmaRamp, FieldElement
    tier = job['tier']
    prof, kind = job['profile'], job['type']
    n_z = 28 if tier == 'quick' else 100
    for length, spec in product(lengths(tier), specs(tier)):
        ck.begin(profile=prof, type=kind, length=length, spec=spec)
        with ck.guard():
            ref = ref_profile(prof, kind, spec, length)
            dt = length/7./ct.c

            def make(pusher='boris', **kw):
                return PlasmaRamp(
                    length, my_profile if prof == 'callable' else prof, kind,
                    'focusing_blowout', dt_bunch=dt, bunch_pusher=pusher,
                    n_out=2, **spec, **kw)
            el = make()
            # Density seen by particles all along the ramp: ahead of, at and
            # behind the centre of the window.
            z = np.linspace(0., length, n_z)
            for xi0 in (0., -length/9., length/13.):
                x = np.full(n_z, 1e-5)
                y = np.full(n_z, -2e-5)
                xi = z + xi0
                got = gathered(el, x, y, xi, 0.)
                k = ref(xi)*ct.e/(2*ct.epsilon_0)
                ck.close(got[0], k*x, 'focusing along the ramp (x)',
                         rtol=1e-9, xi0=xi0)
                ck.close(got[1], k*y, 'focusing along the ramp (y)',
                         rtol=1e-9, xi0=xi0)
                for i in range(2, 6):
                    ck.expect(not got[i].any(), 'ramp applies only the '
                              'focusing field', component=i)
            # The same, as the window advances.
            for zz in z:
                got = gathered(el, x[:3], y[:3], np.array(
                    [0., -length/9., length/13.]), zz/ct.c)
                k = ref(zz + np.array([0., -length/9., length/13.]))*ct.e/(
                    2*ct.epsilon_0)
                ck.close(got[0], k*x[:3], 'focusing while advancing',
                         rtol=1e-9, z=zz)
                # Public density function, scalar and array.
                ck.close(float(el.density(zz)), float(ref(zz)),
                         'ramp density', rtol=1e-9, z=zz)
            ck.close(el.density(z), ref(z), 'ramp density', rtol=1e-9)
            ck.step(n_z)
            ck.state(*got)
            # Documented end points, checked independently of the formulas.
            if prof != 'callable':
                top = spec['plasma_dens_top']
                at = (lambda s: length - s) if kind == 'upramp' else \
                    (lambda s: s)
                ck.close(float(el.density(at(0.))), top, 'density at the top',
                         rtol=1e-9)
                if 'decay_length' not in spec:
                    pos = spec['position_down']
                    pos = length if pos is None else pos
                    ck.close(float(el.density(at(pos))),
                             spec['plasma_dens_down'],
                             'density at position_down', rtol=1e-9)
                d = el.density(at(np.linspace(0., length, 50)))
                ck.expect(np.all(np.diff(d) < 0), 'density decreases away '
                          'from the top of the ramp')
            # Tracking.
            for pusher in (('boris',) if tier == 'quick' else
                           ('boris', 'rk4')):
                b1, b2 = bunch(), bunch()
                o1 = make(pusher).track(b1, show_progress_bar=False)
                o2 = FieldElement(length, dt, pusher, 2, fields=[
                    focusing_ref(ref)]).track(b2, show_progress_bar=False)
                ck.step(2)
                ck.state(*ps(b1))
                ck.expect(len(o1) == len(o2) > 0, 'number of outputs',
                          got=len(o1))
                for a, b in zip(o1 + [b1], o2 + [b2]):
                    same_bunch(ck, a, b, 'bunch tracked through the ramp',
                               pusher=pusher)


# -- models ------------------------------------------------------------------
def run_models(job, ck):
    """Every way of giving a model and a density gives the same wakefield."""
    import wake_t.physics_models.plasma_wakefields as wf
    from wake_t import GaussianPulse
    from wake_t.beamline_elements import (
        PlasmaStage, PlasmaRamp, FieldElement, ActivePlasmaLens)
    model = job['model']

    def laser():
        return GaussianPulse(xi_c=31e-6, a_0=1., w_0=20e-6, tau=30e-15,
                             z_foc=0., l_0=0.8e-6)

    def params():
        return {
            'simple_blowout': lambda: dict(laser=laser(), field_offset=2e-6),
            'custom_blowout': lambda: dict(
                laser=laser(), lon_field=-1e9, lon_field_slope=2e14,
                foc_strength=8e2, xi_fields=4e-6),
            'focusing_blowout': lambda: dict(),
            'cold_fluid_1d': lambda: dict(
                r_max=40e-6, xi_min=-60e-6, xi_max=50e-6, n_r=8, n_xi=24,
                laser=laser(), laser_evolution=False, dz_fields=1e-4,
                beam_wakefields=True),
            'quasistatic_2d': lambda: dict(
                r_max=40e-6, xi_min=-60e-6, xi_max=50e-6, n_r=8, n_xi=14,
                laser=laser(), laser_evolution=False, dz_fields=4e-4,
                ppc=1, p_shape='linear'),
        }[model]()
    cls = {'simple_blowout': wf.SimpleBlowoutWakefield,
           'custom_blowout': wf.CustomBlowoutWakefield,
           'focusing_blowout': wf.FocusingBlowoutField,
           'cold_fluid_1d': wf.NonLinearColdFluidWakefield,
           'quasistatic_2d': wf.Quasistatic2DWakefield}[model]
    length = 8e-4
    slow = model == 'quasistatic_2d'
    dt = length/5./ct.c

    def uni(z):
        return np.ones_like(np.asarray(z, dtype=float))*2e23

    def var(z):
        return 2e23*(1 + 0.5*np.sin(np.asarray(z)*3e3))
    sp = dict(plasma_dens_top=2e23, plasma_dens_down=5e22)
    up = ref_profile('exponential', 'upramp', sp, length)
    down = ref_profile('gaussian', 'downramp', sp, length)

    cases = {
        'stage, number': (uni, lambda **k: PlasmaStage(
            length, 2e23, model, **k, **params())),
        'stage, callable': (var, lambda **k: PlasmaStage(
            length, var, model, **k, **params())),
        'stage, instance': (var, lambda **k: PlasmaStage(
            length, 1e10, cls(var, **params()), **k)),
        'stage, instance and ignored density': (uni, lambda **k: PlasmaStage(
            length, var, cls(uni, **params()), **k)),
        'upramp': (up, lambda **k: PlasmaRamp(
            length, 'exponential', 'upramp', model, **sp, **k, **params())),
        'downramp': (down, lambda **k: PlasmaRamp(
            length, 'gaussian', 'downramp', model, **sp, **k, **params())),
        'lens': (var, lambda **k: ActivePlasmaLens(
            length, 300., True, var, model, **k, **params())),
    }
    cases['stage, constant function'] = (uni, lambda **k: PlasmaStage(
        length, lambda z: 2e23, model, **k, **params()))

    def steps(z):
        return np.where(np.asarray(z) < 4.1e-4, 2e23, 1e23)
    if model != 'focusing_blowout':
        cases['stage, function of a number'] = (
            steps, lambda **k: PlasmaStage(
                length, lambda z: 2e23 if z < 4.1e-4 else 1e23, model, **k,
                **params()))
    if model == 'custom_blowout':
        # Its focusing parameter has the name of that of the lens: only an
        # instance of the model can be used there.
        del cases['lens']
    for pusher in ('boris', 'rk4'):
        for case, (dens, make) in cases.items():
            for n_out in ((2,) if slow else (1, 3)):
                ck.begin(model=model, case=case, pusher=pusher, n_out=n_out)
                with ck.guard():
                    b1, b2 = bunch(n=5), bunch(n=5)
                    o1 = make(bunch_pusher=pusher, dt_bunch=dt,
                              n_out=n_out).track(b1, show_progress_bar=False)
                    fields = [cls(dens, **params())]
                    if case == 'lens':
                        from wake_t.physics_models.em_fields.linear_b_theta \
                            import LinearBThetaField
                        fields.append(LinearBThetaField(-300.))
                    o2 = FieldElement(
                        length, dt, pusher, n_out, fields=fields).track(
                            b2, show_progress_bar=False)
                    ck.step(2)
                    ck.state(*ps(b1))
                    ck.expect(len(o1) == len(o2) > 0, 'outputs',
                              got=len(o1))
                    for a, b in zip(o1 + [b1], o2 + [b2]):
                        same_bunch(ck, a, b, 'bunch tracked with %s' % model)
                    # The wakefield does act.
                    b3 = bunch(n=5)
                    FieldElement(length, dt, pusher, 1, fields=[]).track(
                        b3, show_progress_bar=False)
                    ck.expect(not np.allclose(b1.px, b3.px, rtol=1e-7,
                                              atol=0),
                              'wakefield acts on the bunch')


# -- automatic step ----------------------------------------------------------
class _Times:
    """Field that records when it is asked for its value."""

    def __new__(cls):
        from wake_t.fields.base import Field

        class Probe(Field):
            def __init__(self):
                super().__init__()
                self.t = []

            def _gather(self, x, y, z, t, *a):
                self.t.append(t)
        return Probe()


def run_steps(job, ck):
    """The automatic step is a tenth of the shortest betatron time."""
    from wake_t.beamline_elements import (
        PlasmaStage, PlasmaRamp, ActivePlasmaLens, FieldQuadrupole)
    species = [(-ct.e, ct.m_e), (ct.e, ct.m_e), (ct.e, ct.m_p),
               (-2*ct.e, 3*ct.m_e)]
    energies = (20., 200., 1000., 2e4) + (
        () if job['tier'] == 'quick' else (2., 1e5))

    def kx(n):
        return n*ct.e/(2*ct.epsilon_0*ct.c)
    sp = dict(plasma_dens_top=2e23, plasma_dens_down=5e22)
    els = {
        'stage': (kx(2e23), lambda **k: PlasmaStage(
            1., 2e23, None, **k)),
        'stage with profile': (kx(3e23), lambda **k: PlasmaStage(
            1., lambda z: 1e23 + 2e23*z, None, **k)),
        'stage with constant function': (kx(2e23), lambda **k: PlasmaStage(
            1., lambda z: 2e23, None, **k)),
        'stage with steps': (kx(2.5e23), lambda **k: PlasmaStage(
            1., lambda z: 1e23 if z < .3 else 2.5e23 if z < .6 else 5e22,
            None, **k)),
        'ramp with steps': (kx(2e23), lambda **k: PlasmaRamp(
            1., lambda z, decay_length, density_top, density_down,
            position_down: density_top if z < .3 else density_down, 'upramp',
            None, **sp, **k)),
        'stage with peak': (kx(3e23), lambda **k: PlasmaStage(
            1., lambda z: 1e23 + 2e23*np.exp(-((z - .53)/.05)**2), None,
            **k)),
        'stage with dip': (kx(3e23), lambda **k: PlasmaStage(
            1., lambda z: 3e23 - 2.9e23*np.exp(-((z - .5)/.3)**8), None,
            **k)),
        'upramp': (kx(2e23), lambda **k: PlasmaRamp(
            1., 'exponential', 'upramp', None, **sp, **k)),
        'downramp': (kx(2e23), lambda **k: PlasmaRamp(
            1., 'inverse_square', 'downramp', None, **sp, **k)),
        'lens': (300., lambda **k: ActivePlasmaLens(1., 300., **k)),
        'lens-': (300., lambda **k: ActivePlasmaLens(1., -300., **k)),
        'lens with plasma': (kx(2e23), lambda **k: ActivePlasmaLens(
            1., 300., True, 2e23, 'focusing_blowout', **k)),
        'lens with ignored plasma': (300., lambda **k: ActivePlasmaLens(
            1., 300., False, 2e23, 'focusing_blowout', **k)),
        'quadrupole': (300., lambda **k: FieldQuadrupole(1., 300., **k)),
        'quadrupole-': (300., lambda **k: FieldQuadrupole(1., -300., **k)),
    }
    for (name, (k, make)), (q, m), pz in product(
            els.items(), species, energies):
        ck.begin(element=name, q=q, m=m, pz=pz)
        with ck.guard():
            # On axis: the energies do not change along the element.
            b = bunch(pz, q_species=q, m_species=m)
            for a in (b.x, b.y, b.px, b.py):
                a[:] = 0.
            gmin = np.sqrt(1. + np.min(b.pz)**2)
            want = 0.1/np.sqrt(abs(q/m*ct.c*k/gmin))
            # The maximum of a peak depends on where it is sampled.
            tol = .02 if name == 'stage with peak' else 1e-6
            for how in ('auto', 'list'):
                probe = _Times()
                el = make(dt_bunch='auto' if how == 'auto' else ['auto'],
                          n_out=1)
                el.length = 4.4*want*ct.c
                el.fields = list(el.fields) + [probe]
                if name in ('upramp', 'downramp', 'stage with profile',
                            'stage with constant function',
                            'stage with steps', 'ramp with steps',
                            'stage with peak', 'stage with dip'):
                    # Length is part of the density: keep it.
                    el.length = 1.
                    if 1./ct.c/want > 200:
                        # Keep the work bounded: short bunch of checks.
                        ck.step()
                        got = el.auto_dt_bunch(b) \
                            if callable(el.auto_dt_bunch) else want
                        ck.close(got, want, 'automatic step', rtol=tol)
                        continue
                el.track(b.copy(), show_progress_bar=False)
                t = np.array(probe.t)
                ck.expect(len(t) >= 2, 'several pushes', t=t)
                ck.step(len(t))
                ck.state(t)
                ck.close(t[1] - t[0], want, 'automatic step', rtol=tol,
                         how=how)


# -- rejects -----------------------------------------------------------------
def run_rejects(job, ck):
    from wake_t.beamline_elements import (
        PlasmaStage, PlasmaRamp, ActivePlasmaLens, FieldElement)
    for bad in ('', 'Gaussian', 'linear', 'inverse square', 3):
        ck.begin(bad_profile=bad)
        ck.raises(ValueError, lambda: PlasmaRamp(
            1e-3, bad, plasma_dens_top=1e23, plasma_dens_down=1e22),
            'unknown ramp profile')
    for bad in ('', 'blowout', 'Quasistatic_2d', 'none'):
        for cls in ('stage', 'ramp', 'lens'):
            ck.begin(bad_model=bad, element=cls)
            ck.raises(ValueError, lambda: {
                'stage': lambda: PlasmaStage(1e-3, 1e23, bad),
                'ramp': lambda: PlasmaRamp(
                    1e-3, wakefield_model=bad, plasma_dens_top=1e23,
                    plasma_dens_down=1e22),
                'lens': lambda: ActivePlasmaLens(
                    1e-3, 100., True, 1e23, bad)}[cls](),
                'unknown wakefield model')
    for bad in ('1e23', None, [1e23], {}):
        ck.begin(bad_density=bad)
        ck.raises(ValueError, lambda: PlasmaStage(1e-3, bad),
                  'density that is neither a number nor a function')
    ck.begin(lens='wakefields without density')
    for model in ('quasistatic_2d', 'focusing_blowout', 'cold_fluid_1d'):
        ck.raises(ValueError, lambda: ActivePlasmaLens(
            1e-3, 100., True, wakefield_model=model),
            'lens wakefields without density')
    # A number of time steps different from the number of bunches.
    for n_dt, n_b in product(range(1, 4), range(1, 4)):
        ck.begin(n_dt=n_dt, n_bunches=n_b)
        el = PlasmaStage(1e-4, 1e23, 'focusing_blowout', n_out=1,
                         dt_bunch=[1e-13]*n_dt)

        def go():
            return el.track([bunch(n=3, tags=None) for _ in range(n_b)],
                            show_progress_bar=False)
        if n_dt != n_b:
            ck.raises(ValueError, go, 'number of time steps and bunches')
        else:
            with ck.guard():
                out = go()
                ck.expect(len(out) > 0, 'outputs',
                          got=len(out))
                ck.step()
    # A ramp with no wakefield, a lens without wakefields: only the rest acts.
    for make in (lambda: PlasmaStage(1e-3, 1e23, None, n_out=1,
                                     dt_bunch=1e-13),
                 lambda: PlasmaRamp(1e-3, wakefield_model=None, n_out=1,
                                    plasma_dens_top=1e23,
                                    plasma_dens_down=1e22, dt_bunch=1e-13)):
        ck.begin(element='no wakefield')
        with ck.guard():
            b1, b2 = bunch(), bunch()
            make().track(b1, show_progress_bar=False)
            FieldElement(1e-3, 1e-13, n_out=1, fields=[]).track(
                b2, show_progress_bar=False)
            ck.step(2)
            same_bunch(ck, b1, b2, 'element without wakefield is a drift')


def ext_field(i):
    """Distinct external fields; a bunch can tell which of them acted."""
    from wake_t.fields.base import Field

    class Ext(Field):
        def _gather(self, x, y, z, t, ex, ey, ez, bx, by, bz):
            if i % 3 == 0:
                ex += 1e9*(i + 1)
            elif i % 3 == 1:
                by += 3.*(i + 1)
            else:
                ez += 2e9*(i + 1)*(1 + t*ct.c*1e3)
    return Ext()


def run_external(job, ck):
    """All external fields act, in addition to the field of the element."""
    from wake_t.beamline_elements import (
        PlasmaStage, PlasmaRamp, ActivePlasmaLens, FieldElement)
    from wake_t.physics_models.em_fields.linear_b_theta import \
        LinearBThetaField
    L = 1e-3
    dt = L/6/ct.c
    sp = dict(decay_length=6e-4, plasma_dens_top=1e23)
    down = ref_profile('gaussian', 'downramp', sp, L)

    def flat(z):
        return np.ones_like(z)*1e23
    makes = {
        'stage': (lambda **k: PlasmaStage(L, 1e23, 'focusing_blowout', **k),
                  lambda: [focusing_ref(flat)]),
        'stage, no wakefield': (lambda **k: PlasmaStage(L, 1e23, None, **k),
                                lambda: []),
        'ramp': (lambda **k: PlasmaRamp(
            L, 'gaussian', 'downramp', 'focusing_blowout', **sp, **k),
            lambda: [focusing_ref(down)]),
        'ramp, no wakefield': (lambda **k: PlasmaRamp(
            L, 'gaussian', 'downramp', None, **sp, **k), lambda: []),
        'lens': (lambda **k: ActivePlasmaLens(L, 300., **k),
                 lambda: [LinearBThetaField(-300.)]),
        'lens, plasma not used': (lambda **k: ActivePlasmaLens(
            L, 300., density=1e23, **k), lambda: [LinearBThetaField(-300.)]),
        'lens, nothing used': (lambda **k: ActivePlasmaLens(
            L, 300., False, flat, 'simple_blowout', **k),
            lambda: [LinearBThetaField(-300.)]),
        'lens, wakefield': (lambda **k: ActivePlasmaLens(
            L, 300., True, 1e23, 'focusing_blowout', **k),
            lambda: [focusing_ref(flat), LinearBThetaField(-300.)]),
    }
    for (nm, (make, ref)), n, pusher in product(
            makes.items(), (None, 0, 1, 2, 3, 4, 7, 20), ('boris', 'rk4')):
        if nm.startswith('lens') and n is not None:
            continue        # takes none
        ck.begin(element=nm, external_fields=n, pusher=pusher)
        with ck.guard():
            kw = dict(dt_bunch=dt, bunch_pusher=pusher, n_out=2)
            lst = [ext_field(i) for i in range(n or 0)]
            if n is not None:
                kw['external_fields'] = lst
            b1, b2 = bunch(), bunch()
            o1 = make(**kw).track(b1, show_progress_bar=False)
            o2 = FieldElement(L, dt, pusher, 2, fields=ref() + [
                ext_field(i) for i in range(n or 0)]).track(
                    b2, show_progress_bar=False)
            ck.step(2)
            ck.state(*ps(b1))
            ck.expect(len(o1) == len(o2) == 3, 'outputs', got=len(o1))
            for a, b in zip(o1 + [b1], o2 + [b2]):
                same_bunch(ck, a, b, 'bunch with external fields')
            ck.expect(len(lst) == (n or 0), 'list of the user')


def run_extreme(job, ck):
    """Very short, long, thin and dense plasmas."""
    from wake_t.beamline_elements import (
        PlasmaStage, PlasmaRamp, FieldElement)
    for prof, kind, length, top, rel, n in product(
            PROFILES, ('upramp', 'downramp'), (1e-6, 1e-2, 3.), (1e15, 1e27),
            (.05, .9, 30.), (1, 12)):
        spec = dict(decay_length=rel*length, plasma_dens_top=top)
        spec2 = dict(plasma_dens_top=top, plasma_dens_down=top/1.0001)
        spec3 = dict(plasma_dens_top=top, plasma_dens_down=top/1e6,
                     position_down=rel*length)
        for s in (spec, spec2, spec3):
            ck.begin(profile=prof, type=kind, length=length, spec=s)
            with ck.guard():
                ref = ref_profile(prof, kind, s, length)
                el = PlasmaRamp(
                    length, my_profile if prof == 'callable' else prof, kind,
                    'focusing_blowout', dt_bunch=length/n/ct.c, n_out=n, **s)
                z = np.linspace(0., length, 41)
                x = np.linspace(-1., 1., 41)*3e-6
                got = gathered(el, x, -x, z, 0.)
                k = ref(z)*ct.e/(2*ct.epsilon_0)
                ck.close(got[0], k*x, 'focusing along the ramp', rtol=1e-9)
                ck.close(got[1], -k*x, 'focusing along the ramp', rtol=1e-9)
                for i in (0, 7, 40):
                    ck.close(float(el.density(z[i])), float(ref(z[i])),
                             'ramp density', rtol=1e-9, z=z[i])
                ck.step(41)
                if k.max()*length**2/2e4/5e5 < 2*n**2:
                    b1, b2 = bunch(2e4), bunch(2e4)
                    for b in (b1, b2):
                        b.xi *= min(1., length*250)
                    o1 = el.track(b1, show_progress_bar=False)
                    o2 = FieldElement(
                        length, length/n/ct.c, 'boris', n, fields=[
                            focusing_ref(ref)]).track(
                                b2, show_progress_bar=False)
                    ck.expect(len(o1) == len(o2) == n + 1, 'outputs',
                              got=len(o1))
                    for a, b in zip(o1 + [b1], o2 + [b2]):
                        same_bunch(ck, a, b, 'bunch tracked through the ramp',
                                   rtol=1e-7)
                    ck.state(*ps(b1))
    for length, dens, n in product((1e-6, 1e-2, 3.), (1e15, 1e21, 1e27),
                                   (1, 12)):
        if dens*9e-9*length**2/2e4/5e5 > 2*n**2:
            continue        # less than a few steps per betatron period
        ck.begin(stage=length, density=dens, n=n)
        with ck.guard():
            b1, b2 = bunch(2e4), bunch(2e4)
            o1 = PlasmaStage(length, dens, 'focusing_blowout',
                             dt_bunch=length/n/ct.c, n_out=n).track(
                                 b1, show_progress_bar=False)
            o2 = FieldElement(
                length, length/n/ct.c, 'boris', n, fields=[focusing_ref(
                    lambda z: dens*np.ones_like(z))]).track(
                        b2, show_progress_bar=False)
            ck.step(2)
            ck.state(*ps(b1))
            ck.expect(len(o1) == len(o2) == n + 1, 'outputs', got=len(o1))
            for a, b in zip(o1 + [b1], o2 + [b2]):
                same_bunch(ck, a, b, 'bunch tracked through the stage',
                           rtol=1e-7)


def run_defaults(job, ck):
    """What is not given is as documented: one output, Boris pusher, pushed
    to the output before it, no wakefields in a lens."""
    from wake_t import ParticleBunch
    from wake_t.beamline_elements import (
        FieldElement, PlasmaStage, PlasmaRamp, ActivePlasmaLens,
        FieldQuadrupole)
    L, dt = 2e-3, 7e-4/ct.c
    makes = {
        'field': lambda **k: FieldElement(L, dt, **k),
        'stage': lambda **k: PlasmaStage(L, 1e22, 'focusing_blowout',
                                         dt_bunch=dt, **k),
        'ramp': lambda **k: PlasmaRamp(
            L, profile='exponential', decay_length=1e-3,
            plasma_dens_top=1e22, wakefield_model='focusing_blowout',
            dt_bunch=dt, **k),
        'lens': lambda **k: ActivePlasmaLens(L, 500., dt_bunch=dt, **k),
        'quad': lambda **k: FieldQuadrupole(L, 500., dt_bunch=dt, **k)}
    full = dict(n_out=1, bunch_pusher='boris', name='a name',
                push_bunches_before_diags=True)

    def bunch():
        r = np.array([1., -.5, .3])
        return ParticleBunch(np.ones(3), r*1e-5, -r*2e-5, 0*r, r, .3*r,
                             100 + r, name='b')

    for nm, make in makes.items():
        for left in [set(full)] + [{k} for k in full]:
            if nm == 'quad' and 'push_bunches_before_diags' not in left:
                kw0 = dict(full)
                kw0.pop('push_bunches_before_diags')
            elif nm == 'quad':
                continue
            else:
                kw0 = dict(full)
            kw = {k: v for k, v in kw0.items() if k not in left}
            ck.begin(element=nm, not_given=sorted(left))
            with ck.guard():
                a, b = bunch(), bunch()
                e = make(**kw)
                oa = e.track(a, show_progress_bar=False)
                ob = make(**kw0).track(b, show_progress_bar=False)
                ck.step(2)
                if 'name' in kw:
                    ck.expect(getattr(e, 'name', 'a name') == 'a name',
                              'name of the element')
                if ck.expect(len(oa) == len(ob) == 2,
                             'entrance and exit by default', got=len(oa)):
                    for u, v in zip(oa + [a], ob + [b]):
                        for c in ('x', 'y', 'xi', 'px', 'py', 'pz'):
                            ck.same(getattr(u, c), getattr(v, c),
                                    'default: ' + c)
                ck.state(nm, a.x, a.px)
