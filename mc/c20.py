"""C20: results depend on the inputs only: not on the number of threads, the
order in which a parallel loop is executed, the order of the particles in the
bunch or the previous content of memory."""
import itertools
import math

import numpy as np
import scipy.constants as ct

LEVEL = 'model_checking'
TECHNIQUE = ('controlled scheduling of the real parallel kernels: every '
             'execution order of the iterations of every parallel loop, with '
             'all shared-memory accesses of each iteration recorded and '
             'checked for conflicts (conflict-free loops have a single '
             'equivalence class of interleavings); exhaustive enumeration of '
             'particle orders and memory contents; compiled kernels replayed '
             'with 1 to 8 threads')
BOUNDS = {
    'quick': '4 particles, all 24 execution orders and all 24 particle orders '
             'of 17 scenarios (every element type, both pushers, analytic '
             'and grid fields); 3 memory fill patterns; 8 thread counts x 10 '
             'bunch sizes compiled',
    'thorough': '5 particles, all 120 execution orders and all 120 particle '
                'orders of 17 scenarios; 3 memory fill patterns; 8 thread '
                'counts x 20 bunch sizes compiled',
}
ASSUMPTIONS = [
    'an iteration of a parallel loop is atomic if it shares no memory element '
    'that another iteration writes: this is checked on every loop executed',
    'the compiled kernels are conformance-tested against each other over '
    'thread counts, not scheduled',
    'sums over particles may differ by rounding when their order changes',
]

SCENARIOS = ('free', 'lens', 'quad', 'focusing', 'simple', 'custom', 'user',
             'sum', 'fluid', 'qs', 'drift', 'dipole', 'tmquad', 'sext',
             'csr', 'inject', 'injectqs')


def job_env(j):
    if j['kind'] == 'threads':
        return {'NUMBA_NUM_THREADS': '8'}
    if j['kind'] == 'envthreads':
        e = {'NUMBA_DISABLE_JIT': '0', 'NUMBA_NUM_THREADS': '8'}
        if j['n']:
            e['WAKET_NUM_THREADS'] = str(j['n'])
        return e
    if j['kind'] == 'schedules':
        return {'NUMBA_DISABLE_JIT': '1', 'MC_PAR': '1'}
    return {'NUMBA_DISABLE_JIT': '1'}


def jobs(tier):
    n = 4 if tier == 'quick' else 5
    js = [dict(kind='schedules', name=s, n=n) for s in SCENARIOS]
    js += [dict(kind='orders', name=s, n=n) for s in SCENARIOS]
    js += [dict(kind='memory', name=s, n=n) for s in SCENARIOS]
    js.append(dict(kind='threads', tier=tier))
    js += [dict(kind='envthreads', n=k) for k in (0, 2, 5)]
    return js


def weight(j):
    if j['kind'] == 'threads':
        return 30
    if j['kind'] == 'envthreads':
        return 8
    w = {'qs': 20, 'injectqs': 20, 'fluid': 10,
         'csr': 10}.get(j.get('name'), 2)
    return w if j['kind'] != 'memory' else 1


# -- scenarios ---------------------------------------------------------------
TM = ('drift', 'dipole', 'tmquad', 'sext', 'csr')


def make_bunch(n, perm=None, **kw):
    from wake_t import ParticleBunch
    a = np.array([0.3, -1., 0.7, 0.1, -0.45, 0.9, -0.2, 0.55])[:n]
    i = np.arange(n)
    p = list(range(n)) if perm is None else list(perm)
    v = dict(w=1e8*(1 + 0.3*i), x=a*1e-5, y=(0.4 - a)*0.8e-5,
             xi=a[::-1]*1.1e-5, px=a*1.5, py=-0.5*a[::-1] + 0.1,
             pz=300. + 10.*a)
    return ParticleBunch(name='b', tags=(100 + i)[p], **{
        k: np.array(q[p]) for k, q in v.items()}, **kw)


def dens(z):
    return 1e23*(1. + 0.3*np.sin(np.asarray(z)*2e3))


def user_field():
    from wake_t.fields.analytical_field import AnalyticalField
    import numba
    prange = numba.prange

    def e_x(x, y, z, t, f, k):
        for i in prange(x.shape[0]):
            f[i] += k[0]*(1. + 1e4*x[i]) + 1e12*k[1]*t

    def b_z(x, y, z, t, f, k):
        for i in prange(x.shape[0]):
            f[i] += 0.3*(1. + 1e4*z[i]) + y[i]
    return AnalyticalField(e_x=e_x, b_z=b_z, constants=[1e8, 0.1])


def scenario(name, pusher):
    """Element factory of a scenario."""
    from wake_t import GaussianPulse
    from wake_t.beamline_elements import (
        FieldElement, PlasmaStage, ActivePlasmaLens, FieldQuadrupole, Drift,
        Dipole, Quadrupole, Sextupole)
    L = 6e-4
    dt = L/2.5/ct.c

    def laser():
        return GaussianPulse(xi_c=25e-6, a_0=1., w_0=20e-6, tau=20e-15,
                             z_foc=0., l_0=0.8e-6)
    kw = dict(bunch_pusher=pusher, dt_bunch=dt, n_out=1)
    if name == 'inject':
        return FieldQuadrupole(L, 4000., **kw)
    if name == 'injectqs':
        name = 'qs'
    if name == 'free':
        return FieldElement(L, dt, pusher, 1, fields=[])
    if name == 'lens':
        return ActivePlasmaLens(L, 4000., **kw)
    if name == 'quad':
        return FieldQuadrupole(L, 4000., **kw)
    if name == 'focusing':
        return PlasmaStage(L, dens, 'focusing_blowout', **kw)
    if name == 'simple':
        return PlasmaStage(L, dens, 'simple_blowout', laser=laser(),
                           field_offset=2e-6, **kw)
    if name == 'custom':
        return PlasmaStage(L, dens, 'custom_blowout', laser=laser(),
                           lon_field=-1e9, lon_field_slope=2e14,
                           foc_strength=8e3, xi_fields=4e-6, **kw)
    if name == 'user':
        return FieldElement(L, dt, pusher, 1, fields=[user_field()])
    if name == 'sum':
        return PlasmaStage(L, dens, 'focusing_blowout', external_fields=[
            user_field()] + FieldQuadrupole(1., 500.).fields, **kw)
    if name == 'fluid':
        return PlasmaStage(
            L, dens, 'cold_fluid_1d', r_max=40e-6, xi_min=-30e-6,
            xi_max=45e-6, n_r=6, n_xi=12, laser=laser(), dz_fields=3e-4,
            laser_evolution=True, beam_wakefields=True, **kw)
    if name == 'qs':
        return PlasmaStage(
            L, dens, 'quasistatic_2d', r_max=30e-6, xi_min=-20e-6,
            xi_max=30e-6, n_r=4, n_xi=8, dz_fields=3e-4, ppc=1,
            p_shape='linear', laser=laser(), laser_evolution=False, **kw)
    if name == 'drift':
        return Drift(0.2, n_out=2)
    if name == 'dipole':
        return Dipole(0.1, 0.05, n_out=2)
    if name == 'tmquad':
        return Quadrupole(0.1, 20., n_out=2)
    if name == 'sext':
        return Sextupole(0.1, 200., n_out=2)
    if name == 'csr':
        return Dipole(0.1, 0.02, n_out=1, csr_on=True)
    raise ValueError(name)


def state(b):
    return [np.array(a) for a in (b.x, b.y, b.xi, b.px, b.py, b.pz, b.w)]


NAMES = ('x', 'y', 'xi', 'px', 'py', 'pz', 'w')


def simulate(name, pusher, n, perm=None, prepare=None):
    """Final states of all outputs and of the bunch, and fields on a grid."""
    if name == 'csr':
        # The line density needs more particles than the enumeration has.
        n_rep = 5
        b = make_bunch(n, perm)
        from wake_t import ParticleBunch
        rep = [np.concatenate([v + k*s for k in range(n_rep)])
               for v, s in zip(state(b), (1e-7, 2e-7, 2.3e-6, .01, .02, .3,
                                          0.))]
        x, y, xi, px, py, pz, w = rep
        b = ParticleBunch(w=w, x=x, y=y, xi=xi, px=px, py=py, pz=pz,
                          name='b')
        # Elements without CSR forget the orbit travelled before them.
        from wake_t.beamline_elements import Drift
        Drift(1e-3, n_out=1).track(make_bunch(n))
    elif name in ('inject', 'injectqs'):
        # The leading particle, not any other one, is at the position from
        # which the fields act when the second step starts.
        b = make_bunch(n, perm, z_injection=6e-4/2.5 + 5e-6)
    else:
        b = make_bunch(n, perm)
    if prepare is not None:
        prepare(b)
    el = scenario(name, pusher)
    out = el.track(b) if name in TM else \
        el.track(b, show_progress_bar=False)
    return [state(o) for o in out] + [state(b)], getattr(b, 'tags', None)


def pushers(name):
    return ('boris',) if name in TM else ('boris', 'rk4')


def nth_permutation(k, n):
    """k-th permutation of n elements (k modulo n!)."""
    k = k % math.factorial(n) if n < 15 else k
    left = list(range(n))
    if n >= 15:
        # Rotate and possibly reverse longer loops.
        left = left[k % n:] + left[:k % n]
        return left[::-1] if k % 2 else left
    out = []
    for m in range(n, 0, -1):
        f = math.factorial(m - 1)
        out.append(left.pop(k//f))
        k %= f
    return out


def run(job, ck):
    globals()['run_' + job['kind']](job, ck)


def compare(ck, got, want, what, rtol=1e-12, **kw):
    ck.expect(len(got) == len(want), what + ': number of outputs')
    for i, (g, w) in enumerate(zip(got, want)):
        for nm, a, b in zip(NAMES, g, w):
            s = np.max(np.abs(b)) if len(b) else 0.
            ck.close(a, b, what + ': ' + nm, rtol=rtol, scale=s, output=i,
                     **kw)


# -- schedules ---------------------------------------------------------------
def run_schedules(job, ck):
    from mc.par import install
    ctl = install()
    name, n = job['name'], job['n']
    for pusher in pushers(name):
        ck.begin(scenario=name, pusher=pusher, n=n)
        with ck.guard():
            ctl.order, ctl.monitor = None, False
            ctl.reset()
            ref, _ = simulate(name, pusher, n)
            kernels = dict(ctl.kernels)
            if name not in TM:
                ck.expect(ctl.loops > 0, 'no parallel loop was executed: the '
                          'harness does not control this code') \
                    if kernels else None
            # Shared accesses of all iterations of all loops.
            ctl.reset()
            ctl.monitor = True
            try:
                mon, _ = simulate(name, pusher, n)
            finally:
                ctl.monitor = False
            races = sorted({r[:2] for r in ctl.races})
            ck.expect(not races, 'race between iterations of a parallel loop',
                      races=races[:5], example=ctl.races[:3])
            ck.step(ctl.accesses)
            compare(ck, mon, ref, 'monitored run', rtol=1e-14)
            ck.state(*mon[-1])
        for k in range(math.factorial(n)):
            perm = nth_permutation(k, n)
            ck.begin(scenario=name, pusher=pusher, n=n, order=perm)
            with ck.guard():
                ctl.reset()
                ctl.order = lambda m, k=k: nth_permutation(k, m)
                try:
                    got, _ = simulate(name, pusher, n)
                finally:
                    ctl.order = None
                ck.step(ctl.loops)
                compare(ck, got, ref, 'result depends on the execution order '
                        'of a parallel loop')
            if not kernels:
                break


# -- particle orders ---------------------------------------------------------
def run_orders(job, ck):
    name, n = job['name'], job['n']
    rtol = 1e-6 if name in ('csr',) else 1e-9
    for pusher in pushers(name):
        ck.begin(scenario=name, pusher=pusher, n=n)
        with ck.guard():
            ref, tags = simulate(name, pusher, n)
        slow = name in ('qs', 'injectqs', 'csr') and n > 4
        for perm in itertools.permutations(range(n)):
            if slow and perm[0] not in (0, n - 1):
                continue
            ck.begin(scenario=name, pusher=pusher, particles=perm)
            with ck.guard():
                got, t = simulate(name, pusher, n, perm)
                ck.step()
                idx = list(perm)
                if name == 'csr':
                    idx = [q + n*k for k in range(5) for q in perm]
                compare(ck, got, [[a[idx] for a in s] for s in ref],
                        'result depends on the order of the particles',
                        rtol=rtol)
                if tags is not None and t is not None:
                    ck.same(np.asarray(t), np.asarray(tags)[list(perm)],
                            'tags follow the particles')


# -- memory ------------------------------------------------------------------
def run_memory(job, ck):
    """Uninitialised memory never reaches the results."""
    name, n = job['name'], job['n']
    import wake_t  # noqa: F401 (arrays made while importing stay as they are)
    orig = np.empty, np.empty_like
    for pusher in pushers(name):
        ck.begin(scenario=name, pusher=pusher)
        with ck.guard():
            ref, _ = simulate(name, pusher, n)
        for fill in (0., 1.7e3, float('nan')):
            ck.begin(scenario=name, pusher=pusher, fill=str(fill))

            def filled(a):
                if a.dtype.kind in 'fc':
                    a.fill(fill)
                return a

            with ck.guard():
                np.empty = lambda *a, **k: filled(orig[0](*a, **k))
                np.empty_like = lambda *a, **k: filled(orig[1](*a, **k))
                try:
                    got, _ = simulate(name, pusher, n)
                finally:
                    np.empty, np.empty_like = orig
                ck.step()
                compare(ck, got, ref, 'result depends on uninitialised '
                        'memory', rtol=1e-14)


    if name in TM:
        return
    # Work arrays left behind by earlier uses of the same bunch.
    for pusher, before in itertools.product(pushers(name), ('boris', 'rk4')):
        ck.begin(scenario=name, pusher=pusher, used_before_with=before)
        with ck.guard():
            ref, _ = simulate(name, pusher, n)
            got, _ = simulate(name, pusher, n,
                              prepare=lambda b: use(b, before))
            ck.step()
            compare(ck, got, ref, 'result depends on what the bunch was used '
                    'for before', rtol=1e-14)
    gather_content(ck, name, n)


def use(b, pusher):
    """Push through strong fields of all components, then put it back."""
    from wake_t.beamline_elements import FieldElement
    from wake_t.fields.base import Field

    class All(Field):
        def _gather(self, x, y, z, t, *f):
            for k, a in enumerate(f):
                a += (3. + k)*(1e9 if k < 3 else 10.)

    c = ('x', 'y', 'xi', 'px', 'py', 'pz', 't_flight', 'prop_distance')
    keep = {k: np.array(getattr(b, k)) for k in c}
    FieldElement(1e-4, 2e-13, pusher, 1, fields=[All()]).track(
        b, show_progress_bar=False)
    for k, v in keep.items():
        setattr(b, k, v if v.ndim else float(v))


def gather_content(ck, name, n):
    """The arrays given to gather_fields are overwritten."""
    from wake_t.fields.gather import gather_fields
    el = scenario(name, 'boris')
    b = make_bunch(n)
    fields = el.fields
    if name not in ('free', 'lens', 'quad', 'user'):
        el.track(b, show_progress_bar=False)
        fields = [f for f in el.fields] + user_fields()
        b = make_bunch(n)
    for fs in ([], fields, fields + fields):
        res = []
        for fill in (0., 1.7e3, float('nan'), -float('inf')):
            ck.begin(scenario=name, gather=len(fs), fill=str(fill))
            with ck.guard():
                out = [np.full(n, fill) for _ in range(6)]
                gather_fields(fs, b.x, b.y, b.xi, b.t_flight, *out)
                ck.step()
                res.append(out)
                for k, nm in enumerate(('ex', 'ey', 'ez', 'bx', 'by', 'bz')):
                    ck.same(out[k], res[0][k], 'gathered field depends on '
                            'the previous content: ' + nm)
                    if not fs:
                        ck.same(out[k], np.zeros(n), 'no field: ' + nm)


def user_fields():
    return [user_field()]


# -- compiled ----------------------------------------------------------------
def big_bunch(n):
    from wake_t import ParticleBunch
    i = np.arange(n)
    a = np.sin(1. + 3.7*i)
    c = np.cos(2. + 1.3*i)
    return ParticleBunch(w=1e6*(2 + a), x=a*1e-5, y=c*1e-5, xi=a*c*1e-5,
                         px=c, py=a, pz=300. + 20*a*c, name='b')


def run_threads(job, ck):
    """The compiled kernels give the same with any number of threads."""
    import numba
    from wake_t import GaussianPulse
    from wake_t.physics_models.em_fields.quadrupole import QuadrupoleField
    import wake_t.physics_models.plasma_wakefields as wf
    sizes = [1, 2, 3, 5, 7, 8, 9, 31, 64, 1001]
    if job['tier'] == 'thorough':
        sizes += [4, 6, 10, 15, 16, 17, 100, 255, 4097, 20011]
    laser = GaussianPulse(xi_c=25e-6, a_0=1., w_0=20e-6, tau=20e-15,
                          z_foc=0., l_0=0.8e-6)
    fluid = wf.NonLinearColdFluidWakefield(
        dens, r_max=40e-6, xi_min=-30e-6, xi_max=45e-6, n_r=6, n_xi=12,
        laser=laser, laser_evolution=False)
    fluid.adjust_dt(1e-12)
    fluid.update([])
    fields = [QuadrupoleField(500.), wf.FocusingBlowoutField(dens), fluid]
    for n in sizes:
        for pusher in ('boris', 'rk4'):
            ck.begin(n=n, pusher=pusher)
            with ck.guard():
                ref = None
                for k in range(1, 9):
                    old = numba.get_num_threads()
                    numba.set_num_threads(k)
                    try:
                        b = big_bunch(n)
                        for s in range(2):
                            b.evolve(fields, s*1e-13, 1e-13, pusher)
                    finally:
                        numba.set_num_threads(old)
                    ck.step()
                    if ref is None:
                        ref = state(b)
                        ck.state(*ref)
                    else:
                        compare(ck, [state(b)], [ref], 'result depends on '
                                'the number of threads', threads=k,
                                rtol=1e-13)


def run_envthreads(job, ck):
    """The number of threads requested is used during tracking only."""
    import numba
    from wake_t.beamline_elements import FieldElement
    from wake_t.fields.base import Field
    want = job['n'] or 1
    for outside in (1, 3, 8):
        ck.begin(requested=job['n'], outside=outside)
        seen = []

        class Probe(Field):
            def _gather(self, *a):
                seen.append(numba.get_num_threads())
        with ck.guard():
            numba.set_num_threads(outside)
            for pusher in ('boris', 'rk4'):
                FieldElement(1e-3, 1e-12, pusher, 1, fields=[Probe()]).track(
                    make_bunch(4), show_progress_bar=False)
            ck.step(len(seen))
            ck.expect(len(seen) > 0 and set(seen) == {want},
                      'threads used while tracking', got=sorted(set(seen)),
                      want=want)
            ck.expect(numba.get_num_threads() == outside,
                      'threads outside of the tracking', want=outside,
                      got=numba.get_num_threads())
