"""C06: a bunch feels the sum of all fields of the element, each equal to its
documented formula, whatever their number, order, pusher or sampling point."""
from itertools import product

import numpy as np
import scipy.constants as ct

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of all field lists up to a length over a '
             'pool of every built-in field type and all component subsets of '
             'user-defined fields, on the real gather/track code, against an '
             'independent reference sum; differential oracle for tracking')
BOUNDS = {
    'quick': 'all lists (with repetition) of <=3 out of 9 fields x 48 '
             'points x 4 times; all 64x64 pairs of component subsets; all '
             'lists of <=2 tracked with both pushers; 40 element '
             'constructions x 4 species; lattices of the parameters of every '
             'built-in field (up to 1 m and 40 ns away); up to 300 fields; '
             'up to 70003 particles',
    'thorough': 'all lists (with repetition) of <=4 out of 9 fields x 48 '
                'points x 4 times; all 64x64 pairs of component subsets; all '
                'lists of <=4 tracked with both pushers; 40 element '
                'constructions x 4 species',
}
ASSUMPTIONS = [
    'user-supplied field functions add to the array they are given',
    'most of the enumeration runs the kernels in the Python interpreter; one '
    'job runs all of them compiled',
]

N_POOL = 9


def job_env(j):
    return {} if j['kind'] in ('jit', 'many') else {'NUMBA_DISABLE_JIT': '1'}


def jobs(tier):
    js = [dict(kind='subsets', lo=a, pairs=True)
          for a in range(8)]
    for i in range(N_POOL):
        js.append(dict(kind='lists', first=i, depth=3 if tier == 'quick' else 4))
        js.append(dict(kind='track', first=i,
                       depth=2 if tier == 'quick' else 4))
    js.append(dict(kind='elements'))
    js.append(dict(kind='params'))
    js.append(dict(kind='many'))
    js.append(dict(kind='jit'))
    return js


def weight(j):
    return {'subsets': 2, 'lists': 4, 'track': 3, 'elements': 2,
            'jit': 12, 'params': 4, 'many': 12}[j['kind']]


# -- pool --------------------------------------------------------------------
def group_beta(n, l_0):
    k = 2*np.pi/l_0
    wp2 = n*ct.e**2/(ct.m_e*ct.epsilon_0)
    return k*ct.c/np.sqrt(wp2 + k**2*ct.c**2)


def dens(z):
    """A non-uniform density profile."""
    return 1e23*(1. + 0.5*np.sin(np.asarray(z)*3e4) + 1e3*np.asarray(z))


def user_parts():
    """A user-defined field with six distinguishable components."""
    def e_x(x, y, z, t, f, k):
        for i in range(x.shape[0]):
            f[i] += k[0]*(1. + 1e4*x[i] + 2e4*y[i] - 3e4*z[i] + 4e9*t)

    def e_y(x, y, z, t, f, k):
        for i in range(x.shape[0]):
            f[i] += k[0]*(2. - 3e4*x[i] + 1e4*y[i] + 2e4*z[i] - 5e9*t)

    def e_z(x, y, z, t, f, k):
        for i in range(x.shape[0]):
            f[i] += k[0]*(3. + 2e4*x[i] - 3e4*y[i] + 1e4*z[i] + 6e9*t)

    def b_x(x, y, z, t, f, k):
        for i in range(x.shape[0]):
            f[i] += k[1]*(4. - 1e4*x[i] + 3e4*y[i] + 5e4*z[i] - 7e9*t)

    def b_y(x, y, z, t, f, k):
        for i in range(x.shape[0]):
            f[i] += k[1]*(5. + 5e4*x[i] - 1e4*y[i] + 3e4*z[i] + 8e9*t)

    def b_z(x, y, z, t, f, k):
        for i in range(x.shape[0]):
            f[i] += k[1]*(6. + 3e4*x[i] + 5e4*y[i]
                          - 1e4*z[i] - 9e9*t + 1e8*x[i]*z[i])

    def ref(x, y, z, t, k):
        return np.array([
            k[0]*(1. + 1e4*x + 2e4*y - 3e4*z + 4e9*t),
            k[0]*(2. - 3e4*x + 1e4*y + 2e4*z - 5e9*t),
            k[0]*(3. + 2e4*x - 3e4*y + 1e4*z + 6e9*t),
            k[1]*(4. - 1e4*x + 3e4*y + 5e4*z - 7e9*t),
            k[1]*(5. + 5e4*x - 1e4*y + 3e4*z + 8e9*t),
            k[1]*(6. + 3e4*x + 5e4*y - 1e4*z - 9e9*t + 1e8*x*z)])
    return (e_x, e_y, e_z, b_x, b_y, b_z), ref


def pool():
    """[(name, field, reference(x, y, xi, t) -> 6 x N)]"""
    from wake_t.fields.analytical_field import AnalyticalField
    from wake_t.fields.base import Field
    from wake_t.physics_models.em_fields.quadrupole import QuadrupoleField
    from wake_t.physics_models.em_fields.linear_b_theta import \
        LinearBThetaField
    import wake_t.physics_models.plasma_wakefields as wf
    from wake_t import GaussianPulse

    out = []

    def z6(x):
        return np.zeros((6, len(x)))

    def quad(g):
        def ref(x, y, xi, t):
            r = z6(x)
            r[3] = -g*y
            r[4] = -g*x
            return r
        return QuadrupoleField(g), ref

    def btheta(g):
        def ref(x, y, xi, t):
            r = z6(x)
            r[3] = -g*y
            r[4] = g*x
            return r
        return LinearBThetaField(g), ref

    out.append(('quad',) + quad(700.))
    out.append(('quad-',) + quad(-300.))
    out.append(('btheta',) + btheta(-900.))

    def ref_foc(x, y, xi, t):
        r = z6(x)
        k = dens(ct.c*t + xi)*ct.e/(2*ct.epsilon_0)
        r[0] = k*x
        r[1] = k*y
        return r
    out.append(('focusing', wf.FocusingBlowoutField(dens), ref_foc))

    l_0, xi_c = 0.8e-6, 31e-6
    laser = GaussianPulse(xi_c=xi_c, a_0=1., w_0=20e-6, tau=30e-15, z_foc=0.,
                          l_0=l_0)

    def ref_simple(x, y, xi, t):
        r = z6(x)
        n = float(dens(ct.c*t))
        wp2 = n*ct.e**2/(ct.m_e*ct.epsilon_0)
        kf = n*ct.e/(2*ct.epsilon_0)
        l_p = 2*np.pi*ct.c/np.sqrt(wp2)
        b = group_beta(n, l_0)
        r[0] = kf*x
        r[1] = kf*y
        r[2] = wp2/2*ct.m_e/ct.e*(
            xi + l_p/2 - xi_c - 3e-6 + (1 - b)*ct.c*t)
        return r
    out.append(('simple', wf.SimpleBlowoutWakefield(
        dens, laser, field_offset=3e-6), ref_simple))

    def ref_custom(x, y, xi, t):
        r = z6(x)
        b = group_beta(float(dens(ct.c*t)), l_0)
        r[0] = ct.c*8e2*x
        r[1] = ct.c*8e2*y
        r[2] = -1e9 + 2e14*(xi - 4e-6 + (1 - b)*ct.c*t)
        return r
    out.append(('custom', wf.CustomBlowoutWakefield(
        dens, laser, lon_field=-1e9, lon_field_slope=2e14, foc_strength=8e2,
        xi_fields=4e-6), ref_custom))

    comps, uref = user_parts()
    k = [1e7, 0.1]
    names = ['e_x', 'e_y', 'e_z', 'b_x', 'b_y', 'b_z']
    out.append(('user', AnalyticalField(
        constants=k, **dict(zip(names, comps))),
        lambda x, y, xi, t: uref(x, y, xi, t, k)))
    k2 = [-3e6, 0.2]

    def ref_u2(x, y, xi, t):
        r = uref(x, y, xi, t, k2)
        r[[0, 1, 3, 4]] = 0.
        return r
    out.append(('user2', AnalyticalField(
        e_z=comps[2], b_z=comps[5], constants=k2), ref_u2))

    class Numpy(Field):
        def _gather(self, x, y, z, t, ex, ey, ez, bx, by, bz):
            ex += 1e6*y
            by += 1e3*z
            bz += 0.5
    def ref_np(x, y, xi, t):
        r = z6(x)
        r[0] = 1e6*y
        r[4] = 1e3*xi
        r[5] = 0.5
        return r
    out.append(('numpy', Numpy(), ref_np))
    return out


def points():
    g = [(x, y, z) for x in (-2e-5, 0., 1e-5, 3e-5)
         for y in (-1e-5, 0., 2.5e-5)
         for z in (-4e-5, 0., 1.5e-5, 6e-5)]
    return [np.array(a) for a in zip(*g)]


TIMES = (0., 3.7e-13, 1.1e-10, -2.3e-13)


def sum_ref(refs, x, y, z, t):
    tot = np.zeros((6, len(x)))
    mag = np.zeros((6, len(x)))
    for r in refs:
        v = r(x, y, z, t)
        tot += v
        mag += np.abs(v)
    return tot, mag.max()


def check_gather(ck, fields, refs, what, pts=None, times=TIMES):
    from wake_t.fields.gather import gather_fields
    x, y, z = points() if pts is None else pts
    n = len(x)
    for t in times:
        want, _ = sum_ref(refs, x, y, z, t)
        x0, y0, z0 = x.copy(), y.copy(), z.copy()
        a = [np.full(n, 1e30*(i+1)) for i in range(6)]
        gather_fields(fields, x0, y0, z0, t, *a)
        for i in range(6):
            mag = sum(np.max(np.abs(r(x, y, z, t)[i])) for r in refs)
            ck.close(a[i], want[i], what + ': gathered %s' % 'Ex Ey Ez Bx By '
                     'Bz'.split()[i], rtol=1e-9, scale=mag, t=t)
        ck.step(len(fields))
        ck.state(*a)
        ck.expect(np.array_equal(x0, x) and np.array_equal(y0, y) and
                  np.array_equal(z0, z), what + ': gathering moved particles')
        # Each single field adds to what is already there.
        if len(fields) == 1:
            pre = [np.linspace(1., 2., n)*10.**k for k in (9, 8, 9, 0, 1, 0)]
            b = [p.copy() for p in pre]
            fields[0].gather(x0, y0, z0, t, *b)
            for i in range(6):
                ck.close(b[i], pre[i] + want[i], what + ': field does not add '
                         'to the already gathered ones', rtol=1e-9, comp=i,
                         scale=max(np.max(pre[i]), np.max(np.abs(want[i]))))


class _Ref:
    pass


def ref_field(refs):
    """One field that applies the reference sum."""
    from wake_t.fields.base import Field

    class RefField(Field):
        def _gather(self, x, y, z, t, ex, ey, ez, bx, by, bz):
            want, _ = sum_ref(refs, x, y, z, t)
            for a, w in zip((ex, ey, ez, bx, by, bz), want):
                a += w
    return RefField()


def bunch(pz=200., **kw):
    from wake_t import ParticleBunch
    x, y, z = [a[::5].copy() for a in points()]
    n = len(x)
    return ParticleBunch(
        w=np.full(n, 1e5), x=x, y=y, xi=z, px=np.linspace(-1, 1, n),
        py=np.linspace(.5, -.7, n), pz=np.linspace(pz, 1.1*pz, n),
        name='b', **kw)


def ps(b):
    return [b.x, b.y, b.xi, b.px, b.py, b.pz]


def check_same_bunch(ck, got, want, what, **kw):
    for n, g, w in zip(('x', 'y', 'xi', 'px', 'py', 'pz'), ps(got), ps(want)):
        ck.close(g, w, what + ': ' + n, rtol=1e-8, **kw)


def run(job, ck):
    globals()['run_' + job['kind']](job, ck)


def run_subsets(job, ck):
    from wake_t.fields.analytical_field import AnalyticalField
    names = ['e_x', 'e_y', 'e_z', 'b_x', 'b_y', 'b_z']
    comps, uref = user_parts()

    def make(m, k):
        f = AnalyticalField(
            constants=k,
            **{n: c for i, (n, c) in enumerate(zip(names, comps))
               if m >> i & 1})

        def ref(x, y, z, t):
            r = uref(x, y, z, t, k)
            for i in range(6):
                if not m >> i & 1:
                    r[i] = 0.
            return r
        return f, ref

    for m in range(job['lo'], 64, 8):
        ck.begin(components=[n for i, n in enumerate(names) if m >> i & 1])
        with ck.guard():
            f, r = make(m, [1e7, 0.1])
            check_gather(ck, [f], [r], 'user field')
        for m2 in (range(64) if job['pairs'] else (0, 63, 63 - m, m)):
            ck.begin(first=m, second=m2)
            with ck.guard():
                f2, r2 = make(m2, [-4e6, 0.3])
                check_gather(ck, [f, f2], [r, r2], 'two user fields')


def run_lists(job, ck):
    P = pool()
    i = job['first']
    lists = [[i]] + [[i, j] for j in range(len(P))]
    for d in range(2, job['depth']):
        lists += [[i] + list(r) for r in product(range(len(P)), repeat=d)]
    for li in lists:
        ck.begin(fields=[P[q][0] for q in li])
        with ck.guard():
            check_gather(ck, [P[q][1] for q in li], [P[q][2] for q in li],
                         'field list')
    if i == 0:
        ck.begin(fields=[])
        with ck.guard():
            check_gather(ck, [], [lambda x, y, z, t: np.zeros((6, len(x)))],
                         'no fields')


def run_track(job, ck):
    from wake_t.beamline_elements import FieldElement
    P = pool()
    i = job['first']
    lists = [[i]] + [[i, j] for j in range(len(P))]
    for d in range(2, job['depth']):
        lists += [[i] + list(r) for r in product(range(len(P)), repeat=d)]
    for li in lists:
        for pusher in ('boris', 'rk4'):
            ck.begin(fields=[P[q][0] for q in li], pusher=pusher)
            with ck.guard():
                outs = []
                for flds in ([P[q][1] for q in li],
                             [ref_field([P[q][2] for q in li])]):
                    b = bunch()
                    el = FieldElement(1.2e-3, 1e-3/ct.c, bunch_pusher=pusher,
                                      n_out=1, fields=flds)
                    el.track(b, show_progress_bar=False)
                    outs.append(b)
                ck.step(2)
                ck.state(*ps(outs[0]))
                check_same_bunch(ck, outs[0], outs[1], 'tracking through the '
                                 'field list')


def run_elements(job, ck):
    """Elements apply exactly the fields they were built with."""
    from wake_t.beamline_elements import (
        PlasmaStage, ActivePlasmaLens, FieldElement, FieldQuadrupole)
    P = {n: (f, r) for n, f, r in pool()}
    dt = 1e-4/ct.c
    L = 1.3e-3
    cases = []
    # Plasma stage: wakefield (by name or instance) + external fields.
    for ext in ([], ['quad'], ['quad', 'user'], ['btheta', 'custom', 'quad-']):
        for model in (None, 'focusing_blowout', 'instance'):
            for pusher in ('boris', 'rk4'):
                def make(ext=ext, model=model, pusher=pusher):
                    m = P['focusing'][0] if model == 'instance' else model
                    el = PlasmaStage(
                        L, dens, m, pusher, dt, n_out=1,
                        external_fields=[P[e][0] for e in ext])
                    refs = [P[e][1] for e in ext]
                    if model is not None:
                        refs.append(P['focusing'][1])
                    return el, refs
                cases.append(('stage %s+%s %s' % (model, ext, pusher), make,
                              pusher))
    # Uniform densities (given as a number) are applied everywhere.
    for n in (1e22, 3e23):
        def make(n=n):
            def ref(x, y, xi, t):
                r = np.zeros((6, len(x)))
                r[0] = n*ct.e/(2*ct.epsilon_0)*x
                r[1] = n*ct.e/(2*ct.epsilon_0)*y
                return r
            return PlasmaStage(L, n, 'focusing_blowout', 'boris', dt,
                               n_out=1), [ref]
        cases.append(('stage uniform %g' % n, make, 'boris'))
    # Lenses and quadrupoles.
    for g in (800., -500.):
        for pusher in ('boris', 'rk4'):
            for wake in (False, True):
                def make(g=g, pusher=pusher, wake=wake):
                    def ref(x, y, xi, t):
                        r = np.zeros((6, len(x)))
                        r[3] = g*y
                        r[4] = -g*x
                        return r
                    kw = dict(wakefields=True, density=dens,
                              wakefield_model='focusing_blowout') \
                        if wake else {}
                    return ActivePlasmaLens(
                        L, g, bunch_pusher=pusher, dt_bunch=dt, n_out=1,
                        **kw), [ref] + ([P['focusing'][1]] if wake else [])
                cases.append(('lens %g wake=%s %s' % (g, wake, pusher), make,
                              pusher))

            def make(g=g, pusher=pusher):
                def ref(x, y, xi, t):
                    r = np.zeros((6, len(x)))
                    r[3] = -g*y
                    r[4] = -g*x
                    return r
                return FieldQuadrupole(L, g, dt, pusher, n_out=1), [ref]
            cases.append(('quadrupole %g %s' % (g, pusher), make, pusher))
    species = [(-ct.e, ct.m_e), (ct.e, ct.m_e), (ct.e, ct.m_p),
               (-2*ct.e, 3*ct.m_e)]
    for name, make, pusher in cases:
        for q, m in species:
            ck.begin(element=name, q=q, m=m)
            with ck.guard():
                el, refs = make()
                b1, b2 = bunch(q_species=q, m_species=m), \
                    bunch(q_species=q, m_species=m)
                el.track(b1, show_progress_bar=False)
                FieldElement(L, dt, pusher, 1, fields=[ref_field(refs)]).track(
                    b2, show_progress_bar=False)
                ck.step(2)
                ck.state(*ps(b1))
                check_same_bunch(ck, b1, b2, 'element ' + name)
    # A lens focuses electrons in both planes, a quadrupole in x only.
    ck.begin(element='focusing direction')
    for g in (700., -700.):
        b = bunch()
        b.px[:] = 0.
        b.py[:] = 0.
        x0, y0 = b.x.copy(), b.y.copy()
        ActivePlasmaLens(1e-4, g, dt_bunch=1e-5/ct.c, n_out=1).track(
            b, show_progress_bar=False)
        ck.expect(np.all(b.px*x0*np.sign(g) <= 0) and
                  np.all(b.py*y0*np.sign(g) <= 0) and
                  np.any(b.px != 0), 'lens focuses electrons', g=g)
        b = bunch()
        b.px[:] = 0.
        b.py[:] = 0.
        FieldQuadrupole(1e-4, g, 1e-5/ct.c, n_out=1).track(
            b, show_progress_bar=False)
        ck.expect(np.all(b.px*x0*np.sign(g) <= 0) and
                  np.all(b.py*y0*np.sign(g) >= 0) and
                  np.any(b.px != 0), 'quadrupole focuses in x', g=g)


def run_params(job, ck):
    """Every built-in field over the whole range of its parameters."""
    from wake_t.physics_models.em_fields.quadrupole import QuadrupoleField
    from wake_t.physics_models.em_fields.linear_b_theta import \
        LinearBThetaField
    import wake_t.physics_models.plasma_wakefields as wf
    from wake_t import GaussianPulse
    far = [np.array(a) for a in zip(*product(
        (-2., -1e-3, 1e-9, 3e-5, .7), (-1e-3, 0., 5e-8, 1.), (
            -3., -4e-5, 0., 2e-3)))]
    times = (0., 3.7e-13, 1.1e-10, 4e-8)

    def z6(x):
        return np.zeros((6, len(x)))

    def go(f, ref, what):
        for pts in (None, far):
            with ck.guard():
                check_gather(ck, [f], [ref], what, pts, times)

    for g in (0., 1e-9, -1e-3, 1., 350., -7e4, 1e7, -1e9):
        ck.begin(field='gradient', g=g)

        def quad(x, y, xi, t):
            r = z6(x)
            r[3], r[4] = -g*y, -g*x
            return r

        def lens(x, y, xi, t):
            r = z6(x)
            r[3], r[4] = -g*y, g*x
            return r
        go(QuadrupoleField(g), quad, 'quadrupole')
        go(LinearBThetaField(g), lens, 'lens')
    for n in (0., 1e10, 1e18, 3e21, 2e23, 1e25, 4e26):
        ck.begin(field='focusing', n=n)

        def foc(x, y, xi, t):
            r = z6(x)
            k = n*(2 + np.tanh(ct.c*t + xi))*ct.e/(2*ct.epsilon_0)
            r[0], r[1] = k*x, k*y
            return r
        go(wf.FocusingBlowoutField(
            lambda z: n*(2 + np.tanh(np.asarray(z)))), foc, 'focusing field')
    for n, l_0, xi_c, off in product(
            (1e16, 1e20, 3e21, 2e23, 4e25), (1e-7, 8e-7, 1e-5),
            (0., -3e-4), (0., 5e-6, -2e-3)):
        laser = GaussianPulse(xi_c=xi_c, a_0=1., w_0=20e-6, tau=30e-15,
                              z_foc=0., l_0=l_0)
        ck.begin(field='simple', n=n, l_0=l_0, xi_c=xi_c, offset=off)

        def prof(z):
            return n*(1 + np.tanh(np.asarray(z))/2)

        def simple(x, y, xi, t):
            r = z6(x)
            m = float(prof(ct.c*t))
            wp2 = m*ct.e**2/(ct.m_e*ct.epsilon_0)
            r[0], r[1] = (m*ct.e/(2*ct.epsilon_0)*a for a in (x, y))
            r[2] = wp2/2*ct.m_e/ct.e*(
                xi + np.pi*ct.c/np.sqrt(wp2) - xi_c - off
                + (1 - group_beta(m, l_0))*ct.c*t)
            return r
        go(wf.SimpleBlowoutWakefield(prof, laser, field_offset=off), simple,
           'simple blowout')
        for ez, slope, k in (
                (-1e9, 1e13, 1e5), (1e12, -1e17, -1e7), (0., 0., 1e-3),
                (-1e-3, -1e3, 0.), (3e6, 1e20, -2.)):
            ck.begin(field='custom', n=n, l_0=l_0, xi_fields=off, ez=ez,
                     slope=slope, k=k)

            def custom(x, y, xi, t):
                r = z6(x)
                b = group_beta(float(prof(ct.c*t)), l_0)
                r[0], r[1] = ct.c*k*x, ct.c*k*y
                r[2] = ez + slope*(xi - off + (1 - b)*ct.c*t)
                return r
            go(wf.CustomBlowoutWakefield(
                prof, laser, lon_field=ez, lon_field_slope=slope,
                foc_strength=k, xi_fields=off), custom, 'custom blowout')


def run_many(job, ck):
    """Large numbers of fields and of particles (compiled kernels)."""
    P = pool()
    k = np.arange(70003)
    big = [1e-5*np.sin(1.3*k), 2e-5*np.cos(.7*k), 4e-5*np.sin(.11*k)]
    for i in range(len(P)):
        for n in (1, 1000, 4097, 70003):
            ck.begin(fields=[P[i][0]], particles=n)
            with ck.guard():
                check_gather(ck, [P[i][1]], [P[i][2]], 'large bunch',
                             [a[:n].copy() for a in big])
    for n in (10, 33, 100, 300):
        li = [P[(j*j + j//9) % len(P)] for j in range(n)]
        ck.begin(number_of_fields=n)
        with ck.guard():
            check_gather(ck, [p[1] for p in li], [p[2] for p in li],
                         'many fields')


def run_jit(job, ck):
    """The compiled kernels agree with the same reference."""
    P = pool()
    for i in range(len(P)):
        ck.begin(fields=[P[i][0]], compiled=True)
        with ck.guard():
            check_gather(ck, [P[i][1]], [P[i][2]], 'compiled field')
    for i, j in product(range(len(P)), repeat=2):
        ck.begin(fields=[P[i][0], P[j][0]], compiled=True)
        with ck.guard():
            check_gather(ck, [P[i][1], P[j][1]], [P[i][2], P[j][2]],
                         'compiled fields')
