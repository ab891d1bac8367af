"""C09: particles obey the relativistic equations of motion."""
from itertools import product

import numpy as np
import scipy.constants as ct

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of field-direction x momentum x species '
             'x step lattices on the real pushers, step by step against an '
             'independent reference integrator and exact invariants; all '
             'short sequences of pusher/resize/injection operations on one '
             'bunch against fresh bunches')
BOUNDS = {
    'quick': 'all 3^6 sign patterns of (E,B) x 12 momenta x 4 species x 3 '
             'time steps x 2 pushers x 3 consecutive steps; 16 space and time '
             'dependent fields; all sequences of <=3 operations out of 6 on a '
             'bunch; 7 injection positions x 4 bunches',
    'thorough': 'all 3^6 sign patterns of (E,B) x 60 momenta x 6 species x 6 '
                'time steps x 2 pushers x 6 consecutive steps; 16 space and '
                'time dependent fields; all sequences of <=5 operations out '
                'of 6 on a bunch; 7 injection positions x 4 bunches',
}
ASSUMPTIONS = ['the Boris scheme is the half drift / kick-rotate-kick / half '
               'drift variant and RK4 the classical one, as documented']


def jobs(tier):
    q = tier == 'quick'
    js = []
    for pusher in ('boris', 'rk4'):
        for s in range(4 if q else 6):
            js.append(dict(kind='lattice', pusher=pusher, species=s,
                           np=12 if q else 60, nt=3 if q else 6,
                           steps=3 if q else 6))
        js.append(dict(kind='fields', pusher=pusher))
        js.append(dict(kind='injection', pusher=pusher))
        js.append(dict(kind='exact', pusher=pusher))
    js.append(dict(kind='seq', depth=3 if q else 5))
    return js


def weight(j):
    return {'lattice': 3, 'fields': 2, 'injection': 3, 'exact': 2,
            'seq': 4}[j['kind']]


SPECIES = [(-ct.e, ct.m_e), (ct.e, ct.m_e), (ct.e, ct.m_p),
           (-2*ct.e, 3*ct.m_e), (3*ct.e, 7*ct.m_p), (-.5*ct.e, ct.m_e)]


# -- reference ---------------------------------------------------------------
def ref_push(pusher, s, fld, t, dt, qm):
    """One step of the 6 x N state (x, y, xi, px, py, pz)."""
    c = ct.c
    k = qm/c

    def rhs(t, s):
        g = np.sqrt(1 + s[3]**2 + s[4]**2 + s[5]**2)
        v = s[3:]*c/g
        f = fld(s[0], s[1], s[2], t)
        dp = k*(f[:3] + np.cross(v, f[3:], axis=0))
        return np.concatenate([v - np.array([0., 0., c])[:, None], dp])
    if pusher == 'rk4':
        k1 = rhs(t, s)
        k2 = rhs(t + dt/2, s + dt/2*k1)
        k3 = rhs(t + dt/2, s + dt/2*k2)
        k4 = rhs(t + dt, s + dt*k3)
        return s + dt/6*(k1 + 2*k2 + 2*k3 + k4)

    def drift(s):
        g = np.sqrt(1 + s[3]**2 + s[4]**2 + s[5]**2)
        o = s.copy()
        o[:3] += dt/2*(s[3:]*c/g - np.array([0., 0., c])[:, None])
        return o
    s = drift(s)
    f = fld(s[0], s[1], s[2], t + dt/2)
    p = s[3:] + k*dt/2*f[:3]
    g = np.sqrt(1 + np.sum(p**2, axis=0))
    tv = k*c*dt/2/g*f[3:]
    sv = 2*tv/(1 + np.sum(tv**2, axis=0))
    p1 = p + np.cross(p, tv, axis=0)
    p = p + np.cross(p1, sv, axis=0)
    s[3:] = p + k*dt/2*f[:3]
    return drift(s)


def make_field(f):
    from wake_t.fields.base import Field

    class F(Field):
        def _gather(self, x, y, z, t, ex, ey, ez, bx, by, bz):
            v = f(x, y, z, t)
            for a, w in zip((ex, ey, ez, bx, by, bz), v):
                a += w
    return F()


def make_bunch(s, sp=0, **kw):
    from wake_t import ParticleBunch
    q, m = SPECIES[sp]
    n = s.shape[1]
    kw.setdefault('w', 1e4*(1. + np.arange(n) % 3))
    kw.setdefault('name', 'b')
    return ParticleBunch(x=s[0].copy(), y=s[1].copy(), xi=s[2].copy(),
                         px=s[3].copy(), py=s[4].copy(), pz=s[5].copy(),
                         q_species=q, m_species=m, **kw)


def state(b):
    return np.array([b.x, b.y, b.xi, b.px, b.py, b.pz])


NAMES = ('x', 'y', 'xi', 'px', 'py', 'pz')


def compare(ck, b, s, s0, what, rtol=1e-10, **kw):
    g = state(b)
    pn = np.sqrt(1 + np.max(np.abs(s[3:]), axis=0)**2)
    for i, n in enumerate(NAMES):
        if i < 3:
            tol = rtol*(np.abs(s0[i]) + np.abs(s[i]) + 1e-7)
        else:
            tol = rtol*pn
        err = np.abs(g[i] - s[i])
        ck.comparisons += 1
        bad = np.where(~(err <= tol))[0]
        if len(bad):
            k = bad[0]
            ck.fail(what + ': ' + n, got=g[i][k], want=s[i][k], particle=k,
                    n_bad=len(bad), initial=s0[:, k], **kw)
            return False
    return True


def momenta(n):
    ps = [(0., 0., 0.), (0., 0., 10.), (1., 0., 10.), (0., -2., 100.),
          (3., 2., 1000.), (0., 0., -5.), (1., 1., 0.), (-.5, .5, .5),
          (0., 20., 2e4), (10., -20., 30.), (.01, 0., 1.), (0., 0., .01)]
    i = 0
    while len(ps) < n:
        i += 1
        h = [np.modf(i*g)[0] for g in (.8191725, .6710436, .5497005)]
        ps.append(((h[0]-.5)*10**(3*h[2]), (h[1]-.5)*10**(3*h[2]),
                   10**(4*h[2] - 1)))
    return ps[:n]


def run(job, ck):
    globals()['run_' + job['kind']](job, ck)


def run_lattice(job, ck):
    eb = np.array(list(product((-1., 0., 1.), repeat=6))).T
    ps = momenta(job['np'])
    F = np.repeat(eb, len(ps), axis=1)
    P = np.tile(np.array(ps).T, (1, eb.shape[1]))
    F = F*np.array([1.0, .7, .4, .9, .6, .8])[:, None]
    n = F.shape[1]
    h = np.arange(n)
    X = np.array([1e-5*np.sin(h), 1e-5*np.cos(2*h), 1e-5*np.sin(3*h)])
    sp = job['species']
    q, m = SPECIES[sp]
    for dt in [1e-14, 1e-16, 3e-13, 1e-12, 1e-15, 5e-14][:job['nt']]:
        for e0, b0 in ((1e9, 3.), (1e11, 300.)):
            ck.begin(pusher=job['pusher'], species=sp, dt=dt, E=e0, B=b0)
            with ck.guard():
                Fs = F*np.array([e0]*3 + [b0]*3)[:, None]

                def fld(x, y, z, t):
                    return Fs
                s = s0 = np.concatenate([X, P])
                b = make_bunch(s, sp, tags=np.arange(n), t_flight=.5)
                w0 = b.w.copy()
                t = 2e-12
                for k in range(job['steps']):
                    b.evolve([make_field(fld)], t, dt, job['pusher'])
                    s1 = ref_push(job['pusher'], s, fld, t, dt, q/m)
                    if not compare(ck, b, s1, s, 'step differs from the '
                                   'equations of motion', step=k):
                        break
                    # Magnetic fields do not change the energy.
                    nb = np.all(Fs[:3] == 0., axis=0)
                    g0 = np.sum(s[3:, nb]**2, axis=0)
                    g1 = np.sum(state(b)[3:, nb]**2, axis=0)
                    th = abs(q/m)*b0*dt
                    tol = 1e-11 if job['pusher'] == 'boris' else \
                        1e-11 + 2*th**5
                    ck.expect(np.all(np.abs(g1 - g0) <= tol*(g0 + 1e-30)),
                              'energy changes in a magnetic field', step=k)
                    # Without fields, momentum is untouched.
                    n0 = np.all(Fs == 0., axis=0)
                    ck.close(state(b)[3:, n0], s[3:, n0], 'momentum changes '
                             'without fields', rtol=1e-15)
                    s = state(b)
                    t += dt
                    ck.step(n)
                    ck.state(s)
                    ck.close(b.prop_distance, (k+1)*dt*ct.c,
                             'propagation distance', rtol=1e-12)
                ck.same(b.w, w0, 'weights change')
                ck.same(b.tags, np.arange(n), 'tags change')
                ck.expect((b.q_species, b.m_species) == (q, m),
                          'species changes')


FIELDS = []


def _fields():
    c = ct.c
    z = lambda x: np.zeros_like(x)     # noqa
    fs = {}
    for i in range(6):
        for j, (nm, co) in enumerate((('x', lambda x, y, z, t: x/1e-5),
                                      ('y', lambda x, y, z, t: y/1e-5),
                                      ('z', lambda x, y, z, t: z/1e-5),
                                      ('t', lambda x, y, z, t:
                                       t/1e-13 + 0*x))):
            def f(x, y, z_, t, i=i, co=co):
                o = np.zeros((6, len(x)))
                o[i] = co(x, y, z_, t)*(2e10 if i < 3 else 60.)
                return o
            fs['%d%s' % (i, nm)] = f

    def wave(x, y, z_, t):
        ph = (z_ + c*t)/3e-6
        return np.array([3e11*np.cos(ph), 1e11*np.sin(ph), 1e10*np.cos(2*ph),
                         200*np.sin(ph), 900*np.cos(ph), 10.*np.sin(x/1e-5)])
    fs['wave'] = wave
    return fs


def run_fields(job, ck):
    """Space and time dependent fields: evaluated at the right place and
    time, for every particle."""
    h = np.arange(40)
    X = np.array([1e-5*np.sin(h), 1e-5*np.cos(2*h), 1e-5*np.sin(3*h)])
    P = np.array([momenta(40)]).reshape(40, 3).T
    for name, f in _fields().items():
        for sp in (0, 1, 2):
            q, m = SPECIES[sp]
            ck.begin(field=name, species=sp, pusher=job['pusher'])
            with ck.guard():
                s = np.concatenate([X, P])
                b = make_bunch(s, sp)
                t = 1e-13
                for k, dt in enumerate((1e-14, 3e-15, 2e-14)):
                    b.evolve([make_field(f)], t, dt, job['pusher'])
                    s1 = ref_push(job['pusher'], s, f, t, dt, q/m)
                    if not compare(ck, b, s1, s, 'step in a varying field',
                                   step=k):
                        break
                    s = state(b)
                    t += dt
                    ck.step(40)
                    ck.state(s)
                # Each particle on its own moves in the same way.
                for i in (0, 7, 39):
                    b1 = make_bunch(np.concatenate([X, P])[:, i:i+1], sp)
                    t = 1e-13
                    for dt in (1e-14, 3e-15, 2e-14):
                        b1.evolve([make_field(f)], t, dt, job['pusher'])
                        t += dt
                    ck.close(state(b1)[:, 0], s[:, i], 'a particle depends on '
                             'the others', rtol=1e-10, particle=i)
    b = make_bunch(np.concatenate([X, P]))
    s = state(b)
    ck.begin(pusher='unknown')
    ck.raises(ValueError, lambda: b.evolve([], 0., 1e-13, 'leapfrog'),
              'unknown pusher')
    ck.same(state(b), s, 'unknown pusher moves the bunch')


def run_exact(job, ck):
    """Known exact solutions: drift, acceleration, gyration."""
    c = ct.c
    for sp in range(len(SPECIES)):
        q, m = SPECIES[sp]
        for dt in (1e-15, 1e-13, 1e-9):
            ck.begin(case='drift', species=sp, dt=dt)
            with ck.guard():
                P = np.array(momenta(30)).T
                s = np.concatenate([np.full((3, 30), 1e-4), P])
                b = make_bunch(s, sp)
                b.evolve([], 0., dt, job['pusher'])
                g = np.sqrt(1 + np.sum(P**2, axis=0))
                want = s.copy()
                want[0] += P[0]/g*c*dt
                want[1] += P[1]/g*c*dt
                want[2] += (P[2]/g - 1)*c*dt
                ck.step(30)
                ck.state(state(b))
                compare(ck, b, want, s, 'free particle')
        for E in (-1e9, 5e9):
            ck.begin(case='acceleration', species=sp, E=E)
            with ck.guard():
                b = make_bunch(np.array([[0.], [0.], [0.], [0.], [0.],
                                         [50.]]), sp)
                T = 1e-11*m/ct.m_e*ct.e/abs(q)

                def fld(x, y, z, t):
                    return np.array([0, 0, E, 0, 0, 0])[:, None] + 0*x
                for k in range(100):
                    b.evolve([make_field(fld)], k*T/100, T/100, job['pusher'])
                ck.step(100)
                dp = q*E*T/(m*c)
                ck.close(b.pz[0], 50. + dp, 'uniform acceleration',
                         rtol=1e-9)
                # z = (gamma_1 - gamma_0)/(dp/dt / c)
                g0, g1 = np.sqrt(1 + 50.**2), np.sqrt(1 + (50. + dp)**2)
                z = (g1 - g0)/dp*c*T
                ck.close(b.xi[0], z - c*T, 'accelerated position', rtol=1e-3)
        for comp, sign in product(range(3), (1, -1)):
            ck.begin(case='gyration', species=sp, axis=comp, sign=sign)
            with ck.guard():
                B = sign*100.
                p0 = 5.
                d = [(0, 1, 0), (0, 0, 1), (1, 0, 0)][comp]
                s = np.zeros((6, 1))
                s[3:, 0] = np.array(d)*p0
                b = make_bunch(s, sp)
                g = np.sqrt(1 + p0**2)
                w = -q*B/(m*g)          # right-handed rotation about +axis
                n = 400
                T = 2*np.pi/abs(w)

                def fld(x, y, z, t):
                    o = np.zeros((6, len(x)))
                    o[3 + comp] = B
                    return o
                for k in range(n//4):
                    b.evolve([make_field(fld)], k*T/n, T/n, job['pusher'])
                ck.step(n//4)
                e1 = np.array(d)
                e3 = np.zeros(3)
                e3[comp] = 1.
                e2 = np.cross(e3, e1)*np.sign(w)
                p = state(b)[3:, 0]
                ck.close(p, p0*e2, 'quarter of a gyration', rtol=1e-3)
                R = p0/g*c/abs(w)
                pos = state(b)[:3, 0] + np.array([0, 0, c*T/4])
                ck.close(pos, R*(e1 + e2), 'gyration radius', rtol=1e-3,
                         scale=R)


def run_injection(job, ck):
    """Ballistic motion until the first particle reaches the injection
    position, forces from then on."""
    f = _fields()['wave']
    h = np.arange(6)
    base = np.concatenate([
        np.array([1e-5*np.sin(h), 1e-5*np.cos(2*h), 1e-6*h - 3e-6]),
        np.array(momenta(8)).T[:, [1, 2, 3, 4, 1, 3]]])
    for n in (1, 3, 6):
        for prop0 in (0., 1e-4):
            for frac in (-1., 0., None, .2, .5, .9, 1., 5.):
                ck.begin(n=n, prop=prop0, injection=frac,
                         pusher=job['pusher'])
                with ck.guard():
                    L = 3e-5
                    s = base[:, :n].copy()
                    if frac is None:
                        # Exactly at the injection position.
                        s[2] -= np.max(s[2])
                        z_inj = prop0
                    else:
                        z_inj = prop0 + frac*L
                    b = make_bunch(s, 0, prop_distance=prop0,
                                   z_injection=z_inj)
                    free, near = 0, False
                    pd = prop0
                    N = 10
                    dt = L/ct.c/N
                    for k in range(N):
                        lead = np.max(s[2]) + pd
                        if abs(lead - z_inj) < 1e-10 and \
                                (frac is not None or k):
                            near = True
                            break
                        ball = lead < z_inj
                        free += ball
                        fl = (lambda x, y, z, t: np.zeros((6, len(x)))) \
                            if ball else f
                        s1 = ref_push(job['pusher'], s, fl, k*dt, dt,
                                      -ct.e/ct.m_e)
                        b.evolve([make_field(f)], k*dt, dt, job['pusher'])
                        if not compare(
                                ck, b, s1, s, 'before the injection position '
                                'forces act' if ball else 'after the '
                                'injection position forces are missing',
                                step=k):
                            break
                        s = state(b)
                        pd += dt*ct.c
                        ck.step()
                        ck.state(s)
                        ck.close(b.prop_distance, pd, 'propagation distance',
                                 rtol=1e-12)
                    # Without an injection position, forces always act.
                    b0 = make_bunch(base[:, :n], 0, prop_distance=prop0)
                    s1 = ref_push(job['pusher'], base[:, :n], f, 0., dt,
                                  -ct.e/ct.m_e)
                    b0.evolve([make_field(f)], 0., dt, job['pusher'])
                    compare(ck, b0, s1, base[:, :n], 'no injection position')


def run_seq(job, ck):
    """Operations on one bunch object never depend on what was done before."""
    f = _fields()['wave']
    h = np.arange(3)
    s_init = np.concatenate([
        np.array([1e-5*np.sin(h), 1e-5*np.cos(2*h), 1e-6*h]),
        np.array(momenta(4)).T[:, 1:4]])
    qm = -ct.e/ct.m_e
    dt = 1e-14
    OPS = ('boris', 'rk4', 'grow', 'shrink', 'copy', 'replace')
    for d in range(1, job['depth'] + 1):
        for ops in product(OPS, repeat=d):
            ck.begin(ops=ops)
            with ck.guard():
                b = make_bunch(s_init)
                s = s_init.copy()
                t = 0.
                for k, op in enumerate(ops + ('boris', 'rk4')):
                    if op in ('boris', 'rk4'):
                        b.evolve([make_field(f)], t, dt, op)
                        s1 = ref_push(op, s, f, t, dt, qm)
                        t += dt
                        ck.step()
                        if not compare(ck, b, s1, s, 'step after other '
                                       'operations', step=k):
                            break
                        s = s1
                    elif op in ('grow', 'shrink'):
                        m = b.get_bunch_matrix()
                        if op == 'grow':
                            idx = list(range(m.shape[1])) + [0, 1]
                        else:
                            idx = list(range(m.shape[1]))[:max(
                                2, m.shape[1] - 1)]
                        b.set_bunch_matrix(m[:, idx].copy())
                        s = s[:, idx].copy()
                    elif op == 'copy':
                        b2 = b.copy()
                        # Tracking the original leaves the copy alone.
                        b.evolve([make_field(f)], t, 5*dt, 'rk4')
                        b = b2
                    else:
                        s = s_init + 1e-7
                        b.set_phase_space(*[a.copy() for a in s])
                        b.w = np.ones(s.shape[1])
                ck.state(s)
