"""C11: magnets and drifts transport a bunch by their map in the frame of the
reference trajectory."""
import contextlib
import copy
import io
from itertools import product

import numpy as np
import scipy.constants as ct

from mc import optics_ref as O

LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration: all element sequences (forward and '
             'backward) up to a depth are applied to a real bunch and to a '
             'reference model (Hamiltonian flow in the frame of the reference '
             'orbit), compared after every transition; lattice of single '
             'elements; order-of-convergence against exact drift motion and '
             'against the Lorentz force in a quadrupole and a dipole field')
BOUNDS = {
    'quick': 'single elements: 18 definitions (two of zero length) x n_out {none,0..3} x order x '
             'backtrack x gamma_ref (3) x 6 initial reference orbits x 5 '
             'bunches, at every output; all sequences of 2 out of 18 (9 elements, both '
             'directions) and of 3 out of 8',
    'thorough': 'single elements as quick with n_out {none,1..7}; all '
                'sequences of 3 out of 18 and of 4 out of 8',
}
ASSUMPTIONS = ['bending elements have a finite length',
               'with n_out outputs the map is applied once per output '
               'interval']
ENV = {'NUMBA_DISABLE_JIT': '1'}

# (class, kwargs) -> (length, theta, k1, k2)
ELEMENTS = [
    ('Drift', dict(length=.7)),
    ('Dipole', dict(length=.4, theta=.15)),
    ('Dipole', dict(length=.4, theta=-.15)),
    ('Quadrupole', dict(length=.3, k1=4.)),
    ('Quadrupole', dict(length=.3, k1=-4.)),
    ('Sextupole', dict(length=.25, k2=30.)),
    ('TMElement', dict(length=.6, theta=.3, k1=2., k2=-15.)),
    ('TMElement', dict(length=.5, theta=-.3, k1=-3.)),
    ('Dipole', dict(length=1.1, theta=.02)),
    ('Dipole', dict(length=.9, theta=2.5)),
    ('TMElement', dict(length=.35, k1=1.5, k2=12.)),
    ('Dipole', dict(length=.4, theta=3e-5)),
    ('Dipole', dict(length=.4, theta=-1e-6)),
    ('Drift', dict(length=40.)),
    ('Drift', dict(length=1e-4)),
    ('Quadrupole', dict(length=.02, k1=300.)),
    ('Drift', dict(length=0.)),
    ('TMElement', dict(k1=7., k2=3.)),
]
GAMMAS = {0: 300., 1: 5., 2: 40., 3: 4e4, 4: 1.2}


def jobs(tier):
    q = tier == 'quick'
    js = []
    for e in range(len(ELEMENTS)):
        js.append(dict(kind='single', el=e, n_out=[None, 0, 1, 2, 3] if q else
                       [None, 1, 2, 3, 4, 5, 6, 7]))
    for a in range(18):
        js.append(dict(kind='seq', first=a, ops=18, depth=2 if q else 3))
    for a in range(8):
        js.append(dict(kind='seq', first=a, ops=8, depth=3 if q else 4))
    js.append(dict(kind='drift'))
    js.append(dict(kind='lorentz'))
    js.append(dict(kind='print'))
    return js


def weight(j):
    return {'single': 4, 'seq': 3 if j.get('depth') == 2 else 8}.get(
        j['kind'], 3)


def build(e, **kw):
    import wake_t.beamline_elements as be
    cls, k = ELEMENTS[e]
    return getattr(be, cls)(**k, **kw)


def params(e):
    k = ELEMENTS[e][1]
    return k.get('length', 0.), k.get('theta', 0.), k.get('k1', 0.), k.get('k2', 0.)


def make_bunch(kind, x_ref=0., theta_ref=0., s=1.):
    from wake_t import ParticleBunch
    i = np.arange(7)
    x = s*2e-3*np.array([0, 1, -1, .5, 0, .3, -.7])
    y = s*1e-3*np.array([0, 0, 1, -1, .4, 2, .1])
    xi = s*1e-3*np.array([0, 1, 2, -1, .5, -.3, .2])
    xp = s*1e-3*np.array([0, -1, .5, 2, 1, 0, -.4])
    yp = s*1e-3*np.array([0, .7, -1, 0, 1.5, -.6, .2])
    d = s*1e-2*np.array([0, .5, -1, .3, 1, -.2, .9])
    g = GAMMAS[kind]*(1 + d)
    p = np.sqrt(g**2 - 1)
    px, py = xp*p, yp*p
    pz = np.sqrt(p**2 - px**2 - py**2)
    c, sn = np.cos(theta_ref), np.sin(theta_ref)
    x, xi = c*x + sn*xi + x_ref, -sn*x + c*xi
    px, pz = c*px + sn*pz, -sn*px + c*pz
    kw = {}
    if kind == 2:
        kw = dict(q_species=ct.e, m_species=ct.m_p)
    # bunch 1 has particles without weight
    b = ParticleBunch(1e5*((kind != 1) + i % 3), x, y, xi, px, py, pz,
                      prop_distance=.25, name='b', **kw)
    b.x_ref, b.theta_ref = x_ref, theta_ref
    return b


# -- reference model ---------------------------------------------------------
class Model:
    def __init__(self, b):
        self.s = np.array([b.x, b.px, b.y, b.py, b.xi, b.pz])
        self.w = b.w.copy()
        self.rho = 0.
        self.x_ref, self.th = b.x_ref, b.theta_ref
        self.z = b.prop_distance

    def apply(self, el, gamma_ref, n, order, direction):
        L, theta, k1, k2 = el
        c, sn = np.cos(self.th), np.sin(self.th)
        x, px, y, py, xi, pz = self.s
        x = x - self.x_ref
        x, xi = c*x - sn*xi, sn*x + c*xi
        px, pz = c*px - sn*pz, sn*px + c*pz
        g = np.sqrt(1 + px**2 + py**2 + pz**2)
        g0 = np.sum(g*self.w)/np.sum(self.w) if gamma_ref is None \
            else gamma_ref
        p0 = np.sqrt(g0**2 - 1)
        m = np.array([x, px/p0, y, py/p0, -xi, (g - g0)/p0])
        R, T = O.carleman(-theta/L if theta else 0., k1, k2, g0, direction*L/n)
        outs = []
        th0, x0, z0 = self.th, self.x_ref, self.z
        for k in range(n):
            mm = R @ m
            if order == 2:
                mm = mm + np.einsum('ijk,jn,kn->in', T, m, m)
            m = mm
            d = direction*(k + 1)/n
            x, px, y, py = m[0], m[1]*p0, m[2], m[3]*p0
            xi, g = -m[4], g0 + m[5]*p0
            pz = np.sqrt(g**2 - 1 - px**2 - py**2)
            th1 = th0 + d*theta
            # reference orbit: dx/ds = sin(theta_ref)
            o = copy.copy(self)
            o.x_ref = x0 + d*L*np.sin(th0 + d*theta/2)*np.sinc(
                d*theta/2/np.pi)
            o.th = th1
            o.z = z0 + d*L
            o.rho = L/theta if theta else 0.
            c, sn = np.cos(th1), np.sin(th1)
            o.s = np.array([c*x + sn*xi + o.x_ref, c*px + sn*pz, y, py,
                            -sn*x + c*xi, -sn*px + c*pz])
            outs.append(o)
        self.__dict__.update(outs[-1].__dict__)
        return outs


def compare(ck, b, m, what, tol=1e-9):
    s = np.array([b.x, b.px, b.y, b.py, b.xi, b.pz])
    ck.state(s, b.x_ref, b.theta_ref)
    for i, n in enumerate(('x', 'px', 'y', 'py', 'xi', 'pz')):
        if i % 2:
            ck.close(s[i], m.s[i], f'{what}: {n}', rtol=tol,
                     scale=np.max(np.abs(m.s[5])) + np.max(np.abs(m.s[1])))
        else:
            ck.close(s[i], m.s[i], f'{what}: {n}', rtol=1e-8,
                     scale=1e-2 + abs(m.x_ref)*1e-5)
    ck.close(b.x_ref, m.x_ref, f'{what}: reference position',
             atol=1e-12 + 1e-15*abs(m.rho))
    ck.close(b.theta_ref, m.th, f'{what}: reference angle', atol=1e-12)
    ck.close(b.prop_distance, m.z, f'{what}: propagated distance',
             atol=1e-12)
    ck.same(b.w, m.w, f'{what}: weights')


REFS = [(0., 0.), (.02, 0.), (0., .1), (-.3, -1.2), (1e-3, 4e-4),
        (0., -1e-6)]


def run(job, ck):
    globals()['run_' + job['kind']](job, ck)


def run_single(job, ck):
    e = job['el']
    for n_out, order, back, gref, ref, kind in product(
            job['n_out'], (1, 2), (False, True), (None, 1., 1.02), REFS,
            (0, 1, 2, 3, 4)):
        b = make_bunch(kind, *ref)
        g0 = GAMMAS[kind]
        gr = None if gref is None else gref*g0
        m = Model(b)
        ck.begin(element=ELEMENTS[e], n_out=n_out, order=order,
                 backtrack=back, gamma_ref=gr, ref=ref, bunch=kind)
        with ck.guard():
            el = build(e, n_out=n_out, order=order, gamma_ref=gr)
            out = el.track(b, backtrack=back, show_progress_bar=False)
        want = m.apply(params(e), gr, n_out or 1, order, -1 if back else 1)
        ck.step()
        compare(ck, b, m, 'tracked bunch')
        if n_out and ck.expect(len(out) == n_out, 'number of outputs',
                               got=len(out)):
            for o, w in zip(out, want):
                compare(ck, o, w, 'output')


def run_seq(job, ck):
    n = job['ops']
    # with few operations: drift, two dipoles and a quadrupole
    ops = [(e, d) for e in ((0, 1, 2, 3, 4, 5, 6, 7, 8) if n == 18 else
                            (1, 2, 0, 6)) for d in (1, -1)]

    def rec(hist, b, m, elements):
        for k, (e, d) in enumerate(ops):
            if not hist and k != job['first']:
                continue
            h = hist + [k]
            bb = b.copy()
            bb.x_ref, bb.theta_ref = b.x_ref, b.theta_ref
            mm = Model(b)
            mm.s, mm.x_ref, mm.th, mm.z = m.s.copy(), m.x_ref, m.th, m.z
            ck.begin(sequence=[ops[i] for i in h])
            with ck.guard():
                # elements are shared: the same magnet is used repeatedly
                elements[e].track(bb, backtrack=d < 0,
                                  show_progress_bar=False)
            mm.apply(params(e), None, 1, 2, d)
            ck.step()
            compare(ck, bb, mm, 'sequence', tol=1e-8)
            if len(h) < job['depth']:
                rec(h, bb, mm, elements)
    b = make_bunch(0)
    rec([], b, Model(b), {e: build(e) for e, _ in ops})
    # forward and backward: identity up to third order
    e, d = ops[job['first']]
    res = []
    for s in (1e-2, 5e-3):
        b = make_bunch(0, s=s)
        b0 = b.copy()
        ck.begin(roundtrip=ops[job['first']], scale=s)
        with ck.guard():
            el = build(e, gamma_ref=300.)
            el.track(b, backtrack=d < 0, show_progress_bar=False)
            el.track(b, backtrack=d > 0, show_progress_bar=False)
        ck.step(2)
        res.append(max(np.max(np.abs(b.x - b0.x)), np.max(np.abs(b.y - b0.y)),
                       np.max(np.abs(b.xi - b0.xi)),
                       np.max(np.abs(b.px - b0.px))/300.,
                       np.max(np.abs(b.py - b0.py))/300.))
    ck.expect(res[1] <= res[0]/5 + 1e-12,
              'forward + backward is not the identity to second order',
              res=res)


def run_drift(job, ck):
    """Drifts against the exact straight motion: third-order convergence."""
    from wake_t.beamline_elements import Drift
    for g0, L, order in product((3., 20., 500.), (.3, 2.), (1, 2)):
        errs = []
        for s in (1e-1, 5e-2):
            b = make_bunch(0, s=s)
            f = g0/300.
            g = np.sqrt(1 + b.px**2 + b.py**2 + b.pz**2)*f
            p = np.sqrt(g**2 - 1)
            p_old = np.sqrt((g/f)**2 - 1)
            for k in ('px', 'py', 'pz'):
                getattr(b, k)[:] *= p/p_old
            b0 = b.copy()
            ck.begin(gamma=g0, length=L, order=order, scale=s)
            with ck.guard():
                Drift(L, gamma_ref=g0, order=order).track(
                    b, show_progress_bar=False)
            ck.step()
            ck.state(b.x, b.xi)
            g = np.sqrt(1 + b0.px**2 + b0.py**2 + b0.pz**2)
            x = b0.x + b0.px/b0.pz*L
            y = b0.y + b0.py/b0.pz*L
            xi = b0.xi - L*(g/b0.pz - g0/np.sqrt(g0**2 - 1))
            errs.append([np.max(np.abs(b.x - x)), np.max(np.abs(b.y - y)),
                         np.max(np.abs(b.xi - xi))])
            for k in ('px', 'py', 'pz'):
                ck.close(getattr(b, k), getattr(b0, k),
                         'momentum changed in a drift', rtol=1e-9, scale=g0)
        ratio = 2**(order + 1)*.8
        for a, c, n in zip(*errs, ('x', 'y', 'xi')):
            ck.expect(c <= a/ratio + 1e-12,
                      f'{n} does not converge to straight motion', err=[a, c])


def integrate(b, field, L, frame_h, n=400):
    """Exact Lorentz motion (RK4 in path length s along the reference orbit
    of curvature frame_h) in (x, px, y, py, tau, g) for high energies."""
    x, y = b.x.copy(), b.y.copy()
    px, py, pz = b.px.copy(), b.py.copy(), b.pz.copy()
    tau = -b.xi.copy()
    g0 = 300.
    beta0 = np.sqrt(1 - 1/g0**2)
    qm = b.q_species/(b.m_species*ct.c)

    def rhs(v):
        x, y, tau, px, py, pz = v
        g = np.sqrt(1 + px**2 + py**2 + pz**2)
        bx, by = field(x, y)
        h = frame_h
        dsdt_fac = (1 + h*x)*g/pz      # c dt/ds
        # dp/d(ct) = q/(mc) v x B / c
        fx = -qm*(pz/g)*by
        fy = qm*(pz/g)*bx
        fz = qm*(px*by - py*bx)/g
        return np.array([(1 + h*x)*px/pz, (1 + h*x)*py/pz,
                         dsdt_fac - 1/beta0,
                         fx*dsdt_fac + h*pz, fy*dsdt_fac,
                         fz*dsdt_fac - h*px])
    v = np.array([x, y, tau, px, py, pz])
    ds = L/n
    for _ in range(n):
        k1 = rhs(v)
        k2 = rhs(v + ds/2*k1)
        k3 = rhs(v + ds/2*k2)
        k4 = rhs(v + ds*k3)
        v = v + ds/6*(k1 + 2*k2 + 2*k3 + k4)
    return v


def run_lorentz(job, ck):
    """Maps against the Lorentz force in the corresponding magnetic field."""
    from wake_t.beamline_elements import TMElement
    g0 = 300.
    p0 = np.sqrt(g0**2 - 1)
    brho = p0*ct.m_e*ct.c/ct.e
    for theta, k1, k2, order in product((0., .2, -.2), (0., 3., -3.),
                                        (0., 25.), (1, 2)):
        if theta and (k1 or k2):
            continue     # the field expansion is then not elementary
        L = .4
        errs = []
        for s in (4e-1, 2e-1):
            b = make_bunch(0, s=s)
            b0 = b.copy()
            ck.begin(theta=theta, k1=k1, k2=k2, order=order, scale=s)
            with ck.guard():
                TMElement(L, theta, k1, k2, g0, order=order).track(
                    b, show_progress_bar=False)
            ck.step()
            # electrons: focusing in x for k1 > 0, towards +x for theta > 0
            h = -theta/L

            def field(x, y):
                by = -brho*(k1*x + k2*(x**2 - y**2)/2 + h)
                bx = -brho*(k1*y + k2*x*y)
                return bx, by
            v = integrate(b0, field, L, h)
            th = theta
            c, sn = np.cos(th), np.sin(th)
            x, xi = b.x - b.x_ref, b.xi
            x, xi = c*x - sn*xi, sn*x + c*xi
            px, pz = c*b.px - sn*b.pz, sn*b.px + c*b.pz
            ck.state(x, px)
            errs.append([np.max(np.abs(d)) for d in (
                x - v[0], b.y - v[1], -xi - v[2], (px - v[3])/p0,
                (b.py - v[4])/p0, (pz - v[5])/p0)])
            if h == 0:
                ck.close(b.x_ref, 0., 'reference position')
        ratio = 2**(order + 1)*.75
        for a, c, n in zip(*errs, ('x', 'y', 'xi', 'px', 'py', 'pz')):
            ck.expect(c <= a/ratio + 1e-11,
                      f'{n} does not converge to the motion in the field',
                      err=[a, c])


def run_print(job, ck):
    """The progress output does not influence the result."""
    for e, n_out, back in product(range(len(ELEMENTS)), (None, 2),
                                  (False, True)):
        ck.begin(element=ELEMENTS[e], n_out=n_out, backtrack=back)
        a, b = make_bunch(0), make_bunch(0)
        with ck.guard():
            build(e, n_out=n_out).track(a, backtrack=back,
                                        show_progress_bar=False)
            with contextlib.redirect_stdout(io.StringIO()):
                build(e, n_out=n_out).track(b, backtrack=back)
        ck.step()
        for k in ('x', 'y', 'xi', 'px', 'py', 'pz'):
            ck.same(getattr(a, k), getattr(b, k), 'progress output: ' + k)
