"""C08: depositing particles on the r-z grid conserves and localises them."""
from itertools import product

import numpy as np

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of a particle-position lattice on every '
             'small grid, both particle shapes, with and without radial '
             'correction, on the real deposition kernels, against an '
             'independent B-spline deposition and the conservation law')
BOUNDS = {
    'quick': 'grids n_z x n_r in {3,4,5,8}^2; single particles at multiples '
             'of 1/4 cell from one cell outside of each edge, 4 azimuths; '
             'all pairs of a 30-position subset; uniform plasma columns of '
             'n_r in 3..30; 300000 particles on grids up to 300 x 200',
    'thorough': 'grids n_z x n_r in {3..9,17}^2; single particles at '
                'multiples of 1/8 cell from one cell outside of each edge, 8 '
                'azimuths; all pairs of a 60-position subset; uniform plasma '
                'columns of n_r in 3..60; 1.1e6 particles on grids up to 300 '
                'x 200',
}
ASSUMPTIONS = [
    'at least three cells in each direction (smaller grids cannot hold the '
    'cubic shape)',
    'cell coordinates exact in binary, so that box edges are unambiguous',
]


def jobs(tier):
    q = tier == 'quick'
    sizes = [3, 4, 5, 8] if q else [3, 4, 5, 6, 7, 8, 9, 17]
    js = []
    for nr in sizes:
        js.append(dict(kind='single', nr=nr, nzs=sizes, frac=4 if q else 8,
                       ndir=4 if q else 8))
        js.append(dict(kind='plasma', nr=nr, nzs=sizes, frac=4 if q else 8))
    js.append(dict(kind='pairs', n=30 if q else 60))
    js.append(dict(kind='uniform', nmax=30 if q else 60))
    js.append(dict(kind='bunch'))
    js.append(dict(kind='large', n=[70001, 300000] if q else
                   [70001, 300000, 1100000]))
    return js


def weight(j):
    return {'single': 4, 'plasma': 2, 'pairs': 2, 'uniform': 3,
            'bunch': 3, 'large': 4}[j['kind']]


DIRS = [(1., 0.), (0., -1.), (-.6, .8), (.8, .6), (-1., 0.), (0., 1.),
        (.6, -.8), (-.8, -.6)]


def spline(shape, d):
    d = abs(d)
    if shape == 'linear':
        return max(0., 1. - d)
    if d < 1:
        return (4. - 6.*d**2 + 3.*d**3)/6.
    if d < 2:
        return (2. - d)**3/6.
    return 0.


def weights(shape, u, n, axis):
    """Weights on nodes 0..n-1 of a particle at cell coordinate u.

    What would go to nodes outside of the grid is put back inside: mirrored
    at the axis / outer radius in r (half a cell beyond the nodes), and in the
    outermost node in z.
    """
    w = np.zeros(n)
    for j in range(-3, n + 3):
        s = spline(shape, u - j)
        if s == 0.:
            continue
        if axis == 'r':
            k = j if 0 <= j < n else (-1 - j if j < 0 else 2*n - 1 - j)
        else:
            k = min(max(j, 0), n - 1)
        w[k] += s
    return w


def run(job, ck):
    globals()['run_' + job['kind']](job, ck)


def deposit(nz, nr, dz, dr, z0, x, y, z, w, shape, ruy, base=0.):
    from wake_t.particles.deposition import deposit_3d_distribution
    a = np.full((nz+4, nr+4), base)
    deposit_3d_distribution(
        np.atleast_1d(z), np.atleast_1d(x), np.atleast_1d(y),
        np.atleast_1d(w), z0, dr/2, nz, nr, dz, dr, a, p_shape=shape,
        use_ruyten=ruy)
    return a


def run_single(job, ck):
    nr, fr = job['nr'], job['frac']
    for nz in job['nzs']:
        for shape, ruy in product(('linear', 'cubic'), (False, True)):
            for dz, dr, z0 in ((2.**-2, 2.**-4, -5*2.**-2),
                               (2.**-9, 2.**-7, 2.**-3)):
                ck.begin(n_z=nz, n_r=nr, shape=shape, corrected=ruy, dz=dz)
                with ck.guard():
                    us = np.arange(-fr, nz*fr + 1)/fr
                    vs = np.arange(-fr//2, (nr+1)*fr + 1)/fr
                    for k, (u, v) in enumerate(product(us, vs)):
                        d = DIRS[k % job['ndir']]
                        edge = v >= nr - .5
                        if edge and d[0]*d[1] != 0:
                            d = DIRS[0]
                        w = 1. + (k % 5)
                        if k % 3 == 0:
                            w = -w
                        a = deposit(nz, nr, dz, dr, z0, (v+.5)*dr*d[0],
                                    (v+.5)*dr*d[1], z0 + u*dz, w, shape, ruy)
                        ck.step()
                        g = a[2:-2, 2:-2]
                        inside = 0 <= u <= nz - 1 and v <= nr - .5
                        tot = g.sum()
                        ok = abs(tot - (w if inside else 0.)) < 1e-12*abs(w)
                        if not ck.expect(
                                ok, 'deposited charge differs from the charge '
                                'of the particle' if inside else
                                'a particle outside of the box deposits '
                                'charge', cell_z=u, cell_r=v, w=w, got=tot):
                            continue
                        ck.expect(np.sum(np.abs(a)) - np.sum(np.abs(g)) <
                                  1e-12, 'charge left in guard cells',
                                  cell_z=u, cell_r=v)
                        if not inside:
                            continue
                        wz = weights(shape, u, nz, 'z')
                        wr = weights(shape, v, nr, 'r')
                        if ruy:
                            # The correction exchanges charge between the two
                            # nearest rows only.
                            ck.close(g.sum(axis=1), w*wz, 'longitudinal '
                                     'profile', rtol=0, atol=1e-12,
                                     cell_z=u, cell_r=v)
                            e = g.sum(axis=0)/w - wr
                            lo = int(np.ceil(v)) - 1
                            near = {min(max(j, 0), nr-1)
                                    for j in (lo, lo+1)}
                            far = [j for j in range(nr) if j not in near]
                            ck.expect(np.all(np.abs(e[far]) < 1e-12),
                                      'radial correction reaches beyond the '
                                      'neighbouring rows', cell_r=v, e=e)
                            ck.expect(np.all(np.abs(e) < .3),
                                      'radial correction is too large',
                                      cell_r=v, e=e)
                            if v == int(v):
                                ck.expect(np.all(np.abs(e) < 1e-12),
                                          'particle on a node is corrected',
                                          cell_r=v, e=e)
                        else:
                            ck.close(g, w*np.outer(wz, wr), 'deposited '
                                     'distribution', rtol=0, atol=1e-12,
                                     cell_z=u, cell_r=v)
                    ck.state(g, nz, nr, shape, ruy)


def run_plasma(job, ck):
    try:     # internal: skipped if it is reorganised
        from wake_t.physics_models.plasma_wakefields.qs_rz_baxevanis \
            .deposition import deposit_plasma_particles
    except ImportError:
        return
    nr, fr = job['nr'], job['frac']
    dz, dr, z0 = 2.**-2, 2.**-4, -1.25
    for nz in job['nzs']:
        for shape in ('linear', 'cubic'):
            for iz in range(nz):
                ck.begin(n_z=nz, n_r=nr, shape=shape, slice=iz)
                with ck.guard():
                    vs = np.arange(-fr//2, (nr+1)*fr + 1)/fr
                    rows = []
                    for k, v in enumerate(vs):
                        w = (1. + k % 4)*(-1)**k
                        a = np.zeros((nz+4, nr+4))
                        deposit_plasma_particles(
                            iz, np.array([(v+.5)*dr]), np.array([w]), z0,
                            dr/2, nz, nr, dz, dr, a, p_shape=shape)
                        ck.step()
                        want = np.zeros_like(a)
                        if v <= nr - .5:
                            want[2:-2, 2:-2] = w*np.outer(
                                weights(shape, iz, nz, 'z'),
                                weights(shape, v, nr, 'r'))
                        ck.close(a, want, 'plasma particle deposited in its '
                                 'slice', rtol=0, atol=1e-12, cell_r=v)
                        rows.append(a)
                    # Columns are the sum over their particles.
                    m = vs <= nr - .5
                    a = np.zeros((nz+4, nr+4))
                    deposit_plasma_particles(
                        iz, (vs[m]+.5)*dr, np.ones(m.sum()), z0, dr/2, nz,
                        nr, dz, dr, a, p_shape=shape)
                    ck.close(a.sum(), float(m.sum()), 'charge of a column',
                             rtol=1e-12)
                    ck.state(a)


def run_pairs(job, ck):
    """Deposition is additive and independent of particle order."""
    nz, nr, dz, dr, z0 = 6, 5, 2.**-2, 2.**-4, -1.
    us = np.array([-.5, 0., .3, 1., 2.6, 4.9, 5., 5.4])
    vs = np.array([-.5, -.2, 0., .7, 1., 3.1, 4., 4.4, 4.8])
    P = list(product(us, vs))
    step = max(1, len(P)//job['n'])
    P = P[::step]
    for shape, ruy in product(('linear', 'cubic'), (False, True)):
        one = [deposit(nz, nr, dz, dr, z0, (v+.5)*dr, 0., z0+u*dz, 1.5,
                       shape, ruy) for u, v in P]
        for i, j in product(range(len(P)), repeat=2):
            ck.begin(first=P[i], second=P[j], shape=shape, corrected=ruy)
            with ck.guard():
                a = deposit(nz, nr, dz, dr, z0,
                            np.array([(P[i][1]+.5)*dr, 0.]),
                            np.array([0., (P[j][1]+.5)*dr]),
                            np.array([z0+P[i][0]*dz, z0+P[j][0]*dz]),
                            np.array([1.5, -3.]), shape, ruy, base=.25)
                ck.step()
                ck.close(a, .25 + one[i] - 2*one[j], 'two particles do not '
                         'deposit the sum of their charges', rtol=0,
                         atol=1e-12)
                if i == j:
                    ck.state(a)
        ck.begin(empty=True, shape=shape)
        with ck.guard():
            e = np.zeros(0)
            a = deposit(nz, nr, dz, dr, z0, e, e, e, e, shape, ruy, base=2.)
            ck.close(a, np.full(a.shape, 2.), 'no particles', rtol=0)
    from wake_t.particles.deposition import deposit_3d_distribution
    ck.raises(ValueError, lambda: deposit(
        nz, nr, dz, dr, z0, 0., 0., z0, 1., 'quadratic', False),
        'unknown particle shape')


def run_uniform(job, ck):
    """A uniform distribution gives a uniform density up to the axis (this is
    what the radial correction is for)."""
    nz = 5
    for nr in range(3, job['nmax'] + 1):
        for shape in ('linear', 'cubic'):
            ck.begin(n_r=nr, shape=shape)
            with ck.guard():
                dr, dz, z0 = 2.**-4, 2.**-3, 0.
                ppc = 64
                r = (np.arange(nr*ppc) + .5)*dr/ppc
                w = r*dr/ppc*2*np.pi*dz
                a = deposit(nz, nr, dz, dr, z0, r, np.zeros_like(r),
                            np.full_like(r, z0 + 2*dz), w, shape, True)
                q = a[2:-2, 2:-2].sum(axis=0)
                vol = np.pi*dr**2*dz*(2*np.arange(nr) + 1)
                rho = q/vol
                ck.step()
                ck.state(rho)
                ck.close(rho[:max(1, nr-2)], np.ones(max(1, nr-2)),
                         'uniform distribution is not deposited uniformly',
                         rtol=5e-5)
                ck.close(rho, np.ones(nr), 'uniform distribution is not '
                         'deposited uniformly at the edge', rtol=6e-4)
                ck.close(q.sum(), w.sum(), 'total charge', rtol=1e-12)


def vec_weights(shape, u, n, axis, a, b):
    """Nodes (columns of a, values in b) of many particles at once."""
    base = np.floor(u).astype(int)
    for j in range(-1, 3):
        s = np.abs(u - (base + j))
        if shape == 'linear':
            w = np.maximum(0., 1. - s)
        else:
            w = np.where(s < 1, (4. - 6.*s**2 + 3.*s**3)/6.,
                         np.maximum(2. - s, 0.)**3/6.)
        k = base + j
        if axis == 'r':
            k = np.where(k < 0, -1 - k, np.where(k >= n, 2*n - 1 - k, k))
        else:
            k = np.clip(k, 0, n - 1)
        a.append(k)
        b.append(w)


def run_large(job, ck):
    """Realistic numbers of particles and cells."""
    for n, (nz, nr) in product(job['n'], ((300, 200), (1030, 40), (12, 600))):
        i = np.arange(n)
        u = np.modf(i*.7548776662)[0]*(nz - 1)
        v = np.modf(i*.5698402910)[0]*nr - .5
        th = 2.399963*i
        dz, dr, z0 = 2.**-5, 2.**-3, -3.
        w = 1. + (i % 7) - 3.*(i % 11 == 0)
        for shape, ruy in product(('linear', 'cubic'), (False, True)):
            ck.begin(particles=n, n_z=nz, n_r=nr, shape=shape, corrected=ruy)
            with ck.guard():
                a = deposit(nz, nr, dz, dr, z0, (v + .5)*dr*np.cos(th),
                            (v + .5)*dr*np.sin(th), z0 + u*dz, w, shape, ruy)
                g = a[2:-2, 2:-2]
                kz, wz, kr, wr = [], [], [], []
                vec_weights(shape, u, nz, 'z', kz, wz)
                vec_weights(shape, v, nr, 'r', kr, wr)
                want = np.zeros((nz, nr))
                for a1, b1 in zip(kz, wz):
                    for a2, b2 in zip(kr, wr):
                        np.add.at(want, (a1, a2), w*b1*b2)
                ck.step(n)
                ck.state(g)
                if ruy:
                    ck.close(g.sum(axis=1), want.sum(axis=1), 'longitudinal '
                             'profile', rtol=0, atol=1e-8)
                    ck.close(np.cumsum(g.sum(axis=0)),
                             np.cumsum(want.sum(axis=0)), 'radial profile',
                             rtol=0, atol=.3*np.abs(want.sum(axis=0)).max())
                else:
                    ck.close(g, want, 'deposited distribution', rtol=0,
                             atol=1e-8)


def run_bunch(job, ck):
    """The charge of a real bunch, any species, in SI coordinates."""
    import scipy.constants as ct
    from wake_t import ParticleBunch
    n = 400
    i = np.arange(n)
    h = [np.modf(i*g)[0] for g in (.7548776662, .5698402910, .1)]
    for qs, ms in ((-ct.e, ct.m_e), (ct.e, ct.m_p), (2*ct.e, ct.m_e)):
        b = ParticleBunch(
            w=1e6*(1 + h[2]), x=(h[0]-.5)*6e-6, y=(h[1]-.5)*6e-6,
            xi=(h[2]-.5)*8e-6 + 3e-6, px=0*h[0], py=0*h[0], pz=0*h[0] + 100.,
            q_species=qs, m_species=ms, name='b')
        for nz, nr in product((5, 20, 41), (4, 17)):
            for shape, ruy in product(('linear', 'cubic'), (False, True)):
                for zmin, zmax, rmax in ((-10e-6, 10e-6, 10e-6),
                                         (0., 5e-6, 3e-6),
                                         (4e-6, 30e-6, 20e-6)):
                    ck.begin(q=qs, n_z=nz, n_r=nr, shape=shape,
                             box=(zmin, zmax, rmax))
                    with ck.guard():
                        dz, dr = (zmax-zmin)/(nz-1), rmax/nr
                        a = deposit(nz, nr, dz, dr, zmin, b.x, b.y, b.xi,
                                    b.q, shape, ruy)
                        m = ((b.xi >= zmin) & (b.xi <= zmax) &
                             (np.hypot(b.x, b.y) <= rmax))
                        ck.step()
                        ck.state(a)
                        ck.close(a[2:-2, 2:-2].sum(), b.q[m].sum(),
                                 'charge on the grid differs from the charge '
                                 'inside of the box', rtol=1e-9)
                        # Centre of charge, away from edges.
                        if (nz, zmin) == (41, -10e-6):
                            z = np.linspace(zmin, zmax, nz)
                            zc = (a[2:-2, 2:-2].sum(axis=1)*z).sum()/a.sum()
                            ck.close(zc, np.average(b.xi, weights=b.w),
                                     'centre of charge', rtol=1e-6,
                                     scale=1e-6)
