"""C07: the wakefields felt by a particle are the linear interpolation of the
values on the r-z grid."""
from itertools import product

import numpy as np
import scipy.constants as ct

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of a particle-position lattice (nodes, '
             'cell fractions, box edges, axis, outside; all azimuthal '
             'quadrants) on every small grid, on the real gather kernels, '
             'against an independent exact-arithmetic interpolation')
BOUNDS = {
    'quick': 'grids n_xi x n_r in {2,3,4,5}^2; positions at multiples of 1/4 '
             'cell from one cell outside each edge; 8 azimuths; grid-to-grid '
             'interpolation between all pairs of 9 grids; every cell of grids '
             'up to 1030 x 520',
    'thorough': 'grids n_xi x n_r in {2..8}^2; positions at multiples of 1/8 '
                'cell from one cell outside each edge; 8 azimuths; '
                'grid-to-grid interpolation between all pairs of 25 grids; '
                'every cell of grids up to 5000 x 10, 4 x 4100, 1030 x 520',
}
ASSUMPTIONS = [
    'grid values are a fixed pseudo-random table, all distinct; linearity in '
    'the grid values is checked separately by scaling and adding tables',
    'grid geometry is chosen so that cell coordinates are exact in binary',
]


def jobs(tier):
    js = []
    sizes = range(2, 6) if tier == 'quick' else range(2, 9)
    frac = 4 if tier == 'quick' else 8
    for nr in sizes:
        js.append(dict(kind='rz', nr=nr, nzs=list(sizes), frac=frac))
        js.append(dict(kind='flat', nr=nr, nzs=list(sizes), frac=frac))
    g = [2, 3, 6] if tier == 'quick' else [2, 3, 4, 6, 9]
    for n in g:
        js.append(dict(kind='regrid', nr=n, ns=g))
    js.append(dict(kind='si'))
    for n in ([(700, 30), (40, 300), (1030, 520)] if tier == 'quick' else
              [(700, 30), (40, 300), (1030, 520), (5000, 10), (4, 4100)]):
        js.append(dict(kind='large', n=n))
    js.append(dict(kind='outside'))
    return js


def weight(j):
    return {'rz': 3, 'flat': 2, 'regrid': 3, 'si': 3, 'large': 4,
            'outside': 1}[j['kind']]


def table(shape, seed):
    """Distinct deterministic values of order one, with both signs."""
    i = np.arange(1, int(np.prod(shape)) + 1)
    v = np.modf(i*0.6180339887498949*(seed + 1) + 0.1*seed)[0]
    return (2*v - 1).reshape(shape)


DIRS = [(1., 0.), (-1., 0.), (0., 1.), (0., -1.), (.6, .8), (-.6, .8),
        (.6, -.8), (-.8, -.6)]


def bilinear(f, u, v, sign):
    """Reference: value at cell coordinates u (z) and v (r) (0 = first node).

    `f` has no guard cells. Below the first node in r, the field is mirrored
    at the axis (half a cell below the first node) with the given sign.
    """
    nz, nr = f.shape

    def col(iz):
        if v >= 0:
            j = min(int(np.floor(v)), nr - 2) if nr > 1 else 0
            a, b = f[iz, j], f[iz, j+1]
            return a + (b - a)*(v - j)
        a, b = sign*f[iz, 0], f[iz, 0]      # nodes at v=-1 and v=0
        return a + (b - a)*(v + 1)
    i = min(int(np.floor(u)), nz - 2)
    a, b = col(i), col(i+1)
    return a + (b - a)*(u - i)


def lattice(nz, nr, frac):
    us = np.arange(-frac, (nz - 1 + 1)*frac + 1)/frac
    vs = np.arange(-frac//2, (nr - 1 + 1)*frac + 1)/frac
    return us, vs


def make_rz(nz, nr, dz, dr, z0):
    from wake_t.fields.rz_wakefield import RZWakefield

    tabs = [table((nz, nr), s) for s in (1, 2, 3)]

    class Table(RZWakefield):
        def _calculate_wakefield(self, bunches):
            g = slice(2, -2)
            # Guard cells hold something else than the neighbouring nodes.
            self.e_r[:] = 7.
            self.e_z[:] = 7.
            self.b_t[:] = 7.
            self.e_r[g, g] = tabs[0]
            self.e_z[g, g] = tabs[1]
            self.b_t[g, g] = tabs[2]
    f = Table(lambda z: 1e23, r_max=nr*dr, xi_min=z0, xi_max=z0 + (nz-1)*dz,
              n_r=nr, n_xi=nz, dz_fields=1.)
    f.update([])
    return f, tabs


def run(job, ck):
    globals()['run_' + job['kind']](job, ck)


def run_rz(job, ck):
    nr = job['nr']
    for nz in job['nzs']:
        for dz, dr, z0 in ((2.**-10, 2.**-12, -3*2.**-10),
                           (2.**-3, 1., 4*2.**-3)):
            ck.begin(n_xi=nz, n_r=nr, dz=dz, dr=dr)
            with ck.guard():
                f, tabs = make_rz(nz, nr, dz, dr, z0)
                us, vs = lattice(nz, nr, job['frac'])
                P = [(u, v, d) for u in us for v in vs for d in DIRS
                     if not (v >= nr - 1 and d[0]*d[1] != 0)]
                x = np.array([(v + .5)*dr*d[0] for u, v, d in P])
                y = np.array([(v + .5)*dr*d[1] for u, v, d in P])
                z = np.array([z0 + u*dz for u, v, d in P])
                want = np.zeros((6, len(P)))
                for k, (u, v, d) in enumerate(P):
                    if u < 0 or u > nz - 1 or v > nr - 1:
                        continue
                    er = bilinear(tabs[0], u, v, -1)
                    ez = bilinear(tabs[1], u, v, 1)
                    bt = bilinear(tabs[2], u, v, -1)
                    if v == -.5:
                        er = bt = 0.
                    want[:, k] = [er*d[0], er*d[1], ez, -bt*d[1], bt*d[0], 0.]
                a = [np.zeros(len(P)) for _ in range(6)]
                f.gather(x, y, z, 0., *a)
                for i, n in enumerate('Ex Ey Ez Bx By Bz'.split()):
                    bad = np.where(~(np.abs(a[i] - want[i]) < 1e-12))[0]
                    if len(bad):
                        k = bad[0]
                        ck.fail('%s is not the interpolated grid value' % n,
                                cell_z=P[k][0], cell_r=P[k][1],
                                direction=P[k][2], got=a[i][k],
                                want=want[i][k], n_bad=len(bad))
                ck.comparisons += 6*len(P)
                ck.step(len(P))
                ck.state(*a)
                # Adds to what is there, one particle does not affect others.
                b = [np.full(len(P), 3.) for _ in range(6)]
                o = np.argsort(np.modf(np.arange(len(P))*0.61803398)[0])
                f.gather(x[o], y[o], z[o], 0., *b)
                for i in range(6):
                    ck.close(b[i] - 3., want[i][o], 'gathering adds to the '
                             'other fields, independently of particle order',
                             rtol=0, atol=1e-12, comp=i)


def run_flat(job, ck):
    from wake_t.particles.interpolation import gather_field_cyl_linear
    nr = job['nr']
    for nz in job['nzs']:
        dz, dr, z0 = 2.**-4, 2.**-6, -1.5
        for s in range(3):
            ck.begin(n_xi=nz, n_r=nr, table=s)
            with ck.guard():
                t = table((nz, nr), s)
                g = np.full((nz+4, nr+4), 5.)
                g[2:-2, 2:-2] = t
                us, vs = lattice(nz, nr, job['frac'])
                P = [(u, v, d) for u in us for v in vs for d in DIRS
                     if not (v >= nr - 1 and d[0]*d[1] != 0)]
                x = np.array([(v + .5)*dr*d[0] for u, v, d in P])
                y = np.array([(v + .5)*dr*d[1] for u, v, d in P])
                z = np.array([z0 + u*dz for u, v, d in P])
                want = np.array([
                    bilinear(t, u, v, 1) if 0 <= u <= nz-1 and v <= nr-1
                    else 0. for u, v, d in P])
                got = gather_field_cyl_linear(
                    g, z0, z0 + (nz-1)*dz, dr/2, dr/2 + (nr-1)*dr, dz, dr,
                    x, y, z)
                ck.step(len(P))
                ck.state(got)
                ck.close(got, want, 'scalar field is not the interpolated '
                         'grid value', rtol=0, atol=1e-12)
    # The sources seen by the plasma (internal: skipped if reorganised).
    try:
        from wake_t.particles.interpolation import \
            gather_sources_qs_baxevanis as gs
    except ImportError:
        return
    for nz in job['nzs']:
        dz, dr, z0 = 2.**-4, 2.**-6, -1.5
        ck.begin(n_xi=nz, n_r=nr, sources=True)
        with ck.guard():
            T = [table((nz, nr), s) for s in (1, 2, 3)]
            G = []
            for t in T:
                g = np.full((nz+4, nr+4), 5.)
                g[2:-2, 2:-2] = t
                G.append(g)
            us, vs = lattice(nz, nr, job['frac'])
            vs = vs[(vs <= nr - 1)]
            for u in us[(us >= 0) & (us <= nz - 1)]:
                out = [np.zeros(len(vs)) for _ in range(3)]
                gs(*G, z0, z0 + (nz-1)*dz, dr/2, dr/2 + (nr-1)*dr, dz, dr,
                   (vs + .5)*dr, z0 + u*dz, *out)
                ck.step(len(vs))
                for o, t, s in zip(out, T, (1, -1, -1)):
                    ck.close(o, np.array([bilinear(t, u, v, s) for v in vs]),
                             'source at the plasma particles', rtol=0,
                             atol=1e-12, cell_z=u)


def run_outside(job, ck):
    """Outside of the grid the plasma has no sources, whatever a particle had
    before (radially; the column itself never leaves the box)."""
    try:
        from wake_t.particles.interpolation import \
            gather_sources_qs_baxevanis as gs
    except ImportError:
        return
    nz, nr = 4, 3
    dz, dr, z0 = 2.**-4, 2.**-6, -1.5
    G = [np.ones((nz+4, nr+4)) for _ in range(3)]
    ck.begin(n_xi=nz, n_r=nr, sources='beyond the last node in r')
    with ck.guard():
        out = [np.full(3, 7.) for _ in range(3)]
        gs(*G, z0, z0 + (nz-1)*dz, dr/2, dr/2 + (nr-1)*dr, dz, dr,
           (nr + np.array([.01, .5, 3.]))*dr, z0, *out)
        ck.step(3)
        ck.expect(not np.any(out), 'a plasma particle outside of the grid '
                  'keeps the sources of its previous position',
                  got=[o.tolist() for o in out])


def run_si(job, ck):
    """Realistic (not exactly representable) grid geometry, on the axis, at
    nodes and between them, away from the edges of the box."""
    for nz, nr, dz, dr, z0 in ((7, 5, 3.3e-7, 7.1e-7, -1.234e-5),
                               (5, 8, 1e-6/3, 1e-6/7, 2.2e-6),
                               (40, 30, 1.7e-6, 0.9e-6, -60e-6)):
        ck.begin(n_xi=nz, n_r=nr, dz=dz, dr=dr)
        with ck.guard():
            f, tabs = make_rz(nz, nr, dz, dr, z0)
            us = np.arange(1, (nz-1)*4)/4 + 1e-3
            vs = np.concatenate([[-.5], np.arange(-1, (nr-1)*4 - 1)/4 + 1e-3,
                                 -.5 + 10.**np.arange(-15, -1)])
            U, V = [a.ravel() for a in np.meshgrid(us, vs, indexing='ij')]
            for d in DIRS:
                x = (V + .5)*dr*d[0]
                y = (V + .5)*dr*d[1]
                z = z0 + U*dz
                er = np.array([bilinear(tabs[0], u, v, -1)
                               for u, v in zip(U, V)])
                ez = np.array([bilinear(tabs[1], u, v, 1)
                               for u, v in zip(U, V)])
                bt = np.array([bilinear(tabs[2], u, v, -1)
                               for u, v in zip(U, V)])
                a = [np.zeros(len(U)) for _ in range(6)]
                f.gather(x, y, z, 0., *a)
                want = [er*d[0], er*d[1], ez, -bt*d[1], bt*d[0], 0*bt]
                ck.step(len(U))
                ck.state(*a)
                for i, n in enumerate('Ex Ey Ez Bx By Bz'.split()):
                    ck.close(a[i], want[i], '%s is not the interpolated grid '
                             'value' % n, rtol=0, atol=1e-9, direction=d)
                # Also in relative terms, however close to the axis.
                near = (V > -.5) & (V < -.49)
                tiny = 10.**np.random.RandomState(1).uniform(
                    -9, -3, near.sum())
                a = [np.zeros(near.sum()) for _ in range(6)]
                f.gather(tiny*dr*d[0], tiny*dr*d[1], z[near], 0., *a)
                # Odd in r: proportional to r below the first node.
                k = 2*tiny*np.array([bilinear(tabs[0], u, 0., -1)
                                     for u in U[near]])
                ck.close(a[0], k*d[0], 'Ex next to the axis', rtol=1e-5,
                         atol=1e-16)
                ck.close(a[1], k*d[1], 'Ey next to the axis', rtol=1e-5,
                         atol=1e-16)


def bilinears(f, u, v, sign):
    nz, nr = f.shape
    f = np.concatenate([sign*f[:, :1], f], axis=1)
    i = np.minimum(np.floor(u).astype(int), nz - 2)
    j = np.minimum(np.floor(v).astype(int) + 1, nr - 1)
    fu, fv = u - i, v + 1 - j
    return ((1 - fu)*((1 - fv)*f[i, j] + fv*f[i, j+1])
            + fu*((1 - fv)*f[i+1, j] + fv*f[i+1, j+1]))


def run_large(job, ck):
    """Grids of a realistic size, every cell, more than 2**16 particles."""
    from wake_t.particles.interpolation import gather_field_cyl_linear
    from wake_t.fields.interpolation import interpolate_rz_field
    nz, nr = job['n']
    dz, dr, z0 = 2.**-24, 2.**-22, -2.**-13
    for du, dv in ((.25, .375), (.625, .75)):
        ck.begin(n_xi=nz, n_r=nr, at=(du, dv))
        with ck.guard():
            f, tabs = make_rz(nz, nr, dz, dr, z0)
            U, V = [a.ravel() for a in np.meshgrid(
                np.arange(nz - 1) + du, np.arange(-1, nr - 1) + dv,
                indexing='ij')]
            U, V = U[V >= -.5], V[V >= -.5]
            k = np.arange(len(U)) % len(DIRS)
            cx, cy = np.array(DIRS)[k].T
            x, y, z = (V + .5)*dr*cx, (V + .5)*dr*cy, z0 + U*dz
            er, ez, bt = [bilinears(t, U, V, sg)
                          for t, sg in zip(tabs, (-1, 1, -1))]
            a = [np.zeros(len(U)) for _ in range(6)]
            f.gather(x, y, z, 0., *a)
            ck.step(len(U))
            ck.state(*a)
            for g, w, n in zip(a, [er*cx, er*cy, ez, -bt*cy, bt*cx, 0*bt],
                               'Ex Ey Ez Bx By Bz'.split()):
                ck.close(g, w, '%s is not the interpolated grid value' % n,
                         rtol=0, atol=1e-9)
            g = np.full((nz+4, nr+4), 5.)
            g[2:-2, 2:-2] = tabs[0]
            got = gather_field_cyl_linear(
                g, z0, z0 + (nz-1)*dz, dr/2, dr/2 + (nr-1)*dr, dz, dr,
                x, y, z)
            ck.close(got, bilinears(tabs[0], U, V, 1), 'scalar field is not '
                     'the interpolated grid value', rtol=0, atol=1e-9)
            # To a finer grid in the same box.
            zn = z0 + dz*(np.arange(nz - 1) + du)
            rn = dr*(.5 + np.arange(nr - 1) + dv)
            out = np.zeros((nz - 1, nr - 1), dtype=complex)
            c = tabs[0] + 1j*tabs[1]
            interpolate_rz_field(c, z0, dr/2, dz, dr, zn, rn, out)
            UU, VV = np.meshgrid(np.arange(nz - 1) + du,
                                 np.arange(nr - 1) + dv, indexing='ij')
            ck.close(out, bilinears(c, UU, VV, 1), 'interpolated to another '
                     'grid', rtol=0, atol=1e-9)


def run_regrid(job, ck):
    """Interpolation between grids (laser envelope <-> plasma grid)."""
    from wake_t.fields.interpolation import interpolate_rz_field
    nr = job['nr']
    for nz in job['ns']:
        for nr2, nz2 in product(job['ns'], repeat=2):
            for cplx in (False, True):
                ck.begin(grid=(nz, nr), new=(nz2, nr2), complex=cplx)
                with ck.guard():
                    z0, z1, rm = -2., 6., 3.
                    dz, dr = (z1-z0)/(nz-1), rm/nr
                    f = table((nz, nr), 1)
                    if cplx:
                        f = f + 1j*table((nz, nr), 2)
                    f0 = f.copy()
                    zn = np.linspace(z0, z1, nz2)
                    drn = rm/nr2
                    rn = np.linspace(drn/2, rm - drn/2, nr2)
                    out = np.full((nz2, nr2), 9., dtype=f.dtype)
                    interpolate_rz_field(f, z0, dr/2, dz, dr, zn, rn, out)
                    want = np.zeros_like(out)
                    for i, z in enumerate(zn):
                        u = (z - z0)/dz
                        a = min(int(np.floor(u)), nz - 2)
                        for j, r in enumerate(rn):
                            v = (r - dr/2)/dr
                            b = min(max(int(np.floor(v)), 0), nr - 2)
                            c = [f[k, b] + (f[k, b+1] - f[k, b])*(v - b)
                                 for k in (a, a+1)]
                            want[i, j] = c[0] + (c[1] - c[0])*(u - a)
                    ck.step(out.size)
                    ck.state(np.abs(out))
                    ck.close(out, want, 'interpolated to another grid',
                             rtol=0, atol=1e-12)
                    ck.same(f, f0, 'interpolation changes the original')
                    if (nz, nr) == (nz2, nr2):
                        ck.close(out, f, 'same grid is not the identity',
                                 rtol=0, atol=1e-13)
