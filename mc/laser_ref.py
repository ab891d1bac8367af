"""Reference laser-envelope solver: the published scheme, with full matrices.

Envelope equation (lengths in units of the plasma skin depth)

    [lap_perp + 2i k0/kp d/dt + 2 d2/(dz dt) - d2/dt2] a = chi a

discretised with cell-centred radial nodes (regular on axis, zero outside),
one-sided second-order differences along z (from the front) of the envelope
without the phase of the on-axis envelope, time-averaged Laplacian and chi.
First step: forward difference in time, later steps: centred.
"""
import numpy as np
import scipy.constants as ct


def laplacian(nr, dr):
    k = np.arange(nr)
    M = np.diag(np.full(nr, -2.)).astype(complex)
    M += np.diag((1 + 1/(2*(k[:-1] + .5))), 1)
    M += np.diag((1 - 1/(2*(k[1:] + .5))), -1)
    return M/dr**2


def step(a, a_old, chi, k0, kp, p, centered):
    """One substep; a, a_old have two additional rows (ahead of the grid)."""
    nz, nr = p['nz'], p['nr']
    dz = (p['zmax'] - p['zmin'])*kp/(nz - 1)
    dr = p['rmax']*kp/nr
    dt = p['dt']*ct.c*kp
    lap = laplacian(nr, dr)
    one = np.eye(nr)
    th = np.zeros(nz + 2)
    if p['use_phase']:
        th = np.unwrap(np.angle(a[:, 0]))
    base = a_old if centered else a
    span = 2*dt if centered else dt
    new = np.zeros_like(a)
    for j in range(nz - 1, -1, -1):
        t1 = th[j + 1] - th[j]
        t2 = th[j + 2] - th[j]
        D = (4*t1 - t2)/(2*dz)
        # d/dz (of a exp(-i theta)) times exp(i theta), plus i D a.
        # unknown x = new[j]; known neighbours:
        nb = (4*np.exp(-1j*t1)*(new[j + 1] - base[j + 1])
              - np.exp(-1j*t2)*(new[j + 2] - base[j + 2]))/(2*dz)
        X = np.diag(chi[j])
        # (lap - chi)(x + base)/2 + 2i k0/kp (x-base)/span
        #   + 2/span [ -3/(2dz)(x-base) + nb + i D (x-base) ] - d2x/dt2 = 0
        lin = (2j*k0/kp - 3/dz + 2j*D)/span
        A = .5*(lap - X) + lin*one
        rhs = -.5*(lap - X) @ base[j] + lin*base[j] - 2/span*nb
        if centered:
            A = A - one/dt**2
            rhs = rhs - 2*a[j]/dt**2 + base[j]/dt**2
        new[j] = np.linalg.solve(A, rhs)
    return new, a.copy()


def bilinear(f, z0, r0, dz, dr, zn, rn):
    """Bilinear, linearly extrapolated beyond the first and last radius."""
    nz, nr = f.shape
    out = np.zeros((len(zn), len(rn)), dtype=f.dtype)
    for i, z in enumerate(zn):
        u = (z - z0)/dz
        k = min(max(int(np.floor(u + 1e-9)), 0), nz - 2)
        row = f[k]*(k + 1 - u) + f[k + 1]*(u - k)
        for j, r in enumerate(rn):
            v = (r - r0)/dr
            m = min(max(int(np.floor(v)), 0), nr - 2)
            out[i, j] = row[m]*(m + 1 - v) + row[m + 1]*(v - m)
    return out


def axes(p, nz, nr):
    dr = p['rmax']/nr
    return (np.linspace(p['zmin'], p['zmax'], nz),
            (np.arange(nr) + .5)*dr,
            (p['zmax'] - p['zmin'])/(nz - 1), dr)


class Model:
    """State machine of a laser pulse."""

    def __init__(self, envelope, l_0):
        self.envelope, self.k0 = envelope, 2*np.pi/l_0
        self.p = self.grid = self.a = self.out = None
        self.n = 0

    def set(self, zmin, zmax, rmax, nz, nr, dt, nt=1, sz=None, sr=None,
            use_phase=True):
        if nt < 1:
            return ValueError
        p = dict(zmin=zmin, zmax=zmax, rmax=rmax, nz=sz or nz, nr=sr or nr,
                 nt=nt, dt=dt/nt, use_phase=use_phase)
        if self.a is not None:
            if any(p[k] != self.p[k]
                   for k in ('zmin', 'zmax', 'rmax', 'nz', 'nr')):
                return ValueError
            if p['dt'] != self.p['dt']:
                self.n = 0
        self.p, self.grid = p, (nz, nr)

    def init(self):
        if self.p is None:
            return ValueError
        if self.a is None:
            z, r, _, _ = axes(self.p, self.p['nz'], self.p['nr'])
            self.a = np.zeros((len(z) + 2, len(r)), complex)
            self.a[:-2] = self.envelope(*np.meshgrid(z, r, indexing='ij'), 0.)
            self.a_old = np.zeros_like(self.a)
        self.output()

    def output(self):
        if self.grid == (self.p['nz'], self.p['nr']):
            self.out = self.a[:-2].copy()
        else:
            z, r, dz, dr = axes(self.p, self.p['nz'], self.p['nr'])
            zn, rn, _, _ = axes(self.p, *self.grid)
            self.out = bilinear(self.a[:-2], z[0], r[0], dz, dr, zn, rn)

    def evolve(self, chi, n_p):
        kp = np.sqrt(ct.e**2*n_p/(ct.m_e*ct.epsilon_0))/ct.c
        if self.grid != (self.p['nz'], self.p['nr']):
            z, r, dz, dr = axes(self.p, *self.grid)
            zn, rn, _, _ = axes(self.p, self.p['nz'], self.p['nr'])
            chi = bilinear(chi, z[0], r[0], dz, dr, zn, rn)
        for _ in range(self.p['nt']):
            self.a, self.a_old = step(self.a, self.a_old, chi, self.k0, kp,
                                      self.p, self.n > 0)
        self.n += 1
        self.output()
