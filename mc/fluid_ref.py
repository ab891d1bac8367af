"""Reference for the 1D nonlinear cold-fluid wake on every radial slice.

    psi'' = (1 + a^2) / (2 (1+psi)^2) - n_b - 1/2      (from the front back)
    E_z = -dpsi/dxi,  W_r = E_r - B = -dpsi/dr
    1/r d(r B)/dr = dE_z/dxi - n v_z + n_b

with a^2 the (cycle-averaged) square of the laser strength, n_b the charge
density of the beam in units of e n_p. Fourth-order Runge-Kutta along xi with
the envelope interpolated linearly between the nodes and n_b constant in a
step.
"""
import numpy as np
import scipy.constants as ct

from mc.qs_ref import skin_depth, deposit


def solve(p, bunches, a, beam_wakefields):
    """bunches: (x, y, xi, q [C]); a: envelope felt by the plasma."""
    kp = 1/skin_depth(p['n_p'])
    nr, nz = p['n_r'], p['n_xi']
    dr = p['r_max']*kp/nr
    dz = (p['xi_max'] - p['xi_min'])*kp/(nz - 1)
    r = (np.arange(nr) + .5)*dr
    nb = np.zeros((nz, nr))
    for x, y, xi, q in bunches:
        g = deposit(xi*kp, x*kp, y*kp, q/ct.e, p['xi_min']*kp, dz, dr, nz,
                    nr, p['shape'])
        vol = 2*np.pi*r*dr*dz/kp**3
        nb += g/(vol*p['n_p'])
    psi = np.zeros((nz, nr))
    for j in range(nr):
        s = np.array([0., 0.])
        for i in range(nz - 1, 0, -1):
            n = nb[i, j] if beam_wakefields else 0.

            def rhs(s, f):
                ai = (1 - f)*a[i, j] + f*a[i - 1, j]
                return np.array([s[1], (1 + ai**2)/(2*(1 + s[0])**2)
                                 - n - .5])
            k1 = rhs(s, 0.)
            k2 = rhs(s + dz/2*k1, .5)
            k3 = rhs(s + dz/2*k2, .5)
            k4 = rhs(s + dz*k3, 1.)
            s = s + dz*(k1 + 2*k2 + 2*k3 + k4)/6
            psi[i - 1, j] = s[0]
    ez = -np.gradient(psi, dz, axis=0, edge_order=2)
    wr = -np.gradient(psi, dr, axis=1, edge_order=2)
    h = 1 + psi
    gam = (1 + a**2 + h**2)/(2*h)
    n = gam/h
    vz = (1 + a**2 - h**2)/(1 + a**2 + h**2)
    cur = np.gradient(ez, dz, axis=0, edge_order=2) - n*vz + nb
    f = cur*r
    B = (np.cumsum(f, axis=1) - f/2)*dr/r
    E0 = ct.m_e*ct.c**2/ct.e*kp
    return dict(e_z=ez*E0, e_r=(wr + B)*E0, b_t=B*E0/ct.c, rho=n,
                chi=n/gam, E0=E0, psi=psi)
