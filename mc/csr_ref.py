"""Reference for coherent synchrotron radiation in the 1D (line charge) model.

Direct numerical integration over the retarded emission points of the exact
orbit, including the infinite straight path before the first element, of the
longitudinal field of a smooth line charge moving on the reference orbit:

    E(z) = 1/(4 pi eps0) int ds' K(s') lambda'(z + w(s')),
    w(s') = s' - s + beta R

No histogram, no kernel table, no closed forms, no truncation of the orbit:
nothing in common with the implementation except the physical model.
"""
import numpy as np
import scipy.constants as ct


def orbit(els, s):
    """Position and tangent of the reference orbit at the lengths s."""
    s = np.asarray(s, float)
    x, z = np.zeros_like(s), s.copy()
    tx, tz = np.zeros_like(s), np.ones_like(s)
    s0 = x0 = z0 = a0 = 0.
    for L, th in els:
        m = s > s0
        l = s[m] - s0
        if th:
            k = th/L
            a = a0 + k*l
            x[m] = x0 - (np.cos(a) - np.cos(a0))/k
            z[m] = z0 + (np.sin(a) - np.sin(a0))/k
            x0, z0 = (x0 - (np.cos(a0 + th) - np.cos(a0))/k,
                      z0 + (np.sin(a0 + th) - np.sin(a0))/k)
        else:
            a = np.full_like(l, a0)
            x[m] = x0 + np.sin(a0)*l
            z[m] = z0 + np.cos(a0)*l
            x0, z0 = x0 + np.sin(a0)*L, z0 + np.cos(a0)*L
        tx[m], tz[m] = np.sin(a), np.cos(a)
        a0 += th
        s0 += L
    return x, z, tx, tz


def field(els, s, gamma, dlam, zs, n=5000):
    """Longitudinal field at the positions zs of a bunch centred at s."""
    u = np.geomspace(1e-7, 1e7, n)
    e = 0.
    extra = []
    for L in [0.] + [l for l, _ in els]:
        e += L
        if s - e > 1e-6:
            extra += [(s - e)*(1 - 1e-6), s - e, (s - e)*(1 + 1e-6)]
    u = np.unique(np.concatenate([u, extra]))
    x, z, tx, tz = orbit(els, s - u)
    X, Z, TX, TZ = (v[0] for v in orbit(els, np.array([s])))
    rx, rz = X - x, Z - z
    R = np.hypot(rx, rz)
    g2 = 1/gamma**2
    b = np.sqrt(1 - g2)
    nx, nz = rx/R, rz/R
    w = -u + b*R
    c = nx*tx + nz*tz
    C = nx*TX + nz*TZ
    d = tx*TX + tz*TZ
    K = (b*(c - C) - b*b*(1 - d) - g2)/R - (1 - b*c)/w*g2
    f = K[:, None]*dlam(zs[None, :] + w[:, None])
    return (np.sum(.5*(f[1:] + f[:-1])*np.diff(u)[:, None], 0)
            / (4*np.pi*ct.epsilon_0))


def line_charge(z, q):
    """Derivative of the smoothed line charge (Gaussian kernel estimate)."""
    q = np.asarray(q)
    wn = q/q.sum()
    m = np.sum(wn*z)
    std = np.sqrt(np.sum(wn*(z - m)**2)/(1 - np.sum(wn**2)))
    h = std*len(z)**-.2
    xs = np.linspace(z.min() - 8*h, z.max() + 8*h, 3001)
    y = (xs[:, None] - z[None, :])/h
    tab = np.sum(-y*np.exp(-y*y/2)*q, 1)/(np.sqrt(2*np.pi)*h*h)
    return lambda x: np.interp(x, xs, tab, left=0., right=0.)


def kick(els, s0, s1, gamma, z, q, zq, n_s=60, q_species=-ct.e,
         m_species=ct.m_e):
    """Change of gamma/(beta*gamma) at zq between s0 and s1."""
    dlam = line_charge(z, q)
    ss = s0 + (s1 - s0)*(np.arange(n_s) + .5)/n_s
    E = np.mean([field(els, s, gamma, dlam, zq) for s in ss], 0)
    return q_species*E*(s1 - s0)/(np.sqrt(gamma**2 - 1)*m_species*ct.c**2)
