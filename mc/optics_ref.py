"""Reference second-order transfer map of a combined-function magnet.

The generator is written down from the Hamiltonian of the reference frame,

  H = pt/b - (1+h x) sqrt(1 + 2 pt/b + pt^2 - px^2 - py^2)
      + h x + (h^2 + k1) x^2/2 - k1 y^2/2
      + (k2 + 2 h k1) x^3/6 - (k2 + h k1) x y^2/2,

expanded to third order; the map is the exact flow of that generator
truncated at second order (Carleman linearisation: 6 coordinates + their 21
products form a closed linear system), from a matrix exponential.
Coordinates: (x, x', y, y', tau, pt) with tau = c (t - t_ref).
"""
import numpy as np
from scipy.linalg import expm

PAIRS = [(i, j) for i in range(6) for j in range(i, 6)]
IDX = {p: 6 + k for k, p in enumerate(PAIRS)}


def generator(h, k1, k2, gamma):
    b = np.sqrt(1 - 1/gamma**2)
    ig2 = 1/gamma**2
    A = np.zeros((6, 6))
    A[0, 1] = 1.
    A[1, 0] = -(k1 + h*h)
    A[1, 5] = h/b
    A[2, 3] = 1.
    A[3, 2] = k1
    # The code's fifth coordinate is such that it grows with h x.
    A[4, 0] = h/b
    A[4, 5] = -ig2/b**2
    # second-order terms: dq/dz = dH3/dp, dp/dz = -dH3/dq
    # H3 = -pt pp^2/(2b) - pt^3 ig2/(2 b^3) + h x (pp^2 + pt^2 ig2/b^2)/2
    #      + khk x^3/6 - (k2 + h k1) x y^2/2
    khk = k2 + 2*h*k1
    B = {}

    def add(i, j, k, v):
        j, k = min(j, k), max(j, k)
        B[(i, j, k)] = B.get((i, j, k), 0.) + v
    add(0, 1, 5, -1/b)
    add(0, 0, 1, h)
    add(1, 1, 1, -h/2)
    add(1, 3, 3, -h/2)
    add(1, 5, 5, -h*ig2/b**2/2)
    add(1, 0, 0, -khk/2)
    add(1, 2, 2, (k2 + h*k1)/2)
    add(2, 3, 5, -1/b)
    add(2, 0, 3, h)
    add(3, 0, 2, (k2 + h*k1))
    # fifth: minus dH3/dpt
    add(4, 1, 1, 1/(2*b))
    add(4, 3, 3, 1/(2*b))
    add(4, 5, 5, 3*ig2/(2*b**3))
    add(4, 0, 5, -h*ig2/b**2)
    return A, B


def carleman(h, k1, k2, gamma, z):
    A, B = generator(h, k1, k2, gamma)
    G = np.zeros((27, 27))
    G[:6, :6] = A
    for (i, j, k), v in B.items():
        G[i, IDX[(j, k)]] += v
    for (i, j), r in IDX.items():
        for k in range(6):
            for a, other in ((A[i, k], j), (A[j, k], i)):
                if a:
                    p = (min(k, other), max(k, other))
                    G[r, IDX[p]] += a
    M = expm(G*z)
    R = M[:6, :6]
    T = np.zeros((6, 6, 6))
    for (j, k), c in IDX.items():
        T[:, j, k] = M[:6, c]
    return R, T


def extract(track, z, L, theta, k1, k2, gamma, order, s=1.):
    """(R, T upper-triangular) of a quadratic map given as a function on
    6 x N arrays, obtained only by applying it."""
    vs = []
    e = np.eye(6)*s
    for i in range(6):
        vs += [e[i], -e[i]]
    prs = [(i, j) for i in range(6) for j in range(i+1, 6)]
    for i, j in prs:
        vs.append(e[i] + e[j])
    out = track(np.array(vs).T, z, L, theta, k1, k2, gamma, order)
    R = np.zeros((6, 6))
    T = np.zeros((6, 6, 6))
    for i in range(6):
        p, m = out[:, 2*i], out[:, 2*i+1]
        R[:, i] = (p - m)/2/s
        T[:, i, i] = (p + m)/2/s**2
    for n, (i, j) in enumerate(prs):
        T[:, i, j] = (out[:, 12+n]/s**2 - R[:, i]/s - R[:, j]/s - T[:, i, i] -
                      T[:, j, j])
    return R, T
