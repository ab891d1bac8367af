"""Reference for the gridless quasi-static plasma model (Baxevanis-Stupakov).

Written from the equations, with dense linear algebra instead of recurrences.
Normalised units (plasma skin depth, E0, n_p). The column of plasma sheets
moves backwards in xi; for every column

    psi      potential of electrons (sheets) and ions, zero at the edge
    1+psi    = gamma - pz
    B_theta  = a_i r + b_i/r between the sheets; at sheet i the field jumps
               by C_i and curl B by A_i <B> + B_i; b_0 = a_N = 0
    dr/ds    = pr/(1+psi)
    dpr/ds   = gamma psi_r/(1+psi) - B - B_beam - grad(a2)/(2 (1+psi))

The values at the sheets themselves are interpolated between the middle points
to their neighbours. `outside` says what sheets beyond the last node feel from
the sources: 'stale' (their last value inside) or 'zero'. `edge`: the last
Runge-Kutta substep of the last slice, which is exactly on the edge of the
grid, counts as outside; `tie`: a sheet that ends exactly at the edge of the
plasma counts as beyond it; `rim`: a sheet exactly at the last node counts as
outside (rounding decides these in the implementation).
"""
import numpy as np
import scipy.constants as ct

from mc.c08 import weights


def skin_depth(n):
    return ct.c/np.sqrt(n*ct.e**2/(ct.m_e*ct.epsilon_0))


def radial_shape(shape, u, n, corrected):
    """Weights along r, with Ruyten's correction of the density near the axis
    for beam particles."""
    w = weights(shape, u, n, 'r')
    if corrected:
        i = int(np.ceil(u))
        if 1 <= i <= n - 1:
            f = 1/24 if shape == 'linear' else 1/8
            c = -6*f/i
            if shape == 'cubic' and i == 1:
                c = -6*239/(15*128)
            v = u - (i - 1)
            w[i - 1] += c*v*(1 - v)
            w[i] -= c*v*(1 - v)
    return w


def deposit(z, x, y, q, zmin, dz, dr, nz, nr, shape):
    g = np.zeros((nz, nr))
    for zi, xi, yi, qi in zip(z, x, y, q):
        u = (zi - zmin)/dz
        v = np.hypot(xi, yi)/dr - .5
        if 0 <= u <= nz - 1 and v <= nr - .5:
            g += qi*np.outer(weights(shape, u, nz, 'z'),
                             radial_shape(shape, v, nr, True))
    return g


def source_at(F, odd, zmin, dz, dr, r, z, rim=False):
    """Bilinear; odd or even on the axis; None beyond the last node."""
    nz, nr = F.shape
    u = (z - zmin)/dz
    j = min(int(np.floor(u)), nz - 1)
    f = u - j
    row = F[j] if j == nz - 1 else (1 - f)*F[j] + f*F[j + 1]
    out = []
    for ri in r:
        v = ri/dr - .5
        if v > nr - 1 + (-1e-11 if rim else 1e-11):
            out.append(None)
        elif v < 0:
            out.append(row[0]*(2*ri/dr if odd else 1.))
        else:
            k = min(int(np.floor(v)), nr - 2)
            out.append((1 - v + k)*row[k] + (v - k)*row[k + 1])
    return out


class Column:
    def __init__(self, p, F, outside, edge, tie, rim):
        self.p, self.F, self.rim = p, F, rim
        self.outside, self.edge, self.tie = outside, edge, tie
        self.last = {}

    # -- potential ----------------------------------------------------------
    def ions(self, r):
        R, pc = self.R, self.p['pc']
        if r <= R:
            return .25*r**2 + pc*r**4/16
        return (.25*R**2 + pc*R**4/16 +
                self.ion_charge(R)*np.log(r/R))

    def ion_charge(self, r):
        r = min(r, self.R)
        return .5*r**2 + .25*self.p['pc']*r**4

    def psi_at(self, r, rs, qs, n_in):
        """Potential at r with the n_in innermost sheets inside."""
        return np.sum(qs[:n_in]*np.log(r/rs[:n_in])) - self.ions(r)

    def fields(self, z, r, pr, key, last=False):
        """Everything at the sheets, for sorted or unsorted r > 0."""
        p = self.p
        o = np.argsort(r, kind='stable')
        rs, ps, qs = r[o], pr[o], self.q[o]
        N = len(r)
        src = []
        for name, odd in (('a2', False), ('da2', True), ('b0', True)):
            v = source_at(self.F[name], odd, p['zmin'], p['dz'], p['dr'], r,
                          z, self.rim)
            old = self.last.get((key, name), np.zeros(N))
            if self.outside == 'zero':
                old = np.zeros(N)
            v = np.array([w if w is not None and not (self.edge and last)
                          else old[i] for i, w in enumerate(v)])
            self.last[key, name] = v
            src.append(v[o])
        a2, da2, b0 = src
        mid = (rs[1:] + rs[:-1])/2
        left = np.concatenate([[0.], mid])
        right = np.concatenate([mid, [rs[-1] + p['drp']/2]])

        def at_sheet(lv, rv, left, right):
            return lv + (rv - lv)/(right - left)*(rs - left)
        pl = np.array([0.] + [self.psi_at(m, rs, qs, i + 1)
                              for i, m in enumerate(mid)])
        pR = np.array([self.psi_at(m, rs, qs, i + 1)
                       for i, m in enumerate(right)])
        # just inside the left point: same sheets as at the right of the
        # previous one
        edge = max(right[-1], self.R)
        psi = at_sheet(pl, pR, left, right) - self.psi_at(edge, rs, qs, N)
        psi = np.maximum(psi, -.9)
        cq = np.cumsum(qs)
        gl = np.array([0.] + [(cq[i] - self.ion_charge(m))/m
                              for i, m in enumerate(mid)])
        gr = np.array([(cq[i] - self.ion_charge(m))/m
                       for i, m in enumerate(right)])
        dr_psi = at_sheet(gl, gr, left, right)
        flow = np.cumsum(qs*ps/(rs*(1 + psi)))
        fl = np.concatenate([[0.], -flow[:-1]])
        dxi = at_sheet(fl, -flow, left, right) + flow[-1]
        if right[-1] > self.R*(1 + (-1e-12 if self.tie else 1e-12)):
            dxi = dxi - ((cq[-1] - self.ion_charge(self.R)) * ps[-1] /
                         (right[-1]*(1 + psi[-1])))
        dxi = np.clip(dxi, -3, 3)
        h = 1 + psi
        gam = (1 + ps**2 + a2 + h**2)/(2*h)
        pz = (1 + ps**2 + a2 - h**2)/(2*h)
        ab = self.b_coeff(rs, ps, qs, gam, psi, dr_psi, dxi, b0, da2)
        a, b = ab
        rb = np.concatenate([mid, [rs[-1] + p['drp']/4]])
        bl = np.concatenate([[0.], a[1:-1]*mid + b[1:-1]/mid])
        br = a[1:]*rb + b[1:]/rb
        bt = np.clip(at_sheet(bl, br, left, rb), -3, 3)
        inv = np.argsort(o, kind='stable')
        d = dict(a2=a2, da2=da2, b0=b0, psi=psi, dr_psi=dr_psi, dxi=dxi,
                 gamma=gam, pz=pz, bt=bt)
        d = {k: v[inv] for k, v in d.items()}
        d['o'] = o
        return d

    @staticmethod
    def b_coeff(rs, ps, qs, gam, psi, dr_psi, dxi, b0, da2):
        N = len(rs)
        h = 1 + psi
        A = qs/(rs*h)
        B = qs/rs*(-gam*dr_psi/h**2 + ps**2*dr_psi/h**3 + ps*dxi/h**2
                   + ps**2/(rs*h**2) + b0/h + da2/(2*h**2))
        C = qs/rs*(ps**2/h**2 - gam/h + 1)
        n = 2*(N + 1)
        M = np.zeros((n, n))
        v = np.zeros(n)
        M[0, N + 1] = 1.           # b_0 = 0
        M[1, N] = 1.               # a_N = 0
        for i in range(N):
            r = rs[i]
            k = 2 + 2*i
            ai, bi = i, N + 1 + i
            # jump of the field; b scaled by r to keep the system balanced
            M[k, ai + 1], M[k, bi + 1] = r, 1/r
            M[k, ai], M[k, bi] = -r, -1/r
            v[k] = C[i]
            # jump of the curl
            M[k + 1, ai + 1] += 2 - A[i]*r/2
            M[k + 1, ai] += -2 - A[i]*r/2
            M[k + 1, bi + 1] += -A[i]/(2*r)
            M[k + 1, bi] += -A[i]/(2*r)
            v[k + 1] = B[i]
        s = np.linalg.solve(M, v)
        return s[:N + 1], s[N + 1:]


def solve(p, bunches, a2, outside='stale', edge=False,
          tie=False, rim=False):
    """p: n_p, r_max, xi_min, xi_max, n_r, n_xi, ppc, r_max_plasma, pc, shape,
    max_gamma, pusher.  bunches: list of (x, y, xi, q [C]).  a2: |a|^2 felt by
    the plasma, on the grid.  Returns SI fields on the nodes."""
    kp = 1/skin_depth(p['n_p'])
    nr, nz = p['n_r'], p['n_xi']
    dr = p['r_max']*kp/nr
    dz = (p['xi_max'] - p['xi_min'])*kp/(nz - 1)
    zmin = p['xi_min']*kp
    rm = p['r_max'] if p['r_max_plasma'] is None else p['r_max_plasma']
    N = int(np.round(rm*kp/dr*p['ppc']))
    drp = dr/p['ppc']
    q_ = dict(pc=p['pc']/kp**2, dz=dz, dr=dr, zmin=zmin, drp=drp)
    # sources
    mir = np.concatenate([a2[:, ::-1], a2], axis=1)
    da2 = np.gradient(mir, dr, axis=1)[:, nr:]
    b0 = np.zeros((nz, nr))
    rn = (np.arange(nr) + .5)*dr
    for x, y, xi, q in bunches:
        w = q/ct.e*kp**3/(p['n_p']*2*np.pi*dr*dz)
        g = deposit(xi*kp, x*kp, y*kp, w, zmin, dz, dr, nz, nr, p['shape'])
        enc = np.cumsum(g, axis=1) - g/2
        enc[:, 0] -= g[:, 0]/4
        b0 += enc*dr/rn
    col = Column(q_, dict(a2=a2, da2=da2, b0=b0), outside, edge, tie, rim)
    col.R = N*drp
    r = (np.arange(N) + .5)*drp
    col.q = drp*r*(1 + q_['pc']*r**2)
    pr = np.zeros(N)
    psi_g = np.zeros((nz, nr))
    bt_g = np.zeros((nz, nr))
    rho = np.zeros((nz, nr))
    chi = np.zeros((nz, nr))
    hist = []
    low = np.inf
    for i in range(nz - 1, -1, -1):
        z = zmin + i*dz
        f = col.fields(z, r, pr, 0)
        fast = f['gamma'] >= p['max_gamma']
        gam = np.where(fast, 1., f['gamma'])
        pz = np.where(fast, 0., f['pz'])
        pr = np.where(fast, 0., pr)
        low = min(low, f['psi'].min())
        o = f['o']
        rs, qs = r[o], col.q[o]
        s = {k: (v[o] if k != 'o' else v) for k, v in f.items()}
        a, b = col.b_coeff(rs, pr[o], qs, gam[o], s['psi'], s['dr_psi'],
                           s['dxi'], s['b0'], s['da2'])
        far = max(rs[-1], col.R)
        edge = col.psi_at(far, rs, qs, N)
        for j, rj in enumerate(rn):
            k = np.sum(rs < rj)
            psi_g[i, j] = col.psi_at(rj, rs, qs, k) - edge
            bt_g[i, j] = a[k]*rj + b[k]/rj
        w = col.q/(dr*r*(1 - pz/gam))
        wz = weights(p['shape'], i, nz, 'z')
        for rk, wk, gk in zip(r, w, gam):
            v = rk/dr - .5
            if v <= nr - .5:
                c = np.outer(wz, weights(p['shape'], v, nr, 'r'))
                rho += wk*c
                chi += wk/gk*c
        if i == 0:
            break

        def deriv(f, pr, gam):
            h = 1 + f['psi']
            return (pr/h, gam*f['dr_psi']/h - f['bt'] - f['b0']
                    - f['da2']/(2*h))
        k1 = deriv(f, pr, gam)
        if p['pusher'] == 'rk4':
            ks = [k1]
            for n, (c, zz) in enumerate(((.5, z - dz/2), (.5, z - dz/2),
                                         (1., z - dz))):
                R = r + c*dz*ks[-1][0]
                P = pr + c*dz*ks[-1][1]
                sg = np.where(R < 0, -1., 1.)
                g_ = col.fields(zz, R*sg, P*sg, n + 1,
                                i == 1 and n == 2)
                d = deriv(g_, P*sg, g_['gamma'])
                ks.append((d[0]*sg, d[1]*sg))
            r = r + dz*(ks[0][0] + 2*ks[1][0] + 2*ks[2][0] + ks[3][0])/6
            pr = pr + dz*(ks[0][1] + 2*ks[1][1] + 2*ks[2][1] + ks[3][1])/6
            sg = np.where(r < 0, -1., 1.)
        else:
            hist = [k1] + hist[:4]
            c = (1901, -2774, 2616, -1274, 251)
            r = r + dz*sum(ci*h[0] for ci, h in zip(c, hist))/720
            pr = pr + dz*sum(ci*h[1] for ci, h in zip(c, hist))/720
            sg = np.where(r < 0, -1., 1.)
            hist = [(h[0]*sg, h[1]*sg) for h in hist]
        r, pr = r*sg, pr*sg
    E0 = ct.m_e*ct.c**2/ct.e*kp
    dpz, dpr = np.gradient(psi_g, dz, dr, edge_order=2)
    bt = (bt_g + b0)*E0/ct.c
    return dict(e_z=-dpz*E0, b_t=bt, e_r=-dpr*E0 + bt*ct.c, rho=rho, chi=chi,
                lowest_psi=low, E0=E0, r=r)
