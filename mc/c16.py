"""C16: laser pulses have the profile that their parameters say."""
from itertools import product
from math import factorial

import numpy as np
import scipy.constants as ct

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of a lattice of pulse parameters, '
             'propagation distances and positions (and of all sums of pulses '
             'up to a depth) on the real profiles, against closed forms in a '
             'different representation, the paraxial wave equation and '
             'energy/orthogonality integrals')
BOUNDS = {
    'quick': '5 profile families x 2 strengths x 3 waists x 2 durations x 3 '
             'foci x 2 wavelengths x 3 phases, at 5 distances; Laguerre orders '
             '0-4, flatness 0-8; all sums of <=3 of 5 pulses; pairs of extreme values of the '
             'parameters, wavelengths that differ by 1e-6 to 1',
    'thorough': 'as quick with 4 waists, 3 durations, 5 foci, orders 0-8, '
                'flatness 0-12; all sums of <=4 pulses',
}
ASSUMPTIONS = ['lasy is not installed: pulses from openPMD files are not '
               'covered']
ENV = {'NUMBA_DISABLE_JIT': '1'}


def jobs(tier):
    q = tier == 'quick'
    js = []
    P = [0, 1, 2, 3, 4] if q else list(range(9))
    N = [0, 1, 2, 3, 6, 8] if q else list(range(13))
    ws = [5e-6, 20e-6, 60e-6] if q else [3e-6, 8e-6, 20e-6, 60e-6]
    taus = [10e-15, 60e-15] if q else [8e-15, 30e-15, 200e-15]
    foci = [0., -1e-3, 2e-3] if q else [0., -1e-3, 2e-3, 2e-2, -1e-5]
    for w in ws:
        for f in foci:
            js.append(dict(kind='profile', w=w, foc=f, taus=taus, P=P, N=N))
    js.append(dict(kind='sums', depth=3 if q else 4))
    js.append(dict(kind='misc'))
    js.append(dict(kind='extreme'))
    return js


def weight(j):
    return 3


def run(job, ck):
    {'profile': profile, 'sums': sums, 'misc': misc,
     'extreme': extreme}[job['kind']](ck, job)


def gauss(xi, r, zp, xi_c, a0, w0, tau, foc, l0, cep):
    """Polar form: size, curvature and Gouy phase."""
    zr = np.pi*w0**2/l0
    u = (xi - xi_c + zp - foc)/zr
    w = w0*np.sqrt(1 + u*u)
    amp = a0*w0/w*np.exp(-r**2/w**2)*2.**(-2*((xi - xi_c)/(tau*ct.c))**2)
    return amp*np.exp(1j*(-cep - np.arctan(u) + u*r**2/w**2))


def laguerre(p, x):
    """By its recurrence."""
    a, b = np.ones_like(x), 1 - x
    if p == 0:
        return a
    for n in range(1, p):
        a, b = b, ((2*n + 1 - x)*b - n*a)/(n + 1)
    return b


def lg(xi, r, zp, xi_c, a0, w0, tau, foc, l0, cep, p):
    zr = np.pi*w0**2/l0
    u = (xi - xi_c + zp - foc)/zr
    w = w0*np.sqrt(1 + u*u)
    return (gauss(xi, r, zp, xi_c, a0, w0, tau, foc, l0, cep)
            * laguerre(p, 2*r**2/w**2)*np.exp(-2j*p*np.arctan(u)))


def flat(xi, r, zp, xi_c, a0, w0, tau, foc, l0, cep, N):
    """Focused flattened Gaussian: its modes at the waist, propagated."""
    wf = w0*np.sqrt(N + 1)
    out = 0.
    for n in range(N + 1):
        c = sum(factorial(m)/(factorial(n)*factorial(m - n))/2.**m
                for m in range(n, N + 1))/(N + 1)
        out = out + lg(xi, r, zp, xi_c, c*a0, wf, tau, foc, l0, cep, n)
    return out


def profile(ck, job):
    from wake_t import (GaussianPulse, LaguerreGaussPulse,
                        FlattenedGaussianPulse)
    w0, foc = job['w'], job['foc']
    for a0, tau, l0, cep, xi_c in product(
            [.3, 4.], job['taus'], [.8e-6, 1.03e-6], [0., .7, -2.],
            [0., 30e-6]):
        zr = np.pi*w0**2/l0
        kw = dict(tau=tau, z_foc=foc, l_0=l0, cep_phase=cep)
        fam = [('gauss', GaussianPulse(xi_c, a0, w0, **kw), gauss, ())]
        fam += [('laguerre%d' % p, LaguerreGaussPulse(
            xi_c, p, a0, w0, **kw), lg, (p,)) for p in job['P']]
        fam += [('flat%d' % N, FlattenedGaussianPulse(
            xi_c, a0, w0, N=N, **kw), flat, (N,)) for N in job['N']]
        fam += [('flat~3', FlattenedGaussianPulse(
            xi_c, a0, w0, N=N, **kw), flat, (3,))
                for N in (3.0000000001, 2.9999999999)]
        for name, pulse, ref, extra in fam:
            ck.begin(pulse=name, a0=a0, w0=w0, tau=tau, z_foc=foc, l0=l0,
                     cep=cep, xi_c=xi_c)
            with ck.guard('profile raised'):
                one(ck, pulse, ref, (xi_c, a0, w0, tau, foc, l0, cep) + extra,
                    zr, xi_c, w0, tau, foc, l0)
                ck.state(name, a0, w0, tau, foc, l0, cep, xi_c)


def extreme(ck, job):
    """Far ends of every parameter, one or two at a time."""
    from wake_t import (GaussianPulse, LaguerreGaussPulse,
                        FlattenedGaussianPulse)
    base = dict(xi_c=0., a0=1., w0=2e-5, tau=3e-14, foc=0., l0=.8e-6, cep=0.)
    ends = dict(xi_c=[-2e-3, 1e-2], a0=[1e-6, 60.], w0=[1.5e-6, 2e-3],
                tau=[2e-15, 2e-12], foc=[-1., 5.], l0=[5e-8, 1e-5],
                cep=[1e-4, 40.])
    cases = [base]
    for k in ends:
        for v in ends[k]:
            cases.append(dict(base, **{k: v}))
            for k2 in ends:
                if k2 > k:
                    cases += [dict(base, **{k: v, k2: u}) for u in ends[k2]]
    for c in cases:
        kw = dict(tau=c['tau'], z_foc=c['foc'], l_0=c['l0'],
                  cep_phase=c['cep'])
        zr = np.pi*c['w0']**2/c['l0']
        args = tuple(c[k] for k in ('xi_c', 'a0', 'w0', 'tau', 'foc', 'l0',
                                    'cep'))
        for name, mk, ref, ex in [
                ('gauss', lambda: GaussianPulse(
                    c['xi_c'], c['a0'], c['w0'], **kw), gauss, ()),
                ('laguerre12', lambda: LaguerreGaussPulse(
                    c['xi_c'], 12, c['a0'], c['w0'], **kw), lg, (12,)),
                ('flat16', lambda: FlattenedGaussianPulse(
                    c['xi_c'], c['a0'], c['w0'], N=16, **kw), flat, (16,))]:
            ck.begin(pulse=name, **c)
            with ck.guard('profile raised'):
                pulse = mk()
                L = c['tau']*ct.c
                for zp in (0., c['foc'], c['foc'] + zr, 3.):
                    for nz, nr in ((5, 4), (1, 1), (260, 3), (2, 270)):
                        w = c['w0']*np.sqrt(1 + ((zp - c['foc'])/zr)**2)
                        Z, Rr = np.meshgrid(
                            c['xi_c'] + L*np.linspace(-1., .9, nz),
                            w*np.linspace(0., 2., nr), indexing='ij')
                        got = pulse.envelope_function(Z, Rr, zp)
                        want = ref(Z, Rr, zp, *args, *ex)
                        ck.step()
                        u = abs(zp - c['foc'])/zr
                        ck.close(got, want, 'profile', rtol=0,
                                 atol=(1e-9 + 1e-13*u)*abs(want).max(),
                                 distance=zp, grid=(nz, nr))
                ck.state(name, repr(c))


def one(ck, pulse, ref, args, zr, xi_c, w0, tau, foc, l0):
    a0 = args[1]
    L = tau*ct.c
    dist = [0., foc, foc + zr, foc - .5*zr, foc + 20*zr]
    xi = xi_c + L*np.array([-1., -.5, 0., .25, .5])
    for zp in dist:
        w = w0*np.sqrt(1 + ((zp - foc)/zr)**2)
        r = w*np.array([0., .2, .7, 1.1, 2.])
        Z, Rr = np.meshgrid(xi, r, indexing='ij')
        keep = Z.copy(), Rr.copy()
        got = pulse.envelope_function(Z, Rr, zp)
        ck.step()
        ck.same(Z, keep[0], 'input is only read')
        ck.same(Rr, keep[1], 'input is only read')
        want = ref(Z, Rr, zp, *args)
        ck.close(got, want, 'profile', rtol=0, atol=1e-9*abs(want).max(),
                 distance=zp)
    # Peak and duration (full width at half maximum of the intensity) at focus.
    o = np.zeros((1, 1))
    peak = abs(pulse.envelope_function(o + xi_c, o, foc))
    ck.close(peak, a0 + o, 'peak at the focus', rtol=1e-9)
    for s in (-.5, .5):
        # keep the same plane: compensate the position along the pulse.
        h = abs(pulse.envelope_function(o + xi_c + s*L, o, foc - s*L))
        ck.close(h**2, .5*peak**2, 'duration', rtol=1e-9)
    # Paraxial wave equation, by finite differences.
    k0 = 2*np.pi/l0
    for zp in (foc + .3*zr, foc - zr):
        hr, hz = 2e-3*w0, 1e-3*zr
        rr = w0*np.array([.3, .8, 1.7])[None, :]

        def f(dr, dz):
            return pulse.envelope_function(xi_c + 0*rr, rr + dr, zp + dz)
        lap = ((f(hr, 0) - 2*f(0, 0) + f(-hr, 0))/hr**2
               + (f(hr, 0) - f(-hr, 0))/(2*hr)/rr)
        dz = (f(0, hz) - f(0, -hz))/(2*hz)
        res = lap + 2j*k0*dz
        ck.close(abs(res), 0*abs(res), 'paraxial wave equation', rtol=0,
                 atol=4e-3*(abs(lap).max() + 4*a0/w0**2))


def sums(ck, job):
    from wake_t import (GaussianPulse, LaguerreGaussPulse,
                        FlattenedGaussianPulse)

    def parts(pol='linear'):
        k = dict(polarization=pol)
        return [GaussianPulse(0., 1., 1e-5, 3e-14, **k),
                GaussianPulse(-2e-5, .4, 3e-5, 2e-14, z_foc=1e-3,
                              cep_phase=1., **k),
                LaguerreGaussPulse(1e-5, 2, .5, 1e-5, 3e-14, **k),
                FlattenedGaussianPulse(0., .7, 2e-5, 4e-14, N=4, **k),
                GaussianPulse(5e-6, -1., 1e-5, 3e-14, **k)]
    xi, r = np.meshgrid(np.linspace(-4e-5, 4e-5, 9), np.linspace(0, 4e-5, 7),
                        indexing='ij')
    for pol in ('linear', 'circular'):
        P = parts(pol)
        for n in range(2, job['depth'] + 1):
            for idx in product(range(len(P)), repeat=n):
                ck.begin(sum=idx, polarization=pol)
                with ck.guard('sum raised'):
                    left = P[idx[0]]
                    for i in idx[1:]:
                        left = left + P[i]
                    right = P[idx[-1]]
                    for i in idx[-2::-1]:
                        right = P[i] + right
                    for zp in (0., 2e-3):
                        want = sum(P[i].envelope_function(xi, r, zp)
                                   for i in idx)
                        for s in (left, right):
                            ck.step()
                            ck.close(s.envelope_function(xi, r, zp), want,
                                     'sum of pulses', rtol=0,
                                     atol=1e-12*(abs(want).max() + 1.))
                    ck.expect(left.polarization == pol, 'polarization')
                    ck.expect(left.l_0 == P[0].l_0, 'wavelength')
                    ck.state(pol, idx)
    for d, flip, deep in product((1e-6, 1e-4, 3e-3, -1e-6, -1e-3, 1.),
                                 (False, True), (False, True)):
        ck.begin(wavelengths=d, flip=flip, deep=deep)
        A, B = [GaussianPulse(0., 1., 1e-5, 3e-14, l_0=l)
                for l in (.8e-6, .8e-6*(1 + d))]
        if deep:
            A, B = A + A, B + B
        if flip:
            A, B = B, A
        ck.step()
        ck.raises(ValueError, lambda: A + B, 'different wavelengths')
        with ck.guard('sum raised'):
            ck.expect((B + B).l_0 == B.l_0, 'wavelength of a sum')
    ck.begin(incompatible=True)
    A = GaussianPulse(0., 1., 1e-5, 3e-14)
    ck.raises(ValueError, lambda: A + GaussianPulse(0., 1., 1e-5, 3e-14,
                                                    l_0=.4e-6),
              'different wavelengths')
    ck.raises(ValueError, lambda: A + GaussianPulse(
        0., 1., 1e-5, 3e-14, polarization='circular'), 'polarizations')


def misc(ck, job):
    """Energy, orthogonality and the far field."""
    from wake_t import LaguerreGaussPulse, FlattenedGaussianPulse
    w0, l0 = 12e-6, .8e-6
    zr = np.pi*w0**2/l0
    n = 4000
    for zp in (0., .7*zr, -3*zr):
        w = w0*np.sqrt(1 + (zp/zr)**2)
        r = (np.arange(n) + .5)*(6*w/n)
        a = [LaguerreGaussPulse(0., p, 1., w0, 3e-14, l_0=l0)
             .envelope_function(0*r[None, :], r[None, :], zp)[0]
             for p in range(5)]
        for i, j in product(range(5), repeat=2):
            ck.begin(orders=[i, j], distance=zp)
            v = np.sum(a[i]*np.conj(a[j])*r)*(r[1] - r[0])/(w0**2/4)
            ck.step()
            ck.close(abs(v - (i == j)), 0., 'orthonormal modes', rtol=0,
                     atol=1e-4)
            ck.state(i, j, zp)
    for N in range(9):
        ck.begin(far_field=N)
        wf = w0*np.sqrt(N + 1)
        zrf = np.pi*wf**2/l0
        z = 300*zrf
        w = wf*np.sqrt(1 + (z/zrf)**2)
        r = np.linspace(0, 3*w, 60)[None, :]
        a = abs(FlattenedGaussianPulse(0., 1., w0, 3e-14, N=N, l_0=l0)
                .envelope_function(0*r, r, z))
        s = (r/w)**2
        want = np.exp(-s)*sum(s**k/factorial(k) for k in range(N + 1))
        ck.close(a/a[0, 0], want, 'flattened far field', rtol=0, atol=2e-3)
        ck.state('far', N)
