"""C10: transfer maps are the flow of the magnet's Hamiltonian."""
from itertools import product

import numpy as np

from mc import optics_ref as O

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of the magnet-parameter lattice on the '
             'real transfer maps (R and T extracted by applying the map), '
             'against an independent model: the flow of the third-order '
             'Hamiltonian (Carleman linearisation, matrix exponential); '
             'composition, inversion, symplecticity and order-1 checked for '
             'every point')
BOUNDS = {
    'quick': 'length 3 (and 5 extreme ones, 0 to 400 m) x angle 8 x k1 19 (incl. k1=-h^2 and -h^2/5 and values '
             'down to 1e-16 close to these and to 0) x k2 3 x '
             'gamma 3 x position 5 (incl. 0 and negative), orders 1 and 2; '
             'bunch sizes 1..8 and up to 20001',
    'thorough': 'length 5 (and 5 extreme ones, 0 to 400 m) x angle 12 x k1 25 (incl. k1=-h^2 and -h^2/5 and '
                'values down to 1e-16 close to these and to 0) x k2 5 '
                'x gamma 5 x position 7, orders 1 and 2; bunch sizes 1..8 and up '
                'to 20001',
}
ASSUMPTIONS = ['sector magnets with the field expansion of the documented '
               'origin of the maps (Ocelot/MAD conventions)']
ENV = {'NUMBA_DISABLE_JIT': '1'}


def lattice(tier):
    if tier == 'quick':
        return dict(L=(.1, .5, 1.7), th=(0., .05, -.05, .5, -1.2, 1e-3,
                                         -3e-5, 1e-7),
                    k1=(0., .3, 5., -5., 'a', 'b', -.05, 'c', 'd', 'e', 1e-4,
                        -1e-6, 1e-9, 'f', 'g', 'h', 4e-16, -1e-13, -.01),
                    k2=(0., 20., -3.),
                    g=(2., 200., 1e4), f=(0., 1/3, 1., -1., .75))
    return dict(L=(.1, .5, 1., 1.7, 3.), th=(0., .03, .05, -.05, .2, -.2, .5,
                                             -1.2, 3., 1e-3, -3e-5, 1e-7),
                k1=(0., .3, -.3, 5., -5., 'a', 'b', -.05, 1., -1., 12., -12.,
                    .02, 'c', 'd', 'e', 'f', 'g', 'h', 1e-4, -1e-6, 1e-9,
                    4e-16, -1e-13, -.01),
                k2=(0., 20., -3., 1., -40.), g=(1.5, 2., 30., 200., 1e4),
                f=(0., 1/3, 1., -1., .75, .1, -.4))


def jobs(tier):
    lat = lattice(tier)
    return [dict(kind='map', tier=tier, L=L, th=th)
            for L in lat['L'] for th in lat['th']] + [
        dict(kind='map', tier=tier, L=L, th=th, k1=k1)
        for L, k1 in SIZES.items() for th in (0., 1e-5, -1e-3*min(L, 1.))
    ] + [dict(kind='shape')]


# Very short and very long magnets, with strengths of that scale.
SIZES = {1e-6: (0., 5., -1e3), 1e-4: (0., 5., -1e3, 1e5), 2e-3: (0., -40.,
         900.), 30.: (0., 1e-3, -5e-3, 1e-7), 400.: (0., 1e-6, -1e-5),
         1.2: (60., -60., -25.)}


def weight(j):
    return 2


def value_k1(k1, h):
    # kx = 0, the resonance kx = 2 ky, and their neighbourhoods
    return {'a': -h*h, 'b': -h*h/5, 'c': -h*h/5*(1 + 5e-4),
            'd': -h*h/5*(1 - 1e-5), 'e': -h*h*(1 - 1e-2),
            'f': -h*h*(1 + 1e-1), 'g': -h*h*(1 + 2**-52),
            'h': -h*h*(1 - 1e-7)}.get(k1, k1)


S6 = np.zeros((6, 6))
for _i in (0, 2, 4):
    S6[_i, _i+1], S6[_i+1, _i] = 1., -1.
# fifth coordinate has the opposite sign of the canonical one
S6[4:, 4:] *= -1.


def compose(Ra, Ta, Rb, Tb):
    """Map a followed by map b, truncated at second order."""
    R = Rb @ Ra
    T = np.einsum('ij,jkl->ikl', Rb, Ta)
    T = T + np.einsum('ijk,jl,km->ilm', Tb, Ra, Ra)
    return R, fold(T)


def fold(T):
    o = np.zeros_like(T)
    for j in range(6):
        for k in range(6):
            o[:, min(j, k), max(j, k)] += T[:, j, k]
    return o


def run(job, ck):
    try:
        from wake_t.particles.push.transfer_matrix import \
            track_with_transfer_map as track
    except ImportError:
        track = element_track
    amp = 1. if track is not element_track else 1e-3
    tol = 1. if amp == 1. else 1e4
    if job['kind'] == 'shape':
        return shape(ck, track, amp)
    lat = lattice(job['tier'])
    L, th = job['L'], job['th']
    h = th/L
    done = set()
    for k1, k2, g in product(job.get('k1', lat['k1']), lat['k2'], lat['g']):
        if amp != 1. and isinstance(k1, str):
            continue    # an element of rounded length misses the limit
        k1 = value_k1(k1, h)
        k2 = k2/max(L/3., 1.)**2
        if (k1, k2, g) in done:
            continue
        done.add((k1, k2, g))
        maps = {}
        for f in lat['f']:
            z = f*L
            ck.begin(L=L, theta=th, k1=k1, k2=k2, gamma=g, z=z)
            with ck.guard():
                R, T = O.extract(track, z, L, th, k1, k2, g, 2, amp)
                R1, T1 = O.extract(track, z, L, th, k1, k2, g, 1, amp)
            maps[f] = R, T
            Rr, Tr = O.carleman(h, k1, k2, g, z)
            ck.state(R, T)
            ck.step(2)
            sr, st = np.max(np.abs(Rr)), max(np.max(np.abs(Tr)), 1.)
            ck.close(R, Rr, 'first-order map', rtol=1e-9*tol, scale=sr)
            ck.close(R1, Rr, 'first-order map (order 1)', rtol=1e-9*tol, scale=sr)
            ck.close(T, Tr, 'second-order map', rtol=1e-7*tol, scale=st)
            # each coordinate on its own scale
            for i in range(6):
                ck.close(T[i], Tr[i], 'second-order map of coordinate %d' % i,
                         rtol=1e-6*tol, scale=np.max(np.abs(Tr[i])),
                         atol=1e-8*tol)
            ck.close(T1, np.zeros_like(T1), 'order 1 must be linear',
                     atol=1e-12*sr*tol**2)
            ck.close(R.T @ S6 @ R, S6, 'symplecticity', rtol=1e-8*tol,
                     scale=sr**2)
            if f == 0:
                ck.close(R, np.eye(6), 'no length: identity', atol=1e-12)
                ck.close(T, 0*T, 'no length: identity', atol=1e-12)
        # composition: [0, L/3] then [0, 3/4 L] = [0, 13/12 L], and inverse
        for a, b in ((1/3, .75), (1., -1.), (-1., 1.)):
            ck.begin(L=L, theta=th, k1=k1, k2=k2, gamma=g, compose=[a, b])
            with ck.guard():
                Rc, Tc = O.extract(track, (a+b)*L, L, th, k1, k2, g, 2, amp)
            Rd, Td = compose(*maps[a], *maps[b])
            ck.step()
            sr = np.max(np.abs(maps[a][0]))*np.max(np.abs(maps[b][0]))
            st = max(1., sr*np.max(np.abs(maps[a][1])),
                     sr**2*np.max(np.abs(maps[b][1])))
            ck.close(Rc, Rd, 'composition of maps', rtol=1e-9*tol, scale=sr)
            ck.close(Tc, Td, 'composition of second-order maps', rtol=1e-8*tol,
                     scale=st)


def shape(ck, track, amp):
    """Every particle is mapped on its own, whatever the bunch size."""
    # Straight elements may have no length at all (it is the default).
    if track is not element_track:
        for order, k1, k2, g in product((1, 2), (0., 3., -3.), (0., 9.),
                                        (2., 1e4)):
            ck.begin(order=order, L=0., k1=k1, k2=k2, gamma=g)
            with ck.guard():
                R, T = O.extract(track, 0., 0., 0., k1, k2, g, order, amp)
                ck.close(R, np.eye(6), 'no length: identity', atol=1e-12)
                ck.close(T, 0*T, 'no length: identity', atol=1e-12)
    N = 20001
    m = np.sin(np.arange(6*N)*1.7).reshape(6, N)*amp*.3
    for order, n in product((1, 2), [*range(1, 9), 4097, 10000, N]):
        ck.begin(order=order, n=n)
        a = m[:, :n].copy()
        with ck.guard():
            out = track(a, .3, .5, .2, 1.5, 7., 50., order)
        ck.same(a, m[:, :n], 'the input distribution was changed')
        ck.expect(out.shape == (6, n), 'shape of the result', got=out.shape)
        R, T = O.carleman(.4, 1.5, 7., 50., .3)
        w = R @ a
        if order == 2:
            w = w + np.einsum('ijk,jn,kn->in', T, a, a)
        ck.state(out)
        ck.step()
        ck.close(out, w, 'map of a bunch of %d' % n, rtol=1e-9 if amp == 1 else 1e-6)


def element_track(m, z, L, theta, k1, k2, gamma, order):
    """The same map, obtained through the public element class."""
    from wake_t import ParticleBunch
    from wake_t.beamline_elements import TMElement
    b0 = np.sqrt(1 - 1/gamma**2)
    p0 = gamma*b0
    ga = gamma + m[5]*p0
    px, py = m[1]*p0, m[3]*p0
    pz = np.sqrt(ga**2 - 1 - px**2 - py**2)
    b = ParticleBunch(np.ones(m.shape[1]), m[0].copy(), m[2].copy(),
                      -m[4], px, py, pz, name='b')
    f = z/L
    if f == 0:
        return m.copy()
    TMElement(abs(z), -theta*abs(f), k1, k2, gamma, order=order).track(
        b, backtrack=z < 0, show_progress_bar=False)
    th = b.theta_ref
    c, sn = np.cos(th), np.sin(th)
    x, xi = b.x - b.x_ref, b.xi
    x, xi = c*x - sn*xi, sn*x + c*xi
    px, pz = c*b.px - sn*b.pz, sn*b.px + c*b.pz
    ga = np.sqrt(1 + px**2 + b.py**2 + pz**2)
    return np.array([x, px/p0, b.y, b.py/p0, -xi, (ga - gamma)/p0])
