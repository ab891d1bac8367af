"""C12: all views, conversions and copies of a bunch are consistent."""
from itertools import product

import numpy as np
import scipy.constants as ct

LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration: all sequences of bunch operations '
             'up to a depth on a real bunch and on a plain reference record, '
             'comparing every view (matrices, charge, name, copies) after '
             'every operation; exhaustive lattice of coordinate conversions '
             'and their inverses')
BOUNDS = {
    'quick': 'all sequences of <=3 operations out of 15 from 3 initial '
             'bunches, <=2 from 2 more (5001 particles, 150 GeV); '
             'conversions over 5 energies x 3 spreads x 4 reference '
             'energies x 5 angles x bunch sizes 1, 2, 6, 7, 5001; 3000 unnamed bunches',
    'thorough': 'all sequences of <=4 operations out of 15 from 3 initial '
                'bunches; conversions as quick',
}
ASSUMPTIONS = ['particles move forward (positive longitudinal momentum), as '
               'the energy-based coordinates presuppose']
ENV = {'NUMBA_DISABLE_JIT': '1'}


def jobs(tier):
    d = 3 if tier == 'quick' else 4
    js = [dict(kind='seq', init=i, first=k, depth=d)
          for i in range(3) for k in range(len(OPS))]
    js += [dict(kind='seq', init=i, first=k, depth=d - 1)
           for i in (3, 4) for k in range(len(OPS))]
    js += [dict(kind='conv'), dict(kind='names')]
    return js


def weight(j):
    return 2


KEYS = ('x', 'y', 'xi', 'px', 'py', 'pz')


def initial(i):
    n = (4, 1, 6, 5001, 3)[i]
    k = np.arange(n)
    kw = [dict(), dict(q_species=ct.e, m_species=ct.m_p, tags=k + 5, z_injection=0.),
          dict(q_species=-3*ct.e, m_species=7*ct.m_p, t_flight=2.,
               z_injection=-1e3, prop_distance=3.),
          dict(tags=k), dict(t_flight=1e-9, prop_distance=-2.)][i]
    d = dict(x=1e-3*(k % 90 - .7), y=-2e-3*(k % 3) + 1e-4, xi=1e-4*((k % 50)**2 - 2.),
             px=.3*(k % 60 - 1.), py=-.2*(k % 70) + .1,
             pz=(50., 3., 800., 90., 3e5)[i]*(1 + .02*(k % 80)),
             w=1e5*(1. + k % 4))
    if i == 2:
        d['w'] = 100000*(1 + k % 4)      # whole numbers of particles
    return d, kw


def build(i):
    from wake_t import ParticleBunch
    d, kw = initial(i)
    b = ParticleBunch(name='b', **{k: v.copy() for k, v in d.items()}, **kw)
    m = {k: v.copy() for k, v in d.items()}
    m.update(q=kw.get('q_species', -ct.e), m=kw.get('m_species', ct.m_e),
             name='b', tags=None if 'tags' not in kw else kw['tags'].copy(),
             t=kw.get('t_flight', 0),
             zi=kw.get('z_injection'), z=kw.get('prop_distance', 0.),
             x_ref=0., th=0.)
    return b, m


# -- operations: (name, f(bunch, model) -> bunch) ---------------------------
def op_set_ps(b, m):
    for k in KEYS:
        m[k] = m[k]*1.5 + (1. if k == 'pz' else 1e-5)
    b.set_phase_space(*[m[k].copy() for k in KEYS])
    return b


def op_set_6d(b, m):
    M = np.array([m['x'] + 1e-3, m['px'], m['y'], m['py'] + .01, m['xi'],
                  m['pz']*1.1])
    m['x'], m['py'], m['pz'] = M[0].copy(), M[3].copy(), M[5].copy()
    b.set_phase_space_from_matrix(M)
    return b


def op_round_6d(b, m):
    b.set_phase_space_from_matrix(b.get_6D_matrix())
    return b


def op_round_7d(b, m):
    b.set_bunch_matrix(b.get_bunch_matrix())
    return b


def op_round_alt(b, m):
    M, g = b.get_alternative_6D_matrix()
    b.set_phase_space_from_alternative_matrix(M, g)
    return b


def op_new_6d(b, m):
    from wake_t import ParticleBunch
    n = ParticleBunch(b.w, bunch_matrix=b.get_6D_matrix(), name=b.name,
                      tags=b.tags, q_species=b.q_species,
                      m_species=b.m_species, prop_distance=b.prop_distance,
                      t_flight=b.t_flight, z_injection=b.z_injection)
    n.x_ref, n.theta_ref = b.x_ref, b.theta_ref
    return n


def op_new_alt(b, m):
    from wake_t import ParticleBunch
    M, g = b.get_alternative_6D_matrix()
    n = ParticleBunch(b.w, bunch_matrix=M, matrix_type='alternative',
                      gamma_ref=g, name=b.name, tags=b.tags,
                      q_species=b.q_species, m_species=b.m_species,
                      prop_distance=b.prop_distance, t_flight=b.t_flight,
                      z_injection=b.z_injection)
    n.x_ref, n.theta_ref = b.x_ref, b.theta_ref
    return n


def op_charge(b, m):
    b.q = np.linspace(1., 2., len(b.x))*1e-12*np.sign(b.q_species)
    m['w'] = np.linspace(1., 2., len(m['x']))*1e-12/abs(m['q'])
    return b


def op_charge_sign(b, m):
    b.q = np.full(len(b.x), -3e-13*np.sign(b.q_species))
    m['w'] = np.full(len(m['x']), 3e-13/abs(m['q']))
    return b


def op_recentre(b, m):
    b.reposition_xi(5e-4)
    m['xi'] = m['xi'] + 5e-4 - np.sum(m['xi']*m['w'])/np.sum(m['w'])
    return b


def op_recentre_bit(b, m):
    c = np.sum(m['xi']*m['w'])/np.sum(m['w'])
    for d in (3e-10, -7e-12):
        old = b.xi.copy()
        b.reposition_xi(c + d)
        m['xi'] = m['xi'] + (c + d) - np.sum(m['xi']*m['w'])/np.sum(m['w'])
        if not np.any(b.xi != old):
            raise AssertionError('the bunch was not moved')
    return b


def op_dist(b, m):
    b.increase_prop_distance(.75)
    m['z'] = m['z'] + .75
    return b


def spoil(b):
    for k in KEYS + ('w',):
        getattr(b, k)[:] = 77.
    if b.tags is not None:
        b.tags[:] = 77
    b.prop_distance = b.t_flight = b.z_injection = 77.
    b.x_ref = b.theta_ref = 77.
    b.name = 'spoiled'
    b.q_species = b.m_species = 77.


def op_copy(b, m):
    c = b.copy()
    spoil(b)
    return c


def op_copy_away(b, m):
    spoil(b.copy())
    return b


def op_evolve(b, m):
    dt = 1e-3/ct.c
    b.evolve([], 0., dt, 'boris')
    g = np.sqrt(1 + m['px']**2 + m['py']**2 + m['pz']**2)
    m['x'] = m['x'] + 1e-3*m['px']/g
    m['y'] = m['y'] + 1e-3*m['py']/g
    m['xi'] = m['xi'] + 1e-3*(m['pz']/g - 1)
    m['z'] = m['z'] + 1e-3
    return b


OPS = [op_set_ps, op_set_6d, op_round_6d, op_round_7d, op_round_alt,
       op_new_6d, op_new_alt, op_charge, op_charge_sign, op_recentre,
       op_recentre_bit, op_dist,
       op_copy, op_copy_away, op_evolve]


def compare(ck, b, m):
    ck.state(*[getattr(b, k) for k in KEYS + ('w',)])
    for k in KEYS:
        sc = np.max(m['pz']) if k[0] == 'p' else 1e-2
        ck.close(getattr(b, k), m[k], 'coordinate ' + k, rtol=1e-10,
                 scale=sc)
    ck.close(b.w, m['w'], 'weights', rtol=1e-12)
    ck.close(b.q, m['w']*m['q'], 'charge of the macroparticles', rtol=1e-12)
    M = b.get_6D_matrix()
    ck.expect(M.shape == (6, len(m['x'])), 'shape of the 6D matrix')
    for r, k in zip(M, ('x', 'px', 'y', 'py', 'xi', 'pz')):
        ck.same(r, getattr(b, k), '6D matrix: ' + k)
    M = b.get_6D_matrix_with_charge()
    for r, k in zip(M, ('x', 'px', 'y', 'py', 'xi', 'pz', 'q')):
        ck.close(r, getattr(b, k), '6D matrix with charge: ' + k, rtol=1e-14)
    M = b.get_bunch_matrix()
    for r, k in zip(M, KEYS + ('q',)):
        ck.close(r, getattr(b, k), 'bunch matrix: ' + k, rtol=1e-14)
    M, g0 = b.get_alternative_6D_matrix()
    g = np.sqrt(1 + m['px']**2 + m['py']**2 + m['pz']**2)
    p = np.sqrt(g**2 - 1)
    w0 = np.sum(g*m['w'])/np.sum(m['w'])
    ck.close(g0, w0, 'average energy', rtol=1e-11)
    for r, v, n in zip(M, (m['x'], m['px']/p, m['y'], m['py']/p, m['xi'],
                           (g - w0)/w0), ('x', "x'", 'y', "y'", 'xi', 'dp')):
        ck.close(r, v, 'alternative matrix: ' + n, rtol=1e-9, scale=1e-2)
    ck.expect(b.name == m['name'], 'name')
    ck.expect(b.q_species == m['q'] and b.m_species == m['m'], 'species')
    ck.expect((b.tags is None) == (m['tags'] is None) and
              (b.tags is None or np.array_equal(b.tags, m['tags'])), 'tags')
    ck.close(float(b.prop_distance), m['z'], 'propagated distance',
             rtol=1e-12, atol=1e-15)
    ck.expect(b.t_flight == m['t'] and b.z_injection == m['zi'],
              'flight time / injection position')
    ck.expect(b.x_ref == m['x_ref'] and b.theta_ref == m['th'],
              'reference orbit')
    # the returned matrices are copies
    for f in (b.get_6D_matrix, b.get_6D_matrix_with_charge,
              b.get_bunch_matrix, lambda: b.get_alternative_6D_matrix()[0]):
        f()[:] = 99.
    b.q[:] = 99.
    ck.close(b.x, m['x'], 'a returned matrix is not a copy', rtol=1e-10,
             scale=1e-2)
    ck.close(b.w, m['w'], 'the returned charge is not a copy', rtol=1e-12)
    d = b.get_openpmd_diagnostics_data(2.)
    for k in 'xyz':
        kk = 'xi' if k == 'z' else k
        ck.close(d[k], getattr(b, kk), 'data for openPMD: ' + k, rtol=1e-14)
        ck.close(d['p' + k], getattr(b, 'p' + k)*m['m']*ct.c,
                 'data for openPMD: p' + k, rtol=1e-12)
    ck.close(d['w'], b.w, 'data for openPMD: w', rtol=1e-14)
    ck.expect(d['q'] == m['q'] and d['m'] == m['m'] and
              d['name'] == m['name'], 'data for openPMD: species')


def run(job, ck):
    globals()['run_' + job['kind']](job, ck)


def run_seq(job, ck):
    n = len(OPS)
    for d in range(1, job['depth'] + 1):
        for rest in product(range(n), repeat=d - 1):
            seq = (job['first'],) + rest
            ck.begin(init=job['init'], ops=[OPS[k].__name__[3:] for k in seq])
            b, m = build(job['init'])
            # the reference orbit (theta/x) is part of the state as well
            b.x_ref, b.theta_ref = m['x_ref'], m['th'] = [
                (.25, -.5), (.25, 0.), (0., -.5)][job['init'] % 3]
            with ck.guard():
                for k in seq:
                    b = OPS[k](b, m)
                    ck.step()
                compare(ck, b, m)
    ck.begin(check='constructor')
    b, m = build(job['init'])
    compare(ck, b, m)


def run_conv(job, ck):
    try:
        from wake_t.utilities.bunch_manipulation import (
            convert_to_ocelot_matrix as to, convert_from_ocelot_matrix as fr,
            rotation_matrix_xz as rot)
    except ImportError:
        return
    for n, g0, sp, gr in product((1, 2, 6, 7, 5001), (1.5, 3., 60., 5e3, 1e5),
                                 (0., .01, .3), (None, 1., 1.1, .9)):
        k = np.arange(n)
        g = g0*(1 + sp*np.cos(k + 1.))
        p = np.sqrt(g**2 - 1)
        px, py = .01*p*np.sin(k + .5), -.02*p*np.cos(k)
        pz = np.sqrt(p**2 - px**2 - py**2)
        M = np.array([1e-3*(k % 9), px, -1e-3*(k % 9)**2, py, 1e-4*(k % 5 - 1.),
                      pz])
        w = 1. + k % 3
        gref = None if gr is None else gr*g0
        ck.begin(n=n, gamma=g0, spread=sp, gamma_ref=gref)
        M0 = M.copy()
        with ck.guard():
            o, ga = to(M, w, gref)
            back = fr(o, ga)
        ck.same(M, M0, 'the given matrix was changed')
        ck.state(o)
        ck.step(2)
        want = np.sum(g*w)/np.sum(w) if gref is None else gref
        ck.close(ga, want, 'reference energy', rtol=1e-12)
        p0 = np.sqrt(want**2 - 1)
        ref = np.array([M[0], px/p0, M[2], py/p0, -M[4], (g - want)/p0])
        for i in range(6):
            ck.close(o[i], ref[i], 'beam-optics coordinate %d' % i,
                     rtol=1e-9, scale=1e-2)
            ck.close(back[i], M[i], 'conversion round trip %d' % i,
                     rtol=1e-9, scale=g0 if i % 2 else 1e-2)
    for a, b in product((-2., -.1, 0., .3, 3.), repeat=2):
        ck.begin(angles=[a, b])
        with ck.guard():
            A, B, C = rot(a), rot(b), rot(a + b)
            I = rot(a) @ rot(-a)
        ck.step()
        ck.state(C)
        ck.close(A @ B, C, 'rotations compose', atol=1e-12)
        ck.close(I, np.eye(6), 'rotations invert', atol=1e-12)
        c, s = np.cos(a), np.sin(a)
        v = np.array([1., 10., 2., 20., 3., 30.])
        ck.close(A @ v, np.array([c + 3*s, 10*c + 30*s, 2., 20., 3*c - s,
                                  30*c - 10*s]), 'rotation in x-z',
                 rtol=1e-12)


def run_names(job, ck):
    """Unnamed bunches get distinct names; given names are kept."""
    from wake_t import ParticleBunch
    a = np.ones(2)
    for pat in product((None, 'a', 'b', ''), repeat=4):
        ck.begin(names=pat)
        with ck.guard():
            bs = [ParticleBunch(a, a, a, a, a, a, a, name=p) for p in pat]
        ck.step(4)
        ck.state(pat)
        auto = [b.name for b, p in zip(bs, pat) if p is None]
        ck.expect(len(set(auto)) == len(auto), 'automatic names repeat',
                  names=auto)
        ck.expect(not set(auto) & {'a', 'b', ''}, 'automatic name collides')
        for b, p in zip(bs, pat):
            if p is not None:
                ck.expect(b.name == p, 'given name lost', got=b.name)
            ck.expect(b.copy().name == b.name, 'a copy has another name')
    ck.begin(names='many')
    with ck.guard():
        auto = [ParticleBunch(a, a, a, a, a, a, a).name for _ in range(3000)]
        ck.step(3000)
        ck.expect(len(set(auto)) == len(auto), 'automatic names repeat')
