"""C22: generated bunches have the parameters that were asked for."""
from itertools import product

import numpy as np
import scipy.constants as ct

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of the parameter lattice of the three '
             'generators on the real code with a pinned random source: the '
             'normal deviates of every particle are recovered from a base '
             'bunch, and each particle of each other bunch must be the exact '
             'image of its deviates under the documented Twiss/offset/energy '
             'transformation; moments of the base; matched bunches tracked '
             'in the plasma they are matched to')
BOUNDS = {
    'quick': '52 particle counts (1-39 ... 123457) and all 420 '
             'pairs of extreme values x 3 generators; all 3888 combinations of 2-3 values of every parameter x 3 '
             'seeds for the Twiss generator, all 512 for the size generator, '
             'all 640 for the matched generator (4 species); moments to '
             'order 4 of 400000 particles; 16 matched bunches tracked over a '
             'quarter betatron period',
    'thorough': '52 particle counts (1-39 ... 123457) and all 420 '
             'pairs of extreme values x 3 generators; all 7776 combinations x 5 seeds (Twiss), 512 (size), 1792 '
                '(matched); moments to order 4 of 4000000 particles; 36 '
                'matched bunches tracked',
}
ASSUMPTIONS = [
    'positive emittances and energies (mean momentum used as energy)',
    'the random source is the global one of numpy, which a seed makes '
    'reproducible',
]
ENV = {'NUMBA_DISABLE_JIT': '1'}


def jobs(tier):
    js = [dict(kind='twiss', tier=tier, part=i) for i in range(8)]
    js += [dict(kind='size', tier=tier), dict(kind='matched', tier=tier),
           dict(kind='moments', tier=tier), dict(kind='track', tier=tier),
           dict(kind='names', tier=tier), dict(kind='counts', tier=tier),
           dict(kind='extreme', tier=tier)]
    return js


def weight(j):
    return {'twiss': 4, 'size': 2, 'matched': 2, 'moments': 3, 'track': 6,
            'names': 1, 'counts': 3, 'extreme': 2}[j['kind']]


SPECIES = [(-ct.e, ct.m_e), (ct.e, ct.m_e), (ct.e, ct.m_p),
           (-2*ct.e, 206.768*ct.m_e)]
N = 7


def generate(which, seed, **kw):
    import wake_t.utilities.bunch_generation as bg
    np.random.seed(seed)
    return getattr(bg, which)(**kw)


def deviates(seed, n=N):
    """Normal deviates of each particle, recovered from a base bunch."""
    en, b, ene, s_t = 1e-6, 1e-2, 1000., 10.
    o = generate('get_gaussian_bunch_from_twiss', seed, en_x=en, en_y=en,
                 a_x=0., a_y=0., b_x=b, b_y=b, ene=ene, ene_sp=1., s_t=s_t,
                 xi_c=0., q_tot=1., n_part=n)
    em = en/ene
    return dict(
        ux=o.x/np.sqrt(em*b), vx=o.px/o.pz/np.sqrt(em/b),
        uy=o.y/np.sqrt(em*b), vy=o.py/o.pz/np.sqrt(em/b),
        uz=o.xi/(s_t*1e-15*ct.c), ue=(o.pz - ene)/(0.01*ene))


def image(d, en_x, en_y, a_x, a_y, b_x, b_y, ene, ene_sp, s_t, xi_c,
          x_off=0., y_off=0., theta_x=0., theta_y=0.):
    """Documented transformation of the deviates."""
    pz = ene*(1 + ene_sp/100*d['ue'])

    def plane(en, a, b, u, v, off, th):
        em = en/ene
        x = np.sqrt(em*b)*u + off
        xp = np.sqrt(em/b)*(v - a*u)
        return x, xp*pz + th*ene
    x, px = plane(en_x, a_x, b_x, d['ux'], d['vx'], x_off, theta_x)
    y, py = plane(en_y, a_y, b_y, d['uy'], d['vy'], y_off, theta_y)
    return x, y, xi_c + s_t*1e-15*ct.c*d['uz'], px, py, pz


def check(ck, b, want, q_tot, species, n, what):
    for nm, w in zip(('x', 'y', 'xi', 'px', 'py', 'pz'), want):
        ck.close(getattr(b, nm), w, what + ': ' + nm, rtol=1e-9,
                 scale=np.max(np.abs(w)))
    q, m = species
    ck.expect(len(b.w) == n, what + ': number of particles', got=len(b.w))
    ck.expect(np.all(b.w >= 0) and np.all(b.w == b.w[0]),
              what + ': equal positive weights')
    ck.close(np.sum(b.w), abs(q_tot)*1e-12/abs(q), what + ': total weight',
             rtol=1e-12)
    ck.expect(b.q_species == q and b.m_species == m, what + ': species',
              got=[b.q_species, b.m_species])
    ck.close(np.sum(b.q), abs(q_tot)*1e-12*np.sign(q), what + ': charge',
             rtol=1e-12)
    ck.step()
    ck.state(b.x, b.px, b.pz, b.xi)


def run(job, ck):
    globals()['run_' + job['kind']](job, ck)


def run_twiss(job, ck):
    thorough = job['tier'] == 'thorough'
    seeds = (1, 2, 3) if not thorough else (1, 2, 3, 4, 5)
    grid = product(
        ((1e-6, 3e-7), (2e-7, 1e-6)),                     # emittances
        ((0., 0.), (1.3, -0.6), (-2., 4.)),               # alphas
        ((1e-3, 5e-2), (2., 0.3)),                        # betas
        (50., 2000.) if not thorough else (10., 50., 2000., 1e5),  # energy
        (0., 2.5, 10.),                                   # spread
        (0.5, 30.),                                       # duration
        (0., -4e-5, 1e-5),                                # centre
        ((0., 0., 0., 0.), (3e-6, -5e-6, 1e-3, -2e-4),
         (0., 0., -1e-3, 0.)),                            # offsets
        range(3))                                         # charge, species
    devs = {s: deviates(s) for s in seeds}
    for k, (en, al, be, ene, sp, s_t, xc, off, c) in enumerate(grid):
        if k % 8 != job['part']:
            continue
        q_tot = (30., 1.7, 500.)[c]
        species = SPECIES[k % 4]
        for seed in seeds:
            kw = dict(en_x=en[0], en_y=en[1], a_x=al[0], a_y=al[1],
                      b_x=be[0], b_y=be[1], ene=ene, ene_sp=sp, s_t=s_t,
                      xi_c=xc, x_off=off[0], y_off=off[1], theta_x=off[2],
                      theta_y=off[3])
            ck.begin(seed=seed, q_tot=q_tot, species=species, **kw)
            with ck.guard():
                b = generate('get_gaussian_bunch_from_twiss', seed,
                             q_tot=q_tot, n_part=N, q_species=species[0],
                             m_species=species[1], name='n%d' % k, **kw)
                check(ck, b, image(devs[seed], **kw), q_tot, species, N,
                      'bunch from Twiss parameters')
                ck.expect(b.name == 'n%d' % k, 'name', got=b.name)


def run_size(job, ck):
    dev = deviates(5)
    for en_x, en_y, sx, sy, ene, sp, off, c in product(
            (1e-6, 2e-7), (5e-7, 3e-6), (1e-6, 2e-5), (3e-7, 5e-6),
            (100., 4000.), (0.1, 4.), ((0., 0., 0., 0.),
                                       (1e-6, -2e-6, 2e-4, -7e-4)),
            range(4)):
        species = SPECIES[c]
        q_tot = (10., 1., 200., .5)[c]
        kw = dict(en_x=en_x, en_y=en_y, ene=ene, ene_sp=sp, s_t=7.,
                  xi_c=-3e-6, x_off=off[0], y_off=off[1], theta_x=off[2],
                  theta_y=off[3])
        ck.begin(s_x=sx, s_y=sy, species=species, **kw)
        with ck.guard():
            b = generate('get_gaussian_bunch_from_size', 5, s_x=sx, s_y=sy,
                         q_tot=q_tot, n_part=N, q_species=species[0],
                         m_species=species[1], name='s', **kw)
            want = image(dev, a_x=0., a_y=0., b_x=sx**2*ene/en_x,
                         b_y=sy**2*ene/en_y, **kw)
            check(ck, b, want, q_tot, species, N, 'bunch from size')
            # Size as given, whatever the emittance and the energy.
            ck.close(b.x, sx*dev['ux'] + off[0], 'size in x', rtol=1e-9)
            ck.close(b.y, sy*dev['uy'] + off[1], 'size in y', rtol=1e-9)


def matched_beta(ene, n_p, k_x, species):
    """1/sqrt(focusing strength) of a particle in the ion channel."""
    q, m = species
    if k_x is None:
        k_x = n_p*ct.e/(2*ct.epsilon_0*ct.c)
    return np.sqrt(ene*m*ct.c/(abs(q)*k_x))


def run_matched(job, ck):
    dev = deviates(9)
    thorough = job['tier'] == 'thorough'
    foc = [(1e23, None), (5e21, None), (None, 3e4), (1e23, 3e4), (1e20, 1e6)]
    if thorough:
        foc += [(3e24, None), (None, 5.)]
    for (n_p, k_x), species, ene, en_x, en_y, off, sp in product(
            foc, SPECIES, (100., 4000.) if not thorough else
            (20., 100., 4000., 4e4), (1e-6, 2e-7), (5e-7, 3e-6),
            ((0., 0., 0., 0.), (1e-6, -2e-6, 2e-4, -7e-4)), (0.1, 4.)):
        kw = dict(en_x=en_x, en_y=en_y, ene=ene, ene_sp=sp, s_t=7.,
                  xi_c=-3e-6, x_off=off[0], y_off=off[1], theta_x=off[2],
                  theta_y=off[3])
        ck.begin(n_p=n_p, k_x=k_x, species=species, **kw)
        with ck.guard():
            b = generate('get_matched_bunch', 9, n_p=n_p, k_x=k_x, q_tot=20.,
                         n_part=N, q_species=species[0],
                         m_species=species[1], name='m', **kw)
            be = matched_beta(ene, n_p, k_x, species)
            want = image(dev, a_x=0., a_y=0., b_x=be, b_y=be, **kw)
            check(ck, b, want, 20., species, N, 'matched bunch')
    ck.begin(matched='without focusing')
    ck.raises(ValueError, lambda: generate(
        'get_matched_bunch', 1, en_x=1e-6, en_y=1e-6, ene=100., ene_sp=1.,
        s_t=3., xi_c=0., q_tot=1., n_part=5), 'no focusing given')


def run_moments(job, ck):
    """The deviates are independent, normal, and cut at 3 sigma in xi."""
    n = 400000 if job['tier'] == 'quick' else 4000000
    for seed in (1, 2):
        ck.begin(seed=seed, n=n)
        with ck.guard():
            d = deviates(seed, n)
            tol = 6./np.sqrt(n)
            keys = sorted(d)
            for k in keys:
                v = d[k]
                s2, s4 = (1., 3.) if k != 'uz' else (0.97335, 2.6802)
                ck.close(np.mean(v), 0., 'mean of ' + k, atol=tol)
                ck.close(np.mean(v**2), s2, 'variance of ' + k,
                         atol=1.5*tol)
                ck.close(np.mean(v**3), 0., 'skewness of ' + k, atol=4*tol)
                ck.close(np.mean(v**4), s4, 'kurtosis of ' + k, atol=10*tol)
            for i, a in enumerate(keys):
                for c in keys[:i]:
                    ck.close(np.mean(d[a]*d[c]), 0., 'correlation of %s and '
                             '%s' % (a, c), atol=tol)
                    ck.close(np.mean((d[a]*d[c])**2), np.mean(d[a]**2)*np.mean(
                        d[c]**2), 'dependence of %s and %s' % (a, c),
                        atol=4*tol)
            ck.expect(np.max(np.abs(d['uz'])) <= 3.0000001,
                      'xi is cut at 3 sigma', got=np.max(np.abs(d['uz'])))
            ck.expect(np.max(np.abs(d['uz'])) > 2.95, 'xi reaches 3 sigma')
            ck.step(len(keys)**2)
            ck.state(d['ux'][:10])


def run_track(job, ck):
    """A matched bunch rotates in the plasma it is matched to: after a quarter
    of a betatron period sizes and divergences are exchanged."""
    from wake_t import PlasmaStage
    species = SPECIES if job['tier'] == 'quick' else SPECIES + [
        (2*ct.e, ct.m_p), (-ct.e, ct.m_p)]
    for (q, m), ene, n_p in product(species, (100., 3000.)
                                    if job['tier'] == 'quick'
                                    else (100., 3000., 5e4),
                                    (1e23, 2e21)):
        # (The blowout focuses negative particles only.)
        q = -abs(q)
        ck.begin(species=[q, m], ene=ene, n_p=n_p)
        with ck.guard():
            b = generate('get_matched_bunch', 4, en_x=1e-9, en_y=1e-9,
                         ene=ene, ene_sp=0., s_t=1., xi_c=0., q_tot=1.,
                         n_part=15, n_p=n_p, q_species=q, m_species=m,
                         name='m')
            # Normalised amplitudes: x/s_x and x'/s_x'.
            d = deviates(4, 15)
            be = matched_beta(ene, n_p, None, (q, m))
            sx, sp = np.sqrt(1e-9/ene*be), np.sqrt(1e-9*ene/be)
            PlasmaStage(np.pi/2*be, n_p, 'focusing_blowout', n_out=1,
                        dt_bunch=np.pi/2*be/120/ct.c).track(
                            b, show_progress_bar=False)
            ck.step(120)
            for v, w, k in ((b.x, d['vx'], 1), (b.y, d['vy'], 1)):
                ck.close(v/sx, w, 'matched bunch: position after a quarter '
                         'of a betatron period', atol=5e-3, rtol=0)
            for v, w in ((b.px, d['ux']), (b.py, d['uy'])):
                ck.close(v/sp, -w, 'matched bunch: momentum after a quarter '
                         'of a betatron period', atol=5e-3, rtol=0)


GENERATORS = ('get_gaussian_bunch_from_twiss',
              'get_gaussian_bunch_from_size', 'get_matched_bunch')


def general(g, kw, species):
    """(Twiss parameters, arguments of generator g) of the same bunch."""
    tw = dict(kw)
    if g == GENERATORS[0]:
        return tw, dict(kw)
    kw = {k: v for k, v in kw.items()
          if k not in ('a_x', 'a_y', 'b_x', 'b_y')}
    tw['a_x'] = tw['a_y'] = 0.
    if g == GENERATORS[1]:
        kw['s_x'] = np.sqrt(tw['b_x']*tw['en_x']/tw['ene'])
        kw['s_y'] = np.sqrt(tw['b_y']*tw['en_y']/tw['ene'])
    else:
        kw['k_x'] = tw['ene']*species[1]*ct.c/abs(species[0])/tw['b_x']**2
        tw['b_y'] = tw['b_x']
    return tw, kw


BASE = dict(en_x=1e-6, en_y=4e-7, a_x=.7, a_y=-1.2, b_x=2e-3, b_y=4e-2,
            ene=300., ene_sp=1., s_t=3., xi_c=2e-6, x_off=1e-6, y_off=-3e-6,
            theta_x=2e-4, theta_y=-1e-4)


def run_counts(job, ck):
    """Every particle of small and large bunches."""
    ns = list(range(1, 40)) + [99, 100, 101, 999, 1000, 1001, 4096, 10007,
                               65537, 99999, 100000, 123457]
    if job['tier'] == 'thorough':
        ns += [1000003]
    for n, g, c in product(ns, GENERATORS, range(2)):
        species = SPECIES[(n + c) % 4]
        kw = dict(BASE)
        ck.begin(generator=g, n_part=n, species=species)
        if c:
            kw.update(x_off=0., y_off=0., theta_x=0., theta_y=0.)
        with ck.guard():
            tw, args = general(g, kw, species)
            b = generate(g, 11, q_tot=40., n_part=n if n % 2 else float(n),
                         q_species=species[0], m_species=species[1],
                         name='c', **args)
            if ck.expect(len(b.x) == n, 'number of particles', got=len(b.x)):
                check(ck, b, image(deviates(11, n), **tw), 40., species, n,
                      'bunch of %d particles' % n)


def run_extreme(job, ck):
    """Each parameter, and each pair of parameters, at its extremes."""
    ext = dict(en_x=(1e-12, 1e-2), en_y=(1e-12, 1e-2), a_x=(-40., 25.),
               a_y=(-40., 25.), b_x=(1e-5, 300.), b_y=(1e-5, 300.),
               ene=(1.5, 1e6), ene_sp=(1e-4, 300.), s_t=(1e-3, 1e4),
               xi_c=(-1., 3e-9), x_off=(2e-2, -1e-9), y_off=(2e-2, -1e-9),
               theta_x=(.1, -1e-7), theta_y=(.1, -1e-7),
               q_tot=(1e-6, 1e5))
    dev = deviates(6)
    items = [(k, v) for k, vs in ext.items() for v in vs]
    pairs = [((k, v),) for k, v in items] + [
        (a, b) for i, a in enumerate(items) for b in items[:i]
        if a[0] != b[0]]
    for i, ch in enumerate(pairs):
        for g in GENERATORS:
            kw = dict(BASE)
            kw.update(ch)
            q_tot = kw.pop('q_tot', 12.)
            species = SPECIES[i % 4]
            ck.begin(generator=g, changed=dict(ch), species=species)
            with ck.guard():
                tw, args = general(g, kw, species)
                b = generate(g, 6, q_tot=q_tot, n_part=N,
                             q_species=species[0], m_species=species[1],
                             name='e', **args)
                check(ck, b, image(dev, **tw), q_tot, species, N,
                      'extreme bunch')


def run_names(job, ck):
    """Integer-valued counts, defaults, names, reproducibility."""
    base = dict(en_x=1e-6, en_y=1e-6, ene=300., ene_sp=1., s_t=3., xi_c=0.,
                q_tot=10.)
    gens = {'get_gaussian_bunch_from_twiss': dict(a_x=0., a_y=0., b_x=1e-3,
                                                  b_y=1e-3),
            'get_gaussian_bunch_from_size': dict(s_x=1e-6, s_y=1e-6),
            'get_matched_bunch': dict(n_p=1e23)}
    for (g, kw), n, name in product(gens.items(), (1, 2, 10, 1e3),
                                    ('a', 'b c', None)):
        ck.begin(generator=g, n_part=n, name=name)
        with ck.guard():
            a = generate(g, 3, n_part=n, name=name, **base, **kw)
            b = generate(g, 3, n_part=n, name=name, **base, **kw)
            c = generate(g, 4, n_part=n, name=name, **base, **kw)
            z = generate(g, 3, n_part=n, name=name, x_off=0., y_off=0.,
                         theta_x=0., theta_y=0., **base, **kw)
            for k in ('x', 'y', 'xi', 'px', 'py', 'pz', 'w'):
                ck.same(getattr(a, k), getattr(z, k), 'no offset, no angle '
                        'by default: ' + k)
            ck.expect(len(a.x) == int(n), 'number of particles')
            for k in ('x', 'y', 'xi', 'px', 'py', 'pz', 'w'):
                ck.same(getattr(a, k), getattr(b, k), 'same seed, same '
                        'bunch: ' + k)
                ck.expect(getattr(a, k).shape == (int(n),), 'shape of ' + k)
            ck.expect(not np.array_equal(a.x, c.x), 'other seed, other bunch')
            ck.expect(a.q_species == -ct.e and a.m_species == ct.m_e,
                      'electrons by default')
            if name is not None:
                ck.expect(a.name == name, 'name', got=a.name)
            else:
                ck.expect(a.name != b.name, 'unnamed bunches have different '
                          'names', got=[a.name, b.name])
            ck.expect(a.prop_distance == 0 and a.t_flight == 0,
                      'starts at the origin')
            ck.step(3)
