"""C18: quasi-static plasma wakefields."""
from itertools import product

import numpy as np
import scipy.constants as ct

from mc import qs_ref
from mc.qs_ref import skin_depth

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of small plasma columns x drivers x '
             'numerical options; on each, the complete evolution of the real '
             'solver is compared with an independent dense reference '
             'solution of the model equations, and with itself under every '
             'transformation that must not change (or must only rescale) the '
             'wake')
BOUNDS = {
    'quick': '2 pushers x 2 shapes x 4 plasma samplings x 14 drivers x 3 '
             'plasma radii x 3 channel depths on an 8 x 16 grid; 8 grids; '
             'strong blowouts with 5 gamma limits; columns of 13-60 skin depths; 9 transformations x 2 '
             'pushers x 5 drivers; sequences of <=4 updates along 3 density '
             'and 3 channel profiles; compiled kernels on 8 of them and on '
             '6 large problems (1200 slices, 120 cells, 20000 particles)',
    'thorough': 'as quick on 5 grids for the full product, twice as many '
                'driver strengths, 40 slices',
}
ASSUMPTIONS = [
    'grids of at least 3 x 3 cells',
    'sheets that leave the grid may or may not keep feeling the last source '
    'they felt inside (see the known finding of C07)',
]
ORACLE = ('reference solution of the model equations (mc/qs_ref.py: dense '
          'linear system for B, direct sums for psi), tolerance 1e-7')


def job_env(j):
    return {} if j['kind'] == 'jit' else {'NUMBA_DISABLE_JIT': '1'}


GRIDS = [(8, 16), (6, 11), (5, 7), (12, 20), (3, 9), (7, 5),
         (4, 3), (3, 4)]
DRIVERS = ['none', 'lin', 'circ', 'electrons', 'positrons', 'offaxis',
           'two', 'cancel', 'both', 'outside', 'beyond', 'ions', 'one',
           'many']


def jobs(tier):
    q = tier == 'quick'
    js = []
    for pusher, shape, drv in product(('rk4', 'ab5'), ('linear', 'cubic'),
                                      DRIVERS):
        for g in range(1 if q else 5):
            js.append(dict(kind='solve', pusher=pusher, shape=shape, drv=drv,
                           grid=g, strong=not q))
    for g in range(1, 8):
        js.append(dict(kind='grids', grid=g))
    for pusher in ('rk4', 'ab5'):
        js.append(dict(kind='blowout', pusher=pusher, nxi=24 if q else 40))
        js.append(dict(kind='wide', pusher=pusher))
        js.append(dict(kind='updates', pusher=pusher, depth=4 if q else 7))
        for d in ('lin', 'electrons', 'two', 'both', 'offaxis'):
            js.append(dict(kind='transform', pusher=pusher, drv=d))
    js.append(dict(kind='jit'))
    return js


def weight(j):
    w = {'solve': 2., 'grids': 3, 'blowout': 6, 'wide': 5, 'updates': 4,
         'transform': 3, 'jit': 40}[j['kind']]
    if j['kind'] == 'solve' and j['grid'] == 3:
        w *= 3
    return w*(1.6 if j.get('pusher') == 'rk4' else 1)


N_P = 2e23


def bunch(q, n, xi0, s, k0=0, sx=0., name='b', q_s=None, m_s=ct.m_e):
    from wake_t import ParticleBunch
    k = np.arange(n) + k0
    q_s = np.sign(q)*ct.e if q_s is None else q_s
    return ParticleBunch(
        w=abs(q/n/q_s)*(1 + .5*np.cos(k*1.)), x=s*np.sin(1.3*k) + sx,
        y=s*np.cos(2.1*k), xi=xi0 + s*np.sin(.7*k + .1), px=.1*np.cos(k),
        py=np.zeros(n), pz=np.full(n, 1e3), q_species=q_s, m_species=m_s,
        name=name)


def drivers(d, L, w, f=1.):
    """Bunches and laser; L, w: box length and radius."""
    from wake_t import GaussianPulse
    fs = lambda l: l/ct.c
    las, bs = None, []
    s, z1, z2 = w/8, -.35*L, -.7*L
    if d in ('lin', 'both'):
        las = GaussianPulse(z1, a_0=1.1*f, w_0=w*.45, tau=fs(.13*L))
    if d == 'flat':
        # Hardly any transverse motion: high energies without crossings.
        las = GaussianPulse(z1, a_0=1.1*f, w_0=w*8, tau=fs(.13*L))
    if d == 'circ':
        las = GaussianPulse(z1, a_0=.9*f, w_0=w*.45, tau=fs(.13*L),
                            polarization='circular')
    if d in ('electrons', 'both'):
        bs = [bunch(-25e-12*f, 18, z1, s)]
    if d == 'positrons':
        bs = [bunch(15e-12*f, 18, z1, s)]
    if d == 'offaxis':
        bs = [bunch(-25e-12*f, 14, z1, s, sx=3*s)]
    if d == 'two':
        bs = [bunch(-25e-12*f, 15, z1, s, name='d'),
              bunch(-8e-12*f, 9, z2, s/2, 5, name='w')]
    if d == 'cancel':
        bs = [bunch(-20e-12*f, 12, z1, s, name='d'),
              bunch(12e-12*f, 10, z1, s, 3, name='p')]
    if d == 'outside':
        # partly ahead of, behind and beside the box
        bs = [bunch(-25e-12*f, 15, 0., s), bunch(-20e-12*f, 15, -L, s, 2),
              bunch(-20e-12*f, 15, z2, s, 2, sx=w)]
    if d == 'beyond':
        # all of a bunch behind, ahead of or beside the box, before others
        bs = [bunch(-20e-12*f, 5, -2*L, s), bunch(-20e-12*f, 5, L, s, 2),
              bunch(-25e-12*f, 14, z1, s),
              bunch(-20e-12*f, 5, z2, s, 2, sx=3*w),
              bunch(9e-12*f, 8, z2, s, 1)]
    if d == 'ions':
        bs = [bunch(10e-12*f, 12, z1, s, q_s=2*ct.e, m_s=4*ct.m_p)]
    if d == 'one':
        # single macroparticles
        bs = [bunch(-12e-12*f, 1, z1, s, k0=1),
              bunch(-6e-12*f, 1, z2, s, k0=2, sx=s)]
    if d == 'many':
        bs = [bunch((-1)**(i % 3)*2e-12*f, 1 + i % 4, -L*(i + 2)/18, s,
                    k0=i, sx=s*(i % 5 - 2), name='b%d' % i)
              for i in range(14)]
    return bs, las


def build(p, las=None, dens=None, pc=None, **kw):
    from wake_t.physics_models.plasma_wakefields import \
        Quasistatic2DWakefield
    return Quasistatic2DWakefield(
        dens or (lambda z: p['n_p']), r_max=p['r_max'], xi_min=p['xi_min'],
        xi_max=p['xi_max'], n_r=p['n_r'], n_xi=p['n_xi'], ppc=p['ppc'],
        r_max_plasma=p['r_max_plasma'],
        parabolic_coefficient=p['pc'] if pc is None else pc,
        p_shape=p['shape'], max_gamma=p['max_gamma'],
        plasma_pusher=p['pusher'], laser=las, **kw)


def params(grid=0, **kw):
    nr, nz = GRIDS[grid]
    p = dict(n_p=N_P, r_max=24e-6, xi_min=-36e-6, xi_max=0., n_r=nr, n_xi=nz,
             ppc=2, r_max_plasma=None, pc=0., shape='cubic', max_gamma=10.,
             pusher='rk4')
    p.update(kw)
    return p


def points(p):
    """Points inside cells, at the axis, in all cells."""
    dr = p['r_max']/p['n_r']
    dz = (p['xi_max'] - p['xi_min'])/(p['n_xi'] - 1)
    u = np.concatenate([np.arange(p['n_xi'] - 1) + .37, [.001]])
    v = np.concatenate([[-.3], np.arange(p['n_r'] - 1) + .41])
    U, V = np.meshgrid(u, v, indexing='ij')
    return U, V, p['xi_min'] + U*dz, (V + .5)*dr


def observe(f, p, t=0.):
    """Fields at the points, through the public interface."""
    U, V, Z, R = points(p)
    out = np.zeros((6, U.size))
    f.gather(R.ravel()*.6, R.ravel()*.8, Z.ravel(), t, *out)
    ex, ey, ez, bx, by, bz = (o.reshape(U.shape) for o in out)
    d = f.get_openpmd_diagnostics_data(0.)
    res = dict(e_r=ex*.6 + ey*.8, e_z=ez, b_t=by*.6 - bx*.8,
               asym=np.abs(ex*.8 - ey*.6) + np.abs(bx*.6 + by*.8)*ct.c +
               np.abs(bz)*ct.c, rho=d['rho']['array'].T)
    if hasattr(f, 'chi'):
        res['chi'] = f.chi[2:-2, 2:-2].copy()
    return res


def interp(A, U, V, odd):
    j = np.floor(U).astype(int)
    f = U - j
    k = np.maximum(np.floor(V).astype(int), 0)
    g = V - k
    lo = (1 - f)*A[j, k] + f*A[j + 1, k]
    hi = (1 - f)*A[j, k + 1] + f*A[j + 1, k + 1]
    out = (1 - g)*lo + g*hi
    ax = V < 0
    out[ax] = lo[ax]*((1 + 2*V[ax]) if odd else 1.)
    return out


def envelope2(las, p):
    if las is None:
        return np.zeros((p['n_xi'], p['n_r']))
    a2 = np.abs(las.get_envelope())**2
    return a2/2 if las.polarization == 'linear' else a2


def compare(ck, f, p, bs, las, tol=1e-7):
    got = observe(f, p)
    ck.state(got['e_z'], got['rho'])
    ck.step(p['n_xi'])
    a2 = envelope2(las, p)
    src = [(b.x, b.y, b.xi, b.q) for b in bs]
    U, V = points(p)[:2]
    best = None
    for edge, outside, tie, rim in product(
            (False, True) if p['pusher'] == 'rk4' else (False,),
            ('stale', 'zero'), (False, True),
            (False, True) if p['ppc'] % 2 else (False,)):
        R = qs_ref.solve(p, src, a2, outside, edge, tie, rim)
        E = R['E0']
        want = dict(e_z=interp(R['e_z'], U, V, False),
                    rho=-ct.e*p['n_p']*R['rho'], chi=R['chi'])
        er = interp(R['e_r'], U, V, True)
        bt = interp(R['b_t'], U, V, True)
        if p['ppc'] % 2:
            # nodes coincide with sheets, where B jumps: compare the force
            want['w_r'] = er - ct.c*bt
            got['w_r'] = got['e_r'] - ct.c*got['b_t']
        else:
            want['e_r'], want['b_t'] = er, bt
        sc = dict(e_z=E, e_r=E, w_r=E, b_t=E/ct.c, rho=ct.e*p['n_p'],
                  chi=1.)
        bad = [(k, np.max(np.abs(got[k] - want[k]))/sc[k]) for k in want
               if k in got and
               not np.all(np.abs(got[k] - want[k]) <=
                          tol*(sc[k] + np.max(np.abs(want[k]))))]
        if best is None or len(bad) < len(best[0]):
            best = (bad, want, sc)
        if not bad:
            break
    bad, want, sc = best
    slack = {}
    if bad:
        # How much does rounding matter here? Strong drivers on coarse grids
        # amplify it (sheets crossing each other and the axis).
        R0 = qs_ref.solve(p, src, a2)
        rnd = [qs_ref.solve(p, [(x*(1 + e), y, xi, q*(1 + e))
                                for x, y, xi, q in src], a2*(1 + e))
               for e in (2e-14, -3e-14)]
        for k, n in (('e_z', 'e_z'), ('rho', 'rho'), ('chi', 'chi'),
                     ('e_r', 'e_r'), ('b_t', 'b_t'), ('w_r', 'e_r')):
            f = ct.e*p['n_p'] if k == 'rho' else 1.
            slack[k] = 300*f*max(np.max(np.abs(r[n] - R0[n])) for r in rnd)
            if slack[k] > .01*sc[k]:
                ck.chaotic = getattr(ck, 'chaotic', 0) + 1
                return R
    for k in want:
        if k in got:
            ck.close(got[k], want[k], 'wakefield: ' + k, rtol=tol,
                     scale=sc[k] + np.max(np.abs(want[k])),
                     atol=slack.get(k, 0.))
    ck.close(got['asym'], 0*got['asym'], 'fields without axial symmetry',
             atol=1e-12*E)
    return R


def run(job, ck):
    globals()['run_' + job['kind']](job, ck)


def run_solve(job, ck):
    d = job['drv']
    ppcs = (1, 2, 3, 4) if job['grid'] == 0 else (2, 3)
    for ppc, rmp, pc, f in product(
            ppcs, (None, 18e-6, 26e-6), (0., 1.5e9, -1e9),
            (1., .2) if job['strong'] else (1.,)):
        if pc < 0 and ppc > 2:
            continue
        p = params(job['grid'], ppc=ppc, r_max_plasma=rmp, pc=pc,
                   shape=job['shape'], pusher=job['pusher'])
        ck.begin(driver=d, strength=f, **p)
        bs, las = drivers(d, 36e-6, p['r_max'], f)
        with ck.guard():
            fl = build(p, las)
            fl.update(bs)
            compare(ck, fl, p, bs, las)


def run_grids(job, ck):
    for pusher, shape, d, ppc in product(
            ('rk4', 'ab5'), ('linear', 'cubic'), ('both', 'two'), (1, 2)):
        p = params(job['grid'], ppc=ppc, shape=shape, pusher=pusher,
                   n_p=1e23, xi_min=-31e-6, xi_max=4e-6, r_max=29e-6)
        ck.begin(driver=d, **p)
        bs, las = drivers(d, 36e-6, p['r_max'])
        with ck.guard():
            fl = build(p, las)
            fl.update(bs)
            compare(ck, fl, p, bs, las)


def run_blowout(job, ck):
    """Strong drivers: sheets cross each other and the axis."""
    cases = list(product(('lin', 'electrons', 'both'), (2., 4.),
                         (10., 3., 1.3), (0., 1e9)))
    cases += product(('lin', 'flat'), (8., 11.), (10., 25., 60.), (0., 1e9))
    cases += product(('electrons',), (20.,), (10., 3.), (0., 1e9))
    for d, f, mg, pc in cases:
        p = params(0, pusher=job['pusher'], max_gamma=mg, n_xi=job['nxi'],
                   pc=pc)
        ck.begin(driver=d, strength=f, **p)
        bs, las = drivers(d, 36e-6, p['r_max'], f)
        with ck.guard():
            fl = build(p, las)
            fl.update(bs)
            compare(ck, fl, p, bs, las, tol=1e-6)


def run_wide(job, ck):
    """Columns of many skin depths."""
    for d, rmax, shape, f in product(
            ('lin', 'electrons', 'both', 'two'), (150e-6, 400e-6, 700e-6),
            ('linear', 'cubic'), (1., 3.)):
        p = params(0, pusher=job['pusher'], shape=shape, r_max=rmax,
                   n_r=44, n_xi=8)
        ck.begin(driver=d, strength=f, **p)
        bs, las = drivers(d, 36e-6, 24e-6, f)
        with ck.guard():
            fl = build(p, las)
            fl.update(bs)
            compare(ck, fl, p, bs, las, tol=1e-6)


def run_updates(job, ck):
    """Along the plasma: local density and channel at every update."""
    dens = {'flat': lambda z: N_P, 'up': lambda z: N_P*(.3 + z/1e-3),
            'step': lambda z: N_P if z < 2.5e-4 else 2*N_P}
    chan = {'none': 0., 'const': 8e8,
            'fun': lambda z: 1e9*np.cos(8e3*z)}
    for (dn, df), (cn, cf), d in product(dens.items(), chan.items(),
                                         ('two', 'lin', 'circ')):
        p = params(2, pusher=job['pusher'])
        bs, las = drivers(d, 36e-6, p['r_max'])
        dz = 1e-4
        f = build(p, las, dens=df, pc=cf, dz_fields=dz,
                  laser_evolution=False)
        for k in range(job['depth']):
            z = k*dz
            pk = dict(p, n_p=df(z), pc=cf(z) if callable(cf) else cf)
            ck.begin(driver=d, density=dn, channel=cn, update=k)
            with ck.guard():
                f.update(bs)
                compare(ck, f, pk, bs, las)
            for b in bs:
                b.x *= 1.2
                b.xi -= 1e-6


def fields(ck, p, bs, las):
    f = build(p, las)
    f.update(bs)
    return observe(f, p)


def same(ck, a, b, what, s=None, tol=1e-9, rows=slice(None)):
    """b equals a (fields rescaled by s)."""
    E = ct.m_e*ct.c**2/ct.e/skin_depth(N_P)
    ck.step()
    for k in ('e_z', 'e_r', 'b_t', 'rho', 'chi'):
        if k in a and k in b:
            sc = (s or {}).get(k, 1.)
            ref = {'e_z': E, 'e_r': E, 'b_t': E/ct.c, 'rho': ct.e*N_P,
                   'chi': 1.}[k]
            ck.close(b[k][rows]/sc, a[k][rows], what + ': ' + k, rtol=tol,
                     scale=ref)


def run_transform(job, ck):
    from wake_t import GaussianPulse, ParticleBunch
    d = job['drv']
    L, w = 36e-6, 24e-6
    for shape, pc, rmp in product(('linear', 'cubic'), (0., 1e9),
                                  (None, 18e-6)):
        p = params(0, pusher=job['pusher'], shape=shape, pc=pc,
                   r_max_plasma=rmp)
        ctx = dict(driver=d, shape=shape, pc=pc, r_max_plasma=rmp)
        bs, las = drivers(d, L, w)
        ck.begin(transformation='none', **ctx)
        with ck.guard():
            ref = fields(ck, p, bs, las)

        def go(name, bs, las, p=p, **kw):
            ck.begin(transformation=name, **ctx)
            with ck.guard():
                same(ck, ref, fields(ck, p, bs, las), name, **kw)

        new = lambda: drivers(d, L, w)
        # repeated
        go('same again', *new())
        # order and grouping of the bunches
        b, l = new()
        go('order of the bunches', b[::-1], l)
        b, l = new()
        parts = []
        for x in b:
            for sl in (slice(0, 5), slice(5, None)):
                parts.append(ParticleBunch(
                    x.w[sl], x=x.x[sl], y=x.y[sl], xi=x.xi[sl], px=x.px[sl],
                    py=x.py[sl], pz=x.pz[sl], q_species=x.q_species,
                    m_species=x.m_species, name='p'))
        go('bunches split in two', parts, l)
        b, l = new()
        for x in b:
            for k in ('x', 'y', 'xi', 'px', 'py', 'pz', 'w'):
                setattr(x, k, getattr(x, k)[::-1].copy())
        go('order of the particles', b, l)
        # bunches without effect
        b, l = new()
        z = bunch(-20e-12, 9, -.5*L, w/8, name='zero')
        z.w = z.w*0
        go('bunch without charge', b + [z], l)
        go('bunch outside of the box', b + [
            bunch(-20e-12, 9, .5*L, w/8), bunch(-20e-12, 9, -1.5*L, w/8),
            bunch(-20e-12, 9, -.5*L, w/8, sx=2*w)], new()[1])
        # azimuth, energy and mass do not matter
        b, l = new()
        for x in b:
            x.x, x.y = .6*x.x - .8*x.y, .8*x.x + .6*x.y
            x.pz = x.pz*3
            x.px = x.px - 5.
        go('azimuth and momenta', b, l)
        # only the charge of a species matters
        b, l = new()
        b = [ParticleBunch(x.w/3, x=x.x, y=x.y, xi=x.xi, px=x.px, py=x.py,
                           pz=x.pz, q_species=3*x.q_species,
                           m_species=50*ct.m_p, name='h') for x in b]
        go('charge state', b, l)
        # what follows does not act on what is ahead
        b, l = new()
        go('causality', b + [bunch(-20e-12, 9, -.9*L, w/20)], l,
           rows=slice(p['n_xi']//2, -1))
        # polarization
        if l is not None:
            l2 = GaussianPulse(-.35*L, a_0=1.1/np.sqrt(2), w_0=w*.45,
                               tau=.13*L/ct.c, polarization='circular')
            go('circular instead of linear', new()[0], l2)
        # shift along xi
        b, l = new()
        sh = 7e-6
        for x in b:
            x.xi = x.xi + sh
        if l is not None:
            l = GaussianPulse(-.35*L + sh, a_0=1.1, w_0=w*.45,
                              tau=.13*L/ct.c)
        go('shifted box', b, l, p=dict(p, xi_min=p['xi_min'] + sh,
                                       xi_max=p['xi_max'] + sh), tol=1e-6)
        # scaling with the density
        b, l = new()
        for x in b:
            x.x, x.y, x.xi, x.w = x.x/2, x.y/2, x.xi/2, x.w/2
        if l is not None:
            l = GaussianPulse(-.175*L, a_0=1.1, w_0=w*.225,
                              tau=.065*L/ct.c, l_0=.4e-6)
        go('scaling with the density', b, l,
           p=dict(p, n_p=4*N_P, xi_min=p['xi_min']/2, xi_max=0.,
                  r_max=p['r_max']/2, pc=pc*4,
                  r_max_plasma=None if rmp is None else rmp/2),
           s=dict(e_z=2, e_r=2, b_t=2, rho=4), tol=1e-6)
        # the same plasma, as a constant function
        b, l = new()
        ck.begin(transformation='channel as a function', **ctx)
        with ck.guard():
            f = build(p, l, pc=lambda z: pc)
            f.update(b)
            same(ck, ref, observe(f, p), 'channel as a function')
        # the plasma extends to the end of the box by default
        if rmp is None:
            b, l = new()
            go('explicit radius of the plasma', b, l,
               p=dict(p, r_max_plasma=p['r_max']))
    ck.begin(check='unknown pusher')
    p = params(0, pusher='euler')
    ck.raises(ValueError, lambda: build(p, None).update([]),
              'unknown plasma pusher')
    ck.raises(ValueError, lambda: build(params(0, shape='tent'), None).update(
        drivers('two', L, w)[0]), 'unknown particle shape')


def run_jit(job, ck):
    """The compiled kernels."""
    from wake_t import PlasmaStage
    for pusher, shape, d in product(('rk4', 'ab5'), ('linear', 'cubic'),
                                    ('both', 'two')):
        p = params(0, pusher=pusher, shape=shape, pc=1e9)
        ck.begin(compiled=True, driver=d, **p)
        bs, las = drivers(d, 36e-6, p['r_max'])
        with ck.guard():
            f = build(p, las)
            f.update(bs)
            compare(ck, f, p, bs, las)
    for d, n_r, n_xi, n_b in (
            ('circ', 8, 1200, 0), ('lin', 8, 1200, 0), ('two', 8, 1200, 0),
            ('both', 120, 9, 0), ('circ', 120, 9, 0), ('one', 7, 9, 20000)):
        for shape, pusher in (('linear', 'ab5'), ('cubic', 'rk4')):
            p = params(0, pusher=pusher, shape=shape, n_r=n_r, n_xi=n_xi,
                       ppc=2)
            ck.begin(compiled=True, large=True, driver=d, particles=n_b, **p)
            bs, las = drivers(d, 36e-6, p['r_max'], .5)
            if n_b:
                bs.append(bunch(-10e-12, n_b, -18e-6, 4e-6))
            with ck.guard():
                f = build(p, las)
                f.update(bs)
                compare(ck, f, p, bs, las)
