"""C19: cold-fluid plasma wakefields."""
from itertools import product

import numpy as np
import scipy.constants as ct

from mc import fluid_ref
from mc.c18 import (GRIDS, DRIVERS, N_P, bunch, drivers, points, observe,
                    interp, same)

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of small grids x drivers x options; on '
             'each, the wake of the real solver is compared with an '
             'independent integration of the fluid equations for every '
             'radial slice, and with itself under every transformation that '
             'must not change (or must only rescale) the wake')
BOUNDS = {
    'quick': '2 shapes x 11 drivers x with/without beam wakefields x 6 grids '
             'x 2 densities; 9 transformations x 2 shapes x 5 drivers; '
             'sequences of <=4 updates along 3 density profiles with and '
             'without laser evolution; compiled kernels; grids of up to '
             '140 x 30 and 6 x 130 cells',
    'thorough': 'as quick with 4 driver strengths, 4 densities, sequences of '
                '<=8 updates',
}
ASSUMPTIONS = ['the laser is negligible at the rear end of the box',
               'grids of at least 3 x 3 cells, as the second-order '
               'differences need']
ORACLE = 'mc/fluid_ref.py, tolerance 1e-8'


def job_env(j):
    return {} if j['kind'] == 'jit' else {'NUMBA_DISABLE_JIT': '1'}


def jobs(tier):
    q = tier == 'quick'
    js = [dict(kind='solve', drv=d, shape=s,
               f=[1., .3] if q else [1., .3, .03, 1.6],
               dens=[1., .4] if q else [1., .4, 2., .1])
          for d in DRIVERS for s in ('linear', 'cubic')]
    js += [dict(kind='transform', drv=d)
           for d in ('lin', 'electrons', 'two', 'both', 'offaxis')]
    js += [dict(kind='updates', depth=4 if q else 8, evol=e)
           for e in (False, True)]
    js.append(dict(kind='jit'))
    js += [dict(kind='large', drv=d) for d in ('both', 'two', 'many')]
    return js


def weight(j):
    return {'solve': 3, 'transform': 4, 'updates': 5, 'jit': 12,
            'large': 4}[j['kind']]


def build(p, las=None, dens=None, **kw):
    from wake_t.physics_models.plasma_wakefields import \
        NonLinearColdFluidWakefield
    return NonLinearColdFluidWakefield(
        dens or (lambda z: p['n_p']), r_max=p['r_max'], xi_min=p['xi_min'],
        xi_max=p['xi_max'], n_r=p['n_r'], n_xi=p['n_xi'],
        p_shape=p['shape'], beam_wakefields=p['beam'], laser=las, **kw)


def params(grid=0, **kw):
    nr, nz = GRIDS[grid]
    p = dict(n_p=N_P, r_max=24e-6, xi_min=-36e-6, xi_max=0., n_r=nr, n_xi=nz,
             shape='cubic', beam=True)
    p.update(kw)
    return p


def sources(d, p, f=1.):
    # beams much weaker than for the 2D model: the 1D response to the local
    # density has no blowout
    bs, las = drivers(d, 36e-6, p['r_max'], f)
    for b in bs:
        b.w = b.w*.02
    return bs, las


def envelope(las, p):
    if las is None:
        return np.zeros((p['n_xi'], p['n_r']))
    a = np.abs(las.get_envelope())
    return a/np.sqrt(2) if las.polarization == 'linear' else a


def compare(ck, f, p, bs, las):
    got = observe(f, p)
    ck.state(got['e_z'], got['rho'])
    ck.step(p['n_xi'])
    R = fluid_ref.solve(p, [(b.x, b.y, b.xi, b.q) for b in bs],
                        envelope(las, p), p['beam'])
    U, V = points(p)[:2]
    E = R['E0']
    for k, odd, sc in (('e_z', False, E), ('e_r', True, E),
                       ('b_t', True, E/ct.c)):
        w = interp(R[k], U, V, odd)
        ck.close(got[k], w, 'fluid wake: ' + k, rtol=1e-8,
                 scale=sc + np.max(np.abs(w)))
    ck.close(got['rho'], -ct.e*p['n_p']*R['rho'], 'fluid wake: rho',
             rtol=1e-8)
    if 'chi' in got:
        ck.close(got['chi'], R['chi'], 'fluid wake: chi', rtol=1e-8)
    ck.close(got['asym'], 0*got['asym'], 'fields without axial symmetry',
             atol=1e-12*E)


def run(job, ck):
    globals()['run_' + job['kind']](job, ck)


def run_solve(job, ck):
    for g, beam, f, n in product(range(len(GRIDS)), (False, True), job['f'],
                                 job['dens']):
        p = params(g, beam=beam, shape=job['shape'], n_p=n*N_P)
        ck.begin(driver=job['drv'], strength=f, **p)
        bs, las = sources(job['drv'], p, f)
        with ck.guard():
            fl = build(p, las)
            fl.update(bs)
            compare(ck, fl, p, bs, las)


def run_large(job, ck):
    for (nr, nz), shape, beam in product([(70, 8), (6, 130), (140, 30)],
                                         ('linear', 'cubic'), (False, True)):
        p = params(0, n_r=nr, n_xi=nz, shape=shape, beam=beam)
        ck.begin(driver=job['drv'], **p)
        bs, las = sources(job['drv'], p)
        with ck.guard():
            fl = build(p, las)
            fl.update(bs)
            compare(ck, fl, p, bs, las)


def run_updates(job, ck):
    dens = {'flat': lambda z: N_P, 'up': lambda z: N_P*(.3 + z/1e-3),
            'step': lambda z: N_P if z < 2.5e-4 else 2*N_P}
    for (dn, df), d, beam in product(dens.items(),
                                     ('both', 'two', 'lin', 'circ'),
                                     (False, True)):
        p = params(1, beam=beam)
        bs, las = sources(d, p)
        dz = 1e-4
        f = build(p, las, dens=df, dz_fields=dz, laser_evolution=job['evol'])
        for k in range(job['depth']):
            ck.begin(driver=d, density=dn, update=k, beam=beam,
                     evolution=job['evol'])
            with ck.guard():
                f.update(bs)
                compare(ck, f, dict(p, n_p=df(k*dz)), bs, las)
            for b in bs:
                b.x *= 1.2
                b.xi -= 1e-6


def run_transform(job, ck):
    from wake_t import GaussianPulse, ParticleBunch
    d = job['drv']
    L, w = 36e-6, 24e-6
    for shape, beam in product(('linear', 'cubic'), (False, True)):
        p = params(0, shape=shape, beam=beam)
        ctx = dict(driver=d, shape=shape, beam=beam)

        def fields(bs, las, p=p):
            f = build(p, las)
            f.update(bs)
            return observe(f, p)

        def new():
            return sources(d, p)
        ck.begin(transformation='none', **ctx)
        with ck.guard():
            ref = fields(*new())

        def go(name, bs, las, p=p, **kw):
            ck.begin(transformation=name, **ctx)
            with ck.guard():
                same(ck, ref, fields(bs, las, p), name, **kw)
        go('same again', *new())
        b, l = new()
        go('order of the bunches', b[::-1], l)
        b, l = new()
        parts = []
        for x in b:
            for sl in (slice(0, 5), slice(5, None)):
                parts.append(ParticleBunch(
                    x.w[sl], x=x.x[sl], y=x.y[sl], xi=x.xi[sl], px=x.px[sl],
                    py=x.py[sl], pz=x.pz[sl], q_species=x.q_species,
                    m_species=x.m_species, name='p'))
        go('bunches split in two', parts, l)
        b, l = new()
        z = bunch(-20e-12, 9, -.5*L, w/8, name='zero')
        z.w = z.w*0
        go('bunch without charge', b + [z], l)
        b, l = new()
        go('bunch outside of the box', b + [
            bunch(-20e-12, 9, .5*L, w/8), bunch(-20e-12, 9, -1.5*L, w/8),
            bunch(-20e-12, 9, -.5*L, w/8, sx=2*w)], l)
        b, l = new()
        for x in b:
            x.x, x.y = .6*x.x - .8*x.y, .8*x.x + .6*x.y
            x.pz = x.pz*3
            x.px = x.px - 5.
        go('azimuth and momenta', b, l)
        b, l = new()
        b = [ParticleBunch(x.w/3, x=x.x, y=x.y, xi=x.xi, px=x.px, py=x.py,
                           pz=x.pz, q_species=3*x.q_species,
                           m_species=50*ct.m_p, name='h') for x in b]
        go('charge state', b, l)
        b, l = new()
        go('causality', b + [bunch(-.4e-12, 9, -.9*L, w/20)], l,
           rows=slice(p['n_xi']//2, -1))
        if l is not None:
            go('circular instead of linear', new()[0], GaussianPulse(
                -.35*L, a_0=1.1/np.sqrt(2), w_0=w*.45, tau=.13*L/ct.c,
                polarization='circular'))
        b, l = new()
        sh = 7e-6
        for x in b:
            x.xi = x.xi + sh
        if l is not None:
            l = GaussianPulse(-.35*L + sh, a_0=1.1, w_0=w*.45,
                              tau=.13*L/ct.c)
        go('shifted box', b, l, p=dict(p, xi_min=p['xi_min'] + sh,
                                       xi_max=p['xi_max'] + sh), tol=1e-6)
        b, l = new()
        for x in b:
            x.x, x.y, x.xi, x.w = x.x/2, x.y/2, x.xi/2, x.w/2
        if l is not None:
            l = GaussianPulse(-.175*L, a_0=1.1, w_0=w*.225,
                              tau=.065*L/ct.c, l_0=.4e-6)
        go('scaling with the density', b, l,
           p=dict(p, n_p=4*N_P, xi_min=p['xi_min']/2, xi_max=0.,
                  r_max=p['r_max']/2),
           s=dict(e_z=2, e_r=2, b_t=2, rho=4), tol=1e-6)
    # without driver there is no wake
    for g, shape, beam in product(range(len(GRIDS)), ('linear', 'cubic'),
                                  (False, True)):
        p = params(g, shape=shape, beam=beam)
        ck.begin(driver='none', **p)
        with ck.guard():
            f = build(p)
            f.update([])
            o = observe(f, p)
            for k in ('e_z', 'e_r', 'b_t'):
                ck.close(o[k], 0*o[k], 'wake without driver: ' + k)
            ck.close(o['rho'], -ct.e*N_P*np.ones_like(o['rho']),
                     'undisturbed plasma', rtol=1e-12)


def run_jit(job, ck):
    for shape, d, beam in product(('linear', 'cubic'),
                                  ('both', 'two', 'circ'), (False, True)):
        p = params(3, shape=shape, beam=beam)
        ck.begin(compiled=True, driver=d, **p)
        bs, las = sources(d, p)
        with ck.guard():
            f = build(p, las)
            f.update(bs)
            compare(ck, f, p, bs, las)
