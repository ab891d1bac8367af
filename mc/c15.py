"""C15: the laser envelope evolves by the envelope equation, in any order of
configuring, initialising and evolving."""
from itertools import product

import numpy as np
import scipy.constants as ct

from mc import laser_ref as R

LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration: all sequences of configuring, '
             'initialising and evolving a laser pulse up to a depth, executed '
             'on the real pulse and on a reference state machine with a '
             'dense-matrix solver of the envelope equation, compared after '
             'every operation; lattice of solver parameters; diffraction, '
             'phase advance and energy against exact solutions')
BOUNDS = {
    'quick': 'all sequences of <=4 operations out of 11, and of <=3 more '
             'after 2 histories with evolution, in 4 grid modes; 288 '
             'solver configurations x 3 steps; vacuum propagation of 5 pulses '
             'x 3 distances; compiled and interpreted code; every single parameter '
             'changed by 0.1 % to a factor of 10 after 0-2 steps; '
             'all sequences of <=3 plasma elements out of 5 sharing a pulse',
    'thorough': 'all sequences of <=5 operations out of 11, and of <=4 more '
                'after 2 histories with evolution, in 4 grid modes; '
                'solver configurations x 6 steps; propagation with doubled '
                'resolution',
}
ASSUMPTIONS = ['axially symmetric pulses with a non-vanishing envelope on '
               'axis',
               'lasy is not installed: pulses from files are not covered']
L0 = .8e-6


def job_env(job):
    return ({'NUMBA_DISABLE_JIT': '1'} if not job.get('jit') else
            {'NUMBA_NUM_THREADS': '1'})


ENV = {'NUMBA_DISABLE_JIT': '1'}


def jobs(tier):
    q = tier == 'quick'
    js = [dict(kind='solver', jit=True, steps=3 if q else 6, part=-1)]
    for mode in range(4):
        for a in range(11):
            js.append(dict(kind='seq', mode=mode, first=a,
                           depth=4 if q else 5))
        for pre in ([0, 8, 9], [0, 8, 9, 10]):
            for a in range(11):
                js.append(dict(kind='seq', mode=mode, first=pre + [a],
                               depth=3 if q else 4))
    for p in range(8):
        js.append(dict(kind='solver', part=p, steps=3 if q else 6))
    for k in range(5):
        js.append(dict(kind='vacuum', pulse=k, res=1 if q else 2))
    js.append(dict(kind='plasma', res=1 if q else 2))
    js.append(dict(kind='errors'))
    for mode in range(4):
        js.append(dict(kind='change', mode=mode, deep=not q))
    js.append(dict(kind='large'))
    for mode in range(4):
        js.append(dict(kind='stages', mode=mode))
    return js


def weight(j):
    if j['kind'] == 'seq':
        return 8 if j['depth'] == 4 else 90
    return 60 if j.get('jit') else 20 if j['kind'] == 'vacuum' else 8


def pulses(k, xi_c=0., z_foc=1e-3, a0=.7, w0=20e-6, tau=20e-15):
    from wake_t import (GaussianPulse, LaguerreGaussPulse,
                        FlattenedGaussianPulse)
    kw = dict(tau=tau, z_foc=z_foc, l_0=L0)
    if k == 0:
        return GaussianPulse(xi_c, a0, w0, cep_phase=.4, **kw)
    if k == 1:
        return LaguerreGaussPulse(xi_c, 1, a0, w0, **kw)
    if k == 2:
        return FlattenedGaussianPulse(xi_c, a0, w0, N=3, **kw)
    if k == 3:
        kw2 = dict(kw, tau=1.5*tau)
        return (GaussianPulse(xi_c, a0, w0, **kw)
                + GaussianPulse(xi_c - 3e-6, .5*a0, 1.3*w0, **kw2))
    kw['z_foc'] = -2*z_foc
    return GaussianPulse(xi_c, a0, .8*w0, polarization='circular', **kw)


def chi_of(kind, nz, nr):
    i, j = np.meshgrid(np.arange(nz), np.arange(nr), indexing='ij')
    if kind == 0:
        return np.zeros((nz, nr))
    if kind == 1:
        return np.ones((nz, nr))
    return .6 + .3*np.sin(1. + 9.*i/nz) + .2*np.cos(7.*j/nr)


def run(job, ck):
    {'seq': sequences, 'solver': solver, 'vacuum': vacuum, 'plasma': plasma,
     'errors': errors, 'change': change, 'large': large,
     'stages': stages}[job['kind']](ck, job)


# -- state machine -----------------------------------------------------------
MODES = [dict(nz=7, nr=5), dict(nz=7, nr=5, sz=9, sr=8),
         dict(nz=9, nr=6, sz=6), dict(nz=7, nr=6, sr=4)]
BASE = dict(zmin=-20e-6, zmax=15e-6, rmax=60e-6)
DT = 40e-6/ct.c


def op_set(mode, dt=DT, nt=1, **kw):
    g = dict(BASE, **MODES[mode])
    g.update(kw)
    return ('set', dict(g, dt=dt, nt=nt))


def ops(mode):
    m = MODES[mode]
    sub = {'sz': m.get('sz', m['nz']), 'sr': m.get('sr', m['nr'])}
    return [
        op_set(mode), op_set(mode, dt=.5*DT), op_set(mode, nt=3),
        op_set(mode, dt=2*DT, nt=2), op_set(mode, use_phase=False),
        # other plasma grid, same laser grid
        op_set(mode, nz=m['nz'] + 3, nr=m['nr'] + 1, **sub),
        # other laser grid
        op_set(mode, nz=m['nz'] + 1, **({'sz': m['sz'] + 1} if 'sz' in m
                                        else {})),
        op_set(mode, zmax=16e-6),
        ('init',), ('evolve', 2, 2e24), ('evolve', 1, 7e23)]


def apply_real(p, op, model):
    if op[0] == 'set':
        k = op[1]
        # What is at its default is left out.
        kw = {}
        for name, key, default in (('nt', 'nt', 1), ('subgrid_nz', 'sz', None),
                                   ('subgrid_nr', 'sr', None),
                                   ('use_phase', 'use_phase', True)):
            if k.get(key, default) != default:
                kw[name] = k[key]
        p.set_envelope_solver_params(
            k['zmin'], k['zmax'], k['rmax'], k['nz'], k['nr'], k['dt'], **kw)
    elif op[0] == 'init':
        p.initialize_envelope()
    else:
        p.evolve(chi_of(op[1], *model.grid), op[2])


def apply_model(m, op):
    if op[0] == 'set':
        return m.set(**op[1])
    if op[0] == 'init':
        return m.init()
    return m.evolve(chi_of(op[1], *m.grid), op[2])


def check(ck, p, m, scale=None):
    got = p.get_envelope()
    if m.out is None:
        ck.expect(got is None, 'envelope before the initialisation')
        return
    ck.comparisons += 1
    if got is None or got.shape != m.out.shape:
        ck.fail('shape of the envelope', got=None if got is None
                else got.shape, want=m.out.shape)
        return
    ck.close(got, m.out, 'laser envelope', rtol=0,
             atol=1e-8*abs(m.out).max())


def sequences(ck, job):
    mode = job['mode']
    al = ops(mode)
    for n in range(job['depth']):
        for rest in product(range(len(al)), repeat=n):
            first = job['first']
            seq = (first if isinstance(first, list) else [first]) + list(rest)
            # Every configuration starts with the standard grid, or empty.
            one_sequence(ck, mode, al, seq)


def one_sequence(ck, mode, al, seq, label=None):
    from wake_t import GaussianPulse
    # Evolving something not initialised is not a use of the pulse.
    is_set = inited = False
    for i in seq:
        is_set |= al[i][0] == 'set'
        inited |= al[i][0] == 'init' and is_set
        if al[i][0] == 'evolve' and not inited:
            return
    if al[seq[-1]][0] == 'set' and len(seq) > 1 and 'init' not in [
            al[i][0] for i in seq]:
        return
    ck.begin(mode=mode, sequence=[
        al[i][0] + (str(i) if al[i][0] == 'set' else '') for i in seq],
        change=label)
    with ck.guard('operation raised'):
        p = GaussianPulse(0., .7, 20e-6, 20e-15, z_foc=1e-3, l_0=L0,
                          cep_phase=.3)
        m = R.Model(p.envelope_function, L0)
        for i in seq:
            want = apply_model(m, al[i])
            ck.step()
            if want is None:
                apply_real(p, al[i], m)
            else:
                ck.raises(want, lambda: apply_real(p, al[i], m),
                          'refused operation')
        check(ck, p, m)
        ck.state(mode, None if m.out is None else m.out.shape, m.n,
                 None if m.p is None else (m.p['dt'], m.p['nt']),
                 None if m.out is None else np.round(m.out, 6).tobytes())


def change(ck, job):
    """Every single parameter changed by little or much, after 0-2 steps."""
    mode = job['mode']
    m = MODES[mode]
    new = [op_set(mode)]
    new += [op_set(mode, dt=DT*f) for f in (1.002, .998, 1.02, .95, 1.1, 1.3,
                                            3., 10., .1)]
    new += [op_set(mode, dt=DT*f, nt=n) for f, n in
            ((1, 2), (2, 2), (3, 3), (1, 4), (.5, 1), (1.01, 2),
             (1, 20), (40, 40))]
    for k, fs in (('zmin', (1.001, .9, 1.5)), ('zmax', (1.001, .9, 1.5)),
                  ('rmax', (1.001, .9, 1.5))):
        new += [op_set(mode, **{k: BASE[k]*f}) for f in fs]
    for k in ('nz', 'nr', 'sz', 'sr'):
        if k in m:
            new += [op_set(mode, **{k: m[k] + d}) for d in (-1, 1)]
    new += [op_set(mode, use_phase=False),
            op_set(mode, dt=DT*1.02, use_phase=False),
            op_set(mode, sz=m.get('sz', m['nz']), sr=m.get('sr', m['nr'])),
            op_set(mode, nz=m['nz'], nr=m['nr'], sz=None, sr=None)]
    evs = [[('evolve', 2, 2e24), ('evolve', 1, 7e23)],
           [('evolve', 0, 2e24), ('evolve', 2, 1e19)]]
    for ev, before, n in product(evs, range(3), range(len(new))):
        al = [op_set(mode), ('init',)] + ev + [new[n]]
        for tail in ([], [2], [2, 3], [1, 3]) if not job['deep'] else (
                [], [2], [2, 3], [1, 3], [3, 3, 3], [0, 2, 3], [1, 2, 4, 3]):
            one_sequence(ck, mode, al,
                         [0, 1] + [2, 3][:before] + [4] + list(tail),
                         label=repr(new[n]))


def large(ck, job):
    """A grid of a realistic size, and many steps."""
    for (nz, nr), steps, nt in (((130, 9), 3, 1), ((6, 150), 3, 2),
                                ((7, 5), 150, 1), ((6, 6), 4, 12)):
        ck.begin(grid=[nz, nr], steps=steps, substeps=nt)
        with ck.guard('solver raised'):
            p = pulses(0)
            m = R.Model(p.envelope_function, L0)
            a = dict(zmin=-15e-6, zmax=12e-6, rmax=70e-6, nz=nz, nr=nr,
                     dt=30e-6/ct.c, nt=nt)
            m.set(**a)
            apply_real(p, ('set', a), m)
            m.init()
            p.initialize_envelope()
            for s in range(steps):
                x = chi_of(2, nz, nr)*(1 + .02*s)
                m.evolve(x, 1e24)
                p.evolve(x, 1e24)
                ck.step()
                check(ck, p, m)
            ck.state('large', nz, nr, steps, nt)


def stage(length, dens, k, mode, laser, evolves=True, **kw):
    """A plasma element with a prescribed susceptibility."""
    from wake_t import PlasmaStage
    from wake_t.fields.rz_wakefield import RZWakefield
    g = MODES[mode]

    class Prescribed(RZWakefield):
        def _calculate_wakefield(self, bunches):
            self.chi[2:-2, 2:-2] = chi_at(self.t*ct.c, g, k)

        def _gather(self, *a):
            pass

    return PlasmaStage(length, dens, Prescribed(
        dens, BASE['rmax'], BASE['zmin'], BASE['zmax'], g['nr'], g['nz'],
        dz_fields=40e-6, laser=laser, laser_evolution=evolves,
        laser_envelope_nxi=g.get('sz'), laser_envelope_nr=g.get('sr'), **kw))


def chi_at(z, g, k):
    return chi_of(2, g['nz'], g['nr'])*(1 + .3*k + 2e3*z)


def stages(ck, job):
    """Sequences of plasma elements: each evolves the laser with the density
    and the susceptibility that it has at the time of each refresh."""
    mode = job['mode']
    g = MODES[mode]
    els = [(1.1e-4, lambda z: 1e24, 1, True, True),
           (1.7e-4, lambda z: 1e24*(.2 + 1e4*z), 1, True, True),
           (.9e-4, lambda z: 3e24*np.exp(-2e4*z), 3, True, True),
           (.3e-4, lambda z: 2e24, 1, False, True),
           (1.1e-4, lambda z: 2e24, 1, True, False)]
    for seq in [s for d in (1, 2, 3) for s in product(range(5), repeat=d)]:
        ck.begin(grid=mode, elements=seq)
        with ck.guard('tracking raised'):
            p = pulses(0)
            m = R.Model(p.envelope_function, L0)
            for j, i in enumerate(seq):
                L, dens, nt, ph, ev = els[i]
                stage(L, dens, j, mode, p, ev, laser_envelope_substeps=nt,
                      laser_envelope_use_phase=ph).track(
                          [], show_progress_bar=False)
                n = int(np.ceil(L/40e-6))
                m.set(**dict(BASE, **g, dt=L/ct.c/n, nt=nt, use_phase=ph))
                m.init()
                for s in range(n if ev else 0):
                    m.evolve(chi_at(s*L/n, g, j), dens(s*L/n))
                ck.step(n)
                check(ck, p, m)
                ck.state('stages', mode, seq[:j + 1])


# -- solver lattice ----------------------------------------------------------
def solver(ck, job):
    lattice = list(product(
        [0, 2, 4], [(5, 4), (11, 7)], [10e-6, 200e-6], [1, 4],
        [True, False], [0, 1, 2], [1e22, 5e24]))
    for n, (k, (nz, nr), d, nt, ph, chi, n_p) in enumerate(lattice):
        if job['part'] >= 0 and n % 8 != job['part']:
            continue
        if job['part'] < 0 and n % 5:
            continue
        ck.begin(pulse=k, grid=[nz, nr], step=d, substeps=nt, use_phase=ph,
                 chi=chi, n_p=n_p, compiled=bool(job.get('jit')))
        with ck.guard('solver raised'):
            p = pulses(k)
            m = R.Model(p.envelope_function, L0)
            a = dict(zmin=-15e-6, zmax=12e-6, rmax=70e-6, nz=nz, nr=nr,
                     dt=d/ct.c, nt=nt, use_phase=ph)
            m.set(**a)
            apply_real(p, ('set', a), m)
            m.init()
            p.initialize_envelope()
            check(ck, p, m)
            for s in range(job['steps']):
                x = chi_of(chi, nz, nr)*(1 + .1*s)
                keep = x.copy()
                m.evolve(x, n_p)
                p.evolve(x, n_p)
                ck.step()
                ck.same(x, keep, 'chi is only read')
                check(ck, p, m)
            ck.state(n, job.get('jit', False))


# -- exact solutions ---------------------------------------------------------
def energy(a, r):
    return np.sum(np.abs(a)**2*r[None, :])


def vacuum(ck, job):
    """Propagation without plasma = the analytical profile downstream."""
    res = job['res']
    nz, nr, rmax = 25*res, 80*res, 140e-6
    for n, (dist, sub) in enumerate(product([.3e-3, 1e-3, 2e-3],
                                            [False, True])):
        ck.begin(vacuum=job['pulse'], distance=dist, subgrid=sub)
        with ck.guard('propagation raised'):
            p = pulses(job['pulse'], tau=80e-15)
            ns = max(10, int(dist/70e-6))*res
            kw = dict(zmin=-65e-6, zmax=60e-6, rmax=rmax, nz=nz, nr=nr,
                      dt=dist/ns/ct.c, nt=1 if n % 3 else 2)
            if sub:
                kw.update(nz=nz + 4, nr=nr, sz=nz, sr=nr)
            apply_real(p, ('set', kw), None)
            p.initialize_envelope()
            z, r, _, _ = R.axes(kw, kw['nz'], kw['nr'])
            a0 = p.get_envelope().copy()
            for _ in range(ns):
                p.evolve(np.zeros((kw['nz'], kw['nr'])), 1e24)
                ck.step()
            want = p.envelope_function(*np.meshgrid(z, r, indexing='ij'), dist)
            got = p.get_envelope()
            ck.close(abs(got), abs(want), 'diffraction in vacuum', rtol=0,
                     atol=.04*abs(want).max())
            i = np.argmax(abs(want[:, 0]))
            sel = abs(want[i]) > .3*abs(want[i]).max()
            ck.close(np.angle(got[i]/want[i])[sel], 0*r[sel],
                     'phase in vacuum', rtol=0, atol=.08)
            ck.close(energy(got, r)/energy(a0, r), 1., 'energy in vacuum',
                     rtol=0, atol=.01)
            ck.state('vacuum', job['pulse'], dist, sub)


def plasma(ck, job):
    """A broad pulse in a uniform plasma: phase advance, slippage."""
    from wake_t import GaussianPulse
    res = job['res']
    for n_p, chi in product([1e24, 4e24], [1., .5]):
        nz, nr = 60*res, 6
        ck.begin(uniform_plasma=n_p, chi=chi)
        with ck.guard('propagation raised'):
            p = GaussianPulse(5e-6, .1, 1., 25e-15, l_0=L0)
            kw = dict(zmin=-25e-6, zmax=30e-6, rmax=1e-2, nz=nz, nr=nr,
                      dt=20e-6/ct.c, nt=1)
            apply_real(p, ('set', kw), None)
            p.initialize_envelope()
            z, r, _, _ = R.axes(kw, nz, nr)
            ns = 40*res
            for _ in range(ns):
                p.evolve(np.full((nz, nr), chi), n_p)
                ck.step()
            kp2 = ct.e**2*n_p*chi/(ct.m_e*ct.epsilon_0)/ct.c**2
            k0 = 2*np.pi/L0
            d = ns*20e-6
            a = p.get_envelope()[:, 0]
            w = abs(a)**2
            # Dispersion relation of the plasma at the carrier wavenumber.
            ck.close(np.sum(w*z)/np.sum(w) - 5e-6, -d*.5*kp2/k0**2,
                     'slippage of the pulse', rtol=.1)
            i = np.argmax(w)
            ph = -d*.5*kp2/k0
            ck.close(np.angle(a[i]*np.exp(-1j*ph)), 0., 'phase advance',
                     rtol=0, atol=.02 + .02*abs(ph))
            ck.state('plasma', n_p, chi)
    # Group velocity.
    from wake_t import GaussianPulse as G
    for n_p, l0 in product([0., 1e22, 1e24, 1e26], [.4e-6, .8e-6, 10e-6]):
        ck.begin(group_velocity=n_p, l_0=l0)
        wp2 = n_p*ct.e**2/(ct.m_e*ct.epsilon_0)
        k = 2*np.pi/l0
        ck.close(G(0., 1., 1e-5, 1e-14, l_0=l0).get_group_velocity(n_p),
                 1/np.sqrt(1 + wp2/(k*ct.c)**2), 'group velocity', rtol=1e-12)


def errors(ck, job):
    from wake_t import GaussianPulse
    ck.begin(errors=True)
    for nt in [0, -1]:
        p = GaussianPulse(0., .7, 20e-6, 20e-15)
        ck.raises(ValueError, lambda: p.set_envelope_solver_params(
            -1e-5, 1e-5, 5e-5, 6, 6, 1e-14, nt), 'no substeps')
    p = GaussianPulse(0., .7, 20e-6, 20e-15)
    ck.raises(ValueError, p.initialize_envelope, 'nothing configured')
    ck.expect(p.get_envelope() is None, 'envelope of a new pulse')
    # Two pulses do not share anything.
    ps = [GaussianPulse(0., a, 20e-6, 20e-15) for a in (.5, 1.)]
    for p in ps:
        p.set_envelope_solver_params(-1e-5, 1e-5, 5e-5, 6, 6, 1e-14)
        p.initialize_envelope()
    keep = ps[1].get_envelope().copy()
    ps[0].evolve(np.ones((6, 6)), 1e24)
    ck.same(ps[1].get_envelope(), keep, 'pulses are independent')
