"""C14: coherent synchrotron radiation acts as the 1D radiation field of the
bunch on the orbit travelled since the last reset."""
from itertools import product

import numpy as np
import scipy.constants as ct

from mc import csr_ref as R

LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration of the (global) CSR calculator: all '
             'sequences of elements, resets, CSR-off elements and setting '
             'changes up to a depth are executed on the real code; the model '
             'state is the orbit since the last reset, and the energy kick '
             'along the bunch in every reached state is compared with a '
             'direct integration of the retarded field over that orbit; '
             'lattice of single elements, energies, species and outputs')
BOUNDS = {
    'quick': 'all sequences of <=3 operations out of 7; 64 single '
             'configurations (energy, length, bunch length, species) and 5 '
             'long beamlines; n_out none,1..4 x 4 CSR steps; symmetries on '
             '4 bunches; CSR steps of 1-5 points of the orbit; 700 and 3000 '
             'particles in 200 and 400 bins; 3 slow beams (gamma 3-10) x 12 '
             'configurations; 20 and 50 outputs',
    'thorough': 'all sequences of <=4 operations out of 7; 160 single '
                'configurations; n_out none,1..8 x 8 CSR steps',
}
ASSUMPTIONS = ['bunches of a finite length and charge, tracked forwards',
               'the line charge is the Gaussian kernel estimate with '
               'bandwidth n^(-1/5); the outermost 5% of the particles, where '
               'the estimate is cut by the histogram range, are not compared',
               'kicks small enough not to deform the bunch in the comparison; '
               'orbit steps that resolve the field (the default for gamma '
               '>= 20; 3.5% of its maximum)',
               'elements with a positive length']
ENV = {'NUMBA_DISABLE_JIT': '1', 'OMP_NUM_THREADS': '1'}
TOL = .035

OPS = [('D', .2, .1), ('D', .15, -.08), ('O', .1, 0.), ('Q', .12, 0.),
       ('off', .1, 0.), ('reset',), ('set',)]


def jobs(tier):
    q = tier == 'quick'
    js = []
    for a in range(len(OPS)):
        for b in range(len(OPS)):
            js.append(dict(kind='seq', first=[a, b], depth=3 if q else 4))
    js.append(dict(kind='seq', first=[], depth=1))
    gs = [20., 300., 5000., 20000.] if q else [20., 60., 300., 2000., 20000.,
                                               1e5]
    for k in ([1, 2, 3, 5] if q else [1, 2, 3, 4, 5, 7, 10]):
        js.append(dict(kind='fine', points=k))
    js.append(dict(kind='dense'))
    for g in gs:
        js.append(dict(kind='single', gamma=g, deep=not q))
    for k in range(5):
        js.append(dict(kind='long', line=k))
    for n in ([None, 1, 2, 3, 4] if q else [None, 1, 2, 3, 4, 5, 6, 7, 8]):
        js.append(dict(kind='outputs', n_out=n, steps=[.1, .05, .07, .5] if q
                       else [.1, .05, .07, .5, .03, .2, .11, .025]))
    js.append(dict(kind='symmetry'))
    for g in ([3., 5., 10.] if q else [2.5, 3., 4., 5., 7., 10., 15.]):
        js.append(dict(kind='slow', gamma=g))
    js.append(dict(kind='many_outputs'))
    js.append(dict(kind='defaults'))
    return js


def weight(j):
    return {'seq': 6 if j.get('depth') == 3 else 40, 'long': 4,
            'single': 8, 'outputs': 6}.get(j['kind'], 3)


def profile(sig, n=120, shape=0):
    from scipy.special import erfinv
    u = (np.arange(n) + .5)/n
    z = np.sqrt(2)*erfinv(2*u - 1)
    if shape == 1:
        z = z + .25*z*np.abs(z)*(z > 0)
    if shape == 2:
        z = np.concatenate([z[::2] - 1.5, .7*z[1::2] + 2.])
    return np.sort(z)*sig


def make(z, gamma, charge=1e-14, q=-ct.e, m=ct.m_e, full=False, w=None):
    from wake_t import ParticleBunch
    n = len(z)
    k = np.arange(n)
    w = 1. + .5*(k % 3) if w is None else w
    o = np.zeros(n)
    a = 1. if full else 0.
    return ParticleBunch(
        w=w/w.sum()*charge/abs(q), x=a*1e-5*np.sin(k), y=a*2e-5*np.cos(3*k),
        xi=z.copy(), px=a*.2*np.sin(5*k), py=a*.1*np.cos(7*k),
        pz=o + np.sqrt(gamma**2 - 1)*(1 + a*1e-4*np.sin(11*k)),
        q_species=q, m_species=m, name='b')


def gam(b):
    return np.sqrt(1 + b.px**2 + b.py**2 + b.pz**2)


def settings(step=.1, traj=5e-4, bins=400):
    from wake_t import set_csr_settings
    set_csr_settings(csr_step=step, csr_traj_step=traj, n_bins=bins)


def reset():
    from wake_t.physics_models.collective_effects.csr import (
        reset_csr_calculator)
    reset_csr_calculator()


def elem(kind, L, th, gamma, n_out=None):
    from wake_t import Dipole, Drift, Quadrupole
    if kind == 'D':
        return Dipole(L, th, csr_on=True, gamma_ref=gamma, n_out=n_out)
    if kind == 'Q':
        return Quadrupole(L, 3., csr_on=True, gamma_ref=gamma, n_out=n_out)
    return Drift(L, csr_on=kind != 'off', gamma_ref=gamma, n_out=n_out)


_memo = {}


def oracle(els, s0, s1, gamma, z, b, zq, n_s=60):
    key = (tuple(els), s0, s1, gamma, z.tobytes(), b.q_species, b.m_species,
           float(b.q.sum()), n_s)
    if key not in _memo:
        if len(_memo) > 3000:
            _memo.clear()
        _memo[key] = R.kick(els, s0, s1, gamma, z, b.q, zq,
                            q_species=b.q_species, m_species=b.m_species,
                            n_s=n_s)
    return _memo[key]


def quantiles(z):
    return np.quantile(z, [.08, .15, .3, .45, .6, .75, .85, .92])


def compare(ck, what, b, got, els, s0, s1, gamma, z):
    zq = quantiles(z)
    want = oracle(els, s0, s1, gamma, z, b, zq)
    # What a bend of the same length would do sets the scale where the field
    # vanishes.
    ref = oracle([(.2, .1)], 0., .2, gamma, z, b, zq)
    scale = max(abs(want).max(), 5e-2*abs(ref).max())
    ck.close(np.interp(zq, z, got), want, what, rtol=0, atol=TOL*scale,
             orbit=els)


def run(job, ck):
    kind = job['kind']
    if kind == 'seq':
        if not job['first']:
            for a in range(len(OPS)):
                sequence(ck, [a])
            return
        for k in range(job['depth'] - len(job['first']) + 1):
            for rest in product(range(len(OPS)), repeat=k):
                sequence(ck, job['first'] + list(rest))
    else:
        {'single': single, 'long': long, 'outputs': outputs,
         'symmetry': symmetry, 'fine': fine, 'dense': dense,
         'slow': slow, 'many_outputs': many_outputs,
         'defaults': run_defaults}[kind](ck, job)


def sequence(ck, ops):
    last = OPS[ops[-1]][0]
    if last in ('reset', 'set'):
        return      # observed by what follows
    gamma = 300.
    z = profile(2e-5, shape=1)
    ck.begin(sequence=[OPS[i][0] + (str(OPS[i][2]) if len(OPS[i]) > 1 else '')
                       for i in ops])
    with ck.guard('tracking raised'):
        settings()
        reset()
        objs = {}
        b = make(z, gamma)
        els = []
        s = dist = 0.
        for i in ops:
            op = OPS[i]
            ck.step()
            if op[0] == 'reset':
                reset()
                els = []
                continue
            if op[0] == 'set':
                settings(step=.05)
                continue
            if i not in objs:
                objs[i] = elem(*op, gamma)
            # Same beam at the entrance of every element.
            b2 = make(z, gamma)
            b2.prop_distance, b2.theta_ref = b.prop_distance, 0.
            b = b2
            g0 = gam(b)
            els = els + [(op[1], op[2])] if op[0] != 'off' else []
            objs[i].track(b, show_progress_bar=False)
            dist += op[1]
        ck.close(b.prop_distance, dist, 'propagation distance', rtol=1e-12)
        got = (gam(b) - g0)/np.sqrt(gamma**2 - 1)
        if last == 'off':
            ck.close(got, 0.*got, 'energy change without CSR', rtol=0, atol=1e-13)
        else:
            s = sum(l for l, _ in els)
            compare(ck, 'CSR kick of the last element', b, got, els,
                    s - els[-1][0], s, gamma, z)
        ck.state(tuple(els), last)


def single(ck, job):
    gamma = job['gamma']
    sp = [(-ct.e, ct.m_e), (ct.e, ct.m_e), (ct.e, ct.m_p),
          (-3*ct.e, 7*ct.m_p)]
    geo = [(.2, .1), (.4, -.05), (.1, .3), (.3, 0.)]
    if job['deep']:
        geo += [(.9, .1), (.3, .03), (1.5, -.7), (.25, .002)]
    for k, ((L, th), sig) in enumerate(product(geo, [5e-6, 6e-5])):
        for j, (q, m) in enumerate(sp):
            if not job['deep'] and (j + k) % 2:
                continue
            z = profile(sig, shape=(j + k) % 3)
            ck.begin(gamma=gamma, length=L, theta=th, sigma=sig, q=q, m=m)
            with ck.guard('tracking raised'):
                settings(step=.1 if L < 1 else .25)
                reset()
                b = make(z, gamma, 1e-14*m/ct.m_e, q, m)
                g0 = gam(b)
                elem('D', L, th, gamma).track(b, show_progress_bar=False)
                got = (gam(b) - g0)/np.sqrt(gamma**2 - 1)
                compare(ck, 'CSR kick', b, got, [(L, th)], 0., L, gamma, z)
                if abs(th) >= .05:
                    ck.expect(np.sum(b.w*(gam(b) - g0)) < 0,
                              'a bunch radiates (loses) energy in a bend')
                ck.state(gamma, L, th, sig, j)


def slow(ck, job):
    """Little relativistic beams, with an orbit that resolves the field."""
    gamma = job['gamma']
    for (L, th), sig, (q, m) in product(
            [(.2, .1), (.1, -.2), (.3, 0.)], [8e-5, 1e-3],
            [(-ct.e, ct.m_e), (2*ct.e, 4*ct.m_p)]):
        z = profile(sig)
        ck.begin(gamma=gamma, length=L, theta=th, sigma=sig, q=q, m=m)
        with ck.guard('tracking raised'):
            settings(traj=1e-4)
            reset()
            b = make(z, gamma, 1e-14*m/ct.m_e, q, m)
            g0 = gam(b)
            elem('D', L, th, gamma).track(b, show_progress_bar=False)
            got = (gam(b) - g0)/np.sqrt(gamma**2 - 1)
            ck.step()
            compare(ck, 'CSR kick', b, got, [(L, th)], 0., L, gamma, z)
            ck.state('slow', gamma, L, th, sig, m)


def many_outputs(ck, job):
    """More outputs than CSR steps would need."""
    gamma = 300.
    z = profile(2e-5)
    for n, step in product([11, 20, 22, 50], [.1, .003]):
        els = [(.2, .1)]
        ck.begin(n_out=n, csr_step=step)
        with ck.guard('tracking raised'):
            settings(step=step)
            reset()
            b = make(z, gamma)
            g0 = gam(b)
            out = elem('D', .2, .1, gamma, n).track(b, show_progress_bar=False)
            ck.expect(len(out) == n, 'number of outputs', got=len(out))
            ck.close([o.prop_distance for o in out],
                     .2*np.arange(1, n + 1)/n, 'positions', rtol=1e-12)
            for k in (0, n//2, n - 1)[:len(out)]:
                ck.step()
                compare(ck, 'kick up to the output', b,
                        (gam(out[k]) - g0)/np.sqrt(gamma**2 - 1), els, 0.,
                        .2*(k + 1)/n, gamma, z)
            ck.state('many', n, step)


def fine(ck, job):
    """Many short CSR steps, each with few points of the orbit."""
    gamma = 300.
    z = profile(2e-5, shape=1)
    step = 5e-4*job['points']
    for pre, (L, th), n_out in product([[], [('D', .2, .1)]],
                                       [(.03, .02), (.021, -.01)],
                                       [None, 1, 3]):
        ck.begin(csr_step=step, before=pre, length=L, n_out=n_out)
        with ck.guard('tracking raised'):
            settings(step=.1)
            reset()
            for op in pre:
                elem(*op, gamma).track(make(z, gamma), show_progress_bar=False)
            els = [(p[1], p[2]) for p in pre] + [(L, th)]
            s0 = sum(p[1] for p in pre)
            settings(step=step)
            b = make(z, gamma)
            g0 = gam(b)
            out = elem('D', L, th, gamma, n_out).track(
                b, show_progress_bar=False)
            ck.expect(len(out) == (n_out or 0), 'number of outputs',
                      got=len(out))
            ck.close(b.prop_distance, L, 'propagated distance', rtol=1e-12)
            for k, o in enumerate(out + [b]):
                ck.step()
                d = L*(k + 1)/n_out if n_out and k < n_out else L
                ck.close(o.prop_distance, d, 'position of the output',
                         rtol=1e-12)
                zq = quantiles(z)
                want = oracle(els, s0, s0 + d, gamma, z, b, zq, n_s=30)
                ref = oracle([(.2, .1)], .2 - d, .2, gamma, z, b, zq, n_s=30)
                got = (gam(o) - g0)/np.sqrt(gamma**2 - 1)
                ck.close(np.interp(zq, z, got), want, 'CSR kick', rtol=0,
                         atol=2*TOL*max(abs(want).max(), .2*abs(ref).max()),
                         output=k)
            ck.state('fine', step, len(pre), L, n_out)


def dense(ck, job):
    """More particles than bins."""
    gamma = 300.
    for n, bins, shape in product([700, 3000], [200, 400], [0, 1, 2]):
        z = profile(2e-5, n, shape=shape)
        ck.begin(particles=n, bins=bins, shape=shape)
        with ck.guard('tracking raised'):
            settings(step=.1, bins=bins)
            reset()
            b = make(z, gamma)
            g0 = gam(b)
            elem('D', .2, .1, gamma).track(b, show_progress_bar=False)
            got = (gam(b) - g0)/np.sqrt(gamma**2 - 1)
            ck.step()
            compare(ck, 'CSR kick', b, got, [(.2, .1)], 0., .2, gamma, z)
            ck.state('dense', n, bins, shape)


LINES = [
    [('D', .5, .1), ('O', 1., 0.), ('D', .5, -.1), ('O', .3, 0.)],
    [('O', .5, 0.), ('D', .3, .05), ('Q', .6, 0.), ('D', .3, .05),
     ('O', 2., 0.)],
    [('D', .3, .2), ('D', .3, -.2), ('D', .3, -.2), ('D', .3, .2)],
    [('D', .2, .6), ('O', .6, 0.), ('D', .2, .6), ('O', .6, 0.),
     ('D', .2, .6)],
    [('D', 1.2, .02), ('O', .1, 0.), ('D', .1, .02), ('O', 1.5, 0.)],
]


def long(ck, job):
    gamma = 800.
    z = profile(1e-5, shape=job['line'] % 3)
    settings(step=.3)
    reset()
    els = []
    th0 = 0.
    for op in LINES[job['line']]:
        ck.begin(line=job['line'], position=len(els))
        with ck.guard('tracking raised'):
            b = make(z, gamma)
            g0 = gam(b)
            els.append((op[1], op[2]))
            elem(*op, gamma).track(b, show_progress_bar=False)
            th0 += op[2]
            got = (gam(b) - g0)/np.sqrt(gamma**2 - 1)
            s = sum(l for l, _ in els)
            compare(ck, 'CSR kick', b, got, list(els), s - op[1], s, gamma, z)
            ck.close(b.theta_ref, op[2], 'bending angle', rtol=0, atol=1e-12)
            ck.state(job['line'], len(els))


def outputs(ck, job):
    gamma = 300.
    z = profile(2e-5)
    n = job['n_out']
    for step, (L, th), pre in product(job['steps'],
                                      [(.2, .1), (.3, -.1), (.37, .05)],
                                      [[], [('D', .1, .05)]]):
        ck.begin(n_out=n, csr_step=step, length=L, before=pre)
        with ck.guard('tracking raised'):
            settings(step=step)
            reset()
            for op in pre:
                elem(*op, gamma).track(make(z, gamma), show_progress_bar=False)
            els = [(p[1], p[2]) for p in pre] + [(L, th)]
            s0 = sum(p[1] for p in pre)
            b = make(z, gamma)
            g0 = gam(b)
            out = elem('D', L, th, gamma, n).track(b, show_progress_bar=False)
            ck.expect(len(out) == (n or 0), 'number of outputs', got=len(out))
            ck.close(b.prop_distance, L, 'propagated distance', rtol=1e-12)
            ck.close(b.theta_ref, th, 'bending angle', rtol=1e-12)
            for k, o in enumerate(out + [b]):
                d = L*(k + 1)/n if n and k < n else L
                ck.step()
                ck.close(o.prop_distance, d, 'position of the output',
                         rtol=1e-12)
                compare(ck, 'kick up to the output', b,
                        (gam(o) - g0)/np.sqrt(gamma**2 - 1), els, s0, s0 + d,
                        gamma, z)
            # The kicks are given along the way, at most a step apart.
            from wake_t import Dipole
            off = make(z, gamma)
            Dipole(L, th, gamma_ref=gamma).track(off, show_progress_bar=False)
            got = np.interp(zq := quantiles(z), z, b.x - off.x)/np.cos(th)
            m = int(np.ceil(L/(n or 1)/step - 1e-9))*(n or 1)
            ok = []
            for m in [m, m + (n or 1)]:
                rho, dx = -L/th, 0.
                for j in range(1, m):
                    k1 = oracle(els, s0 + (j - 1)*L/m, s0 + j*L/m, gamma, z,
                                b, zq, n_s=max(60//m, 6))
                    dx = dx + k1*rho*(1 - np.cos((L - j*L/m)/rho))
                full = oracle(els, s0, s0 + L, gamma, z, b, zq)
                sc = max(abs(full).max(), 5e-2*abs(oracle(
                    [(.2, .1)], 0., .2, gamma, z, b, zq)).max())
                ok.append(np.all(abs(got - dx)
                                 < .04*sc*abs(rho)*(1 - np.cos(th))))
                if L/(n or 1)/step % 1 > 1e-9 or ok[0]:
                    break
            ck.expect(any(ok), 'distance between the kicks (displacement '
                      'downstream)', steps=m, got=got,
                      want=dx)
            ck.state(n, step, L, len(pre))


def symmetry(ck, job):
    gamma = 400.

    def track(b, els, **kw):
        settings(**kw)
        reset()
        for e in els:
            elem(*e, gamma).track(b, show_progress_bar=False)
        return b

    for shape, sig in product([0, 1, 2], [4e-6, 5e-5]):
        z = profile(sig, 90, shape)
        big = dict(charge=1e-9, full=True)
        el = [('D', .2, .1)]
        ck.begin(symmetry=shape, sigma=sig)
        with ck.guard('tracking raised'):
            ref = track(make(z, gamma, **big), el)
            again = track(make(z, gamma, **big), el)
            for c in 'x y xi px py pz'.split():
                ck.same(getattr(again, c), getattr(ref, c),
                        'the same simulation gives the same result')
            dg = abs(gam(ref) - gam(make(z, gamma, **big))).max()
            # Order of the particles.
            p = np.argsort(np.sin(3.*np.arange(90)))
            b = make(z, gamma, **big)
            for c in 'x y xi px py pz w'.split():
                setattr(b, c, getattr(b, c)[p].copy())
            track(b, el)
            ck.close(gam(b), gam(ref)[p], 'order of the particles', rtol=0,
                     atol=1e-5*dg)
            # Mirror image.
            b = make(z, gamma, **big)
            b.x *= -1
            b.px *= -1
            track(b, [('D', .2, -.1)])
            for c, f in zip('x y xi px py pz'.split(), [-1, 1, 1, -1, 1, 1]):
                ck.close(getattr(b, c), f*getattr(ref, c), 'mirror image ' + c,
                         rtol=1e-7, scale=abs(getattr(ref, c)).max())
            # Only the energy changes when the kick is given (one step).
            one = track(make(z, gamma, **big), [('D', .1, .05)])
            from wake_t import Dipole
            off = make(z, gamma, **big)
            Dipole(.1, .05, gamma_ref=gamma).track(off,
                                                   show_progress_bar=False)
            for c in 'x y xi'.split():
                ck.close(getattr(one, c), getattr(off, c),
                         'positions unaffected by the kick', rtol=1e-9,
                         scale=abs(getattr(off, c)).max() + 1e-9)
            ck.same(one.w, off.w, 'weights')
            # Charge: the kick of one step is proportional to it.
            k1 = gam(one) - gam(off)
            for f in [.1, 3.]:
                b = track(make(z, gamma, charge=f*1e-9, full=True),
                          [('D', .1, .05)])
                ck.close(gam(b) - gam(off), f*k1, 'proportional to charge',
                         rtol=0, atol=1e-6*f*abs(k1).max())
            # The sign of the charge does not matter.
            b = track(make(z, gamma, q=ct.e, **big), [('D', .1, .05)])
            ck.close(gam(b) - gam(off), k1, 'sign of the charge', rtol=0,
                     atol=1e-8*abs(k1).max())
            # An element in two halves, and one longer step grid.
            b = track(make(z, gamma, **big), [('D', .1, .05)]*2)
            for c in 'x y xi px py pz'.split():
                ck.close(getattr(b, c), getattr(ref, c), 'two halves: ' + c,
                         rtol=2e-4, scale=abs(getattr(ref, c)).max())
            ck.close(gam(b), gam(ref), 'two halves: energy', rtol=0,
                     atol=.01*dg)
            ck.state('symmetry', shape, sig)


def run_defaults(ck, job):
    """Settings that are not given are the documented ones, in a process in
    which nothing was set yet and after any setting."""
    import subprocess
    import sys
    code = """
import sys
import numpy as np
from mc import c14
from wake_t import set_csr_settings
sets = [None, (), (.1, .0005, 2000), (.05, .001, 300), ()]
for k in sets:
    if k is not None:
        set_csr_settings(*k)
    c14.reset()
    b = c14.make(c14.profile(3e-5, 60), 300., charge=1e-10)
    c14.elem('D', .25, .1, 300.).track(b, show_progress_bar=False)
    print(' '.join(float(v).hex() for v in np.concatenate(
        [b.x, b.xi, b.px, b.pz])))
"""
    ck.begin(defaults=True)
    r = subprocess.run([sys.executable, '-c', code], capture_output=True,
                       text=True)
    out = [[float.fromhex(v) for v in l.split()]
           for l in r.stdout.splitlines() if '0x' in l]
    if not ck.expect(len(out) == 5, 'tracking raised',
                     error=r.stderr[-300:]):
        return
    ck.step(5)
    ck.same(np.array(out[0]), np.array(out[2]), 'nothing set')
    ck.same(np.array(out[1]), np.array(out[2]), 'set to the defaults')
    ck.same(np.array(out[4]), np.array(out[2]), 'set back to the defaults')
    ck.expect(np.any(np.array(out[3]) != np.array(out[2])),
              'the settings have an effect')
    ck.state('defaults', str(out[0]))
