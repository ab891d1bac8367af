"""C02: numerical fields are refreshed on schedule and used in their latest
version."""
from fractions import Fraction as F
from itertools import product

import numpy as np
import scipy.constants as ct

from mc import tracker_model as tm

LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state model (exact event queue) of refreshes and '
             'pushes; every trace of the bounded model is replayed against '
             'the real tracker, comparing each refresh (time, bunch state it '
             'saw) and the field version used by each push; the built-in '
             'wakefield models are observed through the density profile they '
             'query')
BOUNDS = {
    'quick': 'all combinations of: 1-2 numerical fields with 9 periods '
             '(1/2..40 ticks), free or even; 0-2 bunches with 6 step laws; '
             'elements of 12, 7 and 5/2 ticks '
             '(and selected ones of 3-12 fields and bunches, up to 300 '
             'refreshes, lengths 0.1% beyond a multiple of the period); 0, 1, 2 or 3 outputs; both '
             'output modes; plus the two grid wakefield models with/without '
             'laser and 6 refresh distances',
    'thorough': 'as quick with 12 periods, 9 step laws, 5 lengths, up to 5 '
                'outputs, all pairs of fields',
}
ASSUMPTIONS = [
    'single process, one thread',
    'event times that differ in exact arithmetic differ by more than 1e-4 '
    'tick; fields forced to an even number of refreshes have a period that '
    'does not divide the element exactly (rounding may then add one refresh)',
]


def jobs(tier):
    q = tier == 'quick'
    Ns = ['12', '7', '5/2'] if q else ['12', '7', '5/2', '31', '24/5']
    per = ['1/2', '1', '5/3', '2', '5/2', '5', '7', '12', '40'] if q else \
        ['1/3', '1/2', '1', '5/3', '2', '5/2', '3', '5', '7', '11', '12',
         '40']
    steps = ['1', '3', '5', '13', 'grow', 'mixed'] if q else \
        ['1/2', '1', '2', '3', '5', '13', 'grow', 'mixed', 'huge', 'shrink']
    outs = [0, 1, 2, 3] if q else [0, 1, 2, 3, 5]
    js = []
    for N in Ns:
        for s in steps:
            js.append(dict(kind='one', N=N, step=s, periods=per, outs=outs))
        for p in per:
            js.append(dict(kind='two', N=N, period=p, periods=per,
                           steps=['1', '5', 'grow'] if q else steps,
                           outs=[0, 2] if q else [0, 1, 3]))
        js.append(dict(kind='none', N=N, periods=per, outs=outs))
    js.append(dict(kind='direct'))
    js.append(dict(kind='many'))
    js.append(dict(kind='reuse', depth=2 if q else 3))
    for Lt in (['1', '10/3', '7/10'] if q else ['1', '10/3', '7/10', '3',
                                                '31/7']):
        js.append(dict(kind='special', L=Lt))
    for model in ['quasistatic_2d', 'cold_fluid_1d']:
        for las in [False, True]:
            js.append(dict(kind='model', model=model, laser=las))
    return js


def weight(j):
    return {'one': 2, 'two': 3, 'none': 1, 'direct': 1, 'many': 2, 'reuse': 2,
            'special': 4, 'model': 25}[j['kind']]


def canon(events):
    """Sort pushes of different bunches between two refreshes (they commute),
    and simultaneous refreshes of different fields."""
    out, seg, ref = [], [], []

    def flush_p():
        out.extend(sorted(seg))
        seg.clear()

    for e in events:
        if e[0] == 'push':
            seg.append(e)
        else:
            flush_p()
            out.append(e)
    flush_p()
    return out


def run_case(ck, N, specs, fspec, n_out, before, pre=()):
    from wake_t.beamline_elements import FieldElement
    from mc import probes
    tick = probes.TICK
    N = F(N)
    fm = [(F(p), e) for p, e in fspec]
    for p, e in fm:
        if e and (N/p).denominator == 1:
            return
    ev = tm.simulate(N, [tm.as_step(s) for s in specs], fm, n_out, before)
    if tm.near_tie([e[-1] for e in ev]):
        return
    ck.begin(length=str(N), steps=list(specs),
             fields=[[str(p), e] for p, e in fspec], n_out=n_out,
             push_before_out=before, used_before=list(pre))
    log = []
    bunches = [probes.make_bunch(i) for i in range(len(specs))]
    dt = ['auto' if tm.is_auto(s) else float(F(s))*tick for s in specs]

    def auto(b):
        i = int(round(b.y[0]/1e-3)) - 1
        return float(tm.as_step(specs[i])(b.prop_distance/ct.c/tick))*tick

    v = probes.slip()
    with ck.guard('tracking raised'):
        fields = [probes.RecordingNumerical(log, i, float(p)*tick, e)
                  for i, (p, e) in enumerate(fm)]
        rec = []
        fields.append(probes.Recorder(log))
        for M in pre:
            # The same fields were already used in other elements.
            FieldElement(float(F(M))*tick*ct.c, 3.*tick, n_out=1,
                         fields=fields).track(
                             [probes.make_bunch(0)], show_progress_bar=False)
            log.clear()
            for g in fields[:-1]:
                g.n_init = 0
        FieldElement(length=float(N)*tick*ct.c, dt_bunch=dt, n_out=n_out,
                     fields=fields, auto_dt_bunch=auto, bunch_pusher='boris',
                     push_bunches_before_diags=before).track(
                         bunches, show_progress_bar=False)
        # Expected events with field versions and bunch times.
        n_ref = [0]*len(fm)
        t_b = [F(0)]*len(specs)
        want = []
        for e in ev:
            if e[0] == 'refresh':
                n_ref[e[1]] += 1
                want.append(('refresh', e[1], float(e[2]), tuple(
                    float(t) for t in t_b)))
            elif e[0] == 'push':
                t_b[e[1]] = e[3]
                want.append(('push', e[1], float(e[3]),
                             tuple(n - 1 for n in n_ref)))
        got = []
        now = [0.]*len(specs)
        uses = {}
        for k, e in enumerate(log):
            if e[0] == 'refresh':
                seen = tuple(x/v/tick for _, x, _ in e[3])
                got.append(('refresh', e[1], e[2]/tick, seen))
                for (name, xi, dist), t in zip(e[3], seen):
                    ck.close(dist, t*tick*ct.c, 'bunch position at a refresh',
                             rtol=1e-7, atol=1e-15)
            elif e[0] == 'use':
                uses[e[1]] = e[4]
            elif e[0] == 'gather':
                half = e[3]/v/tick - now[e[1]]
                if abs(half) > 1e-6:
                    now[e[1]] += 2*half
                    got.append(('push', e[1], now[e[1]], tuple(
                        uses.get(i) for i in range(len(fm)))))
                uses = {}
        got = canon(got)
        want = canon(want)
        ck.step(len(got))
        ok = len(got) == len(want)
        if ok:
            for g, w in zip(got, want):
                if g[:2] != w[:2] or abs(g[2] - w[2]) > (
                        1e-10 if g[0] == 'refresh' else 1e-5):
                    ok = False
                elif g[0] == 'push':
                    ok = g[3] == w[3]
                else:
                    ok = len(g[3]) == len(w[3]) and all(
                        abs(a-b) < 1e-5 for a, b in zip(g[3], w[3]))
                if not ok:
                    break
        ck.expect(ok, 'refresh schedule differs from the model', got=got,
                  want=want)
        # One initialization per tracking, before anything else.
        for i, f in enumerate(fields[:-1]):
            ck.expect(f.n_init == 1, 'field initialized once', n=f.n_init)
        ck.state(repr(canon(want)), n_out, before)


def run(job, ck):
    k = job['kind']
    if k == 'one':
        for p, e, n, b in product(job['periods'], [False, True], job['outs'],
                                  [True, False]):
            run_case(ck, job['N'], [job['step']], [(p, e)], n, b)
    elif k == 'two':
        for p2, e1, e2, s, n in product(
                job['periods'], [False, True], [False, True], job['steps'],
                job['outs']):
            run_case(ck, job['N'], [s, '2'], [(job['period'], e1), (p2, e2)],
                     n, True)
    elif k == 'none':
        for p, e, n in product(job['periods'], [False, True], job['outs']):
            run_case(ck, job['N'], [], [(p, e)], n, True)
    elif k == 'direct':
        direct(ck)
    elif k == 'many':
        # Three and four fields and bunches.
        for k_, n, b in product(range(4), [0, 2], [True, False]):
            per = ['5/2', '1', '5', '7']
            st = ['1', '5', 'grow', '13']
            for n_f, n_b in product([1, 3, 4, 12], [0, 1, 3, 4, 12]):
                run_case(ck, '12', (st[k_:] + 3*st)[:n_b],
                         [(p, i % 2 == 1) for i, p in enumerate(
                             (per[k_:] + 3*per)[:n_f])], n, b)
        # Lengths just beyond a multiple of the period: one more refresh.
        for N, p, e in product(
                ['5001/1000', '12003/1000', '7007/1000', '4999/1000'],
                ['1', '5/2', '5', '12'], [False, True]):
            run_case(ck, N, ['3'], [(p, e)], 0, True)
            run_case(ck, N, [], [(p, e)], 1, True)
    elif k == 'reuse':
        lens = ['0', '1', '7/3', '12']
        for d in range(1, job['depth'] + 1):
            for pre, N, p, e, n in product(
                    product(lens, repeat=d), ['12', '5/2'],
                    ['5/3', '5', '40'], [False, True], [0, 2]):
                run_case(ck, N, ['1'], [(p, e)], n, True, pre)
    elif k == 'special':
        # Many refreshes with inexact binary representation of the period:
        # rounding neither drops nor adds a refresh.
        N = F(job['L'])
        for n in list(range(1, 31)) + [97, 300]:
            run_case(ck, N, ['5'], [(str(N/n), False)], 0, True)
            if n <= 12:
                run_case(ck, N, [str(N/n)], [(str(N/n), False)], n, True)
            run_case(ck, N, ['5'], [(str(N/(n - F(1, 2))), True)], 0, True)
    else:
        models(ck, job['model'], job['laser'])


def direct(ck):
    """A field updated by hand: the first update initializes it at t=0, every
    other one advances it by one period."""
    from mc import probes
    for per, n, even, n_b in product([1., 2.5], range(6), [False, True],
                                     [0, 1, 2]):
        ck.begin(direct=True, period=per, updates=n, even=even, bunches=n_b)
        with ck.guard('update raised'):
            log = []
            f = probes.RecordingNumerical(log, 0, per, even)
            bs = [probes.make_bunch(i) for i in range(n_b)]
            for _ in range(n):
                f.update(bs)
                ck.step()
            want = []
            for i in range(n):
                want += [('evolve', 0) if i else ('init', 0),
                         ('refresh', 0, i*per, tuple(
                             (b.name, 0., 0.) for b in bs))]
            ck.expect(log == want, 'updates by hand', got=log, want=want)
            ck.state('direct', per, n, even, n_b)


def dedupe(zs):
    """Drop repeated queries of the same position."""
    out = []
    for z in zs:
        if not out or abs(z - out[-1]) > 1e-12:
            out.append(z)
    return out


def models(ck, model, with_laser):
    """Built-in grid models, observed through the density they query."""
    from wake_t import PlasmaStage, PlasmaRamp, GaussianPulse
    from wake_t import ParticleBunch
    box = 40e-6
    for L_f, dz_f, n_b, n_out in product(
            ['3', '5/2', '7/2'], ['1/2', '3/4', '1', '2', '40', None],
            [0, 1], [0, 2]):
        L = float(F(L_f))*1e-4
        dz = None if dz_f is None else float(F(dz_f))*1e-4
        period = F('0.4') if dz_f is None else F(dz_f)   # box is 0.4e-4
        even = with_laser
        if even and (F(L_f)/period).denominator == 1:
            continue
        ev = tm.simulate(F(L_f), [], [(period, even)], 0, True)
        want = [float(e[2])*1e-4 for e in ev]
        ck.begin(model=model, laser=with_laser, length=L_f, dz=dz_f,
                 bunches=n_b, n_out=n_out)
        seen, seen_pc = [], []

        def dens(z):
            if np.ndim(z) == 0:
                seen.append(float(z))
            return np.ones_like(z)*1e23

        def pc(z):
            seen_pc.append(float(z))
            return 0.

        laser = None
        if with_laser:
            laser = GaussianPulse(-10e-6, l_0=0.8e-6, w_0=20e-6, a_0=0.1,
                                  tau=10e-15, z_foc=0.)
        kw = dict(r_max=30e-6, xi_min=-box, xi_max=0., n_r=6, n_xi=6,
                  dz_fields=dz, laser=laser)
        if model == 'quasistatic_2d':
            kw.update(ppc=1, parabolic_coefficient=pc)
        b = []
        if n_b:
            b = ParticleBunch(np.array([1e5]), *(np.zeros(1) for _ in 'xyz'),
                              np.zeros(1), np.zeros(1), np.array([500.]),
                              name='b')
        with ck.guard('tracking raised'):
            PlasmaStage(L, dens, wakefield_model=model, n_out=n_out,
                        dt_bunch=1e-4/ct.c, **kw).track(
                            b, show_progress_bar=False)
            got = dedupe(seen)
            seen_pc = dedupe(seen_pc)
            ck.step(len(got))
            if ck.expect(len(got) == len(want), 'number of field refreshes',
                         got=got, want=want):
                ck.close(got, want, 'positions at which the plasma density '
                         'is taken', rtol=1e-7, atol=1e-12)
            if model == 'quasistatic_2d':
                ck.close(seen_pc, want, 'positions at which the channel '
                         'profile is taken', rtol=1e-7, atol=1e-12)
            ck.state(model, with_laser, L_f, dz_f, n_b, n_out, len(got))
