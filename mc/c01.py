"""C01: tracking advances every bunch gaplessly and exactly to the exit."""
from fractions import Fraction as F
from itertools import product

import numpy as np
import scipy.constants as ct

from mc import tracker_model as tm

LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state model (exact event queue) of the tracking '
             'schedule; every trace of the bounded model is replayed against '
             'the real tracker and compared push by push')
BOUNDS = {
    'quick': 'all combinations of: 1-2 bunches; per bunch 12 fixed steps '
             '(1/3..30 ticks, some leaving a rest of <1%) or 4 adaptive laws; element of 12, 7 or 5/2 '
             'ticks; 0-7 outputs; output mode; pusher; no, free-running or '
             'even numerical field. Plus dt=L/n for n=1..40,97,100,333,1000 '
             'on 4 lengths, triples and 3-20 bunches of selected steps, resting, '
             'backward and slow bunches, and every field-based element class',
    'thorough': 'as quick with 16 fixed steps, 6 lengths, 0-13 outputs, all '
                'pairs of all steps, and triples of bunches',
}
ASSUMPTIONS = [
    'single process, one thread',
    'event times that are distinct in exact arithmetic differ by more than '
    '1e-4 of a tick, i.e. more than the single-precision tie tolerance of '
    'the tracker',
]

LAWS = ['grow', 'shrink', 'huge', 'mixed']


def jobs(tier):
    js = []
    if tier == 'quick':
        Ns = ['12', '7', '5/2']
        steps = ['1/3', '1/2', '1', '2', '3', '5', '7', '12', '13',
                 '30', '599/200', '11999/4000', '6001/2000', '70007/20000'] + LAWS
        two = ['1', '2', '3', '5', '13', 'grow', 'shrink', 'mixed', 'huge']
        outs = [0, 1, 2, 3, 4, 5, 7]
        outs2 = [0, 1, 2, 3]
    else:
        Ns = ['12', '7', '1', '5/2', '31', '24/5']
        steps = ['1/7', '1/3', '1/2', '1', '3/2', '2', '5/2', '3', '4', '5',
                 '7', '12', '13', '30', '599/200', '11999/4000', '6001/2000', '70007/20000'] + LAWS
        two = steps
        outs = list(range(14))
        outs2 = [0, 1, 2, 3, 4, 5, 7]
    for N in Ns:
        for pusher in ['boris', 'rk4']:
            js.append(dict(kind='one', N=N, pusher=pusher, steps=steps,
                           outs=outs))
            for a in two:
                js.append(dict(kind='two', N=N, pusher=pusher, first=a,
                               steps=two, outs=outs2))
    js.append(dict(kind='elements', pusher='boris'))
    js.append(dict(kind='elements', pusher='rk4'))
    for Lt in ['1', '10/3', '7/10', '3']:
        js.append(dict(kind='special', L=Lt))
    js.append(dict(kind='misc'))
    if tier == 'quick':
        # Three and more bunches, each with its own step.
        for a in ['2', '13', 'grow']:
            js.append(dict(kind='three', N='12', pusher='boris', first=a,
                           steps=['3', '30', 'huge', 'mixed'], outs=[0, 2]))
    if tier == 'thorough':
        for N in ['12', '7']:
            for a in two:
                js.append(dict(kind='three', N=N, pusher='boris', first=a,
                               steps=['1', '2', '3', '5', '13', 'grow',
                                      'mixed'], outs=[0, 2, 3]))
    return js


def weight(j):
    w = {'one': 12, 'two': 1, 'three': 3, 'elements': 5, 'special': 3,
         'misc': 2}[j['kind']]
    return w*(3 if j.get('pusher') == 'rk4' else 1)


# -- observation -------------------------------------------------------------
def observed_steps(log, i, pusher, pz):
    """Steps (t0, t1) of bunch i, from the times at which fields were asked.

    Returns (steps by the clock given to the fields, elapsed motion times).
    """
    from mc.probes import slip
    g = [(t, z) for k, j, t, z in log if k == 'gather' and j == i]
    steps, motion = [], []
    v = slip(pz)
    if pusher == 'rk4':
        if len(g) % 4:
            return None, None
        for k in range(0, len(g), 4):
            (ta, za), (tb, zb), (tc, zc), (td, zd) = g[k:k+4]
            steps.append((ta, td))
            motion.append((za/v, zd/v))
            if abs(tb - (ta+td)/2) > 1e-9*abs(td) + 1e-30 or tb != tc:
                return None, None
    else:
        # position pushed by half a step before the fields are requested.
        t0 = 0.
        for t, z in g:
            tm_ = z/v
            motion.append((t0, t0 + 2*(tm_ - t0)))
            t0 = t0 + 2*(tm_ - t0)
        # clock: only the middle of the step is visible.
        steps = [(a + (t - (a+b)/2), b + (t - (a+b)/2))
                 for (a, b), (t, z) in zip(motion, g)]
    return steps, motion


def compare(ck, what, log, ev, pushers, pz, tick, n_b):
    tol = 1e-6*tick
    for i in range(n_b):
        want = [(float(e[2])*tick, float(e[3])*tick) for e in ev
                if e[0] == 'push' and e[1] == i]
        clock, motion = observed_steps(log, i, pushers, pz)
        if clock is None:
            ck.fail(what + ': inconsistent stage times', bunch=i)
            continue
        clock = [s for s, m in zip(clock, motion) if abs(m[1]-m[0]) > tol]
        motion = [m for m in motion if abs(m[1]-m[0]) > tol]
        ck.step(len(motion))
        ck.comparisons += 1
        if len(motion) != len(want):
            ck.fail(what + ': number of steps differs from the schedule',
                    bunch=i, got=motion, want=want)
            continue
        for k in range(len(want)):
            if (abs(motion[k][0] - want[k][0]) > tol or
                    abs(motion[k][1] - want[k][1]) > tol):
                ck.fail(what + ': step differs from the schedule', bunch=i,
                        step=k, got=motion, want=want)
                break
            if (abs(clock[k][0] - want[k][0]) > tol or
                    abs(clock[k][1] - want[k][1]) > tol):
                ck.fail(what + ': fields evaluated at the wrong time', bunch=i,
                        step=k, got=clock, want=want)
                break
    # Order in which the bunches are pushed (zero-length pushes left out).
    if pushers == 'boris':
        t_b = [0.]*n_b
        got = []
        v = _slip(pz)
        for k, j, t, z in log:
            half = z/v - t_b[j]
            if abs(half) > tol/2:
                got.append(j)
                t_b[j] += 2*half
        want = [e[1] for e in ev if e[0] == 'push']
        ck.expect(got == want, what + ': order of the pushes', got=got,
                  want=want)


def _slip(pz):
    from mc.probes import slip
    return slip(pz)


def merged_order(log, pusher):
    """Sequence of bunch indices in the order in which they were pushed."""
    seq = [j for k, j, t, z in log if k == 'gather']
    return seq[::4] if pusher == 'rk4' else seq


def run_case(ck, N, specs, n_out, before, pusher, field=None, pz=2.,
             make=None, offset=0.):
    """One execution of the real tracker against one trace of the model."""
    import wake_t
    from wake_t.beamline_elements import FieldElement
    from mc import probes
    tick = probes.TICK
    N = F(N)
    log = []
    # Bunches are told apart by what they are, not by how they are called.
    bunches = [probes.make_bunch(i, pz, name='b%d' % (i if n_out % 2 else 0))
               for i in range(len(specs))]
    for b in bunches:
        b.prop_distance = offset
    dt = []
    for s in specs:
        dt.append('auto' if tm.is_auto(s) else float(F(s))*tick)

    def auto(b):
        i = int(round(b.y[0]/1e-3)) - 1
        if not tm.is_auto(specs[i]):
            return 9.7*tick     # must not matter
        t = (b.prop_distance - offset)/ct.c/tick
        return float(tm.as_step(specs[i])(t))*tick

    fields = [probes.Recorder(log)]
    fmodel = []
    if field is not None:
        per, even = field
        flog = []
        fields.insert(0, probes.RecordingNumerical(
            flog, 0, float(F(per))*tick, even))
        fmodel.append((F(per), even))
    ev = tm.simulate(N, [tm.as_step(s) for s in specs], fmodel, n_out, before)
    times = [e[-1] for e in ev]
    if tm.near_tie(times):
        return None
    ck.begin(length=str(N), steps=list(specs), n_out=n_out,
             push_before_out=before, pusher=pusher,
             field=None if field is None else [str(field[0]), field[1]])
    with ck.guard('tracking raised'):
        el = FieldElement(
            length=float(N)*tick*ct.c, dt_bunch=dt if len(dt) != 1 else dt[0],
            bunch_pusher=pusher, n_out=n_out, fields=fields,
            auto_dt_bunch=auto, push_bunches_before_diags=before)
        el.track(bunches if len(bunches) != 1 else bunches[0],
                 show_progress_bar=False)
        compare(ck, 'tracking', log, ev, pusher, pz, tick, len(specs))
        L = float(N)*tick*ct.c
        for i, b in enumerate(bunches):
            ck.close(b.prop_distance - offset, L,
                     'propagation distance of a bunch', rtol=1e-7, bunch=i)
            ck.close(b.xi[0], probes.slip(pz)*float(N)*tick,
                     'final position of a free bunch', rtol=1e-7, bunch=i)
            ck.close(b.y[0], 1e-3*(i+1), 'transverse position', rtol=1e-12)
        ck.state(str(N), tuple(merged_order(log, pusher)),
                 tuple(round(b.prop_distance/ct.c/tick, 6) for b in bunches),
                 tuple(specs), n_out, before)
    return ev


def run(job, ck):
    kind = job['kind']
    if kind == 'one':
        fl = [None, ('5/2', False), ('5', True),
              ('1', False)]
        for s, n, before, f in product(job['steps'], job['outs'],
                                       [True, False], fl):
            run_case(ck, job['N'], [s], n, before, job['pusher'], f)
    elif kind == 'two':
        for b, n, before in product(job['steps'], job['outs'],
                                    [True, False]):
            run_case(ck, job['N'], [job['first'], b], n, before, job['pusher'],
                     ('4', False))
    elif kind == 'three':
        for b, c, n, before in product(job['steps'], job['steps'],
                                       job['outs'], [True, False]):
            run_case(ck, job['N'], [job['first'], b, c], n, before,
                     job['pusher'], ('3', True))
    elif kind == 'special':
        special(ck, F(job['L']))
    elif kind == 'misc':
        misc(ck)
    elif kind == 'elements':
        elements(ck, job['pusher'])


def special(ck, N):
    """Lengths with inexact binary representation, many steps, other offsets.

    dt = L/n for every n in a range: rounding must neither drop nor add a
    step. Every n is a separate schedule.
    """
    for n in list(range(1, 41)) + [97, 100, 333, 1000]:
        run_case(ck, N, [str(N/n)], 0, True, 'boris')
        if n <= 25:
            run_case(ck, N, [str(N/n)], 3, True, 'boris')
            run_case(ck, N, [str(N/n)], n, True, 'boris')
            run_case(ck, N, [str(N/n)], n, False, 'boris')


def misc(ck):
    for off in [0., 1e-3, 5.]:
        for spec in ['1', '5', 'grow', 'mixed', '30']:
            run_case(ck, '12', [spec, '2'], 2, True, 'boris', offset=off)
    # Any number of bunches, of any direction of motion (the window moves at
    # the speed of light whatever they do).
    for n_b in [3, 4, 5, 6, 7, 12, 20]:
        for k in range(3):
            st = ['30', '5', 'grow', '1', 'huge', '2', '13', 'mixed']
            run_case(ck, '12', (st[k:] + 3*st)[:n_b], 2*k, True, 'boris',
                     ('5', True) if k else None)
    for pz in [0., -2., 1e-3, 40.]:
        for spec in ['1', '5', 'mixed', '30']:
            run_case(ck, '12', [spec, '2'], 2, True, 'boris', pz=pz)
    # No bunches at all: nothing to advance, must return.
    from wake_t.beamline_elements import FieldElement
    from mc import probes
    for n in [0, 1, 3]:
        ck.begin(no_bunches=True, n_out=n)
        with ck.guard('tracking without bunches raised'):
            log = []
            FieldElement(length=1e-3, dt_bunch=1e-13, n_out=n,
                         fields=[probes.Recorder(log)]).track(
                             [], show_progress_bar=False)
            ck.expect(log == [], 'fields requested without bunches')
    # dt list of the wrong length is rejected.
    ck.begin(wrong_dt_list=True)
    for n_dt, n_b in [(1, 2), (2, 1), (3, 2)]:
        ck.raises(ValueError, lambda: FieldElement(
            length=1e-3, dt_bunch=[1e-13]*n_dt, n_out=1, fields=[]).track(
                [probes.make_bunch(i) for i in range(n_b)],
                show_progress_bar=False), 'mismatched list of time steps')


def elements(ck, pusher):
    """The same schedules through every element class based on fields."""
    import wake_t
    from wake_t import PlasmaStage, PlasmaRamp, ActivePlasmaLens
    from wake_t.beamline_elements import FieldQuadrupole
    from mc import probes
    tick = probes.TICK
    pz = 2.
    N = F(12)
    L = float(N)*tick*ct.c

    def build(cls, dt, n, before, log):
        rec = [probes.Recorder(log)]
        if cls == 'stage':
            return PlasmaStage(L, 1e-3, wakefield_model=None, dt_bunch=dt,
                               bunch_pusher=pusher, n_out=n,
                               push_bunches_before_diags=before,
                               external_fields=rec)
        if cls == 'ramp':
            return PlasmaRamp(L, wakefield_model=None, decay_length=1e-3,
                              plasma_dens_top=1e-3, dt_bunch=dt,
                              bunch_pusher=pusher, n_out=n,
                              push_bunches_before_diags=before,
                              external_fields=rec)
        if cls == 'apl':
            el = ActivePlasmaLens(L, 0., dt_bunch=dt, bunch_pusher=pusher,
                                  n_out=n, push_bunches_before_diags=before)
            el.fields = rec
            return el
        el = FieldQuadrupole(L, 0., dt_bunch=dt, bunch_pusher=pusher,
                             n_out=n)
        el.fields = rec
        return el

    for cls, specs, n, before in product(
            ['stage', 'ramp', 'apl', 'quad'],
            [['1'], ['5'], ['30'], ['5/2'], ['2', '3'], ['5', '13']],
            [0, 1, 3, 5], [True, False]):
        if cls == 'quad' and not before:
            continue
        log = []
        ck.begin(element=cls, steps=specs, n_out=n, push_before_out=before,
                 pusher=pusher)
        ev = tm.simulate(N, [tm.as_step(s) for s in specs], [], n, before)
        bunches = [probes.make_bunch(i, pz) for i in range(len(specs))]
        dts = [float(F(s))*tick for s in specs]
        with ck.guard('tracking raised'):
            el = build(cls, dts if len(dts) > 1 else dts[0], n, before, log)
            el.track(bunches if len(bunches) > 1 else bunches[0],
                     show_progress_bar=False)
            compare(ck, cls, log, ev, pusher, pz, tick, len(specs))
            for b in bunches:
                ck.close(b.prop_distance, L, 'propagation distance',
                         rtol=1e-7)
            ck.state(cls, tuple(specs), n, before, len(log))
    # The adaptive step of the elements (documented: a tenth of the inverse
    # betatron frequency of the lowest-energy particle).
    adaptive(ck, pusher)


def adaptive(ck, pusher):
    from wake_t import PlasmaStage, ActivePlasmaLens
    from wake_t.beamline_elements import FieldQuadrupole
    from mc import probes

    def expected(k, pz, qm):
        return 0.1/np.sqrt(abs(qm*ct.c*k/np.sqrt(1+pz**2)))

    qm_e = -ct.e/ct.m_e
    qm_p = ct.e/ct.m_p
    for cls, pz, sp in product(['apl', 'quad', 'stage'], [2., 9.], 'ep'):
        qm = qm_e if sp == 'e' else qm_p
        kw = {} if sp == 'e' else dict(q_species=ct.e, m_species=ct.m_p)
        log = []
        g = 1e-6      # T/m, negligible force: the bunch streams freely
        if cls == 'stage':
            n_p = 1e6
            k = (ct.m_e/(2*ct.e*ct.c))*n_p*ct.e**2/(ct.m_e*ct.epsilon_0)
        else:
            k = g
        dt = expected(k, pz, qm)
        T = 3.5*dt
        L = T*ct.c
        ck.begin(adaptive=cls, pz=pz, species=sp, pusher=pusher)
        b = probes.make_bunch(0, pz, n=3, **kw)
        # The lowest-energy particle sets the step.
        b.pz[1] = 2*pz
        b.pz[2] = 3*pz
        b.y[:] = 1e-3
        with ck.guard('tracking raised'):
            if cls == 'stage':
                el = PlasmaStage(
                    L, 1e6, wakefield_model=None, n_out=1,
                    bunch_pusher=pusher, external_fields=[
                        probes.Recorder(log)])
            elif cls == 'apl':
                el = ActivePlasmaLens(L, g, n_out=1, bunch_pusher=pusher)
                el.fields = [probes.Recorder(log)]
            else:
                el = FieldQuadrupole(L, g, n_out=1, bunch_pusher=pusher)
                el.fields = [probes.Recorder(log)]
            el.track(b, show_progress_bar=False)
            ts = [t for k_, j, t, z in log]
            n = len(ts)//4 if pusher == 'rk4' else len(ts)
            if pusher == 'rk4':
                got = [ts[4*i] for i in range(n)]
                want = [0., dt, 2*dt, 3*dt]
            else:
                got = ts
                want = [dt/2, 3*dt/2, 5*dt/2, 3.25*dt]
            got = got[:4] if n == 5 and abs(
                ts[-1]-T) < 1e-6*dt else got     # zero-length push at output
            ck.close(got, want, 'adaptive step of the element', rtol=1e-4)
            ck.state(cls, pz, sp, n)
