"""C03: output snapshots."""
import contextlib
import io
from fractions import Fraction as F
from itertools import product

import numpy as np
import scipy.constants as ct

from mc import tracker_model as tm

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of element kinds, output counts, bunch '
             'counts, step laws and output modes on the real code; every '
             'returned snapshot is compared with the state that the exact '
             'event-queue model predicts for its output point, and checked '
             'for completeness and memory independence')
BOUNDS = {
    'quick': 'field elements: 0-6 outputs x 9 step laws x 1-3 bunches x '
             'output mode x 3 lengths; transfer-map elements: 5 kinds x '
             'n_out in {none,0..6} x order x out_initial; beamlines: all '
             'sequences of up to 3 elements out of 7 (two of zero length); 16-49 outputs; CSR-on '
             'elements with 1-40 CSR steps x 7 output counts',
    'thorough': 'field elements: 0-12 outputs, 14 step laws, 5 lengths; '
                'transfer-map elements: n_out up to 16; beamlines: all '
                'sequences of up to 4 elements out of 8; 16-128 outputs; CSR-on '
                'elements with 1-101 CSR steps x 13 output counts',
}
ASSUMPTIONS = ['single process, one thread',
               'particles stream freely inside field elements, so that the '
               'state at an output point is known exactly']


def jobs(tier):
    q = tier == 'quick'
    js = []
    Ns = ['12', '7', '5/2'] if q else ['12', '7', '5/2', '31', '1']
    steps = ['1', '2', '3', '5', '13', '1/3', 'grow', 'mixed', 'huge'] \
        if q else ['1', '2', '3', '4', '5', '7', '12', '13', '1/3', '1/2',
                   'grow', 'mixed', 'huge', 'shrink']
    for N, s in product(Ns, steps):
        js.append(dict(kind='field', N=N, step=s,
                       outs=list(range(7 if q else 13)),
                       second=['1', '5', 'mixed'] if q else
                       ['1', '2', '5', '13', 'mixed', 'grow']))
    for el in ['drift', 'dipole', 'dipole-', 'quad', 'sext', 'tm']:
        js.append(dict(kind='tm', el=el, n_max=6 if q else 16))
    js.append(dict(kind='beamline', depth=3 if q else 4,
                   first=None))
    js.append(dict(kind='copy'))
    js.append(dict(kind='many', outs=[16, 25, 49] if q else
                   [16, 25, 49, 64, 100, 128]))
    for el in ['drift', 'dipole', 'quad']:
        js.append(dict(kind='csr', el=el, steps=[1, 3, 7, 21, 40] if q else
                       [1, 2, 3, 4, 5, 7, 12, 19, 21, 40, 64, 101],
                       outs=[None, 0, 1, 2, 3, 5, 7, 27] if q else
                       [None] + list(range(13)) + [27, 31, 54]))
    return js


def weight(j):
    return {'field': 1, 'tm': 1, 'beamline': 3, 'copy': 1, 'many': 3, 'csr': 4}[
        j['kind']]


ATTRS = ['prop_distance', 't_flight', 'z_injection', 'name', 'q_species',
         'm_species', 'x_ref', 'theta_ref']
ARRS = ['x', 'y', 'xi', 'px', 'py', 'pz', 'w']


def arrays(b):
    return {k: getattr(b, k) for k in ARRS}


def check_independent(ck, snaps, live, what):
    """No memory is shared between snapshots or with the tracked bunches."""
    flat = [b for lst in snaps for b in lst] + list(live)
    for i in range(len(flat)):
        for j in range(i):
            for k in ARRS + ['tags']:
                a, b = getattr(flat[i], k), getattr(flat[j], k)
                if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
                    if np.shares_memory(a, b):
                        ck.fail(what + ': snapshots share memory', array=k,
                                i=i, j=j)
                        return
    ck.comparisons += 1


def check_same(ck, a, b, what):
    for k in ARRS:
        ck.same(getattr(a, k), getattr(b, k), what + ': ' + k)
    ck.expect((a.tags is None) == (b.tags is None) and (
        a.tags is None or np.array_equal(a.tags, b.tags)), what + ': tags')
    for k in ATTRS:
        ck.expect(getattr(a, k) == getattr(b, k), what + ': ' + k,
                  got=getattr(a, k), want=getattr(b, k))


def check_meta(ck, s, ref, what):
    """Identity and constant properties carried by a snapshot."""
    for k in ['t_flight', 'z_injection', 'name', 'q_species', 'm_species']:
        ck.expect(getattr(s, k) == ref[k], what + ': ' + k,
                  got=getattr(s, k), want=ref[k])
    ck.same(s.w, ref['w'], what + ': w')
    ck.same(s.tags, ref['tags'], what + ': tags')


def rich_bunch(i, pz=2., n=3):
    from mc import probes
    b = probes.make_bunch(i, pz, n)
    b.x[:] = np.array([0.3, -1.2, 0.7])[:n]*1e-3
    b.xi[:] = np.array([0., -2e-6, 3e-6])[:n]
    b.px[:] = np.array([0.1, 0., -0.2])[:n]
    b.w[:] = np.array([1e5, 2e5, 5e5])[:n]*(i + 1)
    b.tags = np.arange(n) + 10*i
    b.t_flight = 1.5e-9*(i+1)
    b.z_injection = [-7., None, 0.][i % 3]
    b.q_species = ct.e*(i+1)
    b.m_species = ct.m_p*(i+1)
    b.x_ref = 0.25*(i+1)
    b.theta_ref = 0.125*(i+1)
    b.prop_distance = 0.5*i
    return b


def ref_of(b):
    r = {k: getattr(b, k) for k in ATTRS}
    r.update({k: np.array(getattr(b, k)) for k in ARRS})
    r['tags'] = np.array(b.tags)
    return r


def free(r, t):
    """Freely streaming reference state after time t."""
    g = np.sqrt(1 + r['px']**2 + r['py']**2 + r['pz']**2)
    return {'x': r['x'] + ct.c*t*r['px']/g, 'y': r['y'] + ct.c*t*r['py']/g,
            'xi': r['xi'] + ct.c*t*(r['pz']/g - 1), 'px': r['px'],
            'py': r['py'], 'pz': r['pz']}


def run(job, ck):
    k = job['kind']
    if k == 'field':
        for n, before, pusher in product(job['outs'], [True, False],
                                         ['boris', 'rk4']):
            field_case(ck, job['N'], [job['step']], n, before, pusher)
        for n, before, s2 in product(job['outs'][:5], [True, False],
                                     job['second']):
            field_case(ck, job['N'], [job['step'], s2], n, before, 'boris')
            field_case(ck, job['N'], [s2, job['step'], '2'], n, before,
                       'boris')
            if not any(tm.is_auto(s) for s in (s2, job['step'])):
                field_case(ck, job['N'], [job['step'], s2], n, before,
                           'boris', same=True)
        if job['step'] == '1':
            for n in job['outs']:
                field_case(ck, job['N'], [], n, True, 'boris')
    elif k == 'tm':
        tm_cases(ck, job['el'], job['n_max'])
    elif k == 'beamline':
        beamlines(ck, job['depth'])
    elif k == 'copy':
        copies(ck)
    elif k == 'many':
        for n, before in product(job['outs'], [True, False]):
            field_case(ck, '101/2', ['3', 'grow'], n, before, 'boris')
            field_case(ck, '101/2', ['1/3'], n, before, 'boris')
        tm_cases(ck, 'quad', 0, job['outs'])
        tm_cases(ck, 'dipole', 0, job['outs'])
    elif k == 'csr':
        for m in job['steps']:
            tm_cases(ck, job['el'], 0, job['outs'], csr=m)


def field_case(ck, N, specs, n_out, before, pusher, same=False):
    from wake_t.beamline_elements import FieldElement
    from wake_t import ParticleBunch
    from mc import probes
    tick = probes.TICK
    N = F(N)
    ev = tm.simulate(N, [tm.as_step(s) for s in specs], [], n_out, before)
    if tm.near_tie([e[-1] for e in ev]):
        return
    ck.begin(length=str(N), steps=list(specs), n_out=n_out,
             push_before_out=before, pusher=pusher, same_names=same)
    bunches = [rich_bunch(i) for i in range(len(specs))]
    if same:
        for b in bunches:
            b.name = 'twin'
    refs = [ref_of(b) for b in bunches]
    d0 = [b.prop_distance for b in bunches]
    dt = ['auto' if tm.is_auto(s) else float(F(s))*tick for s in specs]

    def auto(b):
        i = [j for j in range(len(refs)) if b.name == refs[j]['name']][0]
        t = (b.prop_distance - d0[i])/ct.c/tick
        return float(tm.as_step(specs[i])(t))*tick

    with ck.guard('tracking raised'):
        el = FieldElement(
            length=float(N)*tick*ct.c, dt_bunch=dt, n_out=n_out, fields=[],
            auto_dt_bunch=auto, bunch_pusher=pusher,
            push_bunches_before_diags=before)
        out = el.track(bunches, show_progress_bar=False)
        if not isinstance(out, list):
            ck.fail('the outputs are not a list', got=type(out))
            return
        if len(specs) == 1:
            ck.expect(all(isinstance(o, ParticleBunch) for o in out),
                      'outputs of a single bunch are a flat list')
            snaps = [out]
        else:
            ck.expect(len(out) == len(specs), 'one list of outputs per bunch',
                      got=len(out))
            snaps = out
        # Times at which each bunch is at each output.
        t_b = [F(0)]*len(specs)
        t_out = [[] for _ in specs]
        for e in ev:
            if e[0] == 'push':
                t_b[e[1]] = e[3]
            elif e[0] == 'out':
                for i in range(len(specs)):
                    t_out[i].append(float(t_b[i])*tick)
        n_want = n_out + 1 if n_out else 0
        for i in range(len(specs)):
            if not ck.expect(len(snaps[i]) == n_want, 'number of outputs',
                             got=len(snaps[i]), want=n_want, bunch=i):
                continue
            ck.step(n_want)
            for k, (s, t) in enumerate(zip(snaps[i], t_out[i])):
                want = free(refs[i], t)
                for a in ['x', 'y', 'xi', 'px', 'py', 'pz']:
                    ck.close(getattr(s, a), want[a], 'output %s' % a,
                             rtol=1e-7, atol=1e-15, output=k, bunch=i)
                check_meta(ck, s, refs[i], 'output')
                ck.expect(s.x_ref == refs[i]['x_ref'] and
                          s.theta_ref == refs[i]['theta_ref'],
                          'output: reference orbit')
                ck.close(s.prop_distance, d0[i] + t*ct.c,
                         'propagation distance of an output', rtol=1e-7,
                         atol=1e-12, output=k, bunch=i)
            if n_want and before:
                check_same(ck, snaps[i][-1], bunches[i],
                           'the last output is the final bunch')
            want = free(refs[i], float(N)*tick)
            for a in ['x', 'xi', 'px', 'pz']:
                ck.close(getattr(bunches[i], a), want[a], 'final bunch ' + a,
                         rtol=1e-7, atol=1e-15)
            check_meta(ck, bunches[i], refs[i], 'final bunch')
            ck.expect(bunches[i].x_ref == refs[i]['x_ref'] and
                      bunches[i].theta_ref == refs[i]['theta_ref'],
                      'final bunch: reference orbit')
        check_independent(ck, snaps, bunches, 'field element')
        # Writing into the final bunch does not change the outputs.
        keep = [[ref_of(s) for s in lst] for lst in snaps]
        for b in bunches:
            for a in ARRS + ['tags']:
                getattr(b, a)[:] = -1
        for lst, kl in zip(snaps, keep):
            for s, r in zip(lst, kl):
                ck.expect(all(np.array_equal(getattr(s, a), r[a])
                              for a in ARRS + ['tags']),
                          'outputs change with the tracked bunch')
        ck.state(repr(t_out), tuple(specs), n_out, before)


def make_tm(name, n_out, order=2, L=0.3, csr=False):
    from wake_t import Drift, Dipole, Quadrupole, Sextupole
    from wake_t.beamline_elements import TMElement
    kw = dict(n_out=n_out, order=order, gamma_ref=200., csr_on=csr)
    if name == 'drift':
        return Drift(L, **kw)
    if name == 'dipole':
        return Dipole(L, 0.1, **kw)
    if name == 'dipole-':
        return Dipole(L, -0.1, **kw)
    if name == 'quad':
        return Quadrupole(L, 3., **kw)
    if name == 'sext':
        return Sextupole(L, 40., **kw)
    return TMElement(L, 0.05, 1.5, 20., **kw)


def tm_bunch(i=0):
    from wake_t import ParticleBunch
    n = 4
    r = np.array([1., -0.5, 0.3, 2.])
    b = ParticleBunch(
        np.array([1e5, 2e5, 3e5, 4e5]), r*1e-4, r[::-1]*1e-4, r*1e-6,
        r[::-1]*1e-2, -r*1e-2, 200 + r, tags=np.arange(n) + 3,
        prop_distance=0.7, t_flight=1e-9, z_injection=-3., name='tmb',
        q_species=-ct.e, m_species=ct.m_e)
    return b


def tm_cases(ck, name, n_max, outs=None, csr=None):
    from wake_t import set_csr_settings
    from wake_t.physics_models.collective_effects.csr import (
        reset_csr_calculator)
    if outs is None:
        outs = [None] + list(range(n_max + 1))
    for n_out, order, init in product(outs, [1, 2], [False, True]):
        ck.begin(element=name, n_out=n_out, order=order, out_initial=init,
                 csr_steps=csr)
        b = tm_bunch()
        if csr:
            # CSR with a negligible charge: only the stepping changes.
            b.w *= 1e-12
            reset_csr_calculator()
            set_csr_settings(csr_step=.3/csr, csr_traj_step=.01, n_bins=50)
        ref = ref_of(b)
        w_obj = b.w
        with ck.guard('tracking raised'):
            el = make_tm(name, n_out, order, csr=bool(csr))
            out = el.track(b, out_initial=init, show_progress_bar=False)
            n_want = (n_out or 0) + int(init)
            if not ck.expect(len(out) == n_want, 'number of outputs',
                             got=len(out), want=n_want):
                continue
            ck.step(n_want)
            pos = ([0.] if init else []) + [
                el.length*(k+1)/n_out for k in range(n_out or 0)]
            for k, (s, p) in enumerate(zip(out, pos)):
                check_meta(ck, s, ref, 'output')
                ck.close(s.prop_distance, 0.7 + p, 'position of an output',
                         rtol=1e-12, output=k)
                # Same state as an element that ends at the output point.
                b2 = tm_bunch()
                if p:
                    e2 = make_tm(name, None, order)
                    frac = p/e2.length
                    e2.length *= frac
                    e2.theta *= frac
                    e2.track(b2, show_progress_bar=False)
                    # A second-order map is not exactly composable.
                    tol = 1e-9 if order == 1 else 1e-6
                else:
                    tol = 1e-12
                for a in ['x', 'y', 'xi', 'px', 'py', 'pz']:
                    r0 = np.max(np.abs(getattr(b2, a))) + np.max(
                        np.abs(ref[a]))
                    ck.close(getattr(s, a), getattr(b2, a),
                             'state at an output: ' + a, rtol=tol*10,
                             scale=r0, output=k)
                ck.close([s.x_ref, s.theta_ref], [b2.x_ref, b2.theta_ref],
                         'reference orbit at an output', rtol=1e-12,
                         atol=1e-15)
            if n_out:
                check_same(ck, out[-1], b, 'the last output is the final '
                           'bunch')
            ck.close(b.prop_distance, 1.0, 'final propagation distance',
                     rtol=1e-12)
            check_meta(ck, b, ref, 'tracked bunch')
            check_independent(ck, [out], [b], 'transfer-map element')
            ck.state(name, n_out, order, init, b.x)


def beamlines(ck, depth):
    """Outputs of a beamline are those of its elements, in order."""
    from wake_t import Beamline, Drift, Quadrupole, Dipole
    from wake_t.beamline_elements import FieldElement

    def mk(k):
        if k == 'd0':
            return Drift(0.1, n_out=None)
        if k == 'd2':
            return Drift(0.2, n_out=2)
        if k == 'q1':
            return Quadrupole(0.1, 2., n_out=1)
        if k == 'f2':
            return FieldElement(0.05, 0.02/ct.c, n_out=2, fields=[])
        if k == 'f0':
            return FieldElement(0.05, 0.02/ct.c, n_out=0, fields=[])
        if k == 'z1':
            return Drift(0., n_out=1)
        if k == 'z2':
            return FieldElement(0., 0.02/ct.c, n_out=2, fields=[])
        return Dipole(0.1, 0.05, n_out=3)

    n_of = {'d0': 0, 'd2': 2, 'q1': 1, 'f2': 3, 'f0': 0, 'b3': 3,
            'z1': 1, 'z2': 3}
    L_of = {'d0': .1, 'd2': .2, 'q1': .1, 'f2': .05, 'f0': .05, 'b3': .1,
            'z1': 0., 'z2': 0.}
    names = ['d0', 'd2', 'q1', 'f2', 'f0', 'z1', 'z2'] + (['b3'] if depth > 3 else [])
    for d in range(1, depth + 1):
        for seq in product(names, repeat=d):
            ck.begin(beamline=list(seq))
            with ck.guard('tracking raised'):
                b = tm_bunch()
                # The progress report does not change anything.
                with io.StringIO() as s, contextlib.redirect_stdout(s), \
                        contextlib.redirect_stderr(s):
                    out = Beamline([mk(k) for k in seq]).track(b)
                b2 = tm_bunch()
                out2 = []
                for k in seq:
                    out2 += mk(k).track(b2, show_progress_bar=False)
                ck.step(len(out))
                if ck.expect(len(out) == sum(n_of[k] for k in seq),
                             'number of outputs of a beamline',
                             got=len(out)):
                    for s, s2 in zip(out, out2):
                        check_same(ck, s, s2, 'beamline output')
                check_same(ck, b, b2, 'beamline final bunch')
                ck.close(b.prop_distance, 0.7 + sum(L_of[k] for k in seq),
                         'propagation distance along a beamline', rtol=1e-9)
                check_independent(ck, [out], [b], 'beamline')
                ck.state(tuple(seq), b.x, b.prop_distance)


def copies(ck):
    """Copies are complete for every combination of optional properties."""
    from wake_t import ParticleBunch
    for tags, tf, zi, name, sp, xr, th, pd, n in product(
            [None, 1], [0, 2e-9], [None, -1., 0.], ['a', 'n'],
            [(-ct.e, ct.m_e), (ct.e, ct.m_p)], [0, 0.3], [0, -0.2], [0, 1.5],
            [0, 1, 3]):
        ck.begin(tags=tags, t_flight=tf, z_injection=zi, name=name,
                 species=sp, x_ref=xr, theta_ref=th, prop_distance=pd, n=n)
        with ck.guard('copy raised'):
            arr = [np.arange(n) + k + 0.5 for k in range(7)]
            b = ParticleBunch(
                arr[6], *arr[:6], tags=None if tags is None else np.arange(n),
                prop_distance=pd, t_flight=tf, z_injection=zi, name=name,
                q_species=sp[0], m_species=sp[1])
            b.x_ref, b.theta_ref = xr, th
            if name == 'n' and n:
                b.evolve([], 0., 1e-12, 'boris')
            c = b.copy()
            check_same(ck, c, b, 'copy')
            check_independent(ck, [[c]], [b], 'copy')
            ck.state(repr(ck.ctx))
