"""C13: saving, reading and analysing a bunch preserve its content."""
import os
import shutil
import tempfile
from itertools import product

import numpy as np
import scipy.constants as ct

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of bunches x formats x naming/reading '
             'options and of all save/read/track chains up to a depth on real '
             'files in a scratch directory, against the original particle '
             'data; analysis against independently computed weighted moments '
             'for all small bunches, slice settings and list lengths')
BOUNDS = {
    'quick': '6 bunches x 3 formats x 3 name options x 6 species names x '
             'preserving or not the position; all chains of <=3 save/read '
             'steps over the formats; files with 0, 1, 2 species; files '
             'written by 3 kinds of tracking; 6 bunches x 6 slice settings; '
             'lists of 1..4 bunches',
    'thorough': 'as quick with all chains of <=5 steps and 12 slice settings',
}
ASSUMPTIONS = ['text formats carry 13 significant digits relative to the '
               'reference particle, which APtools adds as a particle of its '
               'own; ASTRA is used for electrons and positrons and CSRtrack '
               'for electrons',
               'emittances, Twiss and slice statistics are those of the installed APtools']
ENV = {'NUMBA_DISABLE_JIT': '1'}


def jobs(tier):
    q = tier == 'quick'
    js = [dict(kind='formats', bunch=i) for i in range(6)]
    js += [dict(kind='chains', first=i, depth=3 if q else 5)
           for i in range(3)]
    js += [dict(kind='species'), dict(kind='tracked'), dict(kind='params')]
    js += [dict(kind='analysis', bunch=i, n=6 if q else 12)
           for i in range(6)]
    return js


def weight(j):
    return {'formats': 2, 'chains': 4}.get(j['kind'], 3)


def make(i, name='b'):
    from wake_t import ParticleBunch
    n = (9, 1, 40, 7, 12, 5)[i]
    k = np.arange(n)
    sp = [dict(), dict(), dict(), dict(q_species=ct.e),
          dict(q_species=ct.e, m_species=ct.m_p),
          dict(q_species=-4*ct.e, m_species=9*ct.m_p)][i]
    return ParticleBunch(
        w=1e5*(1. + k % 3), x=1e-5*np.sin(k + 1.), y=2e-5*np.cos(3.*k) + 1e-6,
        xi=1e-5*np.sin(7.*k) + 3e-4*(i % 2), px=.4*np.cos(2.*k + .3),
        py=-.3*np.sin(5.*k + .2), pz=(200. + 30*i)*(1 + .01*np.cos(11.*k)),
        name=name, prop_distance=.37*(i % 3), **sp)


FORMATS = ('astra', 'csrtrack', 'openpmd')
SPECIES = (None, 'sp', 'Sp_01', 'the-witness', 'two words', 'e.beam')


def allowed(fmt, i):
    return fmt == 'openpmd' or (fmt == 'astra' and i < 4) or i < 3


def path(d, fmt, tag=''):
    return os.path.join(d, 'f%s%s' % (tag, {
        'astra': '.txt', 'csrtrack': '.fmt1', 'openpmd': '.h5'}[fmt]))


def check_bunch(ck, b, ref, what, xi, z, rtol=1e-10):
    ck.state(b.x, b.px)
    for k in ('x', 'y'):
        ck.close(getattr(b, k), getattr(ref, k), f'{what}: {k}', rtol=rtol,
                 scale=1e-4)
    ck.close(b.xi, xi, f'{what}: xi', rtol=rtol, scale=1e-4)
    for k in ('px', 'py', 'pz'):
        ck.close(getattr(b, k), getattr(ref, k), f'{what}: {k}', rtol=rtol,
                 scale=np.max(np.abs(ref.pz)))
    ck.close(b.w, ref.w, f'{what}: weights', rtol=rtol)
    ck.close(b.q, ref.q, f'{what}: charge', rtol=rtol)
    ck.close(b.q_species, ref.q_species, f'{what}: species charge',
             rtol=1e-12)
    ck.close(b.m_species, ref.m_species, f'{what}: species mass', rtol=1e-12)
    ck.close(float(b.prop_distance), float(z), f'{what}: prop. distance',
             atol=1e-9)


def run(job, ck):
    d = tempfile.mkdtemp(prefix='c13_')
    try:
        globals()['run_' + job['kind']](job, ck, d)
    finally:
        shutil.rmtree(d)


def recentre(b):
    return b.xi - np.sum(b.xi*b.w)/np.sum(b.w)


def as_stored(b, fmt):
    """What the file holds: the text formats of APtools put a reference
    particle (the average one) in front of the others."""
    if fmt == 'openpmd':
        return b
    b = b.copy()
    w = b.w.copy()
    for k in ('x', 'y', 'xi', 'px', 'py', 'pz'):
        a = getattr(b, k)
        setattr(b, k, np.concatenate([[np.sum(a*w)/np.sum(w)], a]))
    b.w = np.concatenate([[np.mean(w)], w])
    return b


def run_formats(job, ck, d):
    from wake_t.utilities.bunch_saving import save_bunch_to_file
    from wake_t.utilities.bunch_generation import get_from_file
    i = job['bunch']
    n = 0
    for own, fmt, name, sp, keep in product(
            ('mybunch', 'my bunch', 'e.beam-1', 'Elec_B0', 'elec_bunch_0'), FORMATS,
            (None, 'given'), SPECIES, (False, True)):
        if not allowed(fmt, i) or (sp and (fmt != 'openpmd' or
                                           own != 'mybunch')):
            continue
        b = make(i, own)
        n += 1
        p = path(d, fmt, n)
        ck.begin(bunch=i, format=fmt, name=name, species=sp, preserve=keep,
                 own_name=own)
        with ck.guard():
            kw = {'species_name': sp} if sp else {}
            save_bunch_to_file(b, fmt, p, **kw)
        o = make(i, own)
        for k in ('x', 'y', 'xi', 'px', 'py', 'pz', 'w'):
            ck.same(getattr(b, k), getattr(o, k), 'saving changed the bunch')
        with ck.guard():
            r = get_from_file(p, fmt, preserve_prop_dist=keep, name=name)
        ck.step(2)
        o = as_stored(o, fmt)
        zm = np.sum(o.xi*o.w)/np.sum(o.w)
        check_bunch(ck, r, o, 'read back', recentre(o), zm if keep else 0.)
        if name is not None:
            ck.expect(r.name == name, 'given name', got=r.name)
        elif fmt == 'openpmd':
            ck.expect(r.name == (sp or own), 'name of the species',
                      got=r.name)


def run_chains(job, ck, d):
    from wake_t.utilities.bunch_saving import save_bunch_to_file
    from wake_t.utilities.bunch_generation import get_from_file
    n = [0]

    def rec(b, hist, model):
        for k, fmt in enumerate(FORMATS):
            if not hist and k != job['first']:
                continue
            n[0] += 1
            p = path(d, fmt, n[0])
            ck.begin(chain=hist + [fmt])
            with ck.guard():
                save_bunch_to_file(b, fmt, p)
                r = get_from_file(p, fmt)
            os.remove(p)
            ck.step(2)
            o = as_stored(model, fmt)
            check_bunch(ck, r, o, 'after a chain of files', recentre(o), 0.,
                        rtol=1e-9)
            if len(hist) + 1 < job['depth']:
                rec(r, hist + [fmt], o)
    rec(make(2), [], make(2))


def run_species(job, ck, d):
    """Selecting one of several species in an openPMD file."""
    from wake_t.diagnostics import OpenPMDDiagnostics
    from wake_t.utilities.bunch_generation import get_from_file
    for ids in [(0,), (0, 3), (4, 2), (0, 4, 5)]:
        w = os.path.join(d, 'sp' + ''.join(map(str, ids)))
        bs = [make(i, 'n%d' % i) for i in ids]
        ck.begin(species=ids)
        with ck.guard():
            dg = OpenPMDDiagnostics(write_dir=w)
            dg.write_diagnostics(1e-9, 1e-12, bs)
        p = os.path.join(w, 'hdf5', 'data00000000.h5')
        for i, b in zip(ids, bs):
            for name, keep in product((None, 'x'), (False, True)):
                ck.begin(species=ids, read=i, name=name, preserve=keep)
                with ck.guard():
                    r = get_from_file(p, 'openpmd', species_name='n%d' % i,
                                      name=name, preserve_prop_dist=keep)
                ck.step()
                o = make(i)
                zm = np.sum(o.xi*o.w)/np.sum(o.w) + 1e-9*ct.c
                check_bunch(ck, r, o, 'species of a file', recentre(o),
                            zm if keep else 0., rtol=1e-9)
                ck.expect(r.name == (name or 'n%d' % i), 'name')
        ck.begin(species=ids, read='unspecified')
        if len(ids) == 1:
            with ck.guard():
                r = get_from_file(p, 'openpmd')
            ck.expect(r.name == 'n%d' % ids[0], 'name of the only species')
        else:
            ck.raises(ValueError, lambda: get_from_file(p, 'openpmd'),
                      'ambiguous species')
        ck.begin(species=ids, duplicate=True)
        dg = OpenPMDDiagnostics(write_dir=w + 'dup')
        ck.raises(ValueError, lambda: dg.write_diagnostics(
            0., 1e-12, [make(0, 'same'), make(3, 'same')]),
            'two species of the same name')
    w = os.path.join(d, 'empty')
    ck.begin(species=())
    OpenPMDDiagnostics(write_dir=w).write_diagnostics(0., 1e-12)
    ck.raises(ValueError, lambda: get_from_file(
        os.path.join(w, 'hdf5', 'data00000000.h5'), 'openpmd'),
        'file without species')


def run_tracked(job, ck, d):
    """A bunch read from the diagnostics continues where it was written."""
    from wake_t import Drift
    from wake_t.beamline_elements import FieldElement
    from wake_t.utilities.bunch_generation import get_from_file
    for kind, n_out in product(('drift', 'field'), (1, 2, 3)):
        w = os.path.join(d, '%s%d' % (kind, n_out))
        b = make(0)
        b.prop_distance = 0.
        ck.begin(kind=kind, n_out=n_out)
        with ck.guard():
            if kind == 'drift':
                out = Drift(.3, n_out=n_out).track(
                    b, opmd_diag=True, diag_dir=w, show_progress_bar=False)
            else:
                out = FieldElement(.3, .1/ct.c, n_out=n_out).track(
                    b, opmd_diag=True, diag_dir=w)
        ck.step(n_out)
        # field elements also write the entrance
        for k, o in enumerate(out):
            p = os.path.join(w, 'hdf5', 'data%08d.h5' % k)
            ck.begin(kind=kind, n_out=n_out, read=k)
            with ck.guard():
                r = get_from_file(p, 'openpmd', preserve_prop_dist=True)
            zm = np.sum(o.xi*o.w)/np.sum(o.w) + o.prop_distance
            check_bunch(ck, r, o, 'read from the diagnostics', recentre(o),
                        zm, rtol=1e-9)
            ck.expect(r.name == o.name, 'name of the bunch')


def run_params(job, ck, d):
    from wake_t.diagnostics import analyze_bunch, analyze_bunch_list
    import wake_t.diagnostics.bunch_analysis as ba
    for i, n in product(range(1, 6), (1, 2, 3)):
        if i == 1:
            continue
        ck.begin(bunch=i, list=n)
        bl = [make(i)]*n
        with ck.guard():
            a = analyze_bunch(make(i), n_slices=3)
            l = analyze_bunch_list(bl, n_slices=3)
            ba.save_parameters_to_file(a, os.path.join(d, 'p', 'q'), 'a%d' % i)
            ba.save_parameters_to_file(l, os.path.join(d, 'p', 'q'), 'l%d' % i)
            ra = ba.read_parameters_from_file(
                os.path.join(d, 'p', 'q', 'a%d.h5' % i))
            rl = ba.read_parameters_from_file(
                os.path.join(d, 'p', 'q', 'l%d.h5' % i))
        ck.step(4)
        for w, r in ((a, ra), (l, rl)):
            ck.expect(set(w) == set(r), 'names of the stored parameters',
                      got=sorted(r))
            for k in w:
                if k in r:
                    ck.same(r[k], w[k], 'stored parameter ' + k)
        ck.state(*[np.asarray(v) for v in a.values()])
    for i in range(6):
        import h5py
        b = make(i)
        ck.begin(raw=i)
        with ck.guard():
            ba.save_bunch_to_file(b, os.path.join(d, 'new', 'dir'), 'b%d' % i)
        ck.step()
        with h5py.File(os.path.join(d, 'new', 'dir', 'b%d.h5' % i)) as f:
            for k in ('x', 'y', 'xi', 'px', 'py', 'pz', 'q'):
                ck.same(f[k][()], getattr(b, k), 'raw file: ' + k)
            ck.expect(f.attrs['prop_dist'] == b.prop_distance, 'raw file: z')


def moments(b):
    w = b.w/np.sum(b.w)

    def avg(a):
        return np.sum(a*w)

    def cov(a, c):
        return avg((a - avg(a))*(c - avg(c)))
    g = np.sqrt(1 + b.px**2 + b.py**2 + b.pz**2)
    o = dict(prop_dist=b.prop_distance, x_avg=avg(b.x), y_avg=avg(b.y),
             sigma_x=np.sqrt(cov(b.x, b.x)), sigma_y=np.sqrt(cov(b.y, b.y)),
             sigma_z=np.sqrt(cov(b.xi, b.xi)), avg_ene=avg(g),
             rel_ene_spread=np.sqrt(cov(g, g))/avg(g),
             theta_x=avg(b.px)/avg(g), theta_y=avg(b.py)/avg(g),
             q_tot=np.sum(b.w)*b.q_species)
    import aptools.data_analysis.beam_diagnostics as bd
    for u, p, v, n in ((b.x, b.px, b.py, 'x'), (b.y, b.py, b.px, 'y')):
        o['emitt_' + n] = bd.normalized_transverse_rms_emittance(
            u, p, v, b.pz, w=b.w)
        o['alpha_' + n], o['beta_' + n], o['gamma_' + n] = \
            bd.twiss_parameters(u, p, b.pz, v, w=b.w)
        # the definition of APtools, up to its sample covariance (n/(n-1))
        e = np.sqrt(cov(u, u)*cov(p, p) - cov(u, p)**2)
        assert .9 < o['emitt_' + n]/e < 1.5
    return o


def slices(b, n, ln):
    import aptools.data_analysis.beam_diagnostics as bd
    kw = dict(w=b.w, n_slices=n, len_slice=ln)
    return dict(
        avg_slice_emitt_x=bd.normalized_transverse_rms_slice_emittance(
            b.xi, b.x, b.px, b.py, b.pz, **kw)[3],
        avg_slice_emitt_y=bd.normalized_transverse_rms_slice_emittance(
            b.xi, b.y, b.py, b.px, b.pz, **kw)[3],
        avg_slice_rel_ene_spread=bd.relative_rms_slice_energy_spread(
            b.xi, b.px, b.py, b.pz, **kw)[3],
        i_peak=bd.peak_current(b.xi, b.w*abs(b.q_species), n_slices=n,
                               len_slice=ln))


def run_analysis(job, ck, d):
    from wake_t.diagnostics import analyze_bunch, analyze_bunch_list
    i = job['bunch']
    if i == 1:
        return    # one particle has no emittance
    sets = [(1, None), (2, None), (4, None), (50, None), (50, 4e-6),
            (1, 7e-6), (3, None), (5, None), (8, None), (50, 2e-6), (10, 1e-6),
            (50, 9e-6)][:job['n']]
    ck.begin(bunch=i, n_slices='default')
    with ck.guard():
        for a, w in ((analyze_bunch(make(i)),
                      analyze_bunch(make(i), n_slices=50)),
                     (analyze_bunch_list([make(i)]),
                      analyze_bunch_list([make(i)], n_slices=50))):
            for k in w:
                ck.same(a[k], w[k], 'fifty slices by default: ' + k)
    for n, ln in sets:
        b = make(i)
        ck.begin(bunch=i, n_slices=n, len_slice=ln)
        with ck.guard():
            a = analyze_bunch(b, n_slices=n, len_slice=ln)
        ck.step()
        o = make(i)
        for k in ('x', 'y', 'xi', 'px', 'py', 'pz', 'w'):
            ck.same(getattr(b, k), getattr(o, k), 'analysis changed the bunch')
        want = moments(o)
        ws = slices(o, n, ln)
        ck.state(*[np.asarray(v, dtype=float) for v in a.values()])
        for k, v in {**want, **ws}.items():
            ck.expect(k in a, 'missing parameter ' + k)
            if k == 'i_peak':
                ck.close(abs(a[k]), abs(v), 'analysis: ' + k, rtol=1e-8)
            else:
                ck.close(np.asarray(a[k], dtype=float), v, 'analysis: ' + k,
                         rtol=1e-5, atol=1e-30)
        for m in range(1, 5):
            ck.begin(bunch=i, n_slices=n, len_slice=ln, list=m)
            bl = []
            for j in range(m):
                c = make(i)
                c.x *= 1 + j
                c.pz *= 1 + .1*j
                c.prop_distance = j
                bl.append(c)
            with ck.guard():
                al = analyze_bunch_list(bl, n_slices=n, len_slice=ln)
                single = [analyze_bunch(c, n_slices=n, len_slice=ln)
                          for c in bl]
            ck.step()
            for k in al:
                ck.close(np.asarray(al[k], dtype=float),
                         np.array([s[k] for s in single], dtype=float),
                         'analysis of a list: ' + k, rtol=1e-12)
            for k in ('sigma_x', 'prop_dist', 'avg_ene'):
                ck.close(al[k], np.array([moments(c)[k] for c in bl],
                                         dtype=float),
                         'analysis of a list: ' + k, rtol=1e-9)
