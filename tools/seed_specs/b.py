seed('C04-gref-kept', 'C04', [(
    'wake_t/beamline_elements/tm_elements.py',
    '        bunch_mat, gamma_ref = self._get_beam_matrix_for_tracking(bunch)\n',
    '        bunch_mat, gamma_ref = self._get_beam_matrix_for_tracking(bunch)\n'
    '        self.gamma_ref = gamma_ref\n')],
    'the same magnet used for two bunches of different energy, without a '
    'reference energy',
    'the second bunch is tracked with the energy of the first as reference',
    '''
q = Quadrupole(0.2, k1=40.)
q.track(bunch(g=200.), show_progress_bar=False)
b1, b2 = bunch(g=500.), bunch(g=500.)
q.track(b1, show_progress_bar=False)
Quadrupole(0.2, k1=40.).track(b2, show_progress_bar=False)
assert np.allclose(b1.x, b2.x, rtol=1e-9, atol=0), (b1.x, b2.x)
''')

seed('C11-small-angle', 'C11', [(
    'wake_t/beamline_elements/tm_elements.py',
    '            new_x_ref = (old_bunch.x_ref + prop_dist *\n'
    '                         np.sin(old_bunch.theta_ref))\n',
    '            new_x_ref = (old_bunch.x_ref + prop_dist *\n'
    '                         old_bunch.theta_ref)\n')],
    'a straight element after a dipole with a large angle',
    'the reference orbit is displaced by the angle instead of its sine',
    '''
b = bunch(n=5, g=600.)
Dipole(0.5, 0.6).track(b, show_progress_bar=False)
x0, th = b.x_ref, b.theta_ref
Drift(0.4).track(b, show_progress_bar=False)
assert abs(b.x_ref - x0 - .4*np.sin(th)) < 1e-9, (b.x_ref, x0)
''')

seed('C11-neg-bend-pose', 'C11', [(
    'wake_t/beamline_elements/tm_elements.py',
    '            new_theta_ref = old_bunch.theta_ref + theta_step\n',
    '            new_theta_ref = np.abs(old_bunch.theta_ref + theta_step)\n')],
    'an orbit bent to negative angles',
    'the orientation of the orbit loses its sign',
    '''
b = bunch(n=5, g=600.)
Dipole(0.5, -0.1).track(b, show_progress_bar=False)
assert abs(b.theta_ref + .1) < 1e-12, b.theta_ref
''')

seed('C12-recenter', 'C12', [(
    'wake_t/particles/particle_bunch.py',
    '        current_xi_c = np.average(self.xi, weights=self.w)\n',
    '        current_xi_c = np.average(self.xi)\n')],
    'a bunch with unequal weights',
    'the bunch is not centred where asked',
    '''
b = bunch()
b.reposition_xi(5e-6)
assert abs(np.average(b.xi, weights=b.w) - 5e-6) < 1e-15
''')

seed('C12-alt-charge', 'C12', [(
    'wake_t/particles/particle_bunch.py',
    '        self.w = np.abs(q_new / self.q_species)\n',
    '        self.w = np.abs(q_new / ct.e)\n')],
    'setting the charge of particles that are not singly charged',
    'the weights, and hence the charge read back, are wrong',
    '''
b = bunch(q_species=2*ct.e, m_species=4*ct.m_p)
q = b.q.copy()
b.q = q
assert np.allclose(b.q, q, rtol=1e-12, atol=0), (b.q, q)
''')

seed('C13-center-file', 'C13', [(
    'wake_t/utilities/bunch_generation.py',
    '    z_avg = np.average(distribution.z, weights=distribution.w)\n',
    '    z_avg = np.average(distribution.z)\n')],
    'a file with particles of unequal weight',
    'the bunch is not centred on its centre of charge and its position is '
    'wrong',
    '''
from wake_t.utilities.bunch_saving import save_bunch_to_file
from wake_t.utilities.bunch_generation import get_from_file
b = bunch()
save_bunch_to_file(b, 'openpmd', 'b.h5')
r = get_from_file('b.h5', 'openpmd')
assert abs(np.average(r.xi, weights=r.w)) < 1e-14, r.xi
''')

seed('C13-list-slices', 'C13', [(
    'wake_t/diagnostics/bunch_analysis.py',
    '    em_y_sl, sl_w, sl_e, em_y_sl_avg = emitt_y_slice_params\n',
    '    em_y_sl, sl_w, sl_e, em_y_sl_avg = emitt_x_slice_params\n')],
    'a bunch with different slice emittances in x and y',
    'the slice emittance in y is that of x',
    '''
from wake_t.diagnostics.bunch_analysis import analyze_bunch
rng = np.random.default_rng(1)
n = 400
b = ParticleBunch(w=np.ones(n), x=rng.normal(size=n)*1e-6,
    y=rng.normal(size=n)*5e-6, xi=rng.normal(size=n)*1e-6,
    px=rng.normal(size=n), py=rng.normal(size=n), pz=100+rng.normal(size=n))
p = analyze_bunch(b, n_slices=4)
assert p['avg_slice_emitt_y'] > 3*p['avg_slice_emitt_x']
''')

seed('C14-start-index', 'C14', [(
    'wake_t/physics_models/collective_effects/csr.py',
    '                i_0 = idx[j[-1]]\n',
    '                i_0 = idx[min(j[-1] + 1, n_test - 2)]\n')],
    'more than a thousand steps of the orbit, i.e. a long or finely resolved '
    'beamline',
    'part of the orbit that radiates on the bunch is left out',
    '''
from wake_t.physics_models.collective_effects.csr import (
    set_csr_settings, reset_csr_calculator)
rng = np.random.default_rng(3)
n = 300
def mk():
    r = np.random.default_rng(3)
    return ParticleBunch(w=np.full(n, 1e6), x=r.normal(size=n)*1e-6,
        y=r.normal(size=n)*1e-6, xi=r.normal(size=n)*3e-5,
        px=np.zeros(n), py=np.zeros(n), pz=1000+r.normal(size=n))
def run(step):
    reset_csr_calculator()
    set_csr_settings(0.05, step, 200)
    b = mk()
    Dipole(1., .2, csr_on=True).track(b, show_progress_bar=False)
    reset_csr_calculator()
    return b.pz - mk().pz
a, b = run(1./900), run(1./1500)
assert np.abs(a - b).max() < 1e-4*np.abs(a).max(), (
    np.abs(a - b).max(), np.abs(a).max())
''')

seed('C14-idx-first', 'C14', [(
    'wake_t/physics_models/collective_effects/csr.py',
    '            ds_csr = ds_out / np.ceil(ds_out/ds_csr)\n',
    '            ds_csr = ds_out / max(np.floor(ds_out/ds_csr), 1)\n')],
    'outputs whose distance is not a multiple of the CSR step',
    'the energy change is calculated less often than requested',
    '''
from wake_t.physics_models.collective_effects.csr import (
    set_csr_settings, reset_csr_calculator, get_csr_calculator)
set_csr_settings(0.06, 0.001, 100)
n = []
c = get_csr_calculator()
old = c.apply_csr
c.apply_csr = lambda *a, **k: (n.append(1), old(*a, **k))
i = np.arange(60)
b = ParticleBunch(w=np.full(60, 1e6), x=1e-6*np.cos(i), y=1e-6*np.sin(i),
    xi=1e-5*np.cos(2*i), px=0.*i, py=0.*i, pz=1000.+i)
Dipole(1., .2, csr_on=True, n_out=10).track(b, show_progress_bar=False)
assert len(n) == 20, len(n)
''')

seed('C15-substeps-change', 'C15', [(
    'wake_t/physics_models/laser/laser_pulse.py',
    "            if solver_params['dt'] != self.solver_params['dt']:\n",
    "            if dt != (self.solver_params['dt'] *\n"
    "                      self.solver_params['nt']):\n")],
    'a laser going from one stage to another with the same refresh period '
    'and another number of substeps',
    'the envelope is advanced with the previous envelope of another time '
    'step',
    '''
def run(switch):
    p = GaussianPulse(0., 1., 10e-6, 20e-15)
    P = (-20e-6, 20e-6, 40e-6, 81, 40)
    chi = np.zeros((81, 40))
    p.set_envelope_solver_params(*P, 40e-6/ct.c, 1)
    p.initialize_envelope()
    p.evolve(chi, 1e23)
    p.evolve(chi, 1e23)
    p.set_envelope_solver_params(*P, 40e-6/ct.c, 4)
    p.initialize_envelope()
    assert p.n_steps == 0, p.n_steps
run(True)
''')

seed('C16-lg-gouy', 'C16', [(
    'wake_t/physics_models/laser/laser_pulse.py',
    '            - 1j*(2*self.p)*psi  # *Additional* Gouy phase\n',
    '            - 1j*(self.p)*psi  # *Additional* Gouy phase\n')],
    'a Laguerre-Gauss mode, or a flattened Gaussian, outside of the focus',
    'the additional Gouy phase is half of what it should be',
    '''
from wake_t.physics_models.laser.laser_pulse import FlattenedGaussianPulse
p = FlattenedGaussianPulse(0., 1., 10e-6, 1e-12, N=4, z_foc=0.)
r = np.linspace(0, 200e-6, 2000)
e = []
a0 = p.envelope_function(np.zeros_like(r), r, 0.)
a1 = p.envelope_function(np.zeros_like(r), r, 4e-3)
# far from the focus the profile is flat: compare with the Fourier transform
I = np.abs(a1)**2
zr = np.pi*(10e-6)**2/.8e-6
w = 10e-6*5**.5*4e-3/(np.pi*50*(1e-6)**2*5/.8e-6*1e0)
assert np.argmax(I) * (r[1]) < 60e-6
half = r[np.where(I > .5*I[0])[0][-1]]
tenth = r[np.where(I > .1*I[0])[0][-1]]
assert tenth/half < 1.5, tenth/half
''')

seed('C19-circular', 'C19', [(
    'wake_t/physics_models/plasma_wakefields/qs_cold_fluid_1x3p.py',
    "            if self.laser.polarization == 'linear':\n",
    "            if self.laser.polarization is not None:\n")],
    'a circularly polarized laser',
    'the ponderomotive force is halved',
    '''
from wake_t.physics_models.plasma_wakefields import (
    NonLinearColdFluidWakefield)
def f(p, a):
    l = GaussianPulse(-8e-6, a, 10e-6, 15e-15, polarization=p)
    w = NonLinearColdFluidWakefield(lambda z: 1e24, 30e-6, -30e-6, 5e-6, 10,
                                    30, laser=l)
    w.update([])
    return w.e_z.copy()
a, b = f('linear', 2**.5), f('circular', 1.)
assert np.abs(a - b).max() < 1e-9*np.abs(a).max()
''')

seed('C19-two-bunches', 'C19', [(
    'wake_t/physics_models/plasma_wakefields/qs_cold_fluid_1x3p.py',
    '            w = bunch.w * (bunch.q_species / ct.e)\n',
    '            w = bunch.w * np.sign(bunch.q_species)\n')],
    'a bunch of multiply charged particles',
    'the bunch drives the plasma with less charge than it has',
    '''
from wake_t.physics_models.plasma_wakefields import (
    NonLinearColdFluidWakefield)
def f(q, k):
    w = NonLinearColdFluidWakefield(lambda z: 1e23, 30e-6, -30e-6, 5e-6, 10,
                                    30, beam_wakefields=True)
    i = np.arange(30)
    w.update([ParticleBunch(w=np.full(30, 2e5*k), x=4e-6*np.cos(i),
        y=4e-6*np.sin(i), xi=-4e-6 + 1e-6*np.cos(3*i), px=0.*i, py=0.*i,
        pz=np.full(30, 1000.), q_species=q, m_species=4*ct.m_p)])
    return w.e_z.copy()
a, b = f(2*ct.e, 1), f(ct.e, 2)
assert np.abs(a - b).max() < 1e-9*np.abs(a).max()
''')

seed('C20-deposit-race', 'C20', [(
    'wake_t/particles/deposition.py',
    'from wake_t.utilities.numba import njit_serial, prange\n',
    'from wake_t.utilities.numba import njit_serial, njit_parallel, prange\n'), (
    'wake_t/particles/deposition.py',
    '@njit_serial\ndef deposit_3d_distribution_linear(',
    '@njit_parallel\ndef deposit_3d_distribution_linear(')],
    'more than one thread and several particles in the same cell',
    'the iterations of the deposition add to the same nodes at the same time',
    '''
import subprocess
if 'CHILD' not in os.environ:
    env = dict(os.environ, CHILD='1', NUMBA_NUM_THREADS='4')
    sys.exit(subprocess.run([sys.executable, __file__], env=env).returncode)
import numba
from wake_t.particles.deposition import deposit_3d_distribution
numba.set_num_threads(4)
n = 400000
i = np.arange(n)
z, x, y = 5 + np.cos(i), 3*np.sin(i), 0.*i
for k in range(10):
    a = np.zeros((14, 14))
    deposit_3d_distribution(z, x, y, np.ones(n), 0., .5, 10, 10, 1., 1., a,
                            p_shape='linear')
    assert abs(a.sum() - n) < 1e-3, a.sum()
''', jit=True)

seed('C20-stale-bz', 'C20', [(
    'wake_t/fields/gather.py',
    '        bz[i] = 0.\n', '')],
    'a longitudinal magnetic field and more than one step',
    'the field arrays of the bunch keep what was there before',
    '''
from wake_t.fields.gather import gather_fields
a = [np.full(3, 7.) for _ in range(6)]
x = np.zeros(3)
gather_fields([], x, x, x, 0., *a)
assert not np.any(a), a
''')

seed('C21-swallow-interrupt', 'C21', [(
    'wake_t/beamline_elements/field_element.py',
    '        bunch_list = tracker.do_tracking()\n',
    '        try:\n'
    '            bunch_list = tracker.do_tracking()\n'
    '        except KeyboardInterrupt:\n'
    '            # Return the output generated so far.\n'
    '            bunch_list = tracker.bunch_list\n')],
    'an interrupt while tracking in a field-based element',
    'the interrupt does not reach the caller, who takes a partly tracked '
    'bunch for the result',
    '''
def ex(x, y, z, t, f, k):
    raise KeyboardInterrupt
el = FieldElement(1e-3, 1e-4/ct.c, n_out=1, fields=[AnalyticalField(e_x=ex)])
try:
    el.track(bunch(), show_progress_bar=False)
except KeyboardInterrupt:
    sys.exit(0)
sys.exit(1)
''')

seed('C22-size-y', 'C22', [(
    'wake_t/utilities/bunch_generation.py',
    '    b_y = s_y**2*ene/en_y\n',
    '    b_y = s_y**2*ene/en_x\n')],
    'a bunch defined by its sizes with different emittances in x and y',
    'the size in y is not the one given',
    '''
from wake_t.utilities.bunch_generation import get_gaussian_bunch_from_size
np.random.seed(1)
b = get_gaussian_bunch_from_size(1e-6, 4e-6, 2e-6, 3e-6, 100., 1., 3., 0.,
                                 10., 20000)
assert abs(np.std(b.y)/3e-6 - 1) < .05, np.std(b.y)
''')

seed('C22-kx-priority', 'C22', [(
    'wake_t/utilities/bunch_generation.py',
    '    if n_p is not None:\n        n_p *= 1e-6\n',
    '    if n_p is not None:\n        n_p *= 1e-6\n        k_x = None\n')],
    'both a density and a focusing gradient given to get_matched_bunch',
    'the gradient, which has priority, is ignored',
    '''
from wake_t.utilities.bunch_generation import get_matched_bunch
def f(**k):
    np.random.seed(1)
    return get_matched_bunch(1e-6, 1e-6, 100., 1., 3., 0., 10., 200, **k)
a, b = f(k_x=1e6), f(k_x=1e6, n_p=1e23)
assert np.allclose(a.x, b.x, rtol=1e-9), (a.x[:3], b.x[:3])
''')
