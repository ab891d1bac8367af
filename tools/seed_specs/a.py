COMMON = '''
import os, sys
import numpy as np
import scipy.constants as ct
import wake_t
assert wake_t.__file__.startswith(os.environ['REPO']), wake_t.__file__
from wake_t import ParticleBunch, GaussianPulse, PlasmaStage, Beamline
from wake_t import Drift, Dipole, Quadrupole, Sextupole
from wake_t.beamline_elements import TMElement, FieldElement, FieldQuadrupole
from wake_t.fields.analytical_field import AnalyticalField

def bunch(n=4, g=200., name='b', **kw):
    i = np.arange(n)
    return ParticleBunch(w=1e6*(1. + i % 3), x=1e-6*(i - 1.5), y=2e-6*(i % 2),
                         xi=-1e-6*i, px=.1*(i - 1), py=-.05*i,
                         pz=g*(1 + .01*i), name=name, **kw)
'''

SEEDS = []


def seed(id, prop, edits, needs, breaks, demo, jit=False):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs,
                      breaks=breaks, demo=COMMON + demo, jit=jit))


seed('C01-name-auto', 'C01', [(
    'wake_t/tracking/tracker.py',
    '        if bunch in self.auto_dt_bunches:\n',
    '        if bunch.name in [b.name for b in self.auto_dt_bunches]:\n')],
    'two bunches with the same name, one with adaptive and one with a fixed '
    'time step',
    'the fixed step of one bunch is overwritten by the adaptive step, which '
    'can be much longer than requested',
    '''
from wake_t.tracking.tracker import Tracker
n = {}
def count(b, *a):
    n[id(b)] = n.get(id(b), 0) + 1
a, b = bunch(name='x'), bunch(name='x')
old = ParticleBunch.evolve
ParticleBunch.evolve = lambda self, *a: (count(self), old(self, *a))[1]
Tracker(10e-6/ct.c, [a, b], ['auto', 1e-6/ct.c], [], 1,
        auto_dt_bunch_f=lambda b: 5e-6/ct.c,
        show_progress_bar=False).do_tracking()
assert n[id(a)] <= 3 and n[id(b)] >= 10, n
''')

seed('C01-tiny-rest', 'C01', [(
    'wake_t/tracking/tracker.py',
    '        final_push = np.float32(t_next) == np.float32(self.t_final)\n',
    '        final_push = (np.float32(t_next) == np.float32(self.t_final) or\n'
    '                      self.t_final - t_next < 1e-2 * dt_next)\n')],
    'a step that divides the length up to a rest of less than a percent',
    'the rest of the element is not tracked: the bunch ends before the exit',
    '''
b = bunch(g=300.)
el = FieldElement(30.05e-6, 10e-6/ct.c, n_out=0)
el.track(b, opmd_diag=False)
assert abs(b.prop_distance - 30.05e-6) < 1e-12, b.prop_distance
''')

seed('C02-two-fields', 'C02', [(
    'wake_t/tracking/tracker.py',
    '        self.objects_to_track = [*self.bunches, *self.num_fields]\n'
    '        self.dt_objects = [*self.dt_bunches, *self.dt_fields]\n',
    '        # Numerical fields are cheap to look up first.\n'
    '        self.objects_to_track = [*self.bunches, *self.num_fields[::-1]]\n'
    '        self.dt_objects = [*self.dt_bunches, *self.dt_fields]\n')],
    'two numerical fields with different refresh periods in one element',
    'the refresh periods of the two fields are exchanged',
    '''
from wake_t.fields.numerical_field import NumericalField
class F(NumericalField):
    def __init__(self, dt):
        super().__init__(dt)
        self.n = 0
    def _calculate_field(self, bunches):
        self.n += 1
    def _gather(self, *a):
        pass
f, g = F(2e-6/ct.c), F(5e-6/ct.c)
FieldElement(11e-6, 3e-6/ct.c, fields=[f, g], n_out=1).track(bunch(), opmd_diag=False)
assert (f.n, g.n) == (6, 3), (f.n, g.n)
''')

seed('C03-tm-shared-last', 'C03', [(
    'wake_t/beamline_elements/tm_elements.py',
    '            last_bunch = output_bunch_list[-1].copy()\n',
    '            last_bunch = output_bunch_list[-1]\n')],
    'the tracked bunch is changed after the tracking (e.g. a second element)',
    'the live bunch shares its arrays with the last snapshot of the output',
    '''
b = bunch()
out = Drift(1., n_out=2).track(b, show_progress_bar=False)
x = out[-1].x.copy()
b.x += 1.
assert np.array_equal(out[-1].x, x)
''')

seed('C05-zpos-offset', 'C05', [(
    'wake_t/fields/rz_wakefield.py',
    '        grid_global_offset = [0., global_time*ct.c+self.xi_min]\n',
    '        grid_global_offset = [0., self.t*ct.c+self.xi_min]\n')],
    'a plasma stage that is not the first element of a beamline with shared '
    'diagnostics, or outputs between two field updates',
    'the meshes of the second element are written at the wrong position',
    '''
import h5py, glob
from wake_t.diagnostics import OpenPMDDiagnostics
d = OpenPMDDiagnostics(write_dir='d')
b = bunch()
Drift(1e-3, n_out=1).track(b, opmd_diag=d, show_progress_bar=False)
st = PlasmaStage(1e-4, 1e23, wakefield_model='quasistatic_2d', xi_max=10e-6,
                 xi_min=-20e-6, r_max=30e-6, n_xi=8, n_r=8, ppc=2, n_out=1,
                 dt_bunch=2e-5/ct.c)
st.track(b, opmd_diag=d)
fs = sorted(glob.glob('d/hdf5/*.h5'))
f = h5py.File(fs[-1])
it = f['data'][list(f['data'])[0]]
off = it['fields/E'].attrs['gridGlobalOffset']
assert abs(off[1] - (1e-3 + 1e-4 - 20e-6)) < 1e-9, off
''')

seed('C09-rk4-time', 'C09', [(
    'wake_t/particles/push/runge_kutta_4.py',
    '            if i == 3:\n                t_i += dt\n',
    '            if i == 3:\n                t_i += dt / 2\n')],
    'a field that depends on time, tracked with the Runge-Kutta pusher',
    'the last stage of the Runge-Kutta scheme uses the field of the middle '
    'of the step',
    '''
def ex(x, y, xi, t, out, k):
    out += 1e9*np.exp(t*ct.c/5e-5)
b = bunch(1)
c = b.copy()
f = AnalyticalField(e_x=ex, constants=[1.])
FieldElement(1e-4, 2e-5/ct.c, fields=[f], bunch_pusher='rk4', n_out=1).track(b, opmd_diag=False)
FieldElement(1e-4, 2e-7/ct.c, fields=[f], bunch_pusher='boris', n_out=1).track(c, opmd_diag=False)
err = abs(b.px - c.px).max()
assert err < 1e-3*abs(c.px[0]), (b.px, c.px)
''')


seed('C06-field-order', 'C06', [(
    'wake_t/physics_models/em_fields/linear_b_theta.py',
    '        bx[i] -= k * y[i]\n', '        bx[i] = - k * y[i]\n')],
    'a plasma lens field that is not the first field of the element',
    'the horizontal field of all the previous fields is discarded',
    '''
from wake_t.physics_models.em_fields.linear_b_theta import LinearBThetaField
from wake_t.physics_models.em_fields.quadrupole import QuadrupoleField
def run(fs):
    b = bunch()
    FieldElement(1e-3, 1e-4/ct.c, fields=fs, n_out=1).track(b, opmd_diag=False)
    return b
a = run([LinearBThetaField(3e3), QuadrupoleField(1e3)])
b = run([QuadrupoleField(1e3), LinearBThetaField(3e3)])
assert np.allclose(a.py, b.py, rtol=1e-9, atol=1e-12), (a.py, b.py)
''')

seed('C08-last-cell', 'C08', [(
    'wake_t/particles/deposition.py',
    '            elif z_cell > nz - 2:\n'
    '                zsc_2 += zsc_3\n'
    '                zsc_3 = 0.\n',
    '            elif z_cell > nz - 1.5:\n'
    '                zsc_2 += zsc_3\n'
    '                zsc_3 = 0.\n')],
    'a particle in the first half of the last cell along z, cubic shape',
    'a part of its charge ends up in the guard cells',
    '''
from wake_t.particles.deposition import deposit_3d_distribution as dep
a = np.zeros((12, 12))
dep(np.array([6.25]), np.array([2.2]), np.zeros(1), np.ones(1), 0., .5, 8, 8, 1., 1., a)
assert abs(a[2:-2, 2:-2].sum() - 1) < 1e-12, a[2:-2, 2:-2].sum()
''')

seed('C09-half-push', 'C09', [(
    'wake_t/particles/push/boris_pusher.py',
    '        cons_s = 2/(1 + t_x**2 + t_y**2 + t_z**2)\n',
    '        cons_s = 2/(1 + t_x**2 + t_y**2)\n')],
    'a magnetic field along z',
    'the energy changes in a solenoidal field',
    '''
def bz(x, y, xi, t, out, k):
    out += 1e3
b = bunch(2, g=20.)
g0 = np.sqrt(1 + b.px**2 + b.py**2 + b.pz**2)
FieldElement(1e-2, 1e-3/ct.c, fields=[AnalyticalField(b_z=bz)], n_out=1).track(b, opmd_diag=False)
g1 = np.sqrt(1 + b.px**2 + b.py**2 + b.pz**2)
assert np.allclose(g0, g1, rtol=1e-10), (g0, g1)
''')

seed('C10-t423', 'C10', [(
    'wake_t/physics_models/beam_optics/transfer_matrices.py',
    '    T423 = 0.5*K1*K2*(2*cy*Jd - sy*Js) + 0.5*(K2 + h*K1)*dx*cy\n',
    '    T423 = 0.5*K1*K2*(2*cy*Jd - sy*Js) + 0.5*(K2 + 2*h*K1)*dx*cy\n')],
    'a bending magnet with a quadrupole gradient and particles with x\' and y',
    'a coupling coefficient of the second-order map is wrong, so that maps '
    'no longer compose',
    '''
def run(n):
    b = bunch(6, g=100.)
    b.y[:] = 1e-3*np.arange(1, 7); b.px[:] = .1*np.arange(6); b.py[:] = 0
    b.pz[:] = 100.; b.x[:] = 0.; b.xi[:] = 0.
    for _ in range(n):
        TMElement(.6/n, .3/n, 4., 0., 100.).track(b, show_progress_bar=False)
    return b
a, b = run(1), run(60)
err = np.max(np.abs(a.py - b.py))/100.
assert err < 6e-6, err
''')
