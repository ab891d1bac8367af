
seed('C06-listed-twice', 'C06', [(
    'wake_t/fields/gather.py',
    '    for field in fields:\n        field.gather(',
    '    for field in dict.fromkeys(fields):\n        field.gather(')],
    'the same field object twice in the list of fields',
    'it acts once instead of twice: fields do not add up',
    '''
from wake_t.physics_models.em_fields.quadrupole import QuadrupoleField
b1, b2 = bunch(g=200.), bunch(g=200.)
f = QuadrupoleField(5.)
FieldElement(1e-2, 1e-3/ct.c, n_out=0, fields=[f, f]).track(
    b1, show_progress_bar=False)
FieldElement(1e-2, 1e-3/ct.c, n_out=0, fields=[QuadrupoleField(10.)]).track(
    b2, show_progress_bar=False)
assert np.allclose(b1.px, b2.px, rtol=1e-9, atol=0)
''')

seed('C17-one-external', 'C17', [(
    'wake_t/beamline_elements/plasma_stage.py',
    '        fields.extend(self.external_fields)',
    '        fields += self.external_fields[-1:]')],
    'a stage with two external fields',
    'only the last of the external fields acts on the bunch',
    '''
from wake_t import PlasmaStage
from wake_t.physics_models.em_fields.quadrupole import QuadrupoleField
b1, b2 = bunch(g=200.), bunch(g=200.)
PlasmaStage(1e-2, 1e22, None, dt_bunch=1e-3/ct.c, external_fields=[
    QuadrupoleField(5.), QuadrupoleField(7.)]).track(
        b1, show_progress_bar=False)
PlasmaStage(1e-2, 1e22, None, dt_bunch=1e-3/ct.c, external_fields=[
    QuadrupoleField(12.)]).track(b2, show_progress_bar=False)
assert np.allclose(b1.px, b2.px, rtol=1e-9, atol=0)
''')

seed('C18-single-particle', 'C18', [(
    'wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/solver.py',
    '    for bunch in bunches:\n        calculate_beam_source(',
    '    for bunch in bunches:\n        if np.ptp(bunch.xi) == 0.:\n'
    '            continue\n        calculate_beam_source(')],
    'a driver of a single macroparticle (or of zero length)',
    'the bunch drives no wakefield',
    '''
from wake_t.physics_models.plasma_wakefields import Quasistatic2DWakefield
from wake_t import ParticleBunch
z = np.zeros(1)
b = ParticleBunch(np.array([1e8]), z + 2e-6, z, z - 1e-5, z, z, z + 1e3,
                  name='d')
f = Quasistatic2DWakefield(lambda z: 2e23, r_max=24e-6, xi_min=-36e-6,
                           xi_max=0., n_r=8, n_xi=16, ppc=2)
g = Quasistatic2DWakefield(lambda z: 2e23, r_max=24e-6, xi_min=-36e-6,
                           xi_max=0., n_r=8, n_xi=16, ppc=2)
f.update([b])
g.update([])
out = [[np.zeros(1) for _ in range(6)] for _ in range(2)]
f.gather(z + 2e-6, z, z - 2e-5, 0., *out[0])
g.gather(z + 2e-6, z, z - 2e-5, 0., *out[1])
assert abs(out[0][2][0] - out[1][2][0]) > 1e6, out
''')

seed('C18-circular-later', 'C18', [(
    'wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/wakefield.py',
    "            if self.laser.polarization == 'linear':",
    "            if self.t > 0. or self.laser.polarization == 'linear':")],
    'a circularly polarized driver and a second update of the wakefield',
    'from the second update on the driver acts with half of its intensity',
    '''
from wake_t import GaussianPulse
from wake_t.physics_models.plasma_wakefields import Quasistatic2DWakefield


def wake(updates):
    las = GaussianPulse(-10e-6, a_0=.5, w_0=10e-6, tau=10e-15,
                        polarization='circular')
    f = Quasistatic2DWakefield(
        lambda z: 2e23, r_max=25e-6, xi_min=-30e-6, xi_max=0., n_r=6,
        n_xi=10, ppc=2, dz_fields=1e-5, laser=las, laser_evolution=False)
    for _ in range(updates):
        f.update([])
    x = np.linspace(0., 15e-6, 8)
    a = [np.zeros(8) for _ in range(6)]
    f.gather(x, 0*x, np.full(8, -22e-6), 0., *a)
    return a[2]


assert np.max(np.abs(wake(1))) > 0.
assert np.allclose(wake(1), wake(3), rtol=1e-10, atol=0)
''')
