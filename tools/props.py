"""The property table; tools/gen.py writes properties.jsonl and MANIFEST.json
from it (and from the check modules)."""

B = 'wake_t/beamline_elements/'
F = 'wake_t/fields/'
P = 'wake_t/particles/'
M = 'wake_t/physics_models/'

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, state=(),
         observe=()):
    PROPS.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': list(over), 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': list(files),
            'mechanism': [{'name': n, 'where': w} for n, w in mech],
            'state': [{'name': n, 'meaning': m, 'where': w}
                      for n, m, w in state],
            'observe_at': list(observe), 'hook_needed': None}})


prop('C01', 'Tracking is gapless, ordered and ends exactly at the exit',
     'In every field-based element each bunch is pushed through a contiguous '
     'sequence of time steps that starts at the entrance and ends exactly at '
     'the exit, never overlapping, skipping or going backwards, and never '
     'taking a step longer than the one requested for it. The total time and '
     'propagated distance of the bunch equal the element length, for any '
     'mixture of bunches, step sizes (fixed or adaptive), outputs and '
     'numerical fields, and what one bunch experiences does not depend on the '
     'steps of the others.',
     ['inputs', 'schedules', 'configurations'],
     'all step sizes (including steps longer than the element and steps that '
     'do not divide it), element lengths, numbers of bunches, outputs and '
     'output modes',
     'The tests run a handful of step sizes, nearly all of which divide the '
     'element, and compare one final number; interleavings of several '
     'bunches, fields and outputs are not examined.',
     ['wake_t/tracking/tracker.py', P + 'particle_bunch.py',
      B + 'field_element.py', B + 'plasma_stage.py'],
     [('event loop picking the next object to update',
       'wake_t/tracking/tracker.py: do_tracking'),
      ('element sets up tracker and step sizes',
       B + 'field_element.py: track'),
      ('bunch advance', P + 'particle_bunch.py: evolve')],
     [('t', 'time of every tracked object', 'wake_t/tracking/tracker.py')],
     ['bunch.prop_distance and positions after track()',
      'times at which fields are sampled'])

prop('C02', 'Numerical fields are refreshed on schedule and never stale',
     'A numerical field is calculated at the entrance and then every time '
     'its refresh period elapses, from the bunches as they are at that time, '
     'and every push of a bunch uses the latest version calculated before '
     'it. No refresh is skipped, repeated or computed from bunches that have '
     'not yet reached, or have been moved beyond, the time of the refresh.',
     ['schedules', 'configurations', 'inputs'],
     'all refresh periods and step laws, one or two fields, zero or more '
     'bunches, output counts, with periods shorter and longer than the '
     'bunch steps and the element',
     'Tests use one field with one refresh period per element and only look '
     'at final beam parameters, which are insensitive to a late or repeated '
     'refresh.',
     ['wake_t/tracking/tracker.py', F + 'numerical_field.py',
      F + 'rz_wakefield.py', B + 'plasma_stage.py'],
     [('refresh queue', 'wake_t/tracking/tracker.py: do_tracking'),
      ('update period and initialisation', F + 'numerical_field.py: update')],
     [('dt_update', 'refresh period of a field', F + 'numerical_field.py')],
     ['density profile queries and field samples with their times'])

prop('C03', 'Outputs are independent snapshots taken at the requested points',
     'Tracking returns, for every bunch, exactly the number of outputs '
     'requested, equally spaced and with the last one at the exit (plus the '
     'entrance where this is requested), each holding the complete state '
     'that the bunch has at that point. Snapshots share no memory with each '
     'other or with the live bunch and the last one equals the tracked '
     'bunch; asking for outputs, in any number, does not change which '
     'particles or attributes (weights, tags, species, name, flight time) '
     'the bunch has.',
     ['configurations', 'inputs'],
     'all element kinds, output counts, step laws, bunch counts and output '
     'modes',
     'Tests look at the last element of the returned list at most.',
     ['wake_t/tracking/tracker.py', B + 'tm_elements.py', B + 'beamline.py',
      P + 'particle_bunch.py'],
     [('diagnostics event in the tracking loop',
       'wake_t/tracking/tracker.py: generate_diagnostics'),
      ('output steps of transfer-map elements',
       B + 'tm_elements.py: _determine_steps'),
      ('copy of a bunch', P + 'particle_bunch.py: copy')],
     observe=['list returned by track()'])

prop('C04', 'The result of tracking does not depend on history',
     'Tracking a bunch through an element gives a result that is determined '
     'by the state of the bunch and the definition of the element alone: '
     'reusing an element, a field object or a bunch after any sequence of '
     'other tracking operations gives the same result as using newly built '
     'ones. Tracking a bunch leaves other bunches and the element untouched.',
     ['histories', 'programs'],
     'all short sequences of tracking operations over shared elements, '
     'fields and bunches',
     'Each test builds its own elements and uses each of them once.',
     [B + 'field_element.py', B + 'plasma_stage.py', B + 'tm_elements.py',
      F + 'numerical_field.py', F + 'rz_wakefield.py',
      M + 'plasma_wakefields/qs_rz_baxevanis/wakefield.py'],
     [('field re-initialisation', F + 'numerical_field.py: initialize_properties'),
      ('reference energy of transfer-map elements',
       B + 'tm_elements.py: track')],
     [('initialized flags and cached grids', 'state kept by field objects',
       F + 'rz_wakefield.py')],
     ['bunches and fields after each operation of a sequence'])

prop('C05', 'openPMD output is complete, consistent and readable',
     'For every output of every element one file is written, numbered '
     'consecutively over the whole beamline, with the simulation time and '
     'position of that output, one particle species per bunch under its '
     'name, and all available field meshes with their true geometry. Data '
     'read back from the file with their units equal the state of the bunch '
     'and of the fields at that point, and other files in the folder are '
     'left alone.',
     ['configurations', 'programs', 'histories'],
     'all sequences of elements, ways of requesting the output, species sets '
     'and output counts',
     'The tests only check that a simulation with diagnostics runs, or read '
     'back one file written by one element.',
     ['wake_t/diagnostics/openpmd_diag.py', B + 'beamline.py',
      F + 'rz_wakefield.py', P + 'particle_bunch.py'],
     [('file index and position bookkeeping',
       'wake_t/diagnostics/openpmd_diag.py: write_diagnostics, increase_z_pos'),
      ('data conversion', P + 'particle_bunch.py: get_openpmd_diagnostics_data')],
     observe=['HDF5 files'])

prop('C06', 'Particles feel the sum of all fields, each given by its formula',
     'At any point and time the field felt by a bunch is the sum of all the '
     'fields acting on it, in any number and order, each of which adds its '
     'contribution to what is already there. The built-in analytic fields '
     '(blowout wakes, focusing ramps, plasma lenses, quadrupoles, and '
     'user-defined functions of any subset of components) equal their '
     'documented formulas for every charge state, strength and position.',
     ['inputs', 'configurations'],
     'all lists of fields up to a length, all subsets of components, a '
     'lattice of positions, times and species',
     'Tests use one field per element, so that overwriting instead of '
     'adding, or dropping a component, is invisible.',
     [F + 'base.py', F + 'analytical_field.py', F + 'gather.py',
      M + 'em_fields/linear_b_theta.py', M + 'em_fields/quadrupole.py',
      M + 'plasma_wakefields/'],
     [('gather over all fields', F + 'gather.py: gather_fields'),
      ('component functions', F + 'analytical_field.py: _gather')],
     observe=['gathered field arrays, motion of the bunch'])

prop('C07', 'Grid fields are gathered by exact linear interpolation',
     'The field that a particle gets from an r-z grid is the bilinear '
     'interpolation of the grid values at its position, projected on x and y '
     'by its azimuth, with the mirror symmetry of each component on the '
     'axis and exactly zero outside of the grid. The same holds for the '
     'transfer of quantities between grids and from the grid to plasma '
     'particles.',
     ['inputs'],
     'all positions relative to the cells, edges and axis, all azimuths, all '
     'small grids',
     'Tests sample bulk positions only; edges, the axis and the guard '
     'cells are never hit on purpose.',
     [F + 'interpolation.py', P + 'interpolation.py', F + 'rz_wakefield.py'],
     [('interpolation kernels',
       P + 'interpolation.py: gather_main_fields_cyl_linear')],
     observe=['gathered arrays'])

prop('C08', 'Charge deposition conserves and localises the particles',
     'Depositing particles on the r-z grid distributes the whole weight of '
     'every particle inside the grid over the neighbouring nodes given by '
     'the particle shape, with the total conserved and reflected on the '
     'axis, and nothing from particles outside. The result is the sum of the '
     'contributions of the individual particles, in any order and number.',
     ['inputs', 'schedules'],
     'all positions relative to cells, edges and axis; both shapes; any '
     'particle order',
     'The one deposition test uses a few particles in the bulk of a single '
     'grid.',
     [P + 'deposition.py',
      M + 'plasma_wakefields/qs_rz_baxevanis/deposition.py'],
     [('deposition kernels', P + 'deposition.py: deposit_3d_distribution')],
     observe=['deposited grid'])

prop('C09', 'Particles obey the relativistic equations of motion',
     'One push advances positions and momenta of every particle by the '
     'relativistic equations of motion in the given electric and magnetic '
     'fields, for any charge, mass, field direction and step, to the order '
     'of the chosen scheme; magnetic fields never change the energy, and '
     'without fields the motion is exactly uniform. Particles before their '
     'injection position drift without feeling the fields, and resizing or '
     'reusing a bunch does not affect its motion.',
     ['inputs', 'histories'],
     'all sign patterns of the six field components, momentum lattice, '
     'species, steps; all short sequences of operations on a bunch',
     'Tests compare average beam parameters of electrons after one element; '
     'a wrong sign or factor that matters only for other species, '
     'transverse electric fields or the injection position is not seen.',
     [P + 'push/boris_pusher.py', P + 'push/runge_kutta_4.py',
      P + 'particle_bunch.py'],
     [('Boris push', P + 'push/boris_pusher.py: push_boris'),
      ('Runge-Kutta push', P + 'push/runge_kutta_4.py: push_rk4'),
      ('preallocated arrays', P + 'particle_bunch.py')],
     observe=['phase space after each step'])

prop('C10', 'Transfer maps are the flow of the magnet Hamiltonian',
     'The first- and second-order maps of drifts, dipoles, quadrupoles, '
     'sextupoles and combined-function magnets equal the exact flow, to that '
     'order, of the particle motion in the magnet, for any length, bending '
     'angle, gradients, energy and position inside the magnet, including '
     'backwards. Hence maps are symplectic to first order, compose, invert, '
     'and reduce to the identity for zero length; every particle is mapped '
     'independently of the others.',
     ['inputs'],
     'the lattice of lengths, angles, gradients, energies and positions, '
     'including all removable singularities',
     'The tests cover one drift, one dipole pair, one quadrupole and one '
     'sextupole through a few averages; combined-function terms and '
     'singular limits are never evaluated.',
     [M + 'beam_optics/transfer_matrices.py',
      P + 'push/transfer_matrix.py'],
     [('first-order matrix',
       M + 'beam_optics/transfer_matrices.py: first_order_matrix'),
      ('second-order tensor',
       M + 'beam_optics/transfer_matrices.py: second_order_matrix')],
     observe=['mapped particle coordinates'])

prop('C11', 'Magnets and drifts move a bunch along the reference orbit',
     'Tracking a bunch through a drift, dipole, quadrupole, sextupole or '
     'general transfer-matrix element moves every particle by the map of the '
     'element in the frame of the reference orbit, of the order requested, '
     'for any reference energy, output count and direction, and advances '
     'position and orientation of the orbit by the bend geometry, so that '
     'any sequence of elements equals the composition of its parts and '
     'backtracking a linear sequence restores the bunch.',
     ['inputs', 'histories'],
     'all element sequences in both directions up to a depth, all output '
     'counts, reference energies and initial orbits in the lattice',
     'Tests track one bunch once through four elements; rotations of the '
     'orbit, backtracking, other reference energies and sequences are not '
     'exercised.',
     [B + 'tm_elements.py', P + 'push/transfer_matrix.py',
      M + 'beam_optics/transfer_matrices.py'],
     [('element tracking', B + 'tm_elements.py: TMElement.track')],
     state=[('theta_ref, x_ref, prop_distance', 'pose of the bunch on the orbit', P + 'particle_bunch.py')],
     observe=['phase space after each element', 'returned bunch list'])

prop('C12', 'All views, conversions and copies of a bunch agree',
     'The coordinates, phase-space matrices, charge, species, name, tags and '
     'positions reported by a bunch are those given to it, after any '
     'sequence of changes through its public interface; copies are '
     'independent of the original; conversions between the momentum-based '
     'and the reference-energy-based coordinates, and rotations, are exact '
     'inverses of each other and keep charge and energy.',
     ['inputs', 'histories'],
     'all sequences of bunch operations up to a depth from several bunches; '
     'lattice of energies, spreads, angles and sizes of conversions',
     'Tests read bunches only after complete simulations; they never mix '
     'operations or compare the views.',
     [P + 'particle_bunch.py', 'wake_t/utilities/other.py',
      M + 'beam_optics/'],
     [('bunch', P + 'particle_bunch.py: ParticleBunch')],
     state=[('coordinates and weights', 'content of the bunch', P + 'particle_bunch.py')],
     observe=['get_* results', 'copy()', 'attributes'])

prop('C13', 'Saving, reading and analysing a bunch preserve its content',
     'A bunch saved in a supported format and read back has the same '
     'particles, species, charge, name and position, in any number of '
     'save/read generations and for files written during tracking; choosing '
     'a species, a name or to keep or discard the position does what it '
     'says. The reported beam parameters are the weighted statistics of the '
     'particles.',
     ['inputs', 'histories'],
     'all bunches, formats, reading options and chains of save and read in '
     'the lattice',
     'Tests save and read a single electron bunch once and compare a few '
     'values with stored references.',
     ['wake_t/utilities/bunch_saving.py', 'wake_t/utilities/bunch_generation.py',
      'wake_t/diagnostics/', 'wake_t/diagnostics/bunch_analysis.py'],
     [('saving', 'wake_t/utilities/bunch_saving.py'),
      ('reading', 'wake_t/utilities/bunch_generation.py: get_from_file'),
      ('analysis', 'wake_t/diagnostics/bunch_analysis.py')],
     observe=['files', 'bunch read back', 'dictionary of beam parameters'])

prop('C14', 'CSR acts as the radiation field of the bunch on its own orbit',
     'With CSR enabled each particle receives, besides the element map, '
     'exactly the energy change caused by the one-dimensional radiation '
     'field of the bunch on the orbit travelled since the last reset '
     '(including the straight path before it), for any species, energy, '
     'bend, bunch shape, step setting and number of outputs; bunches lose '
     'energy in bends regardless of the sign of their charge. The result '
     'does not depend on simulations made before a reset or an element '
     'without CSR, nor on splitting or repeating elements.',
     ['inputs', 'histories'],
     'all sequences of elements, resets and setting changes up to a depth; '
     'lattice of energies, geometries, bunch lengths, species and outputs',
     'No test enables CSR; the calculator is global state, so that only '
     'histories expose stale orbits.',
     [M + 'collective_effects/csr.py', B + 'tm_elements.py'],
     [('CSR calculator', M + 'collective_effects/csr.py: CSRCalculator')],
     state=[('_ref_traj, _lattice_elements', 'orbit since the last reset',
             M + 'collective_effects/csr.py')],
     observe=['energy of the particles after each element',
              'returned bunch list'])

prop('C15', 'The laser envelope obeys the envelope equation at all times',
     'Each evolution advances the laser pulse by exactly the configured time '
     'with the envelope equation for the given plasma susceptibility, density '
     'and wavelength: it diffracts, gains phase and slips as in the exact '
     'solutions and keeps its energy in vacuum. This holds for any order of '
     'configuring, initialising and evolving, substeps, own grid of the '
     'laser and change of time step or plasma grid between stages; the '
     'envelope is never re-initialised, and incompatible changes are refused '
     'leaving the pulse as it was.',
     ['inputs', 'histories'],
     'all sequences of operations on a pulse up to a depth, in four grid '
     'modes; lattice of solver parameters and susceptibilities',
     'Tests evolve one Gaussian pulse in vacuum with one configuration from '
     'the start; changes between stages and susceptibility are not tested.',
     [M + 'laser/laser_pulse.py', M + 'laser/envelope_solver.py',
      M + 'laser/envelope_solver_non_centered.py', M + 'laser/tdma.py',
      M + 'laser/utils.py', 'wake_t/fields/interpolation.py'],
     [('pulse', M + 'laser/laser_pulse.py: LaserPulse'),
      ('solver', M + 'laser/envelope_solver.py: evolve_envelope')],
     state=[('_a_env, _a_env_old, n_steps, solver_params',
             'envelope and configuration', M + 'laser/laser_pulse.py')],
     observe=['get_envelope()', 'exceptions'])

prop('C16', 'Laser pulses have the profile that their parameters say',
     'A Gaussian, Laguerre-Gauss or flattened Gaussian pulse has the given '
     'peak strength at the focus, waist, duration, focal position, '
     'wavelength, phase and central position; at any distance its complex '
     'envelope is the paraxial propagation of that profile; Laguerre-Gauss '
     'modes are orthogonal with equal energy. A sum of pulses has the sum '
     'of their envelopes and their common wavelength and polarization, and '
     'incompatible pulses are refused.',
     ['inputs'],
     'lattice of all parameters and distances, all sums up to a depth',
     'Only Gaussian pulses with one set of parameters are tested.',
     [M + 'laser/laser_pulse.py'],
     [('profiles', M + 'laser/laser_pulse.py: GaussianPulse, '
       'LaguerreGaussPulse, FlattenedGaussianPulse, SummedPulse')],
     observe=['envelope_function()', 'l_0', 'polarization'])

prop('C17', 'Plasma elements realise the density, focusing and step asked for',
     'A plasma stage, ramp or lens applies the wakefield model it is given, '
     'by name or as an object, for exactly the density profile asked for at '
     'every position along it: uniform or user-defined, or an inverse-square, '
     'exponential or Gaussian up- or down-ramp that has the top density at '
     'its top and reaches the down density at the position given (by default '
     'its length), or has the decay length given. The automatic time step '
     'is a tenth of the shortest betatron time (1/omega) of the bunch in the '
     'strongest focusing of the element, for any species and energy; unknown '
     'models and profiles are refused.',
     ['inputs', 'configurations'],
     'all profiles, directions, lengths and decay specifications; all models '
     'and ways of giving them; species and energies',
     'Tests use one ramp of each direction with one specification and '
     'compare a final number.',
     [B + 'plasma_stage.py', B + 'plasma_ramp.py',
      B + 'active_plasma_lens.py', B + 'field_quadrupole.py'],
     [('profiles', B + 'plasma_ramp.py: ramp_profiles, '
       'PlasmaRamp.ramp_profile'),
      ('model', B + 'plasma_stage.py: PlasmaStage._get_wakefield'),
      ('step', B + 'plasma_stage.py: PlasmaStage._get_optimized_dt')],
     observe=['fields gathered from the element', 'tracked bunches',
              'times at which fields are requested'])

prop('C18', 'The quasistatic wakefield solves the plasma response equations',
     'The fields and densities of the 2D quasistatic model on its grid are '
     'those of the plasma particles of the given density, temperature-free '
     'and initially at rest, pushed through the given laser and bunches by '
     'the quasistatic equations of motion in the fields they produce; they '
     'depend only on the current laser, bunches and density, for any grid, '
     'number of plasma particles per cell, pusher, shape, parabolic '
     'coefficient and radius of the plasma, and vanish where nothing has '
     'driven the plasma.',
     ['inputs', 'configurations', 'histories'],
     'lattice of drivers, grids, particles per cell, pushers, shapes, '
     'channels and plasma radii; sequences of solutions in one process',
     'Tests compare a few integrated values of one or two simulations with '
     'stored numbers, which a compensating error passes.',
     [M + 'plasma_wakefields/qs_rz_baxevanis/solver.py', M + 'plasma_wakefields/qs_rz_baxevanis/wakefield.py',
      M + 'plasma_wakefields/qs_rz_baxevanis/psi_and_derivatives.py',
      M + 'plasma_wakefields/qs_rz_baxevanis/b_theta.py',
      M + 'plasma_wakefields/qs_rz_baxevanis/plasma_particles.py',
      M + 'plasma_wakefields/qs_rz_baxevanis/plasma_push/rk4.py',
      M + 'plasma_wakefields/qs_rz_baxevanis/plasma_push/ab5.py',
      M + 'plasma_wakefields/qs_rz_baxevanis/deposition.py'],
     [('solver', M + 'plasma_wakefields/qs_rz_baxevanis/solver.py: calculate_wakefields'),
      ('model', M + 'plasma_wakefields/qs_rz_baxevanis/wakefield.py: '
       'Quasistatic2DWakefield')],
     state=[('e_r, e_z, b_t, rho, chi', 'fields on the grid',
             'wake_t/fields/rz_wakefield.py')],
     observe=['field arrays of the model', 'gathered fields'])

prop('C19', 'The fluid wakefield solves the 1D nonlinear plasma equation',
     'The fields of the cold-fluid model are, at every radius, those of the '
     'one-dimensional nonlinear quasistatic potential equation driven by the '
     'local laser intensity and beam charge, with the documented transverse '
     'fields, for any grid, density, driver and number of bunches; they '
     'depend only on the current laser, bunches and density.',
     ['inputs', 'configurations', 'histories'],
     'lattice of drivers, densities and grids, sequences of updates',
     'One test with one driver compares one number.',
     [M + 'plasma_wakefields/qs_cold_fluid_1x3p.py'],
     [('model', M + 'plasma_wakefields/qs_cold_fluid_1x3p.py: '
       'NonLinearColdFluidWakefield')],
     state=[('e_r, e_z, b_t, rho, chi', 'fields on the grid',
             'wake_t/fields/rz_wakefield.py')],
     observe=['field arrays of the model', 'gathered fields'])

prop('C20', 'Results do not depend on threads, particle order or memory',
     'The result of a simulation is determined by its inputs: it is the same '
     'for every number of threads and every distribution and order of '
     'execution of the iterations of the parallel loops, which never touch '
     'the same data; reordering the particles of a bunch only reorders the '
     'result; and the previous content of memory never enters. The requested '
     'number of threads is used during tracking only.',
     ['schedules', 'inputs'],
     'all execution orders of the iterations of every parallel loop, all '
     'orders of the particles, memory contents, thread counts',
     'Tests run with one thread and one order; a race or an uninitialised '
     'value shows only under particular schedules.',
     ['wake_t/utilities/numba.py', 'wake_t/tracking/tracker.py',
      'wake_t/particles/push/boris_pusher.py',
      'wake_t/particles/push/runge_kutta_4.py',
      'wake_t/particles/interpolation.py', 'wake_t/particles/deposition.py',
      'wake_t/fields/analytical_field.py'],
     [('decorators', 'wake_t/utilities/numba.py: njit_parallel'),
      ('pushers', 'wake_t/particles/push/boris_pusher.py: '
       'apply_boris_pusher')],
     observe=['tracked bunches', 'shared accesses of the iterations',
              'number of threads'])

prop('C21', 'Errors and crashes lose only what was not done yet',
     'An error or interrupt raised anywhere during tracking (by a field, a '
     'density profile, a step law or an output) reaches the caller unchanged, '
     'with the number of threads of the caller restored; the same element '
     'can be used again afterwards and behaves as a new one. Every output '
     'finished before an error, or before a crash of the process at any '
     'point, is on disk, complete and readable, and is never modified, '
     'renumbered or overwritten by later tracking with the same diagnostics.',
     ['crash_points', 'fault_sequences', 'histories'],
     'an error, interrupt or crash at every callback and before, during and '
     'after every write; all pairs of failing attempts',
     'No test makes a simulation fail.',
     ['wake_t/tracking/tracker.py', 'wake_t/diagnostics/openpmd_diag.py',
      'wake_t/fields/numerical_field.py', B + 'field_element.py',
      B + 'tm_elements.py', B + 'beamline.py'],
     [('tracker', 'wake_t/tracking/tracker.py: Tracker.do_tracking'),
      ('output', 'wake_t/diagnostics/openpmd_diag.py: '
       'OpenPMDDiagnostics.write_diagnostics')],
     state=[('_index_out, _current_z_pos', 'numbering of the outputs',
             'wake_t/diagnostics/openpmd_diag.py')],
     observe=['exceptions', 'files', 'number of threads',
              'later tracking results'])

prop('C22', 'Generated bunches have the parameters asked for',
     'A generated bunch has the given number of particles, species, name and '
     'total charge (in equal weights), and each of its particles is the image '
     'of independent normal deviates (cut at three sigma in xi) under the '
     'given emittances, Twiss parameters or sizes, mean momentum, relative '
     'spread, duration, centroid, offsets and pointing angles, in either '
     'plane. A matched bunch of any species has the Twiss parameters that '
     'stay constant in the given focusing gradient, or in the blowout of the '
     'given density; seeding numpy makes bunches reproducible.',
     ['inputs'],
     'lattice of all parameters of the three generators, species and seeds',
     'Tests use the generators with one or two parameter sets, mostly '
     'symmetric in x and y.',
     ['wake_t/utilities/bunch_generation.py'],
     [('generators', 'wake_t/utilities/bunch_generation.py: '
       'get_gaussian_bunch_from_twiss, get_gaussian_bunch_from_size, '
       'get_matched_bunch')],
     observe=['coordinates, weights, species and name of the bunch'])

NOT_APPLICABLE = []
