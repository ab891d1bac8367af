"""Hand-written part of the per-property sections of DESIGN.md (tools/gen.py
adds the bounds, assumptions, planted bugs and fixes)."""
SECTIONS = {
'C01': """An exact (rational arithmetic) explicit-state model of the tracking
event queue (`mc/tracker_model.py`) generates, for every configuration of the
bound, the full trace of pushes and outputs. The trace is replayed against the
real `FieldElement.track`: recording fields observe each request for fields
(bunch, time, position), from which every push of the real tracker is
reconstructed and compared with the model push by push. Invariants on every
trace: contiguous, no step longer than asked for, sum equals the length, the
same trajectory whatever the other bunches do. Tests see one final number of
a few divisible configurations; here every interleaving of bunch steps,
refreshes and outputs in the bound occurs, including steps longer than the
element, adaptive laws, ties and rests of 1e-6 of a step.""",
'C02': """Same model with refresh events. Each refresh of the real field is
recorded with the time and the positions of all bunches it saw, each push with
the version of each field it used; both sequences must equal the model's. The
built-in wakefield models are observed through the density (and channel)
profile they query, so that the check needs no hook in them. Updating a field
by hand follows the same schedule.""",
'C03': """All element kinds x output counts x step laws are tracked; the
number, position and complete content of the outputs is compared with a bunch
tracked to the same point without outputs, the memory of all outputs is
compared pairwise for sharing, and every attribute is compared.""",
'C04': """All operation sequences up to the depth over a pool of reused
elements, fields and bunches run on the real code. The oracle is differential
and history-free: a zygote process in which nothing has been tracked
(`mc/zygote.py`) forks a pristine child that rebuilds the element and the
bunch and performs only the last operation. In every step either the bunch or
a copy of it is tracked, and the other one, all earlier outputs and the other
bunch must stay as they were.""",
'C05': """Sequences of elements with all ways of requesting output write real
HDF5 files in a scratch directory, which are read back with plain h5py and
compared, dataset by dataset and attribute by attribute (units, geometry, time,
offsets), with a model of indices, positions and contents.""",
'C06': """All lists of fields up to a length over every built-in field and
all component subsets of a user-defined field in which every component depends
differently on x, y, z and t; gathered arrays (pre-filled with garbage) and
tracked bunches are compared with the sum of closed-form references. One job
repeats it with the compiled kernels.""",
'C07': """Basis functions: every node of small grids set to one at a time,
every position relative to cells, edges, axis and outside (exact rational
lattice), all azimuths; by linearity this decides the interpolation for all
grid contents. Same for grid-to-grid and grid-to-plasma transfer.""",
'C08': """One particle at a time at every lattice position (cells, edges,
axis, outside) for both shapes, against an independent shape function, and all
subsets/orders of small sets against the sum of the single ones; linearity
decides all bunches within the lattice of positions.""",
'C09': """All sign patterns of the six field components x momenta x species x
steps: one push of both pushers compared with a high-accuracy integration of
the Lorentz force, with the order of convergence, energy conservation in
magnetic fields, exact drift, and the injection position; sequences of
operations (push, resize, replace, reset, copy) on one bunch.""",
'C10': """First and second order maps against the flow of the magnet
Hamiltonian obtained without closed forms (Carleman linearisation +
matrix exponential, `mc/optics_ref.py`) on the lattice of lengths, angles,
gradients and energies that contains every removable singularity of the
closed forms (k=0, h=0, k1=-h^2, -h^2/4, -h^2/5, ...) and its neighbourhood.
All 6x6 and 6x6x6 coefficients are compared through the action on a basis of
particles.""",
'C11': """All sequences of elements (both bending directions, drifts,
quadrupoles, sextupoles, also backwards) up to a depth with all output counts
and reference energies; the reference pose is composed exactly and the phase
space is compared with the reference maps in the rotated frame.""",
'C12': """Explicit-state exploration: all sequences of bunch operations are
executed on the real bunch and on a dictionary model; every view is compared
after every operation. Lattice of conversions, each with its inverse.""",
'C13': """All bunches x formats x options, chains of save/read generations,
and files written while tracking; statistics recomputed from the weights.""",
'C14': """The CSR calculator is global state: all sequences of elements,
resets, CSR-off elements and setting changes are executed. The model state is
the orbit since the last reset; in every reached state the energy kick along
the bunch is compared with a direct integration of the retarded field over
that orbit (`mc/csr_ref.py`: no histogram, no kernel table, exact orbit
including the infinite straight path before it). The displacement downstream
decides where along the element the kicks were given.""",
'C15': """Explicit-state exploration of configuring, initialising and
evolving a pulse against a reference state machine with a dense-matrix solver
(`mc/laser_ref.py`); solver lattice; diffraction, phase advance, slippage and
energy against exact solutions.""",
'C16': """Lattice of all pulse parameters and distances: independent
closed-form profile at the focus, and at other distances the paraxial equation
(finite-difference residual and Hankel/mode propagation); orthogonality and
energy; all sums up to a depth.""",
'C17': """All specifications of ramps, stages and lenses; density seen by the
fields they apply at a lattice of positions, tracked bunches, and the
automatic step observed from the requests for fields. Defaults are compared
with the explicit values.""",
'C18': """Independent reference implementation of the quasistatic response
(`mc/qs_ref.py`: dense matrix solves instead of the coefficient recursions)
on a lattice of drivers, grids, particles per cell, pushers, shapes, channels
and radii; linear-theory wake, causality, axis symmetry; sequences of
solutions in one process.""",
'C19': """Independent integration of the potential equation per radius
(`mc/fluid_ref.py`), lattice of drivers, densities and grids; sequences of
updates; linear limit.""",
'C20': """Controlled scheduler (`mc/par.py`): the parallel kernels of the
working tree are rebuilt so that every `prange` loop is executed in every
order of its iterations, with all accesses of each iteration to shared arrays
recorded; a write of one iteration to an element accessed by another is a
race. A loop without conflicts has one equivalence class of interleavings
(DPOR argument), so all thread schedules are covered by the orders and the
race freedom. Orders of particles, content of memory (fresh arrays poisoned,
work arrays used before), thread counts with the compiled kernels.""",
'C21': """Fault injection at every callback, every write and between any two
of them: exceptions, KeyboardInterrupt, process death (`os._exit` in a forked
child) and all pairs of failing attempts; files are read back with h5py and
compared with those of an undisturbed run.""",
'C22': """The random numbers are pinned by the seed and recovered from a base
bunch; every particle of every other bunch of the parameter lattice must be
the exact image of its deviates under the documented transformation. Moments
and independence of the deviates; matched bunches tracked in the focusing they
are matched to.""",
}
TAIL = """
## Findings

Genuine defects were repaired in `/repo` (one `fix:` commit each) and are
listed in `known_findings.json`; the checks report them again if they return.
One is recorded and not repaired (C07): `gather_sources_qs_baxevanis` leaves
the sources of plasma particles beyond the last radial node at their previous
values. Setting them to zero is the obvious repair, but it changes the stored
reference numbers of the existing tests (particles leaving the box feel the
last driver), so it is not "small and safe" here.

Observations outside of the domain of the properties (not findings):

* zero-length transfer-map elements divide by zero; zero emittance in the
  bunch generators gives NaN; zero charge or a single particle with CSR raises
  (no line density); deposition grids need at least 3 cells;
* `Beamline.track` with a list of bunches extends the list of outputs instead
  of returning one list per bunch;
* rounding in `adjust_dt` may add one refresh if the period divides the
  element exactly (excluded from C02's lattice);
* `density`/`parabolic_coefficient` given as an integer are refused; the
  docstrings name 'blowout' and 'inverse square', which are refused;
* the cold-fluid model with `beam_wakefields=False` still adds the beam current
  to the transverse fields;
* 'custom_blowout' by name in `ActivePlasmaLens` is impossible (two
  `foc_strength` parameters); subclasses of `OpenPMDDiagnostics` are not
  recognised; the APtools ASTRA reader mishandles other species;
* CSR is not meaningful when backtracking, and after an exception the
  calculator keeps its orbit until the next reset;
* `OpenPMDPulse` needs lasy, which is not installed: not covered.

## False alarms removed while building

* C14 compared the outermost particles, where the kernel density estimate is
  cut by the histogram: excluded (stated as an assumption).
* C02/C05 traces in which two events coincide in exact arithmetic up to
  rounding are excluded (`near_tie`), because their order is not specified.
* C19's `a0_2` of the last step is gathered just outside the grid by rounding:
  the comparison tolerates either value.

## Robustness against behaviour-preserving edits

`tools/refactor.py` rewrites a scratch copy (locals and private names renamed,
`for` to `while`, branches inverted, expressions through temporaries, products
reassociated, function bodies moved to helpers, comments dropped) and
`tools/refcheck.sh` runs all checks on it; all have to be quiet. Tolerances are
therefore at least 1e-12 relative wherever a value is compared with a
reference; exact comparison is used only between two runs of the same code.

## Mutation analysis

`tools/mutate.py` changes one operator, constant, comparison, argument,
keyword, branch or statement at a time in a scratch copy and runs the checks of
that file. Survivors were read one by one; gaps were closed in the checks, the
rest are equivalent (symmetric arguments, unreachable defaults), cosmetic
(progress bar) or inside the stated tolerance.
"""
