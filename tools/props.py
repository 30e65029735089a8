#!/usr/bin/env python3
"""The list of properties: writes properties.jsonl and MANIFEST.json from one place."""
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, statement, over, text, why, files, mechanism, technique, note):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                      why_tests_cant=why, anchors=dict(files=files, mechanism=mechanism),
                      technique=technique, note=note))


E2E = 'The stable tests never run the simulation: the official build leaves out the parts that need Pythia.'
ASSUME = ' Strings are fragmented by a stand-in for Pythia.'

P('R01', 'Every interaction conserves energy, momentum, charge and flavour',
  'In every scattering, resonance formation, decay, string excitation and multi-particle reaction the total '
  'four-momentum, electric charge and baryon number of the outgoing particles equal those of the incoming ones, and '
  'strangeness, charm and bottomness do too except in weak decays. The same holds between the initial and the final '
  'particles of every event without external fields, expansion or extraction of particles.',
  ['inputs', 'histories', 'configurations'], 'all collision systems, modi, process types and random seeds',
  E2E + ' Decays are tested for a few species only.',
  ['src/action.cc', 'src/decayaction.cc', 'src/scatteraction.cc', 'src/scatteractionmulti.cc', 'src/crosssections.cc',
   'src/stringprocess.cc', 'src/decaymodes.cc', 'src/experiment.cc'],
  ['sampling of final-state masses and momenta', 'channel construction from the particle and decay tables'],
  'online trace checker over the collision log of randomised runs; runtime monitor of every decay mode',
  'Runs of 28 families of configurations (all modi, collision criteria, strings, potentials, ensembles, multi-particle '
  'reactions); each interaction record is checked; all modes of the full decay table are also exercised directly.' + ASSUME)

P('R02', 'Particles are created and consumed exactly once',
  'Every particle that takes part in an interaction exists at that moment and is consumed by it exactly once; every '
  'product is new, with an identifier not used before in the event, except that elastic scatterings and wall '
  'crossings keep the identity of their particles. The final particle list is exactly the initial particles and '
  'products that were never consumed.',
  ['histories', 'configurations'], 'all sequences of interactions, including invalidated and blocked ones',
  E2E, ['src/experiment.cc', 'src/include/smash/experiment.h', 'src/action.cc', 'src/particles.cc', 'src/include/smash/actions.h',
        'src/include/smash/action.h', 'src/wallcrossingaction.cc'],
  ['validity check of scheduled interactions', 'replacement and update of particles', 'id assignment'],
  'online trace checker (exactly-once) over the collision log of randomised runs',
  'The collision log is replayed against a map from identifiers to particles.' + ASSUME)

P('R03', 'The particle container keeps exactly the particles it was given',
  'After any sequence of insertions, creations, removals, replacements, updates and resets the particle container '
  'holds exactly the particles that were put in and not taken out, each with an identifier that stays valid and '
  'unique, with size, emptiness and iteration in agreement. Looking up, iterating or testing the validity of a copy '
  'never touches memory outside of the container and recognises stale copies.',
  ['histories'], 'all sequences of container operations, including holes, growth and reuse of slots',
  'The tests walk through one fixed sequence.',
  ['src/particles.cc', 'src/include/smash/particles.h', 'src/include/smash/particledata.h'],
  ['array with holes and reuse of freed slots'],
  'model-based runtime monitor of the container under AddressSanitizer and UBSan',
  'Random operation sequences are compared with a map after every operation.')

P('R04', 'Free flight on straight lines, interactions in order of time',
  'Without potentials, expansion or frozen Fermi motion a particle moves on a straight line with constant momentum '
  'and velocity p/E between two interactions. All particles of an interaction are at the same time, interactions '
  'happen in order of time, none after the end time, and the final particles are all at the end time.',
  ['histories', 'configurations'], 'all time-step modes, step sizes, modi and sequences of interactions',
  E2E, ['src/propagation.cc', 'src/include/smash/experiment.h', 'src/include/smash/actions.h', 'src/include/smash/clock.h'],
  ['propagation to the next interaction or time step', 'ordering of the queue of interactions'],
  'online trace checker over the collision log of randomised runs; runtime monitor of the propagation functions',
  'Straight-line motion is checked for every pair of successive records of a particle; the propagation functions are '
  'also exercised directly.' + ASSUME)

P('R05', 'Every particle is of a known species and on its mass shell',
  'Every particle that is read, sampled, produced or written has finite position and momentum, positive energy, '
  'E^2 - p^2 equal to its mass squared, and a species of the particle list. Stable particles have their pole mass and '
  'resonances are never lighter than their lightest decay products.',
  ['inputs', 'histories', 'configurations'], 'all modi, process types and random seeds',
  E2E, ['src/action.cc', 'src/decayaction.cc', 'src/particletype.cc', 'src/scatteraction.cc', 'src/nucleus.cc', 'src/boxmodus.cc',
        'src/spheremodus.cc', 'src/particledata.cc'],
  ['sampling of resonance masses', 'two- and many-body phase space', 'initialisation of the modi'],
  'online trace checker over the collision log of randomised runs; runtime monitor of every decay mode',
  'All particles of all records are checked against the particle list.' + ASSUME)

P('R06', 'Collision history and formation times are recorded faithfully',
  'Every product of an interaction records the type and number of that interaction, its time and its parents, '
  'and nothing changes that record until the next interaction of the particle. Products of decays are formed at once, products of '
  'inelastic reactions not before the latest formation time of the incoming particles, and the cross-section scaling '
  'factor stays between 0 and 1 and is 1 once formed.',
  ['histories', 'configurations'], 'all sequences of interactions',
  E2E, ['src/particledata.cc', 'src/action.cc', 'src/decayaction.cc', 'src/scatteraction.cc', 'src/include/smash/particledata.h'],
  ['history assignment after an interaction', 'inheritance of formation times'],
  'online trace checker over the collision log of randomised runs; runtime monitor of decays',
  'Each record is compared with the interaction that produced it.' + ASSUME)

P('R07', 'The periodic box is periodic',
  'In a box calculation particles never leave the box between interactions by more than a step; at a wall crossing '
  'exactly the crossed coordinates change by the box length and momentum, species, identity and history stay.',
  ['histories', 'configurations'], 'all box sizes, step sizes, particle contents and seeds',
  E2E, ['src/boxmodus.cc', 'src/wallcrossingaction.cc', 'src/include/smash/algorithms.h', 'src/grid.cc'],
  ['wall crossing finder', 'enforcement of periodic boundaries'],
  'online trace checker over the collision log of randomised box runs',
  'All records of box runs are checked.' + ASSUME)

P('R08', 'The search grid misses no pair of particles',
  'Walking through the cells of the search grid and their neighbours meets every pair of particles that are closer '
  'than the cell length, and each pair at most once; with periodic boundaries distances are taken through the walls '
  'and the shift handed out with the neighbours brings the pair together. No cell is smaller than the interaction '
  'length asked for, and every particle that may interact is in exactly one cell.',
  ['inputs'], 'all numbers and positions of particles, box sizes, cell lengths and boundary options',
  'The tests use a few hand-made arrangements.',
  ['src/grid.cc', 'src/include/smash/grid.h'],
  ['cell layout from the extent of the particles', 'neighbour iteration with and without wrapping'],
  'runtime monitor comparing the grid with all pairs, under AddressSanitizer and UBSan',
  'Random arrangements, including walls, cell boundaries, thin and large grids.')

P('R10', 'Equal configuration and seed give equal events, and events do not affect others',
  'A run is reproducible: the same configuration, seed and particle list give the same events, byte by byte, whether '
  'tabulations are read from the cache or computed, and whatever other outputs and log levels are chosen. Events of a run '
  'have different seeds, which are logged, the first being the given one, and an event other than of the list modus is '
  'obtained again by a run of its own with the logged seed: '
  'nothing but the maxima of the rejection sampling that prove too small is carried over from one event to the next.',
  ['inputs', 'histories'], 'all configurations, seeds and numbers of events',
  'No test runs two events, or the same event twice.',
  ['src/include/smash/experiment.h', 'src/include/smash/collidermodus.h', 'src/collidermodus.cc', 'src/random.cc',
   'src/include/smash/action.h', 'src/decaytype.cc', 'src/particletype.cc', 'src/isoparticletype.cc', 'src/nucleus.cc',
   'src/boxmodus.cc', 'src/spheremodus.cc', 'src/potentials.cc', 'src/density.cc', 'src/grid.cc', 'src/propagation.cc'],
  ['state kept between events', 'seeds of events', 'lazy tabulations'],
  'runtime monitor: complete runs are repeated with the same seed, with other outputs, without caches and event by event, and their event records compared',
  'Random configurations of all modi, two or three events each.')

P('R11', 'Outputs say exactly what they were given, in the documented formats',
  'Oscar1999, Oscar2013, ASCII and binary files of particles, collisions, dileptons, photons and initial conditions '
  'consist of the documented headers and blocks and contain every particle and interaction handed over once, '
  'in order, with the requested quantities: exact in binary, to the printed digits in text. Events, ensembles, impact '
  'parameters and empty events are labelled correctly, and options (only final, extended, start and end) do what they '
  'say. VTK files and lattice and thermodynamic outputs contain the values at the right points. '
  'Files have their final names once finished, and only then. In a complete run all of them agree with each other: every '
  'output time occurs once, interactions change the particles alive from one block to the next, and '
  'each format shows the same particles and interactions.',
  ['inputs', 'histories'], 'all particles, events, interactions, quantities and options',
  'The tests compare a few fixed particles.',
  ['src/oscaroutput.cc', 'src/binaryoutput.cc', 'src/include/smash/outputformatter.h', 'src/outputformatter.cc',
   'src/vtkoutput.cc', 'src/thermodynamicoutput.cc', 'src/thermodynamiclatticeoutput.cc', 'src/file.cc'],
  ['text and binary formatters', 'renaming of unfinished files', 'event and block lines'],
  'runtime monitor: the files are read back by independent readers and compared with what was handed over, under AddressSanitizer and UBSan, and those of complete runs with each other',
  'Random particles (including extreme numbers), events and options.')

P('R12', 'List modi take exactly the particles of their files, in order',
  'The particles of every event of a list, in one file or in numbered ones, with or without comment lines, are taken over in '
  'order with position, momentum, species and the optional quantities in the given columns. Particles at different '
  'times are moved on straight lines to the earliest one, which is the start of the event, and form at their own time. Stable particles get '
  'their mass from the particle list and off-shell ones the energy for theirs; unknown species are left out. '
  'Wrong optional quantities, short lines, NaN, more than two particles at a place, missing files and another event '
  'after the last are refused. Lists written by SMASH are read back. The walls of the list box wrap positions by its '
  'length.',
  ['inputs', 'histories'], 'all lists of particles and optional quantities',
  'The tests read a few generated events.',
  ['src/listmodus.cc', 'src/include/smash/listmodus.h', 'src/particledata.cc', 'src/propagation.cc', 'src/inputfunctions.cc'],
  ['splitting files into events', 'optional columns', 'back-propagation', 'validation of all events'],
  'runtime monitor: what the modus provides is compared with what was written into random lists, and faulty lists must be refused, under AddressSanitizer and UBSan',
  'Random lists of all layouts the documentation allows.')

P('R13', 'The configuration means what the user wrote; mistakes are refused',
  'Every documented key takes exactly the values of its type, names of options and lists of reactions included, and '
  'refuses others; a missing key gives its default or an error, never a silent other value. Validation finds every '
  'unknown, misplaced, shortened, extended or removed key, however asked. Keys are used once, unused ones are reported '
  'at the end; taking, extracting, enclosing, merging and removing change exactly the part of the configuration they '
  'name; the text of a configuration is read back as the same one. Options for keys override the file, particle and '
  'decay files override tables within it, log levels are those asked for. No file, damaged or with foreign line ends, '
  'crashes the program or is misread.',
  ['inputs', 'configurations'], 'all configurations and sequences of operations',
  'The tests use one small configuration.',
  ['src/configuration.cc', 'src/include/smash/configuration.h', 'src/include/smash/key.h', 'src/include/smash/input_keys.h',
   'src/stringify.cc', 'src/library.cc', 'src/setup_particles_decaymodes.cc', 'src/logging.cc'],
  ['descent into sections', 'removal of empty sections', 'keys taken as maps', 'conversion of enumerations'],
  'runtime monitor against an independent tree, under AddressSanitizer and UBSan',
  'All keys of the list, hundreds of random configurations and operation sequences, thousands of damaged files.')

P('R14', 'Particle codes are read, written and interpreted correctly',
  'Every valid PDG code of a hadron, lepton, boson or nucleus is accepted from text, decimal or hexadecimal numbers and '
  'streams alike, is written back unchanged, and its charge, baryon number, strangeness, charm, bottomness, isospin, '
  'spin, quark content, antiparticle and classification are those its digits say. Codes of mesons and baryons with an '
  'impossible spin, quark digits beyond 6, antiparticles of particles that are their own, and malformed texts are '
  'refused. Equality, order and removal of excitations agree with the code.',
  ['inputs'], 'all combinations of digits and signs, all texts',
  'The tests try about a hundred codes, and do not run in this environment.',
  ['src/pdgcode.cc', 'src/include/smash/pdgcode.h', 'src/include/smash/pdgcode_constants.h'],
  ['bit fields for digits and for nuclei'],
  'runtime monitor against an independent reading of the digits, under AddressSanitizer and UBSan',
  'All quark digits, spins and signs are enumerated; excitations, nuclei and texts are random.')

P('R15', 'Particle and decay tables mean what they say; wrong ones are refused',
  'After loading a particle and a decay table every listed particle and its antiparticle exists once, with a unique '
  'name, the given mass, width, parity and quantum numbers, in the isospin multiplet it belongs to, and is found by '
  'code and by name. Its decay modes are those of the table with branching ratios distributed by isospin and '
  'normalised to one, and antiparticles decay into the antiparticles; all conserve charge and baryon number. The '
  'lists of nucleons, Deltas, resonances and nuclei and of the resonances formed by two particles are complete. '
  'Tables with duplicate, unknown, missing or unphysical entries are refused, and no input crashes the program.',
  ['inputs', 'configurations'], 'all tables, in any order, with comments and white space',
  'The tests load a few small tables.',
  ['src/particletype.cc', 'src/isoparticletype.cc', 'src/decaymodes.cc', 'src/inputfunctions.cc', 'input/particles.txt',
   'input/decaymodes.txt', 'input/box/decaymodes.txt'],
  ['multiplets are identified by name', 'expansion of decays of multiplets', 'checks of parity, isospin and angular momentum'],
  'runtime monitor against an independent reading of the tables, under AddressSanitizer and UBSan',
  'All tables of the repository and hundreds of random ones, valid, with one mistake, or damaged.')

P('R16', 'Widths, spectral functions and sampled masses follow their definition',
  'Partial widths equal their value at the pole times the mass dependence given by phase space and angular momentum '
  '(Manley-Saleski, averaged over the masses of unstable daughters), vanish below threshold, are the same for '
  'antiparticles and add up to the total width; formation in-widths are consistent with them. Spectral functions are '
  'the relativistic Breit-Wigner form, normalised to one, and vanish below their lowest mass. Masses of one or two '
  'resonances are sampled within the kinematic limits and distributed as spectral function times phase space.',
  ['inputs'], 'all species of the particle table, masses and decay modes',
  'The tests use a few resonances and do not look at distributions.',
  ['src/decaytype.cc', 'src/particletype.cc', 'src/include/smash/decaytype.h', 'src/include/smash/formfactors.h',
   'src/include/smash/hadgas_eos.h', 'src/include/smash/kinematics.h'],
  ['tabulated integrals over daughter masses', 'rejection sampling with adaptive maxima', 'cached norms'],
  'runtime monitor against independent integrals and distribution distances',
  'Every resonance of the table over the runs (a part of them in quick), random masses.')

P('R17', 'Parametrized cross sections are what they are fitted to',
  'The parametrized total, elastic and inelastic cross sections have the values of the published parametrizations '
  '(Cugnon, CERN-HERA, Regge fits, hyperon and string parametrizations) piece by piece and follow the smoothed data '
  'where data are interpolated; reactions related by isospin have the related values, K N -> K Delta in the ratios of '
  'the Clebsch-Gordan coefficients; total cross sections are never negative, and at high energy elastic does not '
  'exceed total; photon cross sections of pion-pion and pion-rho reactions are the integrals of their differential '
  'cross sections over the allowed momentum transfers, limited to 200 mb.',
  ['inputs'], 'all energies, all parametrized pairs and all rho masses',
  'The tests compare single energies of few functions.',
  ['src/parametrizations.cc', 'src/include/smash/parametrizations_data.h', 'src/include/smash/parametrizations.h',
   'src/crosssectionsphoton.cc', 'src/include/smash/crosssectionsphoton.h'],
  ['pieces of the fits and their boundaries', 'interpolated data and their ends', 'analytic integrals'],
  'runtime monitor of every parametrization against its definition and of integrals against integrands, under AddressSanitizer and UBSan',
  'Energies near the ends of the pieces preferred.')

P('R18', 'Random numbers follow the distributions they are named after',
  'For every parameter in its domain a random distribution returns values inside its range that follow the named law: '
  'uniform, exponential, power, Cauchy, beta, Poisson, binomial, normal, discrete, isotropic angles, pairs of Poisson '
  'numbers with a fixed difference (exactly that difference, never negative, right mean and spread), thermal momenta '
  'for every ratio of mass and temperature and the off-equilibrium momentum distributions. The Breit-Wigner, Cauchy '
  'and Juttner functions equal their formulas. The same seed repeats the same numbers, another one does not.',
  ['inputs'], 'all parameters and seeds',
  'The tests use one parameter set each and histograms with wide errors.',
  ['src/include/smash/random.h', 'src/random.cc', 'src/distributions.cc', 'src/include/smash/angles.h'],
  ['inverse transforms and rejection', 'Gaussian approximation of the Bessel distribution'],
  'runtime monitor: distance between hundreds of thousands of samples and the definition',
  'Random parameters across and around every branch; 5 standard deviations, so that no run fails by chance.')

P('R19', 'Numerical helpers compute what they claim',
  'Linear, trilinear and spline interpolation pass through their points and follow their definition between and '
  'outside of them, whatever the order of the points; tabulated functions return the tabulated values, interpolate '
  'linearly, extrapolate as asked and survive being saved and loaded; the root finder returns a root exactly when the '
  'function changes sign; one- and two-dimensional integrals are within the promised tolerance; averages, merging '
  'of duplicates and LOWESS smoothing follow their definition; numeric casts keep the value or throw.',
  ['inputs'], 'all data sets, arguments and functions',
  'The tests use one data set each.',
  ['src/include/smash/interpolation.h', 'src/interpolation.cc', 'src/tabulation.cc', 'src/include/smash/tabulation.h',
   'src/include/smash/rootsolver.h', 'src/include/smash/integrate.h', 'src/include/smash/average.h',
   'src/include/smash/lowess.h', 'src/include/smash/numeric_cast.h'],
  ['sorting of points', 'search of the interval', 'index arithmetic at the ends'],
  'runtime monitor against independent definitions, under AddressSanitizer and UBSan',
  'Random data sets and arguments, with the ends and nodes preferred.')

P('R20', 'Boosts, rotations, angles and collision kinematics are exact',
  'Lorentz boosts are the textbook transformation: they keep scalar products, are undone by the opposite velocity and '
  'bring a particle to rest with its own; rotations keep lengths, products and handedness, and turn the z axis where '
  'asked; polar angles stay on the sphere when they pass a pole. Momenta, velocities, energies and Mandelstam '
  'variables of two-body collisions agree with each other for every choice of masses, with a target at rest or with '
  'two beams given by total energy, kinetic energy or momentum.',
  ['inputs'], 'all vectors, velocities below 1, masses and energies above the threshold',
  'The tests use a few values, mostly of equal masses, and no case with two beams.',
  ['src/fourvector.cc', 'src/include/smash/fourvector.h', 'src/include/smash/threevector.h', 'src/include/smash/angles.h',
   'src/include/smash/kinematics.h', 'src/include/smash/numerics.h'],
  ['closed formulas'],
  'runtime monitor against long double formulas and invariants, under AddressSanitizer and UBSan',
  'Random arguments over many orders of magnitude.')

P('R21', 'The lattice addresses, covers and differentiates its cells correctly',
  'On a regular lattice, periodic or not, one-dimensional and three-dimensional indices, cell centres and the cell of '
  'a point agree with each other; the value at a point is that of its cell, and points outside of a lattice that is '
  'not periodic are recognised as such. Iterating over a sphere, a cube, a rectangular region or the nearest '
  'neighbours visits exactly the cells that belong to it, each once. Gradients and four-gradients are exact for '
  'linear fields away from the edges and use one-sided differences at them. Rebuilding a lattice '
  'with another origin, size or number of cells leaves one that behaves like a new one, and none of these '
  'operations touches memory outside of the lattice.',
  ['inputs'], 'all sizes, numbers of cells, origins, periodicities and points',
  'The tests use one lattice each.',
  ['src/include/smash/lattice.h', 'src/fields.cc', 'src/density.cc'],
  ['index arithmetic and wrapping', 'clipping of regions at the edges'],
  'runtime monitor against direct definitions, under AddressSanitizer and UBSan',
  'Random lattices and points, with points on faces, in corners and outside preferred.')

P('R22', 'Densities, currents and the energy-momentum tensor are the sums they stand for',
  'Every species counts in every kind of density with its quantum number. The smearing kernel is the covariant Gaussian, '
  'cut and normalised so that every particle counts once; densities, currents and all their derivatives at a point '
  'are the sums over particles. On a lattice every smearing mode gives each cell the documented share, all shares of a '
  'particle inside add up to its charge, and derivatives are those of the current in space and time. The '
  'energy-momentum tensor is the sum of p p / E, boosts as a tensor, and has no momentum density in its Landau frame.',
  ['inputs', 'configurations'], 'all particles, points, lattices, smearing and derivative modes',
  'The tests use a few particles and one or two lattices.',
  ['src/density.cc', 'src/include/smash/density.h', 'src/energymomentumtensor.cc', 'src/include/smash/energymomentumtensor.h',
   'src/include/smash/lattice.h'],
  ['iteration over cells near a particle', 'weights of the smearing modes', 'separate positive and negative currents'],
  'runtime monitor against direct sums over particles and periodic images, under AddressSanitizer and UBSan',
  'Thousands of random cases of every mode.')

P('R24', 'Pauli blocking blocks with the phase-space density of the final state',
  'The density is the sum, over all particles of the same species in all ensembles that are not excluded and lie within '
  'the averaging radius in momentum, of the share of the truncated and normalised Gaussian of the particle that lies in '
  'the averaging sphere, divided by the number of states in that phase-space cell, test particles and ensembles; '
  'particles out of reach do not count, and the result does not depend on where the origin is. A final state is blocked '
  'with the probability that follows from the densities of its baryons, the incoming particles excluded; wall '
  'crossings and final states without baryons are never blocked.',
  ['inputs', 'configurations'], 'all radii, widths, distances, particle lists, ensembles and actions',
  'The test looks at one particle at one distance, and expects the value of swapped interpolation weights.',
  ['src/pauliblocking.cc', 'src/include/smash/pauliblocking.h', 'src/action.cc'],
  ['tabulated weights, interpolated', 'analytical integrals of three cases', 'random decision per baryon'],
  'runtime monitor against numeric integration of the definition, and of the frequency of blocking, under AddressSanitizer and UBSan',
  'Known finding: the weights of the interpolation are swapped.')

P('R23', 'Mean-field forces are minus the gradient of the potentials',
  'Skyrme, symmetry, vector-density-functional and momentum-dependent potentials have their documented values at every '
  'density. They change sign with the baryon current, and the scale for each species follows from its baryon number and '
  'strangeness. The forces are the derivatives of the potentials for the given density gradients, also on the '
  'lattice and for the electromagnetic-like fields. In each step the momentum of a particle changes by force times time '
  'with its mass kept, particles not subject to forces keep their momentum, and positions move by velocity times time. '
  'The energy with a momentum-dependent potential solves its equation in every frame.',
  ['inputs', 'configurations'], 'all parameters, densities, currents, species and particle lists',
  'The tests use single parameter sets and a few particles with positive density.',
  ['src/potentials.cc', 'src/include/smash/potentials.h', 'src/fields.cc', 'src/propagation.cc'],
  ['analytical derivatives beside the potentials', 'sign conventions for antimatter', 'iterative root finding'],
  'runtime monitor against formulas and numeric derivatives, under AddressSanitizer and UBSan',
  'Known finding: the symmetry potential with gamma is NaN at net baryon density at or below zero.')

P('R25', 'Equilibrium is that of an ideal hadron gas, and thermalization conserves',
  'Densities, energy density and pressure are sums over hadrons of Boltzmann integrals, with the spectral functions of '
  'resonances where widths are asked for; solving for temperature and chemical potentials inverts them. Thermal masses, '
  'quantum corrections to sampled densities and tabulated values follow the same distributions. Each lattice cell of the '
  'thermalizer holds the sums of its particles, taken to its rest frame. '
  'Forced thermalization replaces particles only where the energy density is above the critical one, keeps '
  'baryon number, strangeness and charge exactly and energy and momentum to rounding, and samples species, cells and '
  'velocities in proportion.',
  ['inputs', 'histories'], 'all temperatures, chemical potentials, cells and particle lists',
  'The tests compare a few thermodynamic points.',
  ['src/hadgas_eos.cc', 'src/grandcan_thermalizer.cc', 'src/include/smash/grandcan_thermalizer.h',
   'src/chemicalpotential.cc', 'src/quantumsampling.cc', 'src/distributions.cc'],
  ['multi-dimensional root finding', 'iteration for the rest frame', 'correction of sampled quantum numbers'],
  'runtime monitor against numeric momentum integrals, inverse solutions, exact conservation and sampled distributions, under '
  'AddressSanitizer and UBSan', 'A table of one point makes the thermalizer solve its equations of state.')

P('R26', 'Initial nuclei and the collision energy are what was asked for',
  'Default radii, diffusiveness and saturation densities follow the mass number; nucleons follow the Woods-Saxon '
  'distribution, deformed and rotated if asked, alpha clusters form tetrahedra, and nuclei from files have the given '
  'positions. Mass and charge numbers are exact; centring, '
  'shifting, boosting and Fermi motion keep their rules: momenta below the local Fermi momentum, no total momentum. Energy '
  'given in any of the possible ways gives beams with exactly that collision energy in each calculation frame, and energies that make no '
  'collision are refused. The impact parameter and the reaction plane follow the requested distribution.',
  ['inputs', 'configurations'], 'all mass numbers, shapes, energies, frames and impact parameters',
  'The tests look at a few nuclei and energies.',
  ['src/nucleus.cc', 'src/deformednucleus.cc', 'src/alphaclusterednucleus.cc', 'src/customnucleus.cc',
   'src/collidermodus.cc', 'src/include/smash/kinematics.h'],
  ['rejection sampling', 'random rotation', 'different formulas per way to give the energy'],
  'runtime monitor against kinematics, formulas and distribution tests with fixed error probability, under AddressSanitizer and UBSan',
  'Distributions are tested with thresholds that the unchanged code exceeds less than once in a million runs.')

P('R27', 'Particles enter the fluid exactly when the initial-condition criterion says so',
  'With constant proper time each particle is removed once, in the step in which it crosses the hyperbola, at the exact '
  'crossing time, if it passes the cuts in rapidity and transverse momentum. With the dynamic criterion it joins the fluid '
  'within the time window if the energy density around it, of hadrons and background, exceeds the threshold plus its own '
  'contribution, the process that made it is among the selected ones and the chosen fraction of its formation time is '
  'over; at the end the particles in the fluid are taken out. The default proper time is the passing time of the nuclei, the parameters are those '
  'configured, and the output contains the removed particles with their properties.',
  ['inputs', 'histories'], 'all particles, steps, densities, cuts and configurations',
  'The tests follow a few particles through single steps.',
  ['src/hypersurfacecrossingfinder.cc', 'src/dynamicfluidfinder.cc', 'src/fluidizationaction.cc', 'src/collidermodus.cc',
   'src/icoutput.cc'],
  ['one crossing per particle', 'background lattice', 'parameters from defaults and configuration'],
  'runtime monitor against the exact crossing of the hyperbola and the documented conditions, under AddressSanitizer and UBSan',
  'Random particles, steps, fluids and histories.')

P('R28', 'No input makes a run corrupt memory or die without a word',
  'Complete runs of the released program are free of memory errors, leaks and undefined behaviour, whatever the modus and '
  'the options. An input that is damaged (values of any kind, sign or size in the configuration; damaged particle lists, '
  'decay modes, event lists, nuclei) is either refused with a message or run, and then all particles it writes are finite; '
  'at worst the program stops in its own trap for floating-point errors.',
  ['inputs', 'configurations'], 'all configurations and input files, valid or not',
  'The tests run without sanitizers, build no complete events and use hand-picked valid inputs.',
  ['src/smash.cc', 'src/include/smash/experiment.h', 'src/particles.cc', 'src/boxmodus.cc', 'src/spheremodus.cc',
   'src/collidermodus.cc', 'src/listmodus.cc', 'src/nucleus.cc', 'src/customnucleus.cc', 'src/configuration.cc',
   'src/include/smash/clock.h', 'src/grid.cc', 'src/decaymodes.cc', 'src/particletype.cc'],
  ['memory safety', 'input validation'], 'address, leak and undefined-behaviour sanitizers over complete runs with valid and damaged inputs',
  'Damaged inputs that need more memory or time than is allowed are counted but not judged.')

P('R30', 'Clocks tick at exactly the requested times',
  'A uniform clock ticks at the start time plus multiples of its interval, without drift however many ticks, and ends '
  'exactly at the end time; a clock with a list of times ticks at each of them once, in order. Resetting '
  'a clock, for the next event or for output from a negative start time, or removing the times that have passed leaves '
  'exactly the remaining times. Changing the step or jumping ahead keeps what has passed; turning back, steps that are'
  'not positive, an end that is not after the start and overflow are refused.',
  ['inputs', 'histories'], 'all start times, intervals, end times, lists of times and resets',
  'The tests use a few clocks with round numbers.',
  ['src/include/smash/clock.h'], ['integer resolution of time', 'overflow checks'],
  'runtime monitor against exact integer times, under AddressSanitizer and UBSan',
  'Random clocks, resets and lists of times, including negative and tiny ones.')

P('R31', 'Isospin coupling is exact',
  'Clebsch-Gordan coefficients are exact for all isospins, whether calculated or looked up. The isospin factors of '
  'two- and three-particle states and of two-to-two reactions follow from them, are the same forwards and backwards, '
  'add up to one over the states of multiplets, and are zero for forbidden couplings; the range of '
  'total isospins contains exactly the possible ones.',
  ['inputs'], 'all isospins up to 4 and all hadrons',
  'The tests check a few dozen coefficients.',
  ['src/clebschgordan.cc', 'src/clebschgordan_lookup.cc', 'src/include/smash/clebschgordan.h',
   'src/include/smash/clebschgordan_lookup.h'],
  ['table of precomputed coefficients', 'sums over total isospin'],
  'runtime monitor against Racah\'s formula and sum rules, under AddressSanitizer and UBSan',
  'All coefficients; random combinations of hadrons.')

P('R32', 'Decays come at the rate of the widths; dileptons are radiated perturbatively',
  'In a time step an unstable particle decays at most once, after its formation, with the exponential law of its '
  'hadronic width, dilated by its velocity and the lifetime factor, and into its modes in proportion to the partial '
  'widths; stable particles, and initial ones when so configured, do not. At the end exactly the particles that are '
  'asked for decay. Dileptons leave the particles untouched: every open dilepton mode of a particle that is not core '
  'is written exactly once per step, to the dilepton output only, conserving four-momentum and charge, with the weight '
  'of the time step times the width (or the branching ratio at the end) and the mass spectrum of the Dalitz decay.',
  ['inputs', 'histories'], 'all species, masses, momenta, formation states, steps and options',
  'The tests look at the number of dileptons of one particle and at single decays.',
  ['src/decayactionsfinder.cc', 'src/include/smash/decayactionsfinder.h', 'src/decayactionsfinderdilepton.cc',
   'src/decayactiondilepton.cc', 'src/include/smash/decayactiondilepton.h', 'src/decaytype.cc',
   'src/include/smash/formfactors.h'],
  ['time dilation, formation and lifetime factor', 'which particles decay at the end', 'shining weights', 'Dalitz sampling'],
  'runtime monitor of the finders: statistical tests and independent formulas, under AddressSanitizer and UBSan',
  'Five-sigma tests of number, time and mode; weights to 1e-5.')

P('R33', 'The cache of tabulations never changes integrals; its lock excludes others',
  'The tabulated integrals over spectral functions that cross sections are made of are the integrals they stand for, and the '
  'same whether computed or read from the cache, whatever state that is in: absent, complete, incomplete, cut '
  'short at any byte by a killed process or a full disk, written for other particle lists, decay modes or versions, '
  'locked, or used by several processes at once. Afterwards the cache is complete, unless locked. At most '
  'one process holds a file lock at a time, only the holder removes it, and a stored tabulation is read back exactly or not at all.',
  ['crash points', 'schedules', 'histories'], 'all lists, states of the cache, kill times and interleavings of processes',
  'The tests write and read one tabulation, and take one lock.',
  ['src/isoparticletype.cc', 'src/tabulation.cc', 'src/filelock.cc', 'src/library.cc', 'src/include/smash/tabulation.h',
   'src/include/smash/integrate.h'],
  ['hash of lists and version', 'tabulations.lock', 'reading and writing of tabulations'],
  'runtime monitor: processes that find the cache in random states, are killed or compete report the integrals they see; they are compared with those computed afresh and with an independent integration, and the lock is observed through shared memory',
  'Random particle lists, truncations, kill times and competing processes.')

P('R35', 'What is switched off does not happen, what is on does',
  'No interaction of a kind that the configuration excludes ever takes place: two-to-two categories and their reverse '
  'reactions, formation and decay of resonances, strings, annihilation, multi-particle reactions, elastic scattering of '
  'nucleons below the cut-off, decays of initial particles, first collisions within a nucleus, all collisions. Elastic '
  'scattering has the cross section that was asked for, with scaling and addition. Resonances (and, when asked for, '
  'weakly decaying particles) are gone at the end exactly if final decays are enforced, and as many events are made as '
  'requested. Categories that are on do occur.',
  ['inputs', 'configurations', 'histories'], 'all combinations of the switches and all events',
  'The tests do not run events; combinations of switches are not tested.',
  ['src/crosssections.cc', 'src/scatteractionsfinder.cc', 'src/scatteraction.cc', 'src/decayactionsfinder.cc',
   'src/include/smash/decayactionsfinder.h', 'src/include/smash/experiment.h', 'src/experiment.cc'],
  ['reaction switches', 'initial and final decays', 'elastic cross sections'],
  'runtime monitor over the logged interactions of complete runs with random switches',
  'Every interaction of the runs is classified from its particles, not from the code that made it.')

P('R36', 'Reactions go both ways: matter in equilibrium stays there',
  'Detailed balance: when formation and decay of resonances and all two-to-two channels are on, the mean numbers and the '
  'mean energies of all species in a periodic box initialised in chemical and thermal equilibrium do not drift, with the '
  'covariant and with the stochastic collision criterion. In a gas with given numbers of particles, each reaction of three, '
  'four or five particles to fewer (deuterons, A=3 nuclei, mesons decaying to three, annihilation to five pions; also for '
  'antimatter) takes place as often as the law of mass action demands, given how often its inverse takes place.',
  ['inputs', 'histories'], 'all species, temperatures, densities and reactions with an inverse',
  'Unit tests check single cross sections and probabilities; detailed balance is a relation between all rates, visible '
  'only in the evolution of many particles.',
  ['src/crosssections.cc', 'src/scatteractionmulti.cc', 'src/scatteractionsfinder.cc', 'src/scatteraction.cc',
   'src/decayactionsfinder.cc', 'src/particletype.cc', 'src/boxmodus.cc', 'src/hadgas_eos.cc'],
  ['detailed balance', 'resonance formation and decay', 'multi-particle reactions'],
  'statistical monitor over complete runs: numbers and energies of species over time, and counts of reactions in both directions',
  'Tolerances of 6 to 22 per cent plus 4.5 to 5 standard errors: the method itself is approximate (time steps, cells).')

P('R34', 'Hashes and text layout are correct for every text',
  'The hash that identifies the particle and decay tables is SHA-256 for input of every length and however it is '
  'split into parts. Filling a text to a width counts characters, not bytes, and leaves a text that is wide enough '
  'as it is; splitting, joining, trimming and removing parts of texts lose and add nothing else.',
  ['inputs'], 'all byte strings and UTF-8 texts',
  'The tests use a handful of short texts.',
  ['src/sha256.cc', 'src/stringfunctions.cc', 'src/include/smash/stringfunctions.h'],
  ['block buffering', 'width of multi-byte characters'],
  'runtime monitor against an independent implementation, under AddressSanitizer and UBSan',
  'Random texts with combining characters and superscripts, random bytes of all lengths up to 3000.')

NOT_APPLICABLE = []


def main():
    with open(f'{VERIF}/properties.jsonl', 'w') as f:
        for p in PROPS:
            f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
    na = {x['property'] for x in NOT_APPLICABLE}
    man = dict(version=1, setup_cmd='python3 tools/setup.py', checks=[
        dict(property=p['id'], quick_cmd=f'python3 checks/{p["id"]}.py',
             thorough_cmd=f'VERIF_TIER=thorough python3 checks/{p["id"]}.py',
             evidence_file=f'evidence/{p["id"]}.json', technique=p['technique'], level='exploration',
             level_note=p['note']) for p in PROPS if p['id'] not in na], not_applicable=NOT_APPLICABLE)
    with open(f'{VERIF}/MANIFEST.json', 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
