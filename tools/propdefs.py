# ruff: noqa
prop(
    "C01", "Particle list: live set, unique ids and validity of copies",
    "After any sequence of insertions, creations, removals, replacements, "
    "in-place updates and resets, the particle list contains exactly the "
    "particles that were added and not removed, each with the data last "
    "written to it; its size, emptiness, forward/backward iteration, first/last "
    "element and vector copy all agree with that. Every added particle gets an "
    "id never used before since the last reset. A copy of a particle is "
    "reported valid exactly if the particle is still in the list and has not "
    "been changed by a later process, and a valid copy looks up its own "
    "particle.",
    ["histories"],
    "all operation sequences (insert, create 1/2/5, remove first/middle/last, "
    "replace 2->1, 1->2, 2->2, 2->3, update in place, reset) up to a depth from "
    "list sizes including the reallocation boundaries",
    "the unit tests exercise a handful of fixed sequences on a nearly empty "
    "list (and are not even built without Pythia); holes, reuse of slots and "
    "reallocation interact only in longer histories",
    ["src/particles.cc", "src/include/smash/particles.h",
     "src/include/smash/particledata.h"],
    [("slot reuse via the list of holes", "src/particles.cc insert/create/remove"),
     ("validity test by id and process id",
      "src/include/smash/particles.h is_valid"),
     ("reallocation", "src/particles.cc increase_capacity")],
    check=dict(
        harness="c01_particles",
        technique="exhaustive bounded enumeration of operation sequences on the "
        "real container against a reference list",
        bounds="all sequences of 13 operations up to length 6 (4 for large "
        "lists) from 21 initial fillings (0..410 particles, with and without "
        "holes)",
        bounds_thorough="as quick with length 7 (5 for large lists)",
        note="Exhaustive within the depth; operations act on first/middle/last "
        "particles by creation order. Copies taken before a reset are not "
        "judged."))

prop(
    "C05", "Clock: time steps tile the run and output times are hit exactly once",
    "For times given with at most six decimals, the simulation clock never runs backwards: its time steps follow each "
    "other without gap or overlap, each has the configured length except the "
    "last one, which ends exactly at the end time, and attempts to turn it back "
    "or overflow it are rejected. Periodic output happens exactly at the "
    "multiples of the output interval strictly between start and end time "
    "(negative and non-zero start times included) plus the end time, and "
    "independently of what an earlier event did to the clock. Custom output "
    "times are visited in ascending order, once each, skipping those not later "
    "than the start.",
    ["histories", "inputs"],
    "all operation sequences up to a depth over grids of start time, time step, "
    "length, output interval and custom time lists",
    "the clock tests look at a few fixed instants; the rounding of start times "
    "and the truncation at the end only go wrong for particular combinations "
    "of start, step, end and history",
    ["src/include/smash/clock.h", "src/include/smash/experiment.h"],
    [("integer time representation", "src/include/smash/clock.h convert"),
     ("truncation at the end time",
      "src/include/smash/clock.h timestep_duration/next_time"),
     ("reset of lab and output clock", "src/include/smash/clock.h reset")],
    check=dict(
        harness="c05_clock",
        technique="exhaustive bounded enumeration of clock operation sequences "
        "against an exact integer model",
        bounds="11 starts x 7 lengths x 9 steps; all sequences of 10 operations "
        "up to length 4; full runs with 8 output intervals; all custom lists of "
        "up to 4 out of 6 times x 7 starts",
        bounds_thorough="as quick with operation sequences up to length 6",
        note="Exhaustive over the stated grids. Steps below the clock's "
        "resolution of 1e-6 fm are outside the property."))

prop(
    "C02", "Pending interactions are handed out in time order, each exactly once",
    "The queue of pending interactions always hands out a pending interaction "
    "with the earliest execution time, no matter in which order and grouping "
    "interactions were inserted (equal times included). Every inserted "
    "interaction is handed out exactly once unless the queue is cleared; size, "
    "emptiness, the announced earliest time and iteration always agree with what "
    "is pending. Taking from an empty queue is reported as an error.",
    ["histories"],
    "all sequences of single insertions, list insertions, removals and clears "
    "up to a depth, from every small initial list",
    "the tests insert a few actions in one order; heap invariants depend on the "
    "interleaving of insertions and removals",
    ["src/include/smash/actions.h", "src/include/smash/action.h"],
    [("binary heap ordered by execution time", "src/include/smash/actions.h"),
     ("heap construction from a list", "src/include/smash/actions.h Actions()")],
    check=dict(
        harness="c02_actions",
        technique="exhaustive bounded enumeration of queue operation sequences "
        "against a reference multiset",
        bounds="all sequences of 10 operations up to length 6 from the empty "
        "queue, up to length 1-3 from all initial lists of up to 4-5 actions "
        "with 6 times; each followed by draining",
        bounds_thorough="length 7 from empty; initial lists of up to 6 actions",
        note="Exhaustive within the stated bounds; execution times from a set "
        "of six values with ties."))

prop(
    "C03", "Neighbour search presents every close pair exactly once",
    "For every set of particle positions the cell grid used to search "
    "interaction partners contains every particle that takes part in exactly "
    "one cell and presents every pair closer than the search length exactly "
    "once, for any grid shape, cell-size strategy and cell-number limit. With "
    "periodic boundaries the same holds for every periodic image of a pair that "
    "is close, and a presented particle is displaced by exactly whole box "
    "lengths (at most one per axis). The cells fill the grid volume.",
    ["inputs", "configurations"],
    "all grid shapes up to 4x4x4 (6x6x6) cells with particles in and on the "
    "edges of all cells, and all placements of three particles on a mesh of "
    "positions, periodic and not, both strategies and both limits",
    "the grid tests (not built here) use one or two fixed particle sets; missing "
    "or doubled neighbours show up only for particular shapes and edge cells",
    ["src/grid.cc", "src/include/smash/grid.h"],
    [("cell size and index factors", "src/grid.cc Grid::Grid"),
     ("half-shell neighbour iteration", "src/grid.cc iterate_cells"),
     ("virtual indices and displacement for wrapped cells",
      "src/grid.cc iterate_cells<PeriodicBoundaries>")],
    check=dict(
        harness="c03_grid",
        technique="exhaustive enumeration of grid shapes and particle "
        "placements, all presented pairs compared with brute-force pairs",
        bounds="shapes {1..4}^3 x 2 fractional lengths x 3 cell lengths x 2 "
        "origins x limits x strategies; all multisets of 3 of 54 sites x 3 modes",
        bounds_thorough="shapes {1..6}^3; 5 modes",
        note="Exhaustive within bounds; 'close' means each coordinate distance "
        "is below the search length, the guarantee the finder relies on."))

prop(
    "C04", "Free motion and periodic walls",
    "Between interactions every particle moves on the straight line given by "
    "its momentum, with its momentum, identity and history unchanged, no matter "
    "into how many steps the motion is divided; initial nucleons with frozen "
    "Fermi motion follow the beam momentum until their first collision. "
    "Back-propagation and metric expansion change positions and momenta as "
    "their defining equations state. In a periodic box a particle re-enters "
    "opposite to the wall it leaves through, exactly when it reaches it, and "
    "stays inside the box, so that its final position equals free motion "
    "modulo the box length.",
    ["inputs", "histories"],
    "all combinations of positions (walls and corners included), velocities, "
    "durations, step divisions and frozen-Fermi settings on full grids",
    "a corner hit, a start on a wall or a second crossing in the same step "
    "needs a particular combination of position, velocity and time",
    ["src/propagation.cc", "src/wallcrossingaction.cc", "src/boxmodus.cc",
     "src/include/smash/algorithms.h", "src/action.cc"],
    [("straight-line propagation", "src/propagation.cc"),
     ("wall crossing finder", "src/wallcrossingaction.cc"),
     ("performing a wall action", "src/action.cc perform"),
     ("boundary conditions of the box", "src/boxmodus.cc")],
    check=dict(
        harness="c04_motion",
        technique="exhaustive enumeration of start states and step sequences, "
        "each followed by executing every wall action until the end time",
        bounds="4 particle kinds x 27 momenta x 4x3 steps x 5 times x 5 beam "
        "lists x 2; walls: 3 box lengths x 24 positions x 343 velocities x 3 "
        "durations x 2 start times",
        bounds_thorough="as quick with 1331 velocities",
        note="Exhaustive over the grids; tolerance 1e-9 relative."))

prop(
    "C06", "Decays conserve four-momentum and charges and give on-shell products",
    "Every decay channel of the shipped tables that is open at the mass of the "
    "decaying particle can be executed, for every mass, momentum and sequence "
    "of random numbers, and conserves four-momentum, electric charge and baryon "
    "number, and for strong decays also strangeness, charm and bottomness. The "
    "products are exactly those of the channel, stable ones at their pole mass "
    "and unstable ones above their threshold, created at the place and time of "
    "the decay, fully formed there and with the decay recorded in their "
    "history; the mother is removed and no other particle is touched. Only "
    "kinematically open channels are offered and the partial widths offered "
    "add up to the total width.",
    ["inputs", "schedules"],
    "all shipped decaying particles and channels x masses from threshold to far "
    "above the pole x mother momenta x answers of the random engine including "
    "its smallest and largest outputs",
    "the decay tests (not built here) run a few random decays; threshold masses "
    "and extreme random answers are never drawn",
    ["src/decayaction.cc", "src/action.cc", "src/decaytype.cc",
     "src/decaymodes.cc", "src/particletype.cc", "src/particledata.cc"],
    [("two- and many-body phase space", "src/action.cc sample_*_phasespace"),
     ("daughter mass sampling", "src/particletype.cc sample_resonance_mass(es)"),
     ("partial widths", "src/particletype.cc get_partial_widths"),
     ("history of products", "src/particledata.cc set_history")],
    check=dict(
        harness="c06_decay",
        technique="exhaustive enumeration of channels, masses, momenta and "
        "random-engine answers, each executed by the real action",
        bounds="all decaying species and channels x up to 6 masses x 3 momenta "
        "x 27 answer triples (0, middle, largest) followed by fixed answers",
        bounds_thorough="125 answer triples",
        note="Exhaustive over the grid; answers beyond the third come from a "
        "fixed well-spread sequence because the samplers reject. Tolerance 1e-6 "
        "relative to the energy."))

prop(
    "C41", "Decay times and forced final decays",
    "Within a step exactly those unstable particles decay whose sampled proper "
    "lifetime, an exponential variate with the total hadronic width at their "
    "current mass, dilated by their Lorentz factor, multiplied by the configured "
    "lifetime factor and, for unformed particles, shifted by the remaining "
    "formation time, ends within the step; stable particles never do, nor do "
    "particles before their first interaction if that is disabled. Forced final "
    "decays act on every particle with an open decay channel (strongly stable ones only "
    "if requested), are not done at all when switched off, always come to an end "
    "and conserve four-momentum, charge and baryon number over the whole "
    "cascade.",
    ["inputs", "histories"],
    "all shipped species x masses x momenta x step lengths x lifetime factors x "
    "formation states x random answers; all final cascades of all decaying "
    "species for several answer sequences",
    "a wrong time dilation, formation shift or stability test changes only "
    "rates, which the fixed-seed tests do not see",
    ["src/decayactionsfinder.cc", "src/include/smash/decayactionsfinder.h",
     "src/decayaction.cc"],
    [("decay time sampling", "src/decayactionsfinder.cc find_actions_in_cell"),
     ("final decays", "src/decayactionsfinder.cc find_final_actions")],
    check=dict(
        harness="c41_decayfinder",
        technique="exhaustive enumeration of particles, steps and random-engine "
        "answers against the analytic decay time; exhaustive execution of all "
        "decay cascades",
        bounds="all species x 3 masses x 3 momenta x 4 steps x 4 factors x 3 "
        "formation states x 7 answers; cascades: 3 masses x 2x2 options x 4 "
        "first answers x 2 continuations",
        bounds_thorough="12 continuations per cascade",
        note="Exhaustive over the grid; the exponential variate is the one "
        "SMASH's generator returns for the same answers."))

prop(
    "C07", "Scatterings conserve four-momentum and charges; channels add up",
    "For every pair of hadrons or light nuclei and every energy, each two-body "
    "reaction channel offered conserves electric charge, baryon number, "
    "strangeness, charm and bottomness, is kinematically open and has a finite, "
    "non-negative cross section; the channels add up to the total cross section "
    "used for finding the collision and to the one reported in the output, also "
    "when the total is parametrized. The list of channels and their cross "
    "sections do not depend on the order of the two particles or on the frame, "
    "and are the same for the charge-conjugate pair (except for pairs of a "
    "strange and an antistrange meson, for which the shipped table lists only "
    "one of two conjugate channels). Carrying out any channel conserves "
    "four-momentum whatever the random numbers are, yields exactly the products "
    "of the channel on their mass shells, created at the interaction point and "
    "recorded in their histories, removes the incoming particles and touches "
    "no other; elastic scattering changes nothing but the momenta. Without "
    "strings.",
    ["inputs", "schedules"],
    "all pairs of selected species x energies from threshold to several GeV "
    "above x collision settings; every channel of every pair is executed with "
    "enumerated answers of the random engine in two frames",
    "the scattering tests are not built here and look at a handful of pairs; "
    "which channels exist depends on the pair, the energy and the settings, "
    "and most combinations are never executed by a test",
    ["src/crosssections.cc", "src/scatteraction.cc", "src/action.cc",
     "src/parametrizations.cc", "src/include/smash/processbranch.h"],
    [("list of channels", "src/crosssections.cc generate_collision_list"),
     ("rescaling to the parametrized total",
      "src/scatteraction.cc rescale_outgoing_branches"),
     ("final states", "src/scatteraction.cc generate_final_state"),
     ("detailed balance partners", "src/crosssections.cc bar_bar_to_nuc_nuc")],
    check=dict(
        harness="c07_scatter", pythia=True, limit=600,
        technique="exhaustive enumeration of pairs, energies, settings, channels "
        "and random-engine answers, each executed by the real action",
        bounds="all pairs of 44 species x 3-7 energies x 6 settings (bottom-up, "
        "resonant NNbar, stochastic multi-particle, top-down, top-down where "
        "measured, scaled without AQM); every channel above 1e-6 mb x 2 frames x "
        "5 answer scripts",
        bounds_thorough="all species of the shipped table against the 44 selected "
        "ones and every fifth other pair, 7 energies",
        note="Exhaustive over the grid. String excitation needs Pythia and is "
        "switched off. Products of a 2->1 reaction carry the invariant mass; "
        "tolerance 1e-6 relative to the energy."))

prop(
    "C42", "Collisions are found exactly when the collision criterion is met",
    "With the geometric and the covariant criterion, two particles are found "
    "to collide in a time step exactly if their time of closest approach lies "
    "in it and their transverse distance in the centre-of-mass frame is below "
    "sqrt(sigma/pi), with sigma the total cross section divided by the number "
    "of test particles and scaled for unformed particles, unless both come "
    "from the same last interaction or are untouched nucleons of the same "
    "nucleus (when that is disabled) or an elastic nucleon pair below the "
    "energy cut; the collision is scheduled at that time. (Pairs at relative "
    "rest, where distance is a convention, are excepted.) Untouched nucleons "
    "with frozen Fermi motion are treated with their beam momentum. With the "
    "stochastic criterion the decision is the comparison of one random number "
    "with sigma*v_rel*dt/V within a cell. The result does not depend on the "
    "order of the particles nor on how they are distributed over the searches "
    "within a cell, between neighbours and with surrounding particles.",
    ["inputs", "schedules"],
    "pairs over a grid of momenta, displacements, cross sections, test-particle "
    "numbers, formation states, histories, nuclei; all partitions of 4 (5) "
    "particles; all answers of a grid for the stochastic criterion",
    "the finder tests are not built here and look at single constellations; "
    "the combination of criteria, histories and partitions is too large to "
    "list by hand",
    ["src/scatteractionsfinder.cc", "src/include/smash/scatteractionsfinder.h",
     "src/scatteraction.cc", "src/particledata.cc"],
    [("time of closest approach",
      "src/include/smash/scatteractionsfinder.h collision_time"),
     ("distance", "src/scatteraction.cc transverse_distance_sqr, "
      "cov_transverse_distance_sqr"),
     ("decision", "src/scatteractionsfinder.cc check_collision_two_part")],
    check=dict(
        harness="c42_finder", pythia=True,
        technique="exhaustive enumeration of pair constellations, partitions and "
        "random-engine answers on the real finder against an independent "
        "closest-approach computation",
        bounds="2 criteria x 2 cross sections x 2 test-particle numbers x 49 "
        "momentum pairs x 27 displacements x 3 species pairs x formation, history "
        "and nucleus states x 2 time steps x 2 orders x 2 entry points; all 14 "
        "partitions of 6^4 configurations of 4 particles; stochastic: 9 answers",
        bounds_thorough="partitions of 6^5 configurations of 5 particles",
        note="Exhaustive over the grid; constant elastic cross section (the "
        "general cross sections are C07). Cases within 1e-7 of a boundary are "
        "not judged."))

prop(
    "C17", "A lock file is held by at most one process and never left behind",
    "Of all processes that try to acquire the file lock on the same path, at "
    "most one holds it at any time, whatever the interleaving of their system "
    "calls; an attempt succeeds exactly if no lock file exists at the moment "
    "of the attempt; acquiring an already held lock object is refused with an "
    "exception; destroying a lock object removes the lock file exactly if this "
    "object held it (an unsuccessful competitor never removes the lock of "
    "another); after a release the lock can be taken again. A process that "
    "dies leaves a state in which at most one further holder appears.",
    ["schedules", "crash_points"],
    "two and three processes executing sequences of acquire and release, every "
    "interleaving of their file-system calls up to a preemption bound and a "
    "death in front of every call",
    "the existing test has one process; concurrency and crashes do not occur",
    ["src/filelock.cc", "src/include/smash/filelock.h"],
    [("acquire", "src/filelock.cc FileLock::acquire"),
     ("release", "src/filelock.cc FileLock::~FileLock")],
    check=dict(
        harness="c17_filelock",
        technique="stateless exploration of real processes scheduled at "
        "system-call granularity with ptrace (all interleavings up to a "
        "preemption bound, all crash points)",
        bounds="9 pairs of scripts (acquire/acquire again/release) with at most "
        "4 preemptions, 3 triples with at most 2-3; crash of one process in "
        "front of every call with at most 1-3 preemptions",
        bounds_thorough="8 preemptions for pairs (unbounded for the shortest "
        "scripts with a crash), up to 6 for triples",
        note="The real file system of the sandbox executes the calls; a "
        "process dies by SIGKILL."))

prop(
    "C18", "Cached tabulations never change a result",
    "The resonance integrals used in a run are the same (bit for bit) whether "
    "they are computed or read from the tabulation cache, whatever the cache "
    "directory contains that an earlier run - complete, interrupted at any "
    "point (also in the middle of a write), failed for lack of space or "
    "permissions, or of another version (key) - left there, and whatever "
    "concurrent runs do to the directory at the same time; a run never fails "
    "because of such a cache.",
    ["inputs", "schedules", "crash_points", "histories", "fault_sequences"],
    "every proper prefix of the cache files, every bit of the key, sequences "
    "of runs of two versions, a crash at each system call with partial writes, "
    "an error at each open and write, two concurrent runs with every schedule "
    "up to a preemption bound",
    "the tests write a tabulation once and read it back in the same process",
    ["src/tabulation.cc", "src/isoparticletype.cc", "src/library.cc",
     "src/include/smash/tabulation.h"],
    [("reading", "src/tabulation.cc Tabulation::from_file"),
     ("cache use", "src/isoparticletype.cc cache_integral, "
      "tabulate_integrals"),
     ("lock", "src/filelock.cc")],
    check=dict(
        harness="c18_tabcache",
        technique="crash-point, fault-injection and schedule enumeration of the "
        "real tabulation code in child processes controlled at system-call "
        "granularity",
        bounds="a small particle table; "
        "every truncation of every cache file, each single-bit change of the "
        "key, all sequences of 3 runs over 3 versions (mass or decay mode changed; another program version), a crash at every system "
        "call of a run from 3 cache states with 4 partial lengths of each "
        "write, ENOSPC/EACCES at every open and write, two concurrent runs "
        "with at most 3 preemptions",
        bounds_thorough="sequences of 4 runs over 4 versions, 4 preemptions",
        note="The N R and pi R integrals are compared. Writes of a dying process reach the file in order (a prefix); "
        "reordering of data and metadata by a power failure of the machine is "
        "not modelled."))

prop(
    "C13", "An output file has its final name only if it is complete",
    "The OSCAR, ASCII, binary, vHLLE and thermodynamics outputs are written "
    "under a name ending in .unfinished; the final name appears exactly when "
    "the run has ended normally and everything has been written. If the "
    "process dies at any point (also in the middle of a write), if an "
    "exception ends the simulation, or if opening, writing, closing or "
    "renaming the file fails, no incomplete file has the final name and a "
    "finished file of an earlier run is neither changed nor removed. A file "
    "that cannot be opened makes the run fail with an error.",
    ["crash_points", "fault_sequences", "inputs"],
    "every system call of the writing process as crash point (writes also "
    "partially) or as point of failure, for all formats and contents",
    "the tests never interrupt a write nor let a system call fail",
    ["src/file.cc", "src/include/smash/file.h", "src/oscaroutput.cc",
     "src/binaryoutput.cc", "src/icoutput.cc", "src/thermodynamicoutput.cc"],
    [("renaming", "src/file.cc RenamingFilePtr::~RenamingFilePtr"),
     ("opening", "src/file.cc RenamingFilePtr::RenamingFilePtr")],
    check=dict(
        harness="c13_outputfile",
        technique="crash-point and fault-injection enumeration of the real "
        "output code in a child process controlled at system-call granularity",
        bounds="32 combinations of format, content and extension x 2 sizes "
        "(2 and 60 particles) x normal, exception, earlier file present; 2 "
        "events; death at every system call with 4 partial lengths of each "
        "write; ENOSPC (once or lasting), EIO, EACCES at every call",
        bounds_thorough="400 particles, 3 events",
        note="Data of a completed write call is taken to reach the file; power "
        "failure of the machine is not modelled (SMASH does not fsync)."))

prop(
    "C12", "Particle output files contain exactly what happened",
    "The files of the OSCAR2013 (also extended), OSCAR1999, ASCII, binary and "
    "vHLLE formats for the contents Particles, Collisions, Dileptons, Photons "
    "and Initial_Conditions can be parsed back, according to their "
    "documentation, into exactly the sequence of event starts, output times, "
    "interactions and event ends that took place - as selected by Only_Final, "
    "Print_Start_End, Extended and Quantities - with every particle and every "
    "requested quantity in its place: exactly in the binary formats and for "
    "integers, with 9 digits for momenta and 6 digits for other real "
    "quantities in text. A Quantities list is accepted exactly if it has only "
    "known quantities, no repetition and no synonyms.",
    ["inputs", "histories"],
    "all sequences of output calls of two events up to a depth, for every "
    "format, content and option; every quantity with every kind of value",
    "the output tests need Pythia to build and look at one event each",
    ["src/oscaroutput.cc", "src/binaryoutput.cc", "src/icoutput.cc",
     "src/include/smash/outputformatter.h",
     "src/include/smash/outputparameters.h"],
    [("particle line", "src/include/smash/outputformatter.h OutputFormatter"),
     ("text blocks", "src/oscaroutput.cc OscarOutput"),
     ("binary blocks", "src/binaryoutput.cc BinaryOutputBase")],
    check=dict(
        harness="c12_outputs",
        technique="exhaustive enumeration of bounded output-call histories on "
        "the real output classes, read back by independent parsers",
        bounds="every format x content x option (54 outputs); two events with "
        "up to 2 and 1 calls between start and end, list sizes 0, 1, 3, empty "
        "or not; 23 real values in every real quantity, extreme integers, all "
        "process types, every fifth particle species, up to 3000 particles per "
        "block; all selections of two quantities; all spectator patterns of 6 "
        "particles for vHLLE",
        bounds_thorough="3 and 2 calls, all species, all selections of three",
        note="HepMC, ROOT and Rivet outputs need libraries that are not "
        "installed. Derived quantities (tau, eta_s, mt, rapidity) are compared "
        "with tolerance 1e-6."))

prop(
    "C14", "List modi start from exactly the given particles",
    "With the List and ListBox modi, the n-th event of a run starts with exactly "
    "the particles of the n-th event of the given file (Filename) or series of "
    "files (File_Prefix with consecutive numbers from Shift_Id on), in the "
    "order of the lines, with their species, momenta and positions - "
    "propagated back in straight lines to the earliest time of the event, which "
    "is the start time, if they have different times; particles that appear "
    "later cannot interact before. This holds for files as SMASH writes them, as "
    "the user guide describes them, and for bare lists, with any number of "
    "comment and empty lines. Optional quantities end up in the particles "
    "as named. When the events are used up, when a species is unknown, the "
    "charge does not fit the species, a value is no number or out of range, or a "
    "particle of ListBox is outside of the box of the given Length, the run ends with an error or "
    "the particle is skipped as documented; particles are never invented. What "
    "SMASH wrote can be read back.",
    ["histories", "inputs"],
    "all bounded histories of files, events and particles in every style of "
    "list, all pairs of optional quantities with ordinary and extreme values",
    "the list tests need Pythia to build, and read a handful of fixed files",
    ["src/listmodus.cc", "src/include/smash/listmodus.h"],
    [("splitting into events", "src/listmodus.cc ListModus::next_event_"),
     ("end of file", "src/listmodus.cc ListModus::file_has_events_"),
     ("particles", "src/listmodus.cc ListModus::try_create_particle"),
     ("free backwards propagation",
      "src/listmodus.cc ListModus::backpropagate_to_same_time")],
    check=dict(
        harness="c14_list",
        technique="exhaustive enumeration of bounded file/event/particle "
        "histories, read by the real modus and compared with a model",
        bounds="up to 3 files x 3 events x 0, 1, 2 or 6 particles and 1-40 "
        "particles, 3 styles, 0-3 header lines, with and without last newline, "
        "blank and comment lines, both kinds of file names; all optional "
        "quantities with valid and invalid values and all pairs; walls of the "
        "box; coinciding positions; round trips of written lists",
        bounds_thorough="all three-event files in all styles, 7 particles",
        note="The threshold at which positions are taken to coincide (six "
        "decimals) is not part of the property."))

prop(
    "C15", "Configuration trees behave like maps",
    "Whatever the sequence of set, take, read, has, remove, extract, merge and "
    "clear operations, a Configuration contains exactly the values that were "
    "given to it and not yet removed, the last one given for a key; taking a "
    "value returns it converted to the requested type and removes exactly it "
    "together with sections that got empty; reading does not change anything; a "
    "missing optional key gives its default; a missing mandatory key, a value "
    "of another type or an impossible setting is an error and changes nothing; "
    "extracting a section moves exactly the section; merging lets the second "
    "tree win; and a configuration with values left is reported as such when "
    "it is destroyed. The textual form of a configuration reproduces it.",
    ["histories", "inputs"],
    "all operation sequences up to a depth from several initial trees, and all "
    "states reachable within a greater depth",
    "the configuration tests look at a few sequences on one file",
    ["src/configuration.cc", "src/include/smash/configuration.h"],
    [("taking", "src/include/smash/configuration.h Configuration::take"),
     ("nodes", "src/configuration.cc remove_empty_maps / find_node"),
     ("sections", "src/configuration.cc Configuration::extract_sub_configuration"),
     ("merging", "src/configuration.cc operator|=")],
    check=dict(
        harness="c15_config",
        technique="explicit-state exploration of a reference model with every "
        "transition replayed on the real class",
        bounds="about 90 operations on keys of depth 1-3; all sequences of 2 "
        "from every initial tree, states up to depth 4 (at most 500 expanded "
        "per level)",
        bounds_thorough="all sequences of 3, states up to depth 6 (3000 per "
        "level)",
        note="Changing a configuration after clear() or one made by extracting "
        "a missing section is outside of the property (an existing test "
        "requires it to look empty)."))

prop(
    "C16", "Exactly the documented configuration keys are accepted",
    "Each documented key is accepted at its place, and deprecated keys are "
    "accepted with a warning; removed and unknown keys - a mistyped, misplaced, "
    "shortened or extended label, a section without content - make the "
    "validation fail, independently of what else is in the file. Optional keys "
    "have their documented defaults, mandatory ones are demanded, every "
    "documented value of a key is accepted with its meaning (modes by name, "
    "lists and maps by element), survives being written and read back, and "
    "values not documented or of another type are refused with an error. The "
    "shipped example configurations are valid.",
    ["inputs", "configurations"],
    "every key, all its single-edit mistypings, all pairs of keys, all "
    "documented values of all modes",
    "the tests check a handful of keys and pairs",
    ["src/include/smash/input_keys.h", "src/include/smash/key.h",
     "src/configuration.cc", "src/include/smash/configuration.h",
     "src/include/smash/stringify.h", "src/include/smash/logging.h"],
    [("validation", "src/configuration.cc Configuration::validate"),
     ("key table", "src/include/smash/input_keys.h InputKeys"),
     ("conversion", "src/include/smash/configuration.h Configuration::Value"),
     ("names of modes", "src/include/smash/stringify.h to_string")],
    check=dict(
        harness="c16_keys",
        technique="exhaustive enumeration of keys, mistypings, pairs and "
        "values on the real configuration, against a frozen table of the "
        "documented keys",
        bounds="all keys with 1-letter deletion, doubling, change of case and "
        "extension of each label, missing labels and sections; all ordered "
        "pairs of keys; all enumerator names and all subsets of reactions and "
        "Fluidization processes; shipped input files",
        bounds_thorough="also all triples with a map, deprecated or removed "
        "key",
        note="A key added later is accepted by the check; a documented key that "
        "vanishes or changes its default is reported."))

prop(
    "C08", "Particle codes follow the PDG numbering scheme",
    "A particle code given as text or number is accepted exactly if it is valid "
    "in the PDG numbering scheme (with the extensions for nuclei, hypernuclei "
    "and the names e, mu, tau leptons have as codes), and everything told about "
    "it is what the scheme says: quark content, electric charge, baryon number, "
    "strangeness, charm, bottomness, isospin component, spin, whether it is a "
    "hadron, baryon, meson, lepton, nucleus, nucleon, hyperon, kaon, pion and "
    "so on, whether it has an antiparticle and which; an antiparticle has "
    "opposite charges. Codes written out and read back are the same, codes are "
    "strictly ordered and equal only to themselves, and invalid texts are "
    "refused with an error.",
    ["inputs"],
    "every combination of digits of hadron and lepton codes, every nucleus up "
    "to a mass number, every short text",
    "the tests look at some twenty codes",
    ["src/pdgcode.cc", "src/include/smash/pdgcode.h",
     "src/include/smash/pdgcode_constants.h"],
    [("reading", "src/include/smash/pdgcode.h PdgCode::set_from_string"),
     ("validity", "src/include/smash/pdgcode.h PdgCode::test_code"),
     ("quarks", "src/pdgcode.cc PdgCode::net_quark_number"),
     ("charge", "src/include/smash/pdgcode.h PdgCode::charge")],
    check=dict(
        harness="c08_pdg",
        technique="exhaustive enumeration of all codes against the numbering "
        "scheme written down independently",
        bounds="all codes with quark digits 0-7, spin digit 0-9, excitation "
        "digits out of {0, 1, 9}, both signs, five ways of construction; all "
        "nuclei to A = 250; all texts up to four characters over the relevant "
        "alphabet",
        bounds_thorough="all excitation digits; nuclei to A = 999",
        note="Codes are examined as numbers, whether or not such a particle "
        "exists."))

prop(
    "C11", "Events tell one consistent, conserved and reproducible history",
    "Over a whole event, in every modus, with every choice of time steps, "
    "collision criterion, optional physics and division of the evolution into "
    "parts, everything written out is one consistent history: each interaction's "
    "incoming particles are the ones existing at that point, freely propagated; "
    "the history, applied to the initial list, gives every intermediate and "
    "the final list; outputs come exactly at the requested times; interactions "
    "are in order; energy, momentum, charge, baryon number and strangeness "
    "are conserved by each interaction and overall, the conservation test "
    "never raising an alarm; particles added or removed "
    "from outside are accounted for; and no sequence of random numbers leads to "
    "an abort, an exception or an endless loop. The scatterings found do not "
    "depend on the size of time steps, the use of the grid, or on the evolution "
    "being run in parts, and a run with the same seed gives the same bytes; an "
    "event is reproduced from the seed printed for it.",
    ["histories", "configurations", "inputs"],
    "all combinations of modi and options with small numbers of particles, and "
    "all scripted random answers up to a depth in each of them",
    "the experiment tests need Pythia to build, and only construct experiments",
    ["src/include/smash/experiment.h", "src/experiment.cc", "src/action.cc",
     "src/include/smash/scheduler.h", "src/propagation.cc",
     "src/include/smash/actions.h", "src/particles.cc"],
    [("event", "src/include/smash/experiment.h Experiment::initialize_new_event"),
     ("time steps", "src/include/smash/experiment.h Experiment::run_time_evolution"),
     ("performing actions",
      "src/include/smash/experiment.h Experiment::perform_action"),
     ("output", "src/include/smash/experiment.h Experiment::intermediate_output"),
     ("conserved quantities", "src/include/smash/quantumnumbers.h")],
    check=dict(
        harness="c11_event", pythia=True,
        technique="stateless exploration of whole events on the real program: "
        "all configurations, all scripted random answers up to a depth, every "
        "history written checked by an independent reader and model",
        bounds="collider, box, sphere, list and list box with up to about 10 "
        "particles; time steps, grids, criteria, ensembles, test particles, "
        "decays, 2->1, 2->2, multi-particle reactions, forced collisions; three "
        "scripted random decisions out of {0, middle, largest}; straight-line "
        "elastic scenes with 5 step sizes, grids and parts of the evolution",
        bounds_thorough="five scripted random decisions; more scenes",
        note="Strings are not included (Pythia is replaced by a stub). Runs with "
        "resonances are reproduced from the start of a run but not from the seed "
        "of a later event, as the sampling of masses adapts itself. ",
        limit=900))

prop(
    "C21", "Lattices are consistent rectangular grids of cells",
    "A lattice keeps one value per cell of a regular grid: every position "
    "inside belongs to exactly one cell, the one found by position, by its "
    "three indices, by its running index and by its centre; positions outside "
    "of an open lattice belong to none, those of a periodic lattice to the cell "
    "of their image. Iterating over a range of cells, around a point within "
    "given distances, or over the nearest neighbours visits exactly the "
    "cells meant, each once, and never memory outside of the lattice. "
    "Gradients are central differences, one-sided at open edges. Assigning, "
    "resetting, resizing and copying change exactly what they say, impossible "
    "or mismatching lattices are refused.",
    ["inputs", "histories"],
    "all lattices up to a size, periodic or not; positions in and around every "
    "cell; all sequences of changes up to a depth",
    "the lattice test looks at two lattices with a few positions",
    ["src/include/smash/lattice.h"],
    [("cell of a position", "src/include/smash/lattice.h RectangularLattice::value_at"),
     ("neighbourhood", "src/include/smash/lattice.h RectangularLattice::iterate_in_cube"),
     ("neighbours",
      "src/include/smash/lattice.h RectangularLattice::iterate_nearest_neighbors"),
     ("gradients",
      "src/include/smash/lattice.h RectangularLattice::compute_four_gradient_lattice"),
     ("resizing", "src/include/smash/lattice.h RectangularLattice::reset_and_resize")],
    check=dict(
        harness="c21_lattice",
        technique="exhaustive enumeration of small lattices, positions and "
        "histories of operations against a map of cells",
        bounds="1 to 4 cells per direction, 3 sizes, 3 origins, open and "
        "periodic; four positions per cell and beyond the edges; 45 points x 9 "
        "distances; 11 operations to depth 4",
        bounds_thorough="up to 5 cells per direction, depth 5",
        note="Positions at more than 256 periods from a periodic lattice are "
        "not included."))

prop(
    "C28", "Densities and energy-momentum tensors are sums over particles",
    "The currents, rest-frame densities and their derivatives, at a point or "
    "on a lattice, are the sums over exactly the particles that count (by type "
    "of density, participants only if so chosen, all ensembles) of their charge "
    "and velocity times the smearing chosen, divided by the numbers of test "
    "particles and ensembles: Gaussian smearing Lorentz-contracted with the "
    "velocity and normalised within its cut-off, discrete and triangular "
    "smearing adding up to the charge of each particle in the lattice. "
    "Derivatives are those of the smeared current or finite differences "
    "between cells and time steps, as chosen. Updating again leaves nothing of "
    "previous updates. Energy-momentum tensors are sums of p^mu p^nu / E, "
    "transform as tensors under boosts, and have no momentum density in the "
    "Landau frame.",
    ["inputs", "configurations"],
    "all sets of up to three particles from an alphabet of types, positions "
    "and momenta, with all smearing options",
    "the tests look at a handful of particles and compare with numbers; the "
    "density test needs Pythia to build",
    ["src/density.cc", "src/include/smash/density.h",
     "src/energymomentumtensor.cc", "src/include/smash/energymomentumtensor.h"],
    [("contribution by type", "src/density.cc density_factor"),
     ("smearing", "src/density.cc unnormalized_smearing_factor"),
     ("at a point", "src/density.cc current_eckart"),
     ("on the lattice",
      "src/include/smash/density.h update_lattice_with_list_of_particles"),
     ("derivatives", "src/density.cc update_lattice"),
     ("Landau frame", "src/energymomentumtensor.cc landau_frame_4velocity")],
    check=dict(
        harness="c28_density",
        technique="exhaustive enumeration of small sets of particles and "
        "options against directly computed sums over particles",
        bounds="16 types x 4 momenta x 3 positions: all sets of one and two, a "
        "311th of all of three; six parameter sets, eight densities, six points; "
        "open and periodic lattices; Gaussian, discrete, triangular; three "
        "consecutive updates; tensors of all triples of 15 momenta, 4 boosts",
        bounds_thorough="a 17th of all sets of three; tensors of all quadruples",
        note="The density called total isospin counts twice the third "
        "component, as SMASH does everywhere."))

prop(
    "C23", "A process is chosen in proportion to its weight",
    "Among the channels that a scattering or decay offers, each is chosen with "
    "a probability equal to its weight divided by the sum of all weights: the "
    "possible values of the random number are divided into ranges of exactly "
    "these lengths, no value selects a channel of zero weight and none is left "
    "without a channel, also if the channels are scaled to a parametrized total "
    "cross section. The outgoing particles and type of the process are those of "
    "the channel chosen, and the partial and total weight reported for the "
    "action are the ones of the channel and of all channels.",
    ["inputs", "configurations"],
    "every value of the random number, for all lists of up to four channels "
    "with weights from an alphabet, and for real pairs of particles",
    "tests throw dice a number of times; edges of ranges and tiny weights are "
    "never hit",
    ["src/include/smash/action.h", "src/scatteraction.cc", "src/decayaction.cc"],
    [("choice", "src/include/smash/action.h Action::choose_channel"),
     ("scattering", "src/scatteraction.cc ScatterAction::generate_final_state"),
     ("scaling", "src/scatteraction.cc ScatterAction::rescale_outgoing_branches"),
     ("decay", "src/decayaction.cc DecayAction::generate_final_state")],
    check=dict(
        harness="c23_choice", pythia=True,
        technique="exhaustive enumeration of lists of weights; for each, the "
        "whole range of the random number is mapped by bisection",
        bounds="all lists of 4 channels with 6 different weights, in both "
        "orders, for scatterings and decays; real pairs with and without "
        "rescaling; edges found to 1e-13, the smallest and largest number "
        "included",
        bounds_thorough="finer initial grid before bisection",
        note="String processes are chosen in the same way, but their final "
        "states are not looked at."))

prop(
    "C46", "Final states follow the documented distributions",
    "With the random numbers taken as independent and uniform, the final states "
    "of binary scatterings and decays have the distributions SMASH documents. "
    "Elastic nucleon-nucleon scatterings follow the parametrization of Cugnon "
    "et al. (exponential in the momentum transfer, isotropic at low energy, "
    "partly mirrored for np), N N to N Delta and N N to N resonance the "
    "power laws in the momentum transfer; all other elastic and inelastic "
    "2-to-2 processes, and those with isotropic scattering requested, are "
    "isotropic in the centre-of-mass frame, and azimuths are uniform. Two-body "
    "decays are isotropic in the rest frame. Masses of resonances are "
    "distributed as spectral function times momentum times Blatt-Weisskopf "
    "factor within the kinematic limits, and three-body decays of stable "
    "daughters fill phase space uniformly.",
    ["inputs", "configurations"],
    "every combination of random numbers on a grid, for all energies and "
    "orientations of the listed pairs and decays",
    "tests check single values or compare histograms of a sampled process "
    "with wide margins; whole classes of processes are never sampled",
    ["src/scatteraction.cc", "src/action.cc", "src/decayaction.cc",
     "src/particletype.cc", "src/include/smash/random.h"],
    [("angles", "src/scatteraction.cc ScatterAction::sample_angles"),
     ("Cugnon", "src/scatteraction.cc Cugnon_bpp, Cugnon_bnp"),
     ("decays", "src/action.cc Action::sample_2body_phasespace"),
     ("three bodies", "src/action.cc Action::sample_manybody_phasespace"),
     ("masses", "src/particletype.cc ParticleType::sample_resonance_mass, "
      "sample_resonance_masses")],
    check=dict(
        harness="c46_final", pythia=True,
        technique="exhaustive enumeration of the random numbers' values on a "
        "grid; the distribution of the real code's answers is compared with the "
        "documented one within the error the grid allows",
        bounds="50+ pairs and channels x 9 energies x frames and directions; "
        "4096 values of one number, 112^2 of two, 30^3 of three, 14^4 of four; "
        "19 mass distributions, 3-body decays on 260^2 and 16^4 grids",
        bounds_thorough="more energies, 512^2, 80^3, 24^4; masses 900^2; 3-body "
        "700^2 and 34^4",
        note="Energies at which a rejection loop would need more than four "
        "numbers per try are skipped and counted. String final states are not "
        "looked at."))

prop(
    "C27", "Colliding nuclei start as configured",
    "In a collider run the nuclei contain the configured particles, labelled as "
    "projectile and target in every event, on their mass shell and all at the "
    "same time. The energy may be given in exactly one way and determines "
    "sqrt(s_NN) and, in each calculation frame, the velocities of the nuclei as "
    "relativity prescribes. The nuclei are contracted, touch at time zero, are "
    "displaced by the impact parameter, and have their centres of mass there. "
    "Nucleon positions follow the (deformed, alpha-clustered) Woods-Saxon "
    "distribution with documented or configured parameters, automatically "
    "normalized densities integrate to the number of nucleons, and nuclei are "
    "rotated as configured or uniformly; nuclei from files follow one another "
    "as in the file. Fermi momenta fill the local Fermi sphere and sum up to "
    "zero. Impact parameters follow the configured distribution.",
    ["inputs", "configurations"],
    "all ways to give the energy x nuclei x frames, and all values of the "
    "random numbers on grids",
    "tests initialize a few nuclei in one frame and compare histograms with "
    "wide margins; different masses, the energies per beam and repeated events "
    "are not tested",
    ["src/collidermodus.cc", "src/nucleus.cc", "src/deformednucleus.cc",
     "src/alphaclusterednucleus.cc", "src/customnucleus.cc",
     "src/include/smash/kinematics.h", "src/include/smash/nucleus.h"],
    [("energy and frame", "src/collidermodus.cc ColliderModus, get_velocities"),
     ("placing", "src/collidermodus.cc ColliderModus::initial_conditions"),
     ("impact parameter", "src/collidermodus.cc ColliderModus::sample_impact"),
     ("positions", "src/nucleus.cc distribute_nucleon"),
     ("Fermi momenta", "src/nucleus.cc generate_fermi_momenta"),
     ("nuclei from files", "src/customnucleus.cc")],
    check=dict(
        harness="c27_collider", pythia=True,
        technique="exhaustive enumeration of configurations against relativistic "
        "kinematics; distributions from all random numbers on a grid",
        bounds="7x7 nuclei x 77 energies in 7 ways x 3 frames, Fermi motion, "
        "distance, impact parameter and plane cycled; all 128 combinations of "
        "energy keys; 26 impact parameter settings; Woods-Saxon with 5, "
        "deformed with 11 parameter sets; parameters of ~700 nuclei; 3^9 Fermi "
        "momenta; 216 orientations; files of up to 5 nuclei, 7 events",
        bounds_thorough="finer grids of random numbers; all nuclei with all "
        "energies",
        note="Energies at which a velocity differs from one by less than about "
        "1e-9 are not looked at."))

prop(
    "C19", "Hadrons leave on the hypersurface of constant proper time",
    "With initial conditions at constant proper time, every hadron whose line "
    "of motion crosses the hypersurface is taken out of the evolution exactly "
    "once and exactly at the crossing, unless its rapidity or transverse "
    "momentum is beyond the configured cuts or it is not of the future light "
    "cone yet. Nucleons with frozen Fermi motion are followed along the beam "
    "until they interact. The proper time is the configured one, or the scaled "
    "passing time of the nuclei, but at least the scaled lower bound. Hadrons "
    "are written once, with position on the hypersurface, and those written and "
    "those left together carry the conserved charges and the momentum.",
    ["inputs", "histories", "configurations"],
    "all single steps, chains of steps and collider runs of the grids",
    "the test has one proton moving in one way; the crossing condition depends "
    "on the order of light cone, step and hypersurface",
    ["src/hypersurfacecrossingfinder.cc", "src/fluidizationaction.cc",
     "src/include/smash/experiment.h", "src/collidermodus.cc"],
    [("crossing", "src/hypersurfacecrossingfinder.cc crosses_hypersurface"),
     ("position", "src/hypersurfacecrossingfinder.cc coordinates_on_hypersurface"),
     ("removal", "src/fluidizationaction.cc FluidizationAction"),
     ("proper time", "src/include/smash/experiment.h Experiment::Experiment")],
    check=dict(
        harness="c19_hybrid", pythia=True,
        technique="exhaustive enumeration of single steps and of chains of steps "
        "against the analytic crossing; runs of the real program with the written "
        "hypersurface compared",
        bounds="7x8 starts x 4 steps x 4 proper times x 21 momenta x 4 beams x 9 "
        "cuts; 720 chains; 540 collider runs",
        bounds_thorough="3600 collider runs",
        note="Crossings within 1e-9 fm of the end of a step are not looked at. "
        "Hadrons produced behind the hypersurface are not expected to leave."))

prop(
    "C20", "Dynamic fluidization separates core and corona",
    "A hadron becomes part of the core exactly if it is within the time window "
    "and the lattice, its last process is among the configured ones (first "
    "elastic scatterings optionally excluded), the given fraction of its "
    "formation time is over, and the local rest-frame energy density plus the "
    "background reaches the threshold plus its own contribution. It becomes core "
    "once, stays in the evolution unchanged and is written then. The lattice "
    "holds the energy-momentum tensor of all hadrons, is large enough for any "
    "time, and is the same in every event. Decays of core hadrons and "
    "scatterings among them yield core hadrons; core and corona only scatter "
    "elastically. At the end the core is removed and the hadrons of the corona "
    "are put back on their lines to just after their last collision.",
    ["inputs", "histories", "configurations"],
    "all combinations of the conditions on grids, all 4^5 final states of five "
    "hadrons, and collider runs replayed from their output",
    "tests look at two particles and one dense region; a hadron becoming core "
    "between finding and performing an action is not tested",
    ["src/dynamicfluidfinder.cc", "src/fluidizationaction.cc",
     "src/collidermodus.cc", "src/scatteraction.cc", "src/decayaction.cc",
     "src/include/smash/experiment.h"],
    [("conditions", "src/dynamicfluidfinder.cc find_actions_in_cell"),
     ("energy density", "src/dynamicfluidfinder.cc above_threshold"),
     ("lattice", "src/collidermodus.cc build_fluidization_lattice"),
     ("core and corona", "src/include/smash/experiment.h perform_action"),
     ("final state", "src/dynamicfluidfinder.cc find_final_actions")],
    check=dict(
        harness="c20_dynamic", pythia=True,
        technique="exhaustive enumeration of particle states and parameters; "
        "histories of real runs replayed with the status of every hadron",
        bounds="19 processes x 64 settings; 4x8x3 steps x 7x4x4x3x2 formation "
        "states; 75 fluids x 108 thresholds x 4 hadrons x 9 cells; 1024 final "
        "states; 15 pairs x 30 seeds; 54 lattices over 150 times; 48 runs",
        bounds_thorough="more seeds; 320 runs",
        note="For formation time fractions above one, a formed hadron may become "
        "core up to one step early. String final states are not looked at."))
