"""What each check runs: harness parts, claimed level, and the text that goes into the evidence."""
CHECKS = {}

def check(id, parts, level, technique, note, explanation, assumptions=(), rule=""):
    CHECKS[id] = dict(parts=[dict(p) for p in parts], level=level, technique=technique, note=note,
                      explanation=explanation, assumptions=list(assumptions), rule=rule)

check("C05", [dict(harness="C05", variant="plain"), dict(harness="C27", variant="fast", args=["--kinds", "score"])], "model_checking",
      "bounded exhaustive enumeration of bin specifications x values against an interval model",
      "Exhaustive over the stated lattice of specifications and values; values within rounding of a non-representable boundary may fall either side.",
      "states: bins of all enumerated specifications; transitions: distinct (specification, value) or (direction, energy) lookups; "
      "each lookup is made on the real ParticleBins and compared with the interval model (traces_validated_against_impl).")

check("C03", [dict(harness="C03", variant="choice")], "model_checking",
      "exhaustive choice-sequence exploration of the real solver against an explicit-bank reference model",
      'Exhaustive over all choice sequences of the listed problems whose tree is below the cap (others are counted in problems_over_cap and not claimed); chain lengths up to 300 generations and up to 25,000 waiting particles with certain outcomes.',
      "paths: complete choice sequences of the real solver; the joint distribution of all tallies over them must equal that of a reference model with an explicit bank which explores its own sequences (so nothing depends on the order of draws). 'crowds': problems where everything is certain, up to very many particles waiting at once or very long chains, where the number of leaking particles is known exactly.")

check("C06", [dict(harness="C06", variant="choice")], "model_checking",
      "exhaustive ray lattice and choice-sequence exploration of the real solver against reference crossings",
      'Exhaustive over the ray lattice (degenerate rays - tangent, through edges, within rounding of a bin boundary - are excluded and counted), over all choice sequences of the multigroup problems below the cap, and over all sequences of the first 7-9 draws of the continuous-energy problems.',
      'rays: histories without collisions whose tallies must equal the crossings of the straight line; choices: joint distribution of all tallies against the reference model; balance: for every choice sequence through scattering media with virtual collisions, what enters a region also leaves it and a particle leaves the geometry exactly once.')

check("C07", [dict(harness="C07", variant="fast"), dict(harness="C27", variant="fast", args=["--kinds", "distance,side"])], "model_checking",
      "exhaustive lattice of surfaces, points and rays against extended-precision geometry",
      'Exhaustive over a lattice of surfaces, points, directions and offsets; tangency and points on the surface are decided exactly only where they are representable; elsewhere points within rounding of the surface are excluded.',
      "states: (surface, point) pairs; transitions: calls of the real Distance, compared with the roots in extended precision with a tolerance derived from the conditioning; senses before and after the crossing are compared too. 'near': starts at 2^-3 to 2^-46 sizes from the surface.")

check("C08", [dict(harness="C08", variant="fast"), dict(harness="C27", variant="fast", args=["--kinds", "cell,nearest surface"])], "model_checking",
      "exhaustive enumeration of cell sequences, points and rays against first-match and nearest-root models",
      'Exhaustive over all one- and two-cell documents over three surfaces and a large part (all, thorough) of the three- and four-cell ones; points off the surfaces; a quarter of the documents with names that are easily taken for each other.',
      'states: cells built; transitions: FindCellContaining and NearestSurface calls on the real World, compared with first match in document order and the nearest root.')

check("C09", [dict(harness="C09", variant="choice")], "model_checking",
      "exhaustive choice-sequence exploration of single tracks of the real transport with a monitor of every step",
      'Exhaustive to a depth of draws (extreme and middle values), then a fixed aperiodic tail (paths counted as truncated); geometry free of degenerate edges.',
      "states: positions observed (the particle is inspected at every draw it makes and at its end); every observed step must be straight, within the cell's nearest boundary, with the assigned cell containing the position, and end only in capture, fission or void.")

check("C10", [dict(harness="C10", variant="choice")], "model_checking",
      "exhaustive enumeration of draw strata and draw sequences of the real transport against the exponential law",
      'Exhaustive over N equal strata of the flight draw and over all draw sequences of the region problems; probabilities between the strata follow by monotonicity of the inverse distribution.',
      'flights: distances for all strata, compared with 1-exp(-Sigma d); regions: optical thicknesses -ln(j/K), over all K-ary sequences the probability of every sequence of crossings must be exactly the product; mixed: joint distribution against the reference model.')

check("C11", [dict(harness="C11", variant="choice"), dict(harness="C27", variant="fast", args=["--kinds", "choice of nuclide,collision"])], "model_checking",
      "exhaustive enumeration of data tables and draw strata of the real sampling routines against the exact probabilities",
      'Exhaustive over the tables of the lattices and all strata of the deciding draws; probabilities are resolved to 1/N (1/400 and finer) unless they are multiples of 1/K, where they are exact.',
      "states: probabilities compared; transitions: selections made by the real code. 'mixture': continuous-energy nuclides away from the temperature of their evaluation, where total and majorant differ.")

check("C12", [dict(harness="C12", variant="choice"), dict(harness="C27", variant="fast", args=["--kinds", "collision", "--of", "groups"])], "model_checking",
      "exhaustive choice-sequence exploration of fissions in the real code against the exact distributions",
      'Exhaustive over K-ary draw sequences of single fissions, N strata of the yield draw, and all seeds 1..S for stream independence (overlap of streams within W draws beyond chance, chi-square of pairs of first draws with wide thresholds).',
      'states: distinct outcomes; transitions: fissions and secondaries of the real code; joint distribution of number and groups must be exact, directions isotropic and unrelated.')

check("C13", [dict(harness="C13", variant="choice")], "model_checking",
      "exhaustive enumeration of draw strata and of original directions, cosines and azimuths on the real code",
      'Exhaustive over lattices of pairs of draws, and of original directions x cosines x azimuths including the axes and their neighbourhood; uniformity up to the resolution of the lattice.',
      'states: (direction, cosine, azimuth) combinations; transitions: directions computed by the real code through every public way of sampling them.')

check("C14", [dict(harness="C14", variant="choice"), dict(harness="C27", variant="fast", args=["--kinds", "source"])], "model_checking",
      "exhaustive enumeration of source specifications, seeds and draw strata on the real code",
      'Exhaustive over source specifications, lattices of pairs of draws for directions, and all seeds of a range for stream reuse; densities up to the resolution of the lattice.',
      'states: distinct source particles; transitions: particles born in the real code.')

check("C15", [dict(harness="C15", variant="choice"), dict(harness="C27", variant="fast", args=["--kinds", "total,majorant,material", "--of", "groups"])], "model_checking",
      "exhaustive enumeration of cross section tables, materials and cells against the sums they define",
      'Exhaustive over small value alphabets: all scatter matrices of 1-2 groups and many of 3, presence and order of reactions and particle types, fractions, scalings, orders and names of nuclides, sequences of cells over shared materials.',
      "states: (table, group, particle) or (material, energy) pairs; transitions: cross sections computed by the real code, compared with directly computed sums. 'macroscopic': the flight of every stratum in the material.")

check("C16", [dict(harness="C16", variant="choice"), dict(harness="C27", variant="fast", args=["--kinds", "total,majorant,material"])], "model_checking",
      "exhaustive lattices of cross section states and choice-sequence exploration of both tracking methods",
      'Exhaustive over lattices of nuclides, fields, energies and positions for the majorant, over choice sequences (below the cap) for equality of distributions, over a lattice of draws (with a fixed tail) for collision sites, where deviations below 0.07 in the distribution function are not resolved.',
      'majorants: comparisons of majorant and total; sites: first real collisions compared with 1-exp(-optical path); same: both methods over all choice sequences; virtual: particle and tallies unchanged; refusal: every field x tracking.')

check("C04", [dict(harness="C04", variant="choice"), dict(harness="C04", variant="asan")], "model_checking",
      "exhaustive enumeration of operation sequences on the real tallies against a list-of-histories model",
      'Exhaustive over operation sequences to a depth on several tally sets and over all assignments of histories to workers and orders and groupings of merging; the second variant runs them under AddressSanitizer. Printed values are compared to the printed precision.',
      'states: reached configurations of the tally sets; transitions: operations on the real EstimatorSet / EstimatorSetProxy; each sequence is compared with a model that keeps the list of histories.')

check("C17", [dict(harness="C17", variant="choice"), dict(harness="C27", variant="fast", args=["--kinds", "total,majorant,collision", "--of", "continuous"])], "model_checking",
      "exhaustive enumeration of tables, lookups and configurations of reactions, and of strata of draws, against the data's meaning",
      'Exhaustive over tables from a pool of energies and values, lookups at, beside, between and outside the grid points in three orders, sets of reactions x totals x thermal laws x temperatures.',
      'lookups: values of the real tables; states: cross sections; choices: strata of the draw that leads to a reaction.')
check("C18", [dict(harness="C18", variant="plain")], "model_checking",
      "exhaustive enumeration of table shapes, index tuples and faults of data files",
      'Exhaustive over shapes to a bound in 1-4 dimensions, all index tuples in and around them, and listed faults including truncation of a file at every length.',
      'states: files; transitions: entries read through the real HDF5DataSet and the maps made from it, compared with what was written; faults: every faulty file must end in an error.')
check("C19", [dict(harness="C19", variant="plain"), dict(harness="C27", variant="fast", args=["--kinds", "temperature,total,material"])], "model_checking",
      "exhaustive enumeration of fields, temperatures, places and energies, and of sequences of visits, against the data's meaning",
      'Exhaustive over fields x cell temperatures x positions, mass ratios x temperatures x energies (temperatures within rounding of the one percent limit excluded), and visit sequences to a length.',
      'temperatures and cross_sections: values computed by the real code compared with the formula; sequences: visits whose values must not depend on earlier ones.')
check("C20", [dict(harness="C20", variant="choice"), dict(harness="C27", variant="fast", args=["--kinds", "collision", "--of", "continuous"])], "model_checking",
      "exhaustive enumeration of generator states and of extreme draw sequences, against the numerically integrated model of the collision",
      'Exhaustive over generator states 1..2^18 (all 2^31-2 for some configurations in the thorough tier), i.e. over a complete set of draws of the real generator; distributions are compared within tolerances a few times the discrepancy of that set, so deviations below roughly one percent are not resolved. Extremes: all sequences of smallest, middle and largest draws that the generator can deliver, to a depth.',
      'paths: scatters performed by the real code; energy, cosine and azimuth distributions against a numerically integrated two-body model; cold: kinematics path by path; balance: the equilibrium spectrum is unchanged.')
check("C21", [dict(harness="C21", variant="choice"), dict(harness="C27", variant="fast", args=["--kinds", "total,majorant,collision", "--of", "continuous"])], "model_checking",
      "exhaustive enumeration of table shapes, places in the tables, generator states and extreme draw sequences, against the distributions the tables mean",
      'As C20: exhaustive over generator states 1..S and over extreme draw sequences; energies at which more than 15 % of the energy transfers are rejected are excluded from the distribution comparison (not from the physical limits).',
      'paths: scatters performed by the real code; energy transfers and cosines are mapped through the cumulative distributions the tables mean, where they must be uniform; total: cross sections over every place relative to the tables.')
check("C22", [dict(harness="C22", variant="choice")], "model_checking",
      "exhaustive choice-sequence exploration of the real solver against a reference model of the indirect effects",
      'Exhaustive over all choice sequences of the listed problems below the cap and over all subsets and orders of three perturbations; the bookkeeping is claimed, not that the accumulated effect is physically the logarithmic derivative (see DESIGN.md).',
      'paths: choice sequences of the real solver; joint distribution of counts with first and second moments of sensitivities against the reference model; undisturbed: printed tallies identical with any set of sensitivities.')

check("C02", [dict(harness="C02", variant="fast")], "model_checking",
      "exhaustive enumeration of batch splits, driver operation sequences and memory placements on the real solver",
      'Exhaustive over starting seeds of a window, batch lengths, sequences of driver operations to a depth of several problems, and a set of systematically different memory placements (each in a process of its own); real generator, so other seeds are not covered.',
      'states: batches, driver sequences and placements compared; transitions: histories solved on the real FixedSource, each run compared exactly with the sum of its single histories, with a fresh process, or with another placement.')

check("C01", [dict(harness="C01", variant="sched", extra=["sched_rt.cpp"])], "model_checking",
      "stateless model checking of the real solver: every interleaving up to a preemption bound under a controlled scheduler, with happens-before race detection",
      'Stateless model checking of the compiled solver: exhaustive for two threads up to two preemptions on the smaller problems and one elsewhere (three and two in the thorough tier), for three and four threads up to one preemption or delay (two), with 0-4 histories; scheduling points at every access to memory that another thread also touches, at every pthread call and atomic; sequentially consistent interleavings only (weak memory shows as a data race). Longer batches with few preemptions.',
      "states: distinct happens-before states at scheduling points; transitions: scheduling points executed; schedules: complete executions of FixedSource::Solve under the controlled scheduler (our own __tsan_* runtime and interposed pthread calls), each compared with the single-threaded result and with the single histories, and searched for races by vector clocks, deadlocks and endless executions. 'fresh': the first schedule of a new process, 'split': every way of sharing out without preemption, 'long': batches long enough for progress reports.")

check("C24", [dict(harness="C24", variant="plain", main="plain")], "model_checking",
      "exhaustive enumeration of inputs, names, places and earlier contents on the real program",
      'Exhaustive over ordered selections of tallies, problems, names and places of the input and earlier contents of the output; the real executable is run in a scratch directory.',
      'runs: executions of the program; outputs compared with an own rendering of the results the library computes; nothing else in the directory may change; wrong usage and rejected inputs must fail and write nothing.')

check("C23", [dict(harness="C23", variant="plain")], "model_checking",
      "exhaustive enumeration of faults and optional parts of documents against an explicit model of the schema and its rules",
      "Exhaustive over single faults at every node of four base documents, pairs of faults in a list, subsets of optional parts and truncations; where the statement leaves acceptance open the document only must not crash ('either').",
      'states: documents; each is given to the real Driver::Create (with the schema) in a process of its own; an explicit model of the schema and the rules between parts says whether it must be accepted or rejected, and messages are searched for the offender.')

check("C26", [dict(harness="C26", variant="fast")], "model_checking",
      "exhaustive enumeration of rewritings of documents that keep their meaning, each solved by the real code",
      'Exhaustive over single rewritings of a list of kinds at every place of eight base documents (orders of more than five parts: every pair of parts first), pairs and composites thinned out; the results of each rewritten document equal those of the base exactly, for a fixed seed and number of histories.',
      'states: documents; each is read by Driver::Create and solved; orders, layouts, numbers, defaults, equivalents, names and additions: single rewritings of that kind; pairs and composites: several at once.')

check("C27", [dict(harness="C27", variant="fast")], "model_checking",
      "exhaustive enumeration of sequences of questions to the real objects, against the answers of processes asked nothing else",
      'Exhaustive over ordered pairs of about 2,500 questions of thirteen kinds to six problems, over triples of a spread of questions of each kind, over sequences of steps of a particle to a depth, and over ordered pairs of problems built after one another; sequences longer than that are covered only as far as the enumeration itself is one long sequence.',
      'states: questions with their answers; transitions: questions asked of the real objects (cells, surfaces, fields, nuclides, materials, sources, tallies, solvers), each compared with the answer to the same question in a process forked before anything was asked; moving: a particle that got somewhere by steps against one put there; rebuilt: problems asked after others were destroyed.')
