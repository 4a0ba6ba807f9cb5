#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=["src/" + f for f in files],
                               state=[dict(name=n, meaning=m, where="src/" + w) for n, m, w in state],
                               mechanism=[dict(name=n, where="src/" + w) for n, w in mech],
                               observe_at=list(observe), hook_needed=hook)))

prop("C01", "Results do not depend on thread count or interleaving",
 "A fixed-source calculation returns the same tally results for every number of worker threads and every interleaving of them (counts exactly, real-valued sensitivity sums up to rounding). Each requested history is transported exactly once and none is lost, repeated or added. The run always terminates, without a data race, deadlock or crash.",
 ["schedules", "configurations"], "all interleavings of the worker threads, all thread counts",
 "The suite solves one problem with two free-running threads and compares a mean within statistics; a lost or repeated history, or a race that needs a particular switch point, is invisible.",
 ["FixedSource.cpp", "FixedSource.hpp", "Driver.cpp", "Estimator.cpp", "Scorable.cpp"],
 [("atomic history counter; worker loop; per-thread tallies merged after join", "FixedSource.cpp")],
 [("histories_elapsed", "next history to start", "FixedSource.hpp"), ("worker_estimator_set", "per-thread tallies", "FixedSource.cpp")],
 ["Driver::Create(xml)->Solve().to_string()"])

prop("C02", "A history depends only on its own seed; batches are additive",
 "The contribution of history i (counting from 0) of a run with seed s depends only on the problem and on s+i: the tally sums of N histories from seed s equal the sum of the single-history runs with seeds s to s+N-1, however the batch is split. Running the same input again - the same driver a second time, a new driver in the same process, or after other problems have been set up and solved - reproduces the same results exactly, wherever the program's objects happen to lie in memory.",
 ["histories", "configurations", "inputs"], "all seeds, batch sizes, splits, orders of earlier work in the process, and object placements",
 "No test runs the same problem twice, with a chosen seed or after another problem.",
 ["FixedSource.cpp", "Source.cpp", "Particle.cpp", "Driver.cpp", "Material.cpp", "Material.hpp", "Cell.hpp"],
 [("history seed = seed + index; all later randomness flows from it", "FixedSource.cpp"), ("ordered containers of nuclides and surfaces", "Material.hpp")],
 [("seed", "first history's seed", "Driver.hpp"), ("Particle::transport_method", "process-wide tracking method", "Particle.cpp")],
 ["Driver::Create(xml)->Solve()"])

prop("C03", "Every particle of a history is transported exactly once to its end",
 "The source particle and every fission secondary of every generation is transported exactly once, starting where it was born with its own direction, energy and an independent random stream of its own, until it is captured, causes fission or enters void. Everything it scores is credited to the one history it belongs to. None is dropped, transported twice or left over for another history.",
 ["histories", "inputs"], "all histories (all outcomes of the random draws), all fission multiplicities and generations",
 "The only run in the suite has no fission; banking of secondaries is never executed to the end.",
 ["FixedSource.cpp", "Bank.cpp", "Particle.cpp", "Multigroup.cpp"],
 [("bank processed from the back, secondaries spliced to the front", "FixedSource.cpp"), ("secondary seeded from the parent stream", "Particle.cpp")],
 [("Bank", "particles still to be transported in this history", "Bank.hpp")],
 ["tallies of Driver::Solve", "Particle::Transport / MoveSecondariesTo"])

prop("C04", "Tally mean and standard deviation are those of per-history totals",
 "For every tally bin the reported mean is the sum over histories of the history's total score divided by the number of histories N, and the reported standard deviation is sqrt(sum x^2 - (sum x)^2/N)/N of the per-history totals x, where all scores of one history in one bin are added before squaring. Bins without scores report zero. Merging the tallies of several workers, in any order and grouping, gives the same as tallying all histories in one, and copying a tally shares nothing with the original.",
 ["histories"], "all sequences of scoring events, history boundaries, copies and merges",
 "The tests compare one mean; no test scores twice in a history, looks at a standard deviation, or merges tallies.",
 ["Scorable.cpp", "Scorable.hpp", "Estimator.cpp", "Sensitivity.cpp"],
 [("pending scores per history, committed once", "Scorable.cpp"), ("operator+= over scores and squares", "Scorable.cpp")],
 [("scores/square_scores", "sums over committed histories", "Scorable.hpp"), ("pending_scores", "totals of the current history", "Scorable.hpp")],
 ["EstimatorSet::to_string", "Scorable::GetScore"])

prop("C05", "Every direction and energy falls in exactly one, correct tally bin",
 "A tally's bins partition every (direction, energy): values below the first boundary go to the first bin, values at or above the last boundary to the last, and others to the bin i with b(i) <= v < b(i+1) (up to rounding at a boundary), for linear, logarithmic and explicit boundaries alike, where the boundaries are those printed with the tally; an axis without bins has one bin. The cosine is taken between the particle's direction and the normalised reference direction, and values are listed with the cosine bin varying slowest. Boundaries that do not increase are rejected as an input error.",
 ["inputs", "configurations"], "all values including boundaries, negatives, zero and infinities; all bin specifications",
 "No test builds any bins; the only tally used is unbinned.",
 ["Bins.cpp", "Bins.hpp", "Scorable.cpp"],
 [("GetIndex of each bin kind; strides", "Bins.cpp")], [],
 ["Bins::Create(node)->GetIndex", "ParticleBins::GetIndex", "to_string"])

prop("C06", "A current tally counts each crossing of its surface exactly once",
 "A current tally on a surface scores one for every crossing of that surface by a particle - into another region or out into void - and nothing for anything else: collisions (also right after a crossing), crossings of other surfaces, births. Each crossing is counted exactly once however far from the origin, at whatever angle short of tangency and from whichever side it happens, and is binned by the particle's direction and energy at the crossing. With nothing but absorption, the counts therefore equal the number of particles that geometrically reach the surface.",
 ["histories", "inputs", "configurations"], "all histories, geometries, positions and directions",
 "One spherical problem near the origin, within statistics.",
 ["Estimator.cpp", "TransportMethod.cpp", "Constants.hpp"],
 [("score only on surface_cross/leak with the tally's surface", "Estimator.cpp"), ("particle nudged past the surface so it is crossed once", "TransportMethod.cpp")],
 [("current_surface/event", "last crossed surface and last event", "Particle.hpp")],
 ["tallies of Driver::Solve"])

prop("C07", "Surface sense and distance-to-surface are mutually consistent and exact",
 "For spheres, x-planes and x-cylinders of any size and placement, a point is on the negative side exactly when it is strictly inside the sphere or cylinder, or strictly left of the plane. The distance along a ray is the smallest strictly positive distance at which it meets the surface, and infinite when it never does (tangency counts as not meeting), to rounding accuracy. Hence the sense is constant along the ray before that distance and flips across it.",
 ["inputs"], "all surfaces, points and unit directions, including on-surface, axis-parallel and tangent rays",
 "The tests try a handful of rays on two spheres; planes and cylinders are untested.",
 ["CSGSurface.cpp", "CSGSurface.hpp"], [("Contains/Distance/SolveQuadratic", "CSGSurface.cpp")], [],
 ["CSGSurface::Create(root,name)->Contains/Distance"])

prop("C08", "Point location and nearest boundary follow the document's cells",
 "A point belongs to the first cell, in document order, all of whose surface senses it satisfies; a point in no cell is an error, never silently assigned. The nearest boundary of a cell along a ray is the surface of that cell, and of no other cell, which the ray meets first, with its distance. Void regions carry no material, and every other cell exactly the material it names.",
 ["inputs", "configurations"], "all cell layouts (overlapping, nested, with gaps), points and rays",
 "One concentric-sphere layout with a few points.",
 ["World.cpp", "Cell.cpp"], [("FindCellContaining, NearestSurface, AssignSurfaceSenses, AssignMaterial", "Cell.cpp")], [],
 ["World::FindCellContaining", "Cell::NearestSurface", "Cell::material"])

prop("C09", "Particles move straight, never skip a boundary, and end only as they may",
 "Between events a live particle moves in a straight line along its direction with unit direction vector, and never further than the nearest boundary of its current cell without a crossing event being recorded for that very surface. After every event the cell it is assigned is the cell that contains its position, and collisions happen only inside material. Its history ends exactly when it is captured, causes fission or enters void, never earlier and never later, and a crossing changes neither direction nor energy.",
 ["histories", "configurations"], "all histories and geometries, under both tracking methods",
 "Tests look only at final tallies of one geometry.",
 ["TransportMethod.cpp", "Particle.cpp", "World.cpp"],
 [("flight loop: collision vs crossing, Stream, SetCell, event", "TransportMethod.cpp")],
 [("position/direction/cell/event", "state of the random walk", "Particle.hpp")],
 ["Particle accessors at every random draw and after Transport"])

prop("C10", "Free flight is exponential in the macroscopic cross section",
 "The distance to the next tentative collision is exponentially distributed with rate equal to the number density times the atom-fraction-weighted microscopic cross section of the cell's material at the particle's energy and temperature. The probability of crossing a sequence of regions without collision is exp(-sum Sigma_i l_i), however many boundaries subdivide the path and in whichever direction it is traversed, and a region is left uncollided independently of what happened before.",
 ["inputs", "histories", "configurations"], "all materials, groups/energies, slab and sphere sequences and draws",
 "One leakage probability for one material, within statistics.",
 ["TransportMethod.cpp", "Material.cpp"], [("exponential_distribution{number_density * cross section}", "TransportMethod.cpp")], [],
 ["transmission tallies", "position at first collision"])

prop("C11", "Nuclide, reaction and outgoing group are chosen with the right probability",
 "At a collision the target nuclide is chosen with probability proportional to atom fraction times its total cross section at the particle's energy, and the reaction with probability proportional to its cross section in that nuclide. In multigroup problems the outgoing group of a scatter follows the normalised column of the scatter matrix for the incident group, isotropically in direction. Channels of zero probability never occur.",
 ["inputs", "histories"], "all nuclide/material data and all values of the random draws",
 "Sampling is never compared with the data; the tests only read back cross sections.",
 ["Particle.cpp", "Multigroup.cpp", "Continuous.cpp"],
 [("accumulate-until-threshold selection", "Multigroup.cpp"), ("SampleNuclide", "Particle.cpp")], [],
 ["Nuclide::Interact / Particle::SampleNuclide outcome frequencies"])

prop("C12", "Fission yields the right number and spectrum of secondaries",
 "A fission ends the incident particle and produces floor(nubar) or floor(nubar)+1 secondaries such that the expected number is exactly nubar of the incident group or energy. Each secondary is a live neutron born at the fission site in its cell, with an isotropic direction, its energy group drawn from the fission spectrum column of the incident group (in continuous-energy problems the incident energy), independently of its siblings and of the parent's later draws. Other reactions produce no secondaries.",
 ["inputs", "histories"], "all nubar/chi data and all values of the random draws",
 "No test executes a fission.",
 ["Multigroup.cpp", "ContinuousReaction.cpp", "Particle.cpp"], [("fission_yield = floor(nubar + U); chi sampling; BankSecondaries", "Multigroup.cpp")], [],
 ["secondaries after Nuclide::Interact"])

prop("C13", "Direction sampling is isotropic and rotation realises the asked cosine",
 "Every direction ever produced has unit length. Isotropic directions are uniform on the sphere. Rotating a direction by cosine mu and azimuth phi gives a direction whose cosine with the original is mu, for every original direction including the coordinate axes and near-axis ones, mu = +-1 included; distinct azimuths sweep the full cone uniformly, and scattering a particle uses a uniform azimuth.",
 ["inputs", "histories"], "all incident directions, cosines, azimuths and random draws",
 "Two fixed rotations are tested; isotropy is not tested at all.",
 ["Point.cpp", "Particle.cpp"], [("Direction(RNG&), Direction(d, mu, phi), Particle::Scatter", "Point.cpp")], [],
 ["Direction constructors", "Particle::Scatter"])

prop("C14", "Source particles follow the specified distributions",
 "Every source particle is born alive at the specified position, with the specified energy or group and particle type, no matter the seed. A constant direction is used normalised; an isotropic one is uniform on the sphere; an isotropic-flux one lies in the hemisphere of its reference direction with density 2 mu in the cosine and uniform azimuth. The particle's own random stream is determined by the seed but does not repeat the draws that produced it, and different seeds give different streams and directions.",
 ["inputs", "histories"], "all seeds and source specifications",
 "Only an isotropic point source is used, and never examined.",
 ["Source.cpp", "Source.hpp"], [("Distribution::Create/Sample, Source::Sample", "Source.cpp")], [],
 ["Source::Sample(seed)"])

prop("C15", "Cross sections of nuclides and materials are the sums the data define",
 "A multigroup nuclide's scatter cross section in an incident group is the sum of that column of the scatter matrix and its total is the sum of its reactions, per particle type and group. A material's microscopic total is the sum of its nuclides' totals weighted by atom fractions normalised to one, so scaling all fractions by a factor or listing the nuclides in another order changes nothing, and the macroscopic cross section scales with the number density. Materials and nuclides shared by several cells or materials do not influence each other.",
 ["inputs", "configurations"], "all group counts, data tables, fractions and orders of listing",
 "Values of one three-nuclide document are read back.",
 ["Multigroup.cpp", "Material.cpp", "Nuclide.cpp", "Interaction.cpp"],
 [("CreateScatterXS/CreateTotalXS; normalisation in AssignNuclides", "Multigroup.cpp")], [],
 ["Nuclide::GetTotal", "Material::GetMicroscopicTotal", "collision rates"])

prop("C16", "Delta tracking and surface tracking are equivalent; the majorant bounds",
 "On every problem both methods accept, surface tracking and cell delta tracking give the same distribution of results. At every position of a cell whose temperature stays within the stated bounds and at every energy, the majorant used by delta tracking is at least the total cross section, and a tentative collision is real with probability total/majorant evaluated at the place where it happens. A virtual collision changes neither direction nor energy nor any tally, and surface tracking of a problem whose temperature varies with position is refused.",
 ["histories", "configurations", "inputs"], "all problems (multigroup, continuous, temperature fields), energies, positions and draws",
 "No test runs delta tracking or a temperature field.",
 ["TransportMethod.cpp", "Continuous.cpp", "ContinuousReaction.cpp", "Material.cpp"],
 [("bernoulli(total/majorant) rejection", "TransportMethod.cpp"), ("GetMajorant at the field's upper bound", "Continuous.cpp")], [],
 ["tallies under <tracking>", "Material::GetMicroscopicTotal/Majorant"])

prop("C17", "Continuous cross sections interpolate their tables and add up",
 "A continuous-energy cross section equals the tabulated value at a tabulated energy, the linear interpolation between neighbouring entries inside the table, and the first or last entry outside it. The nuclide's total is the supplied total where that was evaluated for the requested temperature and no thermal scattering law applies, and otherwise the sum of its reactions; a reaction is then chosen in proportion to its own cross section even where the supplied total differs. A table is never extrapolated and never changed by lookups.",
 ["inputs", "configurations"], "all tables, energies (inside, at, between and outside grid points) and temperatures",
 "The data files are absent from the suite's checkout, so no continuous-energy test runs to its assertions.",
 ["ContinuousMap.hpp", "Continuous.cpp", "ContinuousEvaluation.cpp", "ContinuousReaction.cpp"],
 [("upper_bound + lerp", "ContinuousMap.hpp"), ("GetTotal fallback", "Continuous.cpp")], [],
 ["Nuclide::GetTotal"])

prop("C18", "Data tables are read faithfully and bad files are refused",
 "A one-, two- or three-dimensional data file is read with every axis and every value in its place: the value at indices (i,j,k) is the one stored for the i-th, j-th and k-th axis entries, for axes of any lengths. A missing file, a file that is not HDF5, one lacking the expected content, and one with a different number of dimensions are reported as errors, as is every out-of-range index.",
 ["inputs", "fault_sequences"], "all shapes within bounds, all index tuples, all kinds of malformed file",
 "The suite's data files are placeholders; only the failure on an invalid file is exercised.",
 ["HDF5DataSet.hpp"], [("strides, bounds checks, dimension check", "HDF5DataSet.hpp")], [],
 ["HDF5DataSet<D>::at/GetAxis/ToContinuousMap"])

prop("C19", "Temperature comes from the right place and is honoured by cross sections",
 "The temperature seen by a particle is its cell's own where given (zero included), otherwise the global field evaluated at its position, otherwise 293.6 K. Data are used as evaluated only when the temperature agrees with the evaluation's within one percent in either direction; otherwise the free-gas scattering cross section is the evaluation's rescaled by the ratio of free-gas factors at the two temperatures (where free gas applies: neutrons on hydrogen, or below 500 kT/A; elsewhere unchanged). At zero temperature the factor is one.",
 ["inputs", "configurations"], "all temperatures, fields, positions, energies and mass ratios",
 "No test evaluates a continuous cross section at a second temperature or a field at a position.",
 ["Cell.cpp", "World.cpp", "ScalarField.cpp", "ContinuousEvaluation.cpp", "ContinuousReaction.cpp"],
 [("AssignTemperature; ScalarField::at; IsValid; GetFreeGasScatterAdjustment", "ContinuousReaction.cpp")], [],
 ["Cell::temperature->at", "Nuclide::GetTotal"])

prop("C20", "Free-gas scattering is elastic and keeps thermal equilibrium",
 "A free-gas scatter leaves the particle alive with positive finite energy and unit direction, as an elastic collision with a target nucleus whose velocity follows the Maxwellian of the local temperature weighted by relative speed, isotropic in the centre of mass. At vanishing temperature the outgoing energy is uniform in [((A-1)/(A+1))^2 E, E] and tied to the scattering cosine by two-body kinematics; at equilibrium energy exchange balances: energy is gained on average well below kT and lost well above.",
 ["inputs", "histories"], "all energies, temperatures, mass ratios, directions and draws",
 "No scatter is ever executed in the suite in continuous energy.",
 ["ContinuousReaction.cpp", "Point.cpp", "Particle.cpp"], [("ContinuousScatter::Interact", "ContinuousReaction.cpp")], [],
 ["particle energy and direction after Nuclide::Interact"])

prop("C21", "Thermal scattering follows its tables and stays physical",
 "Below its cutoff energy (and for neutrons only) the scattering cross section is the tabulated one, interpolated linearly in energy and temperature and clamped to the nearest tabulated temperature outside the range. The sampled energy transfer and cosine follow the tabulated cumulative distributions (interpolated linearly in temperature, nearest tabulated temperature outside the range; stochastically between neighbouring energies and energy transfers in proportion to the distance), and the outgoing energy is never negative and the cosine always in [-1,1]. At or above the cutoff the nuclide behaves as if it had no thermal law.",
 ["inputs", "histories"], "all incident energies, temperatures, table shapes/partitions and draws",
 "The thermal data files are absent, so the statistical test cannot run; edges of the tables are not tested at all.",
 ["ThermalScattering.cpp", "ThermalScattering.hpp", "ContinuousReaction.cpp"],
 [("GetTotal, SampleBeta, SampleAlpha, partitions", "ThermalScattering.cpp")], [],
 ["Nuclide::GetTotal", "energy and direction after Nuclide::Interact"])

prop("C22", "Sensitivities never disturb tallies and accumulate per history and bin",
 "Adding perturbations and sensitivities to an input changes no tally result. A sensitivity is scored exactly where its tally scores, in the same bins, with the score multiplied by the indirect effect the particle has accumulated, per perturbation separately; the effect grows only while streaming through materials that contain the perturbed nuclide and starts from zero for each particle. Sensitivities obey the same per-history statistics and merging as tallies.",
 ["histories", "configurations"], "all histories, sets of perturbations and tallies",
 "No test defines a perturbation.",
 ["Perturbation.cpp", "Sensitivity.cpp", "Particle.cpp", "Estimator.cpp"],
 [("indirect_effects updated in Stream", "Perturbation.cpp"), ("score = indirect effect x tally score", "Sensitivity.cpp")],
 [("indirect_effects", "accumulated effect per perturbation", "Particle.hpp")],
 ["tallies and sensitivities in the output"])

prop("C23", "Malformed input is reported as an error, never a crash or silent run",
 "Every input document that breaks the schema, refers to a surface, material, nuclide, perturbation or data file that does not exist, gives a table with the wrong number of entries, lacks data for a listed particle type, or specifies unusable bins is rejected while the problem is being set up, with an exception the caller can catch, whose message names the offender. Well-formed documents, with every optional element present or absent, are accepted.",
 ["fault_sequences", "inputs"], "every single fault at every place of a set of valid documents covering all features; all optional-element combinations",
 "Seven hand-made bad documents are tried.",
 ["XMLDocument.cpp", "World.cpp", "Material.cpp", "CSGSurface.cpp", "Multigroup.cpp", "Interaction.cpp", "Estimator.cpp", "Perturbation.cpp", "Bins.cpp", "Driver.cpp"],
 [("schema validation, name lookups and size checks that throw", "XMLDocument.cpp")], [],
 ["Driver::Create(path)"])

prop("C24", "The program writes exactly the computed results next to its input",
 "Running the program on NAME.xml writes NAME.out beside it, consisting of the number of histories and then, for every estimator in document order, its name, bins, one mean and one standard deviation per bin, and the same for each of its sensitivities, with the values the calculation produced. An existing output file is replaced. Wrong usage or a rejected input ends with a failure status and writes no results, and results that cannot be written are a failure too.",
 ["inputs", "configurations"], "all sets of estimators, bins and sensitivities; all path forms",
 "The program itself is never run by the suite and the report format never compared.",
 ["minimc.cpp", "Estimator.cpp", "Scorable.cpp", "Bins.cpp", "Sensitivity.cpp"],
 [("main; EstimatorSet::to_string", "minimc.cpp")], [],
 ["the .out file and exit status of runminimc"])

prop("C25", "k-eigenvalue iteration preserves the source and converges on k",
 "A k-eigenvalue calculation transports every source particle of every cycle once, builds the next cycle's source from the fission sites, and tallies only active cycles.",
 ["histories"], "all cycles and histories",
 "The suite does not run a k-eigenvalue problem, and at this commit the solver is a stub.",
 ["KEigenvalue.cpp"], [("Solve/StartWorker are unfinished (no worker is ever started)", "KEigenvalue.cpp")], [],
 ["KEigenvalue::Solve"])

prop("C26", "Inputs that say the same give the same results",
 "Results depend on what an input says, not on how it is written: the order of sections and of the settings within one, comments, white space and line breaks, the spelling of numbers, defaults stated or left out, and equal descriptions (directions of another length, atom fractions of another sum, a gradient of zero, equidistant boundaries listed) make no difference. Neither do the names given to things, the order in which surfaces, materials, perturbations, estimators and non-overlapping cells are defined, the chunk size, or definitions which nothing uses (further nuclides, materials, surfaces, perturbations). Adding or reordering estimators changes no other estimator's results.",
 ["inputs", "configurations"], "all rewritings of a document that keep its meaning",
 "Every test reads a document written in one way.",
 ["XMLDocument.cpp", "Driver.cpp", "World.cpp", "Cell.cpp", "Material.cpp", "Multigroup.cpp", "Bins.cpp", "Source.cpp", "ScalarField.cpp", "Estimator.cpp", "Perturbation.cpp"],
 [("children and attributes are looked up by name", "World.cpp")], [],
 ["results of Driver::Create(path)->Solve()"])

prop("C27", "Answers do not depend on what was asked before",
 "Everything a problem can be asked (which cell holds a point, distances to surfaces, temperatures, cross sections and majorants, the nuclide and the outcome of a collision, the particle emitted from a seed, what a tally scores, the solution) depends on that problem and the question only. The answer is the same whatever was asked before and in whatever order: of the same object, of another one, of another problem in the same process, or of one that has been destroyed since. A particle that got somewhere by steps is told what one that was put there directly is told.",
 ["histories", "inputs"], "all sequences of questions to all objects of several problems",
 "Every test asks one object a few questions; state that is kept between questions (a cache, a hint, a static) shows only for particular pairs of them.",
 ["Nuclide.cpp", "Material.cpp", "Continuous.cpp", "ContinuousReaction.cpp", "ContinuousMap.hpp", "Multigroup.cpp", "ThermalScattering.cpp", "CSGSurface.cpp", "Cell.cpp", "World.cpp", "ScalarField.cpp", "Particle.cpp", "Source.cpp", "Bins.cpp", "Estimator.cpp", "FixedSource.cpp"],
 [("const member functions answer from the object's data alone", "Material.cpp")], [("Particle::transport_method", "the only object shared by problems", "Particle.hpp")],
 ["public const member functions of World, Cell, CSGSurface, ScalarField, Nuclide, Material, Source; EstimatorSet; FixedSource::Solve"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
print(len(P))
