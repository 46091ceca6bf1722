#!/usr/bin/env python3
"""source of /verif/properties.jsonl (run: python3 tools/mkprops.py)"""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
      why_tests_cant=why,
      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                   mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

prop("C01", "Momentum arithmetic is exact modular arithmetic in the Brillouin range",
 "Adding or subtracting two internal momenta, or a momentum and an integer of the same range, in any operand order and in compound or plain form, yields the unique representative in [-10000, 10000] that is congruent to the exact integer result modulo 20001; a momentum times +1 or -1 is the momentum or its negative. The table index of a momentum lies in [0, 20000] and distinct momenta have distinct indices, and equality tests agree with equality of representatives.",
 ["inputs"], "every pair of momenta and every integer operand in the representable range",
 "no test touches momentum arithmetic; the domain has 4*10^8 operand pairs and the interesting cases are the wrap-around boundaries",
 ["src/utility/momentum.cpp", "src/utility/momentum.h"],
 [("Shift and the operator overloads", "src/utility/momentum.cpp")], observe=["operators of Momentum"])

prop("C02", "Complex arithmetic satisfies the field equations",
 "Every complex operation (sum, difference, product, quotient, mixed real/complex forms on either side, compound assignment including self-assignment and self-aliasing, conjugate, squared modulus, modulus, phase, principal square root, argument, real power) returns the exact mathematical result for all operands with a non-zero divisor. Compound and binary forms of one operation agree, and operands passed by const reference are unchanged.",
 ["inputs"], "all complex and real operands (double arithmetic read as real arithmetic), including aliased arguments",
 "no test touches complex arithmetic; the identities quantify over all operands and over aliasing",
 ["src/utility/complex.cpp", "src/utility/complex.h"],
 [("operator overloads and inline helpers", "src/utility/complex.cpp, complex.h")], observe=["operators of Complex"])

prop("C03", "The line and vertex pools stay a permutation with exact counts",
 "After any sequence of add, re-add, remove (by handle or by number), recover and pick operations within capacity, every pooled object appears exactly once in the pool's order, each live object carries its own position as its name, and the live count equals additions minus removals. Adding hands out an object that was not live, removing makes exactly the named object not live and keeps every other live object live with an up-to-date name, lookup and random pick return live objects only, and exceeding capacity is refused instead of handing out memory outside the pool.",
 ["inputs", "histories"], "every reachable pool state, every operation and every argument in its precondition, for all three pooled types",
 "the bundle tests run one fixed sequence on one pool type; corruption depends on the order of additions and removals",
 ["src/module/diagram/component_bundle.cpp", "src/module/diagram/component_bundle.h"],
 [("Bundle<T>::Add/Remove/Recover/operator[]/RandomPick/Exist", "src/module/diagram/component_bundle.cpp")],
 state=[("_component_name", "order of the pool: live objects first", "component_bundle.h"), ("_available_space", "number of live objects", "component_bundle.h")])

prop("C04", "The momentum tables record exactly the momenta in use",
 "At every step of the simulation an entry for a fermion-line momentum is set exactly when one live fermion line carries that momentum, an entry for an interaction-line momentum is set exactly when one live interaction line carries plus or minus that momentum, and no interaction line carries momentum zero. Hence no two live fermion lines share a momentum and no two live interaction lines share a momentum up to sign, and no update aborts on a duplicate or missing entry. Clearing the diagram leaves no entry set and nothing live.",
 ["inputs", "histories", "configurations"], "every update from every consistent diagram, accepted, rejected or refused, with every random draw",
 "no test performs an update; a stale entry only shows when a much later proposal collides with it",
 ["src/module/markov/markov.cpp", "src/module/diagram/diagram.cpp"],
 [("AddGHash/RemoveGHash/ReplaceGHash and the W variants", "src/module/markov/markov.cpp"), ("bodies of the updates", "src/module/markov/markov.cpp")],
 state=[("GHash, WHash", "momentum occupancy tables", "src/module/diagram/diagram.h")])

prop("C05", "Every update preserves the diagram's topology",
 "After every update, accepted or not, the diagram is a well-formed Feynman diagram: each live vertex joins exactly one incoming fermion line, one outgoing fermion line and one interaction line, each live line joins two live vertices (a fermion line two vertices on the same site) and both ends agree about the connection and its direction, and a diagram of order n has 2n vertices, 2n fermion lines and n interaction lines. Exactly one line is the measuring line and the bookkeeping that names it points at it, worm ends are two different live vertices, a local interaction line joins equal times and is never the measuring line, and all sites and times stay inside the lattice and [0, Beta).",
 ["inputs", "histories", "configurations"], "every update from every consistent diagram of any order below the cap, with every random draw",
 "no test performs an update; the property must hold after arbitrarily long update histories, which only an inductive argument reaches",
 ["src/module/markov/markov.cpp", "src/module/markov/gamma3_updates.cpp", "src/module/diagram/diagram.cpp", "src/module/diagram/component.cpp", "src/module/diagram/diagram.h"],
 [("bodies of the updates", "src/module/markov/markov.cpp"), ("pools", "src/module/diagram/component_bundle.cpp")])

prop("C06", "Momentum is conserved at every vertex after every update",
 "After every update, at each vertex the incoming fermion momentum minus the outgoing one equals the interaction momentum leaving the vertex, modulo the Brillouin period, with the worm's momentum entering and leaving only at the two worm ends while a worm exists.",
 ["inputs", "histories", "configurations"], "every update from every consistent diagram, every momentum assignment and every random draw",
 "no test performs an update; a sign slip shows only for particular line directions and worm placements",
 ["src/module/markov/markov.cpp", "src/module/diagram/diagram_check.cpp"],
 [("momentum assignments in the updates", "src/module/markov/markov.cpp"), ("modular momentum operators", "src/utility/momentum.cpp")])

prop("C07", "Spin labels stay consistent along every line after every update",
 "After every update both ends of each fermion line carry the same spin, the spin entering and leaving balances across every interaction line that no worm end touches, and each worm end shifts the balance of its interaction line by exactly the worm's spin, the two ends with opposite signs, and an interaction line is flagged as touching the worm exactly when one of its ends is a worm end while a worm exists.",
 ["inputs", "histories", "configurations"], "every update from every consistent diagram with every spin assignment and every random draw",
 "no test performs an update; wrong flips appear only in particular combinations of spins and directions",
 ["src/module/markov/markov.cpp", "src/module/diagram/component.cpp", "src/module/diagram/diagram_check.cpp"],
 [("spin flips in CreateWorm, MoveWorm*, Reconnect, AddInteraction", "src/module/markov/markov.cpp")])

prop("C08", "Cached weights, total weight and phase always match the diagram",
 "After every update each live line's stored weight equals the propagator or interaction evaluated at the line's current end points, spins, worm/measure/local flags and vertex-function point; the diagram's total weight changes by exactly the product of new line weights over old ones times the order and fermion-loop sign factors, and the stored phase is the phase of that weight. The stored fermion-loop sign and order agree with the diagram. Rebuilding a diagram without vertex-function lines after its tables were exchanged restores every link, flag, cached weight, the total weight, its phase and the order (the number of interaction lines) from the lines' end points alone.",
 ["inputs", "histories", "configurations"], "every update from every consistent diagram, for arbitrary propagator and interaction tables",
 "no test performs an update; with the symmetric test tables a missing reweighting is invisible, and drift accumulates over histories",
 ["src/module/markov/markov.cpp", "src/module/markov/gamma3_updates.cpp", "src/module/diagram/diagram.cpp"],
 [("weight evaluation and ratio in each update", "src/module/markov/markov.cpp")],
 state=[("Diag.Weight, Diag.Phase, SignFermiLoop, Order", "total weight bookkeeping", "src/module/diagram/diagram.h")])

prop("C09", "Every accept/reject decision satisfies detailed balance",
 "Each update is accepted exactly when the drawn uniform number is below the absolute weight ratio times the ratio of reverse to forward proposal probabilities, including selection probabilities, order, worm, interaction-type and measuring-sector reweighting factors, and the density of every continuous and discrete random choice. For every update and its reverse the product of the two ratios is one, and accepted moves change the state to the proposed one while rejected moves do not.",
 ["inputs", "histories", "configurations"], "every update and its reverse from every consistent diagram, every table, reweighting factor and random draw",
 "no test performs an update; a wrong factor gives a plausible but biased simulation whose error no sampled run can attribute",
 ["src/module/markov/markov.cpp", "src/module/markov/gamma3_updates.cpp"],
 [("prob computation in each update", "src/module/markov/markov.cpp"), ("ProbTau, ProbSite, ProbofCall", "src/module/markov/markov.cpp")])

prop("C10", "Refused and rejected moves change nothing but the attempt counters",
 "When an update is refused because it does not apply, the diagram, worm, momentum tables and counters are unchanged; when it is proposed and rejected only its attempt counter at the current order grows by one (and, for vertex-function moves, the external-point scratch value); when accepted both the attempt and the acceptance counter of that update at the order before the move grow by one. Each step of the chain runs exactly the update selected by the configured probabilities and advances the step counter by one.",
 ["inputs", "histories", "configurations"], "every update from every consistent diagram, on every refusing and rejecting path",
 "no test performs an update; a partial write on an early-return path is invisible until later",
 ["src/module/markov/markov.cpp", "src/module/markov/gamma3_updates.cpp"],
 [("guards and undo code in each update, Hop dispatch", "src/module/markov/markov.cpp")])

prop("C11", "Lattice coordinates and indices are in bijection and translation invariant",
 "For every lattice size, turning a coordinate vector inside the lattice into an index and back gives the same vector, every index in [0, volume) comes back from its vector, and distinct vectors have distinct indices. The displacement index of two sites inside the lattice lies in [0, volume), depends only on the displacement modulo the lattice size, is zero exactly for equal coordinates, and site comparison agrees with equality of sublattice and all coordinates.",
 ["inputs", "configurations"], "all lattice sizes and all pairs of sites inside the lattice",
 "the lattice test checks vector initialisation and one sum only; index arithmetic is checked nowhere",
 ["src/lattice/lattice.cpp", "src/lattice/lattice.h", "src/utility/vector.h", "src/utility/vector.cpp"],
 [("Vec2Index/Index2Vec/Shift/CoordiIndex", "src/lattice/lattice.cpp")])

prop("C12", "Weight-table indexing is in bounds and collision free",
 "For every lattice, sublattice count, time-bin count and temperature, every combination of spins, sites and times inside their domains maps to an index inside the table, and two combinations share an index only if their spins, sublattices, displacement and (for non-local tables) time bin all agree. The time bin of a time difference is the floor of its offset in bins with negative differences wrapped by one period (differences strictly inside (-Beta, Beta)), the centre of a bin maps back to that bin, and a time difference of a non-positive argument carries the symmetry sign of its table while a positive one carries plus one.",
 ["inputs", "configurations"], "all lattices, table shapes, temperatures, spins, sites and times in [0, Beta)",
 "no stable test reads a weight table; aliasing of two entries silently mixes physical channels",
 ["src/module/weight/index_map.cpp", "src/module/weight/index_map.h", "src/lattice/lattice.cpp"],
 [("IndexMap*::GetIndex, TauIndex, _UpdateCache, GetTauSymmetryFactor", "src/module/weight/index_map.cpp")])

prop("C13", "Propagator and interaction look-ups are consistent between their forms",
 "Evaluating a fermion or interaction line from either of its ends with the matching direction gives the same value as evaluating it from in to out, and that value is the table entry of the line's spins, sites and times with the time-symmetry sign applied for non-measuring fermion lines. A measuring line reads the measuring table, a local line reads the equal-time table and ignores times, a worm-touching line reads its spin-up entry regardless of spins, and no look-up changes any table.",
 ["inputs", "configurations"], "all sites, times, spins and flag combinations a diagram can contain, and arbitrary table contents",
 "no stable test evaluates a line weight; the shipped tables are too symmetric to tell the two directions apart",
 ["src/module/weight/component_MC.cpp", "src/module/weight/component.h", "src/module/weight/index_map.cpp"],
 [("GClass::Weight, WClass::Weight overloads", "src/module/weight/component_MC.cpp")])

prop("C14", "Histogram estimators accumulate exactly what is measured",
 "Measuring adds the given weight, with the time-symmetry sign for the self-energy, to exactly the bin of the measured order, spins, sites and time and to no other bin; distinct orders never share a bin. Clearing zeroes everything, squeezing divides both the histogram and its normalisation by the same positive factor so that their ratio is unchanged, and element-wise array operations act on every element and nothing else.",
 ["inputs", "histories", "configurations"], "all shapes, orders, indices, weights and operation sequences",
 "no stable test exercises the estimators",
 ["src/module/weight/weight_estimator.cpp", "src/module/weight/weight_array.cpp", "src/module/weight/weight_array.h", "src/module/weight/component_MC.cpp"],
 [("WeightEstimator::Measure/SqueezeStatistics/ClearStatistics, WeightArray::Assign/operator*=", "src/module/weight")])

prop("C15", "Scalar estimators report the exact mean and a bounded faithful history",
 "A scalar estimator's value is the sum of all measured samples and its norm their number plus the initial one, both scaled by the squeeze factors, and its estimate's mean is their quotient and its error half the spread of the last two thirds of the history (the first entry of that part may be one entry early when rounding makes a third fractionally smaller). The history never grows beyond its capacity, each recorded entry is the running mean at the moment it is recorded, and thinning keeps exactly every second entry in order.",
 ["inputs", "histories"], "every sequence of measure, record, squeeze and clear operations and every history length up to capacity",
 "no stable test exercises the estimator; capacity is reached only after 10000 recordings",
 ["src/estimator/estimator.cpp", "src/estimator/estimator.h"],
 [("Estimator<T>::Measure/AddStatistics/_update/SqueezeStatistics/ClearStatistics", "src/estimator/estimator.cpp")])

prop("C16", "Random proposals stay inside their domains with the stated densities",
 "The uniform generator returns values in [0, 1) and the integer generator returns values between its bounds inclusive, for every engine output. Every random pick used by the updates (time, site, spin, direction, momentum, worm and vertex picks) returns a value inside its domain, every value of a discrete domain is returned for the right share of generator outputs, and the probability factor attached to a pick is the reciprocal of its domain size.",
 ["inputs"], "every 32-bit engine output and every domain (lattice size, temperature)",
 "the generator test samples means and bounds; boundary engine outputs have probability 2^-32",
 ["src/utility/rng.h", "src/module/markov/markov.cpp"],
 [("RandomFactory::urn/irn; RandomPickTau/RandomPickSite/... and ProbTau/ProbSite", "src/utility/rng.h, src/module/markov/markov.cpp")])

prop("C17", "Measurements go to the sector and bin of the current diagram",
 "Every measurement counts the visited configuration exactly once, at its order, among the worm or the physical configurations. Physical quantities are recorded only when no worm exists, and each such call contributes to exactly one sector: the normalisation at order zero (of the self-energy or the polarisation, with its vertex function when those are simulated, as the measuring line is a fermion or an interaction line), the self-energy or the polarisation when the measuring line is a fermion or interaction line, or the matching vertex function when a vertex-function line is present. The contribution is the diagram's phase (negated for the polarisation) divided by the reweighting factor of its order and, for a vertex function, that sector's factor, booked at the diagram's order, at the end points and spins of the measuring line and, for a vertex function, its external point. Squeezing the statistics divides every recorded statistic by the factor exactly once.",
 ["inputs", "configurations"], "every worm and worm-free diagram of every order and every reweighting setting",
 "no test runs the monitor",
 ["src/module/markov/markov_monitor.cpp"],
 [("MarkovMonitor::Measure, SqueezeStatistics", "src/module/markov/markov_monitor.cpp")], observe=["estimators of the monitor", "Weight.Sigma/Polar/GammaG/GammaW statistics"])

prop("C18", "Vertex-function tables are addressed consistently and in bounds",
 "For every lattice, bin count and choice of sites, spins and times inside their domains the vertex-function look-up and its measurement address the same element, which lies inside the table and is determined by the spin channel, the displacements from the external point and the time bins relative to it; the value carries the sign of each time that wraps around, or the conjugation and symmetry factor its configured symmetry tables prescribe. A measurement changes that element and no other, and two sets of arguments share an element only if they agree in channel group, displacements and time bins up to the configured symmetry tables. Normalising, clearing and squeezing change all and only the statistics they name.",
 ["inputs", "configurations"], "all lattices, table shapes, spins, sites, times and symmetry tables",
 "no stable test reads or writes the vertex-function tables",
 ["src/module/weight/gamma3.cpp", "src/module/weight/gamma3.h"],
 [("GammaGClass/GammaWClass Weight and Measure", "src/module/weight/gamma3.cpp")])

prop("C19", "Simulation state survives a save and restore",
 "Saving parameters, diagram, generator state, estimators and weights and restoring them into a fresh simulation continues exactly the interrupted simulation.",
 ["histories", "crash_points"], "every reachable state at the moment of saving",
 "no test saves and restores a run",
 ["src/module/diagram/diagram_IO.cpp", "src/module/parameter/parameter.cpp", "src/utility/dictionary.cpp", "src/environment/envMonteCarlo.cpp", "hickle.py", "IO.py"],
 [("ToDict/FromDict of each component", "src/module, src/utility/dictionary.cpp")])

prop("C20", "The Dyson solver and job scripts reach the self-consistent solution",
 "Iterating the self-consistency equations from the measured self-energy and polarisation, with the driver scripts exchanging files with running workers, converges to propagators that satisfy the Dyson equations.",
 ["inputs", "schedules"], "all measured inputs and all interleavings of workers and the solver",
 "no test runs the Python side",
 ["dyson", "job_manager.py", "IO.py"],
 [("dyson solver main loop", "dyson"), ("job manager", "job_manager.py")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
