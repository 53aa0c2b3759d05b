#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (len(title), title)
    a = {"files": ["src/" + f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("M01", "Grid connectivity is exact and mutually consistent for every grid size",
  "For every grid width and height, nodes and elements sit at their lattice positions, every node lists exactly its left, right, lower and upper neighbours (with one agreed out-of-bounds marker where there is none) and exactly the elements that touch it, and every element lists its four corners anticlockwise. Neighbour relations are symmetric, node-element relations are mutual, the coordinate lookup inverts the coordinates, and exactly the nodes on the rim are flagged as lying on the domain boundary.",
  ["configurations"], "all grid widths and heights >= 1, square or not",
  "The tests look at a couple of fixed small grids; index arithmetic errors appear only for non-square or degenerate sizes.",
  ["Mesh.cpp", "Mesh.h"], [("node, neighbour and element initialisation", "Mesh::initialiseNodes, initialiseNeighbours, initialiseElements")])

p("M02", "Point location returns the containing cell and a nearest node for any point",
  "For every point of the closed domain, the cell reported for it contains the point, and the node reported for it is at the minimum distance over all nodes (up to the small documented tolerance used to break ties). The two ways of passing the point (as a coordinate or as two numbers) always agree.",
  ["inputs", "configurations"], "all points of the domain including its rim, grid lines, cell centres and points within the tolerance of them; all grid sizes",
  "The coordinate-mapping test samples a few points of one grid; ties, rim points and non-square grids are not exercised and every later stage silently depends on the answer.",
  ["Mesh.cpp"], [("containing element", "Mesh::getElement (two overloads)"), ("closest node by quadrant", "Mesh::getClosestNode (two overloads)")])

p("H01", "The priority queue is correct through any sequence of operations",
  "For any sequence of insertions, removals and re-prioritisations within its capacity, the queue reports the right size and emptiness, always exposes and removes an entry of minimum current value with the address it was inserted with, and honours a re-prioritisation made through the handle returned at insertion. Every inserted entry is removed exactly once, and the queue's built-in self-test accepts every state it reaches.",
  ["histories"], "all interleavings of push, pop, set, peek and size, with ties, increases, decreases and refills after draining",
  "Three tests push and pop a handful of fixed values; ordering faults need particular tree shapes and re-prioritisation sequences.",
  ["Heap.cpp", "Heap.h"], [("sifting and back-pointers", "Heap::push, pop, set, siftUp, siftDown"), ("self test", "Heap::test")])

p("L01", "Initial structures made from holes match the described geometry",
  "A structure created from circular holes has, at every grid point, the value min(distance to the nearest domain edge, distance to the rim of each hole), negative inside a hole, so that material is present exactly outside the union of the holes. The default structure is the regular two-grid arrangement of radius-5 holes scaled to the grid, and a hole-based target is the reinitialised distance function of its own holes, independent of the initial structure.",
  ["inputs", "configurations"], "all hole lists (overlapping, touching or crossing the rim, or none), all grid sizes for which the default arrangement exists, all constructor forms",
  "No test compares an initial field with geometry; the existing level-set test checks one fixed hole.",
  ["LevelSet.cpp", "Hole.cpp"], [("hole and default initialisation", "LevelSet::initialise overloads, closestDomainBoundary"), ("target construction", "LevelSet constructors")])

p("L02", "Initial, target and masked polygon shapes match the polygon exactly",
  "For a closed piecewise-linear outline of either orientation (one that crosses itself contains all that it winds around), every grid point is classified inside or outside the outline correctly however short or long its edges are, the field's magnitude is the smaller of the distance to the outline and the distance to the nearest domain edge, and it is negative exactly inside. A polygon target is the reinitialised distance function of that outline, and polygon masks select exactly the enclosed grid points; the void of any mask reaches up to its outermost grid points and material beyond it stays where it was.",
  ["inputs", "configurations"], "all simple closed outlines (convex or not, edges from a small fraction of a cell to the whole domain, axis-parallel edges, vertices level with grid points)",
  "No test uses a polygon at all; misclassification shows only for particular edge lengths and positions.",
  ["LevelSet.cpp"], [("winding number", "LevelSet::isInsidePolygon, isLeftOfLine"), ("segment distance", "LevelSet::pointToLineDistance"), ("masking", "LevelSet::mask")])

p("L03", "Narrow-band bookkeeping is exact after every operation that rebuilds it",
  "After construction, masking, reinitialisation or an update that reinitialises, the band holds each grid point once if and only if it is free to move (not masked, not on a fixed domain boundary) and closer to the interface than the band width; the early-warning points are exactly the band members further away than the band width minus one. The per-point activity and warning flags and the two counts agree with those lists, whatever happened before.",
  ["histories", "configurations"], "all sequences of construct, mask, update and reinitialise; all band widths, fixed or free domain",
  "No test inspects the band; stale flags and list growth appear only after several operations or when many points qualify.",
  ["LevelSet.cpp"], [("band construction", "LevelSet::initialiseNarrowBand")],
  [("narrowBand, mines", "band members and early-warning members", "LevelSet.h"), ("isActive, isMine", "per-node flags", "Mesh.h")])

p("L04", "Masked regions, fixed rims and the domain edge are never crossed by material",
  "Masking selects exactly the grid points inside the given circles, rectangle or outline. Once masked, a grid point never becomes material again and takes no part in later motion, whatever velocities are applied. With a fixed domain boundary the rim values never change through updates and keep their sides (and zeros) through reinitialisations, and with a free one no rim point ever becomes strictly material after an update.",
  ["histories", "inputs"], "all masks (circles, rectangles, polygons), all velocity fields including ones pushing material outwards, any number of update and reinitialise steps",
  "Masks and fixed domains have no tests; the guarantee is about every later step, not one call.",
  ["LevelSet.cpp", "Boundary.cpp"], [("masking", "LevelSet::mask"), ("rim condition", "LevelSet::update"), ("band exclusion", "LevelSet::initialiseNarrowBand")])

p("F01", "Reinitialisation keeps the interface where it is",
  "Reinitialising never changes the sign of any grid point or moves the interface off the cell edges it crosses: points with value exactly zero stay zero, and each point next to the interface gets the distance implied by the linearly interpolated crossings on its own grid lines. Values depend only on the interface, not on how the input was scaled away from it.",
  ["inputs"], "all level-set fields with at least one sign change or zero, including non-distance fields, nearly-zero values (down to 1e-100 of their neighbours) and discontinuous fields",
  "The one fast-marching test checks a 4x4 grid; sign flips and corruption at particular stencil configurations need many shapes.",
  ["FastMarchingMethod.cpp", "LevelSet.cpp"], [("frozen front", "FastMarchingMethod::initialiseFrozen"), ("root selection", "FastMarchingMethod::solveQuadratic")])

p("F02", "Reinitialisation yields an accurate distance function everywhere",
  "After reinitialisation every grid point holds the signed distance to the interface: it solves the discrete second-order upwind distance equation outwards from the interface in order of distance, agrees with the true distance to within a fraction of a cell plus the accumulated truncation error, and values of neighbouring points never differ by appreciably more than their spacing.",
  ["inputs", "configurations"], "all interfaces (circles, polygons, smooth random contours, several components), all grid shapes, any starting values away from the interface",
  "The test fixes a single tiny configuration; the solver's ordering, stencil selection and fallback paths depend on the global shape.",
  ["FastMarchingMethod.cpp", "Heap.cpp"], [("upwind update and marching order", "FastMarchingMethod::updateNode, solve, initialiseTrial")])

p("F03", "Reinitialisation is symmetric in directions and phases and keeps no memory",
  "Reflecting, transposing or rotating the input by a quarter turn transforms the reinitialised field in the same way, and swapping material with void negates it. Running the solver again, on the same or another field, gives what a freshly created solver gives.",
  ["inputs", "histories"], "all fields; the eight symmetries of the square and negation; repeated use of one solver object",
  "Symmetry and reuse are relations between runs; a unit test on one field cannot express them.",
  ["FastMarchingMethod.cpp"], [("stencils per direction", "FastMarchingMethod::updateNode, initialiseFrozen"), ("solver state", "FastMarchingMethod::march")])

p("V01", "Velocity extension is bounded by and linear in the boundary velocities",
  "Extending boundary velocities leaves the level set bit-for-bit unchanged; next to the boundary a grid point gets the inverse-square-distance weighted mean of the velocities of the boundary points within one cell (exactly that of a point lying on it), and further out, throughout the band, the value is constant along the direction to the interface. Hence extended velocities never leave the range of the boundary velocities near them, a uniform velocity stays uniform (on free domains), and the extension is linear in the boundary velocities, also beside masked or fixed regions; a fixed rim counts as an interface at rest.",
  ["inputs", "configurations"], "all boundaries and velocity assignments, masks, fixed domains, points on nodes, band widths",
  "Velocity extension has no test; blow-ups appear only for boundary points close to inactive grid points.",
  ["LevelSet.cpp", "FastMarchingMethod.cpp"], [("mapping to nodes", "LevelSet::initialiseVelocities"), ("extension", "FastMarchingMethod::march with velocity, finaliseVelocity")])

p("B01", "The discretised boundary is a set of closed curves with consistent connectivity",
  "Every boundary is made of closed curves (open only where the interface meets a domain edge): each point joins as many incoming as outgoing segments once segments are oriented with material on one side. Every point's own lists of its segments and of its neighbouring points agree exactly with the segment list, every cell lists exactly the segments lying in it and every grid point the boundary points on its own edges, and no point is duplicated or orphaned.",
  ["inputs", "configurations"], "all level sets, including interfaces passing through grid points, along grid lines, diagonally, saddle cells, pinch points, masked and fixed regions; repeated discretisation of one object",
  "Tests cover single cells and one circle; connectivity faults need rare cell configurations or reuse.",
  ["Boundary.cpp"], [("cell cases", "Boundary::discretise"), ("point sharing", "Boundary::isAdded"), ("back references", "Boundary::computePointLengths")])

p("B02", "Boundary points and lengths are those of the interpolated zero contour",
  "Boundary points lie exactly on the zero of the field interpolated linearly along grid edges (or on grid points that are zero to tolerance), every sign-changing edge of the band carries one, and the segments are those of the piecewise-linear contour, resolving ambiguous cells by the cell-centre average. Segment lengths, the total length and the integral length of each point are mutually consistent, so point lengths sum to the total, for both the current and the target field.",
  ["inputs", "configurations"], "all level sets and targets, all cell configurations including degenerate ones",
  "Fixed tests check a dozen hand-picked cells; sums, sharing and the target option need whole random boundaries.",
  ["Boundary.cpp"], [("intersection points", "Boundary::discretise"), ("lengths", "Boundary::segmentLength, computePointLengths")])

p("B03", "Area fractions equal the material area enclosed by the boundary",
  "Every cell's area fraction lies between zero and one and equals the area of the part of the cell on the material side of the boundary; the returned total is the sum over cells and equals the area enclosed by the oriented boundary. Replacing material by void gives the complementary fractions, except in cells with the contour along an edge.",
  ["inputs", "configurations"], "all discretised boundaries including ambiguous cells, contours through grid points and along grid lines, masked regions",
  "One test checks fixed fractions; polygon ordering and vertex selection have dozens of cases.",
  ["LevelSet.cpp"], [("cell clipping", "LevelSet::computeAreaFractions, cutArea, polygonArea, isClockwise")])

p("B04", "Boundary normals are finite, unit length, inward and accurate",
  "Every boundary point at which the field has a gradient gets a unit normal pointing from void into material, accurate for smooth interfaces, and depending only on the current level set and boundary. No boundary point, including ones on masked regions or domain edges or where the gradient cancels, ever receives a non-finite normal.",
  ["inputs", "configurations"], "all boundaries: smooth shapes with known normals, corners, thin features, masked and fixed regions, large boundaries",
  "Normals have no tests.",
  ["Boundary.cpp"], [("gradient interpolation", "Boundary::computeNormalVectors")])

p("B05", "Boundary points carry the right movement limits and fixed/domain flags",
  "Every boundary point may move by the configured move limit in either direction, except that motion towards the domain edge is limited to the distance to the nearest edge and motion near a masked grid point to the distance to it. Points within tolerance of the domain edge, and only those, are flagged as domain points; points on a masked grid point, and only those, are flagged as fixed.",
  ["inputs", "configurations"], "all boundaries near and away from edges and masks, all move limits",
  "No test reads the limits; they matter only near edges and masks.",
  ["Boundary.cpp"], [("limits", "Boundary::initialisePoint")])

p("G01", "Level-set gradients follow the fifth-order upwind scheme at every grid position",
  "The gradient modulus is exact for linear fields and converges with high order for smooth ones, uses information from the side the interface moves from, equals the fifth-order WENO/Godunov value with replicated end differences at every position relative to the domain edges, and is zero outside the band. Reflections and transposition of the inputs transform it accordingly, and corner points with equal neighbours use the diagonal.",
  ["inputs", "configurations"], "all fields and velocity signs, every distance of a point from every edge and corner, grids at least four cells wide",
  "Gradients have no tests; each of the two dozen edge stencils is a separate branch.",
  ["LevelSet.cpp"], [("stencils", "LevelSet::computeGradient"), ("WENO weights", "LevelSet::gradHJWENO")])

p("U01", "An update applies exactly the level-set equation and reports reinitialisation",
  "One update subtracts time step times gradient times velocity from every band point, clamps rim points at zero, and changes no other point. It reports true exactly when afterwards some early-warning point is within one cell of the interface, and then the field has been reinitialised and the band rebuilt; otherwise it reports false and leaves band and field otherwise alone.",
  ["inputs", "histories"], "all fields, velocities and time steps, short and long histories with and without reinitialisation",
  "update has no test.",
  ["LevelSet.cpp"], [("update rule and trigger", "LevelSet::update")])

p("U02", "Moving the boundary changes the enclosed area and shape at the prescribed rate",
  "Over any number of steps, the full cycle of discretising, extending velocities, computing gradients and updating moves the interface along its inward normal by velocity times elapsed time: a circle under uniform velocity stays a circle of the expected radius, and each step changes the enclosed area by minus the integral of velocity over the boundary times the time step, within discretisation error. Interfaces with zero velocity do not drift.",
  ["histories", "inputs"], "all step counts (crossing several reinitialisations), signs and sizes of velocity within the move limit, shapes resolved by the grid (features thicker than about a cell and a half)",
  "No test advances the interface by even one step.",
  ["LevelSet.cpp", "Boundary.cpp", "FastMarchingMethod.cpp"], [("evolution cycle", "LevelSet::computeVelocities, computeGradients, update; Boundary::discretise")])

p("N01", "Thermal noise has the prescribed strength and respects the move limit",
  "With temperature T and time step dt each boundary velocity receives independent Gaussian noise of mean zero and variance 2T/(dt x point length), drawn from the supplied generator; T = 0 changes nothing and gives the deterministic result. When typical noise would exceed half the move limit the time step is divided by the returned factor, which is the one that brings it exactly to that limit; otherwise the factor is one and the time step is untouched.",
  ["inputs", "histories"], "all temperatures >= 0, time steps, move limits, positive point lengths and generator states",
  "Noise has no test; a wrong factor is only visible statistically.",
  ["LevelSet.cpp", "MersenneTwister.h"], [("noise and time-step scaling", "LevelSet::computeVelocities with temperature")])

p("S01", "Sensitivities are central differences per unit length and leave no trace",
  "The sensitivity of any user function at a boundary point is its central difference quotient along the point's normal with the configured step, divided by the point's integral length: exact for functions up to quadratic, second-order accurate otherwise. The function is evaluated once at each of the two displaced positions of that very point, and afterwards the point is bitwise what it was.",
  ["inputs"], "all callback functions, steps, normals and positive lengths",
  "Sensitivities have no test.",
  ["Sensitivity.cpp"], [("central difference", "Sensitivity::computeSensitivity")])

p("S02", "The Ito correction subtracts the perimeter-derivative term for temperature",
  "The correction changes only the objective sensitivity of each boundary point, by minus T times the local perimeter derivative per unit length (the curvature) over twice the point length; it is linear in T, does nothing at T = 0, and leaves constraint sensitivities, positions and connectivity untouched. On circles the term has the sign and size of the curvature, and supplying precomputed normals or letting it compute them gives the same result.",
  ["inputs"], "all boundaries, temperatures and prior sensitivities",
  "The correction has no test.",
  ["Sensitivity.cpp", "Boundary.cpp"], [("correction", "Sensitivity::itoCorrection"), ("local perimeter", "Boundary::computePerimeter")])

p("I01", "A saved level set loads back identically",
  "Saving and loading a level set in binary form restores every value bit for bit, and in text form (with or without coordinates) to the six printed decimals, for every grid size, value range and file index, through either naming scheme. Loading changes only the level-set values.",
  ["inputs", "configurations"], "all grids, values (tiny, huge, negative, exact), indices, directories, with and without coordinates",
  "Input and output have no tests.",
  ["InputOutput.cpp"], [("save and load", "InputOutput::saveLevelSetTXT/BIN, loadLevelSetTXT/BIN")])

p("I02", "Exported files describe exactly the data in memory",
  "Every exported file has the documented layout and contains exactly the current nodal values, boundary points and lengths, segment end points or cell areas, in order, to six decimals; optional velocity, gradient and coordinate columns appear exactly when asked for. The numbered form writes the same bytes as the named form under the zero-padded documented name inside the given directory.",
  ["inputs", "configurations"], "all exporters, option combinations, indices (including more than four digits), directories and grids",
  "Input and output have no tests.",
  ["InputOutput.cpp"], [("exporters", "InputOutput::save*")])

p("I03", "Missing, damaged or unwritable files are refused without damage",
  "Loading a missing, truncated, oversized or malformed file, or one of another column layout, either fills every level-set value from the file or stops the program with an error message and failure status; so does saving to a file that cannot be opened or written completely. It never reads or writes outside the level set and never silently continues with partially loaded data.",
  ["fault_sequences", "inputs"], "all truncation points and corruptions of valid files, wrong grid sizes, wrong column layout, empty and missing files",
  "No test loads a file, let alone a damaged one.",
  ["InputOutput.cpp"], [("size checks", "InputOutput::loadLevelSetTXT, loadLevelSetBIN")])

p("R01", "A generator's stream is determined by its seed alone",
  "After seeding with a given value the generator produces one fixed stream of uniform, integer and normal numbers for a given call sequence, whatever was drawn before the seeding, and reports that seed; unseeded generators report the seed that reproduces them.",
  ["histories", "inputs"], "all seeds and all sequences of draws before and after seeding",
  "The generator has no tests; hidden state left over from earlier draws needs particular histories.",
  ["MersenneTwister.h"], [("seeding", "MersenneTwister::setSeed, constructor")])

p("R02", "Random numbers have the promised ranges and distributions",
  "Uniform numbers lie in [0,1) and are uniform, integers cover exactly the inclusive range asked for and are uniform on it, and normal numbers have the requested mean and standard deviation and the Gaussian shape; successive numbers are uncorrelated.",
  ["inputs"], "all ranges (including single values, negative and full-width ones), means and deviations, all seeds",
  "The generator has no tests; distributions are statistical.",
  ["MersenneTwister.h"], [("distributions", "MersenneTwister::operator(), integer, normal")])

p("O01", "Optimised displacements respect move limits, domain edges and fixed points",
  "Whatever optimum the numerical optimiser returns, no boundary point is displaced by more than the move limit, points on the domain edge are not moved outwards beyond their own limit, and fixed points are not displaced. The effective time step is the magnitude of the objective multiplier and each velocity is the displacement divided by it, with the displacement being the multiplier-weighted sum of the sensitivities.",
  ["inputs", "configurations"], "all sensitivities, lengths, constraints, starting multipliers and optimiser answers, including ones that exceed the limit",
  "The optimiser interface has no tests.",
  ["Optimise.cpp", "Optimise.h"], [("limits and rescaling", "Optimise::computeLambdaLimits, computeDisplacements, rescaleDisplacements, solve")])

p("O02", "The optimisation problem posed is the linearised one, with consistent gradients",
  "The functions handed to the numerical optimiser are the scaled first-order changes of the objective and of each active constraint minus its target change, evaluated on the displacements of the given multipliers; their gradients equal the derivatives of those functions wherever no domain limit is active, scaled by one positive factor per function and multiplier, and functions without any sensitivity stay finite. Objective sense, equality or inequality type and multiplier bounds match the request, and the search starts from the multipliers handed in when they are within bounds. Stating a function in other units (its sensitivities and target times a factor, its estimate divided by it) poses the same problem and moves the boundary the same way.",
  ["inputs", "configurations"], "all numbers of constraints, types, senses and patterns of inactive constraints; all multipliers within bounds",
  "The optimiser interface has no tests; index mapping errors appear only when particular constraints drop out.",
  ["Optimise.cpp"], [("function and gradient callbacks", "Optimise::callback, computeFunction, computeGradients, computeScaleFactors")])

p("O03", "Constraints are scaled or dropped correctly and results map back to the caller",
  "Inequality constraints that no admissible displacement can violate are left out, and constraints too far away to reach are aimed at the reachable extreme (to within a percent); all others are posed unchanged. On return every multiplier sits in its own constraint's place (zero for constraints left out), the reported objective change equals the first-order change of the returned displacements, and reducing targets after a round-off failure leads to a solution; with no constraint left to reduce the best multipliers found are used. The return code reported is that of the optimiser's last attempt.",
  ["inputs", "fault_sequences"], "all constraint distances, types, numbers of constraints, patterns of dropped constraints, and optimiser failures by exception",
  "The optimiser interface has no tests.",
  ["Optimise.cpp"], [("constraint handling and remapping", "Optimise::computeConstraintDistances, solve")])

p("X01", "No use of the library corrupts memory or runs into undefined behaviour",
  "Any sequence of public operations on valid objects, including degenerate geometries (interfaces through grid points, thin and pinched features, empty cells, masks, fixed rims, large grids, freshly loaded fields) completes without out-of-bounds access, use of stale memory, leak of solver state, arithmetic undefined behaviour or stack exhaustion. It either completes or stops with one of the documented error messages.",
  ["histories", "inputs", "configurations"], "all call sequences over the public classes and all fields, valid or degenerate",
  "Tests run without instrumentation on a few benign inputs; silent overruns pass them.",
  ["Mesh.cpp", "LevelSet.cpp", "Boundary.cpp", "FastMarchingMethod.cpp", "Heap.cpp", "Sensitivity.cpp"], [("fixed-capacity lists and stencils", "Boundary::discretise, computePointLengths; LevelSet::computeGradient, cutArea; Heap::push")])

p("E01", "Invalid requests are refused with an error and valid ones are accepted",
  "Every documented precondition is enforced: a band width below three, a move limit outside (0,1), a grid too small for the default structure or for the gradient stencil, marching a field without an interface, overfilling or emptying the priority queue, a target that doesn't exist, and optimiser requests without points, with missing or miscounted constraint distances, or refused by the solver as invalid each stop the program with a message and a failure status before any damage. Requests just inside the limits are carried out.",
  ["inputs", "configurations"], "all constructors and entry points with documented preconditions, values on both sides of every limit including NaN and infinities",
  "The tests never make an invalid request, as it would end the test program.",
  ["LevelSet.cpp", "FastMarchingMethod.cpp", "Heap.cpp", "Optimise.cpp", "Boundary.cpp", "Debug.h"], [("argument checks", "slsm_check in every constructor and entry point")])

p("X02", "Results are reproducible bit for bit and depend only on inputs and seed",
  "Repeating a computation with the same inputs and seed gives bit-identical fields, boundaries, areas, normals, velocities, random trajectories and files, regardless of process, memory contents and unrelated earlier work, and discretising or measuring twice gives the same answer as once. No result depends on uninitialised memory.",
  ["histories", "configurations"], "all pipelines; different processes, heap fill patterns, object reuse histories",
  "Tests run once in one process and cannot see dependence on memory contents or history.",
  ["Mesh.cpp", "LevelSet.cpp", "Boundary.cpp", "FastMarchingMethod.cpp", "MersenneTwister.h", "Sensitivity.cpp"], [("initialisation of all state", "constructors and reset code of every class")])

p("T01", "Separate objects can be used from separate threads without affecting each other",
  "The library keeps no state outside the objects a caller creates. Any number of threads, each working on level sets, boundaries, grids, marchers, queues, generators, optimisers and files of its own, get bit for bit the results each would get alone, and do so without data races. Threads that only read a shared object (take it by constant reference, copy it, query it, save it, compute from it) don't race either, get the same results as one after the other, and leave the shared object as it was.",
  ["schedules", "histories"], "all interleavings of any programs on separate objects; all combinations of reading operations on one shared structure",
  "The tests are single-threaded; a shared scratch buffer or cached value gives the right answer in every sequential run.",
  ["Mesh.cpp", "LevelSet.cpp", "Boundary.cpp", "FastMarchingMethod.cpp", "Heap.cpp", "Sensitivity.cpp", "Optimise.cpp", "InputOutput.cpp", "MersenneTwister.h"],
  [("all state held in members", "every class"), ("constant member functions and constant reference arguments", "Mesh::getElement, getClosestNode; Boundary::computeNormalVectors; Sensitivity; InputOutput; FastMarchingMethod constructor")])

p("D01", "The documented optimisation procedures reach their documented results",
  "Put together as the documentation and demos have it, the classes optimise: with unit sensitivities a front moves at unit normal speed (a circle's radius changes by the time run, convex fronts sweep the area of their parallel curves); with perimeter sensitivities it moves by curvature, so that a closed curve loses area at 2*pi per unit time whatever its shape and becomes round; under an area constraint (inequality or equality) the area settles on the constraint and the shape becomes a circle; shape matching reduces the mismatch to the resolution of the grid; and over an iteration the measured change of the objective is the predicted one to first order. The shipped demos run and show the results their documentation claims.",
  ["inputs", "histories", "configurations"], "all sizes, positions, outlines, move limits and senses of the optimisation; complete runs of hundreds of iterations",
  "Unit tests exercise single classes; the result of the loop depends on every class and on their agreement on signs, units and time.",
  ["Optimise.cpp", "Sensitivity.cpp", "LevelSet.cpp", "Boundary.cpp", "FastMarchingMethod.cpp"], [("the optimisation loop", "demos/*.cpp")])

p("D02", "The Python demos carry out the same optimisations as the C++ demos",
  "python/README says that the Python scripts reproduce the C++ example programs. Run with the same arguments and the same hardware seed, each script poses the same sequence of optimisation problems as its C++ counterpart (every bound, starting value, objective, constraint and derivative, to the last digit), receives the same answers, writes the same files with the same contents and prints the same words; so whatever a user does through the module, written the natural Python way, ends where the C++ library ends.",
  ["inputs", "histories", "configurations"], "all six demos, all temperatures and second arguments, every iteration of the run and every file written",
  "No test runs a demo, and the demos, unlike single calls, chain all classes over many iterations, where one overload that drops an argument or one default that differs changes everything that follows.",
  ["Optimise.cpp", "LevelSet.cpp", "Boundary.cpp", "Sensitivity.cpp", "MersenneTwister.h"], [("the Python demos", "python/*.py"), ("the C++ demos", "demos/*.cpp"), ("the bindings", "python/bindings/*.cpp")])

p("D03", "Umbrella sampling accepts by the Metropolis rule, restores and resumes",
  "The umbrella sampling program does what its documentation says: a trial that lowers the harmonic bias of the centre of mass is always accepted, one that raises it far beyond the temperature never, and without bias every one is, starting from the initial shape; before the first rejection the bias changes nothing else. A rejected trial leaves no trace: the recorded centre stays as it was, and the level set, after assigning the saved field back and reinitialising, has its former outline, the same one however often trials are rejected. Every sample written agrees with the outline written beside it (weighted perimeter, centre of mass), acceptance ratios add up, a run resumed from its restart file starts from the outline it had saved, every documented option, short or long, takes effect, and mistakes on the command line are refused with a message.",
  ["inputs", "histories", "configurations"], "all temperatures, gravities, bias centres, springs, intervals, random streams, restart file names and option orders",
  "No test runs the program; saving, restoring and resuming the state of a simulation needs long histories through every class.",
  ["LevelSet.cpp", "FastMarchingMethod.cpp", "Boundary.cpp", "InputOutput.cpp", "MersenneTwister.h"], [("the umbrella sampling demo", "demos/bimodal_brolly.cpp")])

p("Y01", "The Python module behaves exactly like the C++ library",
  "Every public class, member, overload and constant default of the C++ library can be reached from the Python module under the names its bindings declare, by position or by keyword, and gives bit-identical results and side effects: fields, boundaries, areas, normals, velocities, random streams, optimisation problems and solutions, files. Containers and members modified from Python are the ones the library sees and the other way round, in-out numbers come back through MutableFloat, functions written in Python serve as callbacks, and whatever Python still holds a reference to stays valid, including objects handed to a constructor that keeps a reference to them.",
  ["inputs", "histories"], "all bound classes and overloads, all defaults and keyword orders; objects whose owner's name is gone",
  "There are no tests of the bindings, and the tests' build leaves out everything compiled under PYBIND.",
  ["Common.h", "Optimise.cpp", "Sensitivity.h", "LevelSet.cpp", "Boundary.cpp"], [("bindings", "python/bindings/*.cpp"), ("binding-only overloads", "code under the PYBIND define in src")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P), "properties")
