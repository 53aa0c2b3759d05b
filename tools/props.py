"""Which harness decides which property, with what technique and assurance."""
SAN = "address and undefined-behaviour sanitizers throughout"
PROPS = {
    "M01": dict(src=["p_mesh.cpp"], technique="invariant monitor over constructed grids",
        note="Every relation of every grid built is recomputed from coordinates; all sizes to 12x12, random ones beyond. " + SAN),
    "M02": dict(src=["p_mesh.cpp"], technique="geometric oracle over random and hostile query points",
        note="Points on and near lines, nodes, centres and rims compared with direct geometry; tolerance 2e-6. " + SAN),
    "H01": dict(src=["p_mesh.cpp"], technique="model-based history monitor",
        note="Random operation histories checked step by step against an ordered multimap; the queue's self-test runs too. " + SAN),
    "L01": dict(src=["p_levelset.cpp"], technique="geometric reference monitor",
        note="Every grid point of every constructed field compared with direct geometry. " + SAN),
    "L02": dict(src=["p_levelset.cpp"], technique="geometric reference monitor",
        note="Side by total turning angle, distance by projection in extended precision; points within 1e-9 of an outline are not judged for side. " + SAN),
    "L03": dict(src=["p_levelset.cpp"], technique="invariant monitor at every band rebuild of random histories",
        note="Membership, lists, flags and counts recomputed from the field and flags after each operation. " + SAN),
    "L04": dict(src=["p_levelset.cpp"], technique="trace invariant monitor over random motions",
        note="Masked and rim points watched after every step. " + SAN),
    "F01": dict(src=["p_fmm.cpp"], technique="sign and front monitor, metamorphic far-field relation",
        note="Every grid point's sign, every front distance against the crossing formula, outcome against altered far values. " + SAN),
    "F02": dict(src=["p_fmm.cpp"], technique="differential monitor against a naive marching reference, geometric bounds",
        note="Agreement with the reference to 1e-7 unless the outcome hinges on rounding-level ties; order, jump and distance bounds always. " + SAN),
    "F03": dict(src=["p_fmm.cpp"], technique="metamorphic monitor over symmetries and object histories",
        note="Symmetry judged where the outcome does not hinge on ties; reuse judged always. " + SAN),
    "V01": dict(src=["p_fmm.cpp"], technique="reference extension monitor and metamorphic linearity",
        note="Front values against the weighted mean, the band against a reference extension, range, uniformity and linearity. " + SAN),
    "B01": dict(src=["p_boundary.cpp"], technique="structural invariant monitor over random discretisations",
        note="All cross references rebuilt from the segment list; flow balance at every point. " + SAN),
    "B02": dict(src=["p_boundary.cpp"], technique="differential monitor against an independent contour",
        note="Every point, segment and length compared with a cell-by-cell reference. " + SAN),
    "B03": dict(src=["p_boundary.cpp"], technique="exact clipping reference and Green's theorem monitor",
        note="Every cell's fraction to 1e-9; total against the enclosed area; complement relation. " + SAN),
    "B04": dict(src=["p_boundary.cpp"], technique="exact-shape oracle, metamorphic symmetry and history monitors",
        note="Straight interfaces to 1e-7, circles to a fraction of the curvature, every normal finite and unit, images and repeated evaluations agree. " + SAN),
    "B05": dict(src=["p_boundary.cpp"], technique="recomputation monitor over every boundary point",
        note="Limits and flags from coordinates alone. " + SAN),
    "G01": dict(src=["p_evolve.cpp"], technique="differential monitor against an independent upwind scheme, metamorphic symmetry",
        note="Every band point to 1e-8 of an independent formula; planes exact; convergence under refinement; images and negations. " + SAN),
    "U01": dict(src=["p_evolve.cpp"], technique="step-by-step prediction monitor over random histories",
        note="Every point of every step predicted; reinitialising steps compared bit by bit with reinitialising the predicted field. " + SAN),
    "U02": dict(src=["p_evolve.cpp"], technique="physical oracle over long motions",
        note="Discs, fronts and carried shapes against their exact motion, area change against boundary integral; calibrated allowances (see DESIGN). " + SAN),
    "N01": dict(src=["p_evolve.cpp"], technique="statistical monitor with fixed false-alarm level, exact time-step oracle",
        note="Moments, per-point strength, shape and independence at seven standard errors; factor and time step exactly. " + SAN,
        assume=["boundary points have positive length"]),
    "S01": dict(src=["p_sens.cpp"], technique="call-recording monitor with analytic derivative oracle",
        note="Every evaluation position recorded, every field compared bit by bit afterwards, values against the recorded quotient and the true derivative. " + SAN,
        assume=["boundary points have positive length"]),
    "S02": dict(src=["p_sens.cpp"], technique="recomputation monitor, metamorphic linearity, circle oracle",
        note="Every point's correction against an extended-precision perimeter difference; everything else bit by bit. " + SAN,
        assume=["boundary points have positive length"]),
    "R01": dict(src=["p_rng.cpp"], technique="history-differential monitor over random draw sequences",
        note="Streams compared bit by bit between fresh, used, reseeded, copied, interleaved and unseeded generators. " + SAN),
    "R02": dict(src=["p_rng.cpp"], technique="statistical monitor with fixed false-alarm level",
        note="Range and coverage exactly; moments, shape and serial correlation at seven standard errors. " + SAN),
    "I01": dict(src=["p_io.cpp"], technique="round-trip monitor over hostile values and naming schemes",
        note="Values bit for bit (binary) or to the printed decimals (text); everything else in the object bit for bit. " + SAN),
    "I02": dict(src=["p_io.cpp"], technique="format monitor comparing every exported line with memory",
        note="Independent description of each layout; every line, word and value compared, both naming forms. " + SAN),
    "I03": dict(src=["p_io.cpp"], technique="fault injection (damaged inputs, full devices, size limits) with faithful-reading oracle",
        note="Loads and saves run in a child; accepted loads must match an independent reading, refusals must be a failure status with a message. " + SAN),
    "O01": dict(src=["p_opt.cpp"], shim=True, technique="monitor over scripted optimiser answers with an independent displacement model",
        note="NLopt is not in this tree; a recording stand-in supplies arbitrary answers within and beyond the bounds. " + SAN,
        assume=["NLopt replaced by a recording stand-in with its interface", "the optimum has a non-zero objective multiplier"]),
    "O02": dict(src=["p_opt.cpp"], shim=True, technique="problem-recording stand-in, callbacks sampled against an independent first-order model",
        note="Every callback evaluated at several multipliers, with and without gradient; types, senses, bounds compared. " + SAN,
        assume=["NLopt replaced by a recording stand-in with its interface"]),
    "O03": dict(src=["p_opt.cpp"], shim=True, technique="fault-injecting optimiser stand-in, independent constraint-reach model",
        note="Active set, targets, failures, mapping back, reported change and return codes; also on repeated calls. " + SAN,
        assume=["NLopt replaced by a recording stand-in with its interface", "the optimum has a non-zero objective multiplier"]),
    "Y01": dict(src=["p_python.cpp"], shim=True, python=True, technique="differential monitor: random programs through the embedded Python module and through C++",
        note="Every value both sides can see compared bit by bit after every statement, files byte by byte, the optimisation problem posed term by term; pybind11 and NLopt are stand-ins. " + SAN,
        assume=["NLopt replaced by a recording stand-in with its interface", "pybind11 replaced by a stand-in that follows its documented rules (harness/pyshim)"]),
    "D01": dict(src=["p_demo.cpp"], shim=True, demos=True, technique="end-to-end monitor: documented optimisation loops against analytic results",
        note="Area and curvature flow, constrained minimisation, shape matching and the shipped demo programs; a small exact solver stands in for NLopt. " + SAN,
        assume=["NLopt replaced by a sequential linear-programming solver with its interface"]),
    "D02": dict(src=["p_pydemo.cpp"], shim=True, python=True, demos=True, technique="differential monitor: the Python demos in an embedded interpreter against the C++ demos, by the trace of optimisations posed and the files written",
        note="Same seed, same stand-in solver; every number posed, answered, written or printed compared to the last digit. " + SAN,
        assume=["NLopt replaced by a sequential linear-programming solver with its interface", "pybind11 replaced by a stand-in that follows its documented rules (harness/pyshim)", "the hardware seed of the demos is replaced by a known one"]),
    "D03": dict(src=["p_brolly.cpp"], shim=True, demos=True, technique="trace monitor: samples, outlines and restart files of the umbrella sampling demo against the Metropolis rule, with an unbiased twin run",
        note="The twin run with the same seed shows where each trial ends, so that what must be accepted or rejected is known; what is restored or resumed is compared with what was saved. " + SAN,
        assume=["NLopt replaced by a sequential linear-programming solver with its interface", "the hardware seed of the demo is replaced by a known one"]),
    "E01": dict(src=["p_safety.cpp"], shim=True, technique="outcome monitor over valid and invalid requests in child processes",
        note="Every documented refusal and its valid neighbours; a refusal must be a failure status with a message. " + SAN,
        assume=["NLopt replaced by a recording stand-in with its interface"]),
    "X01": dict(src=["p_safety.cpp"], shim=True, configs=["asan", "dbg"], secondary=0.25,
        technique="address and undefined-behaviour sanitizers and checked containers over random programs; leak, open-file and stack monitors",
        note="Random programs over every public class, on valid and degenerate inputs; a second build adds the checked standard library; large grids run on a small stack; NLopt is a stand-in.",
        assume=["NLopt replaced by a recording stand-in with its interface"]),
    "X02": dict(src=["p_safety.cpp"], shim=True, configs=["rel", "rel+VH_LIGHT=1,MALLOC_PERTURB_=173,MALLOC_TOP_PAD_=65536,VH_PAD=" + "x"*3000, "msan"], secondary=0.4,
        technique="differential monitor over dirtied memory and processes, memory sanitizer",
        note="The same programs repeated over patterned heap and stack, other work in between, in other processes, and at once; a clang memory-sanitizer build watches every branch.",
        assume=["NLopt replaced by a recording stand-in with its interface"]),
    "T01": dict(src=["p_threads.cpp"], shim=True, configs=["tsan", "rel"], secondary=2.0,
        technique="thread sanitizer and differential monitor over concurrent programs with injected delays",
        note="Whole random programs in several threads, and threads reading one structure, against the same work alone; the race detector watches every access of library and standard templates.",
        assume=["NLopt replaced by a recording stand-in with its interface", "objects being changed aren't shared between threads"]),
}
NA = {}
