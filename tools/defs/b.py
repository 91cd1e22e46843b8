D = [
dict(id="P05", title="A population behaves like the list of its individuals",
 statement="A population holds the given individuals in the given order: slicing, masking, integer indexing, copying, merging and iterating select exactly the positions they name, without copying the individuals. Setting an attribute (a scalar, one value per individual, several keys at once) and reading it back (as array, list, or several keys at once) returns per individual exactly the value last assigned, in order; attributes of an individual stay separate from those of any other and from its deep copies, and copies of a population share its individuals but not its order. Constructors (new, empty, create, from individuals) yield exactly the individuals described and nothing shared between them.",
 over=["inputs", "histories"], q="every population and every sequence of reads, writes, slices, merges and copies",
 why="The tests use a few hand-written populations and single operations; aliasing and ordering errors appear only in histories.",
 files=["pymoo/core/population.py", "pymoo/core/individual.py"],
 mech=[("Population.new/get/set/merge", "pymoo/core/population.py"), ("Individual.get/set/copy/reset", "pymoo/core/individual.py")],
 tech="model-based testing of operation histories against a list-of-dicts model", note="random histories of up to 40 operations"),
dict(id="P07", title="The evaluator evaluates each individual once and counts what it did",
 statement="After an evaluation every requested individual carries exactly the values the problem defines for its variables (for an unset value: what the problem returns) and is marked with what was evaluated. With the default setting individuals that already hold all requested values are neither passed to the user's function again nor changed; every other one is passed exactly once, whatever mixture of evaluated and fresh individuals is given. The counter n_eval grows by exactly the number of individuals passed to the problem, independent of how they are split into calls, and evaluators and copies of individuals do not influence each other.",
 over=["histories", "configurations"], q="every history of evaluation calls on mixtures of evaluated and fresh individuals, all evaluation value types, vectorized and elementwise problems",
 why="Tests evaluate fresh populations once; partial evaluation, repeated calls and mixed populations are hardly sampled.",
 files=["pymoo/core/evaluator.py", "pymoo/core/individual.py", "pymoo/core/problem.py"],
 mech=[("Evaluator.eval", "pymoo/core/evaluator.py"), ("Individual.evaluated", "pymoo/core/individual.py")],
 tech="model-based testing of evaluation histories with a call log", note="random histories; polynomial problems with exact formulas"),
dict(id="P08", title="Duplicate elimination removes exactly the duplicates",
 statement="Duplicate elimination keeps, from every group of equal individuals (by variables or a user function, within the tolerance), a representative: no two survivors are duplicates of each other, no survivor is a duplicate of an individual of the given other populations, and every removed individual is a duplicate of a survivor or of one of the others. The survivors keep their order and are the very individuals passed in; the default and the hash strategies agree for exact equality, a user-defined equality or hash is applied to each individual as it is, and the reported indices match what was removed. No individual and no other population is modified.",
 over=["inputs", "configurations"], q="every population (also empty), every set of other populations, every tolerance, custom equality or hash",
 why="Tests check one population with one duplicate; ties with several other populations, tolerances and empty cases are not sampled.",
 files=["pymoo/core/duplicate.py", "pymoo/util/misc.py"],
 mech=[("DefaultDuplicateElimination", "pymoo/core/duplicate.py"), ("ElementwiseDuplicateElimination", "pymoo/core/duplicate.py"), ("HashDuplicateElimination", "pymoo/core/duplicate.py")],
 tech="property-based testing against pairwise comparison", note="random populations on small integer grids with tolerances and several other populations"),
dict(id="P09", title="Sampling yields valid, complete and reproducible points",
 statement="For every problem and number of samples, sampling returns exactly that many points of the problem's type inside its bounds (integers for integer, booleans for binary, permutations for permutation variables; a variable with equal bounds gets that value) and the same points for the same random state. Samples reach the whole domain: every value of small discrete domains, all parts of continuous ones, independently per variable; Latin hypercube samples put exactly one point into each of the n equal bins of every variable, at the center if smoothing is off. An initial population is what the user gave (an array, a population with evaluated individuals, or an operator), repaired where not evaluated yet, without duplicates, and in the given order.",
 over=["inputs", "configurations"], q="every dimension, bounds, number of samples and random state; every initialization form",
 why="Tests look at one or two sample shapes; bounds membership, stratification and coverage are properties over all sizes and seeds.",
 files=["pymoo/operators/sampling/rnd.py", "pymoo/operators/sampling/lhs.py", "pymoo/core/initialization.py", "pymoo/core/sampling.py"],
 mech=[("FloatRandomSampling/IntegerRandomSampling", "pymoo/operators/sampling/rnd.py"), ("sampling_lhs", "pymoo/operators/sampling/lhs.py"), ("Initialization", "pymoo/core/initialization.py")],
 tech="property-based testing with exact validity oracles and statistical coverage with negligible error probability", note="coverage uses 600 samples and thresholds with error probability below 1e-10"),
dict(id="P12", title="Repair puts points into bounds and touches nothing else",
 statement="Every bounds repair returns points of the same shape with all values finite and inside the bounds (also for variables with equal lower and upper bounds) and leaves values that already are inside unchanged. Clamping sets to the nearest bound, bouncing back and periodic repair move by the overshoot modulo the range (from the violated bound, respectively by whole periods), random re-initialization places the value between the violated bound and the reference, inverse penalty returns points in bounds. Rounding and type repair return exactly the rounded or converted values, and the tests for being in or out of bounds name exactly those points.",
 over=["inputs"], q="every finite point, near or far outside, every bounds (also equal ones), every reference point in bounds",
 why="No test covers points many ranges away, degenerate bounds or points exactly on a bound.",
 files=["pymoo/operators/repair/bounce_back.py", "pymoo/operators/repair/bounds_repair.py", "pymoo/operators/repair/inverse_penalty.py", "pymoo/operators/repair/to_bound.py", "pymoo/operators/repair/rounding.py", "pymoo/operators/repair/vtype.py"],
 mech=[("bounce_back", "pymoo/operators/repair/bounce_back.py"), ("repair_clamp/periodic/random_init", "pymoo/operators/repair/bounds_repair.py"), ("BoundsRepair", "pymoo/operators/repair/bounds_repair.py")],
 tech="property-based testing against closed formulas", note="random points up to 60 ranges outside"),
]
