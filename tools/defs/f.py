D = [
dict(id="P27", title="Performance indicators are what they are defined to be",
 statement="GD, GD+, IGD, IGD+, additive and multiplicative epsilon, hypervolume, spacing, R-metric and averaged IGD equal their definitions for every set, reference front and reference point, with and without normalization, and never change their inputs. Hypervolume contributions and approximations agree with the exact hypervolume also after points were added or removed. The values shown in the multi-objective output and the running metric are these indicators of the solutions of that iteration.",
 over=["inputs", "configurations", "histories"], q="every set of objective vectors (duplicates, dominated, degenerate ranges), reference set or point, normalization and history of sets",
 why="The tests compare stored numbers for a few fronts; degenerate ranges, single points and option combinations are not sampled.",
 files=["pymoo/indicators", "pymoo/util/display/multi.py", "pymoo/util/running_metric.py", "pymoo/visualization"],
 mech=[("DistanceIndicator", "pymoo/indicators/distance_indicator.py"), ("Hypervolume", "pymoo/indicators/hv"), ("RMetric", "pymoo/indicators/rmetric.py"), ("MultiObjectiveOutput", "pymoo/util/display/multi.py"), ("RunningMetric", "pymoo/util/running_metric.py")],
 tech="property-based testing against naive reference indicators written from their definitions", note="up to 10 points and 4 objectives; hypervolume reference by inclusion-exclusion slicing; contributions are those of the non-dominated points among themselves"),
dict(id="P28", title="Scaling to the unit range and back, and distances, mean what they say",
 statement="Every normalization maps bounds to zero and one, values between them proportionally, and back again to the same values, whatever bounds are missing, equal, negative or far from zero and whatever number type is used; fixed variables stay fixed. Normalized distances between points equal the distance of the scaled points. A problem rescaled to the unit range has for each scaled point the values of the original point, and the optimum in the same place.",
 over=["inputs", "configurations"], q="every matrix, pair of bounds (missing, equal, shifted), number type and direction",
 why="The tests normalize a few arrays with proper bounds.",
 files=["pymoo/util/normalization.py", "pymoo/util/misc.py", "pymoo/problems/zero_to_one.py"],
 mech=[("ZeroToOneNormalization/normalize/denormalize", "pymoo/util/normalization.py"), ("norm_eucl_dist and others", "pymoo/util/misc.py"), ("ZeroToOne", "pymoo/problems/zero_to_one.py")],
 tech="property-based testing: round trips and differential testing against naive formulas", note="values up to 1e6 from zero; standardization of constant columns is undefined and excluded"),
dict(id="P30", title="Scalarizing functions are what they are defined to be",
 statement="Weighted sum, Tchebicheff, augmented Tchebicheff, ASF, AASF, PBI and perpendicular distance equal their definitions for every point, weight, utopian and nadir point, in every pairing (one to one, one to many, many to one, many to many, automatic), compiled or not. A point dominating another one never gets a worse value from a function that preserves dominance.",
 over=["inputs", "configurations"], q="every set of points and weights (zero entries included), ideal, utopian and nadir point, pairing and parameter",
 why="The tests check single stored values of some functions in one pairing.",
 files=["pymoo/decomposition", "pymoo/core/decomposition.py", "pymoo/functions", "pymoo/util/reference_direction.py"],
 mech=[("Decomposition.do", "pymoo/core/decomposition.py"), ("decompositions", "pymoo/decomposition"), ("calc_perpendicular_distance", "pymoo/functions/standard/decomposition.py")],
 tech="property-based testing against formulas written per pair, plus a metamorphic dominance relation", note="up to 6 points and weights, 2 to 5 objectives; zero weight vectors excluded"),
dict(id="P31", title="Decision making selects the solutions it is defined to select",
 statement="Pseudo weights are the relative distances to the worst value of each objective, sum to one and select the solution closest to the wanted weights. High trade-off points are the upper outliers of the worst-case ratio of gain to loss against neighbours within the chosen radius. Neighbour search returns exactly the points within the radius and at least the requested number of them. Selections do not depend on the scale or position of objectives.",
 over=["inputs", "configurations"], q="every set of solutions, radius, minimum number of neighbours, weight and outlier pattern",
 why="The tests call each method on one front.",
 files=["pymoo/mcdm", "pymoo/core/decision_making.py"],
 mech=[("PseudoWeights", "pymoo/mcdm/pseudo_weights.py"), ("HighTradeoffPoints", "pymoo/mcdm/high_tradeoff.py"), ("find_outliers_upper_tail/NeighborFinder", "pymoo/core/decision_making.py")],
 tech="property-based testing against naive reference implementations and metamorphic rescaling", note="up to 12 solutions; CompromiseProgramming is unfinished upstream and not claimed"),
dict(id="P32", title="Transformed problems and adaptive constraints mean the original problem",
 statement="A problem with constraints as objective or penalty, with bounds as constraints, with several objectives scalarized or with prescribed values has exactly the values and declared sizes its definition gives, for one point or many, and leaves the original problem unchanged. With adaptive constraint handling every evaluation is counted, the run keeps its budget, epsilon falls linearly from the first mean violation to zero, solutions violating at most epsilon survive as feasible ones, and outside of the iteration only satisfied constraints count as feasible. With epsilon zero the run equals the plain one.",
 over=["inputs", "configurations", "histories"], q="every problem (numbers of objectives and constraints, elementwise or not), transformation, option, algorithm, budget and share of epsilon",
 why="The tests contain one optimization with each transformation and look at the final result only.",
 files=["pymoo/constraints", "pymoo/core/meta.py", "pymoo/problems/multi_to_single.py", "pymoo/problems/static.py", "pymoo/problems/util.py", "pymoo/algorithms/soo/nonconvex/ga.py"],
 mech=[("ConstraintsAsObjective/ConstraintsAsPenalty/ConstraintsFromBounds", "pymoo/constraints"), ("AdaptiveEpsilonConstraintHandling", "pymoo/constraints/eps.py"), ("MultiToSingleObjective", "pymoo/problems/multi_to_single.py")],
 tech="property-based testing: transformed values against the definition; adaptive runs against an invariant over the history and the plain run", note="tournament selection still compares raw violations (not claimed); survival is checked for GA"),
]
