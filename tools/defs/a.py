D = [
dict(id="P01", title="Non-dominated sorting yields exactly the Pareto ranks",
 statement="For every finite matrix of objective values, non-dominated sorting partitions the points into fronts such that front k holds exactly the points that only points of earlier fronts dominate; duplicates share a front, and permuting points or objectives, scaling objectives or duplicating a point does not change ranks. Stopping options return a prefix of those fronts (unranked points get the sentinel rank), 'only the first front' and finding non-dominated points (also against a second set) return exactly the points nothing dominates, and a user-supplied dominance relation is honoured. Every selectable sorting implementation (fast, efficient, dominance-degree, tree, best-order, bi-objective; Python and compiled) agrees.",
 over=["inputs", "configurations"], q="every objective matrix with finite values (any number of points and objectives, ties and duplicates included), every stopping option, every implementation",
 why="The tests compare a few implementations on continuous random matrices without ties or duplicates and a handful of fixed fronts.",
 files=["pymoo/util/nds/non_dominated_sorting.py", "pymoo/util/nds/fast_non_dominated_sort.py", "pymoo/functions/standard/non_dominated_sorting.py", "pymoo/functions/compiled/non_dominated_sorting.pyx"],
 mech=[("NonDominatedSorting.do", "pymoo/util/nds/non_dominated_sorting.py"), ("find_non_dominated", "pymoo/util/nds/non_dominated_sorting.py"), ("load_function", "pymoo/functions/__init__.py")],
 tech="property-based testing against a naive peeling reference model, plus metamorphic relations", note="random search over generated matrices up to 300 points and 7 objectives; exact oracle"),
dict(id="P02", title="Dominance, tournaments and replacement prefer the better solution",
 statement="For every pair of solutions the dominance relation (optionally constraint-first, optionally with a tolerance) is the componentwise definition, and the dominance matrices agree with it entry by entry. In every binary tournament (NSGA-II by dominance or rank and then crowding, SMS-EMOA, C-TAEA, GA, NSGA-III, U-NSGA-III) the winner is one of the two, never the one with the larger constraint violation when one is infeasible (C-TAEA: never the infeasible one against a feasible one), and never the one that is worse in that tournament's feasible-case criterion. A replacement happens exactly when the newcomer is better: feasible instead of infeasible, less violated if both are infeasible, better in the objective by more than the tolerance if both are feasible, and (population replacement) not a duplicate.",
 over=["inputs"], q="every pair/population of objective vectors and constraint violations, including ties, zero and infinite crowding",
 why="Tests run whole algorithms or compare a couple of hand-made pairs; ties, mixed feasibility and duplicates are not sampled.",
 files=["pymoo/util/dominator.py", "pymoo/operators/selection/tournament.py", "pymoo/algorithms/moo/nsga2.py", "pymoo/algorithms/moo/nsga3.py", "pymoo/algorithms/moo/unsga3.py", "pymoo/algorithms/moo/sms.py", "pymoo/algorithms/moo/ctaea.py", "pymoo/algorithms/soo/nonconvex/ga.py", "pymoo/core/replacement.py"],
 mech=[("Dominator", "pymoo/util/dominator.py"), ("compare", "pymoo/operators/selection/tournament.py"), ("is_better / ImprovementReplacement", "pymoo/core/replacement.py")],
 tech="property-based testing against the definitions", note="random search over pairs and small populations; exact oracle, random tie-breaks only required to stay inside the pair"),
dict(id="P04", title="Constraint violation and feasibility follow from the constraint values",
 statement="The constraint violation of a solution is always the configured aggregation (tolerance, scale, power, sum/mean/max; equality constraints by absolute value with the default tolerance 1e-4) of its current inequality and equality values, zero when nothing is violated, and a solution is feasible exactly when that does not exceed the feasibility tolerance. This stays true after any history of reading, changing, copying, resetting and re-evaluating solutions, and matrix, population and single-solution computations agree.",
 over=["inputs", "histories", "configurations"], q="every constraint matrix, every violation configuration, every sequence of updates, reads, copies, resets and (re-)evaluations",
 why="Tests check one or two configurations on fixed vectors and never change constraint values after the violation was read.",
 files=["pymoo/core/individual.py", "pymoo/core/population.py", "pymoo/core/evaluator.py"],
 mech=[("calc_cv / constr_to_cv", "pymoo/core/individual.py"), ("Individual.CV cache", "pymoo/core/individual.py"), ("calc_cv of populations", "pymoo/core/population.py")],
 tech="property-based and model-based (operation history) testing against a scalar reference model", note="random search over constraint values, configurations and operation histories"),
dict(id="P06", title="Problem evaluation returns the user's values however it is organised",
 statement="Evaluating a problem on a batch or on a single point returns exactly the objective and constraint values the user's function defines, in the order of the points and with the declared shapes, whether the function is vectorized, elementwise or a list of callables, whatever (array, column, scalar) form it fills in, however the batch is split, and whichever runner (loop, starmap, joblib, dask) executes the points. Exactly the requested values are returned in the requested order; NaN replacement, extra outputs, keyword arguments (only on request) and the callback (once per call) behave as configured; the input is not modified and each point is passed to the function once. Outputs of a wrong shape or points of the wrong dimension are rejected, and copies of a problem evaluate identically.",
 over=["inputs", "configurations", "schedules"], q="every problem shape, batch, output style, requested subset, runner and order in which parallel jobs finish",
 why="Tests evaluate fixed benchmark problems in one style; the combinations of styles, runners and requested values are not covered.",
 files=["pymoo/core/problem.py", "pymoo/problems/functional.py", "pymoo/parallelization/starmap.py", "pymoo/parallelization/joblib.py", "pymoo/parallelization/dask.py"],
 mech=[("Problem.evaluate", "pymoo/core/problem.py"), ("elementwise runners", "pymoo/parallelization"), ("FunctionalProblem", "pymoo/problems/functional.py")],
 tech="property-based differential testing of all evaluation styles and runners against direct formula evaluation", note="random polynomial problems; process pools and Ray are not started"),
]
