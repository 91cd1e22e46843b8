D = [
dict(id="P18", title="An archive holds exactly the best solutions it has been shown",
 statement="After any sequence of additions an archive holds the non-dominated feasible solutions among all it has been shown (the best ones for a single objective, the least violated ones while nothing is feasible), without duplicates, and never more than its maximum size; if it has to drop some it keeps the configured number of them, chosen by its truncation rule. Adding never changes the solutions, a former archive, or the result of earlier additions, and copies, slices, masks and stored archives behave like the original. An archive attached to a run contains only what the run evaluated.",
 over=["histories", "inputs", "configurations"], q="every sequence of added batches, archive type, size limit, truncation rule and copy in between",
 why="The tests add a few batches to one archive; dominance over a long history together with truncation, ties and pickling is not explored.",
 files=["pymoo/util/archive.py", "pymoo/core/algorithm.py", "pymoo/core/population.py"],
 mech=[("Archive.add", "pymoo/util/archive.py"), ("SingleObjectiveArchive/MultiObjectiveArchive", "pymoo/util/archive.py"), ("default_archive", "pymoo/util/archive.py")],
 tech="model-based (stateful) property testing against a reference archive over operation histories", note="up to 8 operations of 12 solutions; integer grids so that ties and duplicates are frequent"),
dict(id="P19", title="What a run reports is true",
 statement="For every algorithm, every solution in the populations, optima and result of a run was really evaluated and carries exactly the objective, constraint and violation values of its variables. The optimum contains feasible solutions whenever the population does, otherwise the least violated one; its members do not dominate each other and no population member dominates them. X, F, G, H and CV of a result are those of its opt, success says whether a feasible solution was found, and without one nothing is reported unless the least infeasible solution was asked for.",
 over=["inputs", "configurations", "histories"], q="every algorithm, problem (constrained or not), population size, seed and number of iterations",
 why="The tests look at the objective values of a few seeded runs; no test recomputes what a run reports, or looks at runs without feasible solutions.",
 files=["pymoo/core/algorithm.py", "pymoo/util/optimum.py", "pymoo/core/result.py", "pymoo/algorithms"],
 mech=[("Algorithm.result", "pymoo/core/algorithm.py"), ("filter_optimum", "pymoo/util/optimum.py"), ("_set_optimum of all algorithms", "pymoo/algorithms")],
 tech="property-based testing of complete runs of all algorithms on generated problems, every reported solution recomputed", note="47 algorithm configurations; problems with up to 4 variables, 3 objectives and 2 constraints, 6 iterations. Omni-optimizer (epsilon-dominance) and NicheGA (one optimum per niche) are exempt from strict non-dominance by design"),
dict(id="P20", title="A run is determined by its seed and leaves everything else alone",
 statement="Two runs of the same algorithm, problem, termination and seed evaluate the same points in the same order and end with the same populations and results, whatever other runs, other instances or uses of random numbers happened before or in between; another seed gives another run. A run neither reads nor changes the global random state of Python or numpy. It leaves the algorithm object, the termination, the bounds, reference directions, samples and populations that the user passed as they were, and evaluates no solution of a given sample that has been evaluated already.",
 over=["histories", "configurations", "inputs"], q="every algorithm, problem, seed, interleaving with other runs, reuse of objects and kind of given sample",
 why="The tests compare seeded runs with stored results in a fresh process; hidden state shared between instances or with the global generator only shows in combinations of runs.",
 files=["pymoo/optimize.py", "pymoo/core/algorithm.py", "pymoo/core/operator.py", "pymoo/util/__init__.py", "pymoo/algorithms", "pymoo/vendor/vendor_cmaes.py"],
 mech=[("minimize", "pymoo/optimize.py"), ("Algorithm.setup", "pymoo/core/algorithm.py"), ("default_random_state", "pymoo/util/__init__.py"), ("Initialization", "pymoo/core/initialization.py")],
 tech="metamorphic property-based testing: the same run repeated among other runs, reused objects and alternating instances", note="47 algorithm configurations, up to 6 iterations; DNSGA2, KGB (re-evaluation) and MOPSO-CD (second sample) are exempt from not evaluating again"),
dict(id="P21", title="However a run is driven, interrupted or resumed, it takes the same course",
 statement="Driving an algorithm by minimize, by next, or by ask and tell (values computed by its evaluator, by another one, or elsewhere), in any mixture, gives the same points, populations and optima. Copying or storing a run between two iterations and continuing with the copy, and continuing a finished run with a larger budget, give the same course as one uninterrupted run; the original of a copy is not influenced. A shorter run is the beginning of a longer one.",
 over=["histories", "schedules", "configurations"], q="every algorithm, problem and seed, every sequence of driving, copying and storing steps, every split of the budget",
 why="The tests contain single examples of ask and tell and of checkpoints for NSGA-II and GA.",
 files=["pymoo/core/algorithm.py", "pymoo/optimize.py", "pymoo/problems/static.py", "pymoo/algorithms"],
 mech=[("Algorithm.ask/tell/next/advance", "pymoo/core/algorithm.py"), ("LoopwiseAlgorithm", "pymoo/core/algorithm.py"), ("minimize(copy_algorithm)", "pymoo/optimize.py"), ("StaticProblem", "pymoo/problems/static.py")],
 tech="stateful property-based testing: generated sequences of driving steps compared with an uninterrupted run", note="copies are taken between iterations (a generator in progress cannot be copied by Python); RVEA, CMA-ES and NRBO adapt to their budget by design and are not resumed with another one"),
dict(id="P22", title="Budgets are kept exactly and every evaluation is counted once",
 statement="With a budget of n iterations every algorithm performs exactly n iterations, numbered 1 to n; with a budget of n evaluations it stops after the first iteration in which at least n evaluations have been used, and not before. After every iteration the evaluation counter equals the number of points the problem was asked for. Every individual knows the iteration its point was evaluated in.",
 over=["configurations", "histories"], q="every algorithm, problem, seed and budget",
 why="The tests check counters of two algorithms with round budgets; small budgets and algorithms that evaluate on their own are not covered.",
 files=["pymoo/core/evaluator.py", "pymoo/core/algorithm.py", "pymoo/termination/max_gen.py", "pymoo/termination/max_eval.py", "pymoo/algorithms"],
 mech=[("Evaluator.eval", "pymoo/core/evaluator.py"), ("Algorithm._post_advance", "pymoo/core/algorithm.py"), ("MaximumGenerationTermination/MaximumFunctionCallTermination", "pymoo/termination")],
 tech="property-based testing of complete runs with the problem counting its evaluations", note="RVEA converts evaluations to iterations beforehand and may stop early if iterations are incomplete; CMA-ES may end by its own criteria"),
dict(id="P23", title="Progress is never lost",
 statement="Every elitist single-objective algorithm reports, after each iteration and in the end, the best solution evaluated so far: the least violated one while nothing is feasible, then the feasible one with the lowest objective value. No algorithm that has reported a feasible solution reports an infeasible optimum later, nor a higher violation than before. Algorithms that always keep the extreme solutions never lose the best value of an objective.",
 over=["histories", "inputs", "configurations"], q="every algorithm, problem, seed and number of iterations",
 why="The tests look at final results of converged runs, where a lost best solution is found again.",
 files=["pymoo/core/replacement.py", "pymoo/core/survival.py", "pymoo/algorithms/soo/nonconvex", "pymoo/algorithms/moo", "pymoo/util/optimum.py"],
 mech=[("FitnessSurvival/ImprovementReplacement", "pymoo/algorithms/soo/nonconvex/ga.py"), ("_set_optimum", "pymoo/core/algorithm.py"), ("NelderMead", "pymoo/algorithms/soo/nonconvex/nelder.py")],
 tech="property-based testing of complete runs: an invariant over the history against all evaluated points", note="SRES and ISRES are not elitist; the extremes are checked for NSGA-II, GDE3, NSDE, AGE-MOEA and SMS-EMOA with two objectives"),
dict(id="P24", title="Observing a run shows its true course and does not change it",
 statement="Callbacks (functions, objects, collections), the history, the display, the progress bar, own outputs and archives do not change which points a run evaluates nor its populations and result. A callback and every hook of it is called exactly once per iteration, in a collection as well; the history holds one independent snapshot per iteration with the state of that iteration; an archive attached to the run holds the non-dominated feasible (or best) solutions of all evaluated ones. What is displayed are the values of that iteration: numbers of iterations and evaluations, best and mean objective, violations and numbers of solutions.",
 over=["configurations", "histories"], q="every algorithm, problem and seed with every combination of observers",
 why="The tests run single observers with one algorithm, and do not compare with the unobserved run.",
 files=["pymoo/core/callback.py", "pymoo/core/algorithm.py", "pymoo/util/display", "pymoo/util/running_metric.py", "pymoo/util/archive.py"],
 mech=[("Callback/CallbackCollection", "pymoo/core/callback.py"), ("save_history", "pymoo/core/algorithm.py"), ("Display/Output", "pymoo/util/display")],
 tech="metamorphic property-based testing: generated combinations of observers against the unobserved run", note="the text of the progress bar is not interpreted"),
dict(id="P25", title="A run stops exactly when its termination criterion is met",
 statement="A criterion by objective value, indicator, feasibility, iterations, evaluations or time is met in exactly the iterations in which its threshold is reached, for every sign and size of the values. Criteria by tolerance are not met while the optimum changes significantly and are met once it has not changed for their period; the default criteria also stop at their limits. Combined criteria are met when any or all of their parts are, progress is a number from 0 on, and an algorithm stops in the first iteration in which its criterion is met, leaving the criterion object usable for the next run.",
 over=["histories", "inputs", "configurations"], q="every history of optima, threshold, tolerance, period and combination of criteria",
 why="The tests run criteria on converging runs with positive objective values; zero, negative or worsening values and combinations are not covered.",
 files=["pymoo/termination", "pymoo/core/termination.py", "pymoo/util/sliding_window.py", "pymoo/util/misc.py"],
 mech=[("Termination.update", "pymoo/core/termination.py"), ("DeltaToleranceTermination/RobustTermination", "pymoo/termination"), ("MinimumFunctionValueTermination", "pymoo/termination/fmin.py"), ("IndicatorTermination", "pymoo/termination/indicator.py")],
 tech="property-based testing of criteria over generated histories of optima, and of complete runs against the history of an unlimited one", note="between no change and a significant change of the optimum nothing is claimed for tolerances"),
dict(id="P26", title="An algorithm never evaluates a point outside of the bounds",
 statement="For every algorithm, every point it asks the problem for is finite and within the bounds of the problem, whatever the size of the box: fixed variables (equal bounds), tiny, huge and shifted ranges, optima on or beyond the bounds. A problem without bounds is searched, by the methods that support it, like one whose bounds are too far away to matter.",
 over=["inputs", "configurations", "histories"], q="every algorithm, box, position of the optimum, constraint and seed",
 why="The tests use standard problems with unit-sized boxes, and do not look at the evaluated points.",
 files=["pymoo/algorithms", "pymoo/operators/repair", "pymoo/util/normalization.py", "pymoo/core/infill.py"],
 mech=[("repairs", "pymoo/operators/repair"), ("set_to_bounds_if_outside", "pymoo/operators/repair/to_bound.py"), ("ZeroToOneNormalization", "pymoo/util/normalization.py")],
 tech="property-based testing of complete runs on generated boxes, every evaluated point inspected", note="up to 5 variables, 12 iterations; operators on their own are property P12"),
]
