D = [
dict(id="P03", title="Compiled and Python kernels compute the same documented function",
 statement="Every numerical kernel that exists both compiled and in Python (distances to reference lines, stochastic ranking, crowding metrics with pruning) returns the result its definition demands, the same one in both implementations, for every input including duplicates, ties, constant columns and fewer points than neighbours. Stochastic ranking follows the distribution of the published procedure exactly. A kernel never changes the arrays it is given and never reads outside of them; asking for an implementation by mode yields one, or an error that says there is none.",
 over=["inputs", "configurations"], q="every matrix of finite values of any size, every weight matrix, probability and number of points to keep, both implementations",
 why="The tests compare both implementations on a few random matrices without ties, where wrong neighbours, wrong scaling and out-of-bounds reads do not show.",
 files=["pymoo/functions/__init__.py", "pymoo/functions/standard/calc_perpendicular_distance.py", "pymoo/functions/standard/stochastic_ranking.py", "pymoo/functions/standard/mnn.py", "pymoo/functions/standard/pruning_cd.py", "pymoo/functions/compiled/mnn.pyx", "pymoo/functions/compiled/pruning_cd.pyx", "pymoo/functions/compiled/stochastic_ranking.pyx"],
 mech=[("load_function", "pymoo/functions/__init__.py"), ("calc_perpendicular_distance", "pymoo/functions/standard/calc_perpendicular_distance.py"), ("calc_pcd/calc_mnn", "pymoo/functions/compiled"), ("stochastic_ranking", "pymoo/functions/standard/stochastic_ranking.py")],
 tech="differential property-based testing of both implementations against definitions, exact distribution for the randomized one", note="matrices up to 30 points and 6 objectives; the set of admissible results enumerates all ways of breaking ties"),
dict(id="P16", title="Rank-and-crowding survival keeps the best fronts and the least crowded",
 statement="Rank-and-crowding survival returns exactly the requested number of different members of the population: feasible before infeasible ones (the least violated of those first), complete fronts before any member of a later one, and of the front that has to be split the members with the largest value of the chosen crowding metric as its definition computes it. Crowding distance, entropy and neighbour metrics return what their definitions say, infinite for the extreme points, in the order of the given points and not depending on that order. Ties are broken by the given random state alone, and objective values of the individuals stay as they are.",
 over=["inputs", "configurations"], q="every population, number of survivors, crowding metric, constraint values and random state",
 why="The tests check that algorithms using it converge, and crowding values for a handful of fronts.",
 files=["pymoo/operators/survival/rank_and_crowding/classes.py", "pymoo/operators/survival/rank_and_crowding/metrics.py", "pymoo/core/survival.py", "pymoo/algorithms/moo/nsga2.py"],
 mech=[("RankAndCrowding", "pymoo/operators/survival/rank_and_crowding/classes.py"), ("crowding metrics", "pymoo/operators/survival/rank_and_crowding/metrics.py"), ("Survival.do", "pymoo/core/survival.py"), ("binary_tournament", "pymoo/algorithms/moo/nsga2.py")],
 tech="model-based property testing: survivors must be one of the sets the definition admits", note="populations up to 30; all tie-breaks are enumerated for the pruning metrics"),
dict(id="P17", title="Every algorithm's environmental selection keeps what its method promises",
 statement="The survival step of SPEA2, SMS-EMOA, NSGA-III and its relatives, AGE-MOEA, RVEA, R-NSGA-II, C-TAEA, the genetic algorithm and its niching variant returns the requested number of different members, prefers feasible to infeasible and (where the method ranks) earlier to later fronts, and leaves variables and objective values as they are. Within that, survivors are those the method's published criterion selects: nearest-neighbour truncation, least hypervolume contribution, niche counts per reference direction with the closest member first, angle-penalized distance, distance to aspiration points, clearing by epsilon, fitness. Binary tournaments follow the same criteria, and the random state alone decides ties.",
 over=["inputs", "histories", "configurations"], q="every survival method, population, constraint values, number of survivors, reference directions or points, call history and random state",
 why="The tests run each algorithm on a few standard problems where almost any survival converges; degenerate fronts, infeasible mixtures and ties are not reached.",
 files=["pymoo/algorithms/moo/spea2.py", "pymoo/algorithms/moo/sms.py", "pymoo/algorithms/moo/nsga3.py", "pymoo/algorithms/moo/rvea.py", "pymoo/algorithms/moo/age.py", "pymoo/algorithms/moo/age2.py", "pymoo/algorithms/moo/ctaea.py", "pymoo/algorithms/moo/rnsga2.py", "pymoo/algorithms/moo/rnsga3.py", "pymoo/algorithms/soo/nonconvex/ga.py", "pymoo/algorithms/soo/nonconvex/ga_niching.py", "pymoo/util/clearing.py", "pymoo/core/replacement.py"],
 mech=[("SPEA2Survival", "pymoo/algorithms/moo/spea2.py"), ("LeastHypervolumeContributionSurvival", "pymoo/algorithms/moo/sms.py"), ("niching", "pymoo/algorithms/moo/nsga3.py"), ("APDSurvival", "pymoo/algorithms/moo/rvea.py"), ("CADASurvival", "pymoo/algorithms/moo/ctaea.py"), ("FitnessSurvival", "pymoo/algorithms/soo/nonconvex/ga.py")],
 tech="property-based testing of each survival against a reference model of its criterion, over several calls with kept state", note="populations up to 30 and 2-4 objectives; degenerate fronts are outside for methods whose normalization is undefined there"),
]
