D = [
dict(id="P34", title="Test problems have the published values, bounds, constraints and optima",
 statement="Every test problem returns for every point in its bounds the objective and constraint values of its published definition for every dimension, number of objectives and parameters, each point evaluated independently of the other points, their order and their number. A published optimum, Pareto set or front is within the bounds, feasible, attained, free of dominated points (up to its sampling), and no feasible point is better. Problems and points given are not modified.",
 over=["inputs", "configurations"], q="every problem, dimension, parameter, time and point of the search space",
 why="The tests compare stored values of some problems for one dimension at a few points and do not look for points dominating the published fronts.",
 files=["pymoo/problems"],
 mech=[("single-objective problems", "pymoo/problems/single"), ("multi-objective problems", "pymoo/problems/multi"), ("many-objective problems", "pymoo/problems/many"), ("dynamic problems", "pymoo/problems/dynamic/df.py"), ("get_problem", "pymoo/problems/__init__.py")],
 tech="property-based testing: differential testing against 133 independently written formulas, metamorphic relations between batches, and search for points better than the published optima", note="fronts loaded from the network are not compared; fronts sampled by the code may be beaten between two samples"),
]
