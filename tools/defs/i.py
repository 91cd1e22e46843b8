D = [
dict(id="P35", title="Dynamic problems follow their time; dynamic algorithms use the current values",
 statement="A time-dependent problem is a function of its current time: after any history of ticks, time changes and uses, its values, Pareto front and set, ideal and nadir point equal the ones of a new problem at that time. While the time goes on during a run (time simulation: one tick per iteration), D-NSGA-II and KGB-DMOEA return only individuals with the values of the time they were last evaluated at, re-evaluate the population exactly when a change was detected, and count every evaluation. Every exported dynamic problem can be evaluated.",
 over=["inputs", "histories", "configurations"], q="every dynamic problem and sequence of time changes, every run of a dynamic algorithm",
 why="The tests run each dynamic algorithm once and compare problems at single fixed times; stale caches and stale objective values need a history of changes.",
 files=["pymoo/problems/dyn.py", "pymoo/problems/dynamic", "pymoo/algorithms/moo/dnsga2.py", "pymoo/algorithms/moo/kgb.py"],
 mech=[("time and its changes", "pymoo/problems/dyn.py: DynamicTestProblem, TimeSimulation"), ("reaction of D-NSGA-II", "pymoo/algorithms/moo/dnsga2.py: _advance"), ("reaction of KGB-DMOEA", "pymoo/algorithms/moo/kgb.py")],
 tech="property-based testing: model-based histories of time changes compared with fresh problems, invariants over logged evaluations of generated runs", note="problems/dynamic/misc.py is unfinished and not claimed"),
dict(id="P36", title="Algorithm parameters are found, set, controlled and tuned faithfully",
 statement="Parameters of arbitrarily nested algorithms and operators are found completely under their path; setting some changes exactly these, and an algorithm with parameters set from outside takes the same course as one constructed with them. The performance of a setting found by hyper-parameter tuning is the one of the runs of that algorithm, which itself is left unchanged. Under parameter control every offspring is created with, and remembers, its own value within the bounds.",
 over=["inputs", "configurations", "histories"], q="every tree of parameters, algorithm configuration, number of parents and offspring and controlled run",
 why="The tests tune one algorithm once and never compare the recorded parameters with the ones really used, nor parameter trees beyond one level.",
 files=["pymoo/core/parameters.py", "pymoo/core/variable.py", "pymoo/algorithms/hyperparameters.py", "pymoo/operators/control.py"],
 mech=[("finding and setting parameters", "pymoo/core/parameters.py: get_params, set_params, flatten, hierarchical"), ("parameter control", "pymoo/operators/control.py"), ("tuning", "pymoo/algorithms/hyperparameters.py")],
 tech="property-based testing: generated object trees against a recursive model, differential runs (constructed vs. parameters set), marking operators that reveal the value used for each offspring", note="objects referring to each other in circles and parameters in lists are not searched"),
dict(id="P37", title="Plots show exactly the data they are given",
 statement="Every visualization draws what its definition says: scatter plots every point at its coordinates in every pair of axes, parallel coordinates, petal and radar diagrams, heat maps, RadViz and star coordinates every solution at its (normalized) values, each set in its own style and with its own label, fitness landscapes and value functions the values of the problem or function over its range, animations the population of the iteration shown. Nothing is dropped, repeated or attributed to another solution, the axes given are used, and neither the data nor the options given are modified.",
 over=["inputs", "configurations"], q="every list of data sets of any size, number of objectives, bounds, reversal, labels, colours and axes given",
 why="The tests only draw one plot of each kind and never look at what has been drawn.",
 files=["pymoo/core/plot.py", "pymoo/visualization"],
 mech=[("adding data and drawing", "pymoo/core/plot.py: Plot"), ("the kinds of plot", "pymoo/visualization/scatter.py, pcp.py, petal.py, radar.py, radviz.py, star_coordinate.py, heatmap.py, fitness_landscape.py")],
 tech="property-based testing: generated data sets and options, artists found in the figure (off-screen backend) compared with an independent computation of the coordinates", note="the encoding of videos, interactive apps and pixels are not checked"),
dict(id="P38", title="Preferences of a decision maker are understood, modelled and respected",
 statement="Pairwise answers are turned into exactly the order of the decision maker, whatever the order the solutions are shown in and without asking twice. A value function reported to fit ranks the solutions as the decision maker did with at least the margin reported, and dominance relative to a value function prefers exactly the solutions better than the one compared with. Interactive runs ask at the intervals set about at most the given number of different solutions of the population, and the same answers and seed give the same run.",
 over=["inputs", "histories"], q="every consistent decision maker, set of solutions, order of presentation, kind of value function, optimizer and interactive run",
 why="The tests fit value functions to a handful of fixed points and run the interactive algorithm with one decision maker, without comparing the model with the answers.",
 files=["pymoo/algorithms/moo/pinsga2.py", "pymoo/util/value_functions.py", "pymoo/util/vf_dominator.py"],
 mech=[("ranking by comparisons", "pymoo/algorithms/moo/pinsga2.py: _get_pairwise_ranks, _get_ranks"), ("fitting value functions", "pymoo/util/value_functions.py"), ("domination", "pymoo/util/vf_dominator.py: VFDominator")],
 tech="property-based testing: hidden utility functions as decision makers, fitted models checked against the constraints they claim, a relation computed pair by pair, repeated runs", note="the decision maker is consistent; whether a value function is found at all is only claimed for linear ones from linear preferences"),
]
