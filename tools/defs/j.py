D = [
dict(id="P39", title="Single-objective searches make the moves that define them",
 statement="Each single-objective method evaluates the points its definition prescribes for its parameters: univariate searches keep the minimum bracketed in a shrinking part of the interval given, Nelder-Mead and pattern search follow the rules of the textbook step by step, DIRECT splits the potentially optimal boxes into thirds, particles remember their best position and hear of those of their neighbours, differential evolution, evolution strategies, biased random keys and G3-PCX create and replace solutions as described. Nothing better than what is kept is thrown away, and violated constraints always count before the objective.",
 over=["inputs", "configurations", "histories"], q="every function (constrained or not), start, interval, parameter setting and number of steps",
 why="The tests compare final values of single runs on a sphere or a constrained toy problem, which a method with wrong moves still reaches.",
 files=["pymoo/algorithms/soo"],
 mech=[("univariate searches", "pymoo/algorithms/soo/univariate/golden.py, quadr_interp.py"), ("local searches", "pymoo/algorithms/soo/nonconvex/nelder.py, pattern.py, direct.py"), ("populations", "pymoo/algorithms/soo/nonconvex/pso.py, pso_ep.py, es.py, sres.py, isres.py, brkga.py, g3pcx.py, de.py"), ("replacement", "pymoo/core/replacement.py: ImprovementReplacement")],
 tech="property-based testing: executable models of the methods followed move by move through generated runs (state machines compared with the points really evaluated), invariants over generations", note="the line searches (Wolfe, exponential) are unfinished in the code and not claimed; CMA-ES itself is an external library"),
dict(id="P40", title="Populations evolve generation by generation as the methods prescribe",
 statement="In every generation of a genetic algorithm the requested number of offspring is created from selected members of the current population by crossover and mutation, and the survivors are members of the merged population: first the feasible solutions front by front (or by objective value), then the least violated ones, split only in the last front. Decomposition based methods mate within neighbourhoods and replace a neighbour only by a better solution for its sub-problem, differential evolution compares each trial with its own parent, particle swarms follow their leaders and remember the best positions, and reference vectors follow the range of the objectives at the prescribed frequency.",
 over=["inputs", "configurations", "histories"], q="every problem (constrained or not), every size, parameter setting and number of generations",
 why="The tests compare final hypervolumes or distances with loose thresholds, which a method with a wrong selection, replacement or neighbourhood still reaches.",
 files=["pymoo/algorithms/base/genetic.py", "pymoo/algorithms/moo/moead.py", "pymoo/algorithms/moo/gde3.py", "pymoo/algorithms/moo/nsde.py", "pymoo/algorithms/moo/mopso_cd.py", "pymoo/algorithms/moo/cmopso.py", "pymoo/algorithms/moo/rvea.py", "pymoo/core/mating.py"],
 mech=[("GeneticAlgorithm", "pymoo/algorithms/base/genetic.py"), ("neighbourhoods", "pymoo/algorithms/moo/moead.py"), ("trials", "pymoo/algorithms/moo/gde3.py, nsder.py"), ("swarms", "pymoo/algorithms/moo/mopso_cd.py, cmopso.py"), ("reference vectors", "pymoo/algorithms/moo/rvea.py")],
 tech="property-based testing: generated runs followed generation by generation from outside (ask and tell) with spying operators and an executable model of each method", note="NicheGA's and RVEA's treatment of infeasible solutions and C-TAEA's second archive are only partly specified"),
dict(id="P41", title="Recorders and shared building blocks compute what they promise",
 statement="Recorders store one entry per generation, or one whenever a further multiple of the requested number of evaluations is reached, with the evaluations, violation, objective value, gap and distances to the known front of that moment. The shared building blocks agree with their definitions for every input: pairwise and normalized distances in every shape, duplicates and groups of equal values, subsets and combinations, defaults and filters, masks, sliding windows, remembered first calls, randomized sorting, selection in proportion to values, and the largest step within bounds. They do not change what they are given unless asked to.",
 over=["inputs", "histories"], q="every input with ties, repetitions, empty parts and any shape; every history of a window, cache or recorded run",
 why="These helpers have hardly any tests of their own; algorithms and metrics silently rely on them.",
 files=["pymoo/core/recorder.py", "pymoo/util/misc.py", "pymoo/util/sliding_window.py", "pymoo/util/cache.py", "pymoo/util/roulette.py", "pymoo/util/randomized_argsort.py", "pymoo/util/vectors.py"],
 mech=[("Recorder", "pymoo/core/recorder.py"), ("vectorized_cdist and helpers", "pymoo/util/misc.py"), ("SlidingWindow, Cache, RouletteWheelSelection, randomized_argsort", "pymoo/util")],
 tech="property-based testing against definitions; model-based histories for windows and caches; frequencies for random selection", note="quicksort-based randomized sorting draws from an unseeded source (only its order is claimed); values are finite"),
]
