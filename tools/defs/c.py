D = [
dict(id="P10", title="Crossover produces valid offspring made of their own parents",
 statement="A crossover returns, for every mating, the promised number of new individuals of the problem's type and inside its bounds without touching the parents: exchange operators (uniform, half-uniform, k-point, exponential, binomial) put at every position a value one of the mating's parents has there (complementary in the two offspring), order and edge recombination return permutations that keep the inherited segment respectively the parents' edges, and real-coded operators (SBX, PCX, DE) follow their published formulas and distributions. The given probability decides per mating whether crossover happens at all; matings that do not cross over return copies of their parents. Results depend only on the parents and the random state, not on whether parents are passed as matings or as a population with indices.",
 over=["inputs", "configurations"], q="every operator and parameter setting, every number of matings, variables and parents, every variable type, every random state",
 why="The tests run each operator in an algorithm and look at convergence or one fixed mating; validity and distribution are properties over all matings and seeds.",
 files=["pymoo/core/crossover.py", "pymoo/operators/crossover/sbx.py", "pymoo/operators/crossover/pntx.py", "pymoo/operators/crossover/ux.py", "pymoo/operators/crossover/hux.py", "pymoo/operators/crossover/ox.py", "pymoo/operators/crossover/erx.py", "pymoo/operators/crossover/dex.py", "pymoo/operators/crossover/pcx.py", "pymoo/operators/crossover/expx.py", "pymoo/operators/crossover/binx.py", "pymoo/operators/crossover/nox.py"],
 mech=[("Crossover.do", "pymoo/core/crossover.py"), ("cross_sbx", "pymoo/operators/crossover/sbx.py"), ("PointCrossover", "pymoo/operators/crossover/pntx.py"), ("ox/erx", "pymoo/operators/crossover/ox.py"), ("DEX", "pymoo/operators/crossover/dex.py")],
 tech="property-based testing of operators: membership, permutation and formula oracles, statistical tests of distributions", note="random matings; distribution tests with error probability 1e-12; one known finding (SBX exchange)"),
dict(id="P11", title="Mutation changes what it should and keeps points valid",
 statement="A mutation returns one individual per given individual, valid for the problem (in bounds, right type, permutation stays a permutation); with probability zero nothing changes, with the in-place option off the given individuals stay as they are. The probability per individual and per variable decide exactly which values may change, and by what law: polynomial and Gaussian mutation follow their published distributions around the parent in any bounds, bit flip inverts, inversion reverses one segment, choice mutation resamples among the options. The result depends only on the individuals and the random state.",
 over=["inputs", "configurations"], q="every operator, probability, distribution index, bounds, variable type and random state",
 why="The tests call a mutation once on a fixed population and compare shapes or a golden value.",
 files=["pymoo/core/mutation.py", "pymoo/operators/mutation/pm.py", "pymoo/operators/mutation/gauss.py", "pymoo/operators/mutation/bitflip.py", "pymoo/operators/mutation/inversion.py", "pymoo/operators/mutation/rm.py"],
 mech=[("Mutation.do", "pymoo/core/mutation.py"), ("mut_pm", "pymoo/operators/mutation/pm.py"), ("mut_gauss", "pymoo/operators/mutation/gauss.py"), ("inversion_mutation", "pymoo/operators/mutation/inversion.py")],
 tech="property-based testing of operators: validity oracles and statistical tests of distributions", note="random populations; distribution tests with error probability 1e-12"),
dict(id="P13", title="Selection picks valid parents fairly and by the given comparison",
 statement="Selection returns the requested number of matings of valid population members: random selection uses every member equally often up to one and with distinct parents where possible, tournament selection lets the user's comparison decide among participants that are drawn equally often, neighbourhood selection stays inside the neighbourhood unless the given probability says otherwise, and restricted mating chooses between two archives by their shares of the non-dominated solutions. Selection for differential evolution returns mutually different individuals, the target vector and best vector where the variant says so; filling index tables yields rows without repetition. The population itself is not changed and the random state alone determines the outcome.",
 over=["inputs", "configurations"], q="every population size, number of matings and parents, tournament pressure, variant and random state",
 why="Tests only run selection inside algorithms; a biased or repeated choice still converges on easy problems.",
 files=["pymoo/core/selection.py", "pymoo/operators/selection/rnd.py", "pymoo/operators/selection/tournament.py", "pymoo/util/misc.py"],
 mech=[("TournamentSelection", "pymoo/operators/selection/tournament.py"), ("RandomSelection", "pymoo/operators/selection/rnd.py"), ("fast_fill_random", "pymoo/operators/selection/des.py")],
 tech="property-based testing with exact counting oracles and a recording comparison function", note="random populations up to 20, tables up to 60 rows"),
dict(id="P14", title="Mating fills up the offspring with new, valid, repaired individuals",
 statement="Mating returns at most the requested number of offspring, and exactly that many without duplicate elimination or while new ones can be found within the limit of iterations; each round asks for what is still missing. With duplicate elimination no offspring equals another offspring or a member of the population; every offspring is a new, unevaluated individual, valid for the problem and repaired by the user's repair, and the population and its individuals stay untouched. In a genetic algorithm built from these operators the population's size is as configured and every member's objective values belong to its variables, generation after generation.",
 over=["inputs", "histories", "configurations"], q="every combination of selection, crossover, mutation, repair and duplicate elimination for every variable type, population and offspring size",
 why="Tests run the usual operator combinations on usual sizes; partial fills, single-offspring operators and exhausted domains are not sampled.",
 files=["pymoo/core/infill.py", "pymoo/core/mating.py", "pymoo/algorithms/base/genetic.py", "pymoo/algorithms/moo/moead.py"],
 mech=[("InfillCriterion.do", "pymoo/core/infill.py"), ("Mating", "pymoo/core/mating.py"), ("GeneticAlgorithm._infill", "pymoo/algorithms/base/genetic.py")],
 tech="model-based testing of the filling loop and property-based testing of operator combinations", note="populations up to 12 over small domains that run out of new points; one known finding (ParallelMOEAD pools)"),
dict(id="P15", title="Mixed-variable problems keep every variable of its declared type",
 statement="For every problem declared by a dictionary of variables (real, integer, binary, choice with options of any kind), sampling, mating and whole optimization runs yield points with exactly those keys where each value is of its type, within its bounds or among its options, and unchanged in kind (strings stay strings, numbers stay numbers). Points that agree in every variable are duplicates and no others; duplicate elimination removes exactly those. What the user's function receives is what the result reports.",
 over=["inputs", "histories", "configurations"], q="every composition of variable types, bounds and options; populations of any size; every random state",
 why="Tests use two fixed mixed-variable problems.",
 files=["pymoo/core/variable.py", "pymoo/core/mixed.py"],
 mech=[("MixedVariableMating/Sampling", "pymoo/core/mixed.py"), ("Variable.sample", "pymoo/core/variable.py"), ("MixedVariableDuplicateElimination", "pymoo/core/mixed.py")],
 tech="property-based testing with type oracles and pairwise comparison", note="up to 6 variables; runs of a few generations"),
]
