D = [
dict(id="P29", title="Reference directions lie on the unit simplex as asked for",
 statement="Das-Dennis directions are exactly the lattice of the simplex for every dimension and partition or number of points; layers, scaling, incremental, energy based, reduced, mapped and sampled directions lie on the unit simplex in the number asked for, keep the fixed points and are never worse than the directions they start from. The same seed gives the same directions and the inputs and the global random state stay unchanged. Measures of uniformity equal their definitions.",
 over=["inputs", "configurations"], q="every dimension, number of partitions or points, layer, scaling, seed and set of given points",
 why="The tests compare a few stored sets and do not construct layers, reductions or energies in general.",
 files=["pymoo/util/ref_dirs", "pymoo/util/reference_direction.py"],
 mech=[("get_reference_directions", "pymoo/util/ref_dirs/__init__.py"), ("RieszEnergyReferenceDirectionFactory", "pymoo/util/ref_dirs/energy.py"), ("select_points_with_maximum_distance/map_onto_unit_simplex", "pymoo/util/reference_direction.py"), ("performance", "pymoo/util/ref_dirs/performance.py")],
 tech="property-based testing against the enumerated lattice, naive definitions and finite differences of the energy", note="up to 800 lattice points; energy with few iterations; layer energy needs at least 3 objectives"),
dict(id="P33", title="Gradients are the derivatives of the values",
 statement="Gradients of objectives and constraints given by automatic, complex-step or finite differences are the derivatives of the values, in the shape belonging to the requested values and points, elementwise or vectorized, and computing them changes neither values nor the active numeric backend. A derivative which cannot be computed is an error and not a wrong number. The KKT proximity of a point is computed from those gradients and does not change what it is given.",
 over=["inputs", "configurations"], q="every differentiable problem, point, number of rows, way of differentiation and set of requested values",
 why="The tests compare gradients of a handful of problems at a few points.",
 files=["pymoo/gradient", "pymoo/gradient/grad_complex.py", "pymoo/indicators/kktpm.py"],
 mech=[("AutomaticDifferentiation/ElementwiseAutomaticDifferentiation", "pymoo/gradient/automatic.py"), ("ComplexNumberGradient", "pymoo/gradient/grad_complex.py"), ("activate/deactivate", "pymoo/gradient/__init__.py"), ("KKTPM", "pymoo/indicators/kktpm.py")],
 tech="property-based testing: differential testing between ways of differentiation and central differences of an independent evaluation", note="points away from kinks; problems using abs or floor are excluded for the complex step"),
]
