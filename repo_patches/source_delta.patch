From 5738a2a7e014f5d1e9d4455ad0903faa29e84a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:58 +0000
Subject: [PATCH 001/129] fix: native bi-objective sorting mis-ranked
 duplicates and ties in the first objective

---
 pymoo/functions/standard/non_dominated_sorting.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pymoo/functions/standard/non_dominated_sorting.py b/pymoo/functions/standard/non_dominated_sorting.py
index 64de372..484ab65 100644
--- a/pymoo/functions/standard/non_dominated_sorting.py
+++ b/pymoo/functions/standard/non_dominated_sorting.py
@@ -104,8 +104,8 @@ def _fast_biobjective_nondominated_sort(F):
     if n_points == 0:
         return []
 
-    # Sort by first objective ascending
-    sorted_indices = np.argsort(F[:, 0])
+    # Sort by first objective ascending (ties are broken by the second objective)
+    sorted_indices = np.lexsort((F[:, 1], F[:, 0]))
     sorted_F = F[sorted_indices]
 
     fronts = []
@@ -128,7 +128,8 @@ def _fast_biobjective_nondominated_sort(F):
             if current_indices:  # If there are already points in the current front
                 # Since points are sorted by first objective, we only need to check
                 # if its second objective is greater than the minimum second objective in front
-                if sorted_F[i, 1] >= min_second_obj:
+                # (a duplicate of the last point added to the front is not dominated by it)
+                if sorted_F[i, 1] >= min_second_obj and np.any(sorted_F[i] != sorted_F[current_indices[-1]]):
                     is_dominated = True
 
             if not is_dominated:
-- 
2.43.0


From 42c194b4b1ba2131e3d4ecdd290b8ac4b4f4b804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 002/129] fix: tree based sorting put duplicates of a point
 into later fronts

---
 pymoo/functions/standard/non_dominated_sorting.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pymoo/functions/standard/non_dominated_sorting.py b/pymoo/functions/standard/non_dominated_sorting.py
index 484ab65..76df6d0 100644
--- a/pymoo/functions/standard/non_dominated_sorting.py
+++ b/pymoo/functions/standard/non_dominated_sorting.py
@@ -361,10 +361,10 @@ def tree_based_non_dominated_sort(F):
     Returns:
         List of fronts.
     """
+    # sort the rows in F (lexicographically); duplicates share a node of the tree, as they share a rank
+    F, inverse = np.unique(F, axis=0, return_inverse=True)
+    inverse = inverse.ravel()
     N, M = F.shape
-    # sort the rows in F
-    indices = np.lexsort(F.T[::-1])
-    F = F[indices]
 
     obj_seq = np.argsort(F[:, :0:-1], axis=1) + 1
 
@@ -383,7 +383,8 @@ def tree_based_non_dominated_sort(F):
     # convert forest to fronts
     fronts = [[] for _ in range(k)]
     for k, tree in enumerate(forest):
-        fronts[k].extend([indices[node.key] for node in tree.traversal()])
+        keys = [node.key for node in tree.traversal()]
+        fronts[k].extend(np.where(np.isin(inverse, keys))[0])
     return fronts
 
 
-- 
2.43.0


From 95fc0575ab7f536eeca4a86144809845af650777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 003/129] fix: fast_best_order_sort mis-ranked duplicates and
 ties and read past the index matrix

---
 .../compiled/non_dominated_sorting.pyx        | 23 ++++++-------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/pymoo/functions/compiled/non_dominated_sorting.pyx b/pymoo/functions/compiled/non_dominated_sorting.pyx
index b30cc2b..f42c019 100644
--- a/pymoo/functions/compiled/non_dominated_sorting.pyx
+++ b/pymoo/functions/compiled/non_dominated_sorting.pyx
@@ -256,8 +256,8 @@ cdef vector[vector[int]] c_best_order_sort(double[:,:] F):
 cdef vector[vector[int]] c_fast_best_order_sort(double[:,:] F):
 
     cdef:
-        int n_points, n_obj, n_fronts, n_ranked, i, j, s, e, l, z, s_next
-        vector[int] rank, counter, check_if_equal
+        int n_points, n_obj, n_fronts, n_ranked, i, j, s, e, l, z
+        vector[int] rank, counter
         int[:,:] Q
         bool is_dominated
         vector[vector[int]] fronts, empty ,C
@@ -270,8 +270,10 @@ cdef vector[vector[int]] c_fast_best_order_sort(double[:,:] F):
 
     _Q = np.zeros((n_points, n_obj), dtype=np.intc)
     _Q[:, 0] = np.lexsort(F[:, ::-1].T, axis=0)
+    # ties in an objective are broken by the position in the lexicographical order
+    pos = np.argsort(_Q[:, 0])
     for j in range(1, n_obj):
-        _Q[:, j] = np.lexsort(np.vstack([_Q[:, 0], F[:, j]]), axis=0)
+        _Q[:, j] = np.lexsort(np.vstack([pos, F[:, j]]), axis=0)
     Q = _Q[:,:]
 
 
@@ -286,10 +288,6 @@ cdef vector[vector[int]] c_fast_best_order_sort(double[:,:] F):
             counter[s] += 1
     counter = vector[int](n_points)
 
-    check_if_equal = vector[int]()
-    for j in range(n_points):
-        check_if_equal.push_back(-1)
-
     rank = vector[int]()
     for i in range(n_points):
         rank.push_back(-1)
@@ -310,18 +308,10 @@ cdef vector[vector[int]] c_fast_best_order_sort(double[:,:] F):
 
             # index of the current solution
             s = Q[i, j]
-            s_next = Q[i + 1, j]
 
             # increase the counter for comparing this objective
             counter[s] += 1
 
-            # if not the last solution
-            if i < n_points - 1:
-                if check_if_equal[s] == -1:
-                    check_if_equal[s] = s_next
-                elif check_if_equal[s] != s_next:
-                    check_if_equal[s] = -2
-
             # if solution was already ranked before - just append it to the corresponding front
             if rank[s] != -1:
                 L[j][rank[s]].push_back(s)
@@ -345,7 +335,8 @@ cdef vector[vector[int]] c_fast_best_order_sort(double[:,:] F):
                         # get the domination relation - might return true even if equal
                         is_dominated = c_is_dominating_or_equal(F, e, s, C, counter[s])
 
-                        if is_dominated and check_if_equal[e] == s:
+                        # a duplicate has the same rank
+                        if is_dominated:
                             is_equal = c_is_equal(F, s, e)
 
                         # if just one solution dominates the current one - go to the next front
-- 
2.43.0


From bf1bbcc3fa690913fe6f58cd0fae6db123a46eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 004/129] fix: a cached constraint violation outlived a change
 of the constraint values

---
 pymoo/core/individual.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymoo/core/individual.py b/pymoo/core/individual.py
index d35cf3d..7a198c2 100644
--- a/pymoo/core/individual.py
+++ b/pymoo/core/individual.py
@@ -206,6 +206,7 @@ class Individual:
             value: The inequality constraint vector for the individual.
         """
         self._G = value
+        self._CV = None  # the cached constraint violation is not valid anymore
 
     @property
     def H(self) -> np.ndarray:
@@ -224,6 +225,7 @@ class Individual:
             value: The equality constraint vector for the individual.
         """
         self._H = value
+        self._CV = None  # the cached constraint violation is not valid anymore
 
     @property
     def CV(self) -> np.ndarray:
-- 
2.43.0


From d40c1c855db06d85195b9cc3d56c5929d897fd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 005/129] fix: problems evaluated with joblib or ray could not
 be copied or pickled

---
 pymoo/parallelization/joblib.py | 11 ++++++++++-
 pymoo/parallelization/ray.py    | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/pymoo/parallelization/joblib.py b/pymoo/parallelization/joblib.py
index ef47624..228b723 100644
--- a/pymoo/parallelization/joblib.py
+++ b/pymoo/parallelization/joblib.py
@@ -24,4 +24,13 @@ class JoblibParallelization:
             return parallel(self.joblib.delayed(f)(x) for x in X)
 
     def __getstate__(self):
-        return self.__dict__.copy()
+        # a module can not be pickled
+        state = self.__dict__.copy()
+        state.pop("joblib", None)
+        return state
+
+    def __setstate__(self, state):
+        import joblib
+
+        self.__dict__.update(state)
+        self.joblib = joblib
diff --git a/pymoo/parallelization/ray.py b/pymoo/parallelization/ray.py
index 943dad3..1aa48e5 100644
--- a/pymoo/parallelization/ray.py
+++ b/pymoo/parallelization/ray.py
@@ -26,4 +26,13 @@ class RayParallelization:
         return self.ray.get(futures)
 
     def __getstate__(self):
-        return self.__dict__.copy()
+        # a module can not be pickled
+        state = self.__dict__.copy()
+        state.pop("ray", None)
+        return state
+
+    def __setstate__(self, state):
+        import ray
+
+        self.__dict__.update(state)
+        self.ray = ray
-- 
2.43.0


From 8ec396838e53cf307514457fcda38bb069c6d480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 006/129] fix: hash based duplicate elimination applied the
 user's key function twice

---
 pymoo/core/duplicate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/core/duplicate.py b/pymoo/core/duplicate.py
index ff76312..440eed9 100644
--- a/pymoo/core/duplicate.py
+++ b/pymoo/core/duplicate.py
@@ -140,11 +140,11 @@ class HashDuplicateElimination(DuplicateElimination):
         if other is not None:
             for o in other:
                 val = self.func(o)
-                H.add(self.func(val))
+                H.add(to_hash(val))
 
         for i, ind in enumerate(pop):
             val = self.func(ind)
-            h = self.func(val)
+            h = to_hash(val)
 
             if h in H:
                 is_duplicate[i] = True
-- 
2.43.0


From b3a3cc6f1656b676a625d8357f76b677b6d91a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 007/129] fix: get_duplicates read past the end when the last
 rows are equal

---
 pymoo/util/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/util/misc.py b/pymoo/util/misc.py
index 6af885c..7cdbb5d 100644
--- a/pymoo/util/misc.py
+++ b/pymoo/util/misc.py
@@ -146,7 +146,7 @@ def get_duplicates(M: Any) -> list:
 
     while i < S.shape[0] - 1:
         l = []  # noqa: E741
-        while np.all(S[i, :] == S[i + 1, :]):
+        while i < S.shape[0] - 1 and np.all(S[i, :] == S[i + 1, :]):
             l.append(I[i])
             i += 1
         if len(l) > 0:
-- 
2.43.0


From ffabbc4d2615c3334da1c4bb6ea75877d0a9b293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 008/129] fix: bounce-back and periodic repair returned NaN for
 a variable with equal bounds

---
 pymoo/operators/repair/bounce_back.py   | 7 +++++--
 pymoo/operators/repair/bounds_repair.py | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pymoo/operators/repair/bounce_back.py b/pymoo/operators/repair/bounce_back.py
index 6cf33f9..5a53cc9 100644
--- a/pymoo/operators/repair/bounce_back.py
+++ b/pymoo/operators/repair/bounce_back.py
@@ -24,9 +24,12 @@ def bounce_back(X, xl, xu):
     xu = np.repeat(xu[None, :], X.shape[0], axis=0)
 
     # otherwise bounds back into the feasible space
+    # (there is no space to bounce back into if the lower and upper bound are equal)
     _range = xu - xl
-    X[X < xl] = (xl + np.mod((xl - X), _range))[X < xl]
-    X[X > xu] = (xu - np.mod((X - xu), _range))[X > xu]
+    dist = np.maximum(xl - X, X - xu)
+    dist = np.mod(dist, _range, out=np.zeros_like(dist), where=_range > 0)
+    X[X < xl] = (xl + dist)[X < xl]
+    X[X > xu] = (xu - dist)[X > xu]
 
     if only_1d:
         return X[0, :]
diff --git a/pymoo/operators/repair/bounds_repair.py b/pymoo/operators/repair/bounds_repair.py
index 7b9c16e..4c89b0b 100644
--- a/pymoo/operators/repair/bounds_repair.py
+++ b/pymoo/operators/repair/bounds_repair.py
@@ -114,13 +114,16 @@ def repair_periodic(Xp, xl, xu):
     """
     XL, XU = repeat_bounds(xl, xu, len(Xp))
 
+    # if the lower and upper bound are equal there is only one value possible
     S = XU - XL
+    dist = np.maximum(XL - Xp, Xp - XU)
+    dist = np.mod(dist, S, out=np.zeros_like(dist), where=S > 0)
 
     I = np.where(Xp < XL)  # noqa: E741
-    Xp[I] = XU[I] - (XL[I] - Xp[I]) % S[I]
+    Xp[I] = XU[I] - dist[I]
 
     I = np.where(Xp > XU)  # noqa: E741
-    Xp[I] = XL[I] + (Xp[I] - XU[I]) % S[I]
+    Xp[I] = XL[I] + dist[I]
 
     return Xp
 
-- 
2.43.0


From 37b9f72b2418045ff581f0b0d9ca719bd42138a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:09 +0000
Subject: [PATCH 009/129] fix: offsprings of NoCrossover were the parents
 themselves, mutated in place with stale objective values

---
 pymoo/operators/crossover/nox.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pymoo/operators/crossover/nox.py b/pymoo/operators/crossover/nox.py
index 82146a1..846efd7 100644
--- a/pymoo/operators/crossover/nox.py
+++ b/pymoo/operators/crossover/nox.py
@@ -1,6 +1,9 @@
 """No-crossover (pass-through) operator."""
 
+from copy import deepcopy
+
 from pymoo.core.crossover import Crossover
+from pymoo.core.individual import Individual
 from pymoo.core.population import Population
 
 
@@ -24,4 +27,6 @@ class NoCrossover(Crossover):
                 offsprings.extend(parents)
                 extra = self.n_offsprings - self.n_parents
                 offsprings.extend(random_state.choice(parents, size=extra, replace=True))
-        return Population.create(*offsprings)
+
+        # the offsprings are new individuals - otherwise a mutation would modify the (evaluated) parents in place
+        return Population.create(*[Individual(X=deepcopy(parent.X)) for parent in offsprings])
-- 
2.43.0


From 226283064af583b11d5597b543ddbdedbb348f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:09 +0000
Subject: [PATCH 010/129] fix: DEX and Gaussian mutation repaired out of bounds
 values with an unseeded random state

---
 pymoo/operators/crossover/dex.py  | 2 +-
 pymoo/operators/mutation/gauss.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/operators/crossover/dex.py b/pymoo/operators/crossover/dex.py
index 71ce93c..b768ce1 100644
--- a/pymoo/operators/crossover/dex.py
+++ b/pymoo/operators/crossover/dex.py
@@ -114,7 +114,7 @@ class DEX(Crossover):
                 Xp[m] = de_differential(X[:, m], F, random_state=random_state)
 
             # if still infeasible do a random initialization
-            Xp = repair_random_init(Xp, X[0], *problem.bounds())
+            Xp = repair_random_init(Xp, X[0], *problem.bounds(), random_state=random_state)
 
         if self.variant == "bin":
             M = mut_binomial(
diff --git a/pymoo/operators/mutation/gauss.py b/pymoo/operators/mutation/gauss.py
index 57417f4..4d1b324 100644
--- a/pymoo/operators/mutation/gauss.py
+++ b/pymoo/operators/mutation/gauss.py
@@ -31,7 +31,7 @@ def mut_gauss(X, xl, xu, sigma, prob, random_state=None):
 
     Xp[mut] = random_state.normal(X[mut], sigma * (_xu - _xl))
 
-    Xp = repair_random_init(Xp, X, xl, xu)
+    Xp = repair_random_init(Xp, X, xl, xu, random_state=random_state)
 
     return Xp
 
-- 
2.43.0


From 501f8f83e3f44ec638c3d7fb01673900ce27d495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 011/129] fix: inversion mutation applied its probability twice

---
 pymoo/operators/mutation/inversion.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pymoo/operators/mutation/inversion.py b/pymoo/operators/mutation/inversion.py
index 0a3f5c0..cda9769 100644
--- a/pymoo/operators/mutation/inversion.py
+++ b/pymoo/operators/mutation/inversion.py
@@ -28,14 +28,12 @@ class InversionMutation(Mutation):
         Args:
             prob: Probability to apply the mutation to the individual.
         """
-        super().__init__()
-        self.prob = prob
+        super().__init__(prob=prob)
 
     def _do(self, problem, X, random_state=None, **kwargs):
         Y = X.copy()
         for i, y in enumerate(X):
-            if random_state.random() < self.prob:
-                seq = random_sequence(len(y), random_state=random_state)
-                Y[i] = inversion_mutation(y, seq, inplace=True)
+            seq = random_sequence(len(y), random_state=random_state)
+            Y[i] = inversion_mutation(y, seq, inplace=False)
 
         return Y
-- 
2.43.0


From 2e325ed63b5b03f5ee5becc257319e17f406275f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:52 +0000
Subject: [PATCH 012/129] fix: fast_fill_random redrew the wrong rows after its
 second attempt

---
 pymoo/operators/selection/rnd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/operators/selection/rnd.py b/pymoo/operators/selection/rnd.py
index bb916f9..e722520 100644
--- a/pymoo/operators/selection/rnd.py
+++ b/pymoo/operators/selection/rnd.py
@@ -50,7 +50,7 @@ def fast_fill_random(X, N, columns=None, Xp=None, n_max_attempts=10, random_stat
             else:
                 X[rem, col] = random_state.permutation(N)[: len(rem)]
 
-            rem = np.where((X[rem, col][:, None] == D[rem]).any(axis=1))[0]
+            rem = rem[(X[rem, col][:, None] == D[rem]).any(axis=1)]
 
             if len(rem) == 0:
                 break
-- 
2.43.0


From 69c81c538a401ba99097798dd5eddd41f3bd0055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 013/129] fix: Choice variables with options of mixed types
 were sampled as strings

---
 pymoo/core/variable.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pymoo/core/variable.py b/pymoo/core/variable.py
index bdc4abe..3ec8f7e 100644
--- a/pymoo/core/variable.py
+++ b/pymoo/core/variable.py
@@ -244,7 +244,13 @@ class Choice(Variable):
         Returns:
             Array of shape (n,) containing sampled choices.
         """
-        return random_state.choice(self.options, size=n)
+        options = self.options
+
+        # numpy would convert a mixture of strings and other types (e.g. numbers) to strings
+        if len({isinstance(option, str) for option in options}) > 1:
+            options = np.array(options, dtype=object)
+
+        return random_state.choice(options, size=n)
 
 
 def get(
-- 
2.43.0


From 2f5ab0e3a75609e627d5c2dbd0bb922d7410e950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 014/129] fix: compiled crowding metrics read out of bounds,
 used neighbors twice and normalized the caller's array

---
 pymoo/functions/compiled/mnn.pyx        | 26 +++++++++++++------
 pymoo/functions/compiled/pruning_cd.pyx | 33 ++++++++++++++++++++-----
 2 files changed, 46 insertions(+), 13 deletions(-)

diff --git a/pymoo/functions/compiled/mnn.pyx b/pymoo/functions/compiled/mnn.pyx
index 1f754cd..e051b74 100644
--- a/pymoo/functions/compiled/mnn.pyx
+++ b/pymoo/functions/compiled/mnn.pyx
@@ -53,7 +53,8 @@ def calc_mnn(double[:, :] X, int n_remove=0):
     for n in extremes_max:
         extremes.insert(n)
 
-    X = c_normalize_array(X, extremes_max, extremes_min)
+    # normalize a copy - the array belongs to the caller
+    X = c_normalize_array(np.array(X), extremes_max, extremes_min)
 
     return c_calc_mnn(X, n_remove, N, M, extremes)
 
@@ -68,6 +69,9 @@ def calc_2nn(double[:, :] X, int n_remove=0):
     N = X.shape[0]
     M = X.shape[1]
 
+    if N <= max(M, 2):
+        return np.full(N, HUGE_VAL)
+
     if n_remove <= (N - M):
         if n_remove < 0:
             n_remove = 0
@@ -87,7 +91,8 @@ def calc_2nn(double[:, :] X, int n_remove=0):
     for n in extremes_max:
         extremes.insert(n)
 
-    X = c_normalize_array(X, extremes_max, extremes_min)
+    # normalize a copy - the array belongs to the caller
+    X = c_normalize_array(np.array(X), extremes_max, extremes_min)
 
     M = 2
 
@@ -195,6 +200,7 @@ cdef c_calc_mnn_iter(
 
     cdef:
         int i, j, m
+        bool is_neighbor
 
     # Iterate over items to calculate
     for i in calc_items:
@@ -206,8 +212,18 @@ cdef c_calc_mnn_iter(
             if (j == i):
                 continue
 
+            # Go to next if already a neighbor
+            is_neighbor = False
+            for m in range(M):
+                if Mnn[i, m] == j:
+                    is_neighbor = True
+                    break
+
+            if is_neighbor:
+                continue
+
             # Replace at least the last neighbor
-            elif (D[i, j] <= D[i, Mnn[i, M-1]]) or (Mnn[i, M-1] == -1):
+            elif (Mnn[i, M-1] == -1) or (D[i, j] <= D[i, Mnn[i, M-1]]):
 
                 # Iterate over current values
                 for m in range(M):
@@ -219,10 +235,6 @@ cdef c_calc_mnn_iter(
                         Mnn[i, m] = j
                         break
 
-                    # Break if checking already corresponding index
-                    elif (j == Mnn[i, m]):
-                        break
-
                     # Distance satisfies condition
                     elif (D[i, j] <= D[i, Mnn[i, m]]):
 
diff --git a/pymoo/functions/compiled/pruning_cd.pyx b/pymoo/functions/compiled/pruning_cd.pyx
index fb7c1b7..74ca675 100644
--- a/pymoo/functions/compiled/pruning_cd.pyx
+++ b/pymoo/functions/compiled/pruning_cd.pyx
@@ -48,7 +48,8 @@ def calc_pcd(double[:, :] X, int n_remove=0):
     _I = np.argsort(X, axis=0, kind='mergesort').astype(np.intc)
     I = _I[:, :]
 
-    X = c_normalize_array(X, extremes_max, extremes_min)
+    # normalize a copy - the array belongs to the caller
+    X = c_normalize_array(np.array(X), extremes_max, extremes_min)
 
     return c_calc_pcd(X, I, n_remove, N, M, extremes)
 
@@ -57,12 +58,18 @@ def calc_pcd(double[:, :] X, int n_remove=0):
 cdef c_calc_pcd(double[:, :] X, int[:, :] I, int n_remove, int N, int M, cpp_set[int] extremes):
 
     cdef:
-        int n, n_removed, k
+        int n, m, n_removed, k
         cpp_set[int] calc_items
         cpp_set[int] H
+        vector[int] is_const
         double[:, :] D
         double[:] d
 
+    # An objective with equal values only does not contribute to the distance
+    is_const = vector[int]()
+    for m in range(M):
+        is_const.push_back(X[I[0, m], m] == X[I[N - 1, m], m])
+
     # Define items to calculate distances
     calc_items = cpp_set[int]()
     for n in range(N):
@@ -92,6 +99,7 @@ cdef c_calc_pcd(double[:, :] X, int[:, :] I, int n_remove, int N, int M, cpp_set
             D,
             N, M,
             calc_items,
+            is_const,
         )
 
     # Obtain distance metrics
@@ -108,7 +116,7 @@ cdef c_calc_pcd(double[:, :] X, int[:, :] I, int n_remove, int N, int M, cpp_set
         n_removed = n_removed + 1
 
         # Get items to be recalculated
-        calc_items = c_get_calc_items(I, k, M, N)
+        calc_items = c_get_calc_items(I, k, M, N - n_removed + 1)
         for n in extremes:
             calc_items.erase(n)
 
@@ -117,8 +125,9 @@ cdef c_calc_pcd(double[:, :] X, int[:, :] I, int n_remove, int N, int M, cpp_set
                 X,
                 I,
                 D,
-                N, M,
+                N - n_removed, M,
                 calc_items,
+                is_const,
             )
 
         # Obtain distance metrics
@@ -134,6 +143,7 @@ cdef c_calc_pcd_iter(
     double[:, :] D,
     int N, int M,
     cpp_set[int] calc_items,
+    vector[int] is_const,
     ):
 
     cdef:
@@ -149,6 +159,14 @@ cdef c_calc_pcd_iter(
 
                 if i == I[n, m]:
 
+                    # The first and last point have a neighbor on one side only
+                    if n == 0 or n == N - 1:
+                        if is_const[m]:
+                            D[i, m] = 0.0
+                        else:
+                            D[i, m] = HUGE_VAL
+                        continue
+
                     l = I[n - 1, m]
                     u = I[n + 1, m]
 
@@ -188,10 +206,13 @@ cdef cpp_set[int] c_get_calc_items(
             if I[n, m] == k:
 
                 # Add to set of items to be recalculated
-                calc_items.insert(I[n - 1, m])
-                calc_items.insert(I[n + 1, m])
+                if n > 0:
+                    calc_items.insert(I[n - 1, m])
+                if n < N - 1:
+                    calc_items.insert(I[n + 1, m])
 
                 # Remove element from sorted array
                 I[n:-1, m] = I[n + 1:, m]
+                break
 
     return calc_items
-- 
2.43.0


From a90635dd53684e5918aadffc7dbcd43ecfc67aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 015/129] fix: Python crowding metrics returned NaN for a
 constant objective and another scale than the compiled ones

---
 pymoo/functions/standard/mnn.py        |  6 ++++--
 pymoo/functions/standard/pruning_cd.py | 18 ++++++++++--------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/pymoo/functions/standard/mnn.py b/pymoo/functions/standard/mnn.py
index 5c206ea..b230479 100644
--- a/pymoo/functions/standard/mnn.py
+++ b/pymoo/functions/standard/mnn.py
@@ -44,7 +44,7 @@ def calc_mnn_base(X, n_remove=0, twonn=False):
     N = X.shape[0]
     M = X.shape[1]
 
-    if N <= M:
+    if N <= max(M, 2):
         return np.full(N, np.inf)
 
     if n_remove <= (N - M):
@@ -66,7 +66,9 @@ def calc_mnn_base(X, n_remove=0, twonn=False):
 
     extremes = np.concatenate((extremes_min, extremes_max))
 
-    X = (X - min_vals) / (max_vals - min_vals)
+    # if all values of an objective are equal it does not contribute to the distances
+    norm = max_vals - min_vals
+    X = (X - min_vals) / np.where(norm == 0, 1.0, norm)
 
     H = np.arange(N)
 
diff --git a/pymoo/functions/standard/pruning_cd.py b/pymoo/functions/standard/pruning_cd.py
index 15ff206..6772a96 100644
--- a/pymoo/functions/standard/pruning_cd.py
+++ b/pymoo/functions/standard/pruning_cd.py
@@ -32,7 +32,9 @@ def calc_pcd(X, n_remove=0):
 
     extremes = np.concatenate((extremes_min, extremes_max))
 
-    X = (X - min_vals) / (max_vals - min_vals)
+    # an objective with equal values only does not contribute to the distance
+    is_const = max_vals == min_vals
+    X = (X - min_vals) / np.where(is_const, 1.0, max_vals - min_vals)
 
     H = np.arange(N)
     d = np.full(N, np.inf)
@@ -49,13 +51,13 @@ def calc_pcd(X, n_remove=0):
     dist_to_last, dist_to_next = dist, np.copy(dist)
     dist_to_last, dist_to_next = dist_to_last[:-1], dist_to_next[1:]
 
-    # if we divide by zero because all values in one columns are equal replace by none
-    dist_to_last[np.isnan(dist_to_last)] = 0.0
-    dist_to_next[np.isnan(dist_to_next)] = 0.0
+    # if all values in one column are equal the distance is zero
+    dist_to_last[:, is_const] = 0.0
+    dist_to_next[:, is_const] = 0.0
 
     # sum up the distance to next and last and norm by objectives - also reorder from sorted list
     J = np.argsort(I, axis=0)
-    _d = np.sum(dist_to_last[J, np.arange(M)] + dist_to_next[J, np.arange(M)], axis=1)
+    _d = np.sum(dist_to_last[J, np.arange(M)] + dist_to_next[J, np.arange(M)], axis=1) / M
     d[H] = _d
     d[extremes] = np.inf
 
@@ -79,11 +81,11 @@ def calc_pcd(X, n_remove=0):
         dist_to_last, dist_to_next = dist, np.copy(dist)
         dist_to_last, dist_to_next = dist_to_last[:-1], dist_to_next[1:]
 
-        dist_to_last[np.isnan(dist_to_last)] = 0.0
-        dist_to_next[np.isnan(dist_to_next)] = 0.0
+        dist_to_last[:, is_const] = 0.0
+        dist_to_next[:, is_const] = 0.0
 
         J = np.argsort(I, axis=0)
-        _d = np.sum(dist_to_last[J, np.arange(M)] + dist_to_next[J, np.arange(M)], axis=1)
+        _d = np.sum(dist_to_last[J, np.arange(M)] + dist_to_next[J, np.arange(M)], axis=1) / M
         d[H] = _d
         d[extremes] = np.inf
 
-- 
2.43.0


From d2219e48715f4d84ab0d788e9f33f70cc58ea2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 016/129] fix: loading a function without a compiled
 implementation failed

---
 pymoo/functions/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pymoo/functions/__init__.py b/pymoo/functions/__init__.py
index 05ece5e..40e0457 100644
--- a/pymoo/functions/__init__.py
+++ b/pymoo/functions/__init__.py
@@ -42,7 +42,6 @@ def get_functions():
         },
         "tree_based_non_dominated_sort": {
             "python": tree_based_non_dominated_sort,
-            "cython": "pymoo.functions.compiled.non_dominated_sorting",
         },
         "dominance_degree_non_dominated_sort": {
             "python": dominance_degree_non_dominated_sort,
@@ -107,13 +106,15 @@ class FunctionLoader:
 
         FUNCTIONS = get_functions()
 
-        if mode == "auto":
-            mode = "cython" if self.is_compiled else "python"
-
         if func_name not in FUNCTIONS:
             raise Exception("Function %s not found: %s" % (func_name, FUNCTIONS.keys()))
 
         func = FUNCTIONS[func_name]
+
+        # not every function has a compiled implementation
+        if mode == "auto":
+            mode = "cython" if self.is_compiled and "cython" in func else "python"
+
         if mode not in func:
             raise Exception("Module not available in %s." % mode)
         func = func[mode]
-- 
2.43.0


From dc1ab5a6a86df851f0ef4e24aa51957eab5cf8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:53 +0000
Subject: [PATCH 017/129] fix: constrained rank and crowding survival broke
 ties with an unseeded random state

---
 .../operators/survival/rank_and_crowding/classes.py  | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pymoo/operators/survival/rank_and_crowding/classes.py b/pymoo/operators/survival/rank_and_crowding/classes.py
index 8db7899..b72978d 100644
--- a/pymoo/operators/survival/rank_and_crowding/classes.py
+++ b/pymoo/operators/survival/rank_and_crowding/classes.py
@@ -129,7 +129,7 @@ class ConstrRankAndCrowding(Survival):
         self.ranking = RankAndCrowding(nds=nds, crowding_func=crowding_func)
 
     def _do(  # type: ignore[override]
-        self, problem, pop, *args, n_survive=None, **kwargs
+        self, problem, pop, *args, random_state=None, n_survive=None, **kwargs
     ) -> Population:
         """Select survivors handling constraints and infeasibility.
 
@@ -137,6 +137,7 @@ class ConstrRankAndCrowding(Survival):
             problem: Optimization problem.
             pop: Population.
             *args: Additional positional arguments.
+            random_state: Random state for reproducibility.
             n_survive: Number of individuals to survive.
             **kwargs: Additional keyword arguments.
 
@@ -164,6 +165,7 @@ class ConstrRankAndCrowding(Survival):
                     problem,
                     pop[feas],
                     *args,
+                    random_state=random_state,
                     n_survive=min(len(feas), n_survive),
                     **kwargs,
                 )
@@ -192,7 +194,9 @@ class ConstrRankAndCrowding(Survival):
                     if len(survivors) + len(front) > n_survive:
                         # Obtain CV of front
                         CV = pop[infeas][front].get("CV").flatten()
-                        I = randomized_argsort(CV, order="ascending", method="numpy")  # noqa: E741
+                        I = randomized_argsort(  # noqa: E741
+                            CV, order="ascending", method="numpy", random_state=random_state
+                        )
                         I = I[: (n_survive - len(survivors))]  # noqa: E741
 
                     # Otherwise take the whole front unsorted
@@ -203,6 +207,8 @@ class ConstrRankAndCrowding(Survival):
                     survivors = Population.merge(survivors, pop[infeas][front[I]])
 
         else:
-            survivors = self.ranking.do(problem, pop, *args, n_survive=n_survive, **kwargs)
+            survivors = self.ranking.do(
+                problem, pop, *args, random_state=random_state, n_survive=n_survive, **kwargs
+            )
 
         return survivors
-- 
2.43.0


From 622bcf4369085ba23f3ac6c7bc513b7861c276e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 018/129] fix: NSGA-III, U-NSGA-III and niching tournaments
 broke ties with an unseeded random state

---
 pymoo/algorithms/moo/nsga3.py                | 1 +
 pymoo/algorithms/moo/unsga3.py               | 1 +
 pymoo/algorithms/soo/nonconvex/ga_niching.py | 6 +++++-
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/nsga3.py b/pymoo/algorithms/moo/nsga3.py
index 6bcfd31..f54b6fd 100644
--- a/pymoo/algorithms/moo/nsga3.py
+++ b/pymoo/algorithms/moo/nsga3.py
@@ -40,6 +40,7 @@ def comp_by_cv_then_random(pop, P, random_state=None, **kwargs):
                 pop[b].CV,
                 method="smaller_is_better",
                 return_random_if_equal=True,
+                random_state=random_state,
             )
 
         # both solutions are feasible just set random
diff --git a/pymoo/algorithms/moo/unsga3.py b/pymoo/algorithms/moo/unsga3.py
index 2c79694..c88becf 100644
--- a/pymoo/algorithms/moo/unsga3.py
+++ b/pymoo/algorithms/moo/unsga3.py
@@ -39,6 +39,7 @@ def comp_by_rank_and_ref_line_dist(pop, P, random_state=None, **kwargs):
                 pop[b].CV,
                 method="smaller_is_better",
                 return_random_if_equal=True,
+                random_state=random_state,
             )
 
         # both solutions are feasible
diff --git a/pymoo/algorithms/soo/nonconvex/ga_niching.py b/pymoo/algorithms/soo/nonconvex/ga_niching.py
index 727e76c..743346e 100644
--- a/pymoo/algorithms/soo/nonconvex/ga_niching.py
+++ b/pymoo/algorithms/soo/nonconvex/ga_niching.py
@@ -14,6 +14,7 @@ from pymoo.termination.default import (
 from pymoo.termination.ftol import SingleObjectiveSpaceTermination
 from pymoo.termination.robust import RobustTermination
 from pymoo.termination.xtol import DesignSpaceTermination
+from pymoo.util import default_random_state
 from pymoo.util.clearing import EpsilonClearing
 from pymoo.util.display.column import Column
 from pymoo.util.display.single import SingleObjectiveOutput
@@ -60,7 +61,8 @@ class NicheTermination(DefaultTermination):
 # =========================================================================================================
 
 
-def comp_by_cv_and_clearing_fitness(pop, P, **kwargs):
+@default_random_state
+def comp_by_cv_and_clearing_fitness(pop, P, random_state=None, **kwargs):
     S = np.full(P.shape[0], np.nan)
 
     for i in range(P.shape[0]):
@@ -75,6 +77,7 @@ def comp_by_cv_and_clearing_fitness(pop, P, **kwargs):
                 pop[b].CV,
                 method="smaller_is_better",
                 return_random_if_equal=True,
+                random_state=random_state,
             )
 
         # first compare by the round the individual was selected
@@ -90,6 +93,7 @@ def comp_by_cv_and_clearing_fitness(pop, P, **kwargs):
                     pop[b].get("rank"),
                     method="smaller_is_better",
                     return_random_if_equal=True,
+                    random_state=random_state,
                 )
 
     return S[:, None].astype(int)
-- 
2.43.0


From 9b708089f3cb5589bf320519d8938a9220fd5226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 019/129] fix: C-TAEA reported infeasible individuals as
 optimal although there are feasible ones

---
 pymoo/algorithms/moo/ctaea.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymoo/algorithms/moo/ctaea.py b/pymoo/algorithms/moo/ctaea.py
index 9eb6b73..662bd0b 100644
--- a/pymoo/algorithms/moo/ctaea.py
+++ b/pymoo/algorithms/moo/ctaea.py
@@ -154,6 +154,9 @@ class CADASurvival:
             fronts, rank = NonDominatedSorting().do(F, return_rank=True)
             S.set("rank", rank)
             self.opt = S[fronts[0]]
+            # infeasible individuals are not optimal as soon as there is a feasible one
+            if len(Sc) > 0:
+                self.opt = Sc[NonDominatedSorting().do(Sc.get("F"), only_non_dominated_front=True)]
             return S
         else:  # Too many feasible individuals
             F = Sc.get("F")
-- 
2.43.0


From 0355699b835bfff1ef56a0a111c422f6fd427047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:08 +0000
Subject: [PATCH 020/129] fix: C-TAEA never returned for fewer individuals than
 reference directions

---
 pymoo/algorithms/moo/ctaea.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/moo/ctaea.py b/pymoo/algorithms/moo/ctaea.py
index 662bd0b..9d1c987 100644
--- a/pymoo/algorithms/moo/ctaea.py
+++ b/pymoo/algorithms/moo/ctaea.py
@@ -126,7 +126,7 @@ class CADASurvival:
         CV = pop.get("CV").flatten()
 
         Sc = pop[CV == 0]  # ConstraintsAsObjective population
-        if len(Sc) == n_survive:  # Exactly n_survive feasible individuals
+        if len(Sc) == min(n_survive, len(pop)):  # Exactly n_survive feasible individuals (or there are no others)
             F = Sc.get("F")
             fronts, rank = NonDominatedSorting().do(F, return_rank=True)
             Sc.set("rank", rank)
@@ -210,10 +210,13 @@ class CADASurvival:
         niche_Hd, FV = self._associate(Hd)
         niche_CA, _ = self._associate(pop)
 
+        # there might be fewer individuals than reference directions
+        n_survive = min(n_survive, len(Hd))
+
         itr = 1
         S = []
         while len(S) < n_survive:
-            for i in range(n_survive):
+            for i in range(len(self.ref_dirs)):
                 (current_ca,) = np.where(niche_CA == i)
                 if len(current_ca) < itr:
                     for _ in range(itr - len(current_ca)):
-- 
2.43.0


From e31cfe25020e8f87277ce7a187fb8e65bb61e04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 021/129] fix: AGE-MOEA2 divided by zero when a front contains
 the ideal point several times

---
 pymoo/algorithms/moo/age2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymoo/algorithms/moo/age2.py b/pymoo/algorithms/moo/age2.py
index 373c6d9..ee2d850 100644
--- a/pymoo/algorithms/moo/age2.py
+++ b/pymoo/algorithms/moo/age2.py
@@ -73,6 +73,9 @@ class AGEMOEA2(GeneticAlgorithm):
 @jit(nopython=True, fastmath=True)
 def project_on_manifold(point, p):
     dist = np.sum(point[point > 0] ** p) ** (1 / p)
+    # the ideal point has no direction to be projected in
+    if dist == 0:
+        return point.copy()
     return np.multiply(point, 1 / dist)
 
 
-- 
2.43.0


From e0c6c8426a0424ebf2623ddd91087e79f924de38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:05 +0000
Subject: [PATCH 022/129] fix: CMA-ES overwrote the objective values of
 infeasible individuals

---
 pymoo/algorithms/soo/nonconvex/cmaes.py | 8 ++------
 pymoo/vendor/vendor_cmaes.py            | 9 +++++----
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/pymoo/algorithms/soo/nonconvex/cmaes.py b/pymoo/algorithms/soo/nonconvex/cmaes.py
index 5460da9..a5ea586 100755
--- a/pymoo/algorithms/soo/nonconvex/cmaes.py
+++ b/pymoo/algorithms/soo/nonconvex/cmaes.py
@@ -212,12 +212,8 @@ class CMAES(LocalSearch):
             self.termination.force_termination = True
 
         else:
-            # set infeasible individual's objective values to np.nan - then CMAES can handle it
-            for ind in infills:
-                if not ind.feas:
-                    ind.F[:] = np.inf
-
-            F = infills.get("f").tolist()
+            # infeasible individuals are worse than any feasible one for CMAES (they keep their objective values)
+            F = [float(ind.f) if ind.feas else np.inf for ind in infills]
             if not self.send_array_to_yield:
                 F = F[0]
 
diff --git a/pymoo/vendor/vendor_cmaes.py b/pymoo/vendor/vendor_cmaes.py
index a9f86b7..6edc33f 100644
--- a/pymoo/vendor/vendor_cmaes.py
+++ b/pymoo/vendor/vendor_cmaes.py
@@ -389,10 +389,11 @@ class MyCMAEvolutionStrategy(CMAEvolutionStrategy):
                     length_normalizer = self.N**0.5 / self.mahalanobis_norm(x - xmean)  # self.const.chiN < N**0.5, the constant here is irrelevant (absorbed by kappa)
                     # print(self.N**0.5 / self.mahalanobis_norm(x - xmean))
                     # self.more_to_write += [length_normalizer * 1e-3, length_normalizer * self.mahalanobis_norm(x - xmean) * 1e2]
-                    if kappa == 1:
-                        f = yield x
-                    else:
-                        f = yield xmean + kappa * length_normalizer * (x - xmean)
+
+                if kappa == 1:
+                    f = yield x
+                else:
+                    f = yield xmean + kappa * length_normalizer * (x - xmean)
 
                 if is_feasible(x, f) and evaluations > 1:
                     if kappa == 1:
-- 
2.43.0


From 240ac7d94a408eb69a9c4b557046bb5964a02691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:15 +0000
Subject: [PATCH 023/129] fix: several algorithms, archives and repairs drew
 from an unseeded random state

---
 pymoo/algorithms/moo/cmopso.py            | 10 ++++++----
 pymoo/algorithms/soo/nonconvex/de.py      |  2 +-
 pymoo/algorithms/soo/nonconvex/direct.py  |  6 +++++-
 pymoo/algorithms/soo/nonconvex/es.py      |  4 +++-
 pymoo/algorithms/soo/nonconvex/g3pcx.py   |  2 +-
 pymoo/algorithms/soo/nonconvex/nrbo.py    |  2 +-
 pymoo/algorithms/soo/nonconvex/pattern.py |  8 ++++++--
 pymoo/algorithms/soo/nonconvex/pso.py     |  2 +-
 pymoo/algorithms/soo/nonconvex/pso_ep.py  |  2 +-
 pymoo/algorithms/soo/nonconvex/sres.py    |  4 +++-
 pymoo/core/operator.py                    |  3 ++-
 pymoo/operators/control.py                |  2 +-
 pymoo/util/archive.py                     | 13 +++++++------
 13 files changed, 38 insertions(+), 22 deletions(-)

diff --git a/pymoo/algorithms/moo/cmopso.py b/pymoo/algorithms/moo/cmopso.py
index babc38d..00eb95c 100644
--- a/pymoo/algorithms/moo/cmopso.py
+++ b/pymoo/algorithms/moo/cmopso.py
@@ -192,7 +192,7 @@ class CMOPSO(Algorithm):
             raise Exception("Unknown velocity initialization.")
 
         self.pop.set("V", init_V)
-        self.elites = self.elites.add(self.pop)
+        self.elites = self.elites.add(self.pop, random_state=self.random_state)
 
     def _infill(self):
         (X, V) = self.pop.get("X", "V")
@@ -203,7 +203,7 @@ class CMOPSO(Algorithm):
         # create the offspring population
         off = Population.new(X=Xp, V=Vp)
         off = self.mutation(self.problem, off, random_state=self.random_state)
-        off = self.repair(self.problem, off)
+        off = self.repair(self.problem, off, random_state=self.random_state)
 
         return off
 
@@ -211,8 +211,10 @@ class CMOPSO(Algorithm):
         assert infills is not None, "This algorithm uses the AskAndTell interface thus 'infills' must to be provided."
 
         particles = Population.merge(self.pop, infills)
-        self.elites = self.elites.add(particles)
-        self.pop = self.survival.do(self.problem, particles, n_survive=self.pop_size)
+        self.elites = self.elites.add(particles, random_state=self.random_state)
+        self.pop = self.survival.do(
+            self.problem, particles, n_survive=self.pop_size, random_state=self.random_state
+        )
 
 
 parse_doc_string(CrowdingDistanceTournamentSurvival.__init__)
diff --git a/pymoo/algorithms/soo/nonconvex/de.py b/pymoo/algorithms/soo/nonconvex/de.py
index d8eb143..744f6d1 100755
--- a/pymoo/algorithms/soo/nonconvex/de.py
+++ b/pymoo/algorithms/soo/nonconvex/de.py
@@ -93,7 +93,7 @@ class Variant(InfillCriterion):
         control.tell(pop=pop)
 
         # set the controlled parameter for the desired number of offsprings
-        control.do(n_offsprings)
+        control.do(n_offsprings, random_state=random_state)
 
         # find the different groups of selection schemes and order them by category
         sel, n_diffs = get(self.selection, self.n_diffs, size=n_offsprings)
diff --git a/pymoo/algorithms/soo/nonconvex/direct.py b/pymoo/algorithms/soo/nonconvex/direct.py
index 9e67415..fd0ad1f 100644
--- a/pymoo/algorithms/soo/nonconvex/direct.py
+++ b/pymoo/algorithms/soo/nonconvex/direct.py
@@ -109,7 +109,11 @@ class DIRECT(LocalSearch):
         else:
             if len(candidates) > self.n_max_candidates:
                 candidates = RankAndCrowdingSurvival().do(
-                    self.problem, pop, n_survive=self.n_max_candidates, algorithm=self
+                    self.problem,
+                    pop,
+                    n_survive=self.n_max_candidates,
+                    algorithm=self,
+                    random_state=self.random_state,
                 )
 
             return candidates
diff --git a/pymoo/algorithms/soo/nonconvex/es.py b/pymoo/algorithms/soo/nonconvex/es.py
index d1a2d00..61a1519 100644
--- a/pymoo/algorithms/soo/nonconvex/es.py
+++ b/pymoo/algorithms/soo/nonconvex/es.py
@@ -130,7 +130,9 @@ class ES(GeneticAlgorithm):
         if len(infills) < self.pop_size:
             infills = Population.merge(infills, self.pop)
 
-        self.pop = self.survival.do(self.problem, infills, n_survive=self.pop_size)
+        self.pop = self.survival.do(
+            self.problem, infills, n_survive=self.pop_size, random_state=self.random_state
+        )
 
     def _set_optimum(self):
         pop = self.pop if self.opt is None else Population.merge(self.opt, self.pop)
diff --git a/pymoo/algorithms/soo/nonconvex/g3pcx.py b/pymoo/algorithms/soo/nonconvex/g3pcx.py
index ed06c7e..1e28756 100644
--- a/pymoo/algorithms/soo/nonconvex/g3pcx.py
+++ b/pymoo/algorithms/soo/nonconvex/g3pcx.py
@@ -96,7 +96,7 @@ class G3PCX(LoopwiseAlgorithm):
 
             off = self.mutation(self.problem, off, algorithm=self, random_state=self.random_state)
 
-            self.repair(self.problem, off, algorithm=self)
+            self.repair(self.problem, off, algorithm=self, random_state=self.random_state)
 
             off = yield off
 
diff --git a/pymoo/algorithms/soo/nonconvex/nrbo.py b/pymoo/algorithms/soo/nonconvex/nrbo.py
index ed4bb17..b4e402b 100644
--- a/pymoo/algorithms/soo/nonconvex/nrbo.py
+++ b/pymoo/algorithms/soo/nonconvex/nrbo.py
@@ -164,7 +164,7 @@ class NRBO(Algorithm):
 
         off = Population.new(X=off)
 
-        off = self.repair.do(self.problem, off)
+        off = self.repair.do(self.problem, off, random_state=self.random_state)
         return off
 
     def _advance(self, infills=None, **kwargs):
diff --git a/pymoo/algorithms/soo/nonconvex/pattern.py b/pymoo/algorithms/soo/nonconvex/pattern.py
index aa0dd66..02a22ed 100644
--- a/pymoo/algorithms/soo/nonconvex/pattern.py
+++ b/pymoo/algorithms/soo/nonconvex/pattern.py
@@ -77,7 +77,9 @@ class PatternSearch(LocalSearch):
             self._rho = self.init_rho**self.n_not_improved
 
             # explore around the current center - try finding a suitable direction
-            self._explr = yield from exploration_move(self.problem, self._center, self._sign, self._delta, self._rho)
+            self._explr = yield from exploration_move(
+                self.problem, self._center, self._sign, self._delta, self._rho, random_state=self.random_state
+            )
 
         # if we have found a direction in the last iteration to be worth following
         else:
@@ -94,7 +96,9 @@ class PatternSearch(LocalSearch):
             self._sign = calc_sign(self._direction)
 
             # explore around the current center to try finding a suitable direction
-            self._explr = yield from exploration_move(self.problem, self._trial, self._sign, self._delta, self._rho)
+            self._explr = yield from exploration_move(
+                self.problem, self._trial, self._sign, self._delta, self._rho, random_state=self.random_state
+            )
 
         self.pop = Population.create(self._center, self._explr)
 
diff --git a/pymoo/algorithms/soo/nonconvex/pso.py b/pymoo/algorithms/soo/nonconvex/pso.py
index 980a613..519067c 100644
--- a/pymoo/algorithms/soo/nonconvex/pso.py
+++ b/pymoo/algorithms/soo/nonconvex/pso.py
@@ -263,7 +263,7 @@ class PSO(Algorithm):
             )[0]
             off[k].set("X", mutant.X)
 
-        self.repair(problem, off)
+        self.repair(problem, off, random_state=self.random_state)
         self.sbest = sbest
 
         return off
diff --git a/pymoo/algorithms/soo/nonconvex/pso_ep.py b/pymoo/algorithms/soo/nonconvex/pso_ep.py
index f43fdf5..8d96b30 100644
--- a/pymoo/algorithms/soo/nonconvex/pso_ep.py
+++ b/pymoo/algorithms/soo/nonconvex/pso_ep.py
@@ -142,7 +142,7 @@ class Swarm(InfillCriterion):
         #         delta.clear()
 
         # repair the individuals if necessary - disabled if repair is NoRepair
-        off = self.repair(problem, off, **kwargs)
+        off = self.repair(problem, off, random_state=random_state, **kwargs)
 
         # advance the parameter control by attaching them to the offsprings
         control.advance(off)
diff --git a/pymoo/algorithms/soo/nonconvex/sres.py b/pymoo/algorithms/soo/nonconvex/sres.py
index 99b3708..e7212c7 100644
--- a/pymoo/algorithms/soo/nonconvex/sres.py
+++ b/pymoo/algorithms/soo/nonconvex/sres.py
@@ -50,7 +50,9 @@ class SRES(ES):
         if len(infills) < self.pop_size:
             infills = Population.merge(infills, self.pop)
 
-        self.pop = self.survival.do(self.problem, infills, n_survive=self.pop_size)
+        self.pop = self.survival.do(
+            self.problem, infills, n_survive=self.pop_size, random_state=self.random_state
+        )
 
 
 parse_doc_string(SRES.__init__)
diff --git a/pymoo/core/operator.py b/pymoo/core/operator.py
index a9d5ebc..e10a64e 100644
--- a/pymoo/core/operator.py
+++ b/pymoo/core/operator.py
@@ -43,7 +43,8 @@ class Operator:
 
         # allow to have a built-in repair (can be useful to customize standard crossover)
         if self.repair is not None:
-            self.repair.do(problem, out)
+            kw = {"random_state": kwargs["random_state"]} if "random_state" in kwargs else {}
+            self.repair.do(problem, out, **kw)
 
         if to_numpy:
             out = np.array([ind.X for ind in out])
diff --git a/pymoo/operators/control.py b/pymoo/operators/control.py
index 4b2d5dd..a39b368 100644
--- a/pymoo/operators/control.py
+++ b/pymoo/operators/control.py
@@ -166,7 +166,7 @@ class ParameterControlMating(InfillCriterion):
         # do the parameter control for the mating
         control = self.control
         control.tell(pop=pop)
-        control.do(n_matings)
+        control.do(n_matings, random_state=kwargs.get("random_state"))
 
         # if the parents for the mating are not provided directly - usually selection will be used
         if parents is None:
diff --git a/pymoo/util/archive.py b/pymoo/util/archive.py
index b362e4a..d7bcec9 100644
--- a/pymoo/util/archive.py
+++ b/pymoo/util/archive.py
@@ -14,7 +14,7 @@ class Truncation:
 
 
 class RandomTruncation(Truncation):
-    @default_random_state
+    @default_random_state(seed=1)
     def __call__(self, sols, k, random_state=None):
         return random_state.choice(sols, size=k, replace=False)
 
@@ -32,8 +32,9 @@ class SurvivalTruncation(Truncation):
 
         self.problem = problem
 
-    def __call__(self, sols, k):
-        return self.survival.do(self.problem, sols, n_survive=k)
+    @default_random_state(seed=1)
+    def __call__(self, sols, k, random_state=None):
+        return self.survival.do(self.problem, sols, n_survive=k, random_state=random_state)
 
 
 class Archive(Population):
@@ -68,7 +69,7 @@ class Archive(Population):
         self.truncation = truncation
         self.duplicate_elimination = duplicate_elimination
 
-    def add(self, sols):
+    def add(self, sols, **kwargs):
 
         if len(self) > 0:
             sols = merge(self, sols)
@@ -79,7 +80,7 @@ class Archive(Population):
             opt = self.duplicate_elimination.do(opt)
 
         if self.max_size and len(opt) > self.max_size:
-            opt = self.truncation(opt, self.truncate_size)
+            opt = self.truncation(opt, self.truncate_size, **kwargs)
 
         cls = self.__class__
         obj = cls.__new__(cls, individuals=opt, **self.view(Archive).__dict__)
@@ -90,7 +91,7 @@ class Archive(Population):
 
 
 class VoidArchive(Archive):
-    def add(self, sols):
+    def add(self, sols, **kwargs):
         return self
 
 
-- 
2.43.0


From f2ee829cc6d8c1406913d42ee901afc9c0bc0e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:37 +0000
Subject: [PATCH 024/129] fix: D-NSGA-II version B discarded the mutated
 individuals meant to bring diversity after a change

---
 pymoo/algorithms/moo/dnsga2.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/moo/dnsga2.py b/pymoo/algorithms/moo/dnsga2.py
index 6bef2a4..ec54f25 100644
--- a/pymoo/algorithms/moo/dnsga2.py
+++ b/pymoo/algorithms/moo/dnsga2.py
@@ -52,9 +52,10 @@ class DNSGA2(NSGA2):
             if self.version == "A":
                 pop[I] = self.initialization.sampling(self.problem, len(I), random_state=self.random_state)
 
-            # replace by mutations of existing solutions (this occurs inplace)
+            # replace by mutations of existing solutions
             elif self.version == "B":
-                self.mating.mutation(self.problem, pop[I])
+                if len(I) > 0:
+                    pop[I] = self.mating.mutation(self.problem, pop[I], random_state=self.random_state)
             else:
                 raise Exception(f"Unknown version of D-NSGA-II: {self.version}")
 
-- 
2.43.0


From d268336d90ce92d6eea54d376c732e551032ce6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:02 +0000
Subject: [PATCH 025/129] fix: a pickled archive lost its configuration and
 could not be used anymore

---
 pymoo/util/archive.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pymoo/util/archive.py b/pymoo/util/archive.py
index d7bcec9..b5a8fe3 100644
--- a/pymoo/util/archive.py
+++ b/pymoo/util/archive.py
@@ -69,6 +69,15 @@ class Archive(Population):
         self.truncation = truncation
         self.duplicate_elimination = duplicate_elimination
 
+    # numpy does not pickle the attributes of a subclass
+    def __reduce__(self):
+        func, args, state = super().__reduce__()
+        return func, args, (state, self.__dict__)
+
+    def __setstate__(self, state):
+        super().__setstate__(state[0])
+        self.__dict__.update(state[1])
+
     def add(self, sols, **kwargs):
 
         if len(self) > 0:
-- 
2.43.0


From b46573b84547bc0d0f866f2b9c218a9e5c83c8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 026/129] fix: MOPSO-CD ignored constraints and reported
 infeasible solutions as optimal

---
 pymoo/algorithms/moo/mopso_cd.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pymoo/algorithms/moo/mopso_cd.py b/pymoo/algorithms/moo/mopso_cd.py
index 812f1bd..6380284 100644
--- a/pymoo/algorithms/moo/mopso_cd.py
+++ b/pymoo/algorithms/moo/mopso_cd.py
@@ -173,6 +173,14 @@ class MOPSO_CD(Algorithm):
         else:
             combined = pop
 
+        # Consider feasible solutions only, or the least infeasible ones if there are none
+        feas = combined.get("feas")
+        if np.any(feas):
+            combined = combined[feas]
+        else:
+            cv = combined.get("cv")
+            combined = combined[cv == cv.min()]
+
         # Find non-dominated solutions
         F = combined.get("F")
         I = self.nds.do(F, only_non_dominated_front=True)  # noqa: E741
-- 
2.43.0


From f073edb19120840ccd070f74cf1bfaf7b0a03eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 027/129] fix: RVEA reported infeasible solutions as optimal
 although feasible ones were known

---
 pymoo/algorithms/moo/rvea.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/rvea.py b/pymoo/algorithms/moo/rvea.py
index e3186bd..20a357d 100644
--- a/pymoo/algorithms/moo/rvea.py
+++ b/pymoo/algorithms/moo/rvea.py
@@ -100,7 +100,7 @@ class RVEA(GeneticAlgorithm):
         if not has_feasible(self.pop):
             self.opt = self.pop[[np.argmin(self.pop.get("CV"))]]
         else:
-            self.opt = self.pop
+            self.opt = self.pop[self.pop.get("feas")]
 
 
 # ---------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 6b4ec11b864f5151c6387406b9c92809ad6200b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 028/129] fix: X and F of a result did not belong to its opt if
 several solutions are least infeasible

---
 pymoo/core/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/core/algorithm.py b/pymoo/core/algorithm.py
index 2c9f20b..105aa4b 100644
--- a/pymoo/core/algorithm.py
+++ b/pymoo/core/algorithm.py
@@ -284,7 +284,7 @@ class Algorithm:
 
         # otherwise get the values from the population
         else:
-            X, F, CV, G, H = self.opt.get("X", "F", "CV", "G", "H")  # type: ignore
+            X, F, CV, G, H = opt.get("X", "F", "CV", "G", "H")  # type: ignore
 
             # if single-objective problem and only one solution was found - create a 1d array
             if self.problem.n_obj == 1 and len(X) == 1:  # type: ignore
-- 
2.43.0


From 8702981c0e75a670fc6d5c5da1b10768113ff5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:03 +0000
Subject: [PATCH 029/129] fix: R-NSGA-III kept reporting outdated solutions
 when no member of the first front is closest to a direction

---
 pymoo/algorithms/moo/rnsga3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymoo/algorithms/moo/rnsga3.py b/pymoo/algorithms/moo/rnsga3.py
index 7dc697b..be3530d 100644
--- a/pymoo/algorithms/moo/rnsga3.py
+++ b/pymoo/algorithms/moo/rnsga3.py
@@ -153,6 +153,8 @@ class AspirationPointSurvival(Survival):
         # set the optimum, first front and closest to all reference directions
         closest = np.unique(dist_matrix[:, np.unique(niche_of_individuals)].argmin(axis=0))
         self.opt = pop[intersect(fronts[0], closest)]
+        if len(self.opt) == 0:
+            self.opt = pop[fronts[0]]
 
         # if we need to select individuals to survive
         if len(pop) > n_survive:
-- 
2.43.0


From 48efc8b3244542e5e161de409ea694c50def74da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:10 +0000
Subject: [PATCH 030/129] fix: CMA-ES seeded and used numpy's global random
 state, and seed 0 was not reproducible

---
 pymoo/vendor/vendor_cmaes.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pymoo/vendor/vendor_cmaes.py b/pymoo/vendor/vendor_cmaes.py
index 6edc33f..4366d9c 100644
--- a/pymoo/vendor/vendor_cmaes.py
+++ b/pymoo/vendor/vendor_cmaes.py
@@ -65,6 +65,7 @@ def my_fmin(x0,
         maxiter0 = None  # to be evaluated after the first iteration
         base_evals = 0
 
+        seed = None
         irun = 0
         best = ot.BestSolution()
         all_stoppings = []
@@ -127,10 +128,17 @@ def my_fmin(x0,
                 # ignore further input args and keep original options
             else:  # default case
                 # Set seed from random_state for deterministic behavior
-                if 'seed' not in opts or opts['seed'] is None:
-                    # Generate a seed from the random_state for CMA-ES
-                    opts['seed'] = random_state.integers(0, 2**31)
-                
+                if seed is None:
+                    if 'seed' not in opts or opts['seed'] is None:
+                        # Generate a seed from the random_state for CMA-ES
+                        opts['seed'] = random_state.integers(0, 2**31)
+                    seed = opts['seed']
+
+                # Use a generator of its own (CMA-ES seeds and uses the global one of numpy otherwise)
+                if 'randn' not in options and isinstance(seed, (int, np.integer)):
+                    opts['seed'] = np.nan
+                    opts['randn'] = np.random.RandomState(seed).randn
+
                 if irun and eval(str(fmin_options['restart_from_best'])):
                     utils.print_warning('CAVE: restart_from_best is often not useful',
                                         verbose=opts['verbose'])
-- 
2.43.0


From 4e116ea867ca18866221effb19319e3efbe8f158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:03 +0000
Subject: [PATCH 031/129] fix: state was shared between the instances of SPEA2
 and of KGB created with default arguments

---
 pymoo/algorithms/moo/kgb.py   | 4 ++--
 pymoo/algorithms/moo/spea2.py | 6 +++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pymoo/algorithms/moo/kgb.py b/pymoo/algorithms/moo/kgb.py
index 98b8dfc..eaa8da5 100755
--- a/pymoo/algorithms/moo/kgb.py
+++ b/pymoo/algorithms/moo/kgb.py
@@ -23,7 +23,7 @@ class KGB(NSGA2):
         perc_diversity=0.3,
         c_size=13,
         eps=0.0,
-        ps={},
+        ps=None,
         perturb_dev=0.1,
         save_ps=False,
         **kwargs,
@@ -37,7 +37,7 @@ class KGB(NSGA2):
         self.save_ps = save_ps
 
         self.C_SIZE = c_size
-        self.ps = ps
+        self.ps = {} if ps is None else ps
         self.nr_rand_solutions = 50 * self.pop_size
         self.t = 0
 
diff --git a/pymoo/algorithms/moo/spea2.py b/pymoo/algorithms/moo/spea2.py
index 29d7f64..f9ef156 100644
--- a/pymoo/algorithms/moo/spea2.py
+++ b/pymoo/algorithms/moo/spea2.py
@@ -175,7 +175,7 @@ class SPEA2(GeneticAlgorithm):
         selection=TournamentSelection(spea_binary_tournament),
         crossover=SBX(),
         mutation=PM(),
-        survival=SPEA2Survival(normalize=True),
+        survival=None,
         eliminate_duplicates=True,
         n_offsprings=None,
         output=MultiObjectiveOutput(),
@@ -196,6 +196,10 @@ class SPEA2(GeneticAlgorithm):
             **kwargs: {kwargs}
 
         """
+        # the survival keeps track of the boundary points and must not be shared by different instances
+        if survival is None:
+            survival = SPEA2Survival(normalize=True)
+
         super().__init__(
             pop_size=pop_size,
             sampling=sampling,
-- 
2.43.0


From 78dd79f99158294dfa7eb5a1670c8bbd30fb181e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:35 +0000
Subject: [PATCH 032/129] fix: RVEA stopped one iteration before a budget of
 function evaluations was used, and failed for small budgets

---
 pymoo/algorithms/moo/rvea.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/moo/rvea.py b/pymoo/algorithms/moo/rvea.py
index 20a357d..fb2e3e9 100644
--- a/pymoo/algorithms/moo/rvea.py
+++ b/pymoo/algorithms/moo/rvea.py
@@ -79,8 +79,8 @@ class RVEA(GeneticAlgorithm):
 
         # if maximum functions termination convert it to generations
         if isinstance(self.termination, MaximumFunctionCallTermination):
-            n_gen = np.ceil((self.termination.n_max_evals - self.pop_size) / self.n_offsprings)
-            self.termination = MaximumGenerationTermination(n_gen)
+            n_gen = 1 + np.ceil((self.termination.n_max_evals - self.pop_size) / self.n_offsprings)
+            self.termination = MaximumGenerationTermination(max(1, n_gen))
 
         # check whether the n_gen termination is used - otherwise this algorithm can be not run
         if not isinstance(self.termination, MaximumGenerationTermination):
-- 
2.43.0


From ef75dba8fcf6b361c674d9e9492511b26285ab30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:21 +0000
Subject: [PATCH 033/129] fix: the first step of Nelder-Mead used an unsorted
 simplex and could lose the best solution

---
 pymoo/algorithms/soo/nonconvex/nelder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/soo/nonconvex/nelder.py b/pymoo/algorithms/soo/nonconvex/nelder.py
index bbd5f96..a3d9c91 100644
--- a/pymoo/algorithms/soo/nonconvex/nelder.py
+++ b/pymoo/algorithms/soo/nonconvex/nelder.py
@@ -145,7 +145,9 @@ class NelderMead(LocalSearch):
 
     def _next(self):
         if not self.is_simplex_initialized:
-            self.pop = yield self._initialize_simplex()
+            pop = yield self._initialize_simplex()
+            # the steps expect the simplex to be sorted
+            self.pop = FitnessSurvival().do(self.problem, pop, n_survive=len(pop))
             self.is_simplex_initialized = True
         else:
             yield from self._step()
-- 
2.43.0


From 9f40a9829e6819a641c86f3fa9ca83ab2bc7969a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:56 +0000
Subject: [PATCH 034/129] fix: a collection of callbacks did not initialize and
 notify its callbacks

---
 pymoo/core/callback.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/core/callback.py b/pymoo/core/callback.py
index 3676ba3..cbd3a83 100644
--- a/pymoo/core/callback.py
+++ b/pymoo/core/callback.py
@@ -41,4 +41,4 @@ class CallbackCollection(Callback):
         self.callbacks: tuple[Callback, ...] = args
 
     def update(self, algorithm: "Algorithm") -> None:
-        [callback.update(algorithm) for callback in self.callbacks]
+        [callback(algorithm) for callback in self.callbacks]
-- 
2.43.0


From 8351892dd7cad0d8a443ca8da7b2e08f180a6035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:54 +0000
Subject: [PATCH 035/129] fix: termination by a minimum function value failed
 for values that are zero or negative

---
 pymoo/termination/fmin.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pymoo/termination/fmin.py b/pymoo/termination/fmin.py
index 4b1043e..4b91443 100644
--- a/pymoo/termination/fmin.py
+++ b/pymoo/termination/fmin.py
@@ -9,9 +9,13 @@ class MinimumFunctionValueTermination(Termination):
         self.fmin = fmin
 
     def _update(self, algorithm):
-        opt = algorithm.opt
+        feas, F = algorithm.opt.get("feas", "F")
 
-        if not any(opt.get("feas")):
+        if not any(feas):
             return 0.0
+
+        f = F[feas].min()
+        if f <= self.fmin:
+            return 1.0
         else:
-            return self.fmin / opt.get("F").min()
+            return 1 / (1 + (f - self.fmin))
-- 
2.43.0


From c05eda92afca2a2477d3fb435b5a4c8598624caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:54 +0000
Subject: [PATCH 036/129] fix: termination by an indicator failed if the
 threshold is reached from the beginning

---
 pymoo/termination/indicator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymoo/termination/indicator.py b/pymoo/termination/indicator.py
index 8a7f562..cd2e179 100644
--- a/pymoo/termination/indicator.py
+++ b/pymoo/termination/indicator.py
@@ -39,6 +39,10 @@ class IndicatorTermination(Termination):
         self._max = max(self._max, v)
         _min, _max = self._min, self._max
 
+        # if the threshold has been reached
+        if (v <= threshold) if self.goal == "minimize" else (v >= threshold):
+            return 1.0
+
         # depending on the goal either set the percentage
         if self.goal == "minimize":
             perc = 1 - (v - threshold) / (_max - threshold)
-- 
2.43.0


From 998fe012738ca3e6bfbd961840b95c9931e6c99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:54 +0000
Subject: [PATCH 037/129] fix: termination until feasible failed if the
 violation increased

---
 pymoo/termination/cv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/termination/cv.py b/pymoo/termination/cv.py
index 383066e..7b9a240 100644
--- a/pymoo/termination/cv.py
+++ b/pymoo/termination/cv.py
@@ -45,4 +45,4 @@ class UntilFeasibleTermination(Termination):
             else:
                 self.initial_cv = cv
 
-        return 1 - cv / self.initial_cv
+        return max(0.0, 1 - cv / self.initial_cv)
-- 
2.43.0


From f3826613adc8b7002b22b95dc7f76768128cfa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:50 +0000
Subject: [PATCH 038/129] fix: variables with equal bounds were not mapped back
 to their only value (CMA-ES and DIRECT left the bounds)

---
 pymoo/util/normalization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymoo/util/normalization.py b/pymoo/util/normalization.py
index 78ed451..bcd824e 100644
--- a/pymoo/util/normalization.py
+++ b/pymoo/util/normalization.py
@@ -48,7 +48,8 @@ class ZeroToOneNormalization(Normalization):
         xl, xu = np.copy(xl).astype(float), np.copy(xu).astype(float)
 
         # if both are equal then set the upper bound to none (always the 0 or lower bound will be returned then)
-        xu[xl == xu] = np.nan
+        self.equal = xl == xu
+        xu[self.equal] = np.nan
 
         # store the lower and upper bounds
         self.xl, self.xu = xl, xu
@@ -98,6 +99,8 @@ class ZeroToOneNormalization(Normalization):
 
         X[..., xl_only] = N[..., xl_only] + xl[xl_only]
 
+        X[..., self.equal] = xl[self.equal]
+
         X[..., xu_only] = xu[xu_only] - (1.0 - N[..., xu_only])
 
         return X
-- 
2.43.0


From 65d9fbf033e542225c4113f72d75a16538a1289d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:05 +0000
Subject: [PATCH 039/129] fix: distances normalized by the bounds were not a
 number if a variable has equal bounds (PSO failed, niching was without
 effect)

---
 pymoo/algorithms/soo/nonconvex/nelder.py | 3 ++-
 pymoo/algorithms/soo/nonconvex/pso_ep.py | 2 +-
 pymoo/util/misc.py                       | 4 +++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pymoo/algorithms/soo/nonconvex/nelder.py b/pymoo/algorithms/soo/nonconvex/nelder.py
index a3d9c91..0727ec0 100644
--- a/pymoo/algorithms/soo/nonconvex/nelder.py
+++ b/pymoo/algorithms/soo/nonconvex/nelder.py
@@ -43,7 +43,8 @@ class NelderAndMeadTermination(Termination):
 
         # if the problem has bounds we can normalize the x space to to be more accurate
         if problem.has_bounds():
-            x_delta = np.abs((X[1:] - X[0]) / (problem.xu - problem.xl)).max()
+            xl, xu = problem.bounds()
+            x_delta = np.abs((X[1:] - X[0]) / np.where(xu == xl, 1.0, xu - xl)).max()
         else:
             x_delta = np.abs(X[1:] - X[0]).max()
 
diff --git a/pymoo/algorithms/soo/nonconvex/pso_ep.py b/pymoo/algorithms/soo/nonconvex/pso_ep.py
index 8d96b30..c02555c 100644
--- a/pymoo/algorithms/soo/nonconvex/pso_ep.py
+++ b/pymoo/algorithms/soo/nonconvex/pso_ep.py
@@ -256,7 +256,7 @@ class EPPSO(GeneticAlgorithm):
         Xp = self.pbest.get("X")
 
         xl, xu = self.problem.bounds()
-        delta = np.max(np.abs(X - Xp) / (xu - xl), axis=1)
+        delta = np.max(np.abs(X - Xp) / np.where(xu == xl, 1.0, xu - xl), axis=1)
         [self.delta[k].append(delta[k]) for k in range(len(delta))]
 
         pbest = self.pbest
diff --git a/pymoo/util/misc.py b/pymoo/util/misc.py
index 7cdbb5d..807989e 100644
--- a/pymoo/util/misc.py
+++ b/pymoo/util/misc.py
@@ -180,7 +180,9 @@ def func_norm_euclidean_distance(xl: Any, xu: Any) -> Callable[[Any, Any], Any]:
     Returns:
         Distance function.
     """
-    return lambda a, b: np.sqrt((((a - b) / (xu - xl)) ** 2).sum(axis=1))
+    # a variable with equal bounds is not divided by zero
+    norm = np.where(xu == xl, 1.0, xu - xl)
+    return lambda a, b: np.sqrt((((a - b) / norm) ** 2).sum(axis=1))
 
 
 def norm_eucl_dist_by_bounds(A: Any, B: Any, xl: Any, xu: Any, **kwargs: Any) -> Any:
-- 
2.43.0


From 7f557c638f03a352ce0510959defa8a94d0ba144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:40 +0000
Subject: [PATCH 040/129] fix: the R-metric failed if weights are provided as
 an array

---
 pymoo/indicators/rmetric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/indicators/rmetric.py b/pymoo/indicators/rmetric.py
index 25f3a0c..c8f5dbc 100644
--- a/pymoo/indicators/rmetric.py
+++ b/pymoo/indicators/rmetric.py
@@ -24,7 +24,7 @@ class RMetric(Indicator):
         Indicator.__init__(self)
         self.ref_points = ref_points
         self.problem = problem
-        w_ = np.ones(self.ref_points.shape[1]) if not w else w
+        w_ = np.ones(self.ref_points.shape[1]) if w is None else w
         self.w_points = self.ref_points + 2 * w_
         self.delta = delta
 
-- 
2.43.0


From 8cb89988d5bc96c799bba09c608005025eb36c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:40 +0000
Subject: [PATCH 041/129] fix: the R-metric ignored delta when trimming the
 Pareto front to the region of interest

---
 pymoo/indicators/rmetric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/indicators/rmetric.py b/pymoo/indicators/rmetric.py
index c8f5dbc..8d34b37 100644
--- a/pymoo/indicators/rmetric.py
+++ b/pymoo/indicators/rmetric.py
@@ -151,7 +151,7 @@ class RMetric(Indicator):
 
             # 5. R-Metric Computation
             target = self._preprocess(data=pf, ref_point=self.ref_points[i], w_point=self.w_points[i])
-            PF = self._trim(pf, target)
+            PF = self._trim(pf, target, range=self.delta)
             final_PF.extend(PF)
 
         translated = np.array(translated)
-- 
2.43.0


From 675f0527e9b35be1f79b6286afbe9a21c924eb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:40 +0000
Subject: [PATCH 042/129] fix: the running metric divided by zero if an
 objective is constant zero

---
 pymoo/util/running_metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/util/running_metric.py b/pymoo/util/running_metric.py
index fba919c..4aad501 100644
--- a/pymoo/util/running_metric.py
+++ b/pymoo/util/running_metric.py
@@ -50,8 +50,8 @@ class RunningMetric(Callback):
         norm = c_nadir - c_ideal
 
         # make sure all dimensions in ideal are strictly lower than in nadir
-        c_nadir[c_ideal == c_nadir] += 1e-16
         norm[c_ideal == c_nadir] = 1.0
+        c_nadir[c_ideal == c_nadir] += 1e-16
 
         # append the current optimum to the history
         history.append(dict(F=F, ideal=c_ideal, nadir=c_nadir))
-- 
2.43.0


From 101f003cb7dfa60f43ba8334a13d414baf6392fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:27 +0000
Subject: [PATCH 043/129] fix: normalized Manhattan and Tchebychev distances
 were not a number if a variable has equal bounds

---
 pymoo/util/misc.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pymoo/util/misc.py b/pymoo/util/misc.py
index 807989e..00b234f 100644
--- a/pymoo/util/misc.py
+++ b/pymoo/util/misc.py
@@ -239,7 +239,9 @@ def func_norm_manhatten_distance(xl: Any, xu: Any) -> Callable[[Any, Any], Any]:
     Returns:
         Distance function.
     """
-    return lambda a, b: np.abs((a - b) / (xu - xl)).sum(axis=1)
+    # a variable with equal bounds is not divided by zero
+    norm = np.where(xu == xl, 1.0, xu - xl)
+    return lambda a, b: np.abs((a - b) / norm).sum(axis=1)
 
 
 def norm_manhatten_dist_by_bounds(A: Any, B: Any, xl: Any, xu: Any, **kwargs: Any) -> Any:
@@ -296,7 +298,9 @@ def func_norm_tchebychev_distance(xl: Any, xu: Any) -> Callable[[Any, Any], Any]
     Returns:
         Distance function.
     """
-    return lambda a, b: np.abs((a - b) / (xu - xl)).max(axis=1)
+    # a variable with equal bounds is not divided by zero
+    norm = np.where(xu == xl, 1.0, xu - xl)
+    return lambda a, b: np.abs((a - b) / norm).max(axis=1)
 
 
 def norm_tchebychev_dist_by_bounds(A: Any, B: Any, xl: Any, xu: Any, **kwargs: Any) -> Any:
-- 
2.43.0


From 06006965eb8c52a62b98dd9d908e5a88821809e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:27 +0000
Subject: [PATCH 044/129] fix: a problem redefined between zero and one
 evaluated points outside of the original bounds

---
 pymoo/problems/zero_to_one.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/zero_to_one.py b/pymoo/problems/zero_to_one.py
index 14ef424..82c8219 100644
--- a/pymoo/problems/zero_to_one.py
+++ b/pymoo/problems/zero_to_one.py
@@ -14,7 +14,7 @@ class ZeroToOne(Meta, Problem):
         self.xl, self.xu = np.zeros(self.n_var), np.ones(self.n_var)
 
     def do(self, X, return_values_of, *args, **kwargs):
-        Xp = self.normalize(X)
+        Xp = self.denormalize(X)
 
         out = super().do(Xp, return_values_of, *args, **kwargs)
         out["__X__"] = X
-- 
2.43.0


From 99ea9635d08df172838b73b6047036ff02fab66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:27 +0000
Subject: [PATCH 045/129] fix: normalization truncated the values of integer
 arrays

---
 pymoo/util/normalization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/util/normalization.py b/pymoo/util/normalization.py
index bcd824e..4fb2904 100644
--- a/pymoo/util/normalization.py
+++ b/pymoo/util/normalization.py
@@ -73,8 +73,8 @@ class ZeroToOneNormalization(Normalization):
         if X is None or (self.xl is None and self.xu is None):
             return X
 
-        # simple copy the input
-        N = np.copy(X)
+        # simple copy the input (always as floats, integers would be truncated)
+        N = np.array(X, dtype=float)
 
         # normalize between zero and one if neither of them is nan
         N[..., self.neither_nan] = (X[..., self.neither_nan] - self.xl[self.neither_nan]) / (
-- 
2.43.0


From 68166f4ccdad12a2f81f5474a3ccdb49af4aa55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:59 +0000
Subject: [PATCH 046/129] fix: simple normalization failed for integer arrays

---
 pymoo/util/normalization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/util/normalization.py b/pymoo/util/normalization.py
index 4fb2904..752d150 100644
--- a/pymoo/util/normalization.py
+++ b/pymoo/util/normalization.py
@@ -136,7 +136,7 @@ class SimpleZeroToOneNormalization(Normalization):
         denom = xu - xl
 
         # we can not divide by zero -> plus small epsilon
-        denom += (denom == 0) * 1e-32
+        denom = denom + (denom == 0) * 1e-32
 
         # normalize the actual values
         N = (X - xl) / denom
-- 
2.43.0


From 143ca0023abbc1c29c396a2ee9be3621f15c79a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:48 +0000
Subject: [PATCH 047/129] fix: high trade-off points ignored the given epsilon

---
 pymoo/mcdm/high_tradeoff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/mcdm/high_tradeoff.py b/pymoo/mcdm/high_tradeoff.py
index a19fa46..2497ded 100644
--- a/pymoo/mcdm/high_tradeoff.py
+++ b/pymoo/mcdm/high_tradeoff.py
@@ -19,7 +19,7 @@ class HighTradeoffPoints(DecisionMaking):
     def _do(self, F, **kwargs):
         n, m = F.shape
 
-        neighbors_finder = NeighborFinder(F, epsilon=0.125, n_min_neigbors="auto", consider_2d=False)
+        neighbors_finder = NeighborFinder(F, epsilon=self.epsilon, n_min_neigbors="auto", consider_2d=False)
 
         mu = np.full(n, -np.inf)
 
-- 
2.43.0


From 1460117528e17dac5d0c5d0d9d8d7f37e32356ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:48 +0000
Subject: [PATCH 048/129] fix: finding neighbors failed if no minimum number of
 them is requested

---
 pymoo/core/decision_making.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymoo/core/decision_making.py b/pymoo/core/decision_making.py
index 0a49f39..74f2721 100644
--- a/pymoo/core/decision_making.py
+++ b/pymoo/core/decision_making.py
@@ -29,8 +29,12 @@ class NeighborFinder:
             self.n_min_neigbors = min(2 * n_dim, _ - 1)
 
         # disable the minimum neighbor variable
+        elif n_min_neigbors is None:
+            self.n_min_neigbors = 0
+
+        # or use the number of neighbors directly
         else:
-            self.n_min_neigbors = np.inf
+            self.n_min_neigbors = n_min_neigbors
 
         # either choose epsilon
         self.epsilon = epsilon
-- 
2.43.0


From 1e61445b74d1831092e1483fc8514154f26a9cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:48 +0000
Subject: [PATCH 049/129] fix: high trade-off points failed if no trade-off is
 defined, for instance for a single solution

---
 pymoo/core/decision_making.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymoo/core/decision_making.py b/pymoo/core/decision_making.py
index 74f2721..0e1fc5d 100644
--- a/pymoo/core/decision_making.py
+++ b/pymoo/core/decision_making.py
@@ -88,6 +88,10 @@ def find_outliers_upper_tail(mu):
     )[0]
     mu = mu[I]
 
+    # if nothing is left there can not be any outlier
+    if len(mu) == 0:
+        return None
+
     # calculate mean and sigma
     mean, sigma = mu.mean(), mu.std()
 
-- 
2.43.0


From 5996a6a6aeb95cf60a38a7d824a2d9cab1e75e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:48 +0000
Subject: [PATCH 050/129] fix: pseudo weights always selected the first
 solution if all solutions are equal in an objective

---
 pymoo/mcdm/pseudo_weights.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymoo/mcdm/pseudo_weights.py b/pymoo/mcdm/pseudo_weights.py
index 8c70543..9082390 100644
--- a/pymoo/mcdm/pseudo_weights.py
+++ b/pymoo/mcdm/pseudo_weights.py
@@ -19,7 +19,8 @@ class PseudoWeights(DecisionMaking):
             nadir = F.max(axis=0)
 
         # normalized distance to the worst solution
-        pseudo_weights = (nadir - F) / (nadir - ideal)
+        norm = nadir - ideal
+        pseudo_weights = (nadir - F) / np.where(norm == 0, 1.0, norm)
 
         # normalize weights to sum up to one
         pseudo_weights = pseudo_weights / np.sum(pseudo_weights, axis=1)[:, None]
-- 
2.43.0


From dbbc396273bee0a7487390b62e8a690f08b654d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:48 +0000
Subject: [PATCH 051/129] fix: the type a decomposition is created with was
 ignored

---
 pymoo/core/decomposition.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymoo/core/decomposition.py b/pymoo/core/decomposition.py
index fd13220..29558c5 100644
--- a/pymoo/core/decomposition.py
+++ b/pymoo/core/decomposition.py
@@ -26,6 +26,10 @@ class Decomposition:
         **kwargs,
     ):
 
+        # by default use the type the object has been created with
+        if _type == "auto":
+            _type = self._type
+
         _F, _weights = to_1d_array_if_possible(F), to_1d_array_if_possible(weights)
 
         if _type == "auto":
-- 
2.43.0


From 3b7e818b88e13c51cc1bd02697914c485fde8382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:59 +0000
Subject: [PATCH 052/129] fix: compiled distances to weights (PBI) failed for
 integer weights

---
 pymoo/functions/compiled/decomposition.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymoo/functions/compiled/decomposition.pyx b/pymoo/functions/compiled/decomposition.pyx
index 747ad66..708a9a8 100644
--- a/pymoo/functions/compiled/decomposition.pyx
+++ b/pymoo/functions/compiled/decomposition.pyx
@@ -23,6 +23,9 @@ def calc_distance_to_weights(F, weights, utopian_point=None):
     if utopian_point is None:
         utopian_point = np.zeros(F.shape[1])
 
+    # integers are allowed as well
+    weights = np.asarray(weights, dtype=np.float64)
+
     norm = np.linalg.norm(weights, axis=1)
 
     d1, d2 = np.zeros(F.shape[0]), np.zeros(F.shape[0])
-- 
2.43.0


From e690cc4d59f3021f1ab3f0f7c5f1cf174973bdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:16 +0000
Subject: [PATCH 053/129] fix: adaptive constraint handling never counted
 evaluations, and a run limited by them did not end

---
 pymoo/constraints/adaptive.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymoo/constraints/adaptive.py b/pymoo/constraints/adaptive.py
index fff6017..bc610ff 100644
--- a/pymoo/constraints/adaptive.py
+++ b/pymoo/constraints/adaptive.py
@@ -43,6 +43,7 @@ class AttachConfigEvaluator(Evaluator):
             count_evals=count_evals,
             **kwargs,
         )
+        self.n_eval = self.wrapped.n_eval
         pop.apply(lambda ind: ind.set("config", self.config))
         return pop
 
-- 
2.43.0


From 7d0514dbb123d1ace9001612bbe609dccff812af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:16 +0000
Subject: [PATCH 054/129] fix: adaptive constraint handling skipped the setup
 of the algorithm

---
 pymoo/constraints/adaptive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymoo/constraints/adaptive.py b/pymoo/constraints/adaptive.py
index bc610ff..2e44038 100644
--- a/pymoo/constraints/adaptive.py
+++ b/pymoo/constraints/adaptive.py
@@ -63,7 +63,8 @@ class AdaptiveConstraintHandling(MetaAlgorithm):
         self.default_config = deepcopy(self.config)
         self.adapted_config = deepcopy(self.config)
 
-    def _setup(self, _, **kwargs):
+    def _setup(self, problem, **kwargs):
+        super()._setup(problem, **kwargs)
         self.evaluator = AttachConfigEvaluator(self.evaluator, self.config)
 
     def _adapt_constraint_handling(self, config, infills=None, **kwargs):
-- 
2.43.0


From 3e99e2a7150d29e2ee08dd368e02d3d7e3e8b42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:16 +0000
Subject: [PATCH 055/129] fix: a problem converted to a single objective failed
 without arguments for the decomposition

---
 pymoo/problems/multi_to_single.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/multi_to_single.py b/pymoo/problems/multi_to_single.py
index 87dd7ca..44de2e4 100644
--- a/pymoo/problems/multi_to_single.py
+++ b/pymoo/problems/multi_to_single.py
@@ -18,7 +18,7 @@ class MultiToSingleObjective(Meta, Problem):
     def __init__(self, problem: Any, decomposition: Any, kwargs: dict | None = None) -> None:
         super().__init__(problem)
         self.decomposition = decomposition
-        self.kwargs = kwargs if not None else dict()  # noqa: E712
+        self.kwargs = kwargs if kwargs is not None else dict()
         self.n_obj = 1
 
     def do(self, X: Any, return_values_of: Any, *args: Any, **kwargs: Any) -> dict:
-- 
2.43.0


From 8e0b510a83b4bf3ade46e609eab31a91356db903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:16 +0000
Subject: [PATCH 056/129] fix: converting the bounds to constraints failed if
 the bounds are removed

---
 pymoo/constraints/from_bounds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/constraints/from_bounds.py b/pymoo/constraints/from_bounds.py
index 9a0eb82..244c231 100644
--- a/pymoo/constraints/from_bounds.py
+++ b/pymoo/constraints/from_bounds.py
@@ -21,7 +21,7 @@ class ConstraintsFromBounds(Meta, Problem):
         out = self.__object__.do(X, return_values_of, *args, **kwargs)
 
         # get the boundaries for normalization
-        xl, xu = self.bounds()
+        xl, xu = self.__object__.bounds()
 
         # add the boundary constraint if enabled
         _G = anp.column_stack([xl - X, X - xu])
-- 
2.43.0


From fed1f14620cdea0ef3a993255bd16a06070a9d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:16 +0000
Subject: [PATCH 057/129] fix: constraints as penalty failed for multiple
 objectives

---
 pymoo/constraints/as_penalty.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/constraints/as_penalty.py b/pymoo/constraints/as_penalty.py
index cf779f6..1ea112e 100644
--- a/pymoo/constraints/as_penalty.py
+++ b/pymoo/constraints/as_penalty.py
@@ -32,7 +32,7 @@ class ConstraintsAsPenalty(Meta, Problem):
         CV = calc_cv(G=G, H=H)
 
         # set the penalized objective values
-        out["F"] = F + self.penalty * np.reshape(CV, F.shape)
+        out["F"] = F + self.penalty * np.reshape(CV, (-1, 1))
 
         del out["G"]
         del out["H"]
-- 
2.43.0


From e3f23995eae390c1d9c5558286fe3f2986e8c96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:16 +0000
Subject: [PATCH 058/129] fix: setting the time of a dynamic problem did not
 update its Pareto front

---
 pymoo/problems/dyn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymoo/problems/dyn.py b/pymoo/problems/dyn.py
index accf656..98c4d1a 100644
--- a/pymoo/problems/dyn.py
+++ b/pymoo/problems/dyn.py
@@ -63,6 +63,9 @@ class DynamicTestProblem(DynamicProblem, ABC):
         """
         self._time = value
 
+        # the cached ps and pf belong to another time
+        self.__dict__["cache"] = {}
+
 
 class TimeSimulation(Callback):
     """Callback to update time in dynamic problems during optimization."""
-- 
2.43.0


From e431c96cbd4147d230774b801ca84f53eb36f7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:50 +0000
Subject: [PATCH 059/129] fix: Pareto front, ideal and nadir point of a problem
 with constraints as objective had the wrong number of objectives

---
 pymoo/constraints/as_obj.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymoo/constraints/as_obj.py b/pymoo/constraints/as_obj.py
index 8488224..fa975e6 100644
--- a/pymoo/constraints/as_obj.py
+++ b/pymoo/constraints/as_obj.py
@@ -24,6 +24,9 @@ class ConstraintsAsObjective(Meta, Problem):
         self.n_ieq_constr = 0
         self.n_eq_constr = 0
 
+        # what has been cached (ideal and nadir point) belongs to the original objectives
+        self.__dict__.pop("cache", None)
+
     def do(self, X, return_values_of, *args, **kwargs):
         out = self.__object__.do(X, return_values_of, *args, **kwargs)
 
@@ -50,5 +53,6 @@ class ConstraintsAsObjective(Meta, Problem):
     def pareto_front(self, *args, **kwargs):
         pf = super().pareto_front(*args, **kwargs)
         if pf is not None:
-            pf = np.column_stack([np.zeros(len(pf)), pf])
+            cv = np.zeros((len(pf), 1))
+            pf = np.column_stack([cv, pf]) if self.append else cv[:1]
         return pf
-- 
2.43.0


From 15647b190988497afdfb1fd9d8a94c8d7972617c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:05 +0000
Subject: [PATCH 060/129] fix: constraints as objective/penalty for problems
 without constraints

---
 pymoo/constraints/as_obj.py     | 9 +++++----
 pymoo/constraints/as_penalty.py | 7 ++++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/pymoo/constraints/as_obj.py b/pymoo/constraints/as_obj.py
index fa975e6..f462e7a 100644
--- a/pymoo/constraints/as_obj.py
+++ b/pymoo/constraints/as_obj.py
@@ -34,10 +34,10 @@ class ConstraintsAsObjective(Meta, Problem):
         F, G, H = from_dict(out, "F", "G", "H")
 
         # store a backup of the values in out
-        out["__F__"], out["__G__"], out["__H__"] = F, G, H
+        out.update({f"__{name}__": v for name, v in (("F", F), ("G", G), ("H", H)) if v is not None})
 
         # calculate the total constraint violation (here normalization shall be already included)
-        CV = calc_cv(G=G, H=H, config=self.config)
+        CV = np.zeros(len(X)) + calc_cv(G=G, H=H, config=self.config)
 
         # append the constraint violation as objective
         if self.append:
@@ -45,8 +45,9 @@ class ConstraintsAsObjective(Meta, Problem):
         else:
             out["F"] = CV
 
-        del out["G"]
-        del out["H"]
+        # they do not exist if the problem has no constraints of this kind
+        out.pop("G", None)
+        out.pop("H", None)
 
         return out
 
diff --git a/pymoo/constraints/as_penalty.py b/pymoo/constraints/as_penalty.py
index 1ea112e..8f5356f 100644
--- a/pymoo/constraints/as_penalty.py
+++ b/pymoo/constraints/as_penalty.py
@@ -26,7 +26,7 @@ class ConstraintsAsPenalty(Meta, Problem):
         F, G, H = from_dict(out, "F", "G", "H")
 
         # store a backup of the values in out
-        out["__F__"], out["__G__"], out["__H__"] = F, G, H
+        out.update({f"__{name}__": v for name, v in (("F", F), ("G", G), ("H", H)) if v is not None})
 
         # calculate the total constraint violation (here normalization shall be already included)
         CV = calc_cv(G=G, H=H)
@@ -34,7 +34,8 @@ class ConstraintsAsPenalty(Meta, Problem):
         # set the penalized objective values
         out["F"] = F + self.penalty * np.reshape(CV, (-1, 1))
 
-        del out["G"]
-        del out["H"]
+        # they do not exist if the problem has no constraints of this kind
+        out.pop("G", None)
+        out.pop("H", None)
 
         return out
-- 
2.43.0


From 2710105b28ab694358e7a1d40bc64bd3cd34ce55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:05 +0000
Subject: [PATCH 061/129] fix: survival of GA compared solutions considered as
 feasible by their violation

---
 pymoo/algorithms/soo/nonconvex/ga.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymoo/algorithms/soo/nonconvex/ga.py b/pymoo/algorithms/soo/nonconvex/ga.py
index 595438a..2be6f21 100644
--- a/pymoo/algorithms/soo/nonconvex/ga.py
+++ b/pymoo/algorithms/soo/nonconvex/ga.py
@@ -29,6 +29,10 @@ class FitnessSurvival(Survival):
     def _do(self, problem, pop, n_survive=None, **kwargs):
         F, cv = pop.get("F", "cv")
         assert F.shape[1] == 1, "FitnessSurvival can only used for single objective single!"
+
+        # what is considered as feasible (might be more than only those without any violation) is compared by F
+        cv = np.where(pop.get("feas"), 0.0, cv)
+
         S = np.lexsort([F[:, 0], cv])
         pop.set("rank", np.argsort(S))
         return pop[S[:n_survive]]
-- 
2.43.0


From 227a0371a543825e30433fbb39b627969b727f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:12 +0000
Subject: [PATCH 062/129] fix: selection of points with maximum distance lost
 candidates

---
 pymoo/util/reference_direction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/util/reference_direction.py b/pymoo/util/reference_direction.py
index 9954306..6e19b03 100644
--- a/pymoo/util/reference_direction.py
+++ b/pymoo/util/reference_direction.py
@@ -450,6 +450,6 @@ def select_points_with_maximum_distance(
 
         # add it to the selected and remove from not selected
         selected.append(int(I))
-        not_selected = [i for i, idx in enumerate(not_selected) if idx != index_in_not_selected]
+        not_selected = [i for i in not_selected if i != I]
 
     return selected
-- 
2.43.0


From e81b7a5d7b6d3a76c31c5af0a69dec6c18a307e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:12 +0000
Subject: [PATCH 063/129] fix: reduction based reference directions failed for
 fewer points than objectives

---
 pymoo/util/ref_dirs/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/util/ref_dirs/reduction.py b/pymoo/util/ref_dirs/reduction.py
index 1858967..ca6ea6a 100644
--- a/pymoo/util/ref_dirs/reduction.py
+++ b/pymoo/util/ref_dirs/reduction.py
@@ -129,7 +129,7 @@ class ReductionBasedReferenceDirectionFactory(ReferenceDirectionFactory):
         X = np.vstack([E, rnd])
 
         I = select_points_with_maximum_distance(  # noqa: E741
-            X, self.n_points, selected=list(range(len(E)))
+            X, self.n_points, selected=list(range(len(E))), random_state=random_state
         )
         centroids = X[I].copy()
 
-- 
2.43.0


From 7b3043ebe4d50f4cbca5e6ea70ef727810687295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:12 +0000
Subject: [PATCH 064/129] fix: seed of reference directions was ignored

---
 pymoo/util/reference_direction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymoo/util/reference_direction.py b/pymoo/util/reference_direction.py
index 6e19b03..3ab6a4f 100644
--- a/pymoo/util/reference_direction.py
+++ b/pymoo/util/reference_direction.py
@@ -61,6 +61,7 @@ class ReferenceDirectionFactory:
         self.scaling = scaling
         self.lexsort = lexsort
         self.verbose = verbose
+        self.seed = kwargs.get("seed", 1)
 
     def __call__(self) -> NDArray:
         """Generate reference directions.
@@ -68,7 +69,7 @@ class ReferenceDirectionFactory:
         Returns:
             Array of reference directions.
         """
-        return self.do()
+        return self.do(seed=self.seed)
 
     @default_random_state(seed=1)
     def do(self, random_state=None) -> NDArray:  # type: ignore[misc]
-- 
2.43.0


From 9f3bf9e5fc66b5911e81d13720206d128f3043a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:12 +0000
Subject: [PATCH 065/129] fix: incremental reference directions of a single
 point were NaN

---
 pymoo/util/ref_dirs/incremental.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pymoo/util/ref_dirs/incremental.py b/pymoo/util/ref_dirs/incremental.py
index e086f12..c1c0f24 100644
--- a/pymoo/util/ref_dirs/incremental.py
+++ b/pymoo/util/ref_dirs/incremental.py
@@ -29,6 +29,10 @@ def check_n_points(n_points, n_dim):
 
 
 def incremental_lattice(n_partitions, n_dim):
+    # only the point in the center
+    if n_partitions == 0:
+        return np.full((1, n_dim), 1 / n_dim)
+
     I = n_dim * np.eye(n_dim)  # noqa: E741
     W = np.zeros((1, n_dim))
     edgeW = W
@@ -39,8 +43,7 @@ def incremental_lattice(n_partitions, n_dim):
         edgeW = edgeW[np.any(edgeW == 0, axis=1)]
         W = np.vstack((W + 1, edgeW))
 
-    with np.errstate(invalid="ignore", divide="ignore"):
-        return W / (n_dim * n_partitions)
+    return W / (n_dim * n_partitions)
 
 
 class IncrementalReferenceDirectionFactory(ReferenceDirectionFactory):
-- 
2.43.0


From 0f7805ecd281129bd6b94cf3ed17022394f0cda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:12 +0000
Subject: [PATCH 066/129] fix: layers of reference directions given as
 factories failed

---
 pymoo/util/reference_direction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/util/reference_direction.py b/pymoo/util/reference_direction.py
index 3ab6a4f..cce4303 100644
--- a/pymoo/util/reference_direction.py
+++ b/pymoo/util/reference_direction.py
@@ -293,7 +293,7 @@ class MultiLayerReferenceDirectionFactory:
         """
         ref_dirs: list[NDArray] = []
         for factory in self.layers:
-            ref_dirs.append(factory)
+            ref_dirs.append(factory() if callable(factory) else factory)
         ref_dirs_arr = np.concatenate(ref_dirs, axis=0)
         is_duplicate = find_duplicates(ref_dirs_arr)
         return ref_dirs_arr[np.logical_not(is_duplicate)]
-- 
2.43.0


From b47e85dfd1c3161f7d794236cf9250a2c6a3317f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:12 +0000
Subject: [PATCH 067/129] fix: mapping onto the unit simplex overwrote its
 input

---
 pymoo/util/reference_direction.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pymoo/util/reference_direction.py b/pymoo/util/reference_direction.py
index cce4303..07b831d 100644
--- a/pymoo/util/reference_direction.py
+++ b/pymoo/util/reference_direction.py
@@ -373,8 +373,7 @@ def map_onto_unit_simplex(rnd: NDArray, method: str) -> NDArray:
     elif method == "kraemer":
         M = sys.maxsize
 
-        rnd *= M
-        rnd = rnd[:, : n_dim - 1]
+        rnd = rnd[:, : n_dim - 1] * M
         rnd = np.column_stack([np.zeros(n_points), rnd, np.full(n_points, M)])
 
         rnd = np.sort(rnd, axis=1)
-- 
2.43.0


From 9ec91c527e5c1551f84ddcfb1d233d70c2e841d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:07 +0000
Subject: [PATCH 068/129] fix: reference directions by genetic algorithm
 evaluated all points at once

---
 pymoo/util/ref_dirs/genetic_algorithm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/util/ref_dirs/genetic_algorithm.py b/pymoo/util/ref_dirs/genetic_algorithm.py
index de12150..1a861fc 100644
--- a/pymoo/util/ref_dirs/genetic_algorithm.py
+++ b/pymoo/util/ref_dirs/genetic_algorithm.py
@@ -40,7 +40,7 @@ class ReferenceDirectionGA(ReferenceDirectionFactory):
                     n_obj=1,
                     xl=0.0,
                     xu=1.0,
-                    elementwise_evaluation=True,
+                    elementwise=True,
                 )
 
             def get_points(self, x):
@@ -60,7 +60,7 @@ class ReferenceDirectionGA(ReferenceDirectionFactory):
             algorithm,
             termination=("n_gen", n_gen),
             random_state=random_state,
-            verbose=True,
+            verbose=self.verbose,
         )
 
         ref_dirs = problem.get_points(res.X)
-- 
2.43.0


From 9911c8c20295a57546f4c084c53d39ab11a9dd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:02 +0000
Subject: [PATCH 069/129] fix: reference directions by genetic algorithm were
 not seeded

---
 pymoo/util/ref_dirs/genetic_algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/util/ref_dirs/genetic_algorithm.py b/pymoo/util/ref_dirs/genetic_algorithm.py
index 1a861fc..5572ba9 100644
--- a/pymoo/util/ref_dirs/genetic_algorithm.py
+++ b/pymoo/util/ref_dirs/genetic_algorithm.py
@@ -59,7 +59,7 @@ class ReferenceDirectionGA(ReferenceDirectionFactory):
             problem,
             algorithm,
             termination=("n_gen", n_gen),
-            random_state=random_state,
+            seed=random_state,
             verbose=self.verbose,
         )
 
-- 
2.43.0


From eac852dba60ff967e8b1318a150ddba9b0ce4b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:33 +0000
Subject: [PATCH 070/129] fix: energy based reference directions around a point
 failed without inner points

---
 pymoo/util/ref_dirs/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/util/ref_dirs/energy.py b/pymoo/util/ref_dirs/energy.py
index 04f910f..7764af6 100644
--- a/pymoo/util/ref_dirs/energy.py
+++ b/pymoo/util/ref_dirs/energy.py
@@ -113,7 +113,7 @@ class RieszEnergyReferenceDirectionFactory(ReferenceDirectionFactory):
 
         # if all points are frozen - simply return it
         if np.all(freeze):
-            return X
+            return X[:n_points]
 
         # initialize the optimizer for the run
         self.optimizer = Adam(alpha=0.005)
-- 
2.43.0


From 614a2e6b77317d8a136be4f2346f9b9fb2b93582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:58 +0000
Subject: [PATCH 071/129] fix: elementwise gradients by autograd for lists,
 rows and constants

---
 pymoo/gradient/grad_autograd.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pymoo/gradient/grad_autograd.py b/pymoo/gradient/grad_autograd.py
index a4fca86..23f4f6b 100644
--- a/pymoo/gradient/grad_autograd.py
+++ b/pymoo/gradient/grad_autograd.py
@@ -82,8 +82,13 @@ def autograd_elementwise_value_and_grad(f, x):  # type: ignore[name-defined]
         val = out[name]
 
         if val is not None:
-            if len(val.shape) == 0:
-                val = anp.array([val])
+            # it can be a single value, a list or an array - always consider it as a vector
+            val = anp.reshape(anp.array(val), (-1,))
+
+            # values not depending on x
+            if not isbox(val):
+                out[name], jac[name] = val, np.zeros((len(val), len(x)))
+                continue
 
             with warnings.catch_warnings():
                 warnings.simplefilter("ignore")
-- 
2.43.0


From 3daa1babdbb4b9dca1cb93ddb0059acb01042c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:58 +0000
Subject: [PATCH 072/129] fix: backend for gradients stayed active after an
 error in the evaluation

---
 pymoo/gradient/automatic.py | 44 ++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/pymoo/gradient/automatic.py b/pymoo/gradient/automatic.py
index 18b53a6..7057f3f 100644
--- a/pymoo/gradient/automatic.py
+++ b/pymoo/gradient/automatic.py
@@ -16,17 +16,19 @@ class ElementwiseEvaluationFunctionWithGradient(ElementwiseEvaluationFunction):
         f = super().__call__
 
         activate(self.backend)
-        if self.backend == "jax":
-            from pymoo.gradient.grad_jax import jax_elementwise_value_and_grad
+        try:
+            if self.backend == "jax":
+                from pymoo.gradient.grad_jax import jax_elementwise_value_and_grad
 
-            out, grad = jax_elementwise_value_and_grad(f, x)
-        elif self.backend == "autograd":
-            from pymoo.gradient.grad_autograd import autograd_elementwise_value_and_grad
+                out, grad = jax_elementwise_value_and_grad(f, x)
+            elif self.backend == "autograd":
+                from pymoo.gradient.grad_autograd import autograd_elementwise_value_and_grad
 
-            out, grad = autograd_elementwise_value_and_grad(f, x)
-        else:
-            raise Exception("Unknown backend %s" % self.backend)
-        deactivate()
+                out, grad = autograd_elementwise_value_and_grad(f, x)
+            else:
+                raise Exception("Unknown backend %s" % self.backend)
+        finally:
+            deactivate()
 
         for k, v in grad.items():
             out["d" + k] = np.array(v)
@@ -69,17 +71,19 @@ class AutomaticDifferentiation(Meta, Problem):
         f = F(self.__object__)
 
         activate(self.backend)
-        if self.backend == "jax":
-            from pymoo.gradient.grad_jax import jax_vectorized_value_and_grad
-
-            out, grad = jax_vectorized_value_and_grad(f, x)
-        elif self.backend == "autograd":
-            from pymoo.gradient.grad_autograd import autograd_vectorized_value_and_grad
-
-            out, grad = autograd_vectorized_value_and_grad(f, x)
-        else:
-            raise Exception("Unknown backend %s" % self.backend)
-        deactivate()
+        try:
+            if self.backend == "jax":
+                from pymoo.gradient.grad_jax import jax_vectorized_value_and_grad
+
+                out, grad = jax_vectorized_value_and_grad(f, x)
+            elif self.backend == "autograd":
+                from pymoo.gradient.grad_autograd import autograd_vectorized_value_and_grad
+
+                out, grad = autograd_vectorized_value_and_grad(f, x)
+            else:
+                raise Exception("Unknown backend %s" % self.backend)
+        finally:
+            deactivate()
 
         for k, v in grad.items():
             out["d" + k] = v
-- 
2.43.0


From b7b493f650c7e00c8091a50df87a18f5890f68f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:58 +0000
Subject: [PATCH 073/129] fix: KKTPM overwrote the ideal point

---
 pymoo/indicators/kktpm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/indicators/kktpm.py b/pymoo/indicators/kktpm.py
index bac58d5..35348e4 100644
--- a/pymoo/indicators/kktpm.py
+++ b/pymoo/indicators/kktpm.py
@@ -33,7 +33,7 @@ class KKTPM:
         # if not provided take the one defined in the problem
         if z is None:
             z = problem.ideal_point()
-        z -= utopian_eps
+        z = z - utopian_eps
 
         # for convenience get the counts directly
         n_solutions, n_obj, n_ieq_constr = (
-- 
2.43.0


From ecafa7a7befd7613bdef4af0dfa99e72c263d114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:58 +0000
Subject: [PATCH 074/129] fix: KKTPM failed for problems without constraints

---
 pymoo/indicators/kktpm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pymoo/indicators/kktpm.py b/pymoo/indicators/kktpm.py
index 35348e4..9837afe 100644
--- a/pymoo/indicators/kktpm.py
+++ b/pymoo/indicators/kktpm.py
@@ -49,8 +49,7 @@ class KKTPM:
         for i in range(n_solutions):
             # get the corresponding values for this solution
             f, cv, df = F[i, :], CV[i], dF[i, :].swapaxes(1, 0)  # noqa: F841
-            if n_ieq_constr > 0:
-                g, dg = G[i, :], dG[i].T
+            g, dg = G[i, :], dG[i].T
 
             # if the solution that is provided is infeasible
             if cv > 0:
-- 
2.43.0


From 04a3090b1f3990b166641c04865ebf7904f68bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:31 +0000
Subject: [PATCH 075/129] fix: gradients by autograd were zero for values
 computed by numpy

---
 pymoo/gradient/grad_autograd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymoo/gradient/grad_autograd.py b/pymoo/gradient/grad_autograd.py
index 23f4f6b..3ecdde0 100644
--- a/pymoo/gradient/grad_autograd.py
+++ b/pymoo/gradient/grad_autograd.py
@@ -128,6 +128,9 @@ def autograd_vectorized_value_and_grad(f, x):  # type: ignore[name-defined]
         v = val
         if hasattr(v, "_value"):
             v = np.array(v._value)
+        # the values have been traced, but not through the toolbox - their gradient is lost
+        elif v.dtype == object:
+            raise Exception(f"No gradient available for {name}: use pymoo.gradient.toolbox instead of numpy.")
         out[name] = v
 
         if not isbox(val):
-- 
2.43.0


From 2c4d03b403025016be8c421b96830bdab363dd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:31 +0000
Subject: [PATCH 076/129] fix: complex gradients failed if not asked for all
 values

---
 pymoo/gradient/grad_complex.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymoo/gradient/grad_complex.py b/pymoo/gradient/grad_complex.py
index 811c947..953b6d6 100644
--- a/pymoo/gradient/grad_complex.py
+++ b/pymoo/gradient/grad_complex.py
@@ -44,6 +44,7 @@ class ComplexNumberGradient(Meta, Problem):
             grad = calc_complex_gradient(self.__object__, vals_not_grad, x, self.eps, *args, **kwargs)
 
             for name, value in grad.items():
-                out["d" + name][i] = value
+                if "d" + name in out:
+                    out["d" + name][i] = value
 
         return out
-- 
2.43.0


From 660e07aedfe4757ba58eaa98286c523d2fe0075f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:57 +0000
Subject: [PATCH 077/129] fix: constraints from bounds failed if only the
 objectives were asked for

---
 pymoo/constraints/from_bounds.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymoo/constraints/from_bounds.py b/pymoo/constraints/from_bounds.py
index 244c231..293799f 100644
--- a/pymoo/constraints/from_bounds.py
+++ b/pymoo/constraints/from_bounds.py
@@ -26,7 +26,8 @@ class ConstraintsFromBounds(Meta, Problem):
         # add the boundary constraint if enabled
         _G = anp.column_stack([xl - X, X - xu])
 
-        out["G"] = anp.column_stack([out["G"], _G])
+        # there are no other constraints if the problem does not have any
+        out["G"] = anp.column_stack([out["G"], _G]) if out.get("G") is not None else _G
 
         if "dG" in out:
             _dG = np.zeros((len(X), 2 * self.n_var, self.n_var))
-- 
2.43.0


From afd2e0e14fdfd671dce93bf22d3d116b960a5832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:06 +0000
Subject: [PATCH 078/129] fix: values of DF12 depended on the other points
 evaluated

---
 pymoo/problems/dynamic/df.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/dynamic/df.py b/pymoo/problems/dynamic/df.py
index 003e9bd..3208b0d 100644
--- a/pymoo/problems/dynamic/df.py
+++ b/pymoo/problems/dynamic/df.py
@@ -333,7 +333,7 @@ class DF12(DF):
         x0 = x[:, 0].reshape(len(x), 1)
         tmp1 = x[:, 2:] - np.sin(self.time * x0)
         tmp2 = np.abs(np.sin(np.floor(k * (2 * x[:, 0:2] - r)) * np.pi / 2))
-        g = 1 + np.sum(tmp1**2, axis=1) + np.prod(tmp2)
+        g = 1 + np.sum(tmp1**2, axis=1) + np.prod(tmp2, axis=1)
 
         f1 = g * np.cos(0.5 * np.pi * x[:, 1]) * np.cos(0.5 * np.pi * x[:, 0])
         f2 = g * np.sin(0.5 * np.pi * x[:, 1]) * np.cos(0.5 * np.pi * x[:, 0])
-- 
2.43.0


From 9e1012fec10e2bd0c985226a3d978e26f078a25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:06 +0000
Subject: [PATCH 079/129] fix: Pareto front of the inverted DTLZ1 failed

---
 pymoo/problems/many/dtlz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/many/dtlz.py b/pymoo/problems/many/dtlz.py
index 1fbc2a1..d575019 100644
--- a/pymoo/problems/many/dtlz.py
+++ b/pymoo/problems/many/dtlz.py
@@ -466,7 +466,7 @@ class InvertedDTLZ1(DTLZ1):
         Returns:
             Pareto front solutions.
         """
-        return self.problem.pareto_front(*args, **kwargs)
+        return 0.5 - super()._calc_pareto_front(*args, **kwargs)
 
 
 class ScaledProblem(Problem):
-- 
2.43.0


From 5b9bb6b041f77321834c2e2240910fe52fd2d241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:06 +0000
Subject: [PATCH 080/129] fix: Pareto front of the convex DTLZ problems needed
 reference directions

---
 pymoo/problems/many/dtlz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/many/dtlz.py b/pymoo/problems/many/dtlz.py
index d575019..658e545 100644
--- a/pymoo/problems/many/dtlz.py
+++ b/pymoo/problems/many/dtlz.py
@@ -573,7 +573,7 @@ class ConvexProblem(Problem):
         self.problem._evaluate(x, out, **kwargs)
         out["F"] = anp.power(out["F"], self.get_power(self.n_obj))
 
-    def _calc_pareto_front(self, ref_dirs, *args, **kwargs):
+    def _calc_pareto_front(self, ref_dirs=None, *args, **kwargs):
         """Calculate Pareto front with convex transformation.
 
         Args:
-- 
2.43.0


From 0657907bc14e2bd375b68fe6fcfdd0de0daf7b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:06 +0000
Subject: [PATCH 081/129] fix: Pareto set of Himmelblau had three dimensions

---
 pymoo/problems/single/himmelblau.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pymoo/problems/single/himmelblau.py b/pymoo/problems/single/himmelblau.py
index c53735e..6e2722d 100644
--- a/pymoo/problems/single/himmelblau.py
+++ b/pymoo/problems/single/himmelblau.py
@@ -1,5 +1,7 @@
 """Himmelblau single-objective test problem."""
 
+import numpy as np
+
 from pymoo.core.problem import Problem
 
 
@@ -14,9 +16,11 @@ class Himmelblau(Problem):
         return 0
 
     def _calc_pareto_set(self):
-        return [
-            [3.0, 2.0],
-            [-2.805118, 3.131312],
-            [-3.779310, -3.283186],
-            [3.584428, -1.848126],
-        ]
+        return np.array(
+            [
+                [3.0, 2.0],
+                [-2.805118, 3.131312],
+                [-3.779310, -3.283186],
+                [3.584428, -1.848126],
+            ]
+        )
-- 
2.43.0


From e711c477852b42c4be2fc0bf8cc38e5e4e0cb3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:06 +0000
Subject: [PATCH 082/129] fix: Clutch declared more constraints than it has

---
 pymoo/problems/multi/clutch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/multi/clutch.py b/pymoo/problems/multi/clutch.py
index cea0dcd..8115f0d 100644
--- a/pymoo/problems/multi/clutch.py
+++ b/pymoo/problems/multi/clutch.py
@@ -8,7 +8,7 @@ from pymoo.core.problem import Problem
 
 class Clutch(Problem):
     def __init__(self) -> None:
-        super().__init__(n_var=5, n_obj=2, n_ieq_constr=19, vtype=int)
+        super().__init__(n_var=5, n_obj=2, n_ieq_constr=8, vtype=int)
         # ri, ro, t, F, Xp
         # self.xl = np.array([60, 90, 1, 600, 2])
         self.xl: np.ndarray = np.array([0, 0, 0, 0, 0])
-- 
2.43.0


From 20bfe1eb12f3cacfd8d6a936fee95c728014d654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:06 +0000
Subject: [PATCH 083/129] fix: multi-objective knapsack declared a single
 objective

---
 pymoo/problems/single/knapsack.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymoo/problems/single/knapsack.py b/pymoo/problems/single/knapsack.py
index f3c39f8..ba7b77c 100644
--- a/pymoo/problems/single/knapsack.py
+++ b/pymoo/problems/single/knapsack.py
@@ -28,6 +28,7 @@ class Knapsack(Problem):
 class MultiObjectiveKnapsack(Knapsack):
     def __init__(self, *args):
         super().__init__(*args)
+        self.n_obj = 2
 
     def _evaluate(self, x, out, *args, **kwargs):
         f1 = -np.sum(self.P * x, axis=1)
-- 
2.43.0


From f5ac8f6a76dd332315f7cc8f6335cafa83125033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:18 +0000
Subject: [PATCH 084/129] fix: Pareto set of the pressure vessel was not the
 optimum of its Pareto front

---
 pymoo/problems/single/pressure_vessel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/single/pressure_vessel.py b/pymoo/problems/single/pressure_vessel.py
index 0b56a3d..6324b46 100644
--- a/pymoo/problems/single/pressure_vessel.py
+++ b/pymoo/problems/single/pressure_vessel.py
@@ -29,4 +29,4 @@ class PressureVessel(Problem):
         return 5.8853e03
 
     def _calc_pareto_set(self):
-        return [13, 7, 42.0984456, 176.6366]
+        return [12.45069826, 6.1543866, 40.31961872, 200.0]
-- 
2.43.0


From 0024f5d0ec179e9e14385d3dd507a27c3730e6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:18 +0000
Subject: [PATCH 085/129] fix: Pareto fronts of MW problems overwrote the
 reference directions

---
 pymoo/problems/multi/mw.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pymoo/problems/multi/mw.py b/pymoo/problems/multi/mw.py
index f51b45d..d510d3f 100644
--- a/pymoo/problems/multi/mw.py
+++ b/pymoo/problems/multi/mw.py
@@ -79,7 +79,7 @@ class MW1(MW):
             F = np.zeros((100, 2))
             F[:, 0] = np.linspace(0, 1, 100)
         else:
-            F = ref_dirs
+            F = np.array(ref_dirs)
         F[:, 1] = 1 - 0.85 * F[:, 0]
         length = np.sqrt(2) * F[:, 1] - np.sqrt(2) * F[:, 0]
         c = 1 - F[:, 0] - F[:, 1] + 0.5 * np.sin(2 * np.pi * length) ** 8
@@ -105,7 +105,7 @@ class MW2(MW):
             F = np.zeros((100, 2))
             F[:, 0] = np.linspace(0, 1, 100)
         else:
-            F = ref_dirs
+            F = np.array(ref_dirs)
         F[:, 1] = 1 - F[:, 0]
         return F
 
@@ -129,7 +129,7 @@ class MW3(MW):
             F = np.zeros((100, 2))
             F[:, 0] = np.linspace(0, 1, 100)
         else:
-            F = ref_dirs
+            F = np.array(ref_dirs)
         F[:, 1] = 1 - F[:, 0]
         invalid = (0.85 - F[:, 0] - F[:, 1] + 0.3 * np.sin(0.75 * np.pi * np.sqrt(2) * (F[:, 1] - F[:, 0])) ** 2) > 0
         while invalid.any():
@@ -213,7 +213,7 @@ class MW6(MW):
             F = np.zeros((100, 2))
             F[:, 0] = np.linspace(0, 1, 100)
         else:
-            F = ref_dirs
+            F = np.array(ref_dirs)
         F[:, 1] = 1 - F[:, 0]
         F = F / np.sqrt(np.sum(F**2, axis=1) / 1.21).reshape((-1, 1))
         length = np.cos(6 * np.arctan(F[:, 1] / F[:, 0]) ** 4) ** 10
@@ -355,7 +355,7 @@ class MW12(MW):
             F = np.zeros((100, 2))
             F[:, 0] = np.linspace(0, 1, 100)
         else:
-            F = ref_dirs
+            F = np.array(ref_dirs)
         F[:, 1] = 0.85 - 0.8 * F[:, 0] - 0.08 * np.abs(np.sin(3.2 * np.pi * F[:, 0]))
 
         invalid = (1 - 0.8 * F[:, 0] - F[:, 1] + 0.08 * np.sin(2 * np.pi * (F[:, 1] - F[:, 0] / 1.5))) * (
-- 
2.43.0


From 97067f2a964093364f6b85435795887f236d8171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:48 +0000
Subject: [PATCH 086/129] fix: Pareto front of C3DTLZ1 was infeasible

---
 pymoo/problems/many/cdtlz.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pymoo/problems/many/cdtlz.py b/pymoo/problems/many/cdtlz.py
index dd08d79..c2146fe 100644
--- a/pymoo/problems/many/cdtlz.py
+++ b/pymoo/problems/many/cdtlz.py
@@ -179,6 +179,22 @@ class C3DTLZ1(DTLZ1):
         super()._evaluate(x, out, *args, **kwargs)
         out["G"] = constraint_c3_linear(out["F"])
 
+    def _calc_pareto_front(self, ref_dirs=None, *args, **kwargs):
+        """Calculate Pareto front.
+
+        Args:
+            ref_dirs: Reference directions.
+            *args: Variable length argument list.
+            **kwargs: Arbitrary keyword arguments.
+
+        Returns:
+            Pareto front solutions.
+        """
+        F = super()._calc_pareto_front(ref_dirs, *args, **kwargs)
+        # move the points along their direction until the last constraint is satisfied
+        a = np.sum(F, axis=1) + np.min(F, axis=1)
+        return F / a[:, None]
+
 
 class C3DTLZ4(DTLZ4):
     """Constrained DTLZ4 problem with multiple spherical inequality constraints."""
-- 
2.43.0


From 31bf67f64874b8209b8bd64266160cca6a71079f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:12 +0000
Subject: [PATCH 087/129] fix: Pareto front of DTLZ7 contained dominated points

---
 pymoo/problems/many/dtlz.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymoo/problems/many/dtlz.py b/pymoo/problems/many/dtlz.py
index 658e545..b430bb3 100644
--- a/pymoo/problems/many/dtlz.py
+++ b/pymoo/problems/many/dtlz.py
@@ -6,6 +6,7 @@ import pymoo.gradient.toolbox as anp
 import numpy as np
 
 from pymoo.core.problem import Problem
+from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting
 from pymoo.util.reference_direction import UniformReferenceDirectionFactory
 from pymoo.util.remote import Remote
 
@@ -416,7 +417,8 @@ class DTLZ7(DTLZ):
         F_first = rng.random((n_points * 20, self.n_obj - 1))
         F_last = 2 * self.n_obj - np.sum(F_first * (1 + np.sin(3 * np.pi * F_first)), axis=1)
         valid = F_last >= 0
-        return np.column_stack([F_first[valid], F_last[valid]])
+        pf = np.column_stack([F_first[valid], F_last[valid]])
+        return pf[NonDominatedSorting().do(pf, only_non_dominated_front=True)]
 
     def _evaluate(self, x, out, *args, **kwargs) -> None:
         """Evaluate DTLZ7 problem.
-- 
2.43.0


From 4d96277e201512cf3749d198c9a2accd3df785fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:12 +0000
Subject: [PATCH 088/129] fix: Pareto fronts of DC1DTLZ and DC3DTLZ contained
 infeasible points

---
 pymoo/problems/many/dcdtlz.py | 84 +++++++++++++++++++++++++++++++++++
 1 file changed, 84 insertions(+)

diff --git a/pymoo/problems/many/dcdtlz.py b/pymoo/problems/many/dcdtlz.py
index 0908e27..7e81f2c 100644
--- a/pymoo/problems/many/dcdtlz.py
+++ b/pymoo/problems/many/dcdtlz.py
@@ -1,6 +1,7 @@
 """Degenerate constrained DTLZ test problems (DC1DTLZ1, DC1DTLZ3, DC2DTLZ1, DC2DTLZ3, DC3DTLZ1, DC3DTLZ3)."""
 
 import pymoo.gradient.toolbox as anp
+import numpy as np
 
 from pymoo.problems.many.dtlz import DTLZ1, DTLZ3
 
@@ -52,6 +53,33 @@ def constraints_dc3(X, gx, a: int = 5, b: float = 0.5):
     return anp.column_stack([Ggx, Gx])
 
 
+def positions_linear(F):
+    """Position variables of points on the (linear) front of DTLZ1.
+
+    Args:
+        F: Points on the front.
+
+    Returns:
+        Position variables (zero where they have no influence).
+    """
+    S = np.cumsum(F, axis=1)
+    X = 1 - F / np.where(S > 0, S, 1)
+    return np.where(S > 0, X, 0.0)[:, :0:-1]
+
+
+def positions_spherical(F):
+    """Position variables of points on the (spherical) front of DTLZ3.
+
+    Args:
+        F: Points on the front.
+
+    Returns:
+        Position variables (zero where they have no influence).
+    """
+    S = np.sqrt(np.cumsum(F**2, axis=1))
+    return (2 / np.pi * np.arctan2(F[:, 1:], S[:, :-1]))[:, ::-1]
+
+
 class DC1DTLZ1(DTLZ1):
     """Degenerate constrained DTLZ1 problem with one inequality constraint."""
 
@@ -78,6 +106,20 @@ class DC1DTLZ1(DTLZ1):
         super()._evaluate(x, out, *args, **kwargs)
         out["G"] = constraint_dc1(x)
 
+    def _calc_pareto_front(self, *args, **kwargs):
+        """Calculate the feasible part of the Pareto front.
+
+        Args:
+            *args: Variable length argument list.
+            **kwargs: Arbitrary keyword arguments.
+
+        Returns:
+            Pareto front solutions.
+        """
+        F = super()._calc_pareto_front(*args, **kwargs)
+        X = positions_linear(F)
+        return F[constraint_dc1(X) <= 0]
+
 
 class DC1DTLZ3(DTLZ3):
     """Degenerate constrained DTLZ3 problem with one inequality constraint."""
@@ -105,6 +147,20 @@ class DC1DTLZ3(DTLZ3):
         super()._evaluate(x, out, *args, **kwargs)
         out["G"] = constraint_dc1(x)
 
+    def _calc_pareto_front(self, *args, **kwargs):
+        """Calculate the feasible part of the Pareto front.
+
+        Args:
+            *args: Variable length argument list.
+            **kwargs: Arbitrary keyword arguments.
+
+        Returns:
+            Pareto front solutions.
+        """
+        F = super()._calc_pareto_front(*args, **kwargs)
+        X = positions_spherical(F)
+        return F[constraint_dc1(X) <= 0]
+
 
 class DC2DTLZ1(DTLZ1):
     """Degenerate constrained DTLZ1 problem with two inequality constraints."""
@@ -191,6 +247,20 @@ class DC3DTLZ1(DTLZ1):
         out["F"] = self.obj_func(X_, g)
         out["G"] = constraints_dc3(X_, g)
 
+    def _calc_pareto_front(self, *args, **kwargs):
+        """Calculate the feasible part of the Pareto front.
+
+        Args:
+            *args: Variable length argument list.
+            **kwargs: Arbitrary keyword arguments.
+
+        Returns:
+            Pareto front solutions.
+        """
+        F = super()._calc_pareto_front(*args, **kwargs)
+        X = positions_linear(F)
+        return F[(constraints_dc3(X, np.zeros(len(X))) <= 0).all(axis=1)]
+
 
 class DC3DTLZ3(DTLZ3):
     """Degenerate constrained DTLZ3 problem with multiple inequality constraints."""
@@ -218,3 +288,17 @@ class DC3DTLZ3(DTLZ3):
         g = self.g1(X_M)
         out["F"] = self.obj_func(X_, g, alpha=1)
         out["G"] = constraints_dc3(X_, g)
+
+    def _calc_pareto_front(self, *args, **kwargs):
+        """Calculate the feasible part of the Pareto front.
+
+        Args:
+            *args: Variable length argument list.
+            **kwargs: Arbitrary keyword arguments.
+
+        Returns:
+            Pareto front solutions.
+        """
+        F = super()._calc_pareto_front(*args, **kwargs)
+        X = positions_spherical(F)
+        return F[(constraints_dc3(X, np.zeros(len(X))) <= 0).all(axis=1)]
-- 
2.43.0


From 4be17e8d106af6502a460d57d8265dcb6d63bcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:12 +0000
Subject: [PATCH 089/129] fix: Pareto front and set of WFG2 contained dominated
 points

---
 pymoo/problems/many/wfg.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pymoo/problems/many/wfg.py b/pymoo/problems/many/wfg.py
index b1cc6d1..2fe1afb 100644
--- a/pymoo/problems/many/wfg.py
+++ b/pymoo/problems/many/wfg.py
@@ -8,6 +8,7 @@ from pymoo.core.problem import Problem
 from pymoo.problems.many import generic_sphere, get_ref_dirs
 from pymoo.functions import load_function
 from pymoo.util.misc import powerset
+from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting
 from pymoo.util import default_random_state
 
 
@@ -265,6 +266,17 @@ class WFG2(WFG):
 
         out["F"] = self._calculate(y, self.S, h)
 
+    def _calc_pareto_set(self, *args, **kwargs):
+        """Calculate the Pareto set without the positions in the gaps of the disconnected front."""
+        ps = super()._calc_pareto_set(*args, **kwargs)
+        F = self.evaluate(ps, return_values_of=["F"])
+        return ps[NonDominatedSorting().do(F, only_non_dominated_front=True)]
+
+    def _calc_pareto_front(self, *args, **kwargs):
+        """Calculate the Pareto front without the points in the gaps of the disconnected front."""
+        pf = super()._calc_pareto_front(*args, **kwargs)
+        return pf[NonDominatedSorting().do(pf, only_non_dominated_front=True)]
+
 
 class WFG3(WFG):
     """WFG3 test problem with linear shape and degeneracy."""
-- 
2.43.0


From da1ab0f14ee7e79a8bf760ca76be3485b6a0f294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:22 +0000
Subject: [PATCH 090/129] fix: the omni-optimizer never ended with a single
 solution in the population

---
 pymoo/algorithms/moo/omni.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymoo/algorithms/moo/omni.py b/pymoo/algorithms/moo/omni.py
index 80bc761..569e4a5 100644
--- a/pymoo/algorithms/moo/omni.py
+++ b/pymoo/algorithms/moo/omni.py
@@ -322,6 +322,10 @@ class NeighborBasedTournamentSelection(Selection):
         n_winners = n_select * n_parents
         n = len(pop)
 
+        # a single solution has no neighbor to compete against
+        if n == 1:
+            return np.zeros((n_select, n_parents), dtype=int)
+
         # normalize the decision space so that every variable contributes equally to the
         # distance used to determine the nearest neighbor
         X = pop.get("X").astype(float, copy=False)
-- 
2.43.0


From 7eee0f327b67d4b53b07e71b81d102e254d122ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:02 +0000
Subject: [PATCH 091/129] fix: MW5, MW6, MW7 and MW11 were undefined at the end
 of the front because of rounding

---
 pymoo/problems/multi/mw.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pymoo/problems/multi/mw.py b/pymoo/problems/multi/mw.py
index d510d3f..b7055bf 100644
--- a/pymoo/problems/multi/mw.py
+++ b/pymoo/problems/multi/mw.py
@@ -172,7 +172,7 @@ class MW5(MW):
     def _evaluate(self, X: np.ndarray, out: dict, *args, **kwargs) -> None:  # type: ignore[override]  # noqa: ARG002
         g = self.g1(X)
         f0 = g * X[:, 0]
-        f1 = g * np.sqrt(1.0 - np.power(f0 / g, 2.0))
+        f1 = g * np.sqrt(np.maximum(1.0 - np.power(f0 / g, 2.0), 0.0))
 
         with np.errstate(divide="ignore"):
             atan = np.arctan(f1 / f0)
@@ -195,7 +195,7 @@ class MW6(MW):
     def _evaluate(self, X: np.ndarray, out: dict, *args, **kwargs) -> None:  # type: ignore[override]  # noqa: ARG002
         g = self.g2(X)
         f0 = g * X[:, 0]
-        f1 = g * np.sqrt(1.1 * 1.1 - np.power(f0 / g, 2.0))
+        f1 = g * np.sqrt(np.maximum(1.1 * 1.1 - np.power(f0 / g, 2.0), 0.0))
 
         with np.errstate(divide="ignore"):
             atan = np.arctan(f1 / f0)
@@ -228,7 +228,7 @@ class MW7(MW):
     def _evaluate(self, X: np.ndarray, out: dict, *args, **kwargs) -> None:  # type: ignore[override]  # noqa: ARG002
         g = self.g3(X)
         f0 = g * X[:, 0]
-        f1 = g * np.sqrt(1 - np.power(f0 / g, 2))
+        f1 = g * np.sqrt(np.maximum(1 - np.power(f0 / g, 2), 0))
 
         with np.errstate(divide="ignore"):
             atan = np.arctan(f1 / f0)
@@ -317,7 +317,7 @@ class MW11(MW):
     def _evaluate(self, X: np.ndarray, out: dict, *args, **kwargs) -> None:  # type: ignore[override]  # noqa: ARG002
         g = self.g3(X)
         f0 = g * X[:, 0]
-        f1 = g * np.sqrt(2.0 - np.power(f0 / g, 2.0))
+        f1 = g * np.sqrt(np.maximum(2.0 - np.power(f0 / g, 2.0), 0.0))
 
         g0 = -1.0 * (3.0 - f0 * f0 - f1) * (3.0 - 2.0 * f0 * f0 - f1)
         g1 = (3.0 - 0.625 * f0 * f0 - f1) * (3.0 - 7.0 * f0 * f0 - f1)
-- 
2.43.0


From 3e2b23d0c450940a48dc2b95a6c6d73256265ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:42 +0000
Subject: [PATCH 092/129] fix: NRBO displayed nothing although verbose

---
 pymoo/algorithms/soo/nonconvex/nrbo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/soo/nonconvex/nrbo.py b/pymoo/algorithms/soo/nonconvex/nrbo.py
index b4e402b..66df148 100644
--- a/pymoo/algorithms/soo/nonconvex/nrbo.py
+++ b/pymoo/algorithms/soo/nonconvex/nrbo.py
@@ -17,6 +17,7 @@ from pymoo.core.survival import Survival
 from pymoo.operators.repair.bounds_repair import repair_random_init
 from pymoo.operators.sampling.lhs import LHS
 from pymoo.util import default_random_state
+from pymoo.util.display.single import SingleObjectiveOutput
 
 
 class FitnessSurvival(Survival):
@@ -68,7 +69,7 @@ class NRBO(Algorithm):
         sampling=LHS(),
         max_iteration=100,
         repair=NoRepair(),
-        output=None,
+        output=SingleObjectiveOutput(),
         display=None,
         callback=None,
         archive=None,
-- 
2.43.0


From 69888d84564af227b1350fd0e15fb77ff84eba72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:54 +0000
Subject: [PATCH 093/129] fix: nested parameters were set by value although
 they were to be replaced [P36]

---
 pymoo/core/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/core/parameters.py b/pymoo/core/parameters.py
index 7c04814..bd33e6d 100644
--- a/pymoo/core/parameters.py
+++ b/pymoo/core/parameters.py
@@ -146,7 +146,7 @@ def set_params(obj, params, as_value=True):
 
     for k, v in params.items():
         if isinstance(v, dict):
-            set_params(data[k], v)
+            set_params(data[k], v, as_value=as_value)
         else:
             if as_value:
                 data[k].set(v)
-- 
2.43.0


From ee1b7013d5d1393ebccb5d76326ed0c8add1255c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:54 +0000
Subject: [PATCH 094/129] fix: a single solution of mixed variables was
 evaluated as if its variables were solutions [P06]

---
 pymoo/core/problem.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymoo/core/problem.py b/pymoo/core/problem.py
index 9159435..7326454 100644
--- a/pymoo/core/problem.py
+++ b/pymoo/core/problem.py
@@ -188,6 +188,8 @@ class Problem:
             assert X.shape[1] == self.n_var, f"Input dimension {X.shape[1]} are not equal to n_var {self.n_var}!"
         else:
             only_single_value = not (isinstance(X, list) or isinstance(X, np.ndarray))
+            if only_single_value:
+                X = [X]
 
         # this is where the actual evaluation takes place
         _out = self.do(X, return_values_of, *args, **kwargs)
-- 
2.43.0


From f352ab47988974f1b87992975ceaa78c192a65df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:38 +0000
Subject: [PATCH 095/129] fix: offspring were mutated with and remembered the
 parameters of other matings [P36]

---
 pymoo/operators/control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/operators/control.py b/pymoo/operators/control.py
index a39b368..fbda42b 100644
--- a/pymoo/operators/control.py
+++ b/pymoo/operators/control.py
@@ -178,7 +178,7 @@ class ParameterControlMating(InfillCriterion):
 
         # now we have to consider during parameter control that a crossover can produce multiple offsprings
         for name, param in control.params.items():
-            param.set(np.repeat(param.get(), self.crossover.n_offsprings))
+            param.set(np.tile(param.get(), self.crossover.n_offsprings))
 
         # do the mutation on the offsprings created through crossover
         off = self.mutation(problem, off, **kwargs)
-- 
2.43.0


From ff92da4892d3df88008bb5904af5d646c208ec0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:34 +0000
Subject: [PATCH 096/129] fix: lines of plots were drawn into the current
 instead of their own axes [P37]

---
 pymoo/visualization/pcp.py  | 3 +--
 pymoo/visualization/util.py | 6 +++---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/pymoo/visualization/pcp.py b/pymoo/visualization/pcp.py
index 329a750..b569fea 100644
--- a/pymoo/visualization/pcp.py
+++ b/pymoo/visualization/pcp.py
@@ -4,7 +4,6 @@ import numpy as np
 
 from pymoo.core.plot import Plot
 from pymoo.util.misc import set_if_none, set_if_none_from_tuples
-from pymoo.visualization.matplotlib import plt
 from pymoo.visualization.util import normalize, parse_bounds
 
 
@@ -59,7 +58,7 @@ class PCP(Plot):
             set_if_none(_kwargs, "color", self.colors[k % len(self.colors)])
 
             for i in range(len(F)):
-                plt.plot(np.arange(F.shape[1]), F[i, :], **_kwargs)
+                self.ax.plot(np.arange(F.shape[1]), F[i, :], **_kwargs)
 
         # Plot the parallel coordinate axes
         for i in range(self.n_dim):
diff --git a/pymoo/visualization/util.py b/pymoo/visualization/util.py
index 05d1245..676ba5c 100644
--- a/pymoo/visualization/util.py
+++ b/pymoo/visualization/util.py
@@ -37,12 +37,12 @@ def get_uniform_points_around_circle(n: int) -> np.ndarray:  # noqa: ANN101
 def plot_circle(ax, center: float = 0, radius: float = 1, **kwargs) -> None:  # noqa: ANN001
     P = get_circle_points(5000)
     P = (P + center) * radius
-    plt.plot(P[:, 0], P[:, 1], **kwargs)
+    ax.plot(P[:, 0], P[:, 1], **kwargs)
 
 
 def plot_radar_line(ax, x, **kwargs) -> None:  # noqa: ANN001
     x = np.vstack([x, x[0]])
-    plt.plot(x[:, 0], x[:, 1], **kwargs)
+    ax.plot(x[:, 0], x[:, 1], **kwargs)
 
 
 def plot_axes_arrow(ax, X, extend_factor: float = 1.0, **kwargs) -> None:  # noqa: ANN001
@@ -52,7 +52,7 @@ def plot_axes_arrow(ax, X, extend_factor: float = 1.0, **kwargs) -> None:  # noq
 
 def plot_axes_lines(ax, X, extend_factor: float = 1.0, **kwargs) -> None:  # noqa: ANN001
     for x, y in X:
-        plt.plot([0, x * extend_factor], [0, y * extend_factor], **kwargs)
+        ax.plot([0, x * extend_factor], [0, y * extend_factor], **kwargs)
 
 
 def plot_polygon(ax, x, **kwargs) -> None:  # noqa: ANN001
-- 
2.43.0


From c546a6fbcfd4a414a2f3ec68202997efb9215a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:34 +0000
Subject: [PATCH 097/129] fix: the landscape of problems with one variable was
 empty [P37]

---
 pymoo/visualization/fitness_landscape.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pymoo/visualization/fitness_landscape.py b/pymoo/visualization/fitness_landscape.py
index 66e9a7c..c60a6bd 100644
--- a/pymoo/visualization/fitness_landscape.py
+++ b/pymoo/visualization/fitness_landscape.py
@@ -2,7 +2,6 @@
 
 import numpy as np
 
-import pymoo.visualization.util
 from pymoo.core.plot import Plot
 from pymoo.util.misc import all_combinations
 
@@ -62,7 +61,7 @@ class FitnessLandscape(Plot):
 
             X = np.linspace(problem.xl[0], problem.xu[0], num=n_samples)[:, None]
             Z = problem.evaluate(X, return_values_of=["F"])
-            pymoo.visualization.util.plot(X, Z)
+            self.ax.plot(X[:, 0], Z[:, 0])
             self.ax.set_xlabel("x")
             self.ax.set_ylabel("f(x)")
 
-- 
2.43.0


From fcf36a6bb73f2a15fdf52681f927cfd8e3e9e4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:34 +0000
Subject: [PATCH 098/129] fix: contour landscapes modified the style given
 [P37]

---
 pymoo/visualization/fitness_landscape.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pymoo/visualization/fitness_landscape.py b/pymoo/visualization/fitness_landscape.py
index c60a6bd..57d441f 100644
--- a/pymoo/visualization/fitness_landscape.py
+++ b/pymoo/visualization/fitness_landscape.py
@@ -76,6 +76,9 @@ class FitnessLandscape(Plot):
             _Y = X[:, 1].reshape((n_samples, n_samples))
             _Z = F.reshape((n_samples, n_samples))
 
+            # the style given is not modified
+            kwargs_contour = dict(self.kwargs_contour)
+
             def plot_surface():
                 surf = self.ax.plot_surface(_X, _Y, _Z, **self.kwargs_surface)
 
@@ -83,7 +86,7 @@ class FitnessLandscape(Plot):
                     self.fig.colorbar(surf)
 
             def plot_contour():
-                CS = self.ax.contour(_X, _Y, _Z, self.contour_levels, **self.kwargs_contour)
+                CS = self.ax.contour(_X, _Y, _Z, self.contour_levels, **kwargs_contour)
                 if self.kwargs_contour_labels is not None:
                     self.ax.clabel(CS, **self.kwargs_contour_labels)
 
@@ -96,8 +99,7 @@ class FitnessLandscape(Plot):
             elif _type == "contour":
                 self.init_figure(plot_3D=False)
 
-                if "offset" in self.kwargs_contour:
-                    del self.kwargs_contour["offset"]
+                kwargs_contour.pop("offset", None)
 
                 plot_contour()
             elif _type == "surface+contour":
-- 
2.43.0


From 0b85ef2b0bc70dd7586d51ea2981d3c1dd7fc60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:34 +0000
Subject: [PATCH 099/129] fix: heatmaps ordered by all objectives failed or
 started with the second [P37]

---
 pymoo/visualization/heatmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/visualization/heatmap.py b/pymoo/visualization/heatmap.py
index baaf53c..42a4f28 100644
--- a/pymoo/visualization/heatmap.py
+++ b/pymoo/visualization/heatmap.py
@@ -55,7 +55,7 @@ class Heatmap(Plot):
         if self.order_by_objectives is not None and self.order_by_objectives is not False:
             if isinstance(self.order_by_objectives, list) and len(self.order_by_objectives) == self.n_dim:
                 L = self.order_by_objectives
-            elif isinstance(self.order_by_objectives, int):
+            elif isinstance(self.order_by_objectives, int) and not isinstance(self.order_by_objectives, bool):
                 L = [i for i in range(F.shape[1]) if i != self.order_by_objectives]
                 L.insert(0, self.order_by_objectives)
             else:
-- 
2.43.0


From 580cece9e62011eef687c1e16ab1066f2b64139e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:34 +0000
Subject: [PATCH 100/129] fix: heatmaps without labels of the solutions failed
 [P37]

---
 pymoo/visualization/heatmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/visualization/heatmap.py b/pymoo/visualization/heatmap.py
index 42a4f28..d5f9443 100644
--- a/pymoo/visualization/heatmap.py
+++ b/pymoo/visualization/heatmap.py
@@ -74,8 +74,8 @@ class Heatmap(Plot):
         self.ax.set_xticklabels(self.get_labels())
 
         # no solution labels should be used
-        if self.solution_labels is None:
-            pass
+        if self.solution_labels is None or self.solution_labels is False:
+            self.solution_labels = None
 
         # if true, just use a number for each solution
         elif isinstance(self.solution_labels, bool) and self.solution_labels:
-- 
2.43.0


From a6b76c6c23dae5b9a7f91732fa608e704456058e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:35 +0000
Subject: [PATCH 101/129] fix: inner bounds of radar plots were not scaled like
 the outer ones [P37]

---
 pymoo/visualization/radar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/visualization/radar.py b/pymoo/visualization/radar.py
index c36408a..6ab5291 100644
--- a/pymoo/visualization/radar.py
+++ b/pymoo/visualization/radar.py
@@ -100,7 +100,7 @@ class Radar(Plot):
             inner = np.zeros((self.n_dim, 1)) * V
             outer = np.ones((self.n_dim, 1)) * V
         else:
-            inner = bounds[[0]].T * V
+            inner = (bounds[[0]].T * V) / bounds[1].max()
             outer = (bounds[[1]].T * V) / bounds[1].max()
 
         for k, (F, kwargs) in enumerate(to_plot_norm):
-- 
2.43.0


From 09c780d9f032b7630387bb0169bf6e4fbd586c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:01 +0000
Subject: [PATCH 102/129] fix: fitting a value function by evolution failed if
 no feasible one was found [P38]

---
 pymoo/util/value_functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pymoo/util/value_functions.py b/pymoo/util/value_functions.py
index f34c003..59356b6 100644
--- a/pymoo/util/value_functions.py
+++ b/pymoo/util/value_functions.py
@@ -640,8 +640,9 @@ def _validate_vf(res, verbose):
     message = ""
 
     if isinstance(res, pymoo.core.result.Result):
-        success = np.all(res.G <= 0)
-        epsilon = res.X[-1]
+        # if no solution satisfying the constraints has been found there is nothing to be used
+        success = res.X is not None and np.all(res.G <= 0)
+        epsilon = res.X[-1] if res.X is not None else -1000
         if not success:
             message = "Constraints not met\n"
         if epsilon < 0:
-- 
2.43.0


From 9727cfc488e92bdaa0988735e0f9cf5a3903e135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:01 +0000
Subject: [PATCH 103/129] fix: value functions could not be fitted by SLSQP and
 GA [P38]

---
 pymoo/util/value_functions.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pymoo/util/value_functions.py b/pymoo/util/value_functions.py
index 59356b6..2472e91 100644
--- a/pymoo/util/value_functions.py
+++ b/pymoo/util/value_functions.py
@@ -52,7 +52,7 @@ def create_poly_vf(
 
     if method == "trust-constr" or method == "SLSQP":
         return create_vf_scipy_poly(P, ranks, delta, eps_max, method=method, verbose=verbose, max_iter=max_iter)
-    elif method == "ES":
+    elif method == "ES" or method == "GA":
         return create_vf_pymoo_poly(P, ranks, delta, eps_max, method=method, verbose=verbose)
     else:
         raise ValueError("Optimization method %s not supported" % method)
@@ -62,7 +62,7 @@ def create_linear_vf(P, ranks, delta=0.1, eps_max=1000, method="trust-constr", m
 
     if method == "trust-constr" or method == "SLSQP":
         return create_vf_scipy_linear(P, ranks, delta, eps_max, method, max_iter=max_iter)
-    elif method == "ES":
+    elif method == "ES" or method == "GA":
         return create_vf_pymoo_linear(P, ranks, delta, eps_max, method)
     else:
         raise ValueError("Optimization method %s not supported" % method)
@@ -649,10 +649,12 @@ def _validate_vf(res, verbose):
             message = message + "Epsilon negative\n"
 
     elif isinstance(res, OptimizeResult):
-        success = res.success and res.constr_violation <= 0
+        # not all methods provide the violation, but are only successful if the constraints are met
+        constr_violation = res.get("constr_violation", 0.0)
+        success = res.success and constr_violation <= 0
         epsilon = res.x[-1]
 
-        if not (res.constr_violation <= 0):
+        if not (constr_violation <= 0):
             message = "Constraints not met."
         else:
             message = res.message
-- 
2.43.0


From 774eae92d0e327d8a7da37910827b9d6dd0237a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:30 +0000
Subject: [PATCH 104/129] fix: fitting a value function sorted the ranks given
 [P38]

---
 pymoo/util/value_functions.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pymoo/util/value_functions.py b/pymoo/util/value_functions.py
index 2472e91..10ee3ab 100644
--- a/pymoo/util/value_functions.py
+++ b/pymoo/util/value_functions.py
@@ -89,7 +89,7 @@ def create_vf_scipy_poly(P, ranks, delta, eps_max, method="trust-constr", verbos
         ineq_ub.append(0)
 
     P_sorted = _sort_P(P, ranks)
-    ranks.sort()
+    ranks = sorted(ranks)
 
     constr = NonlinearConstraint(_build_constr_poly(P_sorted, poly_vf, ranks, delta), ineq_lb, ineq_ub)
 
@@ -149,7 +149,7 @@ def create_vf_scipy_linear(P, ranks, delta, eps_max, method="trust-constr", verb
 
     # Sort P
     P_sorted = _sort_P(P, ranks)
-    ranks.sort()
+    ranks = sorted(ranks)
 
     # Inequality constraints
     lb = [-np.inf] * (P.shape[0] - 1)
@@ -600,12 +600,10 @@ class OptimizeLinearVF(Problem):
 
         self.P = _sort_P(P, ranks)
 
-        self.ranks = ranks
-        self.ranks.sort()
+        self.ranks = sorted(ranks)
 
         self.vf = vf
 
-        self.ranks = ranks
         self.delta = delta
 
         super().__init__(
@@ -695,8 +693,7 @@ class OptimizePolyVF(Problem):
 
         self.P = _sort_P(P, ranks)
 
-        self.ranks = ranks
-        self.ranks.sort()
+        self.ranks = sorted(ranks)
 
         self.vf = vf
 
-- 
2.43.0


From 9ca292a537e0d4b9dca6b101fcad4b81f03c3016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:31 +0000
Subject: [PATCH 105/129] fix: domination by a value function depended on the
 order of the solutions [P38]

---
 pymoo/util/vf_dominator.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/pymoo/util/vf_dominator.py b/pymoo/util/vf_dominator.py
index e782ff3..ef65ce4 100644
--- a/pymoo/util/vf_dominator.py
+++ b/pymoo/util/vf_dominator.py
@@ -83,15 +83,12 @@ class VFDominator:
             Lv = np.repeat(F_vf, m, axis=0)
             Rv = np.tile(_F_vf, (n, 1))
 
-            # Which values are greater than (better) V2?
-            gtv2 = np.reshape(Lv < v2, (n, m))
-            # Which values are less than (worst) V2?
-            ltv2 = np.reshape(Rv > v2, (n, m))
+            # If you are greater (better) than V2, you dominate all those who are smaller (worse) than V2
+            better = np.reshape(np.logical_and(Lv > v2, Rv < v2), (n, m))
+            worse = np.reshape(np.logical_and(Lv < v2, Rv > v2), (n, m))
 
-            # If you are greater than V2, you dominate all those who are smaller than V2
-            split_by_v2 = np.logical_and(gtv2, ltv2)
-
-            dom = np.logical_or(dom, split_by_v2)
+            non_dom = np.logical_or(non_dom, better)
+            dom = np.logical_or(dom, worse)
 
         M = non_dom * 1 + dom * -1
 
-- 
2.43.0


From a7126633880de052cdc139ce3f440c7b3b591d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:31 +0000
Subject: [PATCH 106/129] fix: the second best solution of the decision maker
 was looked up by the wrong index [P38]

---
 pymoo/algorithms/moo/pinsga2.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pymoo/algorithms/moo/pinsga2.py b/pymoo/algorithms/moo/pinsga2.py
index 207726f..b9504af 100644
--- a/pymoo/algorithms/moo/pinsga2.py
+++ b/pymoo/algorithms/moo/pinsga2.py
@@ -327,11 +327,14 @@ class PINSGA2(GeneticAlgorithm):
                 else:
                     raise ValueError("Value function %s not supported" % self.vf_type)
 
+                # the second best of the solutions ranked
+                second = np.argsort(dm_ranks, kind="stable")[1]
+
                 # check if we were able to model the VF
                 if vf_res.fit:
                     self.vf_res = vf_res
                     self.vf_plot_flag = True
-                    self.v2 = self.vf_res.vf(eta_F[dm_ranks[1] - 1] * -1).item()
+                    self.v2 = self.vf_res.vf(eta_F[second] * -1).item()
                     break
 
                 else:
@@ -347,14 +350,13 @@ class PINSGA2(GeneticAlgorithm):
                     else:
                         self._warn("Removing the second best preferred solution from the fit.")
 
-                        # ranks start at 1, not zero
-                        rank_to_remove = dm_ranks[1]
-                        eta_F = np.delete(eta_F, rank_to_remove - 1, axis=0)
-
-                        dm_ranks = np.concatenate(([dm_ranks[0]], dm_ranks[2:]))
+                        rank_to_remove = dm_ranks[second]
+                        eta_F = np.delete(eta_F, second, axis=0)
+                        dm_ranks = np.delete(dm_ranks, second)
 
                         # update the ranks, since we just removed one
-                        dm_ranks[dm_ranks > rank_to_remove] = dm_ranks[dm_ranks > rank_to_remove] - 1
+                        if rank_to_remove not in dm_ranks:
+                            dm_ranks[dm_ranks > rank_to_remove] = dm_ranks[dm_ranks > rank_to_remove] - 1
 
 
 parse_doc_string(PINSGA2.__init__)
-- 
2.43.0


From f0f6dba731c9780596195785ed034f3ad98946c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:30 +0000
Subject: [PATCH 107/129] fix: restarts of CMA-ES repeated the random numbers
 of the first run

---
 pymoo/vendor/vendor_cmaes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymoo/vendor/vendor_cmaes.py b/pymoo/vendor/vendor_cmaes.py
index 4366d9c..d0bd0f7 100644
--- a/pymoo/vendor/vendor_cmaes.py
+++ b/pymoo/vendor/vendor_cmaes.py
@@ -135,7 +135,8 @@ def my_fmin(x0,
                     seed = opts['seed']
 
                 # Use a generator of its own (CMA-ES seeds and uses the global one of numpy otherwise)
-                if 'randn' not in options and isinstance(seed, (int, np.integer)):
+                # which is kept by restarts
+                if irun == 0 and 'randn' not in options and isinstance(seed, (int, np.integer)):
                     opts['seed'] = np.nan
                     opts['randn'] = np.random.RandomState(seed).randn
 
-- 
2.43.0


From a66ad6a9e4484dcd542c3dbcc63d458afa6c98a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:18 +0000
Subject: [PATCH 108/129] fix: initial simplex scale of Nelder-Mead was ignored

---
 pymoo/algorithms/soo/nonconvex/nelder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/algorithms/soo/nonconvex/nelder.py b/pymoo/algorithms/soo/nonconvex/nelder.py
index 0727ec0..e87cccc 100644
--- a/pymoo/algorithms/soo/nonconvex/nelder.py
+++ b/pymoo/algorithms/soo/nonconvex/nelder.py
@@ -141,7 +141,7 @@ class NelderMead(LocalSearch):
         self.alpha, self.beta, self.gamma, self.delta = self.func_params(self.problem)
 
     def _initialize_simplex(self):
-        simplex = pop_from_array_or_individual(initialize_simplex(self.problem, self.x0.X, scale=0.05))
+        simplex = pop_from_array_or_individual(initialize_simplex(self.problem, self.x0.X, scale=self.init_simplex_scale))
         return Population.merge(self.x0, simplex)
 
     def _next(self):
-- 
2.43.0


From 0ca9763549018d7e752861a6026c4c858e3089b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:19 +0000
Subject: [PATCH 109/129] fix: interval given to univariate searches was
 ignored

---
 pymoo/algorithms/base/bracket.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/base/bracket.py b/pymoo/algorithms/base/bracket.py
index d202030..8d50b3d 100644
--- a/pymoo/algorithms/base/bracket.py
+++ b/pymoo/algorithms/base/bracket.py
@@ -14,7 +14,12 @@ class BracketSearch(Algorithm):
     def _setup(self, problem, a=None, b=None, **kwargs):
         msg = "Only problems with one variable, one objective and no constraints can be solved!"
         assert problem.n_var == 1 and not problem.has_constraints() and problem.n_obj == 1, msg
-        self.a, self.b = a, b
+
+        # do not lose the interval given when the object was created
+        if a is not None:
+            self.a = a
+        if b is not None:
+            self.b = b
 
     def _initialize_infill(self):
 
-- 
2.43.0


From a074b9ac6cca0ca6d6f98d0cf2d54b2e4376dda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:43 +0000
Subject: [PATCH 110/129] fix: quadratic interpolation search left its interval
 and dropped the part with the minimum

---
 .../algorithms/soo/univariate/quadr_interp.py | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pymoo/algorithms/soo/univariate/quadr_interp.py b/pymoo/algorithms/soo/univariate/quadr_interp.py
index 7cfd49e..201326c 100644
--- a/pymoo/algorithms/soo/univariate/quadr_interp.py
+++ b/pymoo/algorithms/soo/univariate/quadr_interp.py
@@ -7,13 +7,19 @@ from pymoo.core.population import Population
 
 def quadr_interp_equ(xa, fa, xb, fb, xc, fc):
     g1 = (fc - fa) / (xc - xa)
-    g2 = ((fb - fc) / (xb - xc) - g1) * (xb - xa)
-    xd = 0.5 * ((xa - xb) - g1 / g2)
+    g2 = ((fb - fc) / (xb - xc) - g1) / (xb - xa)
+    xd = 0.5 * ((xa + xc) - g1 / g2)
     return xd
 
 
 def quadr_interp(a, b, c):
-    return Individual(X=quadr_interp_equ(a.X, a.F, b.X, b.F, c.X, c.F))
+    X = quadr_interp_equ(a.X, a.F, b.X, b.F, c.X, c.F)
+
+    # if there is no new point inside the interval (limited precision) - divide the larger part of it
+    if not (a.X[0] < X[0] < b.X[0]) or X[0] == c.X[0]:
+        X = (c.X + (a.X if c.X[0] - a.X[0] > b.X[0] - c.X[0] else b.X)) / 2
+
+    return Individual(X=X)
 
 
 class QuadraticInterpolationSearch(BracketSearch):
@@ -35,7 +41,7 @@ class QuadraticInterpolationSearch(BracketSearch):
         a, b = self.a, self.b
 
         # set c to be directly in the middle between the two brackets
-        c = Individual(X=(b.X - a.X) / 2)
+        c = Individual(X=(a.X + b.X) / 2)
 
         # create a population with all three individuals
         pop = Population.create(a, b, c)
@@ -51,11 +57,11 @@ class QuadraticInterpolationSearch(BracketSearch):
         if c.F[0] >= a.F[0] or c.F[0] >= b.F[0]:
             # choose the left side if a smaller than b, or the right side otherwise
             if a.F[0] <= b.F[0]:
-                a = c
-            else:
                 b = c
+            else:
+                a = c
 
-            c = Individual(X=(b.X - a.X) / 2)
+            c = Individual(X=(a.X + b.X) / 2)
             self.evaluator.eval(self.problem, c, algorithm=self)
             self.infills = c
 
-- 
2.43.0


From f4e992d0813597ebcc31622ce7f670e207ab63c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:23 +0000
Subject: [PATCH 111/129] fix: DIRECT split boxes which are not potentially
 optimal if there were many candidates

---
 pymoo/algorithms/soo/nonconvex/direct.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/pymoo/algorithms/soo/nonconvex/direct.py b/pymoo/algorithms/soo/nonconvex/direct.py
index fd0ad1f..65d95f0 100644
--- a/pymoo/algorithms/soo/nonconvex/direct.py
+++ b/pymoo/algorithms/soo/nonconvex/direct.py
@@ -3,9 +3,9 @@
 import numpy as np
 
 from pymoo.algorithms.base.local import LocalSearch
-from pymoo.algorithms.moo.nsga2 import RankAndCrowdingSurvival
 from pymoo.core.individual import Individual
 from pymoo.core.population import Population
+from pymoo.operators.survival.rank_and_crowding.metrics import get_crowding_function
 from pymoo.util.display.single import SingleObjectiveOutput
 from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting
 from pymoo.util.normalization import normalize, denormalize
@@ -108,13 +108,8 @@ class DIRECT(LocalSearch):
             return candidates
         else:
             if len(candidates) > self.n_max_candidates:
-                candidates = RankAndCrowdingSurvival().do(
-                    self.problem,
-                    pop,
-                    n_survive=self.n_max_candidates,
-                    algorithm=self,
-                    random_state=self.random_state,
-                )
+                crowding = get_crowding_function("cd").do(obj[I])
+                candidates = candidates[np.argsort(-crowding, kind="stable")[: self.n_max_candidates]]
 
             return candidates
 
-- 
2.43.0


From b8b766331b03ecd64edaee723652bbd2a67f5bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:05 +0000
Subject: [PATCH 112/129] fix: pairwise distances of integer points could not
 be filled with infinity on the diagonal

---
 pymoo/util/misc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymoo/util/misc.py b/pymoo/util/misc.py
index 00b234f..9cc47a2 100644
--- a/pymoo/util/misc.py
+++ b/pymoo/util/misc.py
@@ -381,6 +381,8 @@ def vectorized_cdist(
     M = np.reshape(D, (A.shape[0], B.shape[0]))
 
     if fill_diag_with_inf:
+        # distances of integer points can be integers, which can not be infinite
+        M = M.astype(float)
         np.fill_diagonal(M, np.inf)
 
     if only_row and only_column:
-- 
2.43.0


From b33a1af90e4c0540caa591c717d4911f1762f20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:20 +0000
Subject: [PATCH 113/129] fix: the archive of a run lagged one iteration behind
 in callbacks, history and the result of the last tell

---
 pymoo/core/algorithm.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pymoo/core/algorithm.py b/pymoo/core/algorithm.py
index 105aa4b..afca14d 100644
--- a/pymoo/core/algorithm.py
+++ b/pymoo/core/algorithm.py
@@ -221,7 +221,7 @@ class Algorithm:
             self.is_initialized = True
 
             # always advance to the next iteration after initialization
-            self._post_advance()
+            self._post_advance(infills=infills)
 
         else:
             # call the implementation of the advance method - if the infill is not None
@@ -229,7 +229,11 @@ class Algorithm:
 
             # always advance to the next iteration - except if the algorithm returns False
             if val is None or val:
-                self._post_advance()
+                self._post_advance(infills=infills)
+
+            # the iteration goes on, but the solutions are known already
+            else:
+                self._add_to_archive(infills)
 
         # if the algorithm has terminated, then do the finalization steps and return the result
         if self.termination.has_terminated():  # type: ignore
@@ -240,10 +244,6 @@ class Algorithm:
         else:
             ret = self.opt  # type: ignore
 
-        # add the infill solutions to an archive
-        if self.archive is not None and infills is not None:
-            self.archive = self.archive.add(infills)
-
         return ret
 
     def result(self) -> Result:
@@ -308,11 +308,19 @@ class Algorithm:
     def _set_optimum(self) -> None:
         self.opt = filter_optimum(self.pop, least_infeasible=True)
 
-    def _post_advance(self) -> None:
+    def _add_to_archive(self, infills: Population | None) -> None:
+        # add the infill solutions to an archive
+        if self.archive is not None and infills is not None:
+            self.archive = self.archive.add(infills)
+
+    def _post_advance(self, infills: Population | None = None) -> None:
 
         # update the current optimum of the algorithm
         self._set_optimum()
 
+        # the history, callbacks and the result have to contain the solutions of this iteration
+        self._add_to_archive(infills)
+
         # update the current termination condition of the algorithm
         self.termination.update(self)  # type: ignore
 
-- 
2.43.0


From 5695ec3303d4398ad4caf667f39a3784520ee3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:20 +0000
Subject: [PATCH 114/129] fix: drawing a heatmap or parallel coordinates again
 used labels and bounds of the first time

---
 pymoo/visualization/heatmap.py | 19 +++++++++++--------
 pymoo/visualization/pcp.py     |  7 ++++---
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/pymoo/visualization/heatmap.py b/pymoo/visualization/heatmap.py
index d5f9443..ae62e61 100644
--- a/pymoo/visualization/heatmap.py
+++ b/pymoo/visualization/heatmap.py
@@ -73,28 +73,31 @@ class Heatmap(Plot):
         self.ax.set_xticks(np.arange(self.n_dim))
         self.ax.set_xticklabels(self.get_labels())
 
+        # the labels are ordered below, what has been set by the user is not changed
+        solution_labels = self.solution_labels
+
         # no solution labels should be used
-        if self.solution_labels is None or self.solution_labels is False:
-            self.solution_labels = None
+        if solution_labels is None or solution_labels is False:
+            solution_labels = None
 
         # if true, just use a number for each solution
-        elif isinstance(self.solution_labels, bool) and self.solution_labels:
-            self.solution_labels = np.arange(len(F)) + 1
+        elif isinstance(solution_labels, bool) and solution_labels:
+            solution_labels = np.arange(len(F)) + 1
 
         # otherwise, use directly the label provided
         else:
-            if len(self.solution_labels) != len(F):
+            if len(solution_labels) != len(F):
                 raise Exception(
                     "The labels provided for each solution must be equal to the number of solutions being plotted."
                 )
 
-        if self.solution_labels is None:
+        if solution_labels is None:
             self.ax.set_yticks([])
             self.ax.set_yticklabels([])
 
         else:
             # for ordered by objective apply it to labels
-            self.solution_labels = [self.solution_labels[i] for i in indices]
+            solution_labels = [solution_labels[i] for i in indices]
 
             self.ax.set_yticks(np.arange(len(F)))
-            self.ax.set_yticklabels(self.solution_labels)
+            self.ax.set_yticklabels(solution_labels)
diff --git a/pymoo/visualization/pcp.py b/pymoo/visualization/pcp.py
index b569fea..9c2e620 100644
--- a/pymoo/visualization/pcp.py
+++ b/pymoo/visualization/pcp.py
@@ -44,12 +44,13 @@ class PCP(Plot):
         self.init_figure()
 
         # if no normalization of each axis the bounds are based on the overall min and max
-        if not self.normalize_each_axis and self.bounds is None:
+        bounds = self.bounds
+        if not self.normalize_each_axis and bounds is None:
             _F = np.vstack([e[0] for e in self.to_plot])
-            self.bounds = [_F.min(), _F.max()]
+            bounds = [_F.min(), _F.max()]
 
         # normalize the input
-        bounds = parse_bounds(self.bounds, self.n_dim)
+        bounds = parse_bounds(bounds, self.n_dim)
         to_plot_norm, bounds = normalize(self.to_plot, bounds, return_bounds=True)
 
         # plot for each set the lines
-- 
2.43.0


From 741cdd5519a764489ebdd060e80fe15a62897d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:44 +0000
Subject: [PATCH 115/129] fix: hash based duplicate elimination removed
 different individuals (-1 and -2, values differing after the eighth digit,
 long arrays) [P08]

---
 pymoo/core/duplicate.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/pymoo/core/duplicate.py b/pymoo/core/duplicate.py
index 440eed9..e07b4eb 100644
--- a/pymoo/core/duplicate.py
+++ b/pymoo/core/duplicate.py
@@ -129,6 +129,24 @@ def to_hash(x):
     return h
 
 
+def to_key(x):
+    """Convert an object to something hashable which is equal if and only if the object is."""
+    if isinstance(x, np.ndarray):
+        x = x.tolist()
+
+    if isinstance(x, (list, tuple)):
+        return type(x).__name__, tuple(to_key(e) for e in x)
+    elif isinstance(x, dict):
+        return "dict", frozenset((k, to_key(v)) for k, v in x.items())
+
+    try:
+        hash(x)
+    except:  # noqa: E722
+        x = to_hash(x)
+
+    return x
+
+
 class HashDuplicateElimination(DuplicateElimination):
     def __init__(self, func=to_hash) -> None:
         super().__init__()
@@ -139,17 +157,15 @@ class HashDuplicateElimination(DuplicateElimination):
 
         if other is not None:
             for o in other:
-                val = self.func(o)
-                H.add(to_hash(val))
+                H.add(to_key(self.func(o)))
 
         for i, ind in enumerate(pop):
-            val = self.func(ind)
-            h = to_hash(val)
+            key = to_key(self.func(ind))
 
-            if h in H:
+            if key in H:
                 is_duplicate[i] = True
             else:
-                H.add(h)
+                H.add(key)
 
         return is_duplicate
 
-- 
2.43.0


From 053c123a8d4825a5d140c9b92201658ac500726c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:38 +0000
Subject: [PATCH 116/129] fix: of too many potentially optimal boxes DIRECT
 again splits the best ones [P39]

---
 pymoo/algorithms/soo/nonconvex/direct.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pymoo/algorithms/soo/nonconvex/direct.py b/pymoo/algorithms/soo/nonconvex/direct.py
index 65d95f0..481695d 100644
--- a/pymoo/algorithms/soo/nonconvex/direct.py
+++ b/pymoo/algorithms/soo/nonconvex/direct.py
@@ -3,9 +3,9 @@
 import numpy as np
 
 from pymoo.algorithms.base.local import LocalSearch
+from pymoo.algorithms.moo.nsga2 import RankAndCrowdingSurvival
 from pymoo.core.individual import Individual
 from pymoo.core.population import Population
-from pymoo.operators.survival.rank_and_crowding.metrics import get_crowding_function
 from pymoo.util.display.single import SingleObjectiveOutput
 from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting
 from pymoo.util.normalization import normalize, denormalize
@@ -108,8 +108,13 @@ class DIRECT(LocalSearch):
             return candidates
         else:
             if len(candidates) > self.n_max_candidates:
-                crowding = get_crowding_function("cd").do(obj[I])
-                candidates = candidates[np.argsort(-crowding, kind="stable")[: self.n_max_candidates]]
+                candidates = RankAndCrowdingSurvival().do(
+                    self.problem,
+                    candidates,
+                    n_survive=self.n_max_candidates,
+                    algorithm=self,
+                    random_state=self.random_state,
+                )
 
             return candidates
 
-- 
2.43.0


From 66d3d2a37e325bc72018bf3d81bc5c5cdcf2e0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:36 +0000
Subject: [PATCH 117/129] fix: replacement by a survival failed, and compared
 the order of survivors instead of their ranks [P02]

---
 pymoo/core/survival.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymoo/core/survival.py b/pymoo/core/survival.py
index 4763738..2874d65 100644
--- a/pymoo/core/survival.py
+++ b/pymoo/core/survival.py
@@ -127,6 +127,7 @@ class ToReplacement(Survival):
         problem: Any,
         pop: Any,
         off: Any,
+        n_survive: Optional[int] = None,
         random_state: Any = None,
         **kwargs: Any,
     ) -> Any:
@@ -140,7 +141,7 @@ class ToReplacement(Survival):
             random_state=random_state,
             **kwargs,
         )
-        merged.set("__rank__", indices)
+        merged[indices].set("__rank__", np.arange(len(indices)))
 
         for k in range(len(pop)):
             if off[k].get("__rank__") < pop[k].get("__rank__"):
-- 
2.43.0


From 83b7c11c03eac294eec815f89479407dcf423c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:09 +0000
Subject: [PATCH 118/129] fix: the surface of a problem was drawn with its
 variables exchanged, and its contour could not be returned [P37]

---
 pymoo/visualization/util.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/pymoo/visualization/util.py b/pymoo/visualization/util.py
index 676ba5c..00f0ad5 100644
--- a/pymoo/visualization/util.py
+++ b/pymoo/visualization/util.py
@@ -269,20 +269,16 @@ def plot_problem_surface(
     if problem.n_var == 1 and problem.n_obj == 1:
         X = np.linspace(problem.xl[0], problem.xu[0], num=n_samples)[:, None]
         Y = problem.evaluate(X, return_values_of=["F"])
-        ax = plt.plot(X, Y)
+        ax = fig.add_subplot(111)
+        ax.plot(X, Y)
 
     elif problem.n_var == 2 and problem.n_obj == 1:
         X_range = np.linspace(problem.xl[0], problem.xu[0], num=n_samples)
         Y_range = np.linspace(problem.xl[1], problem.xu[1], num=n_samples)
         X, Y = np.meshgrid(X_range, Y_range)
 
-        A = np.zeros((n_samples * n_samples, 2))
-        counter = 0
-        for i, x in enumerate(X_range):
-            for j, y in enumerate(Y_range):
-                A[counter, 0] = x
-                A[counter, 1] = y
-                counter += 1
+        # the points in the order of the grid
+        A = np.column_stack([X.flatten(), Y.flatten()])
 
         F = np.reshape(problem.evaluate(A, return_values_of=["F"]), (n_samples, n_samples))
 
@@ -291,8 +287,9 @@ def plot_problem_surface(
             ax = fig.add_subplot(111, projection="3d")
             ax.plot_wireframe(X, Y, F)
         elif plot_type == "contour":
-            CS = plt.contour(X, Y, F)
-            plt.clabel(CS, inline=1, fontsize=10)
+            ax = fig.add_subplot(111)
+            CS = ax.contour(X, Y, F)
+            ax.clabel(CS, inline=1, fontsize=10)
         elif plot_type == "wireframe+contour":
             ax = fig.add_subplot(111, projection="3d")
             ax.plot_surface(X, Y, F, cmap=cmap, rstride=1, cstride=1)
-- 
2.43.0


From 7a00f78d31d8bf554ed8fa8352294b85f3d600af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:09 +0000
Subject: [PATCH 119/129] fix: a two dimensional plot failed for every option
 given to it [P37]

---
 pymoo/visualization/util.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pymoo/visualization/util.py b/pymoo/visualization/util.py
index 00f0ad5..d3ced88 100644
--- a/pymoo/visualization/util.py
+++ b/pymoo/visualization/util.py
@@ -179,11 +179,9 @@ def plot_3d(*args, no_fill: bool = False, labels=None, **kwargs):  # noqa: ANN00
     return ax
 
 
-def plot_2d(*args, labels=None, no_fill: bool = False):  # noqa: ANN001, ANN201
+def plot_2d(*args, labels=None, no_fill: bool = False, **kwargs):  # noqa: ANN001, ANN201
     if no_fill:
-        kwargs = dict(s=20, facecolors="none", edgecolors="r")
-    else:
-        kwargs = {}
+        kwargs = dict(kwargs, s=20, facecolors="none", edgecolors="r")
 
     for i, F in enumerate(args):
         if labels:
-- 
2.43.0


From 73449ab8a384151e957a0ed3374caf87872a58f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:00 +0000
Subject: [PATCH 120/129] fix: the plot of a value function failed if two
 solutions have the same value [P37]

---
 pymoo/util/value_functions.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pymoo/util/value_functions.py b/pymoo/util/value_functions.py
index 10ee3ab..d65f1e0 100644
--- a/pymoo/util/value_functions.py
+++ b/pymoo/util/value_functions.py
@@ -314,9 +314,8 @@ def plot_vf(P, vf, show=True):
     for p in range(np.size(P, 0)):
         values_at_P.append(vf(P[p, :]))
 
-    values_at_P.sort()
-
-    plt.contour(x, y, z, levels=values_at_P)
+    # solutions of the same value are on the same contour
+    plt.contour(x, y, z, levels=np.unique(values_at_P))
 
     plt.colorbar()
 
-- 
2.43.0


From 9b9f0689c074b1b66072496c53886bbe1191a55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:24 +0000
Subject: [PATCH 121/129] fix: the termination for niching stopped as soon as a
 constrained problem had a feasible solution [P25]

---
 pymoo/algorithms/soo/nonconvex/ga_niching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/algorithms/soo/nonconvex/ga_niching.py b/pymoo/algorithms/soo/nonconvex/ga_niching.py
index 743346e..eddbcd7 100644
--- a/pymoo/algorithms/soo/nonconvex/ga_niching.py
+++ b/pymoo/algorithms/soo/nonconvex/ga_niching.py
@@ -47,7 +47,7 @@ class NicheTermination(DefaultTermination):
     def __init__(self, x_tol=1e-32, cv_tol=1e-6, f_tol=1e-6, period=20, **kwargs) -> None:
         super().__init__(
             RobustTermination(DesignSpaceTermination(tol=x_tol), period=period),
-            RobustTermination(ConstraintViolationTermination(tol=cv_tol), period=period),
+            RobustTermination(ConstraintViolationTermination(tol=cv_tol, terminate_when_feasible=False), period=period),
             RobustTermination(
                 NicheSingleObjectiveSpaceToleranceTermination(tol=f_tol, n_skip=5),
                 period=period,
-- 
2.43.0


From 256691ed4b92047322189ca8f4c5d2e290a478b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:24 +0000
Subject: [PATCH 122/129] fix: ranks typed as in the example shown failed, and
 too few of them were accepted [P38]

---
 pymoo/algorithms/moo/pinsga2.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pymoo/algorithms/moo/pinsga2.py b/pymoo/algorithms/moo/pinsga2.py
index b9504af..21d6a0b 100644
--- a/pymoo/algorithms/moo/pinsga2.py
+++ b/pymoo/algorithms/moo/pinsga2.py
@@ -123,10 +123,11 @@ class PINSGA2(GeneticAlgorithm):
 
         raw_ranks = input(f'Ranks (e.g., "3, {dim}, ..., 1" for 3rd best, {dim}th best, ..., 1st best): ')
 
-        if raw_ranks == "":
+        # separated by commas as in the example or by spaces, anything else is not a ranking
+        try:
+            ranks = [int(raw_rank) for raw_rank in raw_ranks.replace(",", " ").split()]
+        except ValueError:
             ranks = []
-        else:
-            ranks = [int(raw_rank) for raw_rank in raw_ranks.split()]
 
         return ranks
 
@@ -212,7 +213,7 @@ class PINSGA2(GeneticAlgorithm):
         while ranks_invalid:
             fc = F.shape[0]
 
-            if len(ranks) > 0 and max(ranks) <= fc and min(ranks) >= 1:
+            if len(ranks) == fc and max(ranks) <= fc and min(ranks) >= 1:
                 ranks_invalid = False
 
             else:
-- 
2.43.0


From 62d32e610a330248ad8e398ee6da37e04f4ff957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:41 +0000
Subject: [PATCH 123/129] fix: the simple CMA-ES seeded and used numpy's global
 random state [P20]

---
 pymoo/algorithms/soo/nonconvex/cmaes.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/soo/nonconvex/cmaes.py b/pymoo/algorithms/soo/nonconvex/cmaes.py
index a5ea586..0ab9ef8 100755
--- a/pymoo/algorithms/soo/nonconvex/cmaes.py
+++ b/pymoo/algorithms/soo/nonconvex/cmaes.py
@@ -266,12 +266,20 @@ class SimpleCMAES(LocalSearch):
         else:
             self.norm = NoNormalization()
             self.opts["bounds"] = [xl, xu]
-        self.opts["seed"] = self.seed
 
     def _initialize_advance(self, infills=None, **kwargs):
         super()._initialize_advance(infills, **kwargs)
         x = self.norm.forward(self.x0.X)
-        self.es = cma.CMAEvolutionStrategy(x, self.sigma, inopts=self.opts)
+
+        # use a generator of its own (CMA-ES seeds and uses the global one of numpy otherwise)
+        seed = self.seed if self.seed is not None else self.random_state.integers(0, 2**31)
+        self.normal = np.random.RandomState(seed)
+        opts = {"seed": np.nan, "randn": self._randn, **self.opts}
+
+        self.es = cma.CMAEvolutionStrategy(x, self.sigma, inopts=opts)
+
+    def _randn(self, *args):
+        return self.normal.randn(*args)
 
     def _infill(self):
         X = self.norm.backward(np.array(self.es.ask()))
-- 
2.43.0


From c954d006ba323bddac5911fe751164c8a3b90110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:30 +0000
Subject: [PATCH 124/129] fix: the bounds of the flow shop scheduling problem
 counted machines, and options for the random problems were ignored [P34]

---
 pymoo/problems/single/flowshop_scheduling.py | 4 ++--
 pymoo/problems/single/traveling_salesman.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymoo/problems/single/flowshop_scheduling.py b/pymoo/problems/single/flowshop_scheduling.py
index aafc778..2d95262 100644
--- a/pymoo/problems/single/flowshop_scheduling.py
+++ b/pymoo/problems/single/flowshop_scheduling.py
@@ -20,7 +20,7 @@ class FlowshopScheduling(ElementwiseProblem):
         n_machines, n_jobs = processing_times.shape
         self.records = processing_times
 
-        super().__init__(n_var=n_jobs, n_obj=1, xl=0, xu=n_machines, vtype=int, **kwargs)
+        super().__init__(n_var=n_jobs, n_obj=1, xl=0, xu=n_jobs, vtype=int, **kwargs)
 
     def _evaluate(self, x: Any, out: Any, *args: Any, **kwargs: Any) -> Any:  # noqa: ARG002
         out["F"] = self.makespan(x)
@@ -97,7 +97,7 @@ def create_random_flowshop_problem(
         A FlowshopScheduling problem instance.
     """
     T = random_state.random((n_machines, n_jobs)) * 50 + 50
-    return FlowshopScheduling(T)
+    return FlowshopScheduling(T, **kwargs)
 
 
 def visualize(
diff --git a/pymoo/problems/single/traveling_salesman.py b/pymoo/problems/single/traveling_salesman.py
index 193b7e6..43af7d3 100644
--- a/pymoo/problems/single/traveling_salesman.py
+++ b/pymoo/problems/single/traveling_salesman.py
@@ -43,7 +43,7 @@ class TravelingSalesman(ElementwiseProblem):
 def create_random_tsp_problem(n_cities, grid_width=100.0, grid_height=None, random_state=None, **kwargs):
     grid_height = grid_height if grid_height is not None else grid_width
     cities = random_state.random((n_cities, 2)) * [grid_width, grid_height]
-    return TravelingSalesman(cities)
+    return TravelingSalesman(cities, **kwargs)
 
 
 def visualize(problem, x, fig=None, ax=None, show=True, label=True):
-- 
2.43.0


From 6ba6fd3d2934890b3d77a599e12a22d1578dcfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:25 +0000
Subject: [PATCH 125/129] fix: latin hypercube sampling by correlation failed
 for a single variable [P09]

---
 pymoo/operators/sampling/lhs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/operators/sampling/lhs.py b/pymoo/operators/sampling/lhs.py
index 678e698..922da21 100644
--- a/pymoo/operators/sampling/lhs.py
+++ b/pymoo/operators/sampling/lhs.py
@@ -30,7 +30,7 @@ def criterion_corr(X: np.ndarray) -> np.floating:
     Returns:
         Negative sum of squared correlations.
     """
-    M = np.corrcoef(X.T, rowvar=True)
+    M = np.atleast_2d(np.corrcoef(X.T, rowvar=True))
     return -np.sum(np.tril(M, -1) ** 2)
 
 
-- 
2.43.0


From f22ae0a8a2fe91b825aca468560a340d84425266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:25 +0000
Subject: [PATCH 126/129] fix: the fast crowding by two neighbors used as many
 as there are objectives [P16]

---
 pymoo/operators/survival/rank_and_crowding/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/operators/survival/rank_and_crowding/metrics.py b/pymoo/operators/survival/rank_and_crowding/metrics.py
index a43de7f..fb092ca 100644
--- a/pymoo/operators/survival/rank_and_crowding/metrics.py
+++ b/pymoo/operators/survival/rank_and_crowding/metrics.py
@@ -198,7 +198,7 @@ def _calc_mnn_fast(F, n_neighbors, **kwargs):
     D = squareform(pdist(F, metric="sqeuclidean"))
 
     # M neighbors
-    M = F.shape[1]
+    M = n_neighbors
     _D = np.partition(D, range(1, M + 1), axis=1)[:, 1 : M + 1]
 
     # Metric d
-- 
2.43.0


From 2845dcb017e0d2a2a2be1f99939accca1dfadaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:56 +0000
Subject: [PATCH 127/129] fix: the scale around a reference point did not
 follow from the volume given [P29]

---
 pymoo/util/ref_dirs/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/util/ref_dirs/energy.py b/pymoo/util/ref_dirs/energy.py
index 7764af6..e1f5cc0 100644
--- a/pymoo/util/ref_dirs/energy.py
+++ b/pymoo/util/ref_dirs/energy.py
@@ -200,7 +200,7 @@ class RieszEnergyReferenceDirectionFactory(ReferenceDirectionFactory):
                 if volume is None:
                     raise Exception("Either define scale or volume!")
                 else:
-                    scale = volume ** (self.n_dim - 1)
+                    scale = volume ** (1 / (self.n_dim - 1))
 
             # retrieve all points to consider
             _X = np.vstack([X] + R)
-- 
2.43.0


From 7c2efe88504cc60a89376b9c68e249a66cb5ce4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:35 +0000
Subject: [PATCH 128/129] fix: clearing assigned individuals to niches of the
 previous generation [P17]

---
 pymoo/algorithms/soo/nonconvex/ga_niching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/algorithms/soo/nonconvex/ga_niching.py b/pymoo/algorithms/soo/nonconvex/ga_niching.py
index eddbcd7..c37d84b 100644
--- a/pymoo/algorithms/soo/nonconvex/ga_niching.py
+++ b/pymoo/algorithms/soo/nonconvex/ga_niching.py
@@ -152,7 +152,7 @@ class EpsilonClearingSurvival(Survival):
                 rank = 1
 
                 # get the individual of the first iteration - needed for niche assignment
-                iter_one = np.where(pop.get("iter") == 1)[0] if iter_one is None else iter_one
+                iter_one = np.array(clearing.selected()) if iter_one is None else iter_one
 
             # since the population is ordered by F and CV it is always the first index
             k = remaining[0]
-- 
2.43.0


From 5bab699dde36306e1a4adb8c6a673318592460fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:25 +0000
Subject: [PATCH 129/129] fix: plots into axes of the user were shown and saved
 without the data [P37]

---
 pymoo/core/plot.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pymoo/core/plot.py b/pymoo/core/plot.py
index e0b3cdf..f523ede 100644
--- a/pymoo/core/plot.py
+++ b/pymoo/core/plot.py
@@ -72,6 +72,9 @@ class Plot:
         # the data to plot
         self.to_plot = []
 
+        # whether the data have been plotted already (the axes can be provided by the user)
+        self.is_plotted = False
+
         # whether to plot a legend or apply tight layout
         self.legend = legend
         self.tight_layout = tight_layout
@@ -116,6 +119,7 @@ class Plot:
 
         # actually call the class
         self._do()
+        self.is_plotted = True
 
         # convert the axes to a list
         axes = np.array(self.ax).flatten()
@@ -152,6 +156,7 @@ class Plot:
     def reset(self):
         self.fig = plt.figure(figsize=self.figsize)
         self.ax = None
+        self.is_plotted = False
         return self
 
     def add(self, F, **kwargs):
@@ -168,7 +173,7 @@ class Plot:
         return self
 
     def plot_if_not_done_yet(self):
-        if self.ax is None:
+        if not self.is_plotted:
             self.do()
 
     def show(self, **kwargs):
-- 
2.43.0

