From ad9ae93c334e7de40c906826b9125c1902d2d238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:46 +0000
Subject: [PATCH 01/62] fix: record fitness improvements with the problem's
 sign under maximization

---
 src/niapy/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/task.py b/src/niapy/task.py
index d3ed498..ee89779 100644
--- a/src/niapy/task.py
+++ b/src/niapy/task.py
@@ -147,7 +147,7 @@ class Task:
         if x_f < self.x_f * self.optimization_type.value:
             self.x_f = x_f * self.optimization_type.value
             self.n_evals.append(self.evals)
-            self.fitness_evals.append(x_f)
+            self.fitness_evals.append(self.x_f)
             if self.enable_logging:
                 logger.info('evals:%d => %s' % (self.evals, self.x_f))
         return x_f
-- 
2.43.0


From b52fb480e4d78fc882cc216dd6e74e76cfcb35ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:50 +0000
Subject: [PATCH 02/62] fix: repair with the algorithm's own generator so that
 runs are reproducible

---
 src/niapy/algorithms/basic/ba.py         |  2 +-
 src/niapy/algorithms/basic/bea.py        |  2 +-
 src/niapy/algorithms/basic/bfo.py        |  2 +-
 src/niapy/algorithms/basic/cs.py         |  4 ++--
 src/niapy/algorithms/basic/cso.py        |  4 ++--
 src/niapy/algorithms/basic/es.py         |  2 +-
 src/niapy/algorithms/basic/fa.py         |  2 +-
 src/niapy/algorithms/basic/loa.py        | 12 ++++++------
 src/niapy/algorithms/basic/mbo.py        |  4 ++--
 src/niapy/algorithms/basic/pso.py        |  6 +++---
 src/niapy/algorithms/modified/ilshade.py |  2 +-
 src/niapy/algorithms/modified/jde.py     |  2 +-
 src/niapy/algorithms/modified/plba.py    |  2 +-
 src/niapy/algorithms/modified/shade.py   |  2 +-
 14 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/niapy/algorithms/basic/ba.py b/src/niapy/algorithms/basic/ba.py
index 76ce334..4657136 100644
--- a/src/niapy/algorithms/basic/ba.py
+++ b/src/niapy/algorithms/basic/ba.py
@@ -162,7 +162,7 @@ class BatAlgorithm(Algorithm):
             numpy.ndarray: New solution based on global best individual.
 
         """
-        return task.repair(best + 0.1 * self.standard_normal(task.dimension) * loudness)
+        return task.repair(best + 0.1 * self.standard_normal(task.dimension) * loudness, rng=self.rng)
 
     def run_iteration(self, task, population, population_fitness, best_x, best_fitness, **params):
         r"""Core function of Bat Algorithm.
diff --git a/src/niapy/algorithms/basic/bea.py b/src/niapy/algorithms/basic/bea.py
index ba9022d..3325caf 100644
--- a/src/niapy/algorithms/basic/bea.py
+++ b/src/niapy/algorithms/basic/bea.py
@@ -136,7 +136,7 @@ class BeesAlgorithm(Algorithm):
         ind = self.integers(task.dimension)
         y = x.copy()
         y[ind] = x[ind] + self.uniform(-ngh, ngh)
-        y = task.repair(y)
+        y = task.repair(y, rng=self.rng)
         y_fitness = task.eval(y)
         return y, y_fitness
 
diff --git a/src/niapy/algorithms/basic/bfo.py b/src/niapy/algorithms/basic/bfo.py
index 9a17344..cd422bc 100644
--- a/src/niapy/algorithms/basic/bfo.py
+++ b/src/niapy/algorithms/basic/bfo.py
@@ -250,7 +250,7 @@ class BacterialForagingOptimization(Algorithm):
 
             m = 0
             while True:
-                population[i] = task.repair(population[i] + self.step_size * step_direction)
+                population[i] = task.repair(population[i] + self.step_size * step_direction, rng=self.rng)
                 population_fitness[i] = task.eval(population[i])
 
                 if population_fitness[i] < best_fitness:
diff --git a/src/niapy/algorithms/basic/cs.py b/src/niapy/algorithms/basic/cs.py
index 5828e42..adc14c5 100644
--- a/src/niapy/algorithms/basic/cs.py
+++ b/src/niapy/algorithms/basic/cs.py
@@ -96,14 +96,14 @@ class CuckooSearch(Algorithm):
     def get_cuckoos(self, population, best_x, task):
         step_size = levy_flight(self.rng, size=population.shape) * (population - best_x)
         new_population = population + step_size * self.standard_normal(population.shape)
-        return task.repair(new_population, rng=self.rng)
+        return np.apply_along_axis(task.repair, 1, new_population, self.rng)
 
     def empty_nests(self, population, task):
         abandoned = self.random(population.shape) > self.pa
         i = self.rng.permutation(self.population_size)
         j = self.rng.permutation(self.population_size)
         step_size = self.random() * (population[i] - population[j])
-        return task.repair(population + step_size * abandoned, rng=self.rng)
+        return np.apply_along_axis(task.repair, 1, population + step_size * abandoned, self.rng)
 
     def run_iteration(self, task, population, population_fitness, best_x, best_fitness, **params):
         r"""Core function of CuckooSearch algorithm.
diff --git a/src/niapy/algorithms/basic/cso.py b/src/niapy/algorithms/basic/cso.py
index 738123f..ca2504c 100644
--- a/src/niapy/algorithms/basic/cso.py
+++ b/src/niapy/algorithms/basic/cso.py
@@ -194,7 +194,7 @@ class CatSwarmOptimization(Algorithm):
                 cat_copies[j][to_vary_indexes] += cat_copies[j][to_vary_indexes] * self.srd
             else:
                 cat_copies[j][to_vary_indexes] -= cat_copies[j][to_vary_indexes] * self.srd
-            cat_copies[j] = task.repair(cat_copies[j])
+            cat_copies[j] = task.repair(cat_copies[j], rng=self.rng)
             cat_copies_fs.append(task.eval(cat_copies[j]))
         if self.spc:
             cat_copies.append(cat.copy())
@@ -233,7 +233,7 @@ class CatSwarmOptimization(Algorithm):
         """
         new_velocity = np.clip(velocity + (self.random(len(velocity)) * self.c1 * (xb - cat)),
                                -self.max_velocity, self.max_velocity)
-        cat_new = task.repair(cat + new_velocity)
+        cat_new = task.repair(cat + new_velocity, rng=self.rng)
         return cat_new, task.eval(cat_new), new_velocity
 
     def run_iteration(self, task, population, population_fitness, best_x, best_fitness, **params):
diff --git a/src/niapy/algorithms/basic/es.py b/src/niapy/algorithms/basic/es.py
index 5696272..508b607 100644
--- a/src/niapy/algorithms/basic/es.py
+++ b/src/niapy/algorithms/basic/es.py
@@ -568,7 +568,7 @@ class EvolutionStrategyML(EvolutionStrategyMpL):
 
         """
         cn = objects_to_array(
-            [IndividualES(x=self.mutate_rand(c, task), task=task, rand=self.rng) for _ in range(self.lam)])
+            [IndividualES(x=self.mutate_rand(c, task), task=task, rng=self.rng) for _ in range(self.lam)])
         c = self.new_pop(cn)
         fc = np.asarray([x.f for x in c])
         best_x, best_fitness = self.get_best(c, fc, best_x, best_fitness)
diff --git a/src/niapy/algorithms/basic/fa.py b/src/niapy/algorithms/basic/fa.py
index b488d80..0c7d705 100644
--- a/src/niapy/algorithms/basic/fa.py
+++ b/src/niapy/algorithms/basic/fa.py
@@ -168,7 +168,7 @@ class FireflyAlgorithm(Algorithm):
                     beta = self.beta0 * np.exp(-self.gamma * r ** 2)
                     steps = alpha * (self.random(task.dimension) - 0.5) * task.range
                     population[i] += beta * (population[j] - population[i]) + steps
-                    population[i] = task.repair(population[i])
+                    population[i] = task.repair(population[i], rng=self.rng)
                     population_fitness[i] = task.eval(population[i])
                     best_x, best_fitness = self.get_best(population, population_fitness, best_x, best_fitness)
 
diff --git a/src/niapy/algorithms/basic/loa.py b/src/niapy/algorithms/basic/loa.py
index 19c621f..1f55dc2 100644
--- a/src/niapy/algorithms/basic/loa.py
+++ b/src/niapy/algorithms/basic/loa.py
@@ -342,7 +342,7 @@ class LionOptimizationAlgorithm(Algorithm):
         if hunters:
             prey_x /= len(hunters)
 
-        return task.repair(prey_x), group_fitness, hunters
+        return task.repair(prey_x, rng=self.rng), group_fitness, hunters
 
     def _move_opposition(self, lion, prey_x, task):
         for i in range(task.dimension):
@@ -352,7 +352,7 @@ class LionOptimizationAlgorithm(Algorithm):
             elif opposite > prey_x[i]:
                 lion.current_x[i] = self.uniform(prey_x[i], opposite)
 
-        lion.current_x = task.repair(lion.current_x)
+        lion.current_x = task.repair(lion.current_x, rng=self.rng)
         lion.current_f = task.eval(lion.current_x)
 
     def _move_center(self, lion, prey_x, task):
@@ -362,7 +362,7 @@ class LionOptimizationAlgorithm(Algorithm):
             elif lion.current_x[i] > prey_x[i]:
                 lion.current_x[i] = self.uniform(prey_x[i], lion.current_x[i])
 
-        lion.current_x = task.repair(lion.current_x)
+        lion.current_x = task.repair(lion.current_x, rng=self.rng)
         lion.current_f = task.eval(lion.current_x)
 
     def _move_hunter(self, lion, prey_x, left, right, center, task):
@@ -380,7 +380,7 @@ class LionOptimizationAlgorithm(Algorithm):
 
             improvement = 1 - lion.f / lion.previous_iter_best_f
             prey_x = prey_x + self.random() * improvement * (prey_x - lion.current_x)
-            return task.repair(prey_x)
+            return task.repair(prey_x, rng=self.rng)
 
         return prey_x
 
@@ -480,7 +480,7 @@ class LionOptimizationAlgorithm(Algorithm):
                     + rnd_u * np.tan(angle) * d * r_two
                 )
 
-                lion.current_x = task.repair(lion.current_x)
+                lion.current_x = task.repair(lion.current_x, rng=self.rng)
                 lion.current_f = task.eval(lion.current_x)
 
                 if lion.current_f < lion.f:
@@ -530,7 +530,7 @@ class LionOptimizationAlgorithm(Algorithm):
                     angle = self.uniform(-np.pi / 6, np.pi / 6)
 
                     lion.current_x += x * d * np.tan(angle)
-                    lion.current_x = task.repair(lion.current_x)
+                    lion.current_x = task.repair(lion.current_x, rng=self.rng)
                     lion.current_f = task.eval(lion.current_x)
 
                     if lion.current_f < lion.f:
diff --git a/src/niapy/algorithms/basic/mbo.py b/src/niapy/algorithms/basic/mbo.py
index 2072c0e..ffdfbbb 100644
--- a/src/niapy/algorithms/basic/mbo.py
+++ b/src/niapy/algorithms/basic/mbo.py
@@ -258,10 +258,10 @@ class MonarchButterflyOptimization(Algorithm):
         elite = np.copy(population[:self.keep])
         max_t = task.max_iters if not np.isinf(task.max_iters) else task.max_evals / self.population_size
         population = np.apply_along_axis(task.repair, 1,
-                                         self.migration_operator(task.dimension, self.np1, self.np2, population))
+                                         self.migration_operator(task.dimension, self.np1, self.np2, population), self.rng)
         population = np.apply_along_axis(task.repair, 1,
                                          self.adjusting_operator(task.iters, max_t, task.dimension, self.np1, self.np2,
-                                                                 population, current_best))
+                                                                 population, current_best), self.rng)
         population_fitness, population = self.evaluate_and_sort(task, population)
         current_best = population[0]
         population[-self.keep:] = elite
diff --git a/src/niapy/algorithms/basic/pso.py b/src/niapy/algorithms/basic/pso.py
index ae8bce4..d84b08f 100644
--- a/src/niapy/algorithms/basic/pso.py
+++ b/src/niapy/algorithms/basic/pso.py
@@ -207,7 +207,7 @@ class ParticleSwarmAlgorithm(Algorithm):
         """
         return self.repair(
             w * v + self.c1 * self.random(task.dimension) * (pb - p) + self.c2 * self.random(task.dimension) * (gb - p),
-            min_velocity, max_velocity)
+            min_velocity, max_velocity, rng=self.rng)
 
     def run_iteration(self, task, pop, fpop, xb, fxb, **params):
         r"""Core function of Particle Swarm Optimization algorithm.
@@ -937,7 +937,7 @@ class MutatedCenterUnifiedParticleSwarmOptimization(MutatedCenterParticleSwarmOp
         return self.repair(
             w * v + self.c1 * self.random(task.dimension) * (pb - p) * r3 + self.c2 * self.random(task.dimension) * (
                         gb - p) * (1 - r3),
-            min_velocity, max_velocity)
+            min_velocity, max_velocity, rng=self.rng)
 
 
 class ComprehensiveLearningParticleSwarmOptimizer(ParticleSwarmAlgorithm):
@@ -1096,7 +1096,7 @@ class ComprehensiveLearningParticleSwarmOptimizer(ParticleSwarmAlgorithm):
             numpy.ndarray: Updated velocity of particle.
 
         """
-        return self.repair(w * v + self.c * self.random(task.dimension) * (pb - p), min_velocity, max_velocity)
+        return self.repair(w * v + self.c * self.random(task.dimension) * (pb - p), min_velocity, max_velocity, rng=self.rng)
 
     def run_iteration(self, task, pop, fpop, xb, fxb, **params):
         r"""Core function of algorithm.
diff --git a/src/niapy/algorithms/modified/ilshade.py b/src/niapy/algorithms/modified/ilshade.py
index de3d7b2..0145dff 100644
--- a/src/niapy/algorithms/modified/ilshade.py
+++ b/src/niapy/algorithms/modified/ilshade.py
@@ -213,7 +213,7 @@ class ImprovedLpsrSuccessHistoryAdaptiveDifferentialEvolution(SuccessHistoryAdap
             new_pop[i].x = cross_curr2pbest1(pop, i, xi.differential_weight, xi.crossover_probability, self.rng,
                                              p_num, archive, arc_ind_cnt, task)  # trial vectors are created
         for xi in new_pop:
-            xi.evaluate(task, rng=self.random)
+            xi.evaluate(task, rng=self.rng)
 
         return new_pop
 
diff --git a/src/niapy/algorithms/modified/jde.py b/src/niapy/algorithms/modified/jde.py
index ecd7d95..56092be 100644
--- a/src/niapy/algorithms/modified/jde.py
+++ b/src/niapy/algorithms/modified/jde.py
@@ -174,7 +174,7 @@ class SelfAdaptiveDifferentialEvolution(DifferentialEvolution):
         for i, e in enumerate(new_pop):
             new_pop[i].x = self.strategy(new_pop, i, e.differential_weight, e.crossover_probability, rng=self.rng, x_b=xb)
         for e in new_pop:
-            e.evaluate(task, rng=self.random)
+            e.evaluate(task, rng=self.rng)
         return new_pop
 
 
diff --git a/src/niapy/algorithms/modified/plba.py b/src/niapy/algorithms/modified/plba.py
index 8c65ec9..793d5d9 100644
--- a/src/niapy/algorithms/modified/plba.py
+++ b/src/niapy/algorithms/modified/plba.py
@@ -104,7 +104,7 @@ class ParameterFreeBatAlgorithm(Algorithm):
             numpy.ndarray: New solution based on global best individual.
 
         """
-        return task.repair(best + 0.001 * self.normal(0, 1, task.dimension))
+        return task.repair(best + 0.001 * self.normal(0, 1, task.dimension), rng=self.rng)
 
     def run_iteration(self, task, population, population_fitness, best_x, best_fitness, **params):
         r"""Core function of Parameter-free Bat Algorithm.
diff --git a/src/niapy/algorithms/modified/shade.py b/src/niapy/algorithms/modified/shade.py
index deefd65..d628432 100644
--- a/src/niapy/algorithms/modified/shade.py
+++ b/src/niapy/algorithms/modified/shade.py
@@ -279,7 +279,7 @@ class SuccessHistoryAdaptiveDifferentialEvolution(DifferentialEvolution):
             new_pop[i].x = cross_curr2pbest1(pop, i, xi.differential_weight, xi.crossover_probability, self.rng,
                                              p_num, archive, arc_ind_cnt, task)  # trial vectors are created
         for xi in new_pop:
-            xi.evaluate(task, rng=self.random)
+            xi.evaluate(task, rng=self.rng)
 
         return new_pop
 
-- 
2.43.0


From 91115a7ec461c7f577084a967dafb9825ded6902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:18 +0000
Subject: [PATCH 03/62] fix: ABC never ended with food sources of negative or
 infinite fitness

---
 src/niapy/algorithms/basic/abc.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/abc.py b/src/niapy/algorithms/basic/abc.py
index 2d1ecb8..47174b9 100644
--- a/src/niapy/algorithms/basic/abc.py
+++ b/src/niapy/algorithms/basic/abc.py
@@ -122,8 +122,12 @@ class ArtificialBeeColonyAlgorithm(Algorithm):
             numpy.ndarray: Probabilities.
 
         """
-        probs = np.asarray([1.0 / (foods[i].f + 0.01) for i in range(self.food_number)])
-        return probs / np.sum(probs)
+        fitness = np.asarray([foods[i].f for i in range(self.food_number)])
+        probs = np.where(fitness < 0, 100.0 - fitness, 1.0 / (np.abs(fitness) + 0.01))
+        total = np.sum(probs)
+        if not 0 < total < np.inf:
+            return np.full(self.food_number, 1.0 / self.food_number)
+        return probs / total
 
     def init_population(self, task):
         r"""Initialize the starting population.
-- 
2.43.0


From 7f132a273d23a049a202abfe03afb212aa4baf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:18 +0000
Subject: [PATCH 04/62] fix: the camel algorithm lost the best solution when
 its camel died

---
 src/niapy/algorithms/basic/ca.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/niapy/algorithms/basic/ca.py b/src/niapy/algorithms/basic/ca.py
index e0b0b35..6825c77 100644
--- a/src/niapy/algorithms/basic/ca.py
+++ b/src/niapy/algorithms/basic/ca.py
@@ -354,6 +354,7 @@ class CamelAlgorithm(Algorithm):
 
         """
         new_caravan = objects_to_array([self.walk(c, best_x, task) for c in population])
+        best_x, best_fitness = self.get_best(new_caravan, np.asarray([c.f for c in new_caravan]), best_x, best_fitness)
         new_caravan = objects_to_array([self.oasis(c) for c in new_caravan])
         new_caravan = objects_to_array([self.life_cycle(c, task) for c in new_caravan])
         new_caravan_fitness = np.asarray([c.f for c in new_caravan])
-- 
2.43.0


From 6ce766647258f05f99c8a7717b1579b764ff65db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:18 +0000
Subject: [PATCH 05/62] fix: aging of individuals crashed on lifetimes that are
 infinite or not a number

---
 src/niapy/algorithms/basic/de.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/niapy/algorithms/basic/de.py b/src/niapy/algorithms/basic/de.py
index 31a0eab..e4745f2 100644
--- a/src/niapy/algorithms/basic/de.py
+++ b/src/niapy/algorithms/basic/de.py
@@ -750,9 +750,10 @@ class AgingNpDifferentialEvolution(DifferentialEvolution):
         new_population = []
         for x in pop:
             x.age += 1
-            lifetime = round(
-                self.age(min_lifetime=self.min_lifetime, max_lifetime=self.max_lifetime, mu=self.mu, x_f=x.f, avg=avg, x_gw=x_w.f, x_gb=x_b.f))
-            if x.age <= lifetime:
+            lifetime = self.age(min_lifetime=self.min_lifetime, max_lifetime=self.max_lifetime, mu=self.mu, x_f=x.f, avg=avg, x_gw=x_w.f, x_gb=x_b.f)
+            if np.isnan(lifetime):  # all individuals are equally good
+                lifetime = self.max_lifetime
+            if x.age <= np.round(lifetime):
                 new_population.append(x)
         if len(new_population) == 0:
             new_population = objects_to_array([self.individual_type(task=task, rng=self.rng, e=True) for _ in range(self.population_size)])
-- 
2.43.0


From 130ee4551a6d0263a8602828d288bc1d49957c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:57 +0000
Subject: [PATCH 06/62] fix: bare bones fireworks returned a matrix as its best
 solution

---
 src/niapy/algorithms/basic/fwa.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/niapy/algorithms/basic/fwa.py b/src/niapy/algorithms/basic/fwa.py
index be7b7f6..e8d5357 100644
--- a/src/niapy/algorithms/basic/fwa.py
+++ b/src/niapy/algorithms/basic/fwa.py
@@ -150,13 +150,13 @@ class BareBonesFireworksAlgorithm(Algorithm):
         sparks = np.apply_along_axis(task.repair, 1, sparks, self.rng)
         sparks_fitness = np.apply_along_axis(task.eval, 1, sparks)
         best_index = np.argmin(sparks_fitness)
-        if sparks_fitness[best_index] < population_fitness:
-            population = sparks[best_index]
-            population_fitness = sparks_fitness[best_index]
+        if sparks_fitness[best_index] < population_fitness[0]:
+            population = sparks[best_index:best_index + 1].copy()
+            population_fitness = sparks_fitness[best_index:best_index + 1].copy()
             amplitude = self.amplification_coefficient * amplitude
         else:
             amplitude = self.reduction_coefficient * amplitude
-        return population, population_fitness, population.copy(), population_fitness, {'amplitude': amplitude}
+        return population, population_fitness, population[0].copy(), population_fitness[0], {'amplitude': amplitude}
 
 
 class FireworksAlgorithm(Algorithm):
-- 
2.43.0


From cdb702b217689d9b6d6c25c7991ed069124c2ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:37 +0000
Subject: [PATCH 07/62] fix: fireworks algorithms overwrote the best solution
 with worse ones

---
 src/niapy/algorithms/basic/fwa.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/fwa.py b/src/niapy/algorithms/basic/fwa.py
index e8d5357..19de4e0 100644
--- a/src/niapy/algorithms/basic/fwa.py
+++ b/src/niapy/algorithms/basic/fwa.py
@@ -423,8 +423,10 @@ class FireworksAlgorithm(Algorithm):
 
         all_sparks = np.concatenate((all_sparks, gaussian_sparks), axis=0)
 
-        population, population_fitness, best_x, best_fitness = self.selection(population, population_fitness,
-                                                                              all_sparks, task)
+        population, population_fitness, sparks_best_x, sparks_best_fitness = self.selection(population, population_fitness,
+                                                                                            all_sparks, task)
+        if sparks_best_fitness < best_fitness:
+            best_x, best_fitness = sparks_best_x, sparks_best_fitness
 
         return population, population_fitness, best_x, best_fitness, {}
 
-- 
2.43.0


From e7dad246b7e9fa6ec5f2eab5bac2773e1489d518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:37 +0000
Subject: [PATCH 08/62] fix: selection of fireworks crashed when sparks
 coincide

---
 src/niapy/algorithms/basic/fwa.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/fwa.py b/src/niapy/algorithms/basic/fwa.py
index 19de4e0..cbbd615 100644
--- a/src/niapy/algorithms/basic/fwa.py
+++ b/src/niapy/algorithms/basic/fwa.py
@@ -363,7 +363,10 @@ class FireworksAlgorithm(Algorithm):
         fitness = np.delete(sparks_fitness, best_index)
 
         distances = np.sum(euclidean(all_sparks[:, np.newaxis, :], all_sparks[np.newaxis, :, :]), axis=0)
-        probabilities = distances / np.sum(distances)
+        if np.count_nonzero(distances) < max(1, self.population_size - 1):  # too many sparks in the same place
+            probabilities = None
+        else:
+            probabilities = distances / np.sum(distances)
 
         selected_indices = self.rng.choice(len(all_sparks), self.population_size - 1, replace=False, p=probabilities)
 
-- 
2.43.0


From b1372651d4664a700afa7170d42ee5d413fd15a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:37 +0000
Subject: [PATCH 09/62] fix: the best solution of dynamic fireworks was a view
 of the population

---
 src/niapy/algorithms/basic/fwa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/fwa.py b/src/niapy/algorithms/basic/fwa.py
index cbbd615..1ef1e5c 100644
--- a/src/niapy/algorithms/basic/fwa.py
+++ b/src/niapy/algorithms/basic/fwa.py
@@ -728,7 +728,7 @@ class DynamicFireworksAlgorithmGauss(EnhancedFireworksAlgorithm):
         if xnb_f[ib_f] <= xb_f:
             xb, xb_f = xnb[ib_f], xnb_f[ib_f]
         if xb_f >= xcb_f:
-            xb, xb_f, amplitude_cf = xcb, xcb_f, amplitude_cf * self.amplification_coeff
+            xb, xb_f, amplitude_cf = xcb.copy(), xcb_f, amplitude_cf * self.amplification_coeff
         else:
             amplitude_cf = amplitude_cf * self.reduction_coeff
         return xb, xb_f, amplitude_cf
-- 
2.43.0


From 457470bcad8af5d51531fbda372d5eb56f177de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:37 +0000
Subject: [PATCH 10/62] fix: gravitational search produced NaN when all agents
 are equally good

---
 src/niapy/algorithms/basic/gsa.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/gsa.py b/src/niapy/algorithms/basic/gsa.py
index fd50dfb..9ea2ab3 100644
--- a/src/niapy/algorithms/basic/gsa.py
+++ b/src/niapy/algorithms/basic/gsa.py
@@ -160,7 +160,10 @@ class GravitationalSearchAlgorithm(Algorithm):
         velocities = params.pop('velocities')
 
         ib, iw = np.argmin(population_fitness), np.argmax(population_fitness)
-        m = (population_fitness - population_fitness[iw]) / (population_fitness[ib] - population_fitness[iw])
+        if population_fitness[ib] == population_fitness[iw]:
+            m = np.ones(len(population_fitness))
+        else:
+            m = (population_fitness - population_fitness[iw]) / (population_fitness[ib] - population_fitness[iw])
         m = m / np.sum(m)
         forces = np.asarray([[self.gravity((task.iters + 1)) * ((m[i] * m[j]) / (euclidean(population[i], population[j]) + self.epsilon)) * (
                 population[j] - population[i]) for j in range(len(m))] for i in range(len(m))])
-- 
2.43.0


From c4566ff0c65861bea42776827c34324e896ad4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:37 +0000
Subject: [PATCH 11/62] fix: cat swarm optimization lost the best solution
 found while seeking

---
 src/niapy/algorithms/basic/cso.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/niapy/algorithms/basic/cso.py b/src/niapy/algorithms/basic/cso.py
index ca2504c..7f2e72c 100644
--- a/src/niapy/algorithms/basic/cso.py
+++ b/src/niapy/algorithms/basic/cso.py
@@ -263,18 +263,21 @@ class CatSwarmOptimization(Algorithm):
         pop_copies = population.copy()
         for k in range(len(pop_copies)):
             if modes[k] == 0:
-                pop_copies[k], population_fitness[k], pop_copies, population_fitness = self.seeking_mode(task,
-                                                                                                         pop_copies[k],
-                                                                                                         population_fitness[k],
-                                                                                                         pop_copies,
-                                                                                                         population_fitness,
-                                                                                                         best_fitness)
+                cat, cat_fitness, pop_copies, population_fitness = self.seeking_mode(task,
+                                                                                     pop_copies[k],
+                                                                                     population_fitness[k],
+                                                                                     pop_copies,
+                                                                                     population_fitness,
+                                                                                     best_fitness)
+                best_index = np.argmin(population_fitness)
+                if population_fitness[best_index] < best_fitness:
+                    best_x, best_fitness = pop_copies[best_index].copy(), population_fitness[best_index]
+                pop_copies[k], population_fitness[k] = cat, cat_fitness
             else:  # if cat in tracing mode
                 pop_copies[k], population_fitness[k], velocities[k] = self.tracing_mode(task,
                                                                                         pop_copies[k],
                                                                                         velocities[k],
                                                                                         best_x)
-        best_index = np.argmin(population_fitness)
-        if population_fitness[best_index] < best_fitness:
-            best_x, best_fitness = pop_copies[best_index].copy(), population_fitness[best_index]
+            if population_fitness[k] < best_fitness:
+                best_x, best_fitness = pop_copies[k].copy(), population_fitness[k]
         return pop_copies, population_fitness, best_x, best_fitness, {'velocities': velocities}
-- 
2.43.0


From 109c7940cd1d7240e3115334c9ba8ff81bfb88ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:57 +0000
Subject: [PATCH 12/62] fix: Harris hawks lost an accepted dive when the budget
 ended before its second evaluation

---
 src/niapy/algorithms/basic/hho.py | 32 +++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/niapy/algorithms/basic/hho.py b/src/niapy/algorithms/basic/hho.py
index 581535b..f83928a 100644
--- a/src/niapy/algorithms/basic/hho.py
+++ b/src/niapy/algorithms/basic/hho.py
@@ -93,6 +93,26 @@ class HarrisHawksOptimization(Algorithm):
         })
         return d
 
+    @staticmethod
+    def dive(task, x, fitness, *candidates):
+        r"""Move a hawk to the first candidate that is better than its position.
+
+        Args:
+            task (Task): Optimization task.
+            x (numpy.ndarray): Current position of the hawk.
+            fitness (float): Fitness of the current position.
+            candidates (numpy.ndarray): Candidate positions, in the order they are tried.
+
+        Returns:
+            Tuple[numpy.ndarray, float]: New position and its fitness.
+
+        """
+        for candidate in candidates:
+            candidate_fitness = task.eval(candidate)
+            if candidate_fitness < fitness:
+                return candidate, candidate_fitness
+        return x, fitness
+
     def run_iteration(self, task, population, population_fitness, best_x, best_fitness, **params):
         r"""Core function of Harris Hawks Optimization.
 
@@ -148,20 +168,16 @@ class HarrisHawksOptimization(Algorithm):
                 random_vector = self.rng.random(task.dimension)
                 cand2 = task.repair(cand1 + random_vector * levy_flight(alpha=self.levy, size=task.dimension, rng=self.rng),
                                     rng=self.rng)
-                if task.eval(cand1) < population_fitness[i]:
-                    population[i] = cand1
-                elif task.eval(cand2) < population_fitness[i]:
-                    population[i] = cand2
+                population[i], population_fitness[i] = self.dive(task, population[i], population_fitness[i], cand1, cand2)
+                continue
             elif escaping_energy_abs < 0.5 and random_number < 0.5:
                 # 5. Exploitation: Hard besiege with progressive rapid dives
                 cand1 = task.repair(best_x - escaping_energy * np.abs(jumping_energy * best_x - mean_sol), rng=self.rng)
                 random_vector = self.rng.random(task.dimension)
                 cand2 = task.repair(cand1 + random_vector * levy_flight(alpha=self.levy, size=task.dimension, rng=self.rng),
                                     rng=self.rng)
-                if task.eval(cand1) < population_fitness[i]:
-                    population[i] = cand1
-                elif task.eval(cand2) < population_fitness[i]:
-                    population[i] = cand2
+                population[i], population_fitness[i] = self.dive(task, population[i], population_fitness[i], cand1, cand2)
+                continue
             # Repair agent (from population) values
             population[i] = task.repair(population[i], rng=self.rng)
             # Eval population
-- 
2.43.0


From 75a4ea14d1861bb19ba94eb4914551a4a891c587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:57 +0000
Subject: [PATCH 13/62] fix: monarch butterflies crashed in one dimension and
 with small subpopulations

---
 src/niapy/algorithms/basic/mbo.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/niapy/algorithms/basic/mbo.py b/src/niapy/algorithms/basic/mbo.py
index ffdfbbb..f4e7c00 100644
--- a/src/niapy/algorithms/basic/mbo.py
+++ b/src/niapy/algorithms/basic/mbo.py
@@ -149,10 +149,10 @@ class MonarchButterflyOptimization(Algorithm):
             for i in range(dimension):
                 r1 = self.random() * self.period
                 if r1 <= self.partition:
-                    r2 = self.integers(np1 - 1)
+                    r2 = self.integers(np1)
                     butterflies[k1, i] = pop1[r2, i]
                 else:
-                    r3 = self.integers(np2 - 1)
+                    r3 = self.integers(np2)
                     butterflies[k1, i] = pop2[r3, i]
         return butterflies
 
@@ -181,8 +181,8 @@ class MonarchButterflyOptimization(Algorithm):
                 if self.uniform(0.0, 1.0) >= self.partition:
                     butterflies[k2, i] = best[i]
                 else:
-                    r4 = self.integers(np2 - 1)
-                    butterflies[k2, i] = pop2[r4, 1]
+                    r4 = self.integers(np2)
+                    butterflies[k2, i] = pop2[r4, i]
                     if self.uniform(0.0, 1.0) > self.bar:
                         butterflies[k2, i] += scale * (delta_x[i] - 0.5)
         return butterflies
-- 
2.43.0


From c9ef2623772e5675aa23a38e893e60c9dd7da122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:57 +0000
Subject: [PATCH 14/62] fix: monarch butterfly optimization lost butterflies
 overwritten by the elite

---
 src/niapy/algorithms/basic/mbo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/niapy/algorithms/basic/mbo.py b/src/niapy/algorithms/basic/mbo.py
index f4e7c00..a840879 100644
--- a/src/niapy/algorithms/basic/mbo.py
+++ b/src/niapy/algorithms/basic/mbo.py
@@ -264,6 +264,7 @@ class MonarchButterflyOptimization(Algorithm):
                                                                  population, current_best), self.rng)
         population_fitness, population = self.evaluate_and_sort(task, population)
         current_best = population[0]
+        best_x, best_fitness = self.get_best(population, population_fitness, best_x, best_fitness)
         population[-self.keep:] = elite
         population_fitness, population = self.evaluate_and_sort(task, population)
         best_x, best_fitness = self.get_best(population, population_fitness, best_x, best_fitness)
-- 
2.43.0


From f076392b2c1f8acf1e2e94555ee7b72f71064396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:57 +0000
Subject: [PATCH 15/62] fix: set_parameters of coral reefs and (mu+1) evolution
 strategy passed the instance twice

---
 src/niapy/algorithms/basic/cro.py | 2 +-
 src/niapy/algorithms/basic/es.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/cro.py b/src/niapy/algorithms/basic/cro.py
index 93c2b92..a8ca671 100644
--- a/src/niapy/algorithms/basic/cro.py
+++ b/src/niapy/algorithms/basic/cro.py
@@ -197,7 +197,7 @@ class CoralReefsOptimization(Algorithm):
             * :func:`niapy.algorithms.Algorithm.set_parameters`
 
         """
-        super().set_parameters(self, population_size=population_size, **kwargs)
+        super().set_parameters(population_size=population_size, **kwargs)
         self.phi = phi
         self.k = k
         self.crossover_rate = crossover_rate
diff --git a/src/niapy/algorithms/basic/es.py b/src/niapy/algorithms/basic/es.py
index 508b607..c17a493 100644
--- a/src/niapy/algorithms/basic/es.py
+++ b/src/niapy/algorithms/basic/es.py
@@ -284,7 +284,7 @@ class EvolutionStrategyMp1(EvolutionStrategy1p1):
 
         """
         mu = kwargs.pop('mu', 40)
-        super().set_parameters(self, mu=mu, **kwargs)
+        super().set_parameters(mu=mu, **kwargs)
 
 
 class EvolutionStrategyMpL(EvolutionStrategy1p1):
-- 
2.43.0


From 7082111e85907adb0efff4990529e60822a5b128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:57 +0000
Subject: [PATCH 16/62] fix: coral reefs reported parameters under names that
 cannot be set

---
 src/niapy/algorithms/basic/cro.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/cro.py b/src/niapy/algorithms/basic/cro.py
index a8ca671..6aa2359 100644
--- a/src/niapy/algorithms/basic/cro.py
+++ b/src/niapy/algorithms/basic/cro.py
@@ -222,8 +222,8 @@ class CoralReefsOptimization(Algorithm):
         d.update({
             'phi': self.phi,
             'k': self.k,
-            'cr': self.crossover_rate,
-            'mr': self.mutation_rate,
+            'crossover_rate': self.crossover_rate,
+            'mutation_rate': self.mutation_rate,
             'asexual_reproduction_prob': self.asexual_reproduction_prob,
             'depredation_prob': self.depredation_prob,
             'broadcast_prob': self.broadcast_prob,
-- 
2.43.0


From b079b6bb2448836f0e62080afe9a39fa44e3804f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:57 +0000
Subject: [PATCH 17/62] fix: depredation of coral reefs flattened the
 population

---
 src/niapy/algorithms/basic/cro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/cro.py b/src/niapy/algorithms/basic/cro.py
index 6aa2359..72605e1 100644
--- a/src/niapy/algorithms/basic/cro.py
+++ b/src/niapy/algorithms/basic/cro.py
@@ -273,7 +273,7 @@ class CoralReefsOptimization(Algorithm):
 
         """
         depredation_index = np.argsort(reef_fitness)[::-1][:self.num_depredation]
-        return np.delete(reef, depredation_index), np.delete(reef_fitness, depredation_index)
+        return np.delete(reef, depredation_index, 0), np.delete(reef_fitness, depredation_index)
 
     def settling(self, reef, reef_fitness, new_reef, new_reef_fitness, best_x, best_fitness, task):
         r"""Operator for setting reefs.
-- 
2.43.0


From 4c77ca48e73698c4dab8169ed328af100d2cf6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:42 +0000
Subject: [PATCH 18/62] fix: bacterial foraging carried its step counters over
 into the next run

---
 src/niapy/algorithms/basic/bfo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/niapy/algorithms/basic/bfo.py b/src/niapy/algorithms/basic/bfo.py
index cd422bc..bf9c04b 100644
--- a/src/niapy/algorithms/basic/bfo.py
+++ b/src/niapy/algorithms/basic/bfo.py
@@ -180,6 +180,7 @@ class BacterialForagingOptimization(Algorithm):
 
         """
         pop, fpop, d = super().init_population(task)
+        self.i = self.j = self.k = 0
         d.update({
             'cost': np.zeros(self.population_size, dtype=np.float64),
             'health': np.zeros(self.population_size, dtype=np.float64)
-- 
2.43.0


From 4c71ebf444b7fbec8aa969f8456377919e41ea5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:32 +0000
Subject: [PATCH 19/62] fix: krill herd evaluated NaN as the food location when
 a fitness is zero

---
 src/niapy/algorithms/basic/kh.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/kh.py b/src/niapy/algorithms/basic/kh.py
index 05915d9..c3cc11b 100644
--- a/src/niapy/algorithms/basic/kh.py
+++ b/src/niapy/algorithms/basic/kh.py
@@ -349,8 +349,11 @@ class KrillHerd(Algorithm):
                 2. Foods function/fitness value.
 
         """
-        x_food = task.repair(np.asarray([np.sum(population[:, i] / population_fitness) for i in range(task.dimension)]) / np.sum(1 / population_fitness),
-                             rng=self.rng)
+        x_food = np.asarray([np.sum(population[:, i] / population_fitness) for i in range(task.dimension)]) / np.sum(1 / population_fitness)
+        if not np.all(np.isfinite(x_food)):
+            # the weights are not defined (a fitness of zero or weights that cancel), the food is at the best krill
+            x_food = population[np.argmin(population_fitness)].copy()
+        x_food = task.repair(x_food, rng=self.rng)
         x_food_f = task.eval(x_food)
         return x_food, x_food_f
 
-- 
2.43.0


From a2a61e7ebe07e5df0e269071f4e5ef9cc60d5e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:32 +0000
Subject: [PATCH 20/62] fix: mutated particle swarms evaluated NaN when no
 particle moves

---
 src/niapy/algorithms/basic/pso.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/pso.py b/src/niapy/algorithms/basic/pso.py
index d84b08f..66c1bab 100644
--- a/src/niapy/algorithms/basic/pso.py
+++ b/src/niapy/algorithms/basic/pso.py
@@ -754,7 +754,9 @@ class MutatedParticleSwarmOptimization(ParticleSwarmAlgorithm):
         pop, fpop, xb, fxb, d = ParticleSwarmAlgorithm.run_iteration(self, task, pop, fpop, xb, fxb, **params)
         v = d['v']
         v_a = (np.sum(v, axis=0) / len(v))
-        v_a = v_a / np.max(np.abs(v_a))
+        v_max = np.max(np.abs(v_a))
+        if v_max > 0:
+            v_a = v_a / v_max
         for _ in range(self.num_mutations):
             g = task.repair(xb + v_a * self.uniform(task.lower, task.upper), self.rng)
             fg = task.eval(g)
@@ -865,7 +867,9 @@ class MutatedCenterParticleSwarmOptimization(CenterParticleSwarmOptimization):
         pop, fpop, xb, fxb, d = CenterParticleSwarmOptimization.run_iteration(self, task, pop, fpop, xb, fxb, **params)
         v = d['v']
         v_a = (np.sum(v, axis=0) / len(v))
-        v_a = v_a / np.max(np.abs(v_a))
+        v_max = np.max(np.abs(v_a))
+        if v_max > 0:
+            v_a = v_a / v_max
         for _ in range(self.num_mutations):
             g = task.repair(xb + v_a * self.uniform(task.lower, task.upper), self.rng)
             fg = task.eval(g)
-- 
2.43.0


From 3c90497c1cc50ae825d38b1dbd605099c2427774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:32 +0000
Subject: [PATCH 21/62] fix: the center of the swarm could round to a point
 outside the bounds

---
 src/niapy/algorithms/basic/pso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/pso.py b/src/niapy/algorithms/basic/pso.py
index 66c1bab..7091e79 100644
--- a/src/niapy/algorithms/basic/pso.py
+++ b/src/niapy/algorithms/basic/pso.py
@@ -644,7 +644,7 @@ class CenterParticleSwarmOptimization(ParticleSwarmAlgorithm):
 
         """
         pop, fpop, xb, fxb, d = super().run_iteration(task, pop, fpop, xb, fxb, **params)
-        c = np.sum(pop, axis=0) / len(pop)
+        c = task.repair(np.sum(pop, axis=0) / len(pop), rng=self.rng)
         fc = task.eval(c)
         if fc <= fxb:
             xb, fxb = c, fc
-- 
2.43.0


From 6bbc2fd61bec8365a3479b6950b70d8d3187acbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:32 +0000
Subject: [PATCH 22/62] fix: reflect returned NaN for a coordinate with equal
 bounds

---
 src/niapy/util/repair.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/niapy/util/repair.py b/src/niapy/util/repair.py
index 3c94f03..69e4cc4 100644
--- a/src/niapy/util/repair.py
+++ b/src/niapy/util/repair.py
@@ -90,6 +90,8 @@ def reflect(x, lower, upper, **_kwargs):
         numpy.ndarray: Fix solution.
 
     """
+    ir = np.where(lower == upper)
+    x[ir] = lower[ir]
     ir = np.where(x > upper)
     x[ir] = lower[ir] + x[ir] % (upper[ir] - lower[ir])
     ir = np.where(x < lower)
-- 
2.43.0


From 21379b629e742ccec48efbfc8582e3c3880ad542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:32 +0000
Subject: [PATCH 23/62] fix: lions divided by a previous best fitness of zero

---
 src/niapy/algorithms/basic/loa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/loa.py b/src/niapy/algorithms/basic/loa.py
index 1f55dc2..1951233 100644
--- a/src/niapy/algorithms/basic/loa.py
+++ b/src/niapy/algorithms/basic/loa.py
@@ -378,7 +378,7 @@ class LionOptimizationAlgorithm(Algorithm):
             lion.x = np.copy(lion.current_x)
             lion.f = lion.current_f
 
-            improvement = 1 - lion.f / lion.previous_iter_best_f
+            improvement = 1 - lion.f / lion.previous_iter_best_f if lion.previous_iter_best_f != 0 else 1
             prey_x = prey_x + self.random() * improvement * (prey_x - lion.current_x)
             return task.repair(prey_x, rng=self.rng)
 
-- 
2.43.0


From 2882f2fa0e12e9fdf708c72df54046daa17cf8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:32 +0000
Subject: [PATCH 24/62] fix: Nelder-Mead evaluated points outside the bounds

---
 src/niapy/algorithms/other/nmm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/niapy/algorithms/other/nmm.py b/src/niapy/algorithms/other/nmm.py
index b8c7409..b7cd956 100644
--- a/src/niapy/algorithms/other/nmm.py
+++ b/src/niapy/algorithms/other/nmm.py
@@ -140,25 +140,26 @@ class NelderMeadMethod(Algorithm):
 
         """
         x0 = np.sum(population[:-1], axis=0) / (len(population) - 1)
-        xr = x0 + self.alpha * (x0 - population[-1])
+        xr = task.repair(x0 + self.alpha * (x0 - population[-1]), rng=self.rng)
         rs = task.eval(xr)
         if population_fitness[0] >= rs < population_fitness[-2]:
             population[-1], population_fitness[-1] = xr, rs
             return population, population_fitness
         if rs < population_fitness[0]:
-            xe = x0 + self.gamma * (x0 - population[-1])
+            xe = task.repair(x0 + self.gamma * (x0 - population[-1]), rng=self.rng)
             re = task.eval(xe)
             if re < rs:
                 population[-1], population_fitness[-1] = xe, re
             else:
                 population[-1], population_fitness[-1] = xr, rs
             return population, population_fitness
-        xc = x0 + self.rho * (x0 - population[-1])
+        xc = task.repair(x0 + self.rho * (x0 - population[-1]), rng=self.rng)
         rc = task.eval(xc)
         if rc < population_fitness[-1]:
             population[-1], population_fitness[-1] = xc, rc
             return population, population_fitness
         new_population = population[0] + self.sigma * (population[1:] - population[0])
+        new_population = np.apply_along_axis(task.repair, 1, new_population, rng=self.rng)
         new_population_fitness = np.apply_along_axis(task.eval, 1, new_population)
         population[1:], population_fitness[1:] = new_population, new_population_fitness
         return population, population_fitness
-- 
2.43.0


From 216494a1a152ff8bdf12d6719abc4191684368ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:01 +0000
Subject: [PATCH 25/62] fix: lion cubs were repaired with an unseeded generator

---
 src/niapy/algorithms/basic/loa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/loa.py b/src/niapy/algorithms/basic/loa.py
index 1951233..4685f49 100644
--- a/src/niapy/algorithms/basic/loa.py
+++ b/src/niapy/algorithms/basic/loa.py
@@ -602,7 +602,7 @@ class LionOptimizationAlgorithm(Algorithm):
             cub.has_improved = True
             cub.gender = gender
 
-            cub.evaluate(task)
+            cub.evaluate(task, rng=self.rng)
             cub.current_x = x.copy()
             cub.current_f = cub.f
             cub.previous_iter_best_f = cub.f + 1
-- 
2.43.0


From 499e36bc62bd9f6f3a4d6277a0cfa7575b301ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:01 +0000
Subject: [PATCH 26/62] fix: mating of lions dropped prides without females
 from the population

---
 src/niapy/algorithms/basic/loa.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/niapy/algorithms/basic/loa.py b/src/niapy/algorithms/basic/loa.py
index 4685f49..c098593 100644
--- a/src/niapy/algorithms/basic/loa.py
+++ b/src/niapy/algorithms/basic/loa.py
@@ -635,9 +635,6 @@ class LionOptimizationAlgorithm(Algorithm):
             size = pride_size[pride_i]
             pride = population[idx : idx + size]
             idx += size
-            num_males = gender_distribution[pride_i][0]
-            if num_males == 0:
-                continue
 
             males = [lion for lion in pride if lion.gender == "m"]
 
-- 
2.43.0


From 33484614ead4bf2bc792ff54383dac0ea3e4389e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:01 +0000
Subject: [PATCH 27/62] fix: lion optimization lost the best lion when it was
 driven out in the same iteration

---
 src/niapy/algorithms/basic/loa.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/niapy/algorithms/basic/loa.py b/src/niapy/algorithms/basic/loa.py
index c098593..caa03c1 100644
--- a/src/niapy/algorithms/basic/loa.py
+++ b/src/niapy/algorithms/basic/loa.py
@@ -1040,6 +1040,8 @@ class LionOptimizationAlgorithm(Algorithm):
         lions = self.move_to_safe_place(lions, pride_size, task)
         lions = self.roaming(lions, pride_size, task)
         lions, excess = self.mating(lions, pride_size, gender_distribution, task)
+        # the best lion may be driven out of the population below
+        best_x, best_fitness = self.get_best(lions, np.asarray([lion.f for lion in lions]), best_x, best_fitness)
         lions, excess = self.defense(lions, pride_size, gender_distribution, excess)
         lions, excess = self.migration(lions, pride_size, gender_distribution, excess)
         lions = self.population_equilibrium(
-- 
2.43.0


From 7fe90d7a767c61cd6505ffba3575288f52f79529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:01 +0000
Subject: [PATCH 28/62] fix: anarchic society crashed in one dimension and
 never recombined the last coordinate

---
 src/niapy/algorithms/other/aso.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/niapy/algorithms/other/aso.py b/src/niapy/algorithms/other/aso.py
index 6c5d83e..e52b0ea 100644
--- a/src/niapy/algorithms/other/aso.py
+++ b/src/niapy/algorithms/other/aso.py
@@ -50,7 +50,7 @@ def _mp_c(x, f, cr, mp, rng):
     """
     xn = x.copy()
     if mp < 0.5:
-        b = np.sort(rng.choice(len(x), 2, replace=False))
+        b = np.sort(rng.choice(len(x) + 1, 2, replace=False))
         xn[b[0]:b[1]] = xn[b[0]:b[1]] + f * rng.standard_normal(b[1] - b[0])
     else:
         mask = rng.random(len(x)) < cr
@@ -77,13 +77,13 @@ def _mp_s(x, xr, xb, cr, mp, rng):
     """
     xn = x.copy()
     if mp < 0.25:
-        b = np.sort(rng.choice(len(x), 2, replace=False))
+        b = np.sort(rng.choice(len(x) + 1, 2, replace=False))
         xn[b[0]:b[1]] = xb[b[0]:b[1]]
     elif mp < 0.5:
         mask = rng.random(len(x)) < cr
         xn[mask] = xb[mask]
     elif mp < 0.75:
-        b = np.sort(rng.choice(len(x), 2, replace=False))
+        b = np.sort(rng.choice(len(x) + 1, 2, replace=False))
         xn[b[0]:b[1]] = xr[b[0]:b[1]]
     else:
         mask = rng.random(len(x)) < cr
@@ -109,7 +109,7 @@ def _mp_p(x, xpb, cr, mp, rng):
     """
     xn = x.copy()
     if mp < 0.5:
-        b = np.sort(rng.choice(len(x), 2, replace=False))
+        b = np.sort(rng.choice(len(x) + 1, 2, replace=False))
         xn[b[0]:b[1]] = xpb[b[0]:b[1]]
     else:
         mask = rng.random(len(x)) < cr
-- 
2.43.0


From f8de208d826039bcda253b081e6842f3f5eceb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:01 +0000
Subject: [PATCH 29/62] fix: Nelder-Mead crashed in one dimension

---
 src/niapy/algorithms/other/nmm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/niapy/algorithms/other/nmm.py b/src/niapy/algorithms/other/nmm.py
index b7cd956..7322762 100644
--- a/src/niapy/algorithms/other/nmm.py
+++ b/src/niapy/algorithms/other/nmm.py
@@ -121,6 +121,7 @@ class NelderMeadMethod(Algorithm):
 
         """
         population_size = task.dimension if population_size is None or population_size < task.dimension else population_size
+        population_size = max(population_size, 2)
         population = self.uniform(task.lower, task.upper, (population_size, task.dimension))
         population_fitness = np.apply_along_axis(task.eval, 1, population)
         return population, population_fitness
-- 
2.43.0


From 7cee7511bfea394a81237f44f92087568906cab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:29 +0000
Subject: [PATCH 30/62] fix: a local search of MTS returned a moved solution
 with its old fitness

---
 src/niapy/algorithms/other/mts.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/niapy/algorithms/other/mts.py b/src/niapy/algorithms/other/mts.py
index b484daa..a9ec849 100644
--- a/src/niapy/algorithms/other/mts.py
+++ b/src/niapy/algorithms/other/mts.py
@@ -118,6 +118,7 @@ def mts_ls1v1(current_x, current_fitness, best_x, best_fitness, improve, search_
         new_fitness = task.eval(current_x)
         if new_fitness < best_fitness:
             grade, best_x, best_fitness = grade + bonus1, current_x.copy(), new_fitness
+            current_fitness = new_fitness
         elif new_fitness == current_fitness:
             current_x[i] = x_old
         elif new_fitness > current_fitness:
@@ -126,6 +127,7 @@ def mts_ls1v1(current_x, current_fitness, best_x, best_fitness, improve, search_
             new_fitness = task.eval(current_x)
             if new_fitness < best_fitness:
                 grade, best_x, best_fitness = grade + bonus1, current_x.copy(), new_fitness
+                current_fitness = new_fitness
             elif new_fitness >= current_fitness:
                 current_x[i] = x_old
             else:
-- 
2.43.0


From 57ed5e0a3fdb80f6a18d7bd93c02e520437d778b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:29 +0000
Subject: [PATCH 31/62] fix: the third local search of MTS went on to move the
 solution it returns

---
 src/niapy/algorithms/other/mts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/other/mts.py b/src/niapy/algorithms/other/mts.py
index a9ec849..9f4fdfd 100644
--- a/src/niapy/algorithms/other/mts.py
+++ b/src/niapy/algorithms/other/mts.py
@@ -264,7 +264,7 @@ def mts_ls3(current_x, current_fitness, best_x, best_fitness, improve, search_ra
                 best_x, best_fitness, grade = x_new.copy(), x_new_fitness, grade + bonus1
             else:
                 grade += bonus2
-            current_x, current_fitness, improve = x_new, x_new_fitness, True
+            current_x, current_fitness, improve = x_new.copy(), x_new_fitness, True
     return current_x, current_fitness, best_x, best_fitness, improve, grade, search_range
 
 
-- 
2.43.0


From bff0218ecefec0c087479027542d6716de5f3761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:29 +0000
Subject: [PATCH 32/62] fix: parameters of the MTS algorithms could not be set
 from what they report

---
 src/niapy/algorithms/modified/hde.py | 4 ++++
 src/niapy/algorithms/other/mts.py    | 5 +++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/modified/hde.py b/src/niapy/algorithms/modified/hde.py
index 62f6d20..251aeac 100644
--- a/src/niapy/algorithms/modified/hde.py
+++ b/src/niapy/algorithms/modified/hde.py
@@ -185,6 +185,7 @@ class DifferentialEvolutionMTSv1(DifferentialEvolutionMTS):
             :func:`niapy.algorithms.modified.DifferentialEvolutionMTS.set_parameters`
 
         """
+        kwargs.pop('local_searches', None)
         super().set_parameters(local_searches=(mts_ls1v1, mts_ls2, mts_ls3v1), **kwargs)
 
 
@@ -312,6 +313,7 @@ class DynNpDifferentialEvolutionMTSv1(DynNpDifferentialEvolutionMTS):
             :func:`niapy.algorithms.modified.hde.DifferentialEvolutionMTS.set_parameters`
 
         """
+        kwargs.pop('local_searches', None)
         DynNpDifferentialEvolutionMTS.set_parameters(self, local_searches=(mts_ls1v1, mts_ls2, mts_ls3v1), **kwargs)
 
 
@@ -444,6 +446,7 @@ class MultiStrategyDifferentialEvolutionMTSv1(MultiStrategyDifferentialEvolution
             * :func:`niapy.algorithms.modified.MultiStrategyDifferentialEvolutionMTS.set_parameters`
 
         """
+        kwargs.pop('local_searches', None)
         MultiStrategyDifferentialEvolutionMTS.set_parameters(self, local_searches=(mts_ls1v1, mts_ls2, mts_ls3v1), **kwargs)
 
 
@@ -562,4 +565,5 @@ class DynNpMultiStrategyDifferentialEvolutionMTSv1(DynNpMultiStrategyDifferentia
             * :func:`niapy.algorithm.modified.DynNpMultiStrategyDifferentialEvolutionMTS.set_parameters`
 
         """
+        kwargs.pop('local_searches', None)
         DynNpMultiStrategyDifferentialEvolutionMTS.set_parameters(self, local_searches=(mts_ls1v1, mts_ls2, mts_ls3v1), **kwargs)
diff --git a/src/niapy/algorithms/other/mts.py b/src/niapy/algorithms/other/mts.py
index 9f4fdfd..ab52ee4 100644
--- a/src/niapy/algorithms/other/mts.py
+++ b/src/niapy/algorithms/other/mts.py
@@ -428,7 +428,6 @@ class MultipleTrajectorySearch(Algorithm):
         """
         d = Algorithm.get_parameters(self)
         d.update({
-            'M': d.pop('population_size', self.population_size),
             'num_tests': self.num_tests,
             'num_searches': self.num_searches,
             'num_searches_best': self.num_searches_best,
@@ -655,4 +654,6 @@ class MultipleTrajectorySearchV1(MultipleTrajectorySearch):
 
         """
         kwargs.pop('num_searches_best', None)
-        super().set_parameters(num_searches_best=0, local_searches=(mts_ls1v1, mts_ls2), **kwargs)
+        kwargs.pop('local_searches', None)
+        super().set_parameters(population_size=population_size, num_tests=num_tests, num_searches=num_searches, num_searches_best=0,
+                               num_enabled=num_enabled, bonus1=bonus1, bonus2=bonus2, local_searches=(mts_ls1v1, mts_ls2), **kwargs)
-- 
2.43.0


From 14145cead875e4ac4c985a5e0f93da60b4f0304b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:29 +0000
Subject: [PATCH 33/62] fix: random search reported the first fitness with the
 last candidate

---
 src/niapy/algorithms/other/rs.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/other/rs.py b/src/niapy/algorithms/other/rs.py
index 0a3fd63..d6455c5 100644
--- a/src/niapy/algorithms/other/rs.py
+++ b/src/niapy/algorithms/other/rs.py
@@ -101,7 +101,6 @@ class RandomSearch(Algorithm):
         else:
             total_candidates = 0
         self.candidates = []
-        x = None
         for i in range(total_candidates):
             while True:
                 x = task.lower + task.range * self.random(task.dimension)
@@ -110,7 +109,7 @@ class RandomSearch(Algorithm):
                     break
 
         x_fit = task.eval(self.candidates[0])
-        return x, x_fit, {}
+        return self.candidates[0], x_fit, {}
 
     def run_iteration(self, task, x, x_fit, best_x, best_fitness, **params):
         r"""Core function of the algorithm.
-- 
2.43.0


From a334353416f03426d8a461362a0ad64db7203567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:29 +0000
Subject: [PATCH 34/62] fix: simulated annealing did not report its cooling
 method

---
 src/niapy/algorithms/other/sa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/other/sa.py b/src/niapy/algorithms/other/sa.py
index 4e27e5a..feea8d4 100644
--- a/src/niapy/algorithms/other/sa.py
+++ b/src/niapy/algorithms/other/sa.py
@@ -151,7 +151,8 @@ class SimulatedAnnealing(Algorithm):
             'delta': self.delta,
             'delta_temperature': self.delta_temperature,
             'starting_temperature': self.starting_temperature,
-            'epsilon': self.epsilon
+            'epsilon': self.epsilon,
+            'cooling_method': self.cooling_method
         })
         return d
 
-- 
2.43.0


From 58fc1a55d4737caa4203deb54bb18e2703af8441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:51 +0000
Subject: [PATCH 35/62] fix: random search crashed when only a cutoff value is
 set

---
 src/niapy/algorithms/other/rs.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/other/rs.py b/src/niapy/algorithms/other/rs.py
index d6455c5..fee10f9 100644
--- a/src/niapy/algorithms/other/rs.py
+++ b/src/niapy/algorithms/other/rs.py
@@ -99,7 +99,7 @@ class RandomSearch(Algorithm):
         elif task.max_evals != np.inf:
             total_candidates = task.max_evals
         else:
-            total_candidates = 0
+            total_candidates = 1
         self.candidates = []
         for i in range(total_candidates):
             while True:
@@ -132,7 +132,11 @@ class RandomSearch(Algorithm):
 
         """
         current_candidate = task.iters if task.max_iters != np.inf else task.evals
-        x = self.candidates[current_candidate]
+        if current_candidate < len(self.candidates):
+            x = self.candidates[current_candidate]
+        else:
+            # without a limit the candidates are drawn one at a time
+            x = task.lower + task.range * self.random(task.dimension)
         x_fit = task.eval(x)
         best_x, best_fitness = self.get_best(x, x_fit, best_x, best_fitness)
         return x, x_fit, best_x, best_fitness, {}
-- 
2.43.0


From 5dcb2f615bf37906e0b46ef66fe25f377936418f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:51 +0000
Subject: [PATCH 36/62] fix: simulated annealing divided by a temperature of
 zero

---
 src/niapy/algorithms/other/sa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/other/sa.py b/src/niapy/algorithms/other/sa.py
index feea8d4..53bb043 100644
--- a/src/niapy/algorithms/other/sa.py
+++ b/src/niapy/algorithms/other/sa.py
@@ -197,7 +197,7 @@ class SimulatedAnnealing(Algorithm):
         c = task.repair(x - self.delta / 2 + self.random(task.dimension) * self.delta, rng=self.rng)
         c_fit = task.eval(c)
         delta_fit, r = c_fit - x_fit, self.random()
-        if delta_fit < 0 or r < np.exp(delta_fit / current_temperature):
+        if delta_fit < 0 or (current_temperature != 0 and r < np.exp(delta_fit / current_temperature)):
             x, x_fit = c, c_fit
         current_temperature = self.cooling_method(current_temperature, starting_temperature=self.starting_temperature,
                                                   delta_temperature=self.delta_temperature, max_evals=task.max_evals)
-- 
2.43.0


From 1c7679342db09e4393b4b1a0b21dcd30ff456b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:23 +0000
Subject: [PATCH 37/62] fix: parameters of the parameter-free bat algorithm
 could not be set from what it reports

---
 src/niapy/algorithms/modified/plba.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/niapy/algorithms/modified/plba.py b/src/niapy/algorithms/modified/plba.py
index 793d5d9..751fa7b 100644
--- a/src/niapy/algorithms/modified/plba.py
+++ b/src/niapy/algorithms/modified/plba.py
@@ -56,6 +56,7 @@ class ParameterFreeBatAlgorithm(Algorithm):
 
     def __init__(self, *args, **kwargs):
         """Initialize ParameterFreeBatAlgorithm."""
+        kwargs.pop('population_size', None)
         super().__init__(80, *args, **kwargs)
         self.loudness = 0.9
         self.pulse_rate = 0.1
@@ -67,6 +68,7 @@ class ParameterFreeBatAlgorithm(Algorithm):
             * :func:`niapy.algorithms.Algorithm.set_parameters`
 
         """
+        kwargs.pop('population_size', None)
         super().set_parameters(population_size=80, **kwargs)
         self.loudness = 0.9
         self.pulse_rate = 0.1
-- 
2.43.0


From 560394e25612779f29024e279cd70537674b2ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:23 +0000
Subject: [PATCH 38/62] fix: hybrid self-adaptive bat algorithm did not report
 its strategy

---
 src/niapy/algorithms/modified/hsaba.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/modified/hsaba.py b/src/niapy/algorithms/modified/hsaba.py
index cc93b42..2fc21ba 100644
--- a/src/niapy/algorithms/modified/hsaba.py
+++ b/src/niapy/algorithms/modified/hsaba.py
@@ -105,7 +105,8 @@ class HybridSelfAdaptiveBatAlgorithm(SelfAdaptiveBatAlgorithm):
         d = super().get_parameters()
         d.update({
             'differential_weight': self.differential_weight,
-            'crossover_probability': self.crossover_probability
+            'crossover_probability': self.crossover_probability,
+            'strategy': self.strategy
         })
         return d
 
-- 
2.43.0


From ed9f7c807593ee886d4eb26a1e31c490afa07556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:23 +0000
Subject: [PATCH 39/62] fix: glowworm swarm variants did not report their own
 parameters

---
 src/niapy/algorithms/basic/gso.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/niapy/algorithms/basic/gso.py b/src/niapy/algorithms/basic/gso.py
index 772e239..a08baf2 100644
--- a/src/niapy/algorithms/basic/gso.py
+++ b/src/niapy/algorithms/basic/gso.py
@@ -372,6 +372,17 @@ class GlowwormSwarmOptimizationV2(GlowwormSwarmOptimization):
         super().set_parameters(**kwargs)
         self.alpha = alpha
 
+    def get_parameters(self):
+        r"""Get algorithms parameters values.
+
+        Returns:
+            Dict[str, Any]: Algorithm parameters.
+
+        """
+        d = super().get_parameters()
+        d.update({'alpha': self.alpha})
+        return d
+
     def range_update(self, range_, neighbors, sensing_range):
         """Update range."""
         return self.alpha + (sensing_range - self.alpha) / (1 + self.beta * np.sum(neighbors))
@@ -442,6 +453,17 @@ class GlowwormSwarmOptimizationV3(GlowwormSwarmOptimization):
         super().set_parameters(**kwargs)
         self.beta1 = beta1
 
+    def get_parameters(self):
+        r"""Get algorithms parameters values.
+
+        Returns:
+            Dict[str, Any]: Algorithm parameters.
+
+        """
+        d = super().get_parameters()
+        d.update({'beta1': self.beta1})
+        return d
+
     def range_update(self, range_, neighbors, sensing_range):
         """Update range."""
         return range_ + (self.beta * np.sum(neighbors)) if np.sum(neighbors) < self.nt else (-self.beta1 * np.sum(neighbors))
-- 
2.43.0


From 7406336eadabf94ac5d88f8e7e08d5e3d4b99fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:23 +0000
Subject: [PATCH 40/62] fix: anarchic society did not report its distance
 functions

---
 src/niapy/algorithms/other/aso.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/niapy/algorithms/other/aso.py b/src/niapy/algorithms/other/aso.py
index e52b0ea..cb787b6 100644
--- a/src/niapy/algorithms/other/aso.py
+++ b/src/niapy/algorithms/other/aso.py
@@ -370,6 +370,8 @@ class AnarchicSocietyOptimization(Algorithm):
             'alpha': self.alpha,
             'gamma': self.gamma,
             'theta': self.theta,
+            'd': self.d,
+            'dn': self.dn,
             'nl': self.nl,
             'f': self.f,
             'cr': self.cr,
-- 
2.43.0


From 0052c44a95596880d38608f0995c4ce79efcdb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:23 +0000
Subject: [PATCH 41/62] fix: bees algorithm lost the best solution without
 elite sites

---
 src/niapy/algorithms/basic/bea.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/bea.py b/src/niapy/algorithms/basic/bea.py
index 3325caf..9a69905 100644
--- a/src/niapy/algorithms/basic/bea.py
+++ b/src/niapy/algorithms/basic/bea.py
@@ -215,4 +215,5 @@ class BeesAlgorithm(Algorithm):
         population_fitness = population_fitness[sorted_indices]
         population = population[sorted_indices, :]
         ngh = ngh * 0.95
-        return population, population_fitness, population[0].copy(), population_fitness[0], {'ngh': ngh}
+        best_x, best_fitness = self.get_best(population, population_fitness, best_x, best_fitness)
+        return population, population_fitness, best_x, best_fitness, {'ngh': ngh}
-- 
2.43.0


From 21b37e2d46bf8a33a88832b52ae6e93e8ac5df32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:23 +0000
Subject: [PATCH 42/62] fix: the copy of an individual had no fitness

---
 src/niapy/algorithms/algorithm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/algorithm.py b/src/niapy/algorithms/algorithm.py
index f1a7f97..d60f170 100644
--- a/src/niapy/algorithms/algorithm.py
+++ b/src/niapy/algorithms/algorithm.py
@@ -408,7 +408,9 @@ class Individual:
             Individual: Copy of self.
 
         """
-        return Individual(x=self.x.copy(), e=False, f=self.f)
+        ind = Individual(x=self.x.copy(), e=False)
+        ind.f = self.f
+        return ind
 
     def __eq__(self, other):
         r"""Compare the individuals for equalities.
-- 
2.43.0


From 0c7e1f05e8dad3faaedad4008ec96a762830dddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:23 +0000
Subject: [PATCH 43/62] fix: an unevaluated individual counted as the best one
 under maximization

---
 src/niapy/algorithms/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/algorithm.py b/src/niapy/algorithms/algorithm.py
index d60f170..3866abe 100644
--- a/src/niapy/algorithms/algorithm.py
+++ b/src/niapy/algorithms/algorithm.py
@@ -360,7 +360,7 @@ class Individual:
             e (Optional[bool]): True to evaluate the individual on initialization. Default value is True.
 
         """
-        self.f = task.optimization_type.value * np.inf if task is not None else np.inf
+        self.f = np.inf
         if x is not None:
             self.x = x if isinstance(x, np.ndarray) else np.asarray(x)
         elif task is not None:
-- 
2.43.0


From e92c9d724f37ed3e83a149ef6150cce2f65d137c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:23 +0000
Subject: [PATCH 44/62] fix: opposite particles could round to points outside
 the bounds

---
 src/niapy/algorithms/basic/pso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/pso.py b/src/niapy/algorithms/basic/pso.py
index 7091e79..e8805d2 100644
--- a/src/niapy/algorithms/basic/pso.py
+++ b/src/niapy/algorithms/basic/pso.py
@@ -455,7 +455,7 @@ class OppositionVelocityClampingParticleSwarmOptimization(ParticleSwarmAlgorithm
 
         """
         s_r = s_l + s_h
-        s = np.asarray([s_r - e for e in pop])
+        s = np.asarray([np.clip(s_r - e, s_l, s_h) for e in pop])
         s_f = np.asarray([task.eval(e) for e in s])
         s, s_f = np.concatenate([pop, s]), np.concatenate([fpop, s_f])
         sorted_indices = np.argsort(s_f)
-- 
2.43.0


From 632ea7f9318cf0a85cc5efc5e99567978f89508b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:34 +0000
Subject: [PATCH 45/62] fix: Alpine1 multiplies the sine by x as documented

---
 src/niapy/problems/alpine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/problems/alpine.py b/src/niapy/problems/alpine.py
index 934ab83..56ccd80 100644
--- a/src/niapy/problems/alpine.py
+++ b/src/niapy/problems/alpine.py
@@ -70,7 +70,7 @@ class Alpine1(Problem):
         return r'''$f(\mathbf{x}) = \sum_{i=1}^{D} \lvert x_i \sin(x_i)+0.1x_i \rvert$'''
 
     def _evaluate(self, x):
-        return np.sum(np.abs(np.sin(x) + 0.1 * x))
+        return np.sum(np.abs(x * np.sin(x) + 0.1 * x))
 
 
 class Alpine2(Problem):
-- 
2.43.0


From cff0e6864f3b51c8005dd9599caee87ebfe2f12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:34 +0000
Subject: [PATCH 46/62] fix: Discus squares its first coordinate as documented

---
 src/niapy/problems/discus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/problems/discus.py b/src/niapy/problems/discus.py
index e3df6f0..bf7fba8 100644
--- a/src/niapy/problems/discus.py
+++ b/src/niapy/problems/discus.py
@@ -69,4 +69,4 @@ class Discus(Problem):
         return r'''$f(\textbf{x}) = x_1^2 10^6 + \sum_{i=2}^D x_i^2$'''
 
     def _evaluate(self, x):
-        return x[0] * 1000000 + np.sum(np.square(x[1:]))
+        return x[0] ** 2 * 1000000 + np.sum(np.square(x[1:]))
-- 
2.43.0


From a4e04c189d075e0ff4d8adf7d20fa63a7590ca4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:34 +0000
Subject: [PATCH 47/62] fix: Dixon-Price sums over all neighbouring pairs as
 documented

---
 src/niapy/problems/dixon_price.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/problems/dixon_price.py b/src/niapy/problems/dixon_price.py
index e9a3888..3c0d6b3 100644
--- a/src/niapy/problems/dixon_price.py
+++ b/src/niapy/problems/dixon_price.py
@@ -69,6 +69,6 @@ class DixonPrice(Problem):
         return r'''$f(\textbf{x}) = (x_1 - 1)^2 + \sum_{i = 2}^D i (2x_i^2 - x_{i - 1})^2$'''
 
     def _evaluate(self, x):
-        indices = np.arange(2, self.dimension)
-        val = np.sum(indices * (2 * x[2:] ** 2 - x[1:self.dimension - 1]) ** 2)
+        indices = np.arange(2, self.dimension + 1)
+        val = np.sum(indices * (2 * x[1:] ** 2 - x[:-1]) ** 2)
         return (x[0] - 1) ** 2 + val
-- 
2.43.0


From 51788c970ec198ebeeade93165581dbfd39944cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:34 +0000
Subject: [PATCH 48/62] fix: expanded Griewank plus Rosenbrock follows its
 documented formula

---
 src/niapy/problems/griewank.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/niapy/problems/griewank.py b/src/niapy/problems/griewank.py
index e478a1c..67914bb 100644
--- a/src/niapy/problems/griewank.py
+++ b/src/niapy/problems/griewank.py
@@ -138,6 +138,7 @@ class ExpandedGriewankPlusRosenbrock(Problem):
         return r'''$f(\textbf{x}) = h(g(x_D, x_1)) + \sum_{i=2}^D h(g(x_{i - 1}, x_i)) \\ g(x, y) = 100 (x^2 - y)^2 + (x - 1)^2 \\ h(z) = \frac{z^2}{4000} - \cos \left( \frac{z}{\sqrt{1}} \right) + 1$'''
 
     def _evaluate(self, x):
-        x1 = 100.0 * (x[1:] - x[:-1] ** 2.0) ** 2.0 + (1 - x[:-1]) ** 2.0
-        x2 = x1 * x1 / 4000.0 - np.cos(x1 / np.sqrt(np.arange(1, self.dimension)))
+        x_next = np.roll(x, -1)
+        x1 = 100.0 * (x ** 2.0 - x_next) ** 2.0 + (x - 1) ** 2.0
+        x2 = x1 * x1 / 4000.0 - np.cos(x1) + 1.0
         return np.sum(x2)
-- 
2.43.0


From bb9191e99d1309344ad35c6f4e2f50a328953b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:34 +0000
Subject: [PATCH 49/62] fix: Katsuura sums the distances to the nearest integer
 as documented

---
 src/niapy/problems/katsuura.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/problems/katsuura.py b/src/niapy/problems/katsuura.py
index c33afe3..b611806 100644
--- a/src/niapy/problems/katsuura.py
+++ b/src/niapy/problems/katsuura.py
@@ -69,5 +69,5 @@ class Katsuura(Problem):
     def _evaluate(self, x):
         k = np.atleast_2d(np.arange(1, 33)).T
         i = np.arange(1, self.dimension + 1)
-        inner = np.round(2 ** k * x) * (2.0 ** (-k))
+        inner = np.abs(2 ** k * x - np.round(2 ** k * x)) * (2.0 ** (-k))
         return np.prod(np.sum(inner, axis=0) * i + 1)
-- 
2.43.0


From 2dd3a80e75e427d67ccdc526b7abb58117e1c3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:34 +0000
Subject: [PATCH 50/62] fix: Levy squares the sine of its middle terms as
 documented

---
 src/niapy/problems/levy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/problems/levy.py b/src/niapy/problems/levy.py
index ce98134..3579247 100644
--- a/src/niapy/problems/levy.py
+++ b/src/niapy/problems/levy.py
@@ -72,6 +72,6 @@ class Levy(Problem):
         w = 1 + (x - 1) / 4
         term1 = np.sin(np.pi * w[0]) ** 2
         wi = w[:-1]
-        term2 = np.sum((wi - 1) ** 2 * (1 + 10 * np.sin(np.pi * wi + 1)))
+        term2 = np.sum((wi - 1) ** 2 * (1 + 10 * np.sin(np.pi * wi + 1) ** 2))
         term3 = (w[-1] - 1) ** 2 * (1 + np.sin(2 * np.pi * w[-1]) ** 2)
         return term1 + term2 + term3
-- 
2.43.0


From ca6869e663581e89e422f43c63ce360039005f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:34 +0000
Subject: [PATCH 51/62] fix: Perm sums over all pairs of power and coordinate

---
 src/niapy/problems/perm.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/niapy/problems/perm.py b/src/niapy/problems/perm.py
index 3aeeb46..f56b9b0 100644
--- a/src/niapy/problems/perm.py
+++ b/src/niapy/problems/perm.py
@@ -20,7 +20,7 @@ class Perm(Problem):
     Function:
     **Perm Function**
 
-        :math:`f(\textbf{x}) = \sum_{i = 1}^D \left( \sum_{j = 1}^D (j - \beta) \left( x_j^i - \frac{1}{j^i} \right) \right)^2`
+        :math:`f(\textbf{x}) = \sum_{i = 1}^D \left( \sum_{j = 1}^D (j + \beta) \left( x_j^i - \frac{1}{j^i} \right) \right)^2`
 
         **Input domain:**
         The function can be defined on any input domain but it is usually
@@ -31,10 +31,10 @@ class Perm(Problem):
 
     LaTeX formats:
         Inline:
-            $f(\textbf{x}) = \sum_{i = 1}^D \left( \sum_{j = 1}^D (j - \beta) \left( x_j^i - \frac{1}{j^i} \right) \right)^2$
+            $f(\textbf{x}) = \sum_{i = 1}^D \left( \sum_{j = 1}^D (j + \beta) \left( x_j^i - \frac{1}{j^i} \right) \right)^2$
 
         Equation:
-            \begin{equation} f(\textbf{x}) = \sum_{i = 1}^D \left( \sum_{j = 1}^D (j - \beta) \left( x_j^i - \frac{1}{j^i} \right) \right)^2 \end{equation}
+            \begin{equation} f(\textbf{x}) = \sum_{i = 1}^D \left( \sum_{j = 1}^D (j + \beta) \left( x_j^i - \frac{1}{j^i} \right) \right)^2 \end{equation}
 
         Domain:
             $-D \leq x_i \leq D$
@@ -67,11 +67,10 @@ class Perm(Problem):
             str: Latex code.
 
         """
-        return r'''$f(\textbf{x}) = \sum_{i = 1}^D \left( \sum_{j = 1}^D (j - \beta) \left( x_j^i - \frac{1}{j^i} \right) \right)^2$'''
+        return r'''$f(\textbf{x}) = \sum_{i = 1}^D \left( \sum_{j = 1}^D (j + \beta) \left( x_j^i - \frac{1}{j^i} \right) \right)^2$'''
 
     def _evaluate(self, x):
         ii = np.arange(1, self.dimension + 1)
-        jj = np.tile(ii, (self.dimension, 1))
-        x_matrix = np.tile(x, (self.dimension, 1))
-        inner = np.sum((jj + self.beta) * (np.power(x_matrix, ii) - np.power(1.0 / jj, ii)), axis=0)
+        powers = np.atleast_2d(ii).T
+        inner = np.sum((ii + self.beta) * (np.power(x, powers) - np.power(1.0 / ii, powers)), axis=1)
         return np.sum(inner ** 2)
-- 
2.43.0


From a4655adeba6b6658a4192bec7efdee50e5fdba3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:34 +0000
Subject: [PATCH 52/62] fix: modified Schwefel selects its branch by the
 shifted coordinate

---
 src/niapy/problems/schwefel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/problems/schwefel.py b/src/niapy/problems/schwefel.py
index 6e59860..fdd593e 100644
--- a/src/niapy/problems/schwefel.py
+++ b/src/niapy/problems/schwefel.py
@@ -262,8 +262,8 @@ class ModifiedSchwefel(Problem):
 
     def _evaluate(self, x):
         xx = x + 420.9687462275036
-        conditions = [x > 500.0, x < -500.0]
-        xx_mod = np.fmod(xx, 500.0)
+        conditions = [xx > 500.0, xx < -500.0]
+        xx_mod = np.fmod(np.abs(xx), 500.0)
         choices = [(500.0 - xx_mod) * np.sin(np.sqrt(np.abs(500.0 - xx_mod))) - (xx - 500.0) ** 2 / (10000 * self.dimension),
                    (xx_mod - 500.0) * np.sin(np.sqrt(np.abs(xx_mod - 500.0))) + (xx - 500.0) ** 2 / (10000 * self.dimension)]
         default = xx * np.sin(np.sqrt(np.abs(xx)))
-- 
2.43.0


From 2d2158c0c796356dd96a8e90eba7a195eba84f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:36 +0000
Subject: [PATCH 53/62] fix: every exported algorithm can be built by its name

---
 src/niapy/util/factory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/niapy/util/factory.py b/src/niapy/util/factory.py
index 8b6f4eb..528dcc4 100644
--- a/src/niapy/util/factory.py
+++ b/src/niapy/util/factory.py
@@ -141,6 +141,7 @@ def _algorithm_options():
         "DynamicFireworksAlgorithmGauss": basic_algorithms.DynamicFireworksAlgorithmGauss,
         "GravitationalSearchAlgorithm": basic_algorithms.GravitationalSearchAlgorithm,
         "MothFlameOptimizer": basic_algorithms.MothFlameOptimizer,
+        "MantisSearchAlgorithm": basic_algorithms.MantisSearchAlgorithm,
         "FishSchoolSearch": basic_algorithms.FishSchoolSearch,
         "CuckooSearch": basic_algorithms.CuckooSearch,
         "CoralReefsOptimization": basic_algorithms.CoralReefsOptimization,
@@ -169,6 +170,7 @@ def _algorithm_options():
         "MultiStrategySelfAdaptiveDifferentialEvolution": modified_algorithms.MultiStrategySelfAdaptiveDifferentialEvolution,
         "SuccessHistoryAdaptiveDifferentialEvolution": modified_algorithms.SuccessHistoryAdaptiveDifferentialEvolution,
         "LpsrSuccessHistoryAdaptiveDifferentialEvolution": modified_algorithms.LpsrSuccessHistoryAdaptiveDifferentialEvolution,
+        "ImprovedLpsrSuccessHistoryAdaptiveDifferentialEvolution": modified_algorithms.ImprovedLpsrSuccessHistoryAdaptiveDifferentialEvolution,
         "NelderMeadMethod": other_algorithms.NelderMeadMethod,
         "HillClimbAlgorithm": other_algorithms.HillClimbAlgorithm,
         "SimulatedAnnealing": other_algorithms.SimulatedAnnealing,
-- 
2.43.0


From 7e137a7cb0e911799b94e110198f8b29d820f888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:36 +0000
Subject: [PATCH 54/62] fix: Runner runs a single algorithm or problem, as its
 defaults are

---
 src/niapy/runner.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/niapy/runner.py b/src/niapy/runner.py
index 0cd3319..b92b0d7 100644
--- a/src/niapy/runner.py
+++ b/src/niapy/runner.py
@@ -9,6 +9,7 @@ import os
 import pandas as pd
 
 from niapy.algorithms.algorithm import Algorithm
+from niapy.problems import Problem
 from niapy.task import Task
 from niapy.util.factory import get_algorithm
 
@@ -49,8 +50,8 @@ class Runner:
         self.dimension = dimension
         self.max_evals = max_evals
         self.runs = runs
-        self.algorithms = algorithms
-        self.problems = problems
+        self.algorithms = [algorithms] if isinstance(algorithms, (str, Algorithm)) else algorithms
+        self.problems = [problems] if isinstance(problems, (str, Problem)) else problems
         self.results = {}
 
     def task_factory(self, name):
-- 
2.43.0


From 57479835c84136a5398f27c1b6a1cb0df70d1f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:25 +0000
Subject: [PATCH 55/62] fix: set_parameters takes the parameters get_parameters
 reports

---
 src/niapy/algorithms/basic/abc.py | 5 +++--
 src/niapy/algorithms/basic/ca.py  | 2 +-
 src/niapy/algorithms/basic/de.py  | 4 ++--
 src/niapy/algorithms/basic/es.py  | 2 +-
 src/niapy/algorithms/basic/loa.py | 2 +-
 5 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/niapy/algorithms/basic/abc.py b/src/niapy/algorithms/basic/abc.py
index 47174b9..11981af 100644
--- a/src/niapy/algorithms/basic/abc.py
+++ b/src/niapy/algorithms/basic/abc.py
@@ -99,8 +99,9 @@ class ArtificialBeeColonyAlgorithm(Algorithm):
             * :func:`niapy.algorithms.Algorithm.set_parameters`
 
         """
-        super().set_parameters(population_size=population_size, initialization_function=default_individual_init,
-                               individual_type=SolutionABC, **kwargs)
+        super().set_parameters(population_size=population_size,
+                               initialization_function=kwargs.pop('initialization_function', default_individual_init),
+                               individual_type=kwargs.pop('individual_type', SolutionABC), **kwargs)
         self.food_number = self.population_size // 2
         self.limit = limit
 
diff --git a/src/niapy/algorithms/basic/ca.py b/src/niapy/algorithms/basic/ca.py
index 6825c77..d9ef9e9 100644
--- a/src/niapy/algorithms/basic/ca.py
+++ b/src/niapy/algorithms/basic/ca.py
@@ -236,7 +236,7 @@ class CamelAlgorithm(Algorithm):
             * :func:`niapy.algorithms.Algorithm.set_parameters`
 
         """
-        super().set_parameters(population_size=population_size, individual_type=Camel,
+        super().set_parameters(population_size=population_size, individual_type=kwargs.pop('individual_type', Camel),
                                initialization_function=kwargs.pop('initialization_function', self.init_pop), **kwargs)
         self.burden_factor = burden_factor
         self.death_rate = death_rate
diff --git a/src/niapy/algorithms/basic/de.py b/src/niapy/algorithms/basic/de.py
index e4745f2..1b2d7ff 100644
--- a/src/niapy/algorithms/basic/de.py
+++ b/src/niapy/algorithms/basic/de.py
@@ -690,7 +690,7 @@ class AgingNpDifferentialEvolution(DifferentialEvolution):
             * :func:`niapy.algorithms.basic.DifferentialEvolution.set_parameters`
 
         """
-        super().set_parameters(individual_type=AgingIndividual, **kwargs)
+        super().set_parameters(individual_type=kwargs.pop('individual_type', AgingIndividual), **kwargs)
         self.min_lifetime = min_lifetime
         self.max_lifetime = max_lifetime
         self.age = age
@@ -924,7 +924,7 @@ class MultiStrategyDifferentialEvolution(DifferentialEvolution):
             * :func:`niapy.algorithms.basic.DifferentialEvolution.set_parameters`
 
         """
-        super().set_parameters(strategy=multi_mutations, **kwargs)
+        super().set_parameters(strategy=kwargs.pop('strategy', multi_mutations), **kwargs)
         self.strategies = strategies
 
     def get_parameters(self):
diff --git a/src/niapy/algorithms/basic/es.py b/src/niapy/algorithms/basic/es.py
index c17a493..1fef63e 100644
--- a/src/niapy/algorithms/basic/es.py
+++ b/src/niapy/algorithms/basic/es.py
@@ -350,7 +350,7 @@ class EvolutionStrategyMpL(EvolutionStrategy1p1):
             * :func:`niapy.algorithms.basic.es.EvolutionStrategy1p1.set_parameters`
 
         """
-        super().set_parameters(initialization_function=default_individual_init, **kwargs)
+        super().set_parameters(initialization_function=kwargs.pop('initialization_function', default_individual_init), **kwargs)
         self.lam = lam
 
     def get_parameters(self):
diff --git a/src/niapy/algorithms/basic/loa.py b/src/niapy/algorithms/basic/loa.py
index caa03c1..a254fe9 100644
--- a/src/niapy/algorithms/basic/loa.py
+++ b/src/niapy/algorithms/basic/loa.py
@@ -217,7 +217,7 @@ class LionOptimizationAlgorithm(Algorithm):
         super().set_parameters(
             population_size,
             *args,
-            individual_type=Lion,
+            individual_type=kwargs.pop("individual_type", Lion),
             initialization_function=kwargs.pop(
                 "initialization_function", default_individual_init
             ),
-- 
2.43.0


From ba7c4bebaae85dd59e31084e268152de1fa765f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:55 +0000
Subject: [PATCH 56/62] fix: mantis search evaluated its initial population
 twice and returned it in normalized coordinates

---
 src/niapy/algorithms/basic/mshoa.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/niapy/algorithms/basic/mshoa.py b/src/niapy/algorithms/basic/mshoa.py
index 6c35dbf..748fbd5 100644
--- a/src/niapy/algorithms/basic/mshoa.py
+++ b/src/niapy/algorithms/basic/mshoa.py
@@ -289,15 +289,6 @@ class MantisSearchAlgorithm(Algorithm):
         """
         pop, fpop, d = super().init_population(task)
 
-        # Optional normalization: convert to normalized space if enabled
-        if self.normalize_space:
-            pop = self._normalize_from_real(pop, task.lower, task.upper)
-            # Convert back to real space for initial evaluation
-            pop_real = self._normalize_to_real(pop, task.lower, task.upper)
-            fpop = np.apply_along_axis(task.eval, 1, pop_real)
-        else:
-            fpop = np.apply_along_axis(task.eval, 1, pop)
-
         # Initialize PTI vector: round(1 + 2 * rand) gives values {1, 2, 3}
         pti = np.round(1 + 2 * self.random(self.population_size)).astype(int)
         d['pti'] = pti
-- 
2.43.0


From 35af8f9bbbcc3c2e4069373cebbef40af19fa9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:03 +0000
Subject: [PATCH 57/62] fix: mantis search evaluated points outside the bounds
 in normalized space

---
 src/niapy/algorithms/basic/mshoa.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/mshoa.py b/src/niapy/algorithms/basic/mshoa.py
index 748fbd5..e79f4e0 100644
--- a/src/niapy/algorithms/basic/mshoa.py
+++ b/src/niapy/algorithms/basic/mshoa.py
@@ -177,7 +177,7 @@ class MantisSearchAlgorithm(Algorithm):
             numpy.ndarray: Position in real search space.
 
         """
-        return lower + (z_normalized + 1.0) * 0.5 * (upper - lower)
+        return np.clip(lower + (z_normalized + 1.0) * 0.5 * (upper - lower), lower, upper)
 
     def _normalize_from_real(self, x_real, lower, upper):
         r"""Convert real search space [lower, upper] to normalized space [-1, 1].
@@ -408,8 +408,12 @@ class MantisSearchAlgorithm(Algorithm):
             for i in range(self.population_size):
                 pop_new[i] = self._reflect_repair(pop_new[i], lower_work, upper_work)
         else:
-            # Standard repair
+            # Standard repair in the real space
+            if self.normalize_space:
+                pop_new = task.lower + (pop_new + 1.0) * 0.5 * task.range
             pop_new = np.apply_along_axis(task.repair, 1, pop_new, rng=self.rng)
+            if self.normalize_space:
+                pop_new = self._normalize_from_real(pop_new, task.lower, task.upper)
 
         # Convert to real space for evaluation if normalization is enabled
         if self.normalize_space:
-- 
2.43.0


From c91e7c6beb8bfd495fc903ebee91917e60789565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:22 +0000
Subject: [PATCH 58/62] fix: Michalewicz and Stepint document their own
 formulas

---
 src/niapy/problems/michalewicz.py |  4 ++--
 src/niapy/problems/stepint.py     | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/niapy/problems/michalewicz.py b/src/niapy/problems/michalewicz.py
index ecb088a..ce25208 100644
--- a/src/niapy/problems/michalewicz.py
+++ b/src/niapy/problems/michalewicz.py
@@ -18,9 +18,9 @@ class Michalewicz(Problem):
     License: MIT
 
     Function:
-    **High Conditioned Elliptic Function**
+    **Michalewicz Function**
 
-        :math:`f(\textbf{x}) = \sum_{i=1}^D \left( 10^6 \right)^{ \frac{i - 1}{D - 1} } x_i^2`
+        :math:`f(\textbf{x}) = - \sum_{i = 1}^{D} \sin(x_i) \sin\left( \frac{ix_i^2}{\pi} \right)^{2m}`
 
         **Input domain:**
         The function can be defined on any input domain but it is usually
diff --git a/src/niapy/problems/stepint.py b/src/niapy/problems/stepint.py
index b58bfb3..b9ce17b 100644
--- a/src/niapy/problems/stepint.py
+++ b/src/niapy/problems/stepint.py
@@ -19,23 +19,23 @@ class Stepint(Problem):
 
     Function: **Stepint function**
 
-        :math:`f(\mathbf{x}) = \sum_{i=1}^D x_i^2`
+        :math:`f(\mathbf{x}) = 25 + \sum_{i=1}^D \lfloor x_i \rfloor`
 
         **Input domain:**
         The function can be defined on any input domain but it is usually
         evaluated on the hypercube :math:`x_i ∈ [-5.12, 5.12]`, for all :math:`i = 1, 2,..., D`.
 
-        **Global minimum:** :math:`f(x^*) = 0`, at :math:`x^* = (-5.12,...,-5.12)`
+        **Global minimum:** :math:`f(x^*) = 25 - 6D`, at :math:`x^* = (-5.12,...,-5.12)`
 
     LaTeX formats:
         Inline:
-            $f(\mathbf{x}) = \sum_{i=1}^D x_i^2$
+            $f(\mathbf{x}) = 25 + \sum_{i=1}^D \lfloor x_i \rfloor$
 
         Equation:
-            \begin{equation}f(\mathbf{x}) = \sum_{i=1}^D x_i^2 \end{equation}
+            \begin{equation}f(\mathbf{x}) = 25 + \sum_{i=1}^D \lfloor x_i \rfloor \end{equation}
 
         Domain:
-            $0 \leq x_i \leq 10$
+            $-5.12 \leq x_i \leq 5.12$
 
     Reference paper:
         Jamil, M., and Yang, X. S. (2013).
@@ -67,7 +67,7 @@ class Stepint(Problem):
             str: Latex code.
 
         """
-        return r'''$f(\mathbf{x}) = \sum_{i=1}^D x_i^2$'''
+        return r'''$f(\mathbf{x}) = 25 + \sum_{i=1}^D \lfloor x_i \rfloor$'''
 
     def _evaluate(self, x):
         return 25.0 + np.sum(np.floor(x))
-- 
2.43.0


From aaf300c3926b0fa9d34e42dc1244dce69292e020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:59 +0000
Subject: [PATCH 59/62] fix: artificial bee colony with one food source never
 ended

---
 src/niapy/algorithms/basic/abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/abc.py b/src/niapy/algorithms/basic/abc.py
index 11981af..3f5462f 100644
--- a/src/niapy/algorithms/basic/abc.py
+++ b/src/niapy/algorithms/basic/abc.py
@@ -200,7 +200,7 @@ class ArtificialBeeColonyAlgorithm(Algorithm):
                 solution = copy.deepcopy(population[s])
                 param2change = int(self.random() * task.dimension)
                 neighbor = int(self.food_number * self.random())
-                while neighbor == s:
+                while neighbor == s and self.food_number > 1:
                     neighbor = int(self.food_number * self.random())
                 solution.x[param2change] = population[s].x[param2change] + self.uniform(-1, 1) * (
                         population[s].x[param2change] - population[neighbor].x[param2change])
-- 
2.43.0


From 359dcbf0c88a9f55630745ba8c8005c45402ff66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:15 +0000
Subject: [PATCH 60/62] fix: aging of equally good individuals divided by zero

---
 src/niapy/algorithms/basic/de.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/de.py b/src/niapy/algorithms/basic/de.py
index 1b2d7ff..d936f3e 100644
--- a/src/niapy/algorithms/basic/de.py
+++ b/src/niapy/algorithms/basic/de.py
@@ -745,12 +745,12 @@ class AgingNpDifferentialEvolution(DifferentialEvolution):
 
         """
         fpop = np.asarray([x.f for x in pop])
-        x_b, x_w = pop[np.argmin(fpop)], pop[np.argmax(fpop)]
+        f_best, f_worst = np.min(fpop), np.max(fpop)
         avg = np.mean(fpop[np.isfinite(fpop)])
         new_population = []
         for x in pop:
             x.age += 1
-            lifetime = self.age(min_lifetime=self.min_lifetime, max_lifetime=self.max_lifetime, mu=self.mu, x_f=x.f, avg=avg, x_gw=x_w.f, x_gb=x_b.f)
+            lifetime = self.age(min_lifetime=self.min_lifetime, max_lifetime=self.max_lifetime, mu=self.mu, x_f=x.f, avg=avg, x_gw=f_worst, x_gb=f_best)
             if np.isnan(lifetime):  # all individuals are equally good
                 lifetime = self.max_lifetime
             if x.age <= np.round(lifetime):
-- 
2.43.0


From 598dc7aaf4c63f5b42e4b73420e64f9aa193e4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:55 +0000
Subject: [PATCH 61/62] fix: reflect could round to a point outside the bounds

---
 src/niapy/util/repair.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/util/repair.py b/src/niapy/util/repair.py
index 69e4cc4..f366b2e 100644
--- a/src/niapy/util/repair.py
+++ b/src/niapy/util/repair.py
@@ -96,4 +96,4 @@ def reflect(x, lower, upper, **_kwargs):
     x[ir] = lower[ir] + x[ir] % (upper[ir] - lower[ir])
     ir = np.where(x < lower)
     x[ir] = lower[ir] + x[ir] % (upper[ir] - lower[ir])
-    return x
+    return np.clip(x, lower, upper, out=x)
-- 
2.43.0


From 3640280faffc4760a4389fb2b53f012752e1d36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:49 +0000
Subject: [PATCH 62/62] fix: harmony search ignored what the repair function
 returned

---
 src/niapy/algorithms/basic/hs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/hs.py b/src/niapy/algorithms/basic/hs.py
index 41d1834..02e5617 100644
--- a/src/niapy/algorithms/basic/hs.py
+++ b/src/niapy/algorithms/basic/hs.py
@@ -162,8 +162,8 @@ class HarmonySearch(Algorithm):
                 5. Additional arguments.
 
         """
-        harmony = self.improvise(population, task)
-        harmony_fitness = task.eval(task.repair(harmony, self.rng))
+        harmony = task.repair(self.improvise(population, task), self.rng)
+        harmony_fitness = task.eval(harmony)
         iw = np.argmax(population_fitness)
         if harmony_fitness <= population_fitness[iw]:
             population[iw], population_fitness[iw] = harmony, harmony_fitness
-- 
2.43.0

