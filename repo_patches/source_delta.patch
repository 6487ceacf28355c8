From 46ee2b3b0563bf43a00486d1458c50d14b08d3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 1/7] fix: keep the offspring bred for a single open place

---
 src/algorithms.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/algorithms.rs b/src/algorithms.rs
index bea0880..a25ecdd 100644
--- a/src/algorithms.rs
+++ b/src/algorithms.rs
@@ -219,8 +219,10 @@ pub trait EvolutionAlgorithm<M: EvolutionModel> {
             0 => {}
             1 => {
                 let mut rng = rng_pool.pull(M::rng);
-                self.model()
-                    .breed(population, breeding_parameters, &mut *rng);
+                offspring.push(
+                    self.model()
+                        .breed(population, breeding_parameters, &mut *rng),
+                );
             }
             size => {
                 offspring.par_extend(rayon::iter::repeatn(self.model(), size).map_init(
-- 
2.43.0


From f0a48dea705e7139ecd1616c276347b96582f581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 2/7] fix: adaptive rates are never NaN without reference
 diversity

---
 src/algorithms/aga.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/aga.rs b/src/algorithms/aga.rs
index 17464f7..d84c092 100644
--- a/src/algorithms/aga.rs
+++ b/src/algorithms/aga.rs
@@ -203,7 +203,10 @@ impl<M: EvolutionModel> EvolutionAlgorithm<M> for AdaptiveGeneticAlgorithm<M> {
                 self.breeding.mutation_rate = self.mutation_rate_range.start;
             }
             n if self.adjustment_interval != 0 && n % self.adjustment_interval == 0 => {
-                let diversity = (population.stats().std() / self.reference_std).clamp(0.0, 1.0);
+                // The ratio is NaN when both deviations are zero or infinite; that is no diversity
+                let diversity = (population.stats().std() / self.reference_std)
+                    .max(0.0)
+                    .min(1.0);
 
                 self.breeding.crossover_rate = interpolate_f64(
                     self.crossover_rate_range.start,
-- 
2.43.0


From 2c13ea2131a464da1e7ae550cba9fa9ad291ba4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 3/7] fix: drop equal individuals that are separated by others
 of the same fitness

---
 src/population.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/population.rs b/src/population.rs
index d96fb99..5ec9816 100644
--- a/src/population.rs
+++ b/src/population.rs
@@ -129,7 +129,19 @@ impl<I: Individual> From<Population<I>> for Vec<I> {
 #[inline]
 fn sort_dedup_and_collect_stats<I: Individual>(individuals: &mut Vec<I>) -> PopulatedStats {
     individuals.par_sort_unstable_by(compare_fitness);
-    individuals.dedup();
+    // Equal individuals have equal fitness but need not be adjacent
+    let mut run_start = 0;
+    let mut kept = 0;
+    for i in 0..individuals.len() {
+        if kept != 0 && compare_fitness(&individuals[kept - 1], &individuals[i]).is_ne() {
+            run_start = kept;
+        }
+        if !individuals[run_start..kept].contains(&individuals[i]) {
+            individuals.swap(kept, i);
+            kept += 1;
+        }
+    }
+    individuals.truncate(kept);
     individuals
         .iter()
         .map(|i| i.fitness())
-- 
2.43.0


From 6120db179c73496c24f1b1b3abe1a6e14af49d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 4/7] fix: linear selection never reaches below the first
 position

---
 src/operators/selection.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/operators/selection.rs b/src/operators/selection.rs
index abdaa27..2aca133 100644
--- a/src/operators/selection.rs
+++ b/src/operators/selection.rs
@@ -465,12 +465,14 @@ where
     #[inline]
     fn select<'a>(&self, population: &'a Population<I>, rng: &mut R) -> (usize, &'a I) {
         let index = population.len()
-            - ((population.len() as f64)
+            - (((population.len() as f64)
                 * (self.bias
                     - ((self.bias * self.bias - 4.0 * (self.bias - 1.0) * rng.gen::<f64>())
                         .sqrt()))
                 / 2.0
-                / (self.bias - 1.0)) as usize
+                / (self.bias - 1.0)) as usize)
+                // rounding (or a bias outside [1, 2]) can carry the offset beyond the first position
+                .min(population.len() - 1)
             - 1;
         (index, &population[index])
     }
-- 
2.43.0


From 110c63c18594420f91569ff57650e2fd80b533f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 5/7] fix: order crossover fills the whole genome when the
 range is empty

---
 src/operators/crossover.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/operators/crossover.rs b/src/operators/crossover.rs
index ef05a53..7e31fa2 100644
--- a/src/operators/crossover.rs
+++ b/src/operators/crossover.rs
@@ -501,9 +501,11 @@ where
     // the relative order of genes from parent1
     let mut index1 = if p2 != n { p2 } else { 0 };
     let mut index2 = index1;
-    while index1 != p1 {
+    let mut remaining = n - (p2 - p1);
+    while remaining != 0 {
         if !genome[p1..p2].contains(&parent2[index2]) {
             genome[index1] = parent2[index2];
+            remaining -= 1;
             index1 += 1;
             if index1 == n {
                 index1 = 0;
-- 
2.43.0


From 5499d1e1a3d566a94e92149a15e72f82ce3f56f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 6/7] fix: the partition crossover strategy rejects parents of
 different lengths

---
 src/operators/crossover.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/operators/crossover.rs b/src/operators/crossover.rs
index 7e31fa2..763f2a4 100644
--- a/src/operators/crossover.rs
+++ b/src/operators/crossover.rs
@@ -73,6 +73,7 @@ impl CrossoverStrategy {
     ) -> Vec<G> {
         match self {
             Self::GeneralizedPartition2 => {
+                assert!(parent1.len() == parent2.len());
                 generalized_partition_2_crossover(parent1, parent2, |_, partitions| {
                     rng.gen_range(0..partitions.len())
                 })
-- 
2.43.0


From 0cd4353df498489a861f776b982c44fe1c5ab15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 7/7] fix: genomes of two genes have common neighbours

---
 src/operators.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators.rs b/src/operators.rs
index 2c09bc9..86c89ae 100644
--- a/src/operators.rs
+++ b/src/operators.rs
@@ -137,7 +137,7 @@ pub fn common_neighbors<G>(genome1: &[G], genome2: &[G]) -> Vec<(G, G)>
 where
     G: Copy + PartialOrd + Eq + Hash,
 {
-    if genome1.len() < 2 || genome2.len() <= 2 {
+    if genome1.len() < 2 || genome2.len() < 2 {
         return Vec::new();
     }
 
-- 
2.43.0

