From f26653f369e8e07073e8fb344aae8bea6caab972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:33 +0000
Subject: [PATCH 1/3] fix: KNearest::add returns an infinite k-th distance
 while fewer than k pairs are held

The tree searches prune with the returned distance, so with a first leaf
smaller than k they dropped valid neighbours and returned fewer than k.
---
 src/learning/knn/mod.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/learning/knn/mod.rs b/src/learning/knn/mod.rs
index fe6d4c0..b9c1870 100644
--- a/src/learning/knn/mod.rs
+++ b/src/learning/knn/mod.rs
@@ -168,16 +168,10 @@ impl KNearest {
     }
 
     /// Add new index and distances to the container, keeping first k elements which
-    /// distances are smaller. Returns the updated farthest distance.
+    /// distances are smaller. Returns the updated k-th distance, see `dist`.
     fn add(&mut self, index: usize, distance: f64) -> f64 {
         // self.pairs can't be empty
         let len = self.pairs.len();
-        // index of the last element after the query
-        let last_index: usize = if len < self.k {
-            len
-        } else {
-            len - 1
-        };
 
         unsafe {
             if self.pairs.get_unchecked(len - 1).1 < distance {
@@ -185,7 +179,7 @@ impl KNearest {
                     // append to the last
                     self.pairs.push((index, distance));
                 }
-                self.pairs.get_unchecked(last_index).1
+                self.dist()
             } else {
                 // last element is already compared
                 if len >= self.k {
@@ -195,11 +189,11 @@ impl KNearest {
                 for i in 2..(len + 1) {
                     if self.pairs.get_unchecked(len - i).1 < distance {
                         self.pairs.insert(len - i + 1, (index, distance));
-                        return self.pairs.get_unchecked(last_index).1;
+                        return self.dist();
                     }
                 }
                 self.pairs.insert(0, (index, distance));
-                self.pairs.get_unchecked(last_index).1
+                self.dist()
             }
         }
     }
-- 
2.43.0


From 2512f664e00fa21c49b5dc400c626b5ea97bca43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:23 +0000
Subject: [PATCH 2/3] fix: k-means turns a centroid no row is closest to into
 NaN

The mean of no rows is NaN; every later distance to that centroid, and the
cost the iterations are stopped by, become NaN as well. Such a centroid
now stays where it is.
---
 src/learning/k_means.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/learning/k_means.rs b/src/learning/k_means.rs
index 398aae6..4d211d3 100644
--- a/src/learning/k_means.rs
+++ b/src/learning/k_means.rs
@@ -218,9 +218,17 @@ impl<InitAlg: Initializer> KMeansClassifier<InitAlg> {
             row_indexes.get_mut(c as usize).map(|v| v.push(i));
         }
 
-        for vec_i in row_indexes {
-            let mat_i = inputs.select_rows(&vec_i);
-            new_centroids.extend(mat_i.mean(Axes::Row).into_vec());
+        for (i, vec_i) in row_indexes.into_iter().enumerate() {
+            match self.centroids {
+                // No row is closest to this centroid: there is no mean to move it to.
+                Some(ref old) if vec_i.is_empty() => {
+                    new_centroids.extend(old.select_rows(&[i]).into_vec());
+                }
+                _ => {
+                    let mat_i = inputs.select_rows(&vec_i);
+                    new_centroids.extend(mat_i.mean(Axes::Row).into_vec());
+                }
+            }
         }
 
         self.centroids = Some(Matrix::new(self.k, inputs.cols(), new_centroids));
-- 
2.43.0


From ab6df306eb7eae0d02313fd8a880f91f4d7d45cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:00 +0000
Subject: [PATCH 3/3] fix: PCA keeps components of the wrong axis on wide data
 and stays transposed after retraining

On data with more columns than rows the components are the rows of the
matrix, but PCA::new(n, _) selected columns, so predict panicked or used
cut-off components; and the flag telling so was never reset, so a model
trained on tall data afterwards multiplied by the transpose.
---
 src/learning/pca.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/learning/pca.rs b/src/learning/pca.rs
index 743b9b7..52ed06f 100644
--- a/src/learning/pca.rs
+++ b/src/learning/pca.rs
@@ -27,6 +27,8 @@
 use linalg::{Matrix, BaseMatrix, Axes};
 use linalg::Vector;
 
+use std::cmp::min;
+
 use learning::{LearningResult, UnSupModel};
 use learning::error::{Error, ErrorKind};
 
@@ -182,15 +184,17 @@ impl UnSupModel<Matrix<f64>, Matrix<f64>> for PCA {
             inputs.clone()
         };
         let (_, _, mut v) = data.svd().unwrap();
-        if inputs.cols() > inputs.rows() {
+        self.inv = inputs.cols() > inputs.rows();
+        if self.inv {
+            // each row is a component
             v = v.transpose();
-            self.inv = true;
         }
 
         self.components = match self.n {
             Some(c) => {
-                let slicer: Vec<usize> = (0..c).collect();
-                Some(v.select_cols(&slicer))
+                // wide data has as many components as rows
+                let slicer: Vec<usize> = (0..min(c, inputs.rows())).collect();
+                Some(if self.inv { v.select_rows(&slicer) } else { v.select_cols(&slicer) })
             },
             None => Some(v)
         };
-- 
2.43.0

