From 3e082c218d3b573637d3389a1cb7a15025d79e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:09 +0000
Subject: [PATCH 1/3] fix: return point group operations in a reproducible
 order

The operations were collected from a hash set. Their order therefore
differed from run to run, even for the same group number. Sort them
before they are returned.
---
 src/pointgroup.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pointgroup.rs b/src/pointgroup.rs
index 7f6e434..7b32db2 100644
--- a/src/pointgroup.rs
+++ b/src/pointgroup.rs
@@ -75,7 +75,10 @@ impl PointGroup {
             new_ops = generated;
         }
 
-        let operations_vec: Vec<Matrix3<i8>> = Vec::from_iter(symm_ops);
+        let mut operations_vec: Vec<Matrix3<i8>> = Vec::from_iter(symm_ops);
+
+        // Set iteration order differs between runs
+        operations_vec.sort_by(|a, b| a.iter().cmp(b.iter()));
 
         operations_vec
     }
-- 
2.43.0


From d2039cc0297b05c7b581c3793af628cc385fe411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:08 +0000
Subject: [PATCH 2/3] fix: find space group generators in a reproducible order

Candidate operations and translations were collected in hash maps and
elements were visited in hash order. For noisy coordinates or loose
tolerances the translation picked for an operation, the reported group
and even whether a group was found could differ from run to run.
Keep operations and translations in the order in which they are found
and visit elements by name.
---
 src/analyzer.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/analyzer.rs b/src/analyzer.rs
index 9cb31b5..8cb2abb 100644
--- a/src/analyzer.rs
+++ b/src/analyzer.rs
@@ -11,7 +11,7 @@ use crate::structure::Structure;
 use crate::symmop::SymmOp;
 use crate::utils::{cust_eq, decode_spg_op, normalize_frac_vectors, num_negative_zero};
 use nalgebra::{Matrix3, Vector3};
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 #[derive(Debug, Clone)]
 pub struct SymmetryAnalyzer {
@@ -193,9 +193,10 @@ impl SymmetryAnalyzer {
         // 3. If the occurance number of a particular vector is equal to number of sites,
         //    choose it as canonical translation for the operation.
         // NOTE: These translations include both instrinsic translation and origin shift.
-        let mut op_trans_vecs: HashMap<Matrix3<i8>, Vec<Vector3<f64>>> = HashMap::new();
+        let mut op_trans_vecs: Vec<(Matrix3<i8>, Vec<Vector3<f64>>)> = Vec::new();
 
         let (_, ele_inds, ele_counts) = prim_structure.get_min_element();
+        let ele_inds: BTreeMap<String, u16> = ele_inds.into_iter().collect();
 
         for op in holohedry_pg.operations {
             let float_op = Matrix3::from_iterator(op.iter().map(|&x| x as f64));
@@ -219,7 +220,7 @@ impl SymmetryAnalyzer {
                 }
             }
 
-            op_trans_vecs.insert(op, translation_vectors);
+            op_trans_vecs.push((op, translation_vectors));
         }
 
         // Sort through candidate vectors and get counts
@@ -227,7 +228,7 @@ impl SymmetryAnalyzer {
         let mut matched;
 
         for (op, translation_vectors) in op_trans_vecs.iter() {
-            let mut translation_counts: HashMap<Vector3<i64>, u64> = HashMap::new();
+            let mut translation_counts: Vec<(Vector3<i64>, u64)> = Vec::new();
 
             for translation in translation_vectors.iter() {
                 let int_translation: Vector3<i64> = Vector3::from_iterator(
@@ -257,7 +258,7 @@ impl SymmetryAnalyzer {
                 }
 
                 if !matched {
-                    translation_counts.insert(int_translation, 1);
+                    translation_counts.push((int_translation, 1));
                 }
             }
 
-- 
2.43.0


From 9def0827fd0423094bbce7c480e2782c6b7bc41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:18 +0000
Subject: [PATCH 3/3] fix: try candidate space groups in a fixed order

Candidates were tried in hash order and the first match was returned.
With a loose tolerance several groups match, so the reported number
could change between runs. Try candidates by increasing number.
---
 src/analyzer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/analyzer.rs b/src/analyzer.rs
index 8cb2abb..987f7be 100644
--- a/src/analyzer.rs
+++ b/src/analyzer.rs
@@ -99,9 +99,12 @@ impl SymmetryAnalyzer {
             .get(&order)
             .expect("Could not find candidate group with the provided number of operations!");
 
+        // Several groups can match within a loose tolerance, so try them in a fixed order
+        let candidate_groups: BTreeMap<_, _> = candidate_groups.iter().collect();
+
         let mut output_data: Option<(u8, String)> = Option::None;
 
-        for (num, encoded_ops) in candidate_groups.iter() {
+        for (num, encoded_ops) in candidate_groups {
             let mut all_found = true;
             let is_a_centered = SG_NUM_TO_SYMBOL
                 .get(num)
-- 
2.43.0

