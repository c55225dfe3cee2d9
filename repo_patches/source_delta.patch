From 8fc7d01b8d5df6d614ec9db3dacc2840e6260cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:18 +0000
Subject: [PATCH 1/8] fix: only consider a threshold at the first row of each
 feature value

The previous value was never updated, so the loss of a threshold was also
evaluated in the middle of a run of equal values, a split the partition
cannot make, and could win with a loss the split does not achieve.
---
 .../threshold_finders/threshold_finder_variance.rs          | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/multi-target-decision-tree/src/split_finders/threshold_finders/threshold_finder_variance.rs b/multi-target-decision-tree/src/split_finders/threshold_finders/threshold_finder_variance.rs
index 2c256c9..f031ac2 100644
--- a/multi-target-decision-tree/src/split_finders/threshold_finders/threshold_finder_variance.rs
+++ b/multi-target-decision-tree/src/split_finders/threshold_finders/threshold_finder_variance.rs
@@ -46,7 +46,7 @@ pub(super) fn determine_best_threshold(
     };
 
     let sorted_feature_data = get_sorted_feature_tuple_vector(feature_column);
-    let previous_feature_val = sorted_feature_data[0].0;
+    let mut previous_feature_val = sorted_feature_data[0].0;
     sorted_feature_data.iter().for_each(|tuple| {
         let feature_value = tuple.0 as f64;
 
@@ -77,6 +77,7 @@ pub(super) fn determine_best_threshold(
                 best_result_container.threshold_value = feature_value;
             }
         }
+        previous_feature_val = feature_value;
 
         let real_row_index = tuple.1;
         let label_vector = &labels[real_row_index];
@@ -123,7 +124,7 @@ pub(super) fn determine_best_threshold_new(
     };
 
     let sorted_feature_data = feature_column;
-    let previous_feature_val = sorted_feature_data[0].0;
+    let mut previous_feature_val = sorted_feature_data[0].0;
     sorted_feature_data.iter().for_each(|tuple| {
         let feature_value = tuple.0 as f64;
 
@@ -154,6 +155,7 @@ pub(super) fn determine_best_threshold_new(
                 best_result_container.threshold_value = feature_value;
             }
         }
+        previous_feature_val = feature_value;
 
         let real_row_index = tuple.1;
         let label_vector = &all_labels[real_row_index];
-- 
2.43.0


From bbc402080a9394c3f0cb253e36ab1d58287ee75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:18 +0000
Subject: [PATCH 2/8] fix: keep multi-class leaf outputs finite when every
 residual is 0 or 1

The denominator is then zero and the leaf output became NaN or infinite,
which poisoned every later round. Such a leaf now contributes nothing.
---
 .../tree_builders/grad_boost/grad_boost_leaf_output.rs     | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/multi-target-decision-tree/src/tree/tree_builders/grad_boost/grad_boost_leaf_output.rs b/multi-target-decision-tree/src/tree/tree_builders/grad_boost/grad_boost_leaf_output.rs
index 6db81b8..6437814 100644
--- a/multi-target-decision-tree/src/tree/tree_builders/grad_boost/grad_boost_leaf_output.rs
+++ b/multi-target-decision-tree/src/tree/tree_builders/grad_boost/grad_boost_leaf_output.rs
@@ -39,7 +39,12 @@ pub fn calculate_leaf_output_squared_loss(leaf_data: &MultiTargetDataSet) -> Vec
 pub fn calculate_leaf_output_multi_class_loss(leaf_data: &MultiTargetDataSet) -> Vec<f64> {
     let numerator = sum_of_f64_vectors(&leaf_data.labels);
     let denominator = calculate_denominator_term_for_leaf_output(&leaf_data.labels);
-    let numerator_over_denominator = divide_f64_slices_as_vector(&numerator, &denominator);
+    let mut numerator_over_denominator = divide_f64_slices_as_vector(&numerator, &denominator);
+    denominator
+        .iter()
+        .zip(numerator_over_denominator.iter_mut())
+        .filter(|(term, _)| term.abs() < 1e-150)
+        .for_each(|(_, output)| *output = 0.);
     let number_of_classes = leaf_data.labels[0].len() as f64;
     let scalar = (number_of_classes - 1.) / number_of_classes;
     let result = multiply_f64_slice_by_f64_scalar(scalar, &numerator_over_denominator);
-- 
2.43.0


From 9c46206cc0c554b050a9c52333a9cce1aefca457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:18 +0000
Subject: [PATCH 3/8] fix: compute class probabilities without overflowing the
 exponential

A prediction above about 709 made the probabilities, the residuals and every
later round NaN.
---
 .../common_multi_class_boosting_functions.rs           | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/multi-target-grad-boost/src/ensembles/MultiClassBoosting/common_multi_class_boosting_functions.rs b/multi-target-grad-boost/src/ensembles/MultiClassBoosting/common_multi_class_boosting_functions.rs
index a0306c4..7df3f13 100644
--- a/multi-target-grad-boost/src/ensembles/MultiClassBoosting/common_multi_class_boosting_functions.rs
+++ b/multi-target-grad-boost/src/ensembles/MultiClassBoosting/common_multi_class_boosting_functions.rs
@@ -59,8 +59,14 @@ pub mod executor_helper_functions {
 
     //current label ~ current prediction
     fn calculate_probabilities_of_predictions(current_label: &Vec<f64>) -> Vec<f64> {
-        let exponential_of_current_data_label: Vec<f64> =
-            current_label.iter().map(|element| element.exp()).collect();
+        //shift by the largest prediction so that no exponential overflows
+        let largest_prediction = current_label
+            .iter()
+            .fold(f64::NEG_INFINITY, |largest, element| largest.max(*element));
+        let exponential_of_current_data_label: Vec<f64> = current_label
+            .iter()
+            .map(|element| (element - largest_prediction).exp())
+            .collect();
         let sum_of_exponentials_of_predictions: f64 =
             exponential_of_current_data_label.iter().sum();
         let probabilties = multiply_f64_slice_by_f64_scalar(
-- 
2.43.0


From 30ba6eee9dbbedd86c0befe95dfd45577e82fbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:18 +0000
Subject: [PATCH 4/8] fix: refuse a feature file and a label file of different
 lengths

The rows were paired up to the end of the shorter file and the mismatch went
unnoticed or surfaced later as an index out of bounds.
---
 common/src/data_reader.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/common/src/data_reader.rs b/common/src/data_reader.rs
index a635f57..610ad8a 100644
--- a/common/src/data_reader.rs
+++ b/common/src/data_reader.rs
@@ -41,6 +41,13 @@ pub fn read_csv_data_multi_target(
 ) -> MultiTargetDataSet {
     let data_set_features = read_data(file_path_to_features).unwrap();
     let data_set_labels = read_data(file_path_to_labels).unwrap();
+    assert_eq!(
+        data_set_features.len(),
+        data_set_labels.len(),
+        "{} and {} hold different numbers of rows",
+        file_path_to_features,
+        file_path_to_labels
+    );
 
     let columns = create_feature_columns(&data_set_features);
 
-- 
2.43.0


From f84b6d5764dde490728f5127a1e858769dcac33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:18 +0000
Subject: [PATCH 5/8] fix: refuse labels that are not class numbers when
 one-hot encoding

The cast to an index silently turned negative and NaN labels into class 0 and
truncated fractional ones.
---
 common/src/data_reader.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/common/src/data_reader.rs b/common/src/data_reader.rs
index 610ad8a..801af3e 100644
--- a/common/src/data_reader.rs
+++ b/common/src/data_reader.rs
@@ -103,6 +103,11 @@ fn parse_data_into_features_and_labels(data_set: Vec<Vec<f64>>) -> SingleTargetD
 fn create_multi_target_labels(labels: Vec<f64>, number_of_targets: usize) -> Vec<Vec<f64>> {
     let mut multi_target_labels = vec![];
     labels.iter().for_each(|label| {
+        assert!(
+            *label >= 0. && label.fract() == 0.,
+            "{} is not a class label",
+            label
+        );
         let mut multi_target = vec![0.; number_of_targets];
         multi_target[*label as usize] = 1.;
         multi_target_labels.push(multi_target);
-- 
2.43.0


From 95bf9b8c78057304be8e5083920668e32a634c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:18 +0000
Subject: [PATCH 6/8] fix: partition pre-sorted data correctly when no row
 reaches the split value

The first row of the true side defaulted to row 0, so every row ended up on
both sides.
---
 common/src/data_processor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/data_processor.rs b/common/src/data_processor.rs
index abe2844..1ff4e76 100644
--- a/common/src/data_processor.rs
+++ b/common/src/data_processor.rs
@@ -68,7 +68,7 @@ fn collect_indices_for_partitioning(
     let mut false_indices = vec![0; all_labels_size];
     let sorted_feature_column_split_on = &dataset.sorted_feature_columns[split_column];
 
-    let mut first_encounter_index = 0;
+    let mut first_encounter_index = sorted_feature_column_split_on.len();
     for i in 0..sorted_feature_column_split_on.len() {
         let feature_value_index_pair = sorted_feature_column_split_on[i];
         let value = feature_value_index_pair.0;
-- 
2.43.0


From ae7daa4a9a3d9959b57bb0b616469bd816dbcc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:22 +0000
Subject: [PATCH 7/8] fix: report a read error in the header row instead of
 loading no rows

The csv reader's deserialize() ignores an error while it reads the header and
then reports the end of the file, so a failed read returned an empty data set.
---
 common/src/data_reader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/common/src/data_reader.rs b/common/src/data_reader.rs
index 801af3e..d913119 100644
--- a/common/src/data_reader.rs
+++ b/common/src/data_reader.rs
@@ -81,6 +81,8 @@ fn read_data(file_path: &str) -> Result<Vec<Vec<f64>>, Box<dyn Error>> {
     let file = File::open(file_path).expect(&error_msg);
     let mut data = vec![];
     let mut reader = csv::Reader::from_reader(file);
+    //deserialize() alone swallows a failed read of the header and yields no rows
+    reader.byte_headers()?;
     for result in reader.deserialize() {
         let record: Vec<f64> = result?;
         data.push(record);
-- 
2.43.0


From 3d5ed7f2cabb12afc487c569c472119a85380d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:46 +0000
Subject: [PATCH 8/8] fix: partition a data set when every row falls on one
 side

---
 .../src/utils/data_partitioner.rs                    | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/multi-target-decision-tree/src/utils/data_partitioner.rs b/multi-target-decision-tree/src/utils/data_partitioner.rs
index 97cc07b..7a54fca 100644
--- a/multi-target-decision-tree/src/utils/data_partitioner.rs
+++ b/multi-target-decision-tree/src/utils/data_partitioner.rs
@@ -26,8 +26,9 @@ pub fn partition(
             }
         });
 
-    let false_columns = create_feature_columns(&false_rows);
-    let true_columns = create_feature_columns(&true_rows);
+    let number_of_columns = data.feature_columns.len();
+    let false_columns = create_columns_of_side(&false_rows, number_of_columns);
+    let true_columns = create_columns_of_side(&true_rows, number_of_columns);
 
     let false_data = MultiTargetDataSet {
         feature_rows: false_rows,
@@ -43,3 +44,10 @@ pub fn partition(
 
     (false_data, true_data)
 }
+
+fn create_columns_of_side(rows: &Vec<Vec<f64>>, number_of_columns: usize) -> Vec<Vec<f64>> {
+    if rows.is_empty() {
+        return vec![vec![]; number_of_columns];
+    }
+    create_feature_columns(rows)
+}
-- 
2.43.0

