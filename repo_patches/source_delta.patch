From eb8b7805f544554460e17a0096b36b56babac555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:22 +0000
Subject: [PATCH 01/16] fix: enumerate cubic interactions with a repeated
 trailing namespace once per combination

The innermost loop skipped by the index of the first feature instead of the second, so
(A,B,B) and (A,A,A) interactions dropped some triples and visited others twice.
---
 reductionml-core/src/weights.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/weights.rs b/reductionml-core/src/weights.rs
index ed44568..46f0d18 100644
--- a/reductionml-core/src/weights.rs
+++ b/reductionml-core/src/weights.rs
@@ -64,12 +64,14 @@ macro_rules! generate_foreach_feature_func {
                         let halfhash1 =
                             (FNV_PRIME as u64).wrapping_mul(u32::from(feat1.0) as u64) as u32;
                         if let Some(ns2) = features.get_namespace(*ns2) {
-                            for feat2 in ns2.iter().skip(if same_ns { i } else { 0 }) {
+                            for (j, feat2) in
+                                ns2.iter().enumerate().skip(if same_ns { i } else { 0 })
+                            {
                                 let halfhash2 = (FNV_PRIME as u64)
                                     .wrapping_mul((halfhash1 ^ u32::from(feat2.0)) as u64)
                                     as u32;
                                 if let Some(ns3) = features.get_namespace(*ns3) {
-                                    for feat3 in ns3.iter().skip(if same_ns2 { i } else { 0 }) {
+                                    for feat3 in ns3.iter().skip(if same_ns2 { j } else { 0 }) {
                                         let idx = FeatureHash::from(halfhash2 ^ u32::from(feat3.0))
                                             .mask(masker);
                                         let model_weight =
-- 
2.43.0


From f4c8b6cb51fee3459027d36c4ee66575ec17ed74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:22 +0000
Subject: [PATCH 02/16] fix: treat a namespace without features as absent when
 comparing features

Removing appended features deactivates a namespace that was present but empty, and the check that
a reduction restores its features then panicked although nothing observable to it had changed.
---
 .../src/sparse_namespaced_features.rs         | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/reductionml-core/src/sparse_namespaced_features.rs b/reductionml-core/src/sparse_namespaced_features.rs
index d9490b4..e8be07f 100644
--- a/reductionml-core/src/sparse_namespaced_features.rs
+++ b/reductionml-core/src/sparse_namespaced_features.rs
@@ -218,19 +218,12 @@ impl AbsDiffEq for SparseFeatures {
     }
 
     fn abs_diff_eq(&self, other: &Self, epsilon: Self::Epsilon) -> bool {
-        let left_ns: BTreeSet<Namespace> = self
-            .namespaces
-            .iter()
-            .filter_map(|(ns, ns_vals)| if ns_vals.is_active() { Some(ns) } else { None })
-            .cloned()
-            .collect();
-
-        let right_ns = other
-            .namespaces
-            .iter()
-            .filter_map(|(ns, ns_vals)| if ns_vals.is_active() { Some(ns) } else { None })
-            .cloned()
-            .collect();
+        // An active namespace without features is equivalent to an absent one.
+        let non_empty = |(ns, ns_vals): (&Namespace, &SparseFeaturesNamespace)| {
+            (ns_vals.is_active() && ns_vals.size() > 0).then_some(*ns)
+        };
+        let left_ns: BTreeSet<Namespace> = self.namespaces.iter().filter_map(non_empty).collect();
+        let right_ns = other.namespaces.iter().filter_map(non_empty).collect();
         if left_ns != right_ns {
             return false;
         }
-- 
2.43.0


From d599d38dbcf822f57a6635fd3c84d548f3a475a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:47 +0000
Subject: [PATCH 03/16] fix: learn the chosen action's features in mtr the way
 predict sees them

Learning panicked (todo!) for an example without shared features, and with a namespace in both the
shared and the action features it enumerated them in another order than predict, so that the
interactions of that namespace were learned under other indices than those predict reads.
---
 reductionml-core/src/reductions/cb_adf.rs | 28 +++++++++++------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/reductionml-core/src/reductions/cb_adf.rs b/reductionml-core/src/reductions/cb_adf.rs
index 1c0fac5..e493d6f 100644
--- a/reductionml-core/src/reductions/cb_adf.rs
+++ b/reductionml-core/src/reductions/cb_adf.rs
@@ -201,21 +201,19 @@ impl ReductionImpl for CBAdfReduction {
                     * (self.mtr_state.event_sum as f32 / self.mtr_state.action_sum as f32);
 
                 let simple_label = SimpleLabel::new(cost, weight);
-                match cb_adf_features.shared.as_mut() {
-                    Some(shared_feats) => {
-                        let action = cb_adf_features.actions.get(cb_label.action).unwrap();
-                        shared_feats.append(action);
-                        self.regressor.learn(
-                            &mut Features::SparseSimpleRef(shared_feats),
-                            &simple_label.into(),
-                            depth_info,
-                            0.into(),
-                        );
-                        shared_feats.remove(action);
-                    }
-                    None => {
-                        todo!()
-                    }
+                // Same feature order as in predict.
+                let action = cb_adf_features.actions.get_mut(cb_label.action).unwrap();
+                if let Some(shared_feats) = &cb_adf_features.shared {
+                    action.append(shared_feats);
+                }
+                self.regressor.learn(
+                    &mut Features::SparseSimpleRef(action),
+                    &simple_label.into(),
+                    depth_info,
+                    0.into(),
+                );
+                if let Some(shared_feats) = &cb_adf_features.shared {
+                    action.remove(shared_feats);
                 }
             }
         }
-- 
2.43.0


From 3ffad15ef8db9cdf7d61cd50b4b8741e01eaad71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:55 +0000
Subject: [PATCH 04/16] fix: train Coin with the configured loss function

The lossFunction of the configuration only selected the initial label range; learning always used
the squared loss.
---
 reductionml-core/src/reductions/coin.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/reductionml-core/src/reductions/coin.rs b/reductionml-core/src/reductions/coin.rs
index 99d0b65..cf6a1a1 100644
--- a/reductionml-core/src/reductions/coin.rs
+++ b/reductionml-core/src/reductions/coin.rs
@@ -67,7 +67,7 @@ const fn default_beta() -> f32 {
 }
 
 fn default_loss_function() -> LossFunction {
-    SquaredLoss::default().into()
+    SquaredLoss::new().into()
 }
 
 fn default_link_function() -> LinkFunction {
@@ -98,7 +98,6 @@ struct CoinRegressor {
     average_squared_norm_x: f32,
     min_label: f32,
     max_label: f32,
-    // TODO allow this to be chosen
     loss_function: LossFunction,
     pairs: Vec<(Namespace, Namespace)>,
     triples: Vec<(Namespace, Namespace, Namespace)>,
@@ -121,6 +120,8 @@ impl CoinRegressor {
             LossFunction::Logistic(_) => (-50.0, 50.0),
         };
 
+        let loss_function = config.loss_function;
+
         Ok(CoinRegressor {
             weights: DenseWeights::new(
                 bits_to_max_feature_index(global_config.num_bits()),
@@ -138,7 +139,7 @@ impl CoinRegressor {
             average_squared_norm_x: 0.0,
             min_label,
             max_label,
-            loss_function: LossFunction::Squared(SquaredLoss::new()),
+            loss_function,
             pairs,
             triples,
             num_bits: global_config.num_bits(),
-- 
2.43.0


From 05d991540fb0d1066880ea2bbc467c6dca2dca92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:25 +0000
Subject: [PATCH 05/16] fix: elementwise interaction of wrapped offsets and of
 missing or equal namespaces

Feature indices are masked to the table size, so subtracting the namespace base underflowed (a panic
in debug builds, a wrong index in release builds) and the product's index could lie outside the
table. An example without one of the namespaces, or the same namespace twice, panicked.
---
 .../src/reductions/elementwise_interaction.rs | 56 +++++++++++++------
 1 file changed, 38 insertions(+), 18 deletions(-)

diff --git a/reductionml-core/src/reductions/elementwise_interaction.rs b/reductionml-core/src/reductions/elementwise_interaction.rs
index 11f8136..d83e3e1 100644
--- a/reductionml-core/src/reductions/elementwise_interaction.rs
+++ b/reductionml-core/src/reductions/elementwise_interaction.rs
@@ -139,8 +139,12 @@ fn elementwise_multiply(
     let composite_base = FeatureHash::from(u32::from(composite_ns.hash())).mask(mask);
 
     let mut dest_iter = SparseFeaturesNamespace::new(composite_ns);
-    let mut ns_one_it = features.get_namespace(one).unwrap().iter();
-    let mut ns_two_it = features.get_namespace(two).unwrap().iter();
+    let (mut ns_one_it, mut ns_two_it) =
+        match (features.get_namespace(one), features.get_namespace(two)) {
+            (Some(one), Some(two)) => (one.iter(), two.iter()),
+            // Nothing to multiply.
+            _ => return (composite_ns, dest_iter),
+        };
     let mut cur_1 = ns_one_it.next();
     let mut cur_2 = ns_two_it.next();
     loop {
@@ -155,13 +159,17 @@ fn elementwise_multiply(
             }
         };
 
-        let idx1 = u32::from(idx1) - u32::from(base_one);
-        let idx2 = u32::from(idx2) - u32::from(base_two);
+        // Indices are masked when features are created, so offsets wrap around.
+        let offset = |idx: FeatureIndex, base: FeatureIndex| {
+            u32::from(FeatureHash::from(u32::from(idx).wrapping_sub(u32::from(base))).mask(mask))
+        };
+        let idx1 = offset(idx1, base_one);
+        let idx2 = offset(idx2, base_two);
 
-        let dest_index = u32::from(composite_base) + idx1;
+        let dest_index = FeatureHash::from(u32::from(composite_base).wrapping_add(idx1)).mask(mask);
 
         if idx1 == idx2 {
-            dest_iter.add_feature(dest_index.into(), val1 * val2);
+            dest_iter.add_feature(dest_index, val1 * val2);
             cur_1 = ns_one_it.next();
             cur_2 = ns_two_it.next();
         } else if idx1 < idx2 {
@@ -196,15 +204,19 @@ impl ReductionImpl for ElementwiseInteraction {
             sparse_feats.remove_namespace(composite_ns);
             pred
         } else {
-            let ns1 = sparse_feats.remove_namespace(self.pair.0).unwrap();
-            let ns2 = sparse_feats.remove_namespace(self.pair.1).unwrap();
+            let ns1 = sparse_feats.remove_namespace(self.pair.0);
+            let ns2 = sparse_feats.remove_namespace(self.pair.1);
             let pred = self
                 .regressor
                 .predict(&mut sparse_feats.into(), depth_info, 0.into());
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
-            sparse_feats.set_namespace(self.pair.0, ns1);
-            sparse_feats.set_namespace(self.pair.1, ns2);
+            if let Some(ns1) = ns1 {
+                sparse_feats.set_namespace(self.pair.0, ns1);
+            }
+            if let Some(ns2) = ns2 {
+                sparse_feats.set_namespace(self.pair.1, ns2);
+            }
             pred
         }
     }
@@ -233,8 +245,8 @@ impl ReductionImpl for ElementwiseInteraction {
             sparse_feats.remove_namespace(composite_ns);
             pred
         } else {
-            let ns1 = sparse_feats.remove_namespace(self.pair.0).unwrap();
-            let ns2 = sparse_feats.remove_namespace(self.pair.1).unwrap();
+            let ns1 = sparse_feats.remove_namespace(self.pair.0);
+            let ns2 = sparse_feats.remove_namespace(self.pair.1);
             let pred = self.regressor.predict_then_learn(
                 &mut sparse_feats.into(),
                 label,
@@ -243,8 +255,12 @@ impl ReductionImpl for ElementwiseInteraction {
             );
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
-            sparse_feats.set_namespace(self.pair.0, ns1);
-            sparse_feats.set_namespace(self.pair.1, ns2);
+            if let Some(ns1) = ns1 {
+                sparse_feats.set_namespace(self.pair.0, ns1);
+            }
+            if let Some(ns2) = ns2 {
+                sparse_feats.set_namespace(self.pair.1, ns2);
+            }
             pred
         }
     }
@@ -268,14 +284,18 @@ impl ReductionImpl for ElementwiseInteraction {
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
         } else {
-            let ns1 = sparse_feats.remove_namespace(self.pair.0).unwrap();
-            let ns2 = sparse_feats.remove_namespace(self.pair.1).unwrap();
+            let ns1 = sparse_feats.remove_namespace(self.pair.0);
+            let ns2 = sparse_feats.remove_namespace(self.pair.1);
             self.regressor
                 .learn(&mut sparse_feats.into(), label, depth_info, 0.into());
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
-            sparse_feats.set_namespace(self.pair.0, ns1);
-            sparse_feats.set_namespace(self.pair.1, ns2);
+            if let Some(ns1) = ns1 {
+                sparse_feats.set_namespace(self.pair.0, ns1);
+            }
+            if let Some(ns2) = ns2 {
+                sparse_feats.set_namespace(self.pair.1, ns2);
+            }
         }
     }
 
-- 
2.43.0


From 6e9d46922c8ac6fdfc80bebacf489c8e5c869a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:41 +0000
Subject: [PATCH 06/16] fix: refuse unknown fields beside a reduction's
 typename and config

---
 reductionml-core/src/reduction_factory.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reductionml-core/src/reduction_factory.rs b/reductionml-core/src/reduction_factory.rs
index c60046d..f74341f 100644
--- a/reductionml-core/src/reduction_factory.rs
+++ b/reductionml-core/src/reduction_factory.rs
@@ -17,6 +17,7 @@ use crate::{
 // This intentionally does not derive JsonSchema
 // Use gen_json_reduction_config_schema instead with schema_with
 #[derive(Clone, Deserialize, Serialize, Debug)]
+#[serde(deny_unknown_fields)]
 #[serde(rename_all = "camelCase")]
 pub struct JsonReductionConfig {
     typename: PascalCaseString,
-- 
2.43.0


From 1f8e003c9185a666e51c3cd8ea8c36aac1461ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:16 +0000
Subject: [PATCH 07/16] fix: wrap positions that run past the end of the hash
 space

---
 reductionml-core/src/inverse_hash_table.rs  | 2 +-
 reductionml-core/src/parsers.rs             | 2 +-
 reductionml-core/src/parsers/json_parser.rs | 7 ++++---
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/reductionml-core/src/inverse_hash_table.rs b/reductionml-core/src/inverse_hash_table.rs
index eda9277..6672d3a 100644
--- a/reductionml-core/src/inverse_hash_table.rs
+++ b/reductionml-core/src/inverse_hash_table.rs
@@ -48,7 +48,7 @@ impl Feature {
             }
             Feature::Anonymous { namespace, offset } => {
                 let namespace_hash = hash_bytes(namespace.as_bytes(), hash_seed);
-                (namespace_hash + offset).into()
+                namespace_hash.wrapping_add(*offset).into()
             }
             // In a very cool property hashing of the interacted feature does not need to take into account bit masking until the very end
             // In fact, the produced result is idenitical if interim values are masked or just the final value.
diff --git a/reductionml-core/src/parsers.rs b/reductionml-core/src/parsers.rs
index 9850247..e8f55a8 100644
--- a/reductionml-core/src/parsers.rs
+++ b/reductionml-core/src/parsers.rs
@@ -26,7 +26,7 @@ impl<'a> ParsedFeature<'a> {
                 let name_key_hash = hash_bytes(name.as_bytes(), *namespace_hash);
                 FeatureHash::from(hash_bytes(value.as_bytes(), name_key_hash))
             }
-            ParsedFeature::Anonymous { offset } => (*namespace_hash + offset).into(),
+            ParsedFeature::Anonymous { offset } => namespace_hash.wrapping_add(*offset).into(),
         }
     }
 }
diff --git a/reductionml-core/src/parsers/json_parser.rs b/reductionml-core/src/parsers/json_parser.rs
index b11fb4d..a153326 100644
--- a/reductionml-core/src/parsers/json_parser.rs
+++ b/reductionml-core/src/parsers/json_parser.rs
@@ -6,7 +6,7 @@ use crate::object_pool::Pool;
 use crate::parsers::ParsedFeature;
 use crate::sparse_namespaced_features::{Namespace, SparseFeatures};
 use crate::types::{Features, Label, LabelType};
-use crate::{CBAdfFeatures, CBLabel, FeatureHash, FeatureMask, FeaturesType, SimpleLabel};
+use crate::{CBAdfFeatures, CBLabel, FeatureMask, FeaturesType, SimpleLabel};
 
 use super::{TextModeParser, TextModeParserFactory};
 
@@ -28,8 +28,9 @@ pub fn to_features(
                     Value::Str(_) => todo!(),
                     Value::Array(ar) => match ar.first() {
                         Some(Value::Number(_)) => {
-                            let it = (u32::from(ns_hash)..(u32::from(ns_hash) + ar.len() as u32))
-                                .map(|x| FeatureHash::from(x).mask(mask));
+                            let it = (0..ar.len() as u32).map(|offset| {
+                                ParsedFeature::Anonymous { offset }.hash(ns_hash).mask(mask)
+                            });
                             ns.add_features_with_iter(
                                 it,
                                 ar.iter().map(|x| {
-- 
2.43.0


From 6a3b1c03847110762b4c076b7f43bc97ea40a5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:16 +0000
Subject: [PATCH 08/16] fix: reserve in a namespace that already has more
 capacity

---
 reductionml-core/src/sparse_namespaced_features.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/sparse_namespaced_features.rs b/reductionml-core/src/sparse_namespaced_features.rs
index e8be07f..bd9118b 100644
--- a/reductionml-core/src/sparse_namespaced_features.rs
+++ b/reductionml-core/src/sparse_namespaced_features.rs
@@ -130,9 +130,9 @@ impl SparseFeaturesNamespace {
 
     pub fn reserve(&mut self, size: usize) {
         self.feature_indices
-            .reserve_exact(size - self.feature_indices.capacity());
+            .reserve_exact(size.saturating_sub(self.feature_indices.len()));
         self.feature_values
-            .reserve(size - self.feature_values.capacity());
+            .reserve(size.saturating_sub(self.feature_values.len()));
     }
 
     pub fn add_feature(&mut self, feature_index: FeatureIndex, feature_value: f32) {
-- 
2.43.0


From 47e42551409c0814765aa2705e01bcd28623f950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:16 +0000
Subject: [PATCH 09/16] fix: accept an empty list as the content of a JSON
 namespace

---
 reductionml-core/src/parsers/json_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reductionml-core/src/parsers/json_parser.rs b/reductionml-core/src/parsers/json_parser.rs
index a153326..125f949 100644
--- a/reductionml-core/src/parsers/json_parser.rs
+++ b/reductionml-core/src/parsers/json_parser.rs
@@ -50,7 +50,7 @@ pub fn to_features(
                             }
                         }
                         Some(_) => panic!("Not a number or string"),
-                        None => todo!(),
+                        None => (),
                     },
 
                     Value::Object(contents) => {
-- 
2.43.0


From aaefbd7adab090f24d94cfdd8bdb15b84e83f1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:16 +0000
Subject: [PATCH 10/16] fix: skip blank lines in JSON and DSJSON input

---
 reductionml-core/src/parsers/dsjson_parser.rs | 14 +++++++++-----
 reductionml-core/src/parsers/json_parser.rs   | 14 +++++++++-----
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/reductionml-core/src/parsers/dsjson_parser.rs b/reductionml-core/src/parsers/dsjson_parser.rs
index 90fe366..6f4fb28 100644
--- a/reductionml-core/src/parsers/dsjson_parser.rs
+++ b/reductionml-core/src/parsers/dsjson_parser.rs
@@ -162,12 +162,16 @@ impl TextModeParser for DsJsonParser {
         input: &mut dyn std::io::BufRead,
         mut output_buffer: String,
     ) -> Result<Option<String>> {
-        output_buffer.clear();
-        input.read_line(&mut output_buffer)?;
-        if output_buffer.is_empty() {
-            return Ok(None);
+        // Blank lines are skipped.
+        loop {
+            output_buffer.clear();
+            if input.read_line(&mut output_buffer)? == 0 {
+                return Ok(None);
+            }
+            if !output_buffer.trim().is_empty() {
+                return Ok(Some(output_buffer));
+            }
         }
-        Ok(Some(output_buffer))
     }
 
     fn parse_chunk<'a, 'b>(&self, chunk: &'a str) -> Result<(Features<'b>, Option<Label>)> {
diff --git a/reductionml-core/src/parsers/json_parser.rs b/reductionml-core/src/parsers/json_parser.rs
index 125f949..e4b56c7 100644
--- a/reductionml-core/src/parsers/json_parser.rs
+++ b/reductionml-core/src/parsers/json_parser.rs
@@ -187,12 +187,16 @@ impl TextModeParser for JsonParser {
         input: &mut dyn std::io::BufRead,
         mut output_buffer: String,
     ) -> Result<Option<String>> {
-        output_buffer.clear();
-        input.read_line(&mut output_buffer)?;
-        if output_buffer.is_empty() {
-            return Ok(None);
+        // Blank lines are skipped.
+        loop {
+            output_buffer.clear();
+            if input.read_line(&mut output_buffer)? == 0 {
+                return Ok(None);
+            }
+            if !output_buffer.trim().is_empty() {
+                return Ok(Some(output_buffer));
+            }
         }
-        Ok(Some(output_buffer))
     }
 
     fn parse_chunk<'a, 'b>(&self, chunk: &'a str) -> Result<(Features<'b>, Option<Label>)> {
-- 
2.43.0


From 2242d80e2bf2797265fadba90372b9ddefb71859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:16 +0000
Subject: [PATCH 11/16] fix: hash feature names of the default namespace like
 the parsers do

---
 reductionml-core/src/inverse_hash_table.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/reductionml-core/src/inverse_hash_table.rs b/reductionml-core/src/inverse_hash_table.rs
index 6672d3a..57559c3 100644
--- a/reductionml-core/src/inverse_hash_table.rs
+++ b/reductionml-core/src/inverse_hash_table.rs
@@ -3,6 +3,7 @@ use serde::{Deserialize, Serialize};
 use crate::{
     hash::{hash_bytes, FNV_PRIME},
     parsers::ParsedFeature,
+    sparse_namespaced_features::Namespace,
     FeatureHash, FeatureIndex,
 };
 
@@ -34,7 +35,7 @@ impl Feature {
     pub fn hash(&self, hash_seed: u32) -> FeatureHash {
         match &self {
             Feature::Simple { namespace, name } => {
-                let namespace_hash = hash_bytes(namespace.as_bytes(), hash_seed);
+                let namespace_hash = *Namespace::from_name(namespace, hash_seed).hash();
                 hash_bytes(name.as_bytes(), namespace_hash).into()
             }
             Feature::SimpleWithStringValue {
@@ -42,12 +43,12 @@ impl Feature {
                 name,
                 value,
             } => {
-                let namespace_hash = hash_bytes(namespace.as_bytes(), hash_seed);
+                let namespace_hash = *Namespace::from_name(namespace, hash_seed).hash();
                 let name_key_hash = hash_bytes(name.as_bytes(), namespace_hash);
                 hash_bytes(value.as_bytes(), name_key_hash).into()
             }
             Feature::Anonymous { namespace, offset } => {
-                let namespace_hash = hash_bytes(namespace.as_bytes(), hash_seed);
+                let namespace_hash = *Namespace::from_name(namespace, hash_seed).hash();
                 namespace_hash.wrapping_add(*offset).into()
             }
             // In a very cool property hashing of the interacted feature does not need to take into account bit masking until the very end
-- 
2.43.0


From 72fb8dfbb57ee692fe32599d6f37f4593e9d31aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:00 +0000
Subject: [PATCH 12/16] fix: a label without a weight has weight one

---
 reductionml-core/src/types.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reductionml-core/src/types.rs b/reductionml-core/src/types.rs
index a7cb81a..b250f36 100644
--- a/reductionml-core/src/types.rs
+++ b/reductionml-core/src/types.rs
@@ -78,9 +78,14 @@ pub enum PredictionType {
 #[derive(Clone, Copy, Debug, Serialize, Deserialize)]
 pub struct SimpleLabel {
     value: f32,
+    #[serde(default = "default_weight")]
     weight: f32,
 }
 
+fn default_weight() -> f32 {
+    1.0
+}
+
 impl SimpleLabel {
     pub fn new(value: f32, weight: f32) -> Self {
         SimpleLabel { value, weight }
-- 
2.43.0


From 35b4ab0ff8cfdf71793dbab72076b0d24f3317d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:00 +0000
Subject: [PATCH 13/16] fix: accept VW text namespaces without features or name

---
 .../src/parsers/vw_text_parser.rs             | 24 +++++++++----------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/reductionml-core/src/parsers/vw_text_parser.rs b/reductionml-core/src/parsers/vw_text_parser.rs
index fbe7fc2..55cb9fb 100644
--- a/reductionml-core/src/parsers/vw_text_parser.rs
+++ b/reductionml-core/src/parsers/vw_text_parser.rs
@@ -230,11 +230,11 @@ fn parse_namespace_inline(
     hash_seed: u32,
     num_bits: u8,
 ) -> Result<()> {
-    // Check if first char is a space or not
-    let first_char_is_space = namespace_segment.starts_with(' ');
+    // Without a name right after the bar this is the anonymous namespace
+    let is_anonymous = !namespace_segment.starts_with(|c: char| !c.is_ascii_whitespace());
     let mut tokens = namespace_segment.split_ascii_whitespace();
 
-    let (namespace_name, namespace_value) = if first_char_is_space {
+    let (namespace_name, namespace_value) = if is_anonymous {
         // Anonymous namespace
         (" ", 1.0)
     } else {
@@ -282,18 +282,16 @@ fn parse_namespace_info_token(namespace_segment: &str) -> Result<(&str, f32)> {
 
 // "Consumes" some amount of input and returns the namespace info and the remaining input
 fn parse_namespace_info(input: &str) -> Result<(&str, (ParsedNamespaceInfo, f32))> {
-    let first_char_is_space = input.starts_with(' ');
-    // Extract up until the first space
-    if first_char_is_space {
-        Ok((&input[1..], (ParsedNamespaceInfo::Default, 1.0)))
+    // Extract up until the first whitespace
+    let name_end = input
+        .find(|c: char| c.is_ascii_whitespace())
+        .unwrap_or(input.len());
+    let (namespace_info_token, remaining) = input.split_at(name_end);
+    if namespace_info_token.is_empty() {
+        Ok((remaining, (ParsedNamespaceInfo::Default, 1.0)))
     } else {
-        let input_until_first_space = input.find(' ').unwrap();
-        let namespace_info_token = &input[..input_until_first_space];
         let (ns_name, ns_value) = parse_namespace_info_token(namespace_info_token)?;
-        Ok((
-            &input[input_until_first_space..],
-            (ParsedNamespaceInfo::Named(ns_name), ns_value),
-        ))
+        Ok((remaining, (ParsedNamespaceInfo::Named(ns_name), ns_value)))
     }
 }
 
-- 
2.43.0


From 98a65037e1909f5448bff2f97ce21383ec959f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:00 +0000
Subject: [PATCH 14/16] fix: extract the names of every occurrence of a
 namespace

---
 .../src/parsers/vw_text_parser.rs             | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/reductionml-core/src/parsers/vw_text_parser.rs b/reductionml-core/src/parsers/vw_text_parser.rs
index 55cb9fb..dec9912 100644
--- a/reductionml-core/src/parsers/vw_text_parser.rs
+++ b/reductionml-core/src/parsers/vw_text_parser.rs
@@ -495,20 +495,20 @@ impl TextModeParser for VwTextParser {
         &self,
         chunk: &'a str,
     ) -> Result<std::collections::HashMap<ParsedNamespaceInfo<'a>, Vec<ParsedFeature<'a>>>> {
-        if self.is_multiline() {
-            chunk
-                .lines()
-                .flat_map(|line| {
-                    let mut segments = line.split('|');
-                    let _label_section = segments.next().unwrap();
-                    segments.map(extract_namespace_features)
-                })
-                .collect()
-        } else {
-            let mut segments = chunk.split('|');
+        // A namespace can occur several times, on one line or on several.
+        let mut names = std::collections::HashMap::new();
+        for line in chunk.lines() {
+            let mut segments = line.split('|');
             let _label_section = segments.next().unwrap();
-            segments.map(extract_namespace_features).collect()
+            for segment in segments {
+                let (namespace, features) = extract_namespace_features(segment)?;
+                names
+                    .entry(namespace)
+                    .or_insert_with(Vec::new)
+                    .extend(features);
+            }
         }
+        Ok(names)
     }
 }
 
-- 
2.43.0


From 6862968625ee9a8571df2d7822269f3ab3bdfc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:00 +0000
Subject: [PATCH 15/16] fix: skip inactive namespaces when iterating over
 namespaces

---
 reductionml-core/src/sparse_namespaced_features.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/reductionml-core/src/sparse_namespaced_features.rs b/reductionml-core/src/sparse_namespaced_features.rs
index bd9118b..56c1254 100644
--- a/reductionml-core/src/sparse_namespaced_features.rs
+++ b/reductionml-core/src/sparse_namespaced_features.rs
@@ -19,19 +19,12 @@ pub struct NamespaceIterator<'a> {
     values: std::slice::Iter<'a, f32>,
 }
 
-// TODO this should be skipping inactive namespaces.
 impl<'a> Iterator for NamespacesIterator<'a> {
     type Item = (Namespace, NamespaceIterator<'a>);
     fn next(&mut self) -> Option<Self::Item> {
-        self.namespaces.next().map(|(namespace_feats, namespace)| {
-            (
-                *namespace_feats,
-                NamespaceIterator {
-                    indices: namespace.feature_indices.iter(),
-                    values: namespace.feature_values.iter(),
-                },
-            )
-        })
+        self.namespaces
+            .find(|(_, namespace)| namespace.is_active())
+            .map(|(namespace_feats, namespace)| (*namespace_feats, namespace.iter()))
     }
 }
 
-- 
2.43.0


From de6bf947ffb66e324890800d0f3b137a98273ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:00 +0000
Subject: [PATCH 16/16] fix: ignore inactive namespaces when comparing features

---
 reductionml-core/src/sparse_namespaced_features.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/reductionml-core/src/sparse_namespaced_features.rs b/reductionml-core/src/sparse_namespaced_features.rs
index 56c1254..d88e5e3 100644
--- a/reductionml-core/src/sparse_namespaced_features.rs
+++ b/reductionml-core/src/sparse_namespaced_features.rs
@@ -192,11 +192,22 @@ impl Namespace {
     }
 }
 
-#[derive(PartialEq, Clone, Debug)]
+#[derive(Clone, Debug)]
 pub struct SparseFeatures {
     namespaces: std::collections::BTreeMap<Namespace, SparseFeaturesNamespace>,
 }
 
+impl PartialEq for SparseFeatures {
+    fn eq(&self, other: &Self) -> bool {
+        // Inactive namespaces only exist for object reuse.
+        let active = |ns: &&SparseFeaturesNamespace| ns.is_active();
+        self.namespaces
+            .values()
+            .filter(active)
+            .eq(other.namespaces.values().filter(active))
+    }
+}
+
 impl Default for SparseFeatures {
     fn default() -> Self {
         Self::new()
-- 
2.43.0

