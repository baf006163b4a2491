From 9e0bb2aa7f1fc75aeefada711926ddf19a61fe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 01/21] fix: refuse an intercept and weights of different
 numbers of classes instead of panicking

---
 src/intent_classifier/logreg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/intent_classifier/logreg.rs b/src/intent_classifier/logreg.rs
index d6b57a3..e71d416 100644
--- a/src/intent_classifier/logreg.rs
+++ b/src/intent_classifier/logreg.rs
@@ -33,7 +33,7 @@ impl MulticlassLogisticRegression {
     pub fn new(intercept: Array1<f32>, weights: Array2<f32>) -> Result<Self> {
         let nb_classes = intercept.dim();
         let reshaped_intercept = intercept.into_shape((1, nb_classes))?;
-        let weights_with_intercept = stack![Axis(0), reshaped_intercept, weights];
+        let weights_with_intercept = stack(Axis(0), &[reshaped_intercept.view(), weights.view()])?;
         Ok(Self {
             weights: weights_with_intercept,
         })
-- 
2.43.0


From 887b2f031e5f3fb9a6d451318e9816e59bdac790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 02/21] fix: ignore lookup entries whose number of slots is not
 the number of replaced entities

An input containing entity placeholders (or a hash collision) could hit an
entry with more slots than entities, and get its slots attached to the wrong
entities.
---
 src/intent_parser/lookup_intent_parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/intent_parser/lookup_intent_parser.rs b/src/intent_parser/lookup_intent_parser.rs
index 32f5e08..8ca1daa 100644
--- a/src/intent_parser/lookup_intent_parser.rs
+++ b/src/intent_parser/lookup_intent_parser.rs
@@ -293,8 +293,11 @@ impl LookupIntentParser {
         intents: Option<&[&str]>,
     ) -> Option<InternalParsingResult> {
         let (intent_id, slots_ids) = output;
-        // assert invariant: length of slot ids matches that of entities
-        debug_assert!(slots_ids.len() == entities.len());
+        // The numbers of slots and entities differ when the input itself contains entity
+        // placeholders, or in case of a hash collision
+        if slots_ids.len() != entities.len() {
+            return None;
+        }
         let intent_name = &self.intents_names[*intent_id as usize];
         if intents
             .map(|intents_list| intents_list.contains(&intent_name.as_ref()))
-- 
2.43.0


From 9f451f90544a1eae3bb1b2419e6732da3541bfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 03/21] fix: honour the intents filter when the classifier has
 at most one intent, no model or an empty input

---
 .../log_reg_intent_classifier.rs              | 33 +++++++++++--------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/intent_classifier/log_reg_intent_classifier.rs b/src/intent_classifier/log_reg_intent_classifier.rs
index 19f88b3..9cf6d1c 100644
--- a/src/intent_classifier/log_reg_intent_classifier.rs
+++ b/src/intent_classifier/log_reg_intent_classifier.rs
@@ -103,11 +103,27 @@ impl LogRegIntentClassifier {
         input: &str,
         intents_whitelist: Option<&[&str]>,
     ) -> Result<Vec<IntentClassifierResult>> {
+        let opt_intents_set: Option<HashSet<&str>> =
+            intents_whitelist.map(|intent_list| HashSet::from_iter(intent_list.iter().cloned()));
+        // The None intent is always allowed
+        let is_allowed = |res: &IntentClassifierResult| {
+            if let (Some(intent), Some(intents)) =
+                (res.intent_name.as_ref(), opt_intents_set.as_ref())
+            {
+                intents.contains(&**intent)
+            } else {
+                true
+            }
+        };
+
         if self.intent_list.len() <= 1 {
             return Ok(vec![IntentClassifierResult {
                 intent_name: self.intent_list.first().cloned().unwrap_or(None),
                 confidence_score: 1.0,
-            }]);
+            }]
+            .into_iter()
+            .filter(is_allowed)
+            .collect());
         }
 
         if input.is_empty() || self.featurizer.is_none() || self.logreg.is_none() {
@@ -118,13 +134,11 @@ impl LogRegIntentClassifier {
                     intent_name: intent_name.clone(),
                     confidence_score: if intent_name.is_none() { 1.0 } else { 0.0 },
                 })
+                .filter(is_allowed)
                 .sorted_by(|a, b| b.confidence_score.partial_cmp(&a.confidence_score).unwrap())
                 .collect());
         }
 
-        let opt_intents_set: Option<HashSet<&str>> =
-            intents_whitelist.map(|intent_list| HashSet::from_iter(intent_list.iter().cloned()));
-
         let featurizer = self.featurizer.as_ref().unwrap(); // Checked above
         let logreg = self.logreg.as_ref().unwrap(); // Checked above
 
@@ -139,16 +153,7 @@ impl LogRegIntentClassifier {
                 intent_name: intent_name.clone(),
                 confidence_score: *score,
             })
-            .filter(|res| {
-                if let Some(intent) = res.intent_name.as_ref() {
-                    opt_intents_set
-                        .as_ref()
-                        .map(|intents| intents.contains(&**intent))
-                        .unwrap_or(true)
-                } else {
-                    true
-                }
-            })
+            .filter(is_allowed)
             .sorted_by(|a, b| b.confidence_score.partial_cmp(&a.confidence_score).unwrap())
             .collect())
     }
-- 
2.43.0


From 38e7556ae71cb2932d496dbdf74b04540a770506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 04/21] fix: map the ranges of the entities found in the
 lowercased text to the characters of the text

---
 src/entity_parser/builtin_entity_parser.rs | 45 ++++++++++++----------
 src/entity_parser/custom_entity_parser.rs  | 11 ++++--
 src/entity_parser/utils.rs                 | 25 ++++++++++++
 3 files changed, 58 insertions(+), 23 deletions(-)

diff --git a/src/entity_parser/builtin_entity_parser.rs b/src/entity_parser/builtin_entity_parser.rs
index 01416b8..5ed5095 100644
--- a/src/entity_parser/builtin_entity_parser.rs
+++ b/src/entity_parser/builtin_entity_parser.rs
@@ -5,7 +5,7 @@ use log::info;
 use snips_nlu_ontology::{BuiltinEntity, BuiltinEntityKind};
 use snips_nlu_parsers::BuiltinEntityParser as _BuiltinEntityParser;
 
-use super::utils::Cache;
+use super::utils::{original_char_range, Cache};
 use crate::errors::*;
 
 pub trait BuiltinEntityParser: Send + Sync {
@@ -39,29 +39,34 @@ impl BuiltinEntityParser for CachingBuiltinEntityParser {
         max_alternative_resolved_values: usize,
     ) -> Result<Vec<BuiltinEntity>> {
         let lowercased_sentence = sentence.to_lowercase();
-        if !use_cache {
-            return self.parser.extract_entities(
+        let mut entities = if use_cache {
+            let cache_key = CacheKey {
+                input: lowercased_sentence,
+                kinds: filter_entity_kinds.map(|entity_kinds| entity_kinds.to_vec()),
+                max_alternative_resolved_values,
+            };
+
+            self.cache
+                .lock()
+                .unwrap()
+                .try_cache(&cache_key, |cache_key| {
+                    self.parser.extract_entities(
+                        &cache_key.input,
+                        filter_entity_kinds,
+                        max_alternative_resolved_values,
+                    )
+                })?
+        } else {
+            self.parser.extract_entities(
                 &lowercased_sentence,
                 filter_entity_kinds,
                 max_alternative_resolved_values,
-            );
-        }
-        let cache_key = CacheKey {
-            input: lowercased_sentence,
-            kinds: filter_entity_kinds.map(|entity_kinds| entity_kinds.to_vec()),
-            max_alternative_resolved_values,
+            )?
         };
-
-        self.cache
-            .lock()
-            .unwrap()
-            .try_cache(&cache_key, |cache_key| {
-                self.parser.extract_entities(
-                    &cache_key.input,
-                    filter_entity_kinds,
-                    max_alternative_resolved_values,
-                )
-            })
+        for entity in entities.iter_mut() {
+            entity.range = original_char_range(sentence, entity.range.clone());
+        }
+        Ok(entities)
     }
 }
 
diff --git a/src/entity_parser/custom_entity_parser.rs b/src/entity_parser/custom_entity_parser.rs
index 98d3585..7d577d9 100644
--- a/src/entity_parser/custom_entity_parser.rs
+++ b/src/entity_parser/custom_entity_parser.rs
@@ -14,7 +14,7 @@ use snips_nlu_parsers::{GazetteerEntityMatch, GazetteerParser};
 use snips_nlu_utils::language::Language as NluUtilsLanguage;
 use snips_nlu_utils::token::*;
 
-use crate::entity_parser::utils::Cache;
+use crate::entity_parser::utils::{original_char_range, Cache};
 use crate::errors::*;
 use crate::language::FromLanguage;
 use crate::utils::EntityName;
@@ -79,7 +79,8 @@ impl CustomEntityParser for CachingCustomEntityParser {
             max_alternative_resolved_values,
         };
 
-        self.cache
+        let mut entities = self
+            .cache
             .lock()
             .unwrap()
             .try_cache(&cache_key, |cache_key| {
@@ -88,7 +89,11 @@ impl CustomEntityParser for CachingCustomEntityParser {
                     filter_entity_kinds,
                     max_alternative_resolved_values,
                 )
-            })
+            })?;
+        for entity in entities.iter_mut() {
+            entity.range = original_char_range(sentence, entity.range.clone());
+        }
+        Ok(entities)
     }
 }
 
diff --git a/src/entity_parser/utils.rs b/src/entity_parser/utils.rs
index 265e42c..73d8017 100644
--- a/src/entity_parser/utils.rs
+++ b/src/entity_parser/utils.rs
@@ -1,4 +1,5 @@
 use std::hash::Hash;
+use std::ops::Range;
 
 use lru_cache::LruCache;
 
@@ -28,3 +29,27 @@ where
         Ok(value)
     }
 }
+
+/// Map a range of characters of the lowercased sentence onto the characters of the sentence:
+/// lowercasing a character can yield several ones (e.g. "İ")
+pub fn original_char_range(sentence: &str, lowercased_range: Range<usize>) -> Range<usize> {
+    let original_indices: Vec<usize> = sentence
+        .chars()
+        .enumerate()
+        .flat_map(|(index, character)| character.to_lowercase().map(move |_| index))
+        .collect();
+    let index_of = |lowercased_index: usize| {
+        original_indices
+            .get(lowercased_index)
+            .cloned()
+            .unwrap_or_else(|| sentence.chars().count())
+    };
+    let start = index_of(lowercased_range.start);
+    if lowercased_range.end <= lowercased_range.start {
+        return start..start;
+    }
+    start..original_indices
+        .get(lowercased_range.end - 1)
+        .map(|index| index + 1)
+        .unwrap_or_else(|| sentence.chars().count())
+}
-- 
2.43.0


From 71500de16a69d41b21fde4f6e59707d400f672f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:55 +0000
Subject: [PATCH 05/21] fix: replace the entities of texts of more than 32767
 characters at the right place

---
 src/utils.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 8e3c00f..9d7942b 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -142,17 +142,18 @@ where
 
     let mut range_mapping: HashMap<Range<usize>, Range<usize>> = HashMap::new();
     let mut processed_text = "".to_string();
-    let mut offset = 0;
+    let mut offset: isize = 0;
     let mut current_ix = 0;
 
     for matched_entity in dedup_matches {
-        let range_start = (matched_entity.range.start as i16 + offset) as usize;
+        let range_start = (matched_entity.range.start as isize + offset) as usize;
         let prefix_text =
             substring_with_char_range(text.to_string(), &(current_ix..matched_entity.range.start));
         let entity_text = placeholder_fn(&*matched_entity.entity_name);
         processed_text = format!("{}{}{}", processed_text, prefix_text, entity_text);
-        offset += entity_text.chars().count() as i16 - matched_entity.range.clone().count() as i16;
-        let range_end = (matched_entity.range.end as i16 + offset) as usize;
+        offset +=
+            entity_text.chars().count() as isize - matched_entity.range.clone().count() as isize;
+        let range_end = (matched_entity.range.end as isize + offset) as usize;
         let new_range = range_start..range_end;
         current_ix = matched_entity.range.end;
         range_mapping.insert(new_range, matched_entity.range);
-- 
2.43.0


From 74cb3539b2cf5e8c634197bc79abcf36c76d333d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:48 +0000
Subject: [PATCH 06/21] fix: give intents of equal scores in the same order at
 every call

---
 src/nlu_engine.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/nlu_engine.rs b/src/nlu_engine.rs
index 6b995e8..49df9a9 100644
--- a/src/nlu_engine.rs
+++ b/src/nlu_engine.rs
@@ -305,7 +305,12 @@ impl SnipsNluEngine {
         Ok(results
             .into_iter()
             .map(|(_, res)| res)
-            .sorted_by(|a, b| b.confidence_score.partial_cmp(&a.confidence_score).unwrap())
+            .sorted_by(|a, b| {
+                b.confidence_score
+                    .partial_cmp(&a.confidence_score)
+                    .unwrap()
+                    .then_with(|| a.intent_name.cmp(&b.intent_name))
+            })
             .collect())
     }
 
-- 
2.43.0


From 4c9ebf0dda97e46dd98838f06cec44fc516da4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:29 +0000
Subject: [PATCH 07/21] fix: do not repeat the top result in the intent
 alternatives nor drop another one

---
 src/nlu_engine.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nlu_engine.rs b/src/nlu_engine.rs
index 49df9a9..0a1e303 100644
--- a/src/nlu_engine.rs
+++ b/src/nlu_engine.rs
@@ -212,7 +212,8 @@ impl SnipsNluEngine {
                     })
                     .unwrap_or(true)
             })
-            .skip(1) // We do not duplicate the top result in the list of alternatives
+            // We do not duplicate the top result in the list of alternatives
+            .filter(|res| res.intent_name != parsing_result.intent.intent_name)
             .take(intents_alternatives)
             .map(|res| {
                 res.intent_name
-- 
2.43.0


From dafa8f9c6bcd819e25dd7a2e3d50c3d978f34118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:30 +0000
Subject: [PATCH 08/21] fix: give the text of the input as raw value of an
 extracted custom slot

---
 src/nlu_engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlu_engine.rs b/src/nlu_engine.rs
index 0a1e303..c45a618 100644
--- a/src/nlu_engine.rs
+++ b/src/nlu_engine.rs
@@ -460,7 +460,7 @@ fn extract_custom_slot(
     )?;
     Ok(if let Some(matched_entity) = custom_entities.pop() {
         Some(Slot {
-            raw_value: matched_entity.value,
+            raw_value: substring_with_char_range(input, &matched_entity.range),
             value: SlotValue::Custom(matched_entity.resolved_value.into()),
             alternatives: matched_entity
                 .alternative_resolved_values
-- 
2.43.0


From 5442e57f01495b6886b50a4c635e4156057835f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:36 +0000
Subject: [PATCH 09/21] fix: resolve a custom slot to a value found in its text
 alone exactly when it is the whole text

---
 src/slot_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/slot_utils.rs b/src/slot_utils.rs
index e7e31ba..367264b 100644
--- a/src/slot_utils.rs
+++ b/src/slot_utils.rs
@@ -59,7 +59,7 @@ pub fn resolve_custom_slot(
             )?
             .pop()
             .and_then(|entity| {
-                if entity.value.chars().count() == internal_slot.value.chars().count() {
+                if entity.range == (0..internal_slot.value.chars().count()) {
                     Some(entity)
                 } else {
                     None
-- 
2.43.0


From 494ab3b7e8920323a8cde165207849612cda94f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:37 +0000
Subject: [PATCH 10/21] fix: only try as many entities as the stored utterances
 have slots in the lookup parser

---
 src/intent_parser/lookup_intent_parser.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/intent_parser/lookup_intent_parser.rs b/src/intent_parser/lookup_intent_parser.rs
index 8ca1daa..ec025b8 100644
--- a/src/intent_parser/lookup_intent_parser.rs
+++ b/src/intent_parser/lookup_intent_parser.rs
@@ -222,6 +222,13 @@ impl LookupIntentParser {
         intents_whitelist: Option<&[&str]>,
     ) -> Result<Vec<(String, Vec<MatchedEntity>)>> {
         let mut candidates: Vec<(String, Vec<MatchedEntity>)> = Vec::new();
+        // An utterance only matches as many entities as it has slots
+        let max_nb_slots = self
+            .map
+            .values()
+            .map(|(_, slots_ids)| slots_ids.len())
+            .max()
+            .unwrap_or(0);
         for entity_scope in self.entity_scopes.iter() {
             let intent_group: Vec<&String> = entity_scope
                 .intent_group
@@ -238,7 +245,7 @@ impl LookupIntentParser {
             let all_entities = self.get_all_entities(input, &entity_scope.entity_scope)?;
             // We generate all subsets of entities to match utterances containing ambivalent
             // words which can be both entity values or random words
-            for entities in get_items_combinations(all_entities) {
+            for entities in get_bounded_items_combinations(all_entities, max_nb_slots) {
                 let processed_text = replace_entities_with_placeholders(input, entities.as_ref());
                 for intent in intent_group.iter() {
                     let cleaned_text = self.preprocess_text(input, intent);
@@ -374,11 +381,20 @@ fn replace_entities_with_placeholders(text: &str, entities: &[MatchedEntity]) ->
     }
 }
 
+#[cfg(test)]
 fn get_items_combinations<T>(items: Vec<T>) -> Vec<Vec<T>>
 where
     T: Clone,
 {
-    let mut combinations: Vec<Vec<T>> = (1..items.len() + 1)
+    let nb_items = items.len();
+    get_bounded_items_combinations(items, nb_items)
+}
+
+fn get_bounded_items_combinations<T>(items: Vec<T>, max_nb_items: usize) -> Vec<Vec<T>>
+where
+    T: Clone,
+{
+    let mut combinations: Vec<Vec<T>> = (1..=items.len().min(max_nb_items))
         .rev()
         .flat_map(|nb_entities| items.clone().into_iter().combinations(nb_entities))
         .collect();
-- 
2.43.0


From 2f459fb627eb7d64b27f8c09c8634ef71a6ec36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:25 +0000
Subject: [PATCH 11/21] fix: refuse classifier weights of different sizes and
 scores that are not numbers instead of panicking

---
 src/intent_classifier/log_reg_intent_classifier.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/intent_classifier/log_reg_intent_classifier.rs b/src/intent_classifier/log_reg_intent_classifier.rs
index 9cf6d1c..4340977 100644
--- a/src/intent_classifier/log_reg_intent_classifier.rs
+++ b/src/intent_classifier/log_reg_intent_classifier.rs
@@ -4,7 +4,7 @@ use std::iter::FromIterator;
 use std::path::Path;
 use std::sync::Arc;
 
-use failure::ResultExt;
+use failure::{bail, ResultExt};
 use itertools::Itertools;
 use log::{debug, info};
 use ndarray::prelude::*;
@@ -52,8 +52,11 @@ impl LogRegIntentClassifier {
 
         let logreg = if let (Some(intercept), Some(coeffs)) = (model.intercept, model.coeffs) {
             let arr_intercept = Array::from_vec(intercept);
-            let nb_classes = arr_intercept.dim();
-            let nb_features = coeffs[0].len();
+            let nb_classes = coeffs.len();
+            let nb_features = coeffs.first().map_or(0, |c| c.len());
+            if coeffs.iter().any(|c| c.len() != nb_features) {
+                bail!("The coeffs of the intent classifier do not all have the same size");
+            }
             // Note: the deserialized coeffs matrix is transposed
             let arr_weights =
                 Array::from_shape_fn((nb_features, nb_classes), |(i, j)| coeffs[j][i]);
@@ -144,6 +147,9 @@ impl LogRegIntentClassifier {
 
         let features = featurizer.transform(input)?;
         let scores = logreg.run(&features.view())?;
+        if scores.iter().any(|score| score.is_nan()) {
+            bail!("The scores of the intent classifier are not numbers");
+        }
 
         Ok(self
             .intent_list
-- 
2.43.0


From a36a18b1669b6e655f902415872ee4b3a77f59b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:07 +0000
Subject: [PATCH 12/21] fix: refuse an archive with an entry that cannot be
 written instead of panicking

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 9d7942b..d0ad0cb 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -79,7 +79,7 @@ pub fn extract_nlu_engine_zip_archive<R: io::Read + io::Seek>(
                     fs::create_dir_all(&p)?;
                 }
             }
-            let mut outfile = fs::File::create(&outpath).unwrap();
+            let mut outfile = fs::File::create(&outpath)?;
             io::copy(&mut file, &mut outfile)?;
         }
     }
-- 
2.43.0


From 93399962726979501d6b6c0e0af27ec702282a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:11 +0000
Subject: [PATCH 13/21] fix: tokenize the injected values of custom entities as
 the texts they are searched in

---
 src/injection/injection.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/injection/injection.rs b/src/injection/injection.rs
index 541981c..55f9703 100644
--- a/src/injection/injection.rs
+++ b/src/injection/injection.rs
@@ -124,7 +124,7 @@ impl<P: AsRef<Path>> NluInjector<P> {
                 let normalize_entity_values = normalize_entity_value(values);
                 if engine_info.custom_entities.contains(&*entity) {
                     let stemmed_entity_values = stem_entity_value(
-                        normalize_entity_values,
+                        tokenize_entity_value(normalize_entity_values, engine_info.language),
                         &engine_info,
                         &custom_parser_info,
                         maybe_stemmer,
@@ -378,6 +378,20 @@ fn normalize_entity_value(entity_values: Vec<InjectedValue>) -> Vec<GazetteerEnt
         .collect()
 }
 
+/// The custom entity parser is given tokens separated with single spaces
+fn tokenize_entity_value(
+    entity_values: Vec<GazetteerEntityValue>,
+    language: NluUtilsLanguage,
+) -> Vec<GazetteerEntityValue> {
+    entity_values
+        .into_iter()
+        .map(|value| GazetteerEntityValue {
+            raw_value: tokenize_light(&*value.raw_value, language).join(" "),
+            resolved_value: value.resolved_value,
+        })
+        .collect()
+}
+
 fn stem_entity_value(
     entity_values: Vec<GazetteerEntityValue>,
     engine_info: &NluEngineInfo,
-- 
2.43.0


From 60bb9bf669195021d8a2befa7750f5edb4ff6d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 14/21] fix: keep the previous values of an entity until the
 new ones are written

---
 src/injection/injection.rs | 41 +++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/injection/injection.rs b/src/injection/injection.rs
index 55f9703..3288ff7 100644
--- a/src/injection/injection.rs
+++ b/src/injection/injection.rs
@@ -5,7 +5,7 @@ use std::path::{Path, PathBuf};
 use std::str::FromStr;
 use std::sync::Arc;
 
-use failure::ResultExt;
+use failure::{Fail, ResultExt};
 use itertools::Itertools;
 use log::info;
 use snips_nlu_ontology::{BuiltinGazetteerEntityKind, GrammarEntityKind};
@@ -151,17 +151,7 @@ impl<P: AsRef<Path>> NluInjector<P> {
                     msg: format!("could not inject values for entity '{}'", entity),
                 })?;
 
-            fs::remove_dir_all(parser_dir.clone()).with_context(|_| {
-                NluInjectionErrorKind::InternalInjectionError {
-                    msg: format!("could not remove previous parser at {:?}", parser_dir),
-                }
-            })?;
-
-            gazetteer_parser.dump(&parser_dir).with_context(|_| {
-                NluInjectionErrorKind::InternalInjectionError {
-                    msg: format!("failed to dump gazetteer parser in {:?}", parser_dir),
-                }
-            })?;
+            replace_gazetteer_parser(&gazetteer_parser, parser_dir)?;
         }
 
         info!("Injection performed with success !");
@@ -169,6 +159,33 @@ impl<P: AsRef<Path>> NluInjector<P> {
     }
 }
 
+/// The previous parser is kept until the new one is entirely written
+fn replace_gazetteer_parser(
+    gazetteer_parser: &GazetteerEntityParser,
+    parser_dir: &PathBuf,
+) -> Result<(), NluInjectionError> {
+    let dump_error = || NluInjectionErrorKind::InternalInjectionError {
+        msg: format!("failed to dump gazetteer parser in {:?}", parser_dir),
+    };
+    let temp_dir = tempfile::Builder::new()
+        .prefix(".injection_")
+        .tempdir_in(parser_dir.parent().unwrap_or(parser_dir))
+        .with_context(|_| dump_error())?;
+    let new_parser_dir = temp_dir.path().join("new");
+    let previous_parser_dir = temp_dir.path().join("previous");
+
+    gazetteer_parser
+        .dump(&new_parser_dir)
+        .with_context(|_| dump_error())?;
+    fs::rename(parser_dir, &previous_parser_dir).with_context(|_| dump_error())?;
+    if let Err(error) = fs::rename(&new_parser_dir, parser_dir) {
+        // Restore the previous parser
+        let _ = fs::rename(&previous_parser_dir, parser_dir);
+        return Err(error.context(dump_error()).into());
+    }
+    Ok(())
+}
+
 fn get_entity_parsers_dirs(
     engine_info: &NluEngineInfo,
     maybe_builtin_parser_info: &Option<BuiltinGazetteerParserInfo>,
-- 
2.43.0


From fce4d094c28f4067d835d8a35e48714d6e09d8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:09 +0000
Subject: [PATCH 15/21] fix: refuse a word without a cluster instead of
 panicking

---
 src/resources/word_clusterer.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/resources/word_clusterer.rs b/src/resources/word_clusterer.rs
index 3c7ff03..617ae07 100644
--- a/src/resources/word_clusterer.rs
+++ b/src/resources/word_clusterer.rs
@@ -1,4 +1,5 @@
 use crate::errors::*;
+use failure::format_err;
 use itertools::Either;
 use snips_nlu_ontology::Language;
 use snips_nlu_utils::string::hash_str_to_i32;
@@ -31,10 +32,13 @@ impl HashMapWordClusterer {
         for record in csv_reader.records() {
             let elements = record?;
             let hashed_key = hash_str_to_i32(elements[0].as_ref());
+            let cluster = elements
+                .get(1)
+                .ok_or_else(|| format_err!("Missing cluster for word '{}'", &elements[0]))?;
             // Casting into u16 is attempted only when all previous clusters were converted
             // successfully
             if u16_casting_ok {
-                match u16::from_str(elements[1].as_ref()) {
+                match u16::from_str(cluster) {
                     Ok(u16_value) => {
                         u16_values.insert(hashed_key, u16_value);
                     }
@@ -44,13 +48,13 @@ impl HashMapWordClusterer {
                         for (hash, value) in u16_values.iter() {
                             str_values.insert(*hash, format!("{}", value));
                         }
-                        str_values.insert(hashed_key, elements[1].to_string());
+                        str_values.insert(hashed_key, cluster.to_string());
                         u16_casting_ok = false;
                         u16_values.clear();
                     }
                 }
             } else {
-                str_values.insert(hashed_key, elements[1].to_string());
+                str_values.insert(hashed_key, cluster.to_string());
             }
         }
         Ok(Self {
-- 
2.43.0


From 080d0c16960edd25021f8fa48b49e52bbd2563d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:09 +0000
Subject: [PATCH 16/21] fix: refuse feature indexes out of the bounds of the
 vectorizers instead of panicking

---
 src/intent_classifier/featurizer.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/intent_classifier/featurizer.rs b/src/intent_classifier/featurizer.rs
index 36cb84f..a1e8821 100644
--- a/src/intent_classifier/featurizer.rs
+++ b/src/intent_classifier/featurizer.rs
@@ -5,7 +5,7 @@ use std::path::Path;
 use std::str::FromStr;
 use std::sync::Arc;
 
-use failure::{format_err, ResultExt};
+use failure::{bail, format_err, ResultExt};
 use itertools::Itertools;
 use ndarray::prelude::*;
 use snips_nlu_ontology::{BuiltinEntityKind, Language};
@@ -122,6 +122,14 @@ impl TfidfVectorizer {
     ) -> Result<Self> {
         let vocabulary = model.vectorizer.vocab;
         let idf_diag = model.vectorizer.idf_diag;
+        if let Some((word, index)) = vocabulary.iter().find(|(_, ix)| **ix >= idf_diag.len()) {
+            bail!(
+                "Index {} of word '{}' exceeds the number of idf weights ({})",
+                index,
+                word,
+                idf_diag.len()
+            );
+        }
 
         let ontology_language = Language::from_str(model.language_code.as_ref())?;
         let language = NluUtilsLanguage::from_language(ontology_language);
@@ -217,7 +225,7 @@ impl TfidfVectorizer {
             word_clusters,
         ];
 
-        let vocabulary_size = self.vocabulary.values().max().unwrap() + 1;
+        let vocabulary_size = self.vocabulary.values().max().map_or(0, |ix| ix + 1);
         let mut features: Vec<f32> = vec![0.; vocabulary_size];
         let mut match_idx: HashSet<usize> = HashSet::new();
         for extracted_features in features_it.iter() {
@@ -284,11 +292,19 @@ impl CooccurrenceVectorizer {
             })
             .collect::<Result<Vec<BuiltinEntityKind>>>()?;
 
-        let word_pairs = model
+        let word_pairs: HashMap<WordPair, usize> = model
             .word_pairs
             .into_iter()
             .map(|(index, pairs)| (pairs, index))
             .collect();
+        if let Some((pair, index)) = word_pairs.iter().find(|(_, ix)| **ix >= word_pairs.len()) {
+            bail!(
+                "Index {} of word pair {:?} exceeds the number of word pairs ({})",
+                index,
+                pair,
+                word_pairs.len()
+            );
+        }
 
         let filter_stop_words = model.config.filter_stop_words;
         let window_size = model.config.window_size;
@@ -367,7 +383,7 @@ impl CooccurrenceVectorizer {
             .enumerate()
             .flat_map(|(i, t)| {
                 let max_index = self.window_size.map_or(num_tokens, |window_size| {
-                    min(i + window_size + 1, num_tokens)
+                    min(window_size.saturating_add(i + 1), num_tokens)
                 });
                 filtered_tokens[i + 1..max_index].iter().map(move |other| {
                     if self.keep_order || t < other {
-- 
2.43.0


From 5295e6d62806893eaef54691a78199c2b6eb8479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:09 +0000
Subject: [PATCH 17/21] fix: refuse pattern groups without a slot or an entity
 instead of panicking

---
 .../deterministic_intent_parser.rs            | 37 +++++++++++++++++--
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/intent_parser/deterministic_intent_parser.rs b/src/intent_parser/deterministic_intent_parser.rs
index 0ee4ca7..ba460a2 100644
--- a/src/intent_parser/deterministic_intent_parser.rs
+++ b/src/intent_parser/deterministic_intent_parser.rs
@@ -5,7 +5,7 @@ use std::path::Path;
 use std::str::FromStr;
 use std::sync::Arc;
 
-use failure::{format_err, ResultExt};
+use failure::{bail, format_err, ResultExt};
 use log::{debug, info};
 use regex::{Regex, RegexBuilder};
 use snips_nlu_ontology::{BuiltinEntityKind, IntentClassifierResult, Language};
@@ -68,6 +68,12 @@ impl DeterministicIntentParser {
         shared_resources: Arc<SharedResources>,
     ) -> Result<Self> {
         let language = Language::from_str(&model.language_code)?;
+        let regexes_per_intent = compile_regexes_per_intent(model.patterns)?;
+        check_group_names(
+            &regexes_per_intent,
+            &model.group_names_to_slot_names,
+            &model.slot_names_to_entities,
+        )?;
         let entity_scopes = model
             .slot_names_to_entities
             .iter()
@@ -111,7 +117,7 @@ impl DeterministicIntentParser {
             .collect();
         Ok(DeterministicIntentParser {
             language,
-            regexes_per_intent: compile_regexes_per_intent(model.patterns)?,
+            regexes_per_intent,
             group_names_to_slot_names: model.group_names_to_slot_names,
             slot_names_to_entities: model.slot_names_to_entities,
             stop_words,
@@ -335,7 +341,7 @@ impl DeterministicIntentParser {
                     }
                 })
                 .map(|(a_match, group_name)| {
-                    let group_name = group_name.split('_').collect::<Vec<&str>>()[0];
+                    let group_name = get_group_name_prefix(group_name);
                     let slot_name = self.group_names_to_slot_names[group_name].to_string();
                     let entity = self.slot_names_to_entities[intent][&slot_name].to_string();
                     let byte_range = a_match.start()..a_match.end();
@@ -382,6 +388,31 @@ fn compile_regexes_per_intent(
         .collect()
 }
 
+fn get_group_name_prefix(group_name: &str) -> &str {
+    group_name.split('_').next().unwrap_or(group_name)
+}
+
+fn check_group_names(
+    regexes_per_intent: &HashMap<IntentName, Vec<Regex>>,
+    group_names_to_slot_names: &HashMap<String, SlotName>,
+    slot_names_to_entities: &HashMap<IntentName, HashMap<SlotName, EntityName>>,
+) -> Result<()> {
+    for (intent, regexes) in regexes_per_intent {
+        for group_name in regexes.iter().flat_map(|r| r.capture_names()).flatten() {
+            let slot_name = group_names_to_slot_names
+                .get(get_group_name_prefix(group_name))
+                .ok_or_else(|| format_err!("No slot name for group '{}'", group_name))?;
+            if slot_names_to_entities
+                .get(intent)
+                .map_or(true, |entities| !entities.contains_key(slot_name))
+            {
+                bail!("No entity for slot '{}' of intent '{}'", slot_name, intent);
+            }
+        }
+    }
+    Ok(())
+}
+
 fn deduplicate_overlapping_slots(
     slots: Vec<InternalSlot>,
     language: Language,
-- 
2.43.0


From b547710ec87263a451e2e83b9309df9139d4794f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:09 +0000
Subject: [PATCH 18/21] fix: refuse unknown intent and slot ids in a lookup
 parser instead of panicking

---
 src/intent_parser/lookup_intent_parser.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/intent_parser/lookup_intent_parser.rs b/src/intent_parser/lookup_intent_parser.rs
index ec025b8..8acdb3b 100644
--- a/src/intent_parser/lookup_intent_parser.rs
+++ b/src/intent_parser/lookup_intent_parser.rs
@@ -7,7 +7,7 @@ use crate::slot_utils::*;
 use crate::utils::{deduplicate_overlapping_entities, IntentName, MatchedEntity, SlotName};
 use crate::IntentParser;
 use crate::{EntityScope, GroupedEntityScope, InputHash, IntentId, SlotId};
-use failure::ResultExt;
+use failure::{bail, ResultExt};
 use itertools::Itertools;
 use log::debug;
 use snips_nlu_ontology::{BuiltinEntityKind, IntentClassifierResult, Language};
@@ -61,6 +61,16 @@ impl LookupIntentParser {
     /// create a parser instance
     pub fn new(model: LookupParserModel, shared_resources: Arc<SharedResources>) -> Result<Self> {
         let language = Language::from_str(&model.language_code)?;
+        for (intent_id, slots_ids) in model.map.values() {
+            if *intent_id < 0 || *intent_id as usize >= model.intents_names.len() {
+                bail!("Unknown intent id in lookup parser: {}", intent_id);
+            }
+            for slot_id in slots_ids {
+                if *slot_id < 0 || *slot_id as usize >= model.slots_names.len() {
+                    bail!("Unknown slot id in lookup parser: {}", slot_id);
+                }
+            }
+        }
         let stop_words = if model.config.ignore_stop_words {
             shared_resources.stop_words.clone()
         } else {
-- 
2.43.0


From 057255f36c584e2c6784d082fed0cf459a17aef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:09 +0000
Subject: [PATCH 19/21] fix: accept any size of ngrams and chunks without
 overflow

---
 src/slot_filler/features.rs       | 8 ++++----
 src/slot_filler/features_utils.rs | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/slot_filler/features.rs b/src/slot_filler/features.rs
index b7f9657..03054a2 100644
--- a/src/slot_filler/features.rs
+++ b/src/slot_filler/features.rs
@@ -149,7 +149,7 @@ impl Feature for NgramFeature {
 
     fn compute(&self, tokens: &[Token], token_index: usize) -> Result<Option<String>> {
         // TODO we should precompute the lowercase value somewhere, perhaps use NormalizedToken ?
-        if token_index + self.ngram_size > tokens.len() {
+        if self.ngram_size > tokens.len() - token_index {
             return Ok(None);
         }
         let result = tokens[token_index..token_index + self.ngram_size]
@@ -194,9 +194,9 @@ impl Feature for ShapeNgramFeature {
     }
 
     fn compute(&self, tokens: &[Token], token_index: usize) -> Result<Option<String>> {
-        let max_len = tokens.len();
-        let end = token_index + self.ngram_size;
-        Ok(if token_index < end && end <= max_len {
+        let max_size = tokens.len() - token_index;
+        Ok(if self.ngram_size > 0 && self.ngram_size <= max_size {
+            let end = token_index + self.ngram_size;
             Some(
                 tokens[token_index..end]
                     .iter()
diff --git a/src/slot_filler/features_utils.rs b/src/slot_filler/features_utils.rs
index bde0bc3..3bb71f0 100644
--- a/src/slot_filler/features_utils.rs
+++ b/src/slot_filler/features_utils.rs
@@ -17,7 +17,7 @@ pub fn get_word_chunk(
     } else {
         chunk_start
     };
-    if start + chunk_size > word.chars().count() {
+    if start.saturating_add(chunk_size) > word.chars().count() {
         None
     } else {
         Some(word.chars().skip(start).take(chunk_size).collect())
-- 
2.43.0


From 21680ebc19a6b02bef1ef24fc5b1e1356111157a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:13 +0000
Subject: [PATCH 20/21] fix: report null archives, lists and list elements
 given to the C API instead of reading them

---
 ffi/src/lib.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ffi/src/lib.rs b/ffi/src/lib.rs
index 3c90072..65a3df1 100644
--- a/ffi/src/lib.rs
+++ b/ffi/src/lib.rs
@@ -8,7 +8,7 @@ use std::io::Cursor;
 use std::slice;
 use std::sync::Mutex;
 
-use failure::{format_err, ResultExt};
+use failure::{bail, format_err, ResultExt};
 use ffi_utils::*;
 use snips_nlu_lib::SnipsNluEngine;
 use snips_nlu_ontology_ffi_macros::{CIntentClassifierResultArray, CIntentParserResult, CSlotList};
@@ -258,6 +258,9 @@ fn create_from_zip(
     zip_size: libc::c_uint,
     client: *mut *const CSnipsNluEngine,
 ) -> Result<()> {
+    if zip.is_null() {
+        bail!("could not read archive, unexpected null pointer");
+    }
     let slice = unsafe { slice::from_raw_parts(zip, zip_size as usize) };
     let reader = Cursor::new(slice.to_owned());
     let nlu_engine = SnipsNluEngine::from_zip(reader)?;
@@ -408,8 +411,19 @@ fn get_model_version(version: *mut *const libc::c_char) -> Result<()> {
 
 unsafe fn convert_to_rust_vec<'a>(c_array: *const CStringArray) -> Result<Vec<&'a str>> {
     let array = &*c_array;
+    if array.size == 0 {
+        return Ok(vec![]);
+    }
+    if array.size < 0 || array.data.is_null() {
+        bail!("could not read string array, unexpected null pointer or negative size");
+    }
     slice::from_raw_parts(array.data, array.size as usize)
         .into_iter()
-        .map(|&ptr| Ok(CStr::from_ptr(ptr).to_str().map_err(failure::Error::from)?))
+        .map(|&ptr| {
+            if ptr.is_null() {
+                bail!("could not read string array, unexpected null element");
+            }
+            Ok(CStr::from_ptr(ptr).to_str().map_err(failure::Error::from)?)
+        })
         .collect::<Result<Vec<_>>>()
 }
-- 
2.43.0


From 3ce3b3e777e9ae46a641b84bdb9948ac04e52f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:22 +0000
Subject: [PATCH 21/21] fix: shift both ends of the slots of the deterministic
 parser

The range of a group that contains a replaced entity was shifted as a whole by
what precedes it, so that its end was wrong, or even out of the text.
---
 src/intent_parser/deterministic_intent_parser.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/intent_parser/deterministic_intent_parser.rs b/src/intent_parser/deterministic_intent_parser.rs
index ba460a2..5852581 100644
--- a/src/intent_parser/deterministic_intent_parser.rs
+++ b/src/intent_parser/deterministic_intent_parser.rs
@@ -349,9 +349,12 @@ impl DeterministicIntentParser {
                     if let Some(ranges_mapping) = builtin_entities_ranges_mapping {
                         char_range =
                             ranges_mapping.get(&char_range).cloned().unwrap_or_else(|| {
-                                let shift = get_range_shift(&char_range, ranges_mapping);
-                                let range_start = (char_range.start as i32 + shift) as usize;
-                                let range_end = (char_range.end as i32 + shift) as usize;
+                                // The matched range can contain replaced entities
+                                let match_end = char_range.end..char_range.end;
+                                let start_shift = get_range_shift(&char_range, ranges_mapping);
+                                let end_shift = get_range_shift(&match_end, ranges_mapping);
+                                let range_start = (char_range.start as i32 + start_shift) as usize;
+                                let range_end = (char_range.end as i32 + end_shift) as usize;
                                 range_start..range_end
                             });
                     }
-- 
2.43.0

