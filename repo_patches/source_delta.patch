From d2e941dc59d29c909dd1a29f88b62e6cfe89fc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:40 +0000
Subject: [PATCH 01/16] fix: write the human-readable members of a property
 only once

A property with a title, @type, description or translations was written with
duplicated members, which the crate itself then refused to parse.
---
 src/thing.rs | 64 ++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 62 insertions(+), 2 deletions(-)

diff --git a/src/thing.rs b/src/thing.rs
index 9e41789..9626f9b 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -391,8 +391,7 @@ where
 }
 
 /// An affordance that exposes the state of a `Thing`
-#[skip_serializing_none]
-#[derive(Deserialize, Serialize)]
+#[derive(Deserialize)]
 pub struct PropertyAffordance<Other: ExtendableThing> {
     /// The interaction affordance.
     #[serde(flatten)]
@@ -415,6 +414,67 @@ pub struct PropertyAffordance<Other: ExtendableThing> {
     pub other: Other::PropertyAffordance,
 }
 
+// `interaction` and `data_schema` share the human-readable fields, which must not be written twice in
+// the same JSON object: the ones of `interaction` are written only if `data_schema` lacks them.
+impl<Other> Serialize for PropertyAffordance<Other>
+where
+    Other: ExtendableThing + Serialize,
+{
+    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: Serializer,
+    {
+        #[serde_as]
+        #[skip_serializing_none]
+        #[derive(Serialize)]
+        #[serde(rename_all = "camelCase", bound = "Other: Serialize")]
+        struct Flattened<'a, Other: ExtendableThing> {
+            #[serde(rename = "@type")]
+            #[serde_as(as = "Option<&OneOrMany<_>>")]
+            attype: Option<&'a Vec<String>>,
+            title: Option<&'a String>,
+            titles: Option<&'a MultiLanguage>,
+            description: Option<&'a String>,
+            descriptions: Option<&'a MultiLanguage>,
+            forms: &'a [Form<Other>],
+            uri_variables: Option<&'a DataSchemaMap<Other>>,
+            #[serde(flatten)]
+            interaction_other: &'a Other::InteractionAffordance,
+            #[serde(flatten)]
+            data_schema: &'a DataSchemaFromOther<Other>,
+            observable: Option<bool>,
+            #[serde(flatten)]
+            other: &'a Other::PropertyAffordance,
+        }
+
+        fn unless<'a, T>(shared: &Option<T>, field: &'a Option<T>) -> Option<&'a T> {
+            field.as_ref().filter(|_| shared.is_none())
+        }
+
+        let Self {
+            interaction,
+            data_schema,
+            observable,
+            other,
+        } = self;
+
+        Flattened {
+            attype: unless(&data_schema.attype, &interaction.attype),
+            title: unless(&data_schema.title, &interaction.title),
+            titles: unless(&data_schema.titles, &interaction.titles),
+            description: unless(&data_schema.description, &interaction.description),
+            descriptions: unless(&data_schema.descriptions, &interaction.descriptions),
+            forms: &interaction.forms,
+            uri_variables: interaction.uri_variables.as_ref(),
+            interaction_other: &interaction.other,
+            data_schema,
+            observable: *observable,
+            other,
+        }
+        .serialize(serializer)
+    }
+}
+
 impl<Other> fmt::Debug for PropertyAffordance<Other>
 where
     Other: ExtendableThing,
-- 
2.43.0


From 13db8650f73267174cb800a9c99f3a3e9417d32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 02/16] fix: accept valid ranges mixing inclusive and exclusive
 limits

A range such as minimum 5, exclusiveMaximum 10 was rejected, while the empty
one with both limits exclusive and equal was accepted.
---
 src/builder/data_schema.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/builder/data_schema.rs b/src/builder/data_schema.rs
index 55d3d4a..d1bbd41 100644
--- a/src/builder/data_schema.rs
+++ b/src/builder/data_schema.rs
@@ -3818,6 +3818,17 @@ impl<DS, AS, OS> CheckableDataSchema for PartialDataSchema<DS, AS, OS> {
     }
 }
 
+// Only two inclusive limits can be satisfied by the same value.
+fn is_empty_range<T: PartialOrd>(min: Minimum<T>, max: Maximum<T>) -> bool {
+    match (min, max) {
+        (Minimum::Inclusive(min), Maximum::Inclusive(max)) => min > max,
+        (
+            Minimum::Inclusive(min) | Minimum::Exclusive(min),
+            Maximum::Inclusive(max) | Maximum::Exclusive(max),
+        ) => min >= max,
+    }
+}
+
 pub(super) fn check_data_schema_subtype<DS, AS, OS>(
     mut subtype: &Option<UncheckedDataSchemaSubtype<DS, AS, OS>>,
 ) -> Result<(), Error> {
@@ -3849,9 +3860,7 @@ pub(super) fn check_data_schema_subtype<DS, AS, OS>(
                     match (number.minimum, number.maximum) {
                         (Some(x), _) if x.is_nan() => return Err(Error::NanMinMax),
                         (_, Some(x)) if x.is_nan() => return Err(Error::NanMinMax),
-                        (Some(min), Some(max))
-                            if matches!(min.partial_cmp(&max), None | Some(Ordering::Greater)) =>
-                        {
+                        (Some(min), Some(max)) if is_empty_range(min, max) => {
                             return Err(Error::InvalidMinMax)
                         }
                         _ => {}
@@ -3865,9 +3874,7 @@ pub(super) fn check_data_schema_subtype<DS, AS, OS>(
                     }
                 }
                 Integer(integer) => match (integer.minimum, integer.maximum) {
-                    (Some(min), Some(max))
-                        if matches!(min.partial_cmp(&max), None | Some(Ordering::Greater)) =>
-                    {
+                    (Some(min), Some(max)) if is_empty_range(min, max) => {
                         return Err(Error::InvalidMinMax)
                     }
                     _ => {}
-- 
2.43.0


From 49df8c3f963b2610a2aefa69ac0e1b5740f67bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:27 +0000
Subject: [PATCH 03/16] fix: reject NaN as multipleOf

---
 src/builder/data_schema.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builder/data_schema.rs b/src/builder/data_schema.rs
index d1bbd41..ecc6baf 100644
--- a/src/builder/data_schema.rs
+++ b/src/builder/data_schema.rs
@@ -3867,7 +3867,7 @@ pub(super) fn check_data_schema_subtype<DS, AS, OS>(
                     }
 
                     match number.multiple_of {
-                        Some(multiple_of) if multiple_of <= 0. => {
+                        Some(multiple_of) if multiple_of.is_nan() || multiple_of <= 0. => {
                             return Err(Error::InvalidMultipleOf)
                         }
                         _ => {}
-- 
2.43.0


From 22e362b6e0942f9bb9103cac64f486dba0ccc0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:36 +0000
Subject: [PATCH 04/16] fix: reject strings whose minimum length is above the
 maximum

---
 src/builder/data_schema.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/builder/data_schema.rs b/src/builder/data_schema.rs
index ecc6baf..438ee43 100644
--- a/src/builder/data_schema.rs
+++ b/src/builder/data_schema.rs
@@ -3883,7 +3883,11 @@ pub(super) fn check_data_schema_subtype<DS, AS, OS>(
                     properties: Some(properties),
                     ..
                 }) => stack.extend(properties.values()),
-                Object(_) | String(_) | Boolean | Null => {}
+                String(string) => match (string.min_length, string.max_length) {
+                    (Some(min), Some(max)) if min > max => return Err(Error::InvalidMinMax),
+                    _ => {}
+                },
+                Object(_) | Boolean | Null => {}
             }
         }
 
-- 
2.43.0


From 02d864f9997630570c92a803a2526b51ba7fd6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:46 +0000
Subject: [PATCH 05/16] fix: do not write a null model in the version
 information

---
 src/thing.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thing.rs b/src/thing.rs
index 9626f9b..74c2b58 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -704,6 +704,7 @@ where
 }
 
 /// Metadata of a `Thing` that provides version information about the _Thing Description_ document.
+#[skip_serializing_none]
 #[derive(Debug, Clone, Default, PartialEq, Eq, Hash, Deserialize, Serialize)]
 pub struct VersionInfo {
     /// The version indicator of this _Thing Description_ instance.
-- 
2.43.0


From f35e11e4f93d6faa37ae21801f4d3eef505573d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:57 +0000
Subject: [PATCH 06/16] fix: use the minItems and maxItems names of the
 vocabulary for arrays

---
 src/thing.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thing.rs b/src/thing.rs
index 74c2b58..8cdeaec 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -840,6 +840,7 @@ impl<DS, AS, OS> Default for DataSchemaSubtype<DS, AS, OS> {
 #[serde_as]
 #[skip_serializing_none]
 #[derive(Clone, Debug, PartialEq, Deserialize, Serialize)]
+#[serde(rename_all = "camelCase")]
 #[serde(bound(
     deserialize = "DS: Deserialize<'de>, AS: Deserialize<'de>, OS: Deserialize<'de>",
     serialize = "DS: Serialize, AS: Serialize, OS: Serialize"
-- 
2.43.0


From 09a63366b18b4217d568fe848265c7b8628106e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:06 +0000
Subject: [PATCH 07/16] fix: read an HTTP response without headers

---
 src/protocol/http.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/http.rs b/src/protocol/http.rs
index 23c953e..9190efc 100644
--- a/src/protocol/http.rs
+++ b/src/protocol/http.rs
@@ -32,7 +32,7 @@ pub struct MessageHeader {
 #[derive(Debug, Clone, Deserialize, Serialize, Default, PartialEq, Eq, Hash)]
 pub struct Response {
     #[serde(rename = "htv:headers")]
-    #[serde(skip_serializing_if = "Vec::is_empty")]
+    #[serde(skip_serializing_if = "Vec::is_empty", default)]
     pub headers: Vec<MessageHeader>,
     #[serde(rename = "htv:statusCodeValue")]
     pub status_code_value: Option<usize>,
-- 
2.43.0


From b351339cac1cc66cd72df0d2535a4f0d373111d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:18 +0000
Subject: [PATCH 08/16] fix: keep a null constant or default value of a data
 schema when reading

---
 src/thing.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/thing.rs b/src/thing.rs
index 8cdeaec..4cb39dc 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -751,10 +751,11 @@ pub struct DataSchema<DS, AS, OS> {
     pub descriptions: Option<MultiLanguage>,
 
     /// A constant value for the data schema.
-    #[serde(rename = "const")]
+    #[serde(rename = "const", default, deserialize_with = "some_value")]
     pub constant: Option<Value>,
 
     /// A default value for the data schema.
+    #[serde(default, deserialize_with = "some_value")]
     pub default: Option<Value>,
 
     /// Unit information used for the data schema (e.g. Km, g, m/s^2)
@@ -787,6 +788,14 @@ pub struct DataSchema<DS, AS, OS> {
     pub other: DS,
 }
 
+// A `null` is a value like any other, it must not be confused with a missing field.
+fn some_value<'de, D>(deserializer: D) -> Result<Option<Value>, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    Value::deserialize(deserializer).map(Some)
+}
+
 pub(crate) type DataSchemaFromOther<Other> = DataSchema<
     <Other as ExtendableThing>::DataSchema,
     <Other as ExtendableThing>::ArraySchema,
-- 
2.43.0


From 3a0e62b6534a72c72c10ec4ab68570cd2d273711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:23 +0000
Subject: [PATCH 09/16] fix: check the limits of every data schema

Schema definitions, URI variables and event data responses were not checked.
---
 src/builder.rs            |  8 ++++++++
 src/builder/affordance.rs | 21 +++++++++++++--------
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 69dc9f4..5388fe1 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -820,6 +820,9 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
                     .then_some(())
                     .ok_or_else(|| Error::MissingSchemaDefinition(security_name.to_string()))
             })?;
+        schema_definitions
+            .values()
+            .try_for_each(CheckableDataSchema::check)?;
         let schema_definitions = schema_definitions
             .into_iter()
             .map(|(key, value)| value.try_into().map(|value| (key, value)))
@@ -872,6 +875,10 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
         if invalid_uri_variables {
             return Err(Error::InvalidUriVariables);
         }
+        uri_variables
+            .iter()
+            .flat_map(HashMap::values)
+            .try_for_each(CheckableDataSchema::check)?;
 
         let uri_variables = uri_variables
             .map(|uri_variables| {
@@ -921,6 +928,7 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
                 [
                     event.subscription.as_ref(),
                     event.data.as_ref(),
+                    event.data_response.as_ref(),
                     event.cancellation.as_ref(),
                 ]
             },
diff --git a/src/builder/affordance.rs b/src/builder/affordance.rs
index a594013..5d67ad5 100644
--- a/src/builder/affordance.rs
+++ b/src/builder/affordance.rs
@@ -23,12 +23,12 @@ use super::{
         impl_inner_delegate_schema_builder_like_number,
         impl_inner_delegate_schema_builder_like_object,
         impl_inner_delegate_schema_builder_like_tuple, impl_inner_delegate_schema_builder_like_vec,
-        uri_variables_contains_arrays_objects, BuildableDataSchema, DataSchemaBuilder,
-        EnumerableDataSchema, IntegerDataSchemaBuilderLike, NumberDataSchemaBuilderLike,
-        ObjectDataSchemaBuilderLike, PartialDataSchema, PartialDataSchemaBuilder,
-        ReadableWriteableDataSchema, SpecializableDataSchema, TupleDataSchemaBuilderLike,
-        UncheckedDataSchemaFromOther, UncheckedDataSchemaMap, UnionDataSchema,
-        VecDataSchemaBuilderLike,
+        uri_variables_contains_arrays_objects, BuildableDataSchema, CheckableDataSchema,
+        DataSchemaBuilder, EnumerableDataSchema, IntegerDataSchemaBuilderLike,
+        NumberDataSchemaBuilderLike, ObjectDataSchemaBuilderLike, PartialDataSchema,
+        PartialDataSchemaBuilder, ReadableWriteableDataSchema, SpecializableDataSchema,
+        TupleDataSchemaBuilderLike, UncheckedDataSchemaFromOther, UncheckedDataSchemaMap,
+        UnionDataSchema, VecDataSchemaBuilderLike,
     },
     human_readable_info::{
         impl_delegate_buildable_hr_info, BuildableHumanReadableInfo, HumanReadableInfo,
@@ -2460,7 +2460,9 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
             return Err(Error::InvalidUriVariables);
         }
 
-        Ok(())
+        self.uri_variables
+            .values()
+            .try_for_each(CheckableDataSchema::check)
     }
 }
 
@@ -2486,7 +2488,10 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
             return Err(Error::InvalidUriVariables);
         }
 
-        Ok(())
+        self.partial
+            .uri_variables
+            .values()
+            .try_for_each(CheckableDataSchema::check)
     }
 }
 
-- 
2.43.0


From 8b97189d51fcca98f5b0faa01d40387cbd04b4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:58 +0000
Subject: [PATCH 10/16] fix: check the schema names used by the forms of an
 affordance

---
 src/builder.rs            | 43 +++++++++++++++++++++++++--------------
 src/builder/affordance.rs | 17 ++++++++++++----
 2 files changed, 41 insertions(+), 19 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 5388fe1..7ac20c0 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -845,11 +845,6 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
             })
             .transpose()?;
 
-        let schema_definitions = schema_definitions
-            .is_empty()
-            .not()
-            .then_some(schema_definitions);
-
         let context = {
             // TODO: improve this
             if context.len() == 1 {
@@ -904,6 +899,7 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
                 )
             },
             &security_definitions,
+            &schema_definitions,
         )?;
         let actions = try_build_affordance(
             actions,
@@ -919,6 +915,7 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
                 )
             },
             &security_definitions,
+            &schema_definitions,
         )?;
         let events = try_build_affordance(
             events,
@@ -939,7 +936,13 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
                 )
             },
             &security_definitions,
+            &schema_definitions,
         )?;
+        let schema_definitions = schema_definitions
+            .is_empty()
+            .not()
+            .then_some(schema_definitions);
+
         let links = links
             .map(|links| links.into_iter().map(TryInto::try_into).collect())
             .transpose()?;
@@ -1042,15 +1045,7 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
             }
         }
 
-        additional_responses
-            .iter()
-            .flat_map(|additional_response| additional_response.schema.as_ref())
-            .try_for_each(|schema| {
-                schema_definitions
-                    .contains_key(schema)
-                    .then_some(())
-                    .ok_or_else(|| Error::MissingSchemaDefinition(schema.clone()))
-            })?;
+        check_additional_responses(&additional_responses, schema_definitions)?;
         let additional_responses = additional_responses
             .is_empty()
             .not()
@@ -1688,13 +1683,15 @@ where
     }
 }
 
-fn try_build_affordance<A, F, IA, G, DS, T, H, const N: usize>(
+#[allow(clippy::too_many_arguments)]
+fn try_build_affordance<A, F, IA, G, DS, T, H, S, const N: usize>(
     affordances: Vec<AffordanceBuilder<A>>,
     affordance_type: AffordanceType,
     mut get_interaction: F,
     mut get_data_schemas: G,
     is_allowed_op: H,
     security_definitions: &HashMap<String, SecurityScheme>,
+    schema_definitions: &HashMap<String, S>,
 ) -> Result<Option<HashMap<String, T>>, Error>
 where
     F: FnMut(&A) -> &IA,
@@ -1718,6 +1715,7 @@ where
 
                     get_interaction(&affordance).check(
                         security_definitions,
+                        schema_definitions,
                         affordance_type,
                         &is_allowed_op,
                     )?;
@@ -1744,6 +1742,21 @@ where
         .transpose()
 }
 
+fn check_additional_responses<S>(
+    additional_responses: &[AdditionalExpectedResponse],
+    schema_definitions: &HashMap<String, S>,
+) -> Result<(), Error> {
+    additional_responses
+        .iter()
+        .flat_map(|additional_response| additional_response.schema.as_ref())
+        .try_for_each(|schema| {
+            schema_definitions
+                .contains_key(schema)
+                .then_some(())
+                .ok_or_else(|| Error::MissingSchemaDefinition(schema.clone()))
+        })
+}
+
 enum Context {
     Simple(String),
     Map(HashMap<String, String>),
diff --git a/src/builder/affordance.rs b/src/builder/affordance.rs
index 5d67ad5..0ef1394 100644
--- a/src/builder/affordance.rs
+++ b/src/builder/affordance.rs
@@ -18,6 +18,7 @@ use crate::{
 };
 
 use super::{
+    check_additional_responses,
     data_schema::{
         buildable_data_schema_delegate, impl_inner_delegate_schema_builder_like_integer,
         impl_inner_delegate_schema_builder_like_number,
@@ -2428,9 +2429,10 @@ where
 }
 
 pub(super) trait CheckableInteractionAffordanceBuilder {
-    fn check<F>(
+    fn check<F, S>(
         &self,
         security_definitions: &HashMap<String, SecurityScheme>,
+        schema_definitions: &HashMap<String, S>,
         affordance_type: AffordanceType,
         is_allowed_op: F,
     ) -> Result<(), Error>
@@ -2441,9 +2443,10 @@ pub(super) trait CheckableInteractionAffordanceBuilder {
 impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
     for PartialInteractionAffordanceBuilder<Other, Other::InteractionAffordance>
 {
-    fn check<F>(
+    fn check<F, S>(
         &self,
         security_definitions: &HashMap<String, SecurityScheme>,
+        schema_definitions: &HashMap<String, S>,
         affordance_type: AffordanceType,
         is_allowed_op: F,
     ) -> Result<(), Error>
@@ -2453,6 +2456,7 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
         check_form_builders(
             &self.forms,
             security_definitions,
+            schema_definitions,
             affordance_type,
             is_allowed_op,
         )?;
@@ -2469,9 +2473,10 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
 impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
     for InteractionAffordanceBuilder<Other, Other::InteractionAffordance>
 {
-    fn check<F>(
+    fn check<F, S>(
         &self,
         security_definitions: &HashMap<String, SecurityScheme>,
+        schema_definitions: &HashMap<String, S>,
         affordance_type: AffordanceType,
         is_allowed_op: F,
     ) -> Result<(), Error>
@@ -2481,6 +2486,7 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
         check_form_builders(
             &self.partial.forms,
             security_definitions,
+            schema_definitions,
             affordance_type,
             is_allowed_op,
         )?;
@@ -2495,9 +2501,10 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
     }
 }
 
-pub(super) fn check_form_builders<Other, F>(
+pub(super) fn check_form_builders<Other, F, S>(
     forms: &[FormBuilder<Other, String, Other::Form>],
     security_definitions: &HashMap<String, SecurityScheme>,
+    schema_definitions: &HashMap<String, S>,
     affordance_type: AffordanceType,
     is_allowed_op: F,
 ) -> Result<(), Error>
@@ -2528,6 +2535,8 @@ where
                 })
             })
             .transpose()?;
+
+        check_additional_responses(&form.additional_responses, schema_definitions)?;
     }
 
     Ok(())
-- 
2.43.0


From 171a2d5be94c6ab77e14b7cdda0443bd151ced8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:48 +0000
Subject: [PATCH 11/16] fix: read the dataResponse member of an event

---
 src/thing.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thing.rs b/src/thing.rs
index 4cb39dc..2ab0da1 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -638,6 +638,7 @@ pub struct EventAffordance<Other: ExtendableThing> {
     pub data: Option<DataSchemaFromOther<Other>>,
 
     /// Data schema of the responsed messages sent by the consumer in a response to a data message.
+    #[serde(alias = "dataResponse")]
     pub data_response: Option<DataSchemaFromOther<Other>>,
 
     /// Data that needs to be passed to cancel a subscription.
-- 
2.43.0


From b71dcd56a369c02f331c3bba678947f5d97758e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:57 +0000
Subject: [PATCH 12/16] fix: start the data of a custom security scheme as an
 empty object

---
 src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 7ac20c0..2221bd1 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -2155,7 +2155,7 @@ pub mod security {
                 name,
                 subtype: UnknownSecuritySchemeSubtype {
                     scheme,
-                    data: Value::Null,
+                    data: Value::Object(Default::default()),
                 },
                 required,
             }
-- 
2.43.0


From 3990bdf3362447dae237f70bc1617116c6984ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:52 +0000
Subject: [PATCH 13/16] fix: use the default quality of protection when reading
 a digest scheme

---
 src/thing.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thing.rs b/src/thing.rs
index 2ab0da1..467ad39 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -1341,6 +1341,7 @@ impl SecurityAuthenticationLocation {
 #[derive(Clone, Debug, PartialEq, Eq, Hash, Deserialize, Serialize)]
 pub struct DigestSecurityScheme {
     /// Quality of protection.
+    #[serde(default)]
     pub qop: QualityOfProtection,
 
     /// The location of security authentication information.
-- 
2.43.0


From 0e7ead42040d498a3287407261d8dee753a7d3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:02 +0000
Subject: [PATCH 14/16] fix: read an empty list of operations as the default
 operations

---
 src/thing.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/thing.rs b/src/thing.rs
index 467ad39..d85fa07 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -1759,8 +1759,11 @@ where
     where
         D: Deserializer<'de>,
     {
-        let ops = Option::<OneOrMany<_>>::deserialize_as(deserializer)?;
-        Ok(ops.map(Self::Custom).unwrap_or(Self::Default))
+        let ops: Option<Vec<_>> = Option::<OneOrMany<_>>::deserialize_as(deserializer)?;
+        Ok(ops
+            .filter(|ops| !ops.is_empty())
+            .map(Self::Custom)
+            .unwrap_or(Self::Default))
     }
 }
 
-- 
2.43.0


From 093b0d1d3a575c4fba82fcbe47e782d0bab5acd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:49 +0000
Subject: [PATCH 15/16] fix: keep language tags as they are given to the
 builders

---
 src/builder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 2221bd1..5beaf35 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1806,7 +1806,7 @@ impl<T> MultiLanguageBuilder<T> {
             .map(|(k, v)| {
                 // See https://github.com/oxigraph/oxilangtag/issues/4 for the reason of this,
                 // which unnecessarily allocate.
-                k.parse()
+                LanguageTag::parse(k.clone())
                     .map(|k| (k, v))
                     .map_err(|_| Error::InvalidLanguageTag(k))
             })
@@ -3033,7 +3033,9 @@ impl TryFrom<UncheckedLink> for Link {
 
         let hreflang = hreflang
             .into_iter()
-            .map(|lang| lang.parse().map_err(|_| Error::InvalidLanguageTag(lang)))
+            .map(|lang| {
+                LanguageTag::parse(lang.clone()).map_err(|_| Error::InvalidLanguageTag(lang))
+            })
             .collect::<Result<Vec<_>, _>>()?;
         let hreflang = hreflang.is_empty().not().then_some(hreflang);
 
-- 
2.43.0


From 5dfcda398c79ade3dcd7c8a586d5775310f0287a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:13 +0000
Subject: [PATCH 16/16] fix: read a combo security scheme with members that are
 not known

---
 src/thing.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/thing.rs b/src/thing.rs
index d85fa07..e2150dd 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -1270,7 +1270,7 @@ impl Default for SecuritySchemeSubtype {
 /// A combination of security schemes.
 #[serde_as]
 #[derive(Clone, Debug, PartialEq, Eq, Hash, Deserialize, Serialize)]
-#[serde(rename_all = "camelCase")]
+#[serde(rename_all = "camelCase", try_from = "ComboSecuritySchemeFields")]
 pub enum ComboSecurityScheme {
     /// Two or more strings identifying other named security scheme definitions, any one of which,
     /// when satisfied, will allow access.
@@ -1281,6 +1281,33 @@ pub enum ComboSecurityScheme {
     AllOf(#[serde_as(as = "OneOrMany<_>")] Vec<String>),
 }
 
+// An enum is read only from an object with exactly one field, but any other field of the scheme has to
+// be ignored.
+#[serde_as]
+#[derive(Deserialize)]
+#[serde(rename_all = "camelCase")]
+struct ComboSecuritySchemeFields {
+    #[serde(default)]
+    #[serde_as(as = "Option<OneOrMany<_>>")]
+    one_of: Option<Vec<String>>,
+
+    #[serde(default)]
+    #[serde_as(as = "Option<OneOrMany<_>>")]
+    all_of: Option<Vec<String>>,
+}
+
+impl TryFrom<ComboSecuritySchemeFields> for ComboSecurityScheme {
+    type Error = &'static str;
+
+    fn try_from(fields: ComboSecuritySchemeFields) -> Result<Self, Self::Error> {
+        match (fields.one_of, fields.all_of) {
+            (Some(names), None) => Ok(Self::OneOf(names)),
+            (None, Some(names)) => Ok(Self::AllOf(names)),
+            _ => Err("a combo security scheme needs either `oneOf` or `allOf`"),
+        }
+    }
+}
+
 /// Basic Authentication ([RFC7617](https://httpwg.org/specs/rfc7617.html)) security configuration
 #[skip_serializing_none]
 #[derive(Clone, Debug, PartialEq, Eq, Hash, Deserialize, Serialize)]
-- 
2.43.0

