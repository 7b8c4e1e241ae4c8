From 3fea30d69d17e2a29d12678d7d2801fdbaf67793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:13 +0000
Subject: [PATCH 01/15] fix: keep a list level when the outer list holds
 non-null lists

ModifierBuilder::listize reset the modifiers when the current state was
NullableList, so [[T]!] lost its inner list.
---
 src/graphql/schema/field.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/graphql/schema/field.rs b/src/graphql/schema/field.rs
index 6bd21e4..59c427b 100644
--- a/src/graphql/schema/field.rs
+++ b/src/graphql/schema/field.rs
@@ -119,9 +119,10 @@ impl ModifierBuilder {
                     .push(FieldTypeModifier::NullableListOfNullable);
                 FieldTypeModifier::NullableListOfNullable
             }
-            old_concrete => {
-                self.higher_order_modifiers.push(old_concrete.clone());
-                FieldTypeModifier::new()
+            FieldTypeModifier::NullableList => {
+                self.higher_order_modifiers
+                    .push(FieldTypeModifier::NullableList);
+                FieldTypeModifier::ListOfNullable
             }
         };
     }
-- 
2.43.0


From ee1fbd6811476bfab70d658a5fdac866a6c4709e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 02/15] fix: keep nested lists of input object fields

Only the innermost modifier of an input object field was used, so
[[String!]!]! came out as string[].
---
 src/graphql/schema/field.rs |  5 +++++
 src/typescript.rs           | 28 ++++++++++++----------------
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/graphql/schema/field.rs b/src/graphql/schema/field.rs
index 59c427b..1c9000c 100644
--- a/src/graphql/schema/field.rs
+++ b/src/graphql/schema/field.rs
@@ -149,6 +149,11 @@ impl FieldTypeModifiers {
     pub fn rest_modifiers_iter(&self) -> impl Iterator<Item = &'_ FieldTypeModifier> {
         self.rest.iter()
     }
+
+    /// Modifier that applies to the whole type, as opposed to its inner lists
+    pub fn outermost(&self) -> &FieldTypeModifier {
+        self.rest.last().unwrap_or(&self.last)
+    }
 }
 
 #[derive(Debug)]
diff --git a/src/typescript.rs b/src/typescript.rs
index 8ac2104..9b85024 100644
--- a/src/typescript.rs
+++ b/src/typescript.rs
@@ -102,23 +102,19 @@ fn input_def_from_type(
     for (name, field) in sorted.into_iter() {
         let doc = compile_documentation(&field.documentation, field.deprecated, 2);
         let field_type = from_input_def_field_def(config, name, field)?;
-        let ts_field = match field.type_description.type_modifiers().last() {
-            schema_field::FieldTypeModifier::None => format!("  {doc}{name}: {field_type};"),
-            schema_field::FieldTypeModifier::Nullable => {
-                format!("  {doc}{name}?: {field_type} | null;")
-            }
-            schema_field::FieldTypeModifier::NullableList => {
-                format!("  {doc}{name}?: {field_type}[] | null;")
-            }
-            schema_field::FieldTypeModifier::List => {
-                format!("  {doc}{name}: {field_type}[];")
-            }
-            schema_field::FieldTypeModifier::ListOfNullable => {
-                format!("  {doc}{name}: ({field_type} | null)[];")
-            }
-            schema_field::FieldTypeModifier::NullableListOfNullable => {
-                format!("  {doc}{name}?: ({field_type} | null)[] | null;")
+        let type_modifiers = field.type_description.type_modifiers();
+        let type_def = prop_type_def(
+            type_modifiers.rest_modifiers_iter(),
+            type_modifiers.last(),
+            field_type,
+        );
+        let ts_field = match type_modifiers.outermost() {
+            schema_field::FieldTypeModifier::Nullable
+            | schema_field::FieldTypeModifier::NullableList
+            | schema_field::FieldTypeModifier::NullableListOfNullable => {
+                format!("  {doc}{name}?: {type_def};")
             }
+            _ => format!("  {doc}{name}: {type_def};"),
         };
         fields.push(ts_field);
     }
-- 
2.43.0


From f92744af49b94ea9f7768e298d463955aaf988b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:36 +0000
Subject: [PATCH 03/15] fix: do not overflow the stack on recursive input
 objects

---
 src/typescript.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/typescript.rs b/src/typescript.rs
index 9b85024..56e3277 100644
--- a/src/typescript.rs
+++ b/src/typescript.rs
@@ -167,8 +167,10 @@ fn add_sub_input_object_field<'a>(
             let global_type = schema
                 .get_type_for_name(type_name)
                 .ok_or_else(|| Error::MissingType(type_name.to_string()))?;
-            name_to_type.insert(type_name, global_type);
-            add_sub_input_objects(name_to_type, schema, global_type)?;
+            // Input objects can refer to themselves, so only descend the first time
+            if name_to_type.insert(type_name, global_type).is_none() {
+                add_sub_input_objects(name_to_type, schema, global_type)?;
+            }
         }
         schema_field::FieldTypeDefinition::Enum => {
             let global_type = schema
-- 
2.43.0


From c3a93b9fc9af6731ecd672f1ff2d275ac5eb1c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:37 +0000
Subject: [PATCH 04/15] fix: do not panic on an import without a closing quote

The opening quote was taken as the closing one for '#import "', making
the slice bounds invalid. An unterminated path also lost its last byte,
which panicked in the middle of a multi byte character.
---
 src/graphql.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index a07afad..45bb93e 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -104,10 +104,10 @@ fn get_file_path_of_fragment(
     import_comment: &str,
     current_dir: &Path,
 ) -> PathBuf {
-    let last_quote = import_comment
+    let quoted_path = &import_comment[IMPORT_START.len()..];
+    let import_path = quoted_path
         .rfind('"')
-        .unwrap_or(import_comment.len() - 1);
-    let import_path = &import_comment[IMPORT_START.len()..last_quote];
+        .map_or(quoted_path, |last_quote| &quoted_path[..last_quote]);
 
     config
         .root_dir_import_prefix
-- 
2.43.0


From 4e7d758b23293852e9e1f18b43bb4fe170fa9701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:13 +0000
Subject: [PATCH 05/15] fix: do not overflow the stack on cyclic imports

---
 src/graphql.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index 45bb93e..fdd068a 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -128,6 +128,7 @@ fn add_imported_fragments(
     current_file: &Path,
     current_file_contents: &str,
     import_contents: &mut HashMap<PathBuf, (String, LocationInformation)>,
+    followed_files: &mut HashSet<PathBuf>,
     messages: &mut Vec<PrintableMessage>,
 ) {
     let mut current_dir = current_file.to_owned();
@@ -155,13 +156,20 @@ fn add_imported_fragments(
                 continue;
             }
         };
-        add_imported_fragments(
-            config,
-            &file_path,
-            &other_file_contents,
-            import_contents,
-            messages,
-        );
+        // Imports can be cyclic, so only follow those of each file once
+        let canonical_path = file_path
+            .canonicalize()
+            .unwrap_or_else(|_| file_path.clone());
+        if followed_files.insert(canonical_path) {
+            add_imported_fragments(
+                config,
+                &file_path,
+                &other_file_contents,
+                import_contents,
+                followed_files,
+                messages,
+            );
+        }
         import_contents.insert(file_path, (other_file_contents, location));
     }
 }
@@ -214,6 +222,7 @@ pub fn compile_file(
         path,
         &contents,
         &mut imported_contents,
+        &mut HashSet::new(),
         &mut messages,
     );
     let parsed_imported_fragments =
-- 
2.43.0


From 356dbea6821ab079c2f3e65354ac6d4095d89ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:14 +0000
Subject: [PATCH 06/15] fix: do not let documentation end its own comment

Removing the inner comment end of '**//' leaves a '*/' behind.
---
 src/typescript.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/typescript.rs b/src/typescript.rs
index 56e3277..720e3b0 100644
--- a/src/typescript.rs
+++ b/src/typescript.rs
@@ -242,9 +242,15 @@ fn compile_documentation(
     let tab = " ".repeat(tab_width);
 
     let processed_documentation = documentation.as_deref().map(|docs| {
-        docs.replace('\n', &format!("\n {tab}* "))
+        let mut processed = docs
+            .replace('\n', &format!("\n {tab}* "))
             .replace("/*", EMPTY)
-            .replace("*/", EMPTY)
+            .replace("*/", EMPTY);
+        // Removing an end of comment can leave another one behind, as with `**//`
+        while processed.contains("*/") {
+            processed = processed.replace("*/", EMPTY);
+        }
+        processed
     });
 
     let wrap = |content: &str| format!("/**\n {tab}* {content}\n {tab}*/\n{tab}");
-- 
2.43.0


From b99371a5220e25f1181e348f2c3b7e313f369f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 07/15] fix: always compile with at least one thread

With zero threads nothing was compiled and qlc exited successfully.
---
 src/cli.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index bb46df6..bea2423 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -442,7 +442,8 @@ impl RuntimeConfig {
             number_threads: cli_args
                 .num_threads
                 .or(config_file_args.num_threads)
-                .unwrap_or_else(|| std::cmp::min(num_cpus::get(), 8)),
+                .unwrap_or_else(|| std::cmp::min(num_cpus::get(), 8))
+                .max(1), // Nothing would be compiled without a thread
             root_dir_import_prefix: cli_args
                 .root_dir_import_prefix
                 .or(config_file_args.root_dir_import_prefix),
-- 
2.43.0


From 4f8413a980e67ab18f4e991f0bb4f4702b4d608f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 08/15] fix: keep the custom scalar prefix of the config file
 with --use-custom-scalars

The configured prefix was dropped if custom scalars were only enabled on
the command line.
---
 src/cli.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index bea2423..c4a5271 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -434,11 +434,9 @@ impl RuntimeConfig {
                 || config_file_args.use_custom_scalars.unwrap_or(false),
             disable_readonly_types: cli_args.disable_readonly_types
                 || config_file_args.disable_readonly_types.unwrap_or(false),
-            custom_scalar_prefix: cli_args.custom_scalar_prefix.or_else(|| {
-                config_file_args
-                    .use_custom_scalars
-                    .and(config_file_args.custom_scalar_prefix)
-            }),
+            custom_scalar_prefix: cli_args
+                .custom_scalar_prefix
+                .or(config_file_args.custom_scalar_prefix),
             number_threads: cli_args
                 .num_threads
                 .or(config_file_args.num_threads)
-- 
2.43.0


From 2b477e4bed96bb8fc1ee4166cb0f107190bc4aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 09/15] fix: pluralize the number of warnings by their own
 count

---
 src/cli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index c4a5271..5c9b4ba 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -543,7 +543,7 @@ pub fn print_exit_info(exit_info: impl ExitInformation) -> ! {
         );
     }
     if warning_count > 0 {
-        let plural = if error_count > 1 { "s" } else { "" };
+        let plural = if warning_count > 1 { "s" } else { "" };
         println!(
             "{}",
             PrintableMessage::new_simple_compile_warning(&format!(
-- 
2.43.0


From de06b4524c463ff03b723b368068653eb7aabccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 10/15] fix: only smoosh types whose fields have the same types

Possible types were merged whenever the names of their fields matched, so
all but one got the wrong types if the fields behind an alias or an
inline fragment differed.
---
 src/graphql/ir.rs           | 54 +++++++++++++++++++++++++++++++++++++
 src/graphql/schema/field.rs |  6 ++---
 src/typescript.rs           | 20 +++++++++-----
 3 files changed, 70 insertions(+), 10 deletions(-)

diff --git a/src/graphql/ir.rs b/src/graphql/ir.rs
index c726853..d9b8bd6 100644
--- a/src/graphql/ir.rs
+++ b/src/graphql/ir.rs
@@ -485,6 +485,60 @@ pub struct ComplexCollection {
     pub possibilities: Vec<Complex>,
 }
 
+impl Field {
+    fn has_same_type(&self, other: &Self) -> bool {
+        self.prop_name == other.prop_name
+            && self.type_modifiers == other.type_modifiers
+            && self.type_ir.has_same_type(&other.type_ir)
+    }
+}
+
+impl FieldType {
+    fn has_same_type(&self, other: &Self) -> bool {
+        match (self, other) {
+            (FieldType::TypeName, FieldType::TypeName) => true,
+            (FieldType::Enum(name), FieldType::Enum(other_name)) => name == other_name,
+            (FieldType::Scalar(scalar), FieldType::Scalar(other_scalar)) => scalar == other_scalar,
+            (FieldType::Complex(collection), FieldType::Complex(other_collection)) => {
+                collection.has_same_type(other_collection)
+            }
+            _ => false,
+        }
+    }
+}
+
+impl Complex {
+    /// Whether both have the very same fields, regardless of their documentation
+    pub fn has_same_fields(&self, other: &Self) -> bool {
+        if self.fields.len() != other.fields.len() {
+            return false;
+        }
+        for (index, field) in self.fields.iter().enumerate() {
+            if !field.has_same_type(&other.fields[index]) {
+                return false;
+            }
+        }
+        true
+    }
+}
+
+impl ComplexCollection {
+    fn has_same_type(&self, other: &Self) -> bool {
+        if self.possibilities.len() != other.possibilities.len() {
+            return false;
+        }
+        for (index, possibility) in self.possibilities.iter().enumerate() {
+            let other_possibility = &other.possibilities[index];
+            if possibility.name != other_possibility.name
+                || !possibility.has_same_fields(other_possibility)
+            {
+                return false;
+            }
+        }
+        true
+    }
+}
+
 impl From<&str> for OperationKind {
     fn from(name: &str) -> Self {
         match name {
diff --git a/src/graphql/schema/field.rs b/src/graphql/schema/field.rs
index 1c9000c..f94fa54 100644
--- a/src/graphql/schema/field.rs
+++ b/src/graphql/schema/field.rs
@@ -1,7 +1,7 @@
 use super::{json, Documentation, Error};
 use std::convert::{TryFrom, TryInto};
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq, Eq)]
 pub enum ScalarType {
     Custom(String),
     Boolean,
@@ -44,7 +44,7 @@ impl FieldTypeDefinition {
     }
 }
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq, Eq)]
 pub enum FieldTypeModifier {
     /// No modifier or "flat"
     None,
@@ -128,7 +128,7 @@ impl ModifierBuilder {
     }
 }
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq, Eq)]
 pub struct FieldTypeModifiers {
     last: FieldTypeModifier,
     rest: Vec<FieldTypeModifier>,
diff --git a/src/typescript.rs b/src/typescript.rs
index 720e3b0..2188c71 100644
--- a/src/typescript.rs
+++ b/src/typescript.rs
@@ -354,19 +354,25 @@ fn type_definitions_from_complex_field_collection(
     // Let's try to reduce output and improve readability and convenience by outputing a "smooshed type"
     // of common/completely repeated properties, since this is so common for interface types.
     let mut common_props = field_ids_for_complex_ir(first_possiblity);
-    let mut all_fields = Vec::with_capacity(collection.possibilities.len());
-    all_fields.push((&first_possiblity.name[..], common_props.clone()));
     for possibility in &collection.possibilities[1..] {
         let pos_props = field_ids_for_complex_ir(possibility);
         common_props.retain(|prop_name| pos_props.contains(prop_name));
-        all_fields.push((&possibility.name[..], pos_props));
     }
 
+    // Fields of the same name can still differ in type, so a type has to match this one to be smooshed
+    let common_fields = collection
+        .possibilities
+        .iter()
+        .find(|possibility| common_props == field_ids_for_complex_ir(possibility));
+
     // These will represent all the types can can be smooshed down
-    let repeated_possiblities: HashSet<&str> = all_fields
-        .into_iter()
-        .filter(|(_, fields)| common_props == *fields)
-        .map(|(name, _)| name)
+    let repeated_possiblities: HashSet<&str> = collection
+        .possibilities
+        .iter()
+        .filter(|possibility| {
+            common_fields.map_or(false, |common| possibility.has_same_fields(common))
+        })
+        .map(|possibility| &possibility.name[..])
         .collect();
 
     let num_repeats = repeated_possiblities.len();
-- 
2.43.0


From 7f1ef78c626f8f856fb0348432257d356eb9dbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:22 +0000
Subject: [PATCH 11/15] fix: report fragments that spread themselves

Following them overflowed the stack.
---
 src/graphql/ir.rs | 93 ++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 92 insertions(+), 1 deletion(-)

diff --git a/src/graphql/ir.rs b/src/graphql/ir.rs
index d9b8bd6..54508e2 100644
--- a/src/graphql/ir.rs
+++ b/src/graphql/ir.rs
@@ -6,7 +6,7 @@ use crate::graphql::variable;
 use graphql_parser::query as parsed_query;
 use graphql_parser::Pos;
 use std::collections::hash_map::Entry;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::convert::{TryFrom, TryInto};
 use std::path::Path;
 
@@ -89,6 +89,7 @@ impl ForeignFragmentJumpState {
 pub enum Error {
     SelectionSetAsOperationUnsupported(Pos),
     UnknownFragment(String, Pos, Vec<String>),
+    CyclicFragment(String, Pos),
     MissingTypeConditionOnInlineFragment(Pos),
     SelectionSetOnWrongType(String, Pos),
     MissingSelectionSetOnType(String, Pos),
@@ -134,6 +135,13 @@ impl From<(&str, &Path, Error)> for PrintableMessage {
                     Some(&format!("This fragment name doesn't appear to be in scope.{extra}")),
                 )
             }
+            Error::CyclicFragment(name, position) => PrintableMessage::new_compile_error(
+                &format!("cyclic fragment `{name}`"),
+                file_path,
+                contents,
+                &position,
+                Some("This fragment, or one that is spread here, ends up spreading itself."),
+            ),
             Error::MissingTypeConditionOnInlineFragment(position) => PrintableMessage::new_compile_error(
                 "fragment missing type condition on inline fragment",
                 file_path,
@@ -579,6 +587,10 @@ impl<'a, 'b> Operation<'a> {
             imported_fragments,
             warnings: std::cell::RefCell::new(Vec::new()),
         };
+        if let Some(cyclic_name) = find_cyclic_fragment(&context, definition) {
+            let error = Error::CyclicFragment(cyclic_name, get_definition_position(definition));
+            return Err((vec![error], Vec::new()));
+        }
         let operation = match definition {
             parsed_query::Definition::Operation(op_def) => {
                 match build_from_operation(&context, op_def, ForeignFragmentJumpState::RootLocal) {
@@ -622,6 +634,85 @@ impl<'a, 'b> Operation<'a> {
     }
 }
 
+fn get_definition_position(definition: &parsed_query::Definition<'_, ParsedTextType>) -> Pos {
+    match definition {
+        parsed_query::Definition::Operation(op_def) => match op_def {
+            parsed_query::OperationDefinition::Query(query) => query.position,
+            parsed_query::OperationDefinition::Mutation(mutation) => mutation.position,
+            parsed_query::OperationDefinition::Subscription(subscription) => subscription.position,
+            parsed_query::OperationDefinition::SelectionSet(selection) => selection.span.0,
+        },
+        parsed_query::Definition::Fragment(frag_def) => frag_def.position,
+    }
+}
+
+/// Fragments that (indirectly) spread themselves could be followed forever
+fn find_cyclic_fragment(
+    context: &CompileContext<'_, '_>,
+    definition: &parsed_query::Definition<'_, ParsedTextType>,
+) -> Option<String> {
+    let selection_set = match definition {
+        parsed_query::Definition::Operation(op_def) => match op_def {
+            parsed_query::OperationDefinition::Query(query) => &query.selection_set,
+            parsed_query::OperationDefinition::Mutation(mutation) => &mutation.selection_set,
+            parsed_query::OperationDefinition::Subscription(subscription) => {
+                &subscription.selection_set
+            }
+            parsed_query::OperationDefinition::SelectionSet(selection) => selection,
+        },
+        parsed_query::Definition::Fragment(frag_def) => &frag_def.selection_set,
+    };
+    find_cyclic_spread(context, selection_set, &mut Vec::new(), &mut HashSet::new())
+}
+
+fn find_cyclic_spread<'a>(
+    context: &'a CompileContext<'_, '_>,
+    selection_set: &'a parsed_query::SelectionSet<'_, ParsedTextType>,
+    parent_spreads: &mut Vec<&'a str>,
+    acyclic_spreads: &mut HashSet<&'a str>,
+) -> Option<String> {
+    for selection in &selection_set.items {
+        let cyclic_name = match selection {
+            parsed_query::Selection::Field(field) => find_cyclic_spread(
+                context,
+                &field.selection_set,
+                parent_spreads,
+                acyclic_spreads,
+            ),
+            parsed_query::Selection::InlineFragment(fragment_def) => find_cyclic_spread(
+                context,
+                &fragment_def.selection_set,
+                parent_spreads,
+                acyclic_spreads,
+            ),
+            parsed_query::Selection::FragmentSpread(spread) => {
+                let name = &spread.fragment_name[..];
+                let fragment_def = match context.imported_fragments.get(name) {
+                    Some(fragment_def) if !acyclic_spreads.contains(name) => fragment_def,
+                    _ => continue,
+                };
+                if parent_spreads.contains(&name) {
+                    return Some(name.to_string());
+                }
+                parent_spreads.push(name);
+                let cyclic_name = find_cyclic_spread(
+                    context,
+                    &fragment_def.selection_set,
+                    parent_spreads,
+                    acyclic_spreads,
+                );
+                parent_spreads.pop();
+                acyclic_spreads.insert(name);
+                cyclic_name
+            }
+        };
+        if cyclic_name.is_some() {
+            return cyclic_name;
+        }
+    }
+    None
+}
+
 fn build_from_operation<'a>(
     context: &CompileContext<'_, 'a>,
     operation: &'a parsed_query::OperationDefinition<'a, ParsedTextType>,
-- 
2.43.0


From 1cbf8d91db25510348ed89d3dea0b1ae62e938a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:24 +0000
Subject: [PATCH 12/15] fix: do not stop the workers while there is work left

A worker that took work while still counted as waiting let the others
announce the end, and all could agree to quit over the work it then
queued behind their messages: qlc exited successfully without compiling
those files. A panicking worker left the others waiting forever. Workers
now only stop once no work is queued or being run.
---
 src/worker_pool.rs | 124 +++++++++++++--------------------------------
 1 file changed, 36 insertions(+), 88 deletions(-)

diff --git a/src/worker_pool.rs b/src/worker_pool.rs
index fe1dbfb..ca93e85 100644
--- a/src/worker_pool.rs
+++ b/src/worker_pool.rs
@@ -9,12 +9,6 @@ use std::sync::atomic::{AtomicUsize, Ordering};
 use std::thread;
 use std::time::Duration;
 
-#[derive(Debug)]
-enum Message {
-    Work(Work),
-    Quit,
-}
-
 #[derive(Debug)]
 enum WorkResult {
     MoreWork(Vec<Work>),
@@ -119,20 +113,32 @@ impl Work {
     }
 }
 
+/// Marks work as done when dropped, even if a panic stopped it
+struct PendingWork<'a> {
+    num_pending: &'a AtomicUsize,
+}
+
+impl Drop for PendingWork<'_> {
+    fn drop(&mut self) {
+        self.num_pending.fetch_sub(1, Ordering::SeqCst);
+    }
+}
+
 struct Worker<'a> {
     pool: &'a WorkerPool,
-    is_waiting: bool,
-    is_quitting: bool,
     aggregate: WorkAggregateResult,
-    num_waiting: &'a AtomicUsize,
-    num_quitting: &'a AtomicUsize,
-    tx: channel::Sender<Message>,
-    rx: channel::Receiver<Message>,
+    /// Amount of work that is either queued or being run, which is the only source of more work
+    num_pending: &'a AtomicUsize,
+    tx: channel::Sender<Work>,
+    rx: channel::Receiver<Work>,
 }
 
 impl<'a> Worker<'a> {
     fn run(mut self) -> WorkAggregateResult {
         while let Some(work) = self.pop_work() {
+            let _pending_work = PendingWork {
+                num_pending: self.num_pending,
+            };
             match work.run(&self.pool.compile_config, &self.pool.schema) {
                 WorkResult::CompileResult {
                     global_types_used,
@@ -143,7 +149,7 @@ impl<'a> Worker<'a> {
                 }
                 WorkResult::MoreWork(additional_work) => {
                     for work in additional_work {
-                        self.tx.send(Message::Work(work)).unwrap();
+                        self.push_work(work);
                     }
                 }
                 WorkResult::DirIoError(io_error, path) => {
@@ -156,75 +162,22 @@ impl<'a> Worker<'a> {
         self.aggregate
     }
 
-    fn pop_work(&mut self) -> Option<Work> {
-        loop {
-            match self.rx.try_recv() {
-                Ok(Message::Work(work)) => {
-                    self.set_waiting(false);
-                    self.set_quitting(false);
-                    return Some(work);
-                }
-                Ok(Message::Quit) => {
-                    self.set_waiting(true);
-                    self.set_quitting(true);
-                    loop {
-                        let nwait = self.num_waiting();
-                        let nquit = self.num_quitting();
-                        let threads = self.pool.thread_count;
-                        // If the number of waiting workers dropped, then abort our attempt to quit.
-                        // Sometimes work will come back.
-                        if nwait < threads {
-                            break;
-                        }
-                        // If all workers are in this quit loop, then we can stop.
-                        if nquit == threads {
-                            return None;
-                        }
-                    }
-                }
-                Err(_) => {
-                    let threads = self.pool.thread_count;
-                    self.set_waiting(true);
-                    self.set_quitting(false);
-                    if self.num_waiting() == threads {
-                        for _ in 0..threads {
-                            self.tx.send(Message::Quit).unwrap();
-                        }
-                    } else {
-                        // This is a bit weird, I know, but we want producers to catch up
-                        // without burning the CPU too hard.
-                        thread::sleep(Duration::from_millis(1));
-                    }
-                }
-            }
-        }
-    }
-
-    fn num_waiting(&self) -> usize {
-        self.num_waiting.load(Ordering::SeqCst)
-    }
-
-    fn num_quitting(&self) -> usize {
-        self.num_quitting.load(Ordering::SeqCst)
+    fn push_work(&self, work: Work) {
+        self.num_pending.fetch_add(1, Ordering::SeqCst);
+        self.tx.send(work).unwrap();
     }
 
-    fn set_waiting(&mut self, desired: bool) {
-        if desired && !self.is_waiting {
-            self.is_waiting = true;
-            self.num_waiting.fetch_add(1, Ordering::SeqCst);
-        } else if !desired && self.is_waiting {
-            self.is_waiting = false;
-            self.num_waiting.fetch_sub(1, Ordering::SeqCst);
-        }
-    }
-
-    fn set_quitting(&mut self, desired: bool) {
-        if desired && !self.is_quitting {
-            self.is_quitting = true;
-            self.num_quitting.fetch_add(1, Ordering::SeqCst);
-        } else if !desired && self.is_quitting {
-            self.is_quitting = false;
-            self.num_quitting.fetch_sub(1, Ordering::SeqCst);
+    fn pop_work(&self) -> Option<Work> {
+        loop {
+            if let Ok(work) = self.rx.try_recv() {
+                return Some(work);
+            }
+            if self.num_pending.load(Ordering::SeqCst) == 0 {
+                return None;
+            }
+            // This is a bit weird, I know, but we want producers to catch up
+            // without burning the CPU too hard.
+            thread::sleep(Duration::from_millis(1));
         }
     }
 }
@@ -247,23 +200,18 @@ impl WorkerPool {
     }
 
     pub fn work(&self) -> impl ExitInformation {
-        let num_waiting = AtomicUsize::new(0);
-        let num_quitting = AtomicUsize::new(0);
+        let num_pending = AtomicUsize::new(1);
 
         let mut aggregate = thread::scope(|s| {
             let (tx, rx) = channel::unbounded();
-            let initial_work = Message::Work(Work::DirEntry(self.root_dir_path.clone()));
-            tx.send(initial_work).unwrap();
+            tx.send(Work::DirEntry(self.root_dir_path.clone())).unwrap();
 
             let handles = (0..self.thread_count)
                 .map(|_| {
                     let worker = Worker {
                         pool: self,
-                        num_quitting: &num_quitting,
-                        num_waiting: &num_waiting,
+                        num_pending: &num_pending,
                         aggregate: WorkAggregateResult::new(),
-                        is_quitting: false,
-                        is_waiting: false,
                         tx: tx.clone(),
                         rx: rx.clone(),
                     };
-- 
2.43.0


From 68f8777c12a4eefbe65a6346022c08f0f5f58f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:30 +0000
Subject: [PATCH 13/15] fix: report a non-fragment import where it is imported

The location was that of the importing line, but the file was always the document
being compiled, even if the line is in one of its (transitive) imports.
---
 src/graphql.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index fdd068a..435a0d3 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -127,7 +127,7 @@ fn add_imported_fragments(
     config: &CompileConfig,
     current_file: &Path,
     current_file_contents: &str,
-    import_contents: &mut HashMap<PathBuf, (String, LocationInformation)>,
+    import_contents: &mut HashMap<PathBuf, (String, PathBuf, LocationInformation)>,
     followed_files: &mut HashSet<PathBuf>,
     messages: &mut Vec<PrintableMessage>,
 ) {
@@ -170,17 +170,19 @@ fn add_imported_fragments(
                 messages,
             );
         }
-        import_contents.insert(file_path, (other_file_contents, location));
+        import_contents.insert(
+            file_path,
+            (other_file_contents, current_file.to_owned(), location),
+        );
     }
 }
 
 fn parse_foreign_fragments<'a>(
-    path: &Path,
-    imported_contents: &'a HashMap<PathBuf, (String, LocationInformation)>,
+    imported_contents: &'a HashMap<PathBuf, (String, PathBuf, LocationInformation)>,
     messages: &mut Vec<PrintableMessage>,
 ) -> HashMap<String, FragmentDefinition<'a, ParsedTextType>> {
     let mut parsed_imported_fragments = HashMap::new();
-    for (other_path, (contents, location)) in imported_contents.iter() {
+    for (other_path, (contents, importing_path, location)) in imported_contents.iter() {
         if let Ok(mut parsed) = parse_graphql_file(contents, other_path) {
             // We already know there is exactly one definition since read_graphql_file
             // throws away documents that contain more or less than one defintion.
@@ -193,11 +195,11 @@ fn parse_foreign_fragments<'a>(
                     _ => {
                         let mut message = PrintableMessage::new_simple_compile_error(&format!(
                             "cannot import non-fragment GraphQL document `{}`",
-                            path.display()
+                            other_path.display()
                         ));
                         let mut location = location.clone();
                         location.with_help_text("This document is not a fragment, and importing it is probably a mistake.");
-                        message.with_source_information(path, Some(location));
+                        message.with_source_information(importing_path, Some(location));
                         messages.push(message);
                     }
                 }
@@ -225,8 +227,7 @@ pub fn compile_file(
         &mut HashSet::new(),
         &mut messages,
     );
-    let parsed_imported_fragments =
-        parse_foreign_fragments(path, &imported_contents, &mut messages);
+    let parsed_imported_fragments = parse_foreign_fragments(&imported_contents, &mut messages);
 
     let (op_ir, warnings) = match ir::Operation::compile(
         &parsed.definitions[0],
-- 
2.43.0


From ac8fb33da5518b120ca391090cec4a7eaac463d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:59 +0000
Subject: [PATCH 14/15] fix: report the right line in documents with CRLF line
 endings and comments

---
 src/graphql.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index 435a0d3..b30b237 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -59,7 +59,8 @@ fn read_graphql_file(path: &Path) -> Result<String, PrintableMessage> {
             let mut buf_reader = BufReader::new(file);
             let mut contents = String::new();
             buf_reader.read_to_string(&mut contents)?;
-            Ok(contents)
+            // The parser counts the line of a comment that ends with CRLF twice
+            Ok(contents.replace("\r\n", "\n"))
         })
         .map_err(|io_error| PrintableMessage::new_compile_error_from_read_io_error(&io_error, path))
 }
-- 
2.43.0


From 29061a3561789cd09234c820aa311b9f4620f352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:20 +0000
Subject: [PATCH 15/15] fix: choose among imported fragments of the same name
 in path order

---
 src/graphql.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index b30b237..c62a7f4 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -2,7 +2,7 @@ use super::cli::{LocationInformation, PrintableMessage, RuntimeConfig};
 use crate::typescript;
 use graphql_parser::query::{Definition, Document, FragmentDefinition, OperationDefinition};
 use schema::Schema;
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeMap, HashMap, HashSet};
 use std::fs::File;
 use std::io::{BufReader, Read};
 use std::path::{Path, PathBuf};
@@ -128,7 +128,7 @@ fn add_imported_fragments(
     config: &CompileConfig,
     current_file: &Path,
     current_file_contents: &str,
-    import_contents: &mut HashMap<PathBuf, (String, PathBuf, LocationInformation)>,
+    import_contents: &mut BTreeMap<PathBuf, (String, PathBuf, LocationInformation)>,
     followed_files: &mut HashSet<PathBuf>,
     messages: &mut Vec<PrintableMessage>,
 ) {
@@ -179,7 +179,7 @@ fn add_imported_fragments(
 }
 
 fn parse_foreign_fragments<'a>(
-    imported_contents: &'a HashMap<PathBuf, (String, PathBuf, LocationInformation)>,
+    imported_contents: &'a BTreeMap<PathBuf, (String, PathBuf, LocationInformation)>,
     messages: &mut Vec<PrintableMessage>,
 ) -> HashMap<String, FragmentDefinition<'a, ParsedTextType>> {
     let mut parsed_imported_fragments = HashMap::new();
@@ -219,7 +219,8 @@ pub fn compile_file(
     let parsed = parse_graphql_file(&contents, path).map_err(|e| vec![e])?;
 
     let mut messages = Vec::new();
-    let mut imported_contents = HashMap::new();
+    // In path order, as files may define fragments of the same name
+    let mut imported_contents = BTreeMap::new();
     add_imported_fragments(
         config,
         path,
-- 
2.43.0

