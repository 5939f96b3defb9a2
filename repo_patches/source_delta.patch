From afd1098ab96f9e29a7ffbdf47637bbe0cbbf2c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 01/29] verif hook: controlled scheduler shim for the worker
 pool behind cfg(qlc_verif)

---
 src/main.rs        | 7 +++++++
 src/worker_pool.rs | 8 ++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index d134bb2..e914655 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,8 +1,15 @@
 #![deny(rust_2018_idioms)]
+#![allow(unexpected_cfgs)]
 
 mod cli;
 mod graphql;
 mod typescript;
+/// Scheduler hook of the verification harness, off unless built with `--cfg qlc_verif`
+#[cfg(qlc_verif)]
+#[allow(dead_code, rust_2018_idioms)]
+mod verif_rt {
+    include!(env!("QLC_VERIF_RT"));
+}
 mod worker_pool;
 
 fn main() {
diff --git a/src/worker_pool.rs b/src/worker_pool.rs
index fe1dbfb..b3ba498 100644
--- a/src/worker_pool.rs
+++ b/src/worker_pool.rs
@@ -1,11 +1,19 @@
 use super::cli::{ExitInformation, PrintableMessage, RuntimeConfig};
 use super::graphql::schema::Schema;
 use super::graphql::{compile_file, compile_global_types_file, CompileConfig};
+#[cfg(qlc_verif)]
+use crate::verif_rt::{
+    atomic::{AtomicUsize, Ordering},
+    channel, thread,
+};
+#[cfg(not(qlc_verif))]
 use crossbeam_channel as channel;
 use std::collections::HashSet;
 use std::fs;
 use std::path::{Path, PathBuf};
+#[cfg(not(qlc_verif))]
 use std::sync::atomic::{AtomicUsize, Ordering};
+#[cfg(not(qlc_verif))]
 use std::thread;
 use std::time::Duration;
 
-- 
2.43.0


From c6ed0a1e5d1a897eecc8781276b10bb00f875a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:48 +0000
Subject: [PATCH 02/29] fix: do not let workers quit while work items are
 pending

A worker preempted between finding the queue empty and sending its quit messages can
leave quit messages in front of new work; the workers then all quit with work still queued.
---
 src/worker_pool.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/worker_pool.rs b/src/worker_pool.rs
index b3ba498..c51a478 100644
--- a/src/worker_pool.rs
+++ b/src/worker_pool.rs
@@ -134,6 +134,8 @@ struct Worker<'a> {
     aggregate: WorkAggregateResult,
     num_waiting: &'a AtomicUsize,
     num_quitting: &'a AtomicUsize,
+    /// Work items that are queued or being run; once zero, it stays zero
+    num_pending: &'a AtomicUsize,
     tx: channel::Sender<Message>,
     rx: channel::Receiver<Message>,
 }
@@ -150,6 +152,9 @@ impl<'a> Worker<'a> {
                     self.aggregate.extend_messages(messages);
                 }
                 WorkResult::MoreWork(additional_work) => {
+                    // Count new work before this item is counted as finished below.
+                    self.num_pending
+                        .fetch_add(additional_work.len(), Ordering::SeqCst);
                     for work in additional_work {
                         self.tx.send(Message::Work(work)).unwrap();
                     }
@@ -160,6 +165,7 @@ impl<'a> Worker<'a> {
                     );
                 }
             }
+            self.num_pending.fetch_sub(1, Ordering::SeqCst);
         }
         self.aggregate
     }
@@ -180,8 +186,9 @@ impl<'a> Worker<'a> {
                         let nquit = self.num_quitting();
                         let threads = self.pool.thread_count;
                         // If the number of waiting workers dropped, then abort our attempt to quit.
-                        // Sometimes work will come back.
-                        if nwait < threads {
+                        // Sometimes work will come back. The same goes for work left in the queue
+                        // behind a quit message of an earlier attempt.
+                        if nwait < threads || self.num_pending() > 0 {
                             break;
                         }
                         // If all workers are in this quit loop, then we can stop.
@@ -212,6 +219,10 @@ impl<'a> Worker<'a> {
         self.num_waiting.load(Ordering::SeqCst)
     }
 
+    fn num_pending(&self) -> usize {
+        self.num_pending.load(Ordering::SeqCst)
+    }
+
     fn num_quitting(&self) -> usize {
         self.num_quitting.load(Ordering::SeqCst)
     }
@@ -257,6 +268,8 @@ impl WorkerPool {
     pub fn work(&self) -> impl ExitInformation {
         let num_waiting = AtomicUsize::new(0);
         let num_quitting = AtomicUsize::new(0);
+        // The initial work item
+        let num_pending = AtomicUsize::new(1);
 
         let mut aggregate = thread::scope(|s| {
             let (tx, rx) = channel::unbounded();
@@ -269,6 +282,7 @@ impl WorkerPool {
                         pool: self,
                         num_quitting: &num_quitting,
                         num_waiting: &num_waiting,
+                        num_pending: &num_pending,
                         aggregate: WorkAggregateResult::new(),
                         is_quitting: false,
                         is_waiting: false,
-- 
2.43.0


From d59e5ab79da6462a282f5897d80ebfe2c896cfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:49 +0000
Subject: [PATCH 03/29] fix: follow each imported file once, so that import
 cycles end

---
 src/graphql.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/graphql.rs b/src/graphql.rs
index a07afad..75a7b44 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -128,6 +128,7 @@ fn add_imported_fragments(
     current_file: &Path,
     current_file_contents: &str,
     import_contents: &mut HashMap<PathBuf, (String, LocationInformation)>,
+    visited: &mut HashSet<PathBuf>,
     messages: &mut Vec<PrintableMessage>,
 ) {
     let mut current_dir = current_file.to_owned();
@@ -155,11 +156,18 @@ fn add_imported_fragments(
                 continue;
             }
         };
+        // Imports can form cycles or reach the same file many times. A path through `..` can
+        // spell the same file in endless ways, so compare canonical paths.
+        let canonical_path = file_path.canonicalize().unwrap_or(file_path.clone());
+        if !visited.insert(canonical_path) {
+            continue;
+        }
         add_imported_fragments(
             config,
             &file_path,
             &other_file_contents,
             import_contents,
+            visited,
             messages,
         );
         import_contents.insert(file_path, (other_file_contents, location));
@@ -214,6 +222,7 @@ pub fn compile_file(
         path,
         &contents,
         &mut imported_contents,
+        &mut HashSet::new(),
         &mut messages,
     );
     let parsed_imported_fragments =
-- 
2.43.0


From 1d93e68c1fc7343b0cd75795d22b0c923343159e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:50 +0000
Subject: [PATCH 04/29] fix: read imported fragments in a stable order

With two imported fragments of one name, the hash seed of the process chose the one in scope.
---
 src/graphql.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index 75a7b44..d2f7c36 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -2,7 +2,7 @@ use super::cli::{LocationInformation, PrintableMessage, RuntimeConfig};
 use crate::typescript;
 use graphql_parser::query::{Definition, Document, FragmentDefinition, OperationDefinition};
 use schema::Schema;
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeMap, HashMap, HashSet};
 use std::fs::File;
 use std::io::{BufReader, Read};
 use std::path::{Path, PathBuf};
@@ -127,7 +127,7 @@ fn add_imported_fragments(
     config: &CompileConfig,
     current_file: &Path,
     current_file_contents: &str,
-    import_contents: &mut HashMap<PathBuf, (String, LocationInformation)>,
+    import_contents: &mut BTreeMap<PathBuf, (String, LocationInformation)>,
     visited: &mut HashSet<PathBuf>,
     messages: &mut Vec<PrintableMessage>,
 ) {
@@ -176,7 +176,7 @@ fn add_imported_fragments(
 
 fn parse_foreign_fragments<'a>(
     path: &Path,
-    imported_contents: &'a HashMap<PathBuf, (String, LocationInformation)>,
+    imported_contents: &'a BTreeMap<PathBuf, (String, LocationInformation)>,
     messages: &mut Vec<PrintableMessage>,
 ) -> HashMap<String, FragmentDefinition<'a, ParsedTextType>> {
     let mut parsed_imported_fragments = HashMap::new();
@@ -216,7 +216,7 @@ pub fn compile_file(
     let parsed = parse_graphql_file(&contents, path).map_err(|e| vec![e])?;
 
     let mut messages = Vec::new();
-    let mut imported_contents = HashMap::new();
+    let mut imported_contents = BTreeMap::new();
     add_imported_fragments(
         config,
         path,
-- 
2.43.0


From 1d6b88340c1a093e6f87c5fe33d3f062ac24cf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:51 +0000
Subject: [PATCH 05/29] fix: do not panic on an import line without a closing
 quote

---
 src/graphql.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index d2f7c36..9f8ce2f 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -104,10 +104,10 @@ fn get_file_path_of_fragment(
     import_comment: &str,
     current_dir: &Path,
 ) -> PathBuf {
-    let last_quote = import_comment
+    let import_path = &import_comment[IMPORT_START.len()..];
+    let import_path = import_path
         .rfind('"')
-        .unwrap_or(import_comment.len() - 1);
-    let import_path = &import_comment[IMPORT_START.len()..last_quote];
+        .map_or(import_path, |last_quote| &import_path[..last_quote]);
 
     config
         .root_dir_import_prefix
-- 
2.43.0


From 304edda96c311863f8310c86e1c07404637776c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:52 +0000
Subject: [PATCH 06/29] fix: report an imported non-fragment at the file that
 imports it

---
 src/graphql.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index 9f8ce2f..590b200 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -127,7 +127,7 @@ fn add_imported_fragments(
     config: &CompileConfig,
     current_file: &Path,
     current_file_contents: &str,
-    import_contents: &mut BTreeMap<PathBuf, (String, LocationInformation)>,
+    import_contents: &mut BTreeMap<PathBuf, (String, PathBuf, LocationInformation)>,
     visited: &mut HashSet<PathBuf>,
     messages: &mut Vec<PrintableMessage>,
 ) {
@@ -170,17 +170,19 @@ fn add_imported_fragments(
             visited,
             messages,
         );
-        import_contents.insert(file_path, (other_file_contents, location));
+        import_contents.insert(
+            file_path,
+            (other_file_contents, current_file.to_owned(), location),
+        );
     }
 }
 
 fn parse_foreign_fragments<'a>(
-    path: &Path,
-    imported_contents: &'a BTreeMap<PathBuf, (String, LocationInformation)>,
+    imported_contents: &'a BTreeMap<PathBuf, (String, PathBuf, LocationInformation)>,
     messages: &mut Vec<PrintableMessage>,
 ) -> HashMap<String, FragmentDefinition<'a, ParsedTextType>> {
     let mut parsed_imported_fragments = HashMap::new();
-    for (other_path, (contents, location)) in imported_contents.iter() {
+    for (other_path, (contents, importing_path, location)) in imported_contents.iter() {
         if let Ok(mut parsed) = parse_graphql_file(contents, other_path) {
             // We already know there is exactly one definition since read_graphql_file
             // throws away documents that contain more or less than one defintion.
@@ -193,11 +195,11 @@ fn parse_foreign_fragments<'a>(
                     _ => {
                         let mut message = PrintableMessage::new_simple_compile_error(&format!(
                             "cannot import non-fragment GraphQL document `{}`",
-                            path.display()
+                            other_path.display()
                         ));
                         let mut location = location.clone();
                         location.with_help_text("This document is not a fragment, and importing it is probably a mistake.");
-                        message.with_source_information(path, Some(location));
+                        message.with_source_information(importing_path, Some(location));
                         messages.push(message);
                     }
                 }
@@ -225,8 +227,7 @@ pub fn compile_file(
         &mut HashSet::new(),
         &mut messages,
     );
-    let parsed_imported_fragments =
-        parse_foreign_fragments(path, &imported_contents, &mut messages);
+    let parsed_imported_fragments = parse_foreign_fragments(&imported_contents, &mut messages);
 
     let (op_ir, warnings) = match ir::Operation::compile(
         &parsed.definitions[0],
-- 
2.43.0


From 93543c10b29fdf0f57197b3c51a4a898c3dd2b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:53 +0000
Subject: [PATCH 07/29] fix: follow each input object once, so that recursive
 input objects end

---
 src/typescript.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/typescript.rs b/src/typescript.rs
index 8ac2104..b86f8ee 100644
--- a/src/typescript.rs
+++ b/src/typescript.rs
@@ -171,8 +171,10 @@ fn add_sub_input_object_field<'a>(
             let global_type = schema
                 .get_type_for_name(type_name)
                 .ok_or_else(|| Error::MissingType(type_name.to_string()))?;
-            name_to_type.insert(type_name, global_type);
-            add_sub_input_objects(name_to_type, schema, global_type)?;
+            // Input objects can refer to themselves, directly or through others
+            if name_to_type.insert(type_name, global_type).is_none() {
+                add_sub_input_objects(name_to_type, schema, global_type)?;
+            }
         }
         schema_field::FieldTypeDefinition::Enum => {
             let global_type = schema
-- 
2.43.0


From f62577f67a55cc902fc2a86ff066d24ff2999bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:54 +0000
Subject: [PATCH 08/29] fix: keep the inner list of a nullable list of non-null
 lists

---
 src/graphql/schema/field.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/graphql/schema/field.rs b/src/graphql/schema/field.rs
index 6bd21e4..6033545 100644
--- a/src/graphql/schema/field.rs
+++ b/src/graphql/schema/field.rs
@@ -109,6 +109,11 @@ impl ModifierBuilder {
                 self.higher_order_modifiers.push(FieldTypeModifier::List);
                 FieldTypeModifier::ListOfNullable
             }
+            FieldTypeModifier::NullableList => {
+                self.higher_order_modifiers
+                    .push(FieldTypeModifier::NullableList);
+                FieldTypeModifier::ListOfNullable
+            }
             FieldTypeModifier::ListOfNullable => {
                 self.higher_order_modifiers
                     .push(FieldTypeModifier::ListOfNullable);
-- 
2.43.0


From 90153de3b69d707de1c72d8dd0ec20ce146f1d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:55 +0000
Subject: [PATCH 09/29] fix: keep all list levels of input object fields

---
 src/graphql/schema/field.rs |  9 +++++++++
 src/typescript.rs           | 27 ++++++++-------------------
 2 files changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/graphql/schema/field.rs b/src/graphql/schema/field.rs
index 6033545..16b2f79 100644
--- a/src/graphql/schema/field.rs
+++ b/src/graphql/schema/field.rs
@@ -146,6 +146,15 @@ impl FieldTypeModifiers {
         }
     }
 
+    pub fn is_nullable(&self) -> bool {
+        matches!(
+            self.rest.last().unwrap_or(&self.last),
+            FieldTypeModifier::Nullable
+                | FieldTypeModifier::NullableList
+                | FieldTypeModifier::NullableListOfNullable
+        )
+    }
+
     pub fn last(&self) -> &FieldTypeModifier {
         &self.last
     }
diff --git a/src/typescript.rs b/src/typescript.rs
index b86f8ee..cda7a7d 100644
--- a/src/typescript.rs
+++ b/src/typescript.rs
@@ -102,25 +102,14 @@ fn input_def_from_type(
     for (name, field) in sorted.into_iter() {
         let doc = compile_documentation(&field.documentation, field.deprecated, 2);
         let field_type = from_input_def_field_def(config, name, field)?;
-        let ts_field = match field.type_description.type_modifiers().last() {
-            schema_field::FieldTypeModifier::None => format!("  {doc}{name}: {field_type};"),
-            schema_field::FieldTypeModifier::Nullable => {
-                format!("  {doc}{name}?: {field_type} | null;")
-            }
-            schema_field::FieldTypeModifier::NullableList => {
-                format!("  {doc}{name}?: {field_type}[] | null;")
-            }
-            schema_field::FieldTypeModifier::List => {
-                format!("  {doc}{name}: {field_type}[];")
-            }
-            schema_field::FieldTypeModifier::ListOfNullable => {
-                format!("  {doc}{name}: ({field_type} | null)[];")
-            }
-            schema_field::FieldTypeModifier::NullableListOfNullable => {
-                format!("  {doc}{name}?: ({field_type} | null)[] | null;")
-            }
-        };
-        fields.push(ts_field);
+        let modifiers = field.type_description.type_modifiers();
+        let optional = if modifiers.is_nullable() { "?" } else { EMPTY };
+        let field_type_def = prop_type_def(
+            modifiers.rest_modifiers_iter(),
+            modifiers.last(),
+            field_type,
+        );
+        fields.push(format!("  {doc}{name}{optional}: {field_type_def};"));
     }
     Ok(format!(
         "export type {} = {{\n{}\n}};",
-- 
2.43.0


From 759aa65e9f47f758eb868a75a93e4cff70ddb427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:56 +0000
Subject: [PATCH 10/29] fix: remove comment delimiters that appear once others
 are removed

---
 src/typescript.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/typescript.rs b/src/typescript.rs
index cda7a7d..303be06 100644
--- a/src/typescript.rs
+++ b/src/typescript.rs
@@ -235,9 +235,14 @@ fn compile_documentation(
     let tab = " ".repeat(tab_width);
 
     let processed_documentation = documentation.as_deref().map(|docs| {
-        docs.replace('\n', &format!("\n {tab}* "))
-            .replace("/*", EMPTY)
-            .replace("*/", EMPTY)
+        let mut docs = docs
+            .replace('\n', &format!("\n {tab}* "))
+            .replace("/*", EMPTY);
+        // Removing a delimiter can join the characters around it to another one
+        while docs.contains("*/") {
+            docs = docs.replace("*/", EMPTY);
+        }
+        docs
     });
 
     let wrap = |content: &str| format!("/**\n {tab}* {content}\n {tab}*/\n{tab}");
-- 
2.43.0


From f6c4d1dcf1b8077be725514f53fe419ecbadd596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:48 +0000
Subject: [PATCH 11/29] fix: use at least one thread

With zero threads nothing was compiled and the program reported success.
---
 src/cli.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index bb46df6..277c6fd 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -442,7 +442,8 @@ impl RuntimeConfig {
             number_threads: cli_args
                 .num_threads
                 .or(config_file_args.num_threads)
-                .unwrap_or_else(|| std::cmp::min(num_cpus::get(), 8)),
+                .unwrap_or_else(|| std::cmp::min(num_cpus::get(), 8))
+                .max(1),
             root_dir_import_prefix: cli_args
                 .root_dir_import_prefix
                 .or(config_file_args.root_dir_import_prefix),
-- 
2.43.0


From a682c535570c9931bc1db35182cd2507ab676cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:49 +0000
Subject: [PATCH 12/29] fix: reject variables of an output type

Such a type was taken for a global type, which made the global types file fail for all documents.
---
 src/graphql/variable.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/graphql/variable.rs b/src/graphql/variable.rs
index 94d75e0..0f54817 100644
--- a/src/graphql/variable.rs
+++ b/src/graphql/variable.rs
@@ -1,6 +1,7 @@
 use super::ParsedTextType;
 use crate::cli::PrintableMessage;
 use crate::graphql::ir::CompileContext;
+use crate::graphql::schema;
 use crate::graphql::schema::field as schema_field;
 use graphql_parser::query as parsed_query;
 use graphql_parser::Pos;
@@ -12,6 +13,7 @@ pub enum Error {
     UnknownCustomeVariableType(String, Pos),
     UnprocessableVariableType(String, Pos),
     ListOfListNotSupported(String, Pos),
+    NotAnInputType(String, Pos),
 }
 
 type Result<T> = std::result::Result<T, Error>;
@@ -42,7 +44,14 @@ impl<'a, 'b, 'c> TryFrom<(&'a CompileContext<'a, 'b>, &'c str, Pos)> for Variabl
                         from.2,
                     ))
                 }
-                Some(_) => VariableType::Custom(custom_type_name),
+                Some(schema::Type {
+                    definition:
+                        schema::TypeDefinition::Enum(_)
+                        | schema::TypeDefinition::InputObject(_)
+                        | schema::TypeDefinition::Scalar(_),
+                    ..
+                }) => VariableType::Custom(custom_type_name),
+                Some(_) => return Err(Error::NotAnInputType(custom_type_name.to_string(), from.2)),
             },
         };
         Ok(var)
@@ -81,6 +90,13 @@ impl From<(&str, &Path, Error)> for PrintableMessage {
                     "QLC does not support lists of lists as variable types"
                 ),
             ),
+            Error::NotAnInputType(name, position) => PrintableMessage::new_compile_error(
+                &format!("variable of output type `{name}`"),
+                file_path,
+                contents,
+                &position,
+                Some("Only scalars, enums and input objects can be the type of a variable."),
+            ),
         }
     }
 }
-- 
2.43.0


From e491d7d7b6176cac9890e6d00fb8b8b76439eec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:51 +0000
Subject: [PATCH 13/29] fix: reject fragments that spread themselves

---
 src/graphql/ir.rs | 45 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/src/graphql/ir.rs b/src/graphql/ir.rs
index c726853..b3ebefc 100644
--- a/src/graphql/ir.rs
+++ b/src/graphql/ir.rs
@@ -89,6 +89,7 @@ impl ForeignFragmentJumpState {
 pub enum Error {
     SelectionSetAsOperationUnsupported(Pos),
     UnknownFragment(String, Pos, Vec<String>),
+    RecursiveFragment(String, Pos),
     MissingTypeConditionOnInlineFragment(Pos),
     SelectionSetOnWrongType(String, Pos),
     MissingSelectionSetOnType(String, Pos),
@@ -134,6 +135,13 @@ impl From<(&str, &Path, Error)> for PrintableMessage {
                     Some(&format!("This fragment name doesn't appear to be in scope.{extra}")),
                 )
             }
+            Error::RecursiveFragment(name, position) => PrintableMessage::new_compile_error(
+                &format!("fragment `{name}` spreads itself"),
+                file_path,
+                contents,
+                &position,
+                Some("Fragments must not spread themselves, directly or through other fragments."),
+            ),
             Error::MissingTypeConditionOnInlineFragment(position) => PrintableMessage::new_compile_error(
                 "fragment missing type condition on inline fragment",
                 file_path,
@@ -197,6 +205,15 @@ impl From<(&str, &Path, Error)> for PrintableMessage {
     }
 }
 
+impl Error {
+    fn recursive_name(&self) -> Option<&str> {
+        match self {
+            Error::RecursiveFragment(name, _) => Some(name),
+            _ => None,
+        }
+    }
+}
+
 type Result<T> = std::result::Result<T, Error>;
 type ResultMany<T> = std::result::Result<T, Vec<Error>>;
 type OperationResult<'a> =
@@ -207,6 +224,8 @@ pub struct CompileContext<'a, 'b> {
     pub schema: &'a schema::Schema,
     show_deprecation_warnings: bool,
     imported_fragments: ImportedFragments<'b>,
+    /// Names of the fragments being expanded, outermost first
+    active_fragments: std::cell::RefCell<Vec<String>>,
     warnings: std::cell::RefCell<Vec<Warning>>,
 }
 
@@ -523,6 +542,7 @@ impl<'a, 'b> Operation<'a> {
             schema,
             show_deprecation_warnings,
             imported_fragments,
+            active_fragments: std::cell::RefCell::new(Vec::new()),
             warnings: std::cell::RefCell::new(Vec::new()),
         };
         let operation = match definition {
@@ -534,6 +554,10 @@ impl<'a, 'b> Operation<'a> {
             }
             parsed_query::Definition::Fragment(frag_def) => {
                 let parsed_query::TypeCondition::On(type_name) = &frag_def.type_condition;
+                context
+                    .active_fragments
+                    .borrow_mut()
+                    .push(frag_def.name.clone());
                 let mut parent = match ComplexTraversal::try_from((
                     &context,
                     type_name.as_ref(),
@@ -714,7 +738,9 @@ fn collect_fields_from_selection_set<'a, 'b>(
     jump_state: ForeignFragmentJumpState,
 ) -> ResultMany<()> {
     let mut errors = Vec::new();
+    let active_count = context.active_fragments.borrow().len();
     for selection in &selection_set.items {
+        context.active_fragments.borrow_mut().truncate(active_count);
         let (spread_type_name, spread_position, sub_selection_set, new_jump_state) = match selection
         {
             parsed_query::Selection::Field(selection_field) => {
@@ -742,6 +768,21 @@ fn collect_fields_from_selection_set<'a, 'b>(
                 }
             }
             parsed_query::Selection::FragmentSpread(spread) => {
+                if context
+                    .active_fragments
+                    .borrow()
+                    .contains(&spread.fragment_name)
+                {
+                    errors.push(Error::RecursiveFragment(
+                        spread.fragment_name.clone(),
+                        spread.position,
+                    ));
+                    continue;
+                }
+                context
+                    .active_fragments
+                    .borrow_mut()
+                    .push(spread.fragment_name.clone());
                 match context.imported_fragments.get(&spread.fragment_name) {
                     Some(fragment_def) => {
                         let parsed_query::TypeCondition::On(ref type_name) =
@@ -792,10 +833,14 @@ fn collect_fields_from_selection_set<'a, 'b>(
             Err(sub_messages) => {
                 if new_jump_state.is_local() {
                     errors.extend(sub_messages);
+                } else if let Some(name) = sub_messages.iter().find_map(Error::recursive_name) {
+                    // Not every fragment of a cycle sees it when compiled alone
+                    errors.push(Error::RecursiveFragment(name.to_string(), spread_position));
                 }
             }
         }
     }
+    context.active_fragments.borrow_mut().truncate(active_count);
 
     if errors.is_empty() {
         Ok(())
-- 
2.43.0


From 1181bc23445d322efe522f6362b68263b4aa9cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:25 +0000
Subject: [PATCH 14/29] fix: merge all selections of a response key into one
 property

A field that is selected through an interface and through a type that redeclares it with a
more specific type was emitted as two properties of one name.
---
 src/graphql/ir.rs | 63 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 41 insertions(+), 22 deletions(-)

diff --git a/src/graphql/ir.rs b/src/graphql/ir.rs
index b3ebefc..35c8f61 100644
--- a/src/graphql/ir.rs
+++ b/src/graphql/ir.rs
@@ -110,6 +110,10 @@ pub enum Error {
         terminal_type_name: String,
         complex_type_name: String,
     },
+    ConflictingFields {
+        type_name: String,
+        other_type_name: String,
+    },
 }
 
 impl From<(&str, &Path, Error)> for PrintableMessage {
@@ -201,6 +205,11 @@ impl From<(&str, &Path, Error)> for PrintableMessage {
                     &format!("unexpectedly attempting merge of complex type `{complex_type_name}` and terminal type `{terminal_type_name}`."),
                 )
             }
+            Error::ConflictingFields { type_name, other_type_name } => {
+                PrintableMessage::new_simple_program_error(
+                    &format!("unexpectedly attempting merge of types `{type_name}` and `{other_type_name}`."),
+                )
+            }
         }
     }
 }
@@ -242,12 +251,10 @@ impl From<Error> for Vec<Error> {
     }
 }
 
-/// Alias and field name
-type FieldId<'a> = (&'a str, &'a str);
-
 #[derive(Debug, Clone)]
 struct UniqueFields<'a> {
-    collection: HashMap<FieldId<'a>, (&'a schema_field::Field, FieldTraversal<'a>)>,
+    /// Response keys mapped to their selected field
+    collection: HashMap<&'a str, (&'a schema_field::Field, FieldTraversal<'a>)>,
 }
 
 impl<'a> UniqueFields<'a> {
@@ -260,11 +267,10 @@ impl<'a> UniqueFields<'a> {
     fn insert(
         &mut self,
         alias: &'a str,
-        name: &'a str,
         field: &'a schema_field::Field,
         traversal: FieldTraversal<'a>,
     ) -> Result<()> {
-        match self.collection.entry((alias, name)) {
+        match self.collection.entry(alias) {
             Entry::Occupied(occupant) => {
                 occupant.into_mut().1.extend_from(traversal)?;
             }
@@ -276,8 +282,8 @@ impl<'a> UniqueFields<'a> {
     }
 
     fn extend_from(&mut self, other: UniqueFields<'a>) -> Result<()> {
-        for ((alias, name), (field, traversal)) in other.collection.into_iter() {
-            self.insert(alias, name, field, traversal)?;
+        for (alias, (field, traversal)) in other.collection.into_iter() {
+            self.insert(alias, field, traversal)?;
         }
         Ok(())
     }
@@ -288,7 +294,7 @@ impl<'a> TryFrom<UniqueFields<'a>> for Vec<Field> {
     fn try_from(from: UniqueFields<'a>) -> Result<Self> {
         from.collection
             .into_iter()
-            .map(|((alias, _name), (field, sub_traversal))| {
+            .map(|(alias, (field, sub_traversal))| {
                 let concrete = field.type_description.reveal_concrete();
                 Ok(Field {
                     prop_name: alias.to_string(),
@@ -355,17 +361,11 @@ impl<'a, 'b> ComplexTraversal<'a> {
     fn insert_terminal(
         &mut self,
         alias: &'a str,
-        name: &'a str,
         field: &'a schema_field::Field,
         terminal: TerminalTraversal<'a>,
     ) -> Result<()> {
         for uniques in self.concrete_objects.values_mut() {
-            uniques.insert(
-                alias,
-                name,
-                field,
-                FieldTraversal::Terminal(terminal.clone()),
-            )?;
+            uniques.insert(alias, field, FieldTraversal::Terminal(terminal.clone()))?;
         }
         Ok(())
     }
@@ -373,12 +373,11 @@ impl<'a, 'b> ComplexTraversal<'a> {
     fn insert_complex(
         &mut self,
         alias: &'a str,
-        name: &'a str,
         field: &'a schema_field::Field,
         complex: ComplexTraversal<'a>,
     ) -> Result<()> {
         for uniques in self.concrete_objects.values_mut() {
-            uniques.insert(alias, name, field, FieldTraversal::Complex(complex.clone()))?;
+            uniques.insert(alias, field, FieldTraversal::Complex(complex.clone()))?;
         }
         Ok(())
     }
@@ -459,14 +458,34 @@ impl<'a> FieldTraversal<'a> {
     fn extend_from(&mut self, other: Self) -> Result<()> {
         match self {
             Self::Complex(self_complex) => match other {
-                Self::Complex(other_complex) => self_complex.extend_from(other_complex),
+                Self::Complex(other_complex) => {
+                    let mut other_type_names = other_complex.concrete_objects.keys();
+                    if other_type_names.any(|name| self_complex.concrete_objects.contains_key(name))
+                    {
+                        self_complex.extend_from(other_complex)
+                    } else {
+                        Err(Error::ConflictingFields {
+                            type_name: self_complex.type_name.to_string(),
+                            other_type_name: other_complex.type_name.to_string(),
+                        })
+                    }
+                }
                 Self::Terminal(other_terminal) => Err(Error::MixedTerminalAndComplexFields {
                     complex_type_name: self_complex.type_name.to_string(),
                     terminal_type_name: other_terminal.type_name.to_string(),
                 }),
             },
             Self::Terminal(self_terminal) => match other {
-                Self::Terminal(_) => Ok(()), // Nothing to do if both terminal
+                // Nothing to do if both are the same terminal
+                Self::Terminal(other_terminal)
+                    if self_terminal.type_name == other_terminal.type_name =>
+                {
+                    Ok(())
+                }
+                Self::Terminal(other_terminal) => Err(Error::ConflictingFields {
+                    type_name: self_terminal.type_name.to_string(),
+                    other_type_name: other_terminal.type_name.to_string(),
+                }),
                 Self::Complex(other_complex) => Err(Error::MixedTerminalAndComplexFields {
                     complex_type_name: other_complex.type_name.to_string(),
                     terminal_type_name: self_terminal.type_name.to_string(),
@@ -705,7 +724,7 @@ fn insert_field<'a, 'b>(
         }
         (true, false) => {
             let terminal = TerminalTraversal::from(field_type_name);
-            traversal.insert_terminal(alias, field_type_name, field, terminal)?;
+            traversal.insert_terminal(alias, field, terminal)?;
         }
         (false, true) => {
             let mut sub_parent =
@@ -716,7 +735,7 @@ fn insert_field<'a, 'b>(
                 &mut sub_parent,
                 jump_state,
             )?;
-            traversal.insert_complex(alias, field_type_name, field, sub_parent)?;
+            traversal.insert_complex(alias, field, sub_parent)?;
         }
     };
 
-- 
2.43.0


From 23c2faaddc10be970596728105c8a02ee7c6157b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:27 +0000
Subject: [PATCH 15/29] fix: share a type between possible types only if their
 properties have the same types

---
 src/graphql/schema/field.rs |  6 ++--
 src/typescript.rs           | 58 ++++++++++++++++++++++++++++++++++---
 2 files changed, 57 insertions(+), 7 deletions(-)

diff --git a/src/graphql/schema/field.rs b/src/graphql/schema/field.rs
index 16b2f79..6a6bbee 100644
--- a/src/graphql/schema/field.rs
+++ b/src/graphql/schema/field.rs
@@ -1,7 +1,7 @@
 use super::{json, Documentation, Error};
 use std::convert::{TryFrom, TryInto};
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq)]
 pub enum ScalarType {
     Custom(String),
     Boolean,
@@ -44,7 +44,7 @@ impl FieldTypeDefinition {
     }
 }
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq)]
 pub enum FieldTypeModifier {
     /// No modifier or "flat"
     None,
@@ -132,7 +132,7 @@ impl ModifierBuilder {
     }
 }
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq)]
 pub struct FieldTypeModifiers {
     last: FieldTypeModifier,
     rest: Vec<FieldTypeModifier>,
diff --git a/src/typescript.rs b/src/typescript.rs
index 303be06..53e2937 100644
--- a/src/typescript.rs
+++ b/src/typescript.rs
@@ -303,6 +303,48 @@ fn prop_type_def<'a>(
     result
 }
 
+/// Whether both compile to the same type definitions, apart from the type name they discriminate
+fn has_same_shape(complex: &ir::Complex, other: &ir::Complex) -> bool {
+    complex.fields.len() == other.fields.len()
+        && complex
+            .fields
+            .iter()
+            .zip(&other.fields)
+            .all(|(field, other_field)| {
+                field.prop_name == other_field.prop_name
+                    && field.type_modifiers == other_field.type_modifiers
+                    && has_same_type(&field.type_ir, &other_field.type_ir)
+            })
+}
+
+fn has_same_type(type_ir: &ir::FieldType, other: &ir::FieldType) -> bool {
+    match (type_ir, other) {
+        (ir::FieldType::TypeName, ir::FieldType::TypeName) => true,
+        (ir::FieldType::Enum(name), ir::FieldType::Enum(other_name)) => name == other_name,
+        (ir::FieldType::Scalar(scalar), ir::FieldType::Scalar(other_scalar)) => {
+            scalar == other_scalar
+        }
+        (ir::FieldType::Complex(collection), ir::FieldType::Complex(other_collection)) => {
+            let num_possible_types = collection.possibilities.len();
+            num_possible_types == other_collection.possibilities.len()
+                && collection
+                    .possibilities
+                    .iter()
+                    .zip(&other_collection.possibilities)
+                    .all(|(complex, other_complex)| {
+                        let is_nameless = num_possible_types == 1
+                            && !complex
+                                .fields
+                                .iter()
+                                .any(|field| matches!(field.type_ir, ir::FieldType::TypeName));
+                        (is_nameless || complex.name == other_complex.name)
+                            && has_same_shape(complex, other_complex)
+                    })
+        }
+        _ => false,
+    }
+}
+
 fn field_ids_for_complex_ir(complex: &ir::Complex) -> HashSet<&str> {
     complex
         .fields
@@ -355,10 +397,18 @@ fn type_definitions_from_complex_field_collection(
     }
 
     // These will represent all the types can can be smooshed down
-    let repeated_possiblities: HashSet<&str> = all_fields
-        .into_iter()
-        .filter(|(_, fields)| common_props == *fields)
-        .map(|(name, _)| name)
+    let smooshable = collection
+        .possibilities
+        .iter()
+        .zip(all_fields)
+        .filter(|(_, (_, fields))| common_props == *fields)
+        .map(|(possibility, _)| possibility)
+        .collect::<Vec<_>>();
+    // The same property can still lead to different types
+    let repeated_possiblities: HashSet<&str> = smooshable
+        .iter()
+        .filter(|possibility| has_same_shape(possibility, smooshable[0]))
+        .map(|possibility| &possibility.name[..])
         .collect();
 
     let num_repeats = repeated_possiblities.len();
-- 
2.43.0


From 7868f83758eacae87af404f267e40be0ca25f35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:14 +0000
Subject: [PATCH 16/29] fix: fail the schema download when the response is cut
 short

The promise never settled then, so the script ended with status 0 and a partial schema.
---
 pkg/npm/lib/download.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/npm/lib/download.js b/pkg/npm/lib/download.js
index c812f4d..7b28970 100644
--- a/pkg/npm/lib/download.js
+++ b/pkg/npm/lib/download.js
@@ -1,6 +1,7 @@
 "use strict";
 
 const { unlink, createWriteStream } = require("fs");
+const { pipeline } = require("stream");
 const { URL } = require("url");
 
 const introspectionQuery = `
@@ -107,8 +108,7 @@ function download() {
         if (response.statusCode !== 200) {
           return cleanup(new Error(`Download failed with ${response.statusCode}`));
         }
-        response.pipe(outFile);
-        outFile.on("finish", resolve);
+        pipeline(response, outFile, (err) => (err ? cleanup(err) : resolve()));
       })
       .on("error", cleanup)
       .end(JSON.stringify({ query: introspectionQuery }));
-- 
2.43.0


From 1a8cc7eb2aa78896a5a8b69bdc5b9b39579d6342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:14 +0000
Subject: [PATCH 17/29] fix: do not truncate the schema file when the endpoint
 is not a URL

---
 pkg/npm/lib/download.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/npm/lib/download.js b/pkg/npm/lib/download.js
index 7b28970..d646892 100644
--- a/pkg/npm/lib/download.js
+++ b/pkg/npm/lib/download.js
@@ -90,6 +90,7 @@ function download() {
   }
   const outFilePath = outFilePathRaw || "schema.json";
   return new Promise((resolve, reject) => {
+    const parsedUrl = new URL(endpoint);
     const outFile = createWriteStream(outFilePath);
     const cleanup = (err) => {
       return unlink(outFilePath, (deleteErr) => {
@@ -97,7 +98,6 @@ function download() {
         reject(err);
       });
     };
-    const parsedUrl = new URL(endpoint);
     const opts = {
       method: "POST",
       headers: { "Content-Type": "application/json" },
-- 
2.43.0


From 902a456fb695c8c3aaab31ce5e7c024416c1f693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:14 +0000
Subject: [PATCH 18/29] fix: fail the installation when the download is cut
 short

The promise never settled then, so the script ended with status 0 and no binary installed.
---
 pkg/npm/lib/postinstall.js | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/npm/lib/postinstall.js b/pkg/npm/lib/postinstall.js
index 7ee3192..c2d1099 100644
--- a/pkg/npm/lib/postinstall.js
+++ b/pkg/npm/lib/postinstall.js
@@ -2,6 +2,7 @@
 
 const { platform, arch } = require("os");
 const { createWriteStream } = require("fs");
+const { pipeline } = require("stream");
 const { mkdir, unlink, chmod, readFile, access } = require("fs/promises");
 const url = require("url");
 const { get: httpsGet } = require("https");
@@ -47,7 +48,9 @@ function download(fullUrl, dest) {
     httpsGet(opts, (response) => {
       switch (response.statusCode) {
         case 200:
-          return response.pipe(createWriteStream(dest).on("finish", resolve));
+          return pipeline(response, createWriteStream(dest), (err) =>
+            err ? cleanup(err) : resolve(),
+          );
         case 302:
           return download(response.headers.location, dest)
             .then(resolve)
-- 
2.43.0


From 92a3baeaf8a734a615b04e754ca429404f794649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:14 +0000
Subject: [PATCH 19/29] fix: end a stalled download when its timeout passes

The timeout option alone only emits an event.
---
 pkg/npm/lib/postinstall.js | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/npm/lib/postinstall.js b/pkg/npm/lib/postinstall.js
index c2d1099..5598aab 100644
--- a/pkg/npm/lib/postinstall.js
+++ b/pkg/npm/lib/postinstall.js
@@ -61,6 +61,9 @@ function download(fullUrl, dest) {
           );
       }
     })
+      .on("timeout", function () {
+        this.destroy(new Error("Download timed out"));
+      })
       .on("error", cleanup)
       .end();
   });
-- 
2.43.0


From e5618022a4fad33fb899f768030bd647dc449eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:34 +0000
Subject: [PATCH 20/29] fix: ask for the deprecation of fields when downloading
 a schema

Without it no deprecation reaches the generated types or the deprecation warnings.
---
 pkg/npm/lib/download.js | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/npm/lib/download.js b/pkg/npm/lib/download.js
index d646892..af7c94f 100644
--- a/pkg/npm/lib/download.js
+++ b/pkg/npm/lib/download.js
@@ -28,6 +28,7 @@ const introspectionQuery = `
       type {
         ...TypeRef
       }
+      isDeprecated
     }
     inputFields {
       ...InputValue
-- 
2.43.0


From 925520b648961dcc784ebf88e42f47ddb772d7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 21/29] fix: open the schema file only once its download has
 started

An endpoint with a protocol that is not supported, such as
localhost:4000/graphql, left an empty schema behind.
---
 pkg/npm/lib/download.js | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/npm/lib/download.js b/pkg/npm/lib/download.js
index af7c94f..0800d15 100644
--- a/pkg/npm/lib/download.js
+++ b/pkg/npm/lib/download.js
@@ -92,7 +92,6 @@ function download() {
   const outFilePath = outFilePathRaw || "schema.json";
   return new Promise((resolve, reject) => {
     const parsedUrl = new URL(endpoint);
-    const outFile = createWriteStream(outFilePath);
     const cleanup = (err) => {
       return unlink(outFilePath, (deleteErr) => {
         console.error(deleteErr);
@@ -109,7 +108,7 @@ function download() {
         if (response.statusCode !== 200) {
           return cleanup(new Error(`Download failed with ${response.statusCode}`));
         }
-        pipeline(response, outFile, (err) => (err ? cleanup(err) : resolve()));
+        pipeline(response, createWriteStream(outFilePath), (err) => (err ? cleanup(err) : resolve()));
       })
       .on("error", cleanup)
       .end(JSON.stringify({ query: introspectionQuery }));
-- 
2.43.0


From 8d24698dc1ade46b64975ee88a0ebe8a4d6c095a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 22/29] fix: give up on a download that is redirected forever

---
 pkg/npm/lib/postinstall.js | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/npm/lib/postinstall.js b/pkg/npm/lib/postinstall.js
index 5598aab..65a8e0c 100644
--- a/pkg/npm/lib/postinstall.js
+++ b/pkg/npm/lib/postinstall.js
@@ -32,7 +32,7 @@ function getTarget() {
   }
 }
 
-function download(fullUrl, dest) {
+function download(fullUrl, dest, redirects = 10) {
   return new Promise((resolve, reject) => {
     const cleanup = (err) =>
       unlink(dest)
@@ -52,7 +52,10 @@ function download(fullUrl, dest) {
             err ? cleanup(err) : resolve(),
           );
         case 302:
-          return download(response.headers.location, dest)
+          if (redirects === 0) {
+            return cleanup(new Error("Too many redirects"));
+          }
+          return download(response.headers.location, dest, redirects - 1)
             .then(resolve)
             .catch(reject);
         default:
-- 
2.43.0


From 61ce243408c84775e599395d36cfdd28e6bbcab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 23/29] fix: fail the schema download when the schema cannot be
 written

---
 pkg/npm/lib/download.js | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/npm/lib/download.js b/pkg/npm/lib/download.js
index 0800d15..3bb26a0 100644
--- a/pkg/npm/lib/download.js
+++ b/pkg/npm/lib/download.js
@@ -108,7 +108,8 @@ function download() {
         if (response.statusCode !== 200) {
           return cleanup(new Error(`Download failed with ${response.statusCode}`));
         }
-        pipeline(response, createWriteStream(outFilePath), (err) => (err ? cleanup(err) : resolve()));
+        const outFile = createWriteStream(outFilePath).on("error", cleanup);
+        pipeline(response, outFile, (err) => (err ? cleanup(err) : resolve()));
       })
       .on("error", cleanup)
       .end(JSON.stringify({ query: introspectionQuery }));
-- 
2.43.0


From cf71ee6a168080267c8ee66d280a34c4779ff517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 24/29] fix: fail the installation when the download cannot be
 written

---
 pkg/npm/lib/postinstall.js | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/npm/lib/postinstall.js b/pkg/npm/lib/postinstall.js
index 65a8e0c..c15b20f 100644
--- a/pkg/npm/lib/postinstall.js
+++ b/pkg/npm/lib/postinstall.js
@@ -48,8 +48,10 @@ function download(fullUrl, dest, redirects = 10) {
     httpsGet(opts, (response) => {
       switch (response.statusCode) {
         case 200:
-          return pipeline(response, createWriteStream(dest), (err) =>
-            err ? cleanup(err) : resolve(),
+          return pipeline(
+            response,
+            createWriteStream(dest).on("error", cleanup),
+            (err) => (err ? cleanup(err) : resolve()),
           );
         case 302:
           if (redirects === 0) {
-- 
2.43.0


From b5b5939d4855142215c5c1f01edec08e51f729d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:43 +0000
Subject: [PATCH 25/29] fix: diagnostics list names in the same order every
 time

---
 src/cli.rs        |  4 +++-
 src/graphql/ir.rs | 13 ++++++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index 277c6fd..976256c 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -504,11 +504,13 @@ pub fn similar_help_suggestions(
     possible_names: impl Iterator<Item = String>,
 ) -> Option<String> {
     let comparison_name = comparison_name.as_ref();
-    let similar_names: Vec<_> = possible_names
+    let mut similar_names: Vec<_> = possible_names
         .filter(|possible_field_name| {
             generic_damerau_levenshtein(comparison_name, possible_field_name.as_ref()) < 3
         })
         .collect();
+    // The names come from hash maps, and the same mistake should read the same every time
+    similar_names.sort_unstable();
     if similar_names.is_empty() {
         None
     } else {
diff --git a/src/graphql/ir.rs b/src/graphql/ir.rs
index 35c8f61..9bc10a2 100644
--- a/src/graphql/ir.rs
+++ b/src/graphql/ir.rs
@@ -344,13 +344,16 @@ impl<'a, 'b> ComplexTraversal<'a> {
             base.concrete_objects
                 .retain(|type_name, _| self.concrete_objects.contains_key(type_name));
             if !jump_state.is_fully_jumped() && base.concrete_objects.is_empty() {
+                let mut possible_types: Vec<_> = self
+                    .concrete_objects
+                    .keys()
+                    .map(|key| key.to_string())
+                    .collect();
+                // The map has no order, and the same warning should read the same every time
+                possible_types.sort_unstable();
                 context.push_warning(Warning::OverFragmentNarrowing {
                     position,
-                    possible_types: self
-                        .concrete_objects
-                        .keys()
-                        .map(|key| key.to_string())
-                        .collect(),
+                    possible_types,
                     spread_type_name: spread_type_name.to_string(),
                 });
             }
-- 
2.43.0


From a1134eb7a32604d692838f1f0d7798b955a9e837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:00 +0000
Subject: [PATCH 26/29] fix: tell the kinds of typed documents apart when
 extracting their types

Every private property is optional, so each typed document matched the
first kind, QueryDocumentNode, and DataOf and VariablesOf gave
{ [x: string]: unknown } for mutations, subscriptions and fragments.
---
 pkg/npm/lib/typed-documentnode.d.ts | 52 +++++++++++++++++++----------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/pkg/npm/lib/typed-documentnode.d.ts b/pkg/npm/lib/typed-documentnode.d.ts
index d58a7fa..0d43fa7 100644
--- a/pkg/npm/lib/typed-documentnode.d.ts
+++ b/pkg/npm/lib/typed-documentnode.d.ts
@@ -35,6 +35,9 @@ export type FragmentDocumentNode<Data extends BasicObject> = DocumentNode & {
   readonly __typedDocumentNodeFragment?: () => Data;
 };
 
+// The private properties are optional, so every document "extends" every kind of document and only
+// the presence of the key tells them apart.
+
 /**
  * Helper for extracting a data type from a typed DocumentNode
  * @example
@@ -42,14 +45,24 @@ export type FragmentDocumentNode<Data extends BasicObject> = DocumentNode & {
  * // MyQuery is QueryDocumentNode<D, V>
  * type MyQuerysData = DataOf<typeof MyQuery>; // MyQuerysData is now type D
  */
-export type DataOf<T> = T extends QueryDocumentNode<infer Data, infer Variables>
-  ? Data
-  : T extends MutationDocumentNode<infer Data, infer Variables>
-  ? Data
-  : T extends SubscriptionDocumentNode<infer Data, infer Variables>
-  ? Data
-  : T extends FragmentDocumentNode<infer Data>
-  ? Data
+export type DataOf<T> = T extends DocumentNode
+  ? "__typedDocumentNodeQuery" extends keyof T
+    ? T extends QueryDocumentNode<infer Data, infer Variables>
+      ? Data
+      : never
+    : "__typedDocumentNodeMutation" extends keyof T
+    ? T extends MutationDocumentNode<infer Data, infer Variables>
+      ? Data
+      : never
+    : "__typedDocumentNodeSubscription" extends keyof T
+    ? T extends SubscriptionDocumentNode<infer Data, infer Variables>
+      ? Data
+      : never
+    : "__typedDocumentNodeFragment" extends keyof T
+    ? T extends FragmentDocumentNode<infer Data>
+      ? Data
+      : never
+    : never
   : never;
 
 /**
@@ -59,13 +72,18 @@ export type DataOf<T> = T extends QueryDocumentNode<infer Data, infer Variables>
  * // MyMutation is MutationDocumentNode<D, V>
  * type MyMutationsVars = VariablesOf<typeof MyMutation>; // MyMutationsVars is now type V
  */
-export type VariablesOf<T> = T extends QueryDocumentNode<
-  infer Data,
-  infer Variables
->
-  ? Variables
-  : T extends MutationDocumentNode<infer Data, infer Variables>
-  ? Variables
-  : T extends SubscriptionDocumentNode<infer Data, infer Variables>
-  ? Variables
+export type VariablesOf<T> = T extends DocumentNode
+  ? "__typedDocumentNodeQuery" extends keyof T
+    ? T extends QueryDocumentNode<infer Data, infer Variables>
+      ? Variables
+      : never
+    : "__typedDocumentNodeMutation" extends keyof T
+    ? T extends MutationDocumentNode<infer Data, infer Variables>
+      ? Variables
+      : never
+    : "__typedDocumentNodeSubscription" extends keyof T
+    ? T extends SubscriptionDocumentNode<infer Data, infer Variables>
+      ? Variables
+      : never
+    : never
   : never;
-- 
2.43.0


From e8e43edcd64cef61db9ed9107a0db8ab46b25c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:07 +0000
Subject: [PATCH 27/29] fix: follow chains of input objects without recursion,
 so that long ones do not overflow the stack

---
 src/typescript.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/typescript.rs b/src/typescript.rs
index 53e2937..d6fb58e 100644
--- a/src/typescript.rs
+++ b/src/typescript.rs
@@ -139,9 +139,18 @@ fn add_sub_input_objects<'a>(
     schema: &'a schema::Schema,
     current_type: &'a schema::Type,
 ) -> Result<()> {
-    if let schema::TypeDefinition::InputObject(input_object_type) = &current_type.definition {
-        for field in input_object_type.fields.values() {
-            add_sub_input_object_field(name_to_type, schema, &field.type_description, &field.name)?;
+    // Chains of input objects can be longer than the stack would hold
+    let mut types_to_follow = vec![current_type];
+    while let Some(next_type) = types_to_follow.pop() {
+        if let schema::TypeDefinition::InputObject(input_object_type) = &next_type.definition {
+            for field in input_object_type.fields.values() {
+                types_to_follow.extend(add_sub_input_object_field(
+                    name_to_type,
+                    schema,
+                    &field.type_description,
+                    &field.name,
+                )?);
+            }
         }
     }
     Ok(())
@@ -152,7 +161,7 @@ fn add_sub_input_object_field<'a>(
     schema: &'a schema::Schema,
     field_type: &'a schema_field::FieldType,
     field_name: &'a str,
-) -> Result<()> {
+) -> Result<Option<&'a schema::Type>> {
     let concrete = field_type.reveal_concrete();
     let type_name = &concrete.name;
     match concrete.definition {
@@ -162,7 +171,7 @@ fn add_sub_input_object_field<'a>(
                 .ok_or_else(|| Error::MissingType(type_name.to_string()))?;
             // Input objects can refer to themselves, directly or through others
             if name_to_type.insert(type_name, global_type).is_none() {
-                add_sub_input_objects(name_to_type, schema, global_type)?;
+                return Ok(Some(global_type));
             }
         }
         schema_field::FieldTypeDefinition::Enum => {
@@ -179,7 +188,7 @@ fn add_sub_input_object_field<'a>(
             })
         }
     }
-    Ok(())
+    Ok(None)
 }
 
 fn global_types_from_names(
-- 
2.43.0


From 8f10db442c8e12f7e6dd83c0215472289f654d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:07 +0000
Subject: [PATCH 28/29] fix: follow chains of imports without recursion, so
 that long ones do not overflow the stack

---
 src/graphql.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index 590b200..93e1328 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -129,6 +129,7 @@ fn add_imported_fragments(
     current_file_contents: &str,
     import_contents: &mut BTreeMap<PathBuf, (String, PathBuf, LocationInformation)>,
     visited: &mut HashSet<PathBuf>,
+    files_to_follow: &mut Vec<(PathBuf, String)>,
     messages: &mut Vec<PrintableMessage>,
 ) {
     let mut current_dir = current_file.to_owned();
@@ -162,14 +163,8 @@ fn add_imported_fragments(
         if !visited.insert(canonical_path) {
             continue;
         }
-        add_imported_fragments(
-            config,
-            &file_path,
-            &other_file_contents,
-            import_contents,
-            visited,
-            messages,
-        );
+        // Chains of imports can be longer than the stack would hold, so the caller follows them.
+        files_to_follow.push((file_path.clone(), other_file_contents.clone()));
         import_contents.insert(
             file_path,
             (other_file_contents, current_file.to_owned(), location),
@@ -219,14 +214,19 @@ pub fn compile_file(
 
     let mut messages = Vec::new();
     let mut imported_contents = BTreeMap::new();
-    add_imported_fragments(
-        config,
-        path,
-        &contents,
-        &mut imported_contents,
-        &mut HashSet::new(),
-        &mut messages,
-    );
+    let mut visited = HashSet::new();
+    let mut files_to_follow = vec![(path.to_owned(), contents.clone())];
+    while let Some((file_path, file_contents)) = files_to_follow.pop() {
+        add_imported_fragments(
+            config,
+            &file_path,
+            &file_contents,
+            &mut imported_contents,
+            &mut visited,
+            &mut files_to_follow,
+            &mut messages,
+        );
+    }
     let parsed_imported_fragments = parse_foreign_fragments(&imported_contents, &mut messages);
 
     let (op_ir, warnings) = match ir::Operation::compile(
-- 
2.43.0


From 7dae6505e7ac9a98a5ee41800fae711f499e85ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:07 +0000
Subject: [PATCH 29/29] fix: refuse selections that fragments nest too deeply
 instead of overflowing the stack

---
 src/graphql/ir.rs | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/graphql/ir.rs b/src/graphql/ir.rs
index 9bc10a2..d97d1cd 100644
--- a/src/graphql/ir.rs
+++ b/src/graphql/ir.rs
@@ -85,11 +85,16 @@ impl ForeignFragmentJumpState {
     }
 }
 
+/// How many selection sets may lie inside of each other, fragments included. The parser limits a
+/// single file in the same way, but fragments could nest until the stack overflows.
+const MAX_SELECTION_DEPTH: usize = 128;
+
 #[derive(Debug)]
 pub enum Error {
     SelectionSetAsOperationUnsupported(Pos),
     UnknownFragment(String, Pos, Vec<String>),
     RecursiveFragment(String, Pos),
+    TooDeeplyNested(Pos),
     MissingTypeConditionOnInlineFragment(Pos),
     SelectionSetOnWrongType(String, Pos),
     MissingSelectionSetOnType(String, Pos),
@@ -146,6 +151,13 @@ impl From<(&str, &Path, Error)> for PrintableMessage {
                 &position,
                 Some("Fragments must not spread themselves, directly or through other fragments."),
             ),
+            Error::TooDeeplyNested(position) => PrintableMessage::new_compile_error(
+                "too deeply nested selection",
+                file_path,
+                contents,
+                &position,
+                Some(&format!("With all fragments, QLC supports {MAX_SELECTION_DEPTH} levels of selections.")),
+            ),
             Error::MissingTypeConditionOnInlineFragment(position) => PrintableMessage::new_compile_error(
                 "fragment missing type condition on inline fragment",
                 file_path,
@@ -215,9 +227,13 @@ impl From<(&str, &Path, Error)> for PrintableMessage {
 }
 
 impl Error {
-    fn recursive_name(&self) -> Option<&str> {
+    /// The error as seen by a document that spreads the fragment, if it concerns that document
+    fn at_spread(&self, spread_position: Pos) -> Option<Self> {
         match self {
-            Error::RecursiveFragment(name, _) => Some(name),
+            Error::RecursiveFragment(name, _) => {
+                Some(Error::RecursiveFragment(name.to_string(), spread_position))
+            }
+            Error::TooDeeplyNested(_) => Some(Error::TooDeeplyNested(spread_position)),
             _ => None,
         }
     }
@@ -235,6 +251,8 @@ pub struct CompileContext<'a, 'b> {
     imported_fragments: ImportedFragments<'b>,
     /// Names of the fragments being expanded, outermost first
     active_fragments: std::cell::RefCell<Vec<String>>,
+    /// Number of selection sets being collected, one inside of the other
+    selection_depth: std::cell::Cell<usize>,
     warnings: std::cell::RefCell<Vec<Warning>>,
 }
 
@@ -565,6 +583,7 @@ impl<'a, 'b> Operation<'a> {
             show_deprecation_warnings,
             imported_fragments,
             active_fragments: std::cell::RefCell::new(Vec::new()),
+            selection_depth: std::cell::Cell::new(0),
             warnings: std::cell::RefCell::new(Vec::new()),
         };
         let operation = match definition {
@@ -759,10 +778,15 @@ fn collect_fields_from_selection_set<'a, 'b>(
     complex_parent: &mut ComplexTraversal<'a>,
     jump_state: ForeignFragmentJumpState,
 ) -> ResultMany<()> {
+    let depth = context.selection_depth.get();
+    if depth >= MAX_SELECTION_DEPTH {
+        return Err(vec![Error::TooDeeplyNested(selection_set.span.0)]);
+    }
     let mut errors = Vec::new();
     let active_count = context.active_fragments.borrow().len();
     for selection in &selection_set.items {
         context.active_fragments.borrow_mut().truncate(active_count);
+        context.selection_depth.set(depth + 1);
         let (spread_type_name, spread_position, sub_selection_set, new_jump_state) = match selection
         {
             parsed_query::Selection::Field(selection_field) => {
@@ -855,14 +879,18 @@ fn collect_fields_from_selection_set<'a, 'b>(
             Err(sub_messages) => {
                 if new_jump_state.is_local() {
                     errors.extend(sub_messages);
-                } else if let Some(name) = sub_messages.iter().find_map(Error::recursive_name) {
+                } else if let Some(error) = sub_messages
+                    .iter()
+                    .find_map(|message| message.at_spread(spread_position))
+                {
                     // Not every fragment of a cycle sees it when compiled alone
-                    errors.push(Error::RecursiveFragment(name.to_string(), spread_position));
+                    errors.push(error);
                 }
             }
         }
     }
     context.active_fragments.borrow_mut().truncate(active_count);
+    context.selection_depth.set(depth);
 
     if errors.is_empty() {
         Ok(())
-- 
2.43.0

