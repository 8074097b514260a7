From 6e0d7cf4fb240d01abc992f1bd47aa4a02f9aed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:07 +0000
Subject: [PATCH 01/72] fix: print the `@index` entry of indexed objects under
 its own key

---
 crates/core/src/object/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/object/mod.rs b/crates/core/src/object/mod.rs
index a65ac70..c67dcd5 100644
--- a/crates/core/src/object/mod.rs
+++ b/crates/core/src/object/mod.rs
@@ -710,7 +710,7 @@ impl<'a, T, B, N: Vocabulary<Iri = T, BlankId = B>> IntoRefWithContext<'a, str,
 {
 	fn into_ref_with(self, vocabulary: &'a N) -> &'a str {
 		match self {
-			IndexedEntryKeyRef::Index => "@value",
+			IndexedEntryKeyRef::Index => "@index",
 			IndexedEntryKeyRef::Object(e) => e.into_with(vocabulary).into_str(),
 		}
 	}
-- 
2.43.0


From 7c346f2e3e5275364a7fc05324c25151d0182e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:07 +0000
Subject: [PATCH 02/72] fix: do not leak remote contexts to the next items of a
 context array

---
 crates/context-processing/src/algorithm/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/context-processing/src/algorithm/mod.rs b/crates/context-processing/src/algorithm/mod.rs
index caaa5ed..3a68c73 100644
--- a/crates/context-processing/src/algorithm/mod.rs
+++ b/crates/context-processing/src/algorithm/mod.rs
@@ -74,7 +74,7 @@ async fn process_context<'l: 'a, 'a, N, L, W>(
 	mut env: Environment<'a, N, L, W>,
 	active_context: &'a Context<N::Iri, N::BlankId>,
 	local_context: &'l syntax::context::Context,
-	mut remote_contexts: ProcessingStack<N::Iri>,
+	remote_contexts: ProcessingStack<N::Iri>,
 	base_url: Option<N::Iri>,
 	mut options: Options,
 ) -> ProcessingResult<'l, N::Iri, N::BlankId>
@@ -165,6 +165,10 @@ where
 				// If the document has no top-level map with an @context entry, an invalid remote
 				// context has been detected and processing is aborted.
 				// Set loaded context to the value of that entry.
+				//
+				// The stack is copied: the remaining items of `local_context` are not
+				// part of the remote context.
+				let mut remote_contexts = remote_contexts.clone();
 				if remote_contexts.push(context_iri.clone()) {
 					let loaded_context = env
 						.loader
@@ -192,7 +196,7 @@ where
 						},
 						&result,
 						&loaded_context,
-						remote_contexts.clone(),
+						remote_contexts,
 						Some(context_iri),
 						new_options,
 					))
-- 
2.43.0


From 8389696152150fe3eeef0e032904617ce42a66ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:07 +0000
Subject: [PATCH 03/72] fix: let property-scoped contexts override protected
 terms for scalar values

---
 crates/expansion/src/element.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/expansion/src/element.rs b/crates/expansion/src/element.rs
index a96e6ef..c2ea770 100644
--- a/crates/expansion/src/element.rs
+++ b/crates/expansion/src/element.rs
@@ -476,13 +476,14 @@ where
 					.get_from(active_context)
 					.and_then(|definition| definition.base_url().cloned());
 
+				let options: ProcessingOptions = options.into();
 				let result = property_scoped_context
 					.process_with(
 						env.vocabulary,
 						active_context,
 						env.loader,
 						base_url,
-						options.into(),
+						options.with_override(),
 					)
 					.await?
 					.into_processed();
-- 
2.43.0


From 0d6987f121eb03a6f1fed39f7c9469a3292abaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:07 +0000
Subject: [PATCH 04/72] fix: resolve the references of a remote context against
 its final URL

---
 crates/context-processing/src/algorithm/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/context-processing/src/algorithm/mod.rs b/crates/context-processing/src/algorithm/mod.rs
index 3a68c73..0ab7582 100644
--- a/crates/context-processing/src/algorithm/mod.rs
+++ b/crates/context-processing/src/algorithm/mod.rs
@@ -170,10 +170,12 @@ where
 				// part of the remote context.
 				let mut remote_contexts = remote_contexts.clone();
 				if remote_contexts.push(context_iri.clone()) {
-					let loaded_context = env
+					let context_document = env
 						.loader
 						.load_with(env.vocabulary, context_iri.clone())
-						.await?
+						.await?;
+					let context_url = context_document.url().cloned().unwrap_or(context_iri);
+					let loaded_context = context_document
 						.into_document()
 						.into_ld_context()
 						.map_err(Error::ContextExtractionFailed)?;
@@ -197,7 +199,7 @@ where
 						&result,
 						&loaded_context,
 						remote_contexts,
-						Some(context_iri),
+						Some(context_url),
 						new_options,
 					))
 					.await?;
-- 
2.43.0


From b377d8edb940b1515b6d12fb8b020f831ba4c51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:55 +0000
Subject: [PATCH 05/72] fix: report remote documents without `@context` as
 invalid remote contexts

---
 crates/context-processing/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/context-processing/src/lib.rs b/crates/context-processing/src/lib.rs
index 9a0bdb2..67edc65 100644
--- a/crates/context-processing/src/lib.rs
+++ b/crates/context-processing/src/lib.rs
@@ -139,6 +139,9 @@ impl Error {
 			Self::InvalidScopedContext => ErrorCode::InvalidScopedContext,
 			Self::ProtectedTermRedefinition => ErrorCode::ProtectedTermRedefinition,
 			Self::ContextLoadingFailed(_) => ErrorCode::LoadingRemoteContextFailed,
+			Self::ContextExtractionFailed(
+				ExtractContextError::Unexpected(_) | ExtractContextError::NoContext,
+			) => ErrorCode::InvalidRemoteContext,
 			Self::ContextExtractionFailed(_) => ErrorCode::LoadingRemoteContextFailed,
 			Self::ForbiddenVocab => ErrorCode::InvalidVocabMapping,
 		}
-- 
2.43.0


From 4d6e9ded126cdffb5df6f04885785bd67eb9f4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:55 +0000
Subject: [PATCH 06/72] fix: do not leave ignored term definitions pending

---
 crates/context-processing/src/algorithm/define.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index 13125f0..f227143 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -252,6 +252,7 @@ where
 								env.vocabulary,
 								Warning::KeywordLikeValue(reverse_value.to_string()),
 							);
+							defined.end(&term);
 							return Ok(());
 						}
 
@@ -335,6 +336,7 @@ where
 											env.vocabulary,
 											Warning::KeywordLikeValue(id_value.to_string()),
 										);
+										defined.end(&term);
 										return Ok(());
 									}
 
-- 
2.43.0


From 5101475f926986e98598dc7fcdc9070d1313958f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:56 +0000
Subject: [PATCH 07/72] fix: do not panic on `@prefix` definitions without IRI
 mapping

---
 crates/context-processing/src/algorithm/define.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index f227143..a217a1a 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -417,10 +417,9 @@ where
 									// `definition` to true.
 									if !key.as_str().contains(':')
 										&& !key.as_str().contains('/') && simple_term
-										&& is_gen_delim_or_blank(
-											env.vocabulary,
-											definition.value.as_ref().unwrap(),
-										) {
+										&& definition.value.as_ref().is_some_and(|value| {
+											is_gen_delim_or_blank(env.vocabulary, value)
+										}) {
 										definition.prefix = true;
 									}
 								}
@@ -739,7 +738,9 @@ where
 						// If the `prefix` flag of `definition` is set to `true`, and its IRI
 						// mapping is a keyword, an invalid term definition has been detected and
 						// processing is aborted.
-						if definition.prefix && definition.value.as_ref().unwrap().is_keyword() {
+						if definition.prefix
+							&& definition.value.as_ref().is_some_and(Term::is_keyword)
+						{
 							return Err(Error::InvalidTermDefinition);
 						}
 					}
-- 
2.43.0


From 3a236257dbb67279e33f3be80e0890baf465c9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:44 +0000
Subject: [PATCH 08/72] fix: define the dependencies of a term with the options
 of its context

---
 crates/context-processing/src/algorithm/define.rs | 14 +++++++++++---
 crates/context-processing/src/algorithm/iri.rs    | 14 ++++++++------
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index a217a1a..0c1bf8f 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -213,6 +213,8 @@ where
 							local_context,
 							defined,
 							remote_contexts.clone(),
+							base_url.clone(),
+							protected,
 							options,
 						)
 						.await?;
@@ -271,6 +273,8 @@ where
 							local_context,
 							defined,
 							remote_contexts,
+							base_url.clone(),
+							protected,
 							options,
 						)
 						.await?
@@ -356,6 +360,8 @@ where
 										local_context,
 										defined,
 										remote_contexts.clone(),
+										base_url.clone(),
+										protected,
 										options,
 									)
 									.await?
@@ -402,6 +408,8 @@ where
 											local_context,
 											defined,
 											remote_contexts.clone(),
+											base_url.clone(),
+											protected,
 											options,
 										)
 										.await?;
@@ -450,9 +458,9 @@ where
 										KeyOrKeywordRef::Key(compact_iri.prefix().into()),
 										defined,
 										remote_contexts.clone(),
-										None,
-										false,
-										options.with_no_override(),
+										base_url.clone(),
+										protected,
+										options,
 									))
 									.await?;
 
diff --git a/crates/context-processing/src/algorithm/iri.rs b/crates/context-processing/src/algorithm/iri.rs
index f53b3cb..5b4d5dd 100644
--- a/crates/context-processing/src/algorithm/iri.rs
+++ b/crates/context-processing/src/algorithm/iri.rs
@@ -34,6 +34,8 @@ pub async fn expand_iri_with<'a, N, L, W>(
 	local_context: &'a Merged<'a>,
 	defined: &'a mut DefinedTerms,
 	remote_contexts: ProcessingStack<N::Iri>,
+	base_url: Option<N::Iri>,
+	protected: bool,
 	options: Options,
 ) -> ExpandIriResult<N::Iri, N::BlankId>
 where
@@ -67,9 +69,9 @@ where
 				value.into(),
 				defined,
 				remote_contexts.clone(),
-				None,
-				false,
-				options.with_no_override(),
+				base_url.clone(),
+				protected,
+				options,
 			))
 			.await?;
 
@@ -120,9 +122,9 @@ where
 						KeyOrKeywordRef::Key(compact_iri.prefix().into()),
 						defined,
 						remote_contexts,
-						None,
-						false,
-						options.with_no_override(),
+						base_url,
+						protected,
+						options,
 					))
 					.await?;
 
-- 
2.43.0


From 9049305bed14e96646786c3613c264a89aefe4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:45 +0000
Subject: [PATCH 09/72] fix: apply the `@protected` flag of a context to its
 `@type` definition

---
 crates/context-processing/src/algorithm/define.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index 0c1bf8f..2013bd8 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -135,7 +135,7 @@ where
 					// Checked during parsing.
 					let mut definition = TypeTermDefinition {
 						container: d.container,
-						..Default::default()
+						protected,
 					};
 
 					if let Some(protected) = d.protected {
-- 
2.43.0


From e50600b29f54d1c52d662f4c7a4c1574abdb1878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:45 +0000
Subject: [PATCH 10/72] fix: do not let a reverse property redefine a protected
 term

---
 .../src/algorithm/define.rs                   | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index 2013bd8..f012bbe 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -311,6 +311,27 @@ where
 						// Set the `reverse_property` flag of `definition` to `true`.
 						definition.reverse_property = true;
 
+						// If override protected is false and previous_definition exists and is
+						// protected;
+						if !options.override_protected {
+							if let Some(previous_definition) = previous_definition {
+								if previous_definition.protected {
+									// If `definition` is not the same as `previous_definition`
+									// (other than the value of protected), a protected term
+									// redefinition error has been detected, and processing is
+									// aborted.
+									if definition.modulo_protected_field()
+										!= previous_definition.modulo_protected_field()
+									{
+										return Err(Error::ProtectedTermRedefinition);
+									}
+
+									// Retain the value of protected.
+									definition.protected = true;
+								}
+							}
+						}
+
 						// Set the term definition of `term` in `active_context` to
 						// `definition` and the value associated with `defined`'s entry `term`
 						// to `true` and return.
-- 
2.43.0


From ae1214f8eb25a26a71b184369d4430e88bd648ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:41 +0000
Subject: [PATCH 11/72] fix: do not unwrap the graph object of a single item
 array

---
 crates/expansion/src/document.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/expansion/src/document.rs b/crates/expansion/src/document.rs
index 253fc20..6585cba 100644
--- a/crates/expansion/src/document.rs
+++ b/crates/expansion/src/document.rs
@@ -34,7 +34,8 @@ where
 		false,
 	)
 	.await?;
-	if expanded.len() == 1 {
+	// Only a map is unwrapped: the single item of an array is a named graph.
+	if !document.is_array() && expanded.len() == 1 {
 		let obj = expanded.into_iter().next().unwrap();
 		match obj.into_unnamed_graph() {
 			Ok(graph) => Ok(ExpandedDocument::from(graph)),
-- 
2.43.0


From 9d0b5c19c84a6fa26a2fe32b3c15e7ca615f8f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:43 +0000
Subject: [PATCH 12/72] fix: process `expand_context` and Link contexts as the
 remote contexts they are

---
 src/processor/remote_document.rs | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/processor/remote_document.rs b/src/processor/remote_document.rs
index 7fab4e7..41d559a 100644
--- a/src/processor/remote_document.rs
+++ b/src/processor/remote_document.rs
@@ -8,9 +8,22 @@ use crate::IntoDocumentResult;
 use crate::{Context, Flatten, Loader, RemoteDocument, RemoteDocumentReference};
 use contextual::WithContext;
 use json_ld_core::{Document, RemoteContextReference};
-use rdf_types::{Generator, VocabularyMut};
+use rdf_types::{vocabulary::IriVocabulary, Generator, VocabularyMut};
 use std::hash::Hash;
 
+/// Creates a local context referring to the remote context `iri`.
+///
+/// Processing it loads the remote context, uses its final URL to resolve the
+/// references it contains, and ignores its `@base` entries.
+fn remote_context<N>(vocabulary: &N, iri: &N::Iri) -> json_ld_syntax::Context
+where
+	N: IriVocabulary,
+{
+	json_ld_syntax::Context::One(json_ld_syntax::ContextEntry::IriRef(
+		vocabulary.iri(iri).unwrap().as_iri_ref().to_owned(),
+	))
+}
+
 impl<I> JsonLdProcessor<I> for RemoteDocument<I> {
 	async fn compare_full<N>(
 		&self,
@@ -57,16 +70,17 @@ impl<I> JsonLdProcessor<I> for RemoteDocument<I> {
 		let mut active_context = Context::new(options.base.clone().or_else(|| self.url().cloned()));
 
 		if let Some(expand_context) = options.expand_context.take() {
+			let (expand_context, base_url) = match expand_context {
+				RemoteDocumentReference::Iri(iri) => (remote_context(vocabulary, &iri), None),
+				RemoteDocumentReference::Loaded(context) => (context.document, context.url),
+			};
+
 			active_context = expand_context
-				.load_context_with(vocabulary, loader)
-				.await
-				.map_err(ExpandError::ContextLoading)?
-				.into_document()
 				.process_full(
 					vocabulary,
 					&active_context,
 					loader,
-					active_context.original_base_url().cloned(),
+					base_url.or_else(|| active_context.original_base_url().cloned()),
 					options.context_processing_options(),
 					&mut warnings,
 				)
@@ -76,11 +90,7 @@ impl<I> JsonLdProcessor<I> for RemoteDocument<I> {
 		};
 
 		if let Some(context_url) = self.context_url() {
-			active_context = RemoteDocumentReference::Iri(context_url.clone())
-				.load_context_with(vocabulary, loader)
-				.await
-				.map_err(ExpandError::ContextLoading)?
-				.into_document()
+			active_context = remote_context(vocabulary, context_url)
 				.process_full(
 					vocabulary,
 					&active_context,
-- 
2.43.0


From 9483930f892296b07b59a524245ba2eedea42e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:44 +0000
Subject: [PATCH 13/72] fix: resolve the references of a compaction context
 against its URL

---
 src/processor/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/processor/mod.rs b/src/processor/mod.rs
index 4fa0406..ad3ef97 100644
--- a/src/processor/mod.rs
+++ b/src/processor/mod.rs
@@ -1894,15 +1894,18 @@ where
 	let context = context
 		.load_context_with(vocabulary, loader)
 		.await
-		.map_err(CompactError::ContextLoading)?
-		.into_document();
+		.map_err(CompactError::ContextLoading)?;
+
+	// References in the context are relative to the context document, if any.
+	let context_base = context.url().cloned().or_else(|| context_base.cloned());
+	let context = context.into_document();
 
 	let mut active_context = context
 		.process_full(
 			vocabulary,
 			&Context::new(None),
 			loader,
-			context_base.cloned(),
+			context_base,
 			options.context_processing_options(),
 			warnings,
 		)
-- 
2.43.0


From 8fbbb5cc8a655e5e4e52d4ee6735467d01e18ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:41 +0000
Subject: [PATCH 14/72] fix: merge the types of all the occurrences of a node
 when flattening

---
 crates/core/src/flattening/node_map.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/core/src/flattening/node_map.rs b/crates/core/src/flattening/node_map.rs
index c6bb1cd..aaf030e 100644
--- a/crates/core/src/flattening/node_map.rs
+++ b/crates/core/src/flattening/node_map.rs
@@ -374,12 +374,14 @@ where
 			.declare_node(id.clone(), index)?;
 
 		if let Some(entry) = node.types.as_deref() {
-			flat_node.types = Some(
-				entry
-					.iter()
-					.map(|ty| env.assign_node_id(Some(ty)))
-					.collect(),
-			);
+			// The node may already have been declared elsewhere with other types.
+			let types = flat_node.types_mut_or_default();
+			for ty in entry {
+				let ty = env.assign_node_id(Some(ty));
+				if !types.contains(&ty) {
+					types.push(ty)
+				}
+			}
 		}
 	}
 
-- 
2.43.0


From 1b2a2c942df569e3a8c128220f4540828cc04b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:43 +0000
Subject: [PATCH 15/72] fix: keep the nodes of a named graph which only have
 types when flattening

---
 crates/core/src/flattening/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/flattening/mod.rs b/crates/core/src/flattening/mod.rs
index a521fda..3838085 100644
--- a/crates/core/src/flattening/mod.rs
+++ b/crates/core/src/flattening/mod.rs
@@ -94,7 +94,7 @@ fn filter_graph<T, B>(node: IndexedNode<T, B>) -> Option<IndexedNode<T, B>> {
 }
 
 fn filter_sub_graph<T, B>(mut node: IndexedNode<T, B>) -> Option<IndexedObject<T, B>> {
-	if node.index().is_none() && node.properties().is_empty() {
+	if node.index().is_none() && node.types().is_empty() && node.properties().is_empty() {
 		None
 	} else {
 		node.set_graph_entry(None);
-- 
2.43.0


From b5b22238e394cfce8ccb61f9baf3c8dbc144a269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:13 +0000
Subject: [PATCH 16/72] fix: choose the compact IRI by length then order, and
 detect only real prefix confusions

---
 crates/compaction/src/iri.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/compaction/src/iri.rs b/crates/compaction/src/iri.rs
index 4656858..25e4b91 100644
--- a/crates/compaction/src/iri.rs
+++ b/crates/compaction/src/iri.rs
@@ -446,7 +446,8 @@ where
 						// and value is null, set compact IRI to candidate.
 						let candidate_def = active_context.get(candidate.as_str());
 						if (compact_iri.is_empty()
-							|| (candidate.len() <= compact_iri.len() && candidate < compact_iri))
+							|| (candidate.len(), candidate.as_str())
+								< (compact_iri.len(), compact_iri.as_str()))
 							&& (candidate_def.is_none()
 								|| (candidate_def.is_some()
 									&& (candidate_def.and_then(|def| def.value()) == Some(var))
@@ -472,8 +473,12 @@ where
 	// an IRI confused with prefix error has been detected, and processing is aborted.
 	if let Some(iri) = var.as_iri() {
 		let iri = vocabulary.iri(iri).unwrap();
-		if active_context.contains_term(iri.scheme().as_str()) {
-			return Err(IriConfusedWithPrefix);
+		if iri.authority().is_none() {
+			if let Some(def) = active_context.get(iri.scheme().as_str()) {
+				if def.prefix() {
+					return Err(IriConfusedWithPrefix);
+				}
+			}
 		}
 	}
 
-- 
2.43.0


From 4a844848d1d9157c0861f79b552d5cf4abfb3c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:13 +0000
Subject: [PATCH 17/72] fix: emit the triples of compound literals and keep
 lists connected in RDF

---
 crates/core/src/rdf/mod.rs | 43 ++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/crates/core/src/rdf/mod.rs b/crates/core/src/rdf/mod.rs
index e9c1b41..40ce9bb 100644
--- a/crates/core/src/rdf/mod.rs
+++ b/crates/core/src/rdf/mod.rs
@@ -140,6 +140,7 @@ impl<T: Clone> crate::object::Value<T> {
 	) -> Option<CompoundLiteral<T, V::BlankId, V::Literal>>
 	where
 		V: Vocabulary<Iri = T> + IriVocabularyMut + LiteralVocabularyMut,
+		V::BlankId: Clone,
 	{
 		match self {
 			Self::Json(json) => {
@@ -179,9 +180,27 @@ impl<T: Clone> crate::object::Value<T> {
 						}
 						Some(RdfDirection::CompoundLiteral) => {
 							let id = generator.next(vocabulary);
+							let value_ty = match language {
+								Some(tag) => rdf_types::LiteralType::LangString(tag),
+								None => {
+									rdf_types::LiteralType::Any(vocabulary.insert(XSD_STRING))
+								}
+							};
+							let value = vocabulary
+								.insert_owned_literal(Literal::new(string.to_string(), value_ty));
+							let direction_ty =
+								rdf_types::LiteralType::Any(vocabulary.insert(XSD_STRING));
+							let direction = vocabulary.insert_owned_literal(Literal::new(
+								direction.to_string(),
+								direction_ty,
+							));
 							Some(CompoundLiteral {
-								value: id.into_term(),
-								triples: None,
+								value: id.clone().into_term(),
+								triples: Some(CompoundLiteralTriples {
+									id,
+									value: Some(Value::Literal(value)),
+									direction: Some(Value::Literal(direction)),
+								}),
 							})
 						}
 						None => match language {
@@ -552,12 +571,14 @@ impl<'a, T, B, L> ListTriples<'a, T, B, L> {
 					let previous = list.previous().cloned();
 					match list.next(vocabulary, generator) {
 						Some(node) => {
+							let id = node.id.clone();
+
+							// An item without RDF value has no `rdf:first`
+							// triple, but keeps its place in the list.
 							if let Some(compound_value) =
 								node.object
 									.rdf_value_with(vocabulary, generator, rdf_direction)
 							{
-								let id = node.id.clone();
-
 								if let Some(compound_triples) = compound_value.triples {
 									match compound_triples {
 										CompoundValueTriples::List(list) => {
@@ -574,14 +595,14 @@ impl<'a, T, B, L> ListTriples<'a, T, B, L> {
 									ValidId::Iri(vocabulary.insert(RDF_FIRST)),
 									compound_value.value,
 								));
+							}
 
-								if let Some(previous_id) = previous {
-									break Some(rdf_types::Triple(
-										previous_id,
-										ValidId::Iri(vocabulary.insert(RDF_REST)),
-										id.into_term(),
-									));
-								}
+							if let Some(previous_id) = previous {
+								break Some(rdf_types::Triple(
+									previous_id,
+									ValidId::Iri(vocabulary.insert(RDF_REST)),
+									id.into_term(),
+								));
 							}
 						}
 						None => {
-- 
2.43.0


From d36d52642d55f82b2ce2329aa494a9b31c7bc71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:48 +0000
Subject: [PATCH 18/72] fix: encode whole numbers as RDF integers up to 1e21

---
 crates/core/src/rdf/mod.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/crates/core/src/rdf/mod.rs b/crates/core/src/rdf/mod.rs
index 40ce9bb..5def0ff 100644
--- a/crates/core/src/rdf/mod.rs
+++ b/crates/core/src/rdf/mod.rs
@@ -182,9 +182,7 @@ impl<T: Clone> crate::object::Value<T> {
 							let id = generator.next(vocabulary);
 							let value_ty = match language {
 								Some(tag) => rdf_types::LiteralType::LangString(tag),
-								None => {
-									rdf_types::LiteralType::Any(vocabulary.insert(XSD_STRING))
-								}
+								None => rdf_types::LiteralType::Any(vocabulary.insert(XSD_STRING)),
 							};
 							let value = vocabulary
 								.insert_owned_literal(Literal::new(string.to_string(), value_ty));
@@ -263,16 +261,22 @@ impl<T: Clone> crate::object::Value<T> {
 					}
 					value::Literal::Null => ("null".to_string(), None),
 					value::Literal::Number(n) => {
-						if n.is_i64()
-							&& !ty
-								.as_ref()
-								.map(|t| vocabulary.iri(t).unwrap() == XSD_DOUBLE)
-								.unwrap_or(false)
+						let f = n.as_f64_lossy();
+						if f.fract() == 0.0
+							&& f.abs() < 1e21 && !ty
+							.as_ref()
+							.map(|t| vocabulary.iri(t).unwrap() == XSD_DOUBLE)
+							.unwrap_or(false)
 						{
-							(n.to_string(), Some(vocabulary.insert(XSD_INTEGER)))
+							let lit = match n.as_i64() {
+								Some(i) => i.to_string(),
+								None => format!("{f:.0}"),
+							};
+
+							(lit, Some(vocabulary.insert(XSD_INTEGER)))
 						} else {
 							(
-								pretty_dtoa::dtoa(n.as_f64_lossy(), XSD_CANONICAL_FLOAT),
+								pretty_dtoa::dtoa(f, XSD_CANONICAL_FLOAT),
 								Some(vocabulary.insert(XSD_DOUBLE)),
 							)
 						}
-- 
2.43.0


From 0c03f579a15e8b52e8d451b7bee0901a58241332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:38 +0000
Subject: [PATCH 19/72] fix: report the error code of an invalid remote context
 instead of a loading failure

---
 crates/context-processing/src/lib.rs |  5 +----
 crates/core/src/loader/mod.rs        | 18 ++++++++++++++++++
 src/processor/mod.rs                 |  6 +++---
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/crates/context-processing/src/lib.rs b/crates/context-processing/src/lib.rs
index 67edc65..519d3c7 100644
--- a/crates/context-processing/src/lib.rs
+++ b/crates/context-processing/src/lib.rs
@@ -139,10 +139,7 @@ impl Error {
 			Self::InvalidScopedContext => ErrorCode::InvalidScopedContext,
 			Self::ProtectedTermRedefinition => ErrorCode::ProtectedTermRedefinition,
 			Self::ContextLoadingFailed(_) => ErrorCode::LoadingRemoteContextFailed,
-			Self::ContextExtractionFailed(
-				ExtractContextError::Unexpected(_) | ExtractContextError::NoContext,
-			) => ErrorCode::InvalidRemoteContext,
-			Self::ContextExtractionFailed(_) => ErrorCode::LoadingRemoteContextFailed,
+			Self::ContextExtractionFailed(e) => e.code(),
 			Self::ForbiddenVocab => ErrorCode::InvalidVocabMapping,
 		}
 	}
diff --git a/crates/core/src/loader/mod.rs b/crates/core/src/loader/mod.rs
index f8ae90b..fa85a11 100644
--- a/crates/core/src/loader/mod.rs
+++ b/crates/core/src/loader/mod.rs
@@ -1,5 +1,6 @@
 use hashbrown::HashSet;
 use iref::{Iri, IriBuf};
+use json_ld_syntax::ErrorCode;
 use mime::Mime;
 use rdf_types::vocabulary::{IriVocabulary, IriVocabularyMut};
 use static_iref::iri;
@@ -98,6 +99,15 @@ pub enum ContextLoadError {
 	ContextExtractionFailed(#[from] ExtractContextError),
 }
 
+impl ContextLoadError {
+	pub fn code(&self) -> ErrorCode {
+		match self {
+			Self::LoadingDocumentFailed(_) => ErrorCode::LoadingRemoteContextFailed,
+			Self::ContextExtractionFailed(e) => e.code(),
+		}
+	}
+}
+
 impl<I> RemoteContextReference<I> {
 	/// Loads the remote context with the given `vocabulary` and `loader`.
 	///
@@ -517,6 +527,14 @@ pub enum ExtractContextError {
 }
 
 impl ExtractContextError {
+	pub fn code(&self) -> ErrorCode {
+		match self {
+			Self::Unexpected(_) | Self::NoContext => ErrorCode::InvalidRemoteContext,
+			Self::DuplicateContext => ErrorCode::DuplicateKey,
+			Self::Syntax(e) => e.code(),
+		}
+	}
+
 	fn duplicate_context(
 		json_syntax::object::Duplicate(_, _): json_syntax::object::Duplicate<
 			json_syntax::object::Entry,
diff --git a/src/processor/mod.rs b/src/processor/mod.rs
index ad3ef97..39e53f1 100644
--- a/src/processor/mod.rs
+++ b/src/processor/mod.rs
@@ -170,7 +170,7 @@ impl ExpandError {
 			Self::Expansion(e) => e.code(),
 			Self::ContextProcessing(e) => e.code(),
 			Self::Loading(_) => ErrorCode::LoadingDocumentFailed,
-			Self::ContextLoading(_) => ErrorCode::LoadingRemoteContextFailed,
+			Self::ContextLoading(e) => e.code(),
 		}
 	}
 }
@@ -212,7 +212,7 @@ impl CompactError {
 			Self::ContextProcessing(e) => e.code(),
 			Self::Compaction(e) => e.code(),
 			Self::Loading(_) => ErrorCode::LoadingDocumentFailed,
-			Self::ContextLoading(_) => ErrorCode::LoadingRemoteContextFailed,
+			Self::ContextLoading(e) => e.code(),
 		}
 	}
 }
@@ -247,7 +247,7 @@ impl<I, B> FlattenError<I, B> {
 			Self::Compact(e) => e.code(),
 			Self::ConflictingIndexes(_) => ErrorCode::ConflictingIndexes,
 			Self::Loading(_) => ErrorCode::LoadingDocumentFailed,
-			Self::ContextLoading(_) => ErrorCode::LoadingRemoteContextFailed,
+			Self::ContextLoading(e) => e.code(),
 		}
 	}
 }
-- 
2.43.0


From 18bf5a3ce04be0638c149b1c3ad603a4c3530299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:00 +0000
Subject: [PATCH 20/72] fix: reject vocabulary mappings which are neither IRIs
 nor blank node identifiers

---
 crates/context-processing/src/algorithm/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/context-processing/src/algorithm/mod.rs b/crates/context-processing/src/algorithm/mod.rs
index 0ab7582..945fe24 100644
--- a/crates/context-processing/src/algorithm/mod.rs
+++ b/crates/context-processing/src/algorithm/mod.rs
@@ -322,7 +322,7 @@ where
 								true,
 								Some(options.vocab),
 							)? {
-								Some(Term::Id(vocab)) => {
+								Some(Term::Id(vocab)) if vocab.is_valid() => {
 									result.set_vocabulary(Some(Term::Id(vocab)))
 								}
 								_ => return Err(Error::InvalidVocabMapping),
-- 
2.43.0


From 4d38729a40168136378c225d016dc668ce5b73fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:33 +0000
Subject: [PATCH 21/72] fix: report the redefinition of keywords

---
 crates/context-processing/src/algorithm/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/context-processing/src/algorithm/mod.rs b/crates/context-processing/src/algorithm/mod.rs
index 945fe24..0562806 100644
--- a/crates/context-processing/src/algorithm/mod.rs
+++ b/crates/context-processing/src/algorithm/mod.rs
@@ -395,6 +395,11 @@ where
 				}
 
 				for (key, _binding) in context.bindings() {
+					// The other keywords cannot be defined.
+					if let KeyOrKeywordRef::Keyword(_) = key.into() {
+						return Err(Error::KeywordRedefinition);
+					}
+
 					define(
 						Environment {
 							vocabulary: env.vocabulary,
-- 
2.43.0


From 21b03432c853766798379c35b67d20408cea85ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:43 +0000
Subject: [PATCH 22/72] fix: expand references to the empty term instead of
 refusing them

---
 crates/context-processing/src/algorithm/define.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index f012bbe..780410b 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -104,13 +104,13 @@ where
 {
 	let term = term.to_owned();
 	if defined.begin(&term)? {
-		if term.is_empty() {
-			return Err(Error::InvalidTermDefinition);
-		}
-
 		// Initialize `value` to a copy of the value associated with the entry `term` in
 		// `local_context`.
 		if let Some(value) = local_context.get(&term) {
+			if term.is_empty() {
+				return Err(Error::InvalidTermDefinition);
+			}
+
 			// Set the value associated with defined's term entry to false.
 			// This indicates that the term definition is now being created but is not yet
 			// complete.
-- 
2.43.0


From b88239a4631c2bf623788092c549e03da8949b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:27 +0000
Subject: [PATCH 23/72] fix: do not panic when a previous item of a map
 container is not a map

---
 crates/compaction/src/property.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/crates/compaction/src/property.rs b/crates/compaction/src/property.rs
index ba72110..bed9883 100644
--- a/crates/compaction/src/property.rs
+++ b/crates/compaction/src/property.rs
@@ -127,6 +127,17 @@ where
 	))
 	.await?;
 
+	// A previous item may not have been representable in a map, in which case
+	// this one cannot be added to a map either.
+	let is_map_item = container.contains(ContainerKind::Graph)
+		&& (container.contains(ContainerKind::Id)
+			|| (container.contains(ContainerKind::Index) && node.is_simple_graph()));
+	let container = if is_map_item && !accepts_map_entries(nest_result, item_active_property) {
+		Container::None
+	} else {
+		container
+	};
+
 	// If `container` includes @graph and @id:
 	if container.contains(ContainerKind::Graph) && container.contains(ContainerKind::Id) {
 		// Initialize `map_object` to the value of `item_active_property`
@@ -300,6 +311,15 @@ where
 	Ok(())
 }
 
+/// Checks that entries can be added to the map stored under the given key, if
+/// any.
+fn accepts_map_entries(object: &json_syntax::Object, key: &str) -> bool {
+	match object.get_unique(key).ok().unwrap() {
+		Some(value) => value.is_object(),
+		None => true,
+	}
+}
+
 fn select_nest_result<'a, I, B>(
 	result: &'a mut json_syntax::Object,
 	active_context: &Context<I, B>,
@@ -484,6 +504,7 @@ where
 							|| container.contains(ContainerKind::Index)
 							|| container.contains(ContainerKind::Id)
 							|| container.contains(ContainerKind::Type))
+						&& accepts_map_entries(nest_result, &item_active_property)
 					{
 						// Initialize `map_object` to the value of
 						// `item_active_property` in `nest_result`,
-- 
2.43.0


From d39f58890d625752b6d4f7c7ffc89aafafc0a399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:45 +0000
Subject: [PATCH 24/72] fix: report the URL of HTTP documents after
 redirections

---
 crates/core/src/loader/reqwest/mod.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/crates/core/src/loader/reqwest/mod.rs b/crates/core/src/loader/reqwest/mod.rs
index abb9fff..b549812 100644
--- a/crates/core/src/loader/reqwest/mod.rs
+++ b/crates/core/src/loader/reqwest/mod.rs
@@ -130,6 +130,20 @@ impl ReqwestLoader {
 	}
 }
 
+/// Returns the URL of the response, if it is not the requested one.
+fn redirected_url(requested: &Iri, found: &reqwest::Url) -> Option<IriBuf> {
+	let mut requested = reqwest::Url::parse(requested.as_str()).ok()?;
+	let mut found = found.clone();
+	requested.set_fragment(None);
+	found.set_fragment(None);
+
+	if requested == found {
+		None
+	} else {
+		IriBuf::new(found.into()).ok()
+	}
+}
+
 /// HTTP body parse error.
 #[derive(Debug, thiserror::Error)]
 pub enum ParseError {
@@ -173,6 +187,12 @@ impl Loader for ReqwestLoader {
 
 					match content_types.find(ContentType::is_json_ld) {
 						Some(content_type) => {
+							// The document comes from the URL at the end of the
+							// regular HTTP redirections, if any.
+							if let Some(final_url) = redirected_url(&url, response.url()) {
+								url = final_url;
+							}
+
 							let mut context_url = None;
 							if *content_type.media_type() != "application/ld+json" {
 								for link in response.headers().get_all(LINK).into_iter() {
-- 
2.43.0


From 94f563a151835d658651946a58c9b59966ff7455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:36 +0000
Subject: [PATCH 25/72] fix: resolve alternate links against the URL after
 redirections

---
 crates/core/src/loader/reqwest/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/core/src/loader/reqwest/mod.rs b/crates/core/src/loader/reqwest/mod.rs
index b549812..575cda4 100644
--- a/crates/core/src/loader/reqwest/mod.rs
+++ b/crates/core/src/loader/reqwest/mod.rs
@@ -179,6 +179,12 @@ impl Loader for ReqwestLoader {
 
 			match response.status() {
 				StatusCode::OK => {
+					// The document and its links come from the URL at the end of
+					// the regular HTTP redirections, if any.
+					if let Some(final_url) = redirected_url(&url, response.url()) {
+						url = final_url;
+					}
+
 					let mut content_types = response
 						.headers()
 						.get_all(CONTENT_TYPE)
@@ -187,12 +193,6 @@ impl Loader for ReqwestLoader {
 
 					match content_types.find(ContentType::is_json_ld) {
 						Some(content_type) => {
-							// The document comes from the URL at the end of the
-							// regular HTTP redirections, if any.
-							if let Some(final_url) = redirected_url(&url, response.url()) {
-								url = final_url;
-							}
-
 							let mut context_url = None;
 							if *content_type.media_type() != "application/ld+json" {
 								for link in response.headers().get_all(LINK).into_iter() {
-- 
2.43.0


From 4bb1aed65a2087c58118aca1a99e07f17505e682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:01 +0000
Subject: [PATCH 26/72] fix: refuse HTTP bodies which are not valid UTF-8

---
 crates/core/src/loader/reqwest/mod.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/loader/reqwest/mod.rs b/crates/core/src/loader/reqwest/mod.rs
index 575cda4..04c56b7 100644
--- a/crates/core/src/loader/reqwest/mod.rs
+++ b/crates/core/src/loader/reqwest/mod.rs
@@ -230,9 +230,19 @@ impl Loader for ReqwestLoader {
 								LoadError::new(url.clone(), Error::Reqwest(e.into()))
 							})?;
 
-							let decoder = utf8_decode::Decoder::new(bytes.iter().copied());
-							let (document, _) = json_syntax::Value::parse_utf8(decoder)
-								.map_err(|e| LoadError::new(url.clone(), Error::Parse(e)))?;
+							// `utf8_decode` accepts overlong sequences.
+							let text = std::str::from_utf8(&bytes).map_err(|e| {
+								LoadError::new(
+									url.clone(),
+									Error::Parse(json_syntax::parse::Error::Stream(
+										e.valid_up_to(),
+										std::io::Error::new(std::io::ErrorKind::InvalidData, e),
+									)),
+								)
+							})?;
+							let (document, _) =
+								json_syntax::Value::parse_utf8(text.chars().map(Ok))
+									.map_err(|e| LoadError::new(url.clone(), Error::Parse(e)))?;
 
 							break Ok(RemoteDocument::new_full(
 								Some(url),
-- 
2.43.0


From 911e0ba0c38961865fde317300628e5c699e665e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:04 +0000
Subject: [PATCH 27/72] fix: do not let the file loader leave the mounted
 directory

---
 crates/core/src/loader/fs.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/core/src/loader/fs.rs b/crates/core/src/loader/fs.rs
index e701190..fd4667f 100644
--- a/crates/core/src/loader/fs.rs
+++ b/crates/core/src/loader/fs.rs
@@ -55,6 +55,11 @@ impl FsLoader {
 			if let Some((suffix, _, _)) = url.as_iri_ref().suffix(target_url) {
 				let mut filepath = path.clone();
 				for seg in suffix.as_path().segments() {
+					if seg.as_str() == ".." {
+						// Never leave the mounted directory.
+						return None;
+					}
+
 					filepath.push(seg.as_str())
 				}
 
-- 
2.43.0


From ef81df75d515e792cb4c4c489a99fdb1c9a49d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:08 +0000
Subject: [PATCH 28/72] fix: match mount points ending with a slash or without
 path

---
 crates/core/src/loader/fs.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/loader/fs.rs b/crates/core/src/loader/fs.rs
index fd4667f..b4bb268 100644
--- a/crates/core/src/loader/fs.rs
+++ b/crates/core/src/loader/fs.rs
@@ -45,7 +45,18 @@ impl FsLoader {
 	/// Any document with an IRI matching the given prefix will be loaded from
 	/// the referenced local directory.
 	#[inline(always)]
-	pub fn mount<P: AsRef<Path>>(&mut self, url: IriBuf, path: P) {
+	pub fn mount<P: AsRef<Path>>(&mut self, mut url: IriBuf, path: P) {
+		// `http://example.org/a/` matches the same documents as
+		// `http://example.org/a`, and `http://example.org` the same ones as
+		// `http://example.org/`.
+		if url.path().is_empty() {
+			if url.authority().is_some() {
+				url.set_path(iref::iri::Path::EMPTY_ABSOLUTE);
+			}
+		} else if url.path().as_str().ends_with('/') {
+			url.path_mut().pop();
+		}
+
 		self.mount_points.push((path.as_ref().into(), url));
 	}
 
-- 
2.43.0


From 69a4e28ca8ff7ace157903de2a2f24bcc8f56ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:56 +0000
Subject: [PATCH 29/72] fix: detect loops of imports through scoped contexts

A context imported with @import, whose scoped contexts import it again
(directly or not), was processed endlessly.
---
 .../src/algorithm/define.rs                   | 26 +++++++----
 .../src/algorithm/merged.rs                   |  5 ++
 .../context-processing/src/algorithm/mod.rs   |  4 ++
 crates/context-processing/src/stack.rs        | 46 ++++++++++++++++++-
 4 files changed, 70 insertions(+), 11 deletions(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index 780410b..f67ceed 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -695,16 +695,22 @@ where
 						// protected.
 						// If any error is detected, an invalid scoped context error has been
 						// detected and processing is aborted.
-						Box::pin(super::process_context(
-							env,
-							active_context,
-							context,
-							remote_contexts.clone(),
-							base_url.clone(),
-							options.with_override(),
-						))
-						.await
-						.map_err(|_| Error::InvalidScopedContext)?;
+						//
+						// If the scoped context comes from an imported context it is already
+						// in the scope of, then it is already being processed.
+						let imported = local_context.is_imported(&term);
+						if let Some(remote_contexts) = remote_contexts.scoped(imported) {
+							Box::pin(super::process_context(
+								env,
+								active_context,
+								context,
+								remote_contexts,
+								base_url.clone(),
+								options.with_override(),
+							))
+							.await
+							.map_err(|_| Error::InvalidScopedContext)?;
+						}
 
 						// Set the local context of definition to context, and base URL to base URL.
 						definition.context = Some(Box::new(context.clone()));
diff --git a/crates/context-processing/src/algorithm/merged.rs b/crates/context-processing/src/algorithm/merged.rs
index 1ad7740..6a1bf34 100644
--- a/crates/context-processing/src/algorithm/merged.rs
+++ b/crates/context-processing/src/algorithm/merged.rs
@@ -85,6 +85,11 @@ impl<'a> Merged<'a> {
 		// 	.and_then(|i| i.get(key))
 		// 	.or_else(|| self.base.get(key))
 	}
+
+	/// Checks if the entry of the given key comes from the imported context.
+	pub fn is_imported(&self, key: &syntax::context::definition::KeyOrKeyword) -> bool {
+		self.imported.is_some() && self.base.get(key).is_none()
+	}
 }
 
 impl<'a> From<&'a syntax::context::Definition> for Merged<'a> {
diff --git a/crates/context-processing/src/algorithm/mod.rs b/crates/context-processing/src/algorithm/mod.rs
index 0562806..3f85f13 100644
--- a/crates/context-processing/src/algorithm/mod.rs
+++ b/crates/context-processing/src/algorithm/mod.rs
@@ -220,6 +220,7 @@ where
 				}
 
 				// 5.6) If context has an @import entry:
+				let mut remote_contexts = remote_contexts.clone();
 				let import_context = match &context.import {
 					Some(import_value) => {
 						// 5.6.1) If processing mode is json-ld-1.0, an invalid context entry error
@@ -266,6 +267,9 @@ where
 							}
 						}
 
+						// The imported context is remembered to detect loops.
+						remote_contexts.set_importing(Some(import));
+
 						// Set `context` to the result of merging context into
 						// `import_context`, replacing common entries with those from
 						// `context`.
diff --git a/crates/context-processing/src/stack.rs b/crates/context-processing/src/stack.rs
index 4288450..f967cad 100644
--- a/crates/context-processing/src/stack.rs
+++ b/crates/context-processing/src/stack.rs
@@ -37,12 +37,22 @@ impl<I> StackNode<I> {
 #[derive(Clone)]
 pub struct ProcessingStack<I> {
 	head: Option<Arc<StackNode<I>>>,
+
+	/// Imported contexts in which a scoped context is being processed.
+	imports: Option<Arc<StackNode<I>>>,
+
+	/// Context imported (with `@import`) by the definition being processed.
+	importing: Option<I>,
 }
 
 impl<I> ProcessingStack<I> {
 	/// Creates a new empty processing stack.
 	pub fn new() -> Self {
-		Self { head: None }
+		Self {
+			head: None,
+			imports: None,
+			importing: None,
+		}
 	}
 
 	/// Checks if the stack is empty.
@@ -80,6 +90,40 @@ impl<I> ProcessingStack<I> {
 			true
 		}
 	}
+
+	/// Sets the URL of the context imported (with `@import`) by the context
+	/// definition being processed.
+	pub(crate) fn set_importing(&mut self, url: Option<I>) {
+		self.importing = url
+	}
+
+	/// Returns the stack to use to process a context scoped to a term of the
+	/// context definition being processed.
+	///
+	/// If the term comes from the imported context (`imported` is `true`),
+	/// returns `None` if this context is already being processed through a
+	/// term of that same imported context, meaning a loop has been detected.
+	pub(crate) fn scoped(&self, imported: bool) -> Option<Self>
+	where
+		I: Clone + PartialEq,
+	{
+		let imports = match &self.importing {
+			Some(url) if imported => {
+				if self.imports.as_ref().is_some_and(|i| i.contains(url)) {
+					return None;
+				}
+
+				Some(Arc::new(StackNode::new(self.imports.clone(), url.clone())))
+			}
+			_ => self.imports.clone(),
+		};
+
+		Some(Self {
+			head: self.head.clone(),
+			imports,
+			importing: None,
+		})
+	}
 }
 
 impl<I> Default for ProcessingStack<I> {
-- 
2.43.0


From ddd9962caf2ea87cc981ca997c9bde630d728e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:18 +0000
Subject: [PATCH 30/72] fix: relabel blank node properties in node maps

---
 crates/core/src/flattening/node_map.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/flattening/node_map.rs b/crates/core/src/flattening/node_map.rs
index aaf030e..948f165 100644
--- a/crates/core/src/flattening/node_map.rs
+++ b/crates/core/src/flattening/node_map.rs
@@ -412,6 +412,7 @@ where
 	}
 
 	for (property, objects) in node.properties() {
+		let property = env.assign_node_id(Some(property));
 		let mut flat_objects = Vec::new();
 		for object in objects {
 			let flat_object = extend_node_map(env, node_map, object, active_graph)?;
@@ -423,11 +424,12 @@ where
 			.get_mut(&id)
 			.unwrap()
 			.properties_mut()
-			.insert_all_unique(property.clone(), flat_objects)
+			.insert_all_unique(property, flat_objects)
 	}
 
 	if let Some(reverse_properties) = node.reverse_properties_entry() {
 		for (property, nodes) in reverse_properties.iter() {
+			let property = env.assign_node_id(Some(property));
 			for subject in nodes {
 				let flat_subject = extend_node_map_from_node(
 					env,
-- 
2.43.0


From 847ff07d4b74f4335ce7dc8c97bbdc5cfe6c6038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:18 +0000
Subject: [PATCH 31/72] fix: relabel blank node properties

---
 crates/core/src/object/node/mod.rs | 46 +++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/crates/core/src/object/node/mod.rs b/crates/core/src/object/node/mod.rs
index a49dc38..2bfe4c3 100644
--- a/crates/core/src/object/node/mod.rs
+++ b/crates/core/src/object/node/mod.rs
@@ -688,18 +688,44 @@ impl<T, B> Relabel<T, B> for Node<T, B> {
 				.collect();
 		}
 
-		for (_, objects) in self.properties_mut() {
-			for object in objects {
-				object.relabel_with(vocabulary, generator, relabeling);
-			}
-		}
+		*self.properties_mut() = std::mem::take(self.properties_mut())
+			.into_iter()
+			.map(|(mut property, mut objects)| {
+				if let Some(b) = property.as_blank().cloned() {
+					property = relabeling
+						.entry(b)
+						.or_insert_with(|| generator.next(vocabulary))
+						.clone()
+						.into();
+				}
 
-		if let Some(reverse_properties) = self.reverse_properties_mut() {
-			for (_, nodes) in reverse_properties.iter_mut() {
-				for node in nodes {
-					node.relabel_with(vocabulary, generator, relabeling);
+				for object in &mut objects {
+					object.relabel_with(vocabulary, generator, relabeling);
 				}
-			}
+
+				(property, objects)
+			})
+			.collect();
+
+		if let Some(reverse_properties) = self.reverse_properties_mut() {
+			*reverse_properties = std::mem::take(reverse_properties)
+				.into_iter()
+				.map(|(mut property, mut nodes)| {
+					if let Some(b) = property.as_blank().cloned() {
+						property = relabeling
+							.entry(b)
+							.or_insert_with(|| generator.next(vocabulary))
+							.clone()
+							.into();
+					}
+
+					for node in &mut nodes {
+						node.relabel_with(vocabulary, generator, relabeling);
+					}
+
+					(property, nodes)
+				})
+				.collect();
 		}
 	}
 }
-- 
2.43.0


From 09db7fcc2d82fcf2aa764f6a81a718429019779c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:18 +0000
Subject: [PATCH 32/72] fix: report the redefinition of keywords as terms

---
 crates/context-processing/src/algorithm/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/context-processing/src/algorithm/mod.rs b/crates/context-processing/src/algorithm/mod.rs
index 3f85f13..2de8631 100644
--- a/crates/context-processing/src/algorithm/mod.rs
+++ b/crates/context-processing/src/algorithm/mod.rs
@@ -400,7 +400,7 @@ where
 
 				for (key, _binding) in context.bindings() {
 					// The other keywords cannot be defined.
-					if let KeyOrKeywordRef::Keyword(_) = key.into() {
+					if syntax::is_keyword(key.as_str()) {
 						return Err(Error::KeywordRedefinition);
 					}
 
-- 
2.43.0


From 0149318d11836159f4d100c894c3501666895a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:39 +0000
Subject: [PATCH 33/72] fix: name the i18n datatype of strings without language

---
 crates/core/src/rdf/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/rdf/mod.rs b/crates/core/src/rdf/mod.rs
index 5def0ff..26be521 100644
--- a/crates/core/src/rdf/mod.rs
+++ b/crates/core/src/rdf/mod.rs
@@ -51,7 +51,7 @@ pub enum RdfDirection {
 	///
 	/// If a language tag is present the IRI will be of the form
 	/// `https://www.w3.org/ns/i18n#language_direction` or simply
-	/// `https://www.w3.org/ns/i18n#direction` otherwise where `direction` is
+	/// `https://www.w3.org/ns/i18n#_direction` otherwise where `direction` is
 	/// either `rtl` or `ltr`.
 	I18nDatatype,
 
@@ -653,7 +653,7 @@ where
 fn i18n(language: Option<LangTagBuf>, direction: Direction) -> IriBuf {
 	let iri = match &language {
 		Some(language) => format!("https://www.w3.org/ns/i18n#{language}_{direction}"),
-		None => format!("https://www.w3.org/ns/i18n#{direction}"),
+		None => format!("https://www.w3.org/ns/i18n#_{direction}"),
 	};
 
 	IriBuf::new(iri).unwrap()
-- 
2.43.0


From c2de9202aae4710584abcceca4deab437a9aff7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:39 +0000
Subject: [PATCH 34/72] fix: give the language of compound literals a triple of
 its own

---
 crates/core/src/rdf/mod.rs | 45 +++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/crates/core/src/rdf/mod.rs b/crates/core/src/rdf/mod.rs
index 26be521..95af340 100644
--- a/crates/core/src/rdf/mod.rs
+++ b/crates/core/src/rdf/mod.rs
@@ -18,6 +18,7 @@ pub const RDF_TYPE: &Iri = iri!("http://www.w3.org/1999/02/22-rdf-syntax-ns#type
 pub const RDF_FIRST: &Iri = iri!("http://www.w3.org/1999/02/22-rdf-syntax-ns#first");
 pub const RDF_REST: &Iri = iri!("http://www.w3.org/1999/02/22-rdf-syntax-ns#rest");
 pub const RDF_VALUE: &Iri = iri!("http://www.w3.org/1999/02/22-rdf-syntax-ns#value");
+pub const RDF_LANGUAGE: &Iri = iri!("http://www.w3.org/1999/02/22-rdf-syntax-ns#language");
 pub const RDF_DIRECTION: &Iri = iri!("http://www.w3.org/1999/02/22-rdf-syntax-ns#direction");
 pub const RDF_JSON: &Iri = iri!("http://www.w3.org/1999/02/22-rdf-syntax-ns#JSON");
 /// IRI of the `http://www.w3.org/1999/02/22-rdf-syntax-ns#nil` value.
@@ -60,10 +61,13 @@ pub enum RdfDirection {
 	/// In this case the direction tagged string is encoded with a fresh blank
 	/// node identifier `_:b` and the following triples:
 	/// ```nquads
-	/// _:b http://www.w3.org/1999/02/22-rdf-syntax-ns#value value@language
+	/// _:b http://www.w3.org/1999/02/22-rdf-syntax-ns#value value
+	/// _:b http://www.w3.org/1999/02/22-rdf-syntax-ns#language language
 	/// _:b http://www.w3.org/1999/02/22-rdf-syntax-ns#direction direction
 	/// ```
-	/// where `direction` is either `rtl` or `ltr`.
+	/// where `direction` is either `rtl` or `ltr`. The
+	/// `http://www.w3.org/1999/02/22-rdf-syntax-ns#language` triple is only
+	/// present if there is a language tag, normalized to lower case.
 	CompoundLiteral,
 }
 
@@ -99,6 +103,9 @@ pub struct CompoundLiteralTriples<T, B, L> {
 	/// String value.
 	value: Option<Value<T, B, L>>,
 
+	/// Language value.
+	language: Option<Value<T, B, L>>,
+
 	/// Direction value.
 	direction: Option<Value<T, B, L>>,
 }
@@ -113,6 +120,14 @@ impl<T: Clone, B: Clone, L: Clone> CompoundLiteralTriples<T, B, L> {
 			));
 		}
 
+		if let Some(language) = self.language.take() {
+			return Some(rdf_types::Triple(
+				self.id.clone(),
+				ValidId::Iri(vocabulary.insert(RDF_LANGUAGE)),
+				language,
+			));
+		}
+
 		if let Some(direction) = self.direction.take() {
 			return Some(rdf_types::Triple(
 				self.id.clone(),
@@ -180,24 +195,24 @@ impl<T: Clone> crate::object::Value<T> {
 						}
 						Some(RdfDirection::CompoundLiteral) => {
 							let id = generator.next(vocabulary);
-							let value_ty = match language {
-								Some(tag) => rdf_types::LiteralType::LangString(tag),
-								None => rdf_types::LiteralType::Any(vocabulary.insert(XSD_STRING)),
+							let mut insert = |value: String| {
+								let ty =
+									rdf_types::LiteralType::Any(vocabulary.insert(XSD_STRING));
+								Value::Literal(
+									vocabulary.insert_owned_literal(Literal::new(value, ty)),
+								)
 							};
-							let value = vocabulary
-								.insert_owned_literal(Literal::new(string.to_string(), value_ty));
-							let direction_ty =
-								rdf_types::LiteralType::Any(vocabulary.insert(XSD_STRING));
-							let direction = vocabulary.insert_owned_literal(Literal::new(
-								direction.to_string(),
-								direction_ty,
-							));
+							let value = insert(string.to_string());
+							let language =
+								language.map(|tag| insert(tag.as_str().to_ascii_lowercase()));
+							let direction = insert(direction.to_string());
 							Some(CompoundLiteral {
 								value: id.clone().into_term(),
 								triples: Some(CompoundLiteralTriples {
 									id,
-									value: Some(Value::Literal(value)),
-									direction: Some(Value::Literal(direction)),
+									value: Some(value),
+									language,
+									direction: Some(direction),
 								}),
 							})
 						}
-- 
2.43.0


From 3163204f5dc0cbaf7ff2c45f473574ce30e60739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:46 +0000
Subject: [PATCH 35/72] fix: revert to the previous context inside @reverse
 maps

A context that is not propagated was applied to the keys of a @reverse map.
---
 crates/expansion/src/node.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index 8be89eb..9ee9129 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -305,6 +305,12 @@ where
 						// If value is not a map, an invalid @reverse value error
 						// has been detected and processing is aborted.
 						if let Some(value) = value.as_object() {
+							// The reverse property map is a map on its own: a context
+							// that is not propagated does not apply inside of it.
+							let reverse_context = active_context
+								.previous_context()
+								.unwrap_or(active_context);
+
 							let mut reverse_entries: Vec<&Entry> = value.iter().collect();
 
 							if options.ordered {
@@ -318,7 +324,7 @@ where
 							{
 								match expand_iri(
 									&mut env,
-									active_context,
+									reverse_context,
 									Nullable::Some(reverse_key.as_str().into()),
 									false,
 									Some(options.policy.vocab),
@@ -350,7 +356,7 @@ where
 												loader: env.loader,
 												warnings: env.warnings,
 											},
-											active_context,
+											reverse_context,
 											ActiveProperty::Some(reverse_key.as_ref()),
 											reverse_value,
 											base_url,
@@ -361,7 +367,7 @@ where
 
 										let is_double_reversed =
 											if let Some(reverse_key_definition) =
-												active_context.get(reverse_key.as_str())
+												reverse_context.get(reverse_key.as_str())
 											{
 												reverse_key_definition.reverse_property()
 											} else {
-- 
2.43.0


From 4b35ea6e79135e6f8334c89fcf493b5eff86c9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:23 +0000
Subject: [PATCH 36/72] fix: compact a string alone only if its language and
 direction are the ones of the term

---
 crates/compaction/src/value.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/compaction/src/value.rs b/crates/compaction/src/value.rs
index ee7984d..3764186 100644
--- a/crates/compaction/src/value.rs
+++ b/crates/compaction/src/value.rs
@@ -189,11 +189,13 @@ where
 			let ls_language = ls.language(); //.map(|l| Nullable::Some(l));
 			let ls_direction = ls.direction(); //.map(|d| Nullable::Some(d));
 
+			// The string alone represents the value only if the active property
+			// gives it back the very same language and direction, and no type.
 			if remove_index
-			&& (ls_language.is_none() || language == ls_language) // || (ls.language().is_none() && language.is_none()))
-			&& (ls_direction.is_none() || direction == ls_direction)
+				&& type_mapping.is_none()
+				&& language == ls_language
+				&& direction == ls_direction
 			{
-				// || (ls.direction().is_none() && direction.is_none())) {
 				return Ok(json_syntax::Value::String(ls.as_str().into()));
 			} else {
 				let compact_key = compact_key(
-- 
2.43.0


From 869c6ee40e88fcde74a4e7581cfbc521a1ccc6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:23 +0000
Subject: [PATCH 37/72] fix: keep the first value of an index property when it
 is not a string

---
 crates/compaction/src/property.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/crates/compaction/src/property.rs b/crates/compaction/src/property.rs
index bed9883..1ccad0f 100644
--- a/crates/compaction/src/property.rs
+++ b/crates/compaction/src/property.rs
@@ -603,15 +603,20 @@ where
 														(Some(s.to_string()), Vec::new())
 													}
 													json_syntax::Value::Array(values) => {
-														let mut values = values.into_iter();
-														match values.next() {
+														// Only a string can be used as a key.
+														match values.first().and_then(|v| v.as_str())
+														{
 															Some(first_value) => (
-																first_value
-																	.as_str()
-																	.map(|v| v.to_string()),
-																values.collect(),
+																Some(first_value.to_string()),
+																values[1..].to_vec(),
 															),
-															None => (None, values.collect()),
+															None => {
+																map.insert(
+																	entry.key,
+																	json_syntax::Value::Array(values),
+																);
+																(None, Vec::new())
+															}
 														}
 													}
 													other => (None, vec![other]),
-- 
2.43.0


From 0b153a445fefbaec0557b3d7dda522bd5acd7c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:23 +0000
Subject: [PATCH 38/72] fix: recognise the term of an index property given as
 an absolute IRI

---
 crates/compaction/src/property.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/crates/compaction/src/property.rs b/crates/compaction/src/property.rs
index 1ccad0f..d9b0789 100644
--- a/crates/compaction/src/property.rs
+++ b/crates/compaction/src/property.rs
@@ -1,8 +1,9 @@
 use crate::{
 	add_value, compact_collection_with, compact_iri, compact_iri_with, compact_key, value_value,
-	CompactFragment, CompactIndexedFragment, Error, Options,
+	CompactFragment, CompactIndexedFragment, Error, IriConfusedWithPrefix, Options,
 };
 
+use iref::Iri;
 use json_ld_core::{
 	context::Nest,
 	object::{self, List},
@@ -578,14 +579,22 @@ where
 
 									// Reinitialize `container_key` by
 									// IRI compacting `index_key`.
-									container_key = compact_iri(
+									let index_property = match Iri::new(index_key.as_str()) {
+										Ok(iri) => Id::iri(vocabulary.insert(iri)),
+										Err(_) => Id::Invalid(index_key.to_string()),
+									};
+									container_key = match compact_iri(
 										vocabulary,
 										active_context,
-										&Term::Id(Id::Invalid(index_key.to_string())),
+										&Term::Id(index_property),
 										true,
 										false,
 										options,
-									)?;
+									) {
+										Ok(key) => key,
+										// `index_key` is a compact IRI.
+										Err(IriConfusedWithPrefix) => Some(index_key.to_string()),
+									};
 
 									// Set `map_key` to the first value of
 									// `container_key` in `compacted_item`, if any.
-- 
2.43.0


From aaab5fd4157bc2d57ee0822b4108420adafc9efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:23 +0000
Subject: [PATCH 39/72] fix: recognise aliases of @id in the entries of type
 maps

---
 crates/compaction/src/property.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/compaction/src/property.rs b/crates/compaction/src/property.rs
index d9b0789..aced240 100644
--- a/crates/compaction/src/property.rs
+++ b/crates/compaction/src/property.rs
@@ -736,7 +736,16 @@ where
 							// `active_property`, and a map composed of the single
 							// entry for @id from `expanded_item` for `element`.
 							if let Some(map) = compacted_item.as_object() {
-								if map.len() == 1 && map.get_unique("@id").ok().unwrap().is_some() {
+								let id_key = compact_iri(
+									vocabulary,
+									active_context,
+									&Term::Keyword(Keyword::Id),
+									true,
+									false,
+									options,
+								)?
+								.unwrap();
+								if map.len() == 1 && map.contains_key(id_key.as_str()) {
 									let obj = Object::node(Node::with_id(
 										expanded_item.id().unwrap().clone(),
 									));
-- 
2.43.0


From 7e2edc97a0f0c562d3b1df1176a1b46819bb7cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:23 +0000
Subject: [PATCH 40/72] fix: use the alias of @id in compacted graph objects

---
 crates/compaction/src/property.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/compaction/src/property.rs b/crates/compaction/src/property.rs
index aced240..7ed323b 100644
--- a/crates/compaction/src/property.rs
+++ b/crates/compaction/src/property.rs
@@ -271,7 +271,7 @@ where
 				vocabulary,
 				active_context,
 				&Term::Keyword(Keyword::Id),
-				false,
+				true,
 				false,
 				options,
 			)?
-- 
2.43.0


From ee17e9eb2b3d618d90147b73ff78f01df490aaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:23 +0000
Subject: [PATCH 41/72] fix: a list item without language is not of any
 language

---
 crates/compaction/src/iri.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/compaction/src/iri.rs b/crates/compaction/src/iri.rs
index 25e4b91..6532a49 100644
--- a/crates/compaction/src/iri.rs
+++ b/crates/compaction/src/iri.rs
@@ -148,7 +148,7 @@ where
 						} else {
 							for item in list {
 								let mut item_type = None;
-								let mut item_lang_dir = None;
+								let mut item_lang_dir = Some(Nullable::Some((None, None)));
 								let mut is_value = false;
 
 								match item.inner() {
-- 
2.43.0


From 27fb0f7912d0bd72b43fd30dcf88d5a1601dccff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:23 +0000
Subject: [PATCH 42/72] fix: look for list containers in the context the list
 is compacted with

---
 crates/compaction/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/compaction/src/lib.rs b/crates/compaction/src/lib.rs
index e70dfd8..e89b9c8 100644
--- a/crates/compaction/src/lib.rs
+++ b/crates/compaction/src/lib.rs
@@ -322,7 +322,10 @@ impl<I, B, T: Any<I, B>> CompactIndexedFragment<I, B> for T {
 									.into_processed(),
 							)
 						}
+					}
 
+					// The container is the one of the context the list is compacted with.
+					if let Some(active_property_definition) = active_context.get(active_property) {
 						list_container = active_property_definition
 							.container()
 							.contains(ContainerKind::List);
-- 
2.43.0


From ab26f902b981ecbc0919cbcb78e3689803a1d1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:23 +0000
Subject: [PATCH 43/72] fix: compact @reverse maps with the previous context

---
 crates/compaction/src/node.rs | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/crates/compaction/src/node.rs b/crates/compaction/src/node.rs
index eb02cba..4e5be8a 100644
--- a/crates/compaction/src/node.rs
+++ b/crates/compaction/src/node.rs
@@ -217,23 +217,11 @@ where
 			// Initialize compacted value to the result of using this algorithm recursively,
 			// passing active context, @reverse for active property,
 			// expanded value for element, and the compactArrays and ordered flags.
-			let active_property = "@reverse";
-			if let Some(active_property_definition) = active_context.get(active_property) {
-				if let Some(local_context) = active_property_definition.context() {
-					active_context = Mown::Owned(
-						local_context
-							.process_with(
-								vocabulary,
-								active_context.as_ref(),
-								loader,
-								active_property_definition.base_url().cloned(),
-								ProcessingOptions::from(options).with_override(),
-							)
-							.await?
-							.into_processed(),
-					)
-				}
-			}
+			// The reverse property map is a map on its own: a context that is not
+			// propagated does not apply inside of it.
+			let reverse_context = active_context
+				.previous_context()
+				.unwrap_or(active_context.as_ref());
 
 			let mut reverse_result = json_syntax::Object::default();
 			for (expanded_property, expanded_value) in reverse_properties.iter() {
@@ -242,7 +230,7 @@ where
 					&mut reverse_result,
 					expanded_property.clone().into(),
 					expanded_value.iter(),
-					active_context.as_ref(),
+					reverse_context,
 					loader,
 					true,
 					options,
-- 
2.43.0


From f7803ba166e2fbcbda87bf85fffa2705f941c26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:23 +0000
Subject: [PATCH 44/72] fix: adding no value to an entry leaves it as it is

---
 crates/compaction/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/compaction/src/lib.rs b/crates/compaction/src/lib.rs
index e89b9c8..ad4908e 100644
--- a/crates/compaction/src/lib.rs
+++ b/crates/compaction/src/lib.rs
@@ -407,7 +407,7 @@ fn add_value(map: &mut json_syntax::Object, key: &str, value: json_syntax::Value
 		.unwrap()
 		.map(|entry| entry.is_array())
 	{
-		Some(false) => {
+		Some(false) if as_array || !value.is_array() => {
 			let Entry { key, value } = map.remove_unique(key).ok().unwrap().unwrap();
 			map.insert(key, json_syntax::Value::Array(vec![value]));
 		}
-- 
2.43.0


From cdb9f69b4f9fbf6a3aff415704c236a5b70396de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:23 +0000
Subject: [PATCH 45/72] fix: the index property value comes before the existing
 ones

---
 crates/expansion/src/node.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index 9ee9129..997aff0 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -845,7 +845,20 @@ where
 											// Add the key-value pair (expanded index
 											// key-index property values) to item.
 											if let Object::Node(node) = item.inner_mut() {
-												node.insert(expanded_index_key, re_expanded_index);
+												// The index comes first, followed by
+												// the existing values.
+												let existing =
+													node.properties.remove(&expanded_index_key);
+												node.insert(
+													expanded_index_key.clone(),
+													re_expanded_index,
+												);
+												if let Some(values) = existing {
+													node.insert_all(
+														expanded_index_key,
+														values.into_iter(),
+													);
+												}
 											} else {
 												// If item is a value object, it MUST NOT
 												// contain any extra properties; an invalid
-- 
2.43.0


From ca45bac3707806a6aa755434d6388e43539851e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:23 +0000
Subject: [PATCH 46/72] fix: expand @reverse maps like node objects, with their
 containers

---
 crates/expansion/src/element.rs |   4 +
 crates/expansion/src/node.rs    | 142 +++++++++-----------------------
 2 files changed, 43 insertions(+), 103 deletions(-)

diff --git a/crates/expansion/src/element.rs b/crates/expansion/src/element.rs
index c2ea770..26c3005 100644
--- a/crates/expansion/src/element.rs
+++ b/crates/expansion/src/element.rs
@@ -332,6 +332,10 @@ where
 
 				if let Some(expanded_key) = expanded_key {
 					match &expanded_key {
+						Term::Keyword(Keyword::Context) => (),
+						Term::Keyword(_) if active_property == Keyword::Reverse => {
+							return Err(Error::InvalidReversePropertyMap)
+						}
 						Term::Keyword(Keyword::Value) => value_entry = Some(value.clone()),
 						Term::Keyword(Keyword::List) => {
 							if active_property.is_some() && active_property != Keyword::Graph {
diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index 997aff0..7512729 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -304,116 +304,52 @@ where
 					Keyword::Reverse => {
 						// If value is not a map, an invalid @reverse value error
 						// has been detected and processing is aborted.
-						if let Some(value) = value.as_object() {
-							// The reverse property map is a map on its own: a context
-							// that is not propagated does not apply inside of it.
-							let reverse_context = active_context
-								.previous_context()
-								.unwrap_or(active_context);
-
-							let mut reverse_entries: Vec<&Entry> = value.iter().collect();
+						if value.is_object() {
+							// Expand the reverse property map just like a node object, with
+							// `@reverse` as active property.
+							let expanded_value = Box::pin(expand_element(
+								Environment {
+									vocabulary: env.vocabulary,
+									loader: env.loader,
+									warnings: env.warnings,
+								},
+								active_context,
+								ActiveProperty::Some(Keyword::Reverse.into_str()),
+								value,
+								base_url,
+								options,
+								false,
+							))
+							.await?;
 
-							if options.ordered {
-								reverse_entries.sort_by_key(|entry| &entry.key)
-							}
+							for object in expanded_value {
+								let node = match object.into_inner() {
+									Object::Node(node) => *node,
+									_ => return Err(Error::InvalidReversePropertyMap),
+								};
 
-							for Entry {
-								key: reverse_key,
-								value: reverse_value,
-							} in reverse_entries
-							{
-								match expand_iri(
-									&mut env,
-									reverse_context,
-									Nullable::Some(reverse_key.as_str().into()),
-									false,
-									Some(options.policy.vocab),
-								)? {
-									Some(Term::Keyword(_)) => {
-										return Err(Error::InvalidReversePropertyMap)
+								// Properties reversed twice are properties of the node.
+								if let Some(reverse_properties) = node.reverse_properties {
+									for (property, nodes) in reverse_properties {
+										result.insert_all(
+											property,
+											nodes.into_iter().map(Indexed::cast),
+										)
 									}
-									Some(Term::Id(reverse_prop))
-										if reverse_prop
-											.with(&*env.vocabulary)
-											.as_str()
-											.contains(':') =>
-									{
-										if !reverse_prop.is_valid() {
-											match options.policy.invalid {
-												Action::Keep => (),
-												Action::Drop => continue,
-												Action::Reject => {
-													return Err(Error::KeyExpansionFailed(
-														reverse_key.to_string(),
-													))
-												}
-											}
-										}
-
-										let reverse_expanded_value = Box::pin(expand_element(
-											Environment {
-												vocabulary: env.vocabulary,
-												loader: env.loader,
-												warnings: env.warnings,
-											},
-											reverse_context,
-											ActiveProperty::Some(reverse_key.as_ref()),
-											reverse_value,
-											base_url,
-											options,
-											false,
-										))
-										.await?;
-
-										let is_double_reversed =
-											if let Some(reverse_key_definition) =
-												reverse_context.get(reverse_key.as_str())
-											{
-												reverse_key_definition.reverse_property()
-											} else {
-												false
-											};
-
-										if is_double_reversed {
-											result.insert_all(
-												reverse_prop,
-												reverse_expanded_value.into_iter(),
-											)
-										} else {
-											let mut reverse_expanded_nodes = Vec::new();
-											for object in reverse_expanded_value {
-												match object.try_cast::<Node<N::Iri, N::BlankId>>()
-												{
-													Ok(node) => reverse_expanded_nodes.push(node),
-													Err(_) => {
-														return Err(
-															Error::InvalidReversePropertyValue,
-														)
-													}
-												}
-											}
+								}
 
-											result.reverse_properties_or_default().insert_all(
-												reverse_prop,
-												reverse_expanded_nodes.into_iter(),
-											)
+								for (property, objects) in node.properties {
+									let mut reverse_nodes = Vec::new();
+									for object in objects {
+										match object.try_cast::<Node<N::Iri, N::BlankId>>() {
+											Ok(node) => reverse_nodes.push(node),
+											Err(_) => return Err(Error::InvalidReversePropertyValue),
 										}
 									}
-									_ => {
-										if options.policy.invalid.is_reject() {
-											return Err(Error::KeyExpansionFailed(
-												reverse_key.to_string(),
-											));
-										}
 
-										if !options.policy.allow_undefined {
-											return Err(Error::KeyExpansionFailed(
-												reverse_key.to_string(),
-											));
-										}
-
-										// otherwise the key is just dropped.
-									}
+									result
+										.reverse_properties_or_default()
+										.insert_all(property, reverse_nodes)
 								}
 							}
 						} else {
-- 
2.43.0


From ff6ff9dbf922f937b20bd0364b5f9663d1c62435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:45 +0000
Subject: [PATCH 47/72] fix: a term whose @id is a term defined as null is an
 invalid IRI mapping

---
 crates/context-processing/src/algorithm/define.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index f67ceed..1b9eaab 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -392,6 +392,10 @@ where
 											// been detected and processing is aborted.
 											return Err(Error::InvalidKeywordAlias);
 										}
+										None | Some(Term::Null) => {
+											// `@id` refers to a term that is defined as null.
+											return Err(Error::InvalidIriMapping);
+										}
 										Some(Term::Id(prop)) if !prop.is_valid() => {
 											// If the resulting IRI mapping is neither a keyword,
 											// nor an IRI, nor a blank node identifier, an
-- 
2.43.0


From 5722644bcd7dcfe0e39ddb4aad7ac14724e75e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:45 +0000
Subject: [PATCH 48/72] fix: do not put graph objects with an index in plain
 index maps inside @reverse

---
 crates/compaction/src/iri.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/compaction/src/iri.rs b/crates/compaction/src/iri.rs
index 6532a49..5fab5d1 100644
--- a/crates/compaction/src/iri.rs
+++ b/crates/compaction/src/iri.rs
@@ -119,17 +119,14 @@ where
 				}
 			}
 
-			let mut has_index = false;
+			let has_index = value.is_some_and(|value| value.index().is_some());
 			let mut is_simple_value = false; // value object with no type, no index, no language and no direction.
 
 			if reverse {
 				type_lang_value = Some(TypeLangValue::Type(TypeSelection::Reverse));
 				containers.push(Container::Set);
 			} else {
-				let value_ref = value.map(|v| {
-					has_index = v.index().is_some();
-					v.inner().as_ref()
-				});
+				let value_ref = value.map(|v| v.inner().as_ref());
 
 				match value_ref {
 					Some(object::Ref::List(list)) => {
-- 
2.43.0


From 68bb21b0900af7be9b1f7d9ddbf1affa8a753d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:52 +0000
Subject: [PATCH 49/72] fix: recognise @id besides its alias in the entries of
 type maps

---
 crates/compaction/src/property.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/compaction/src/property.rs b/crates/compaction/src/property.rs
index 7ed323b..61497e7 100644
--- a/crates/compaction/src/property.rs
+++ b/crates/compaction/src/property.rs
@@ -745,7 +745,9 @@ where
 									options,
 								)?
 								.unwrap();
-								if map.len() == 1 && map.contains_key(id_key.as_str()) {
+								if map.len() == 1
+									&& (map.contains_key("@id") || map.contains_key(id_key.as_str()))
+								{
 									let obj = Object::node(Node::with_id(
 										expanded_item.id().unwrap().clone(),
 									));
-- 
2.43.0


From eff58092a8f644a26eb3236695baceefc864321c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:34 +0000
Subject: [PATCH 50/72] fix: do not unwrap graph objects with an index

---
 crates/core/src/object/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/object/mod.rs b/crates/core/src/object/mod.rs
index c67dcd5..df52227 100644
--- a/crates/core/src/object/mod.rs
+++ b/crates/core/src/object/mod.rs
@@ -482,7 +482,8 @@ impl<T, B> Indexed<Object<T, B>> {
 	pub fn into_unnamed_graph(self) -> Result<Graph<T, B>, Self> {
 		let (obj, index) = self.into_parts();
 		match obj {
-			Object::Node(n) => match n.into_unnamed_graph() {
+			// An indexed graph is more than its content.
+			Object::Node(n) if index.is_none() => match n.into_unnamed_graph() {
 				Ok(g) => Ok(g),
 				Err(n) => Err(Indexed::new(Object::node(n), index)),
 			},
-- 
2.43.0


From 5f2ee0192a2db5cf4297bc46400819fd77e4f7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:34 +0000
Subject: [PATCH 51/72] fix: a node with an index does not consist of a single
 @id entry

---
 crates/compaction/src/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/compaction/src/node.rs b/crates/compaction/src/node.rs
index 4e5be8a..8b5d1d0 100644
--- a/crates/compaction/src/node.rs
+++ b/crates/compaction/src/node.rs
@@ -34,7 +34,7 @@ where
 	// If element does not contain an @value entry, and element does not consist of
 	// a single @id entry, set active context to previous context from active context,
 	// as the scope of a term-scoped context does not apply when processing new node objects.
-	if !(node.is_empty() && node.id.is_some()) {
+	if !(node.is_empty() && node.id.is_some() && index.is_none()) {
 		// does not consist of a single @id entry
 		if let Some(previous_context) = active_context.previous_context() {
 			active_context = previous_context
-- 
2.43.0


From 7d94f421e1a6d6edc9b2f140546937b012c1ce19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:34 +0000
Subject: [PATCH 52/72] fix: keep the keys of index and id maps that are terms
 defined as null

---
 crates/expansion/src/node.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index 7512729..6546ade 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -696,7 +696,7 @@ where
 									false,
 									Some(options.policy.vocab),
 								)? {
-									Some(Term::Null) | Some(Term::Keyword(Keyword::None)) => None,
+									Some(Term::Keyword(Keyword::None)) => None,
 									key => key,
 								};
 
@@ -832,7 +832,9 @@ where
 												)?
 												.and_then(node_id_of_term);
 											}
-										} else if container_mapping.contains(ContainerKind::Type) {
+										} else if container_mapping.contains(ContainerKind::Type)
+											&& expanded_index != Some(Term::Null)
+										{
 											// Otherwise, if container mapping includes
 											// @type and expanded index is not @none,
 											// initialize types to a new array consisting
-- 
2.43.0


From 6da7f2403ff71781ce74c59c94aab6e5c5a70c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:59 +0000
Subject: [PATCH 53/72] fix: comparing documents with several entries of the
 same key panicked

---
 crates/syntax/src/compare.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/crates/syntax/src/compare.rs b/crates/syntax/src/compare.rs
index df760ac..4f12230 100644
--- a/crates/syntax/src/compare.rs
+++ b/crates/syntax/src/compare.rs
@@ -35,15 +35,19 @@ impl Compare for Value {
 			}
 			(Self::Object(a), Self::Object(b)) => {
 				if a.len() == b.len() {
-					for entry in a {
-						match b.get_unique(&*entry.key).expect("invalid JSON-LD") {
-							Some(value) => {
-								if !entry.value.compare(value) {
-									return false;
-								}
+					// Several entries may have the same key.
+					let mut selected = Vec::new();
+					selected.resize(b.len(), false);
+
+					'next_entry: for entry in a {
+						for (i, value) in b.get_with_index(&*entry.key) {
+							if !selected[i] && entry.value.compare(value) {
+								selected[i] = true;
+								continue 'next_entry;
 							}
-							None => return false,
 						}
+
+						return false;
 					}
 
 					true
-- 
2.43.0


From 1d29e1e15c74a0bfa07b5c36f0d39a0f36f83671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:48 +0000
Subject: [PATCH 54/72] fix: expansion policies rejected keys defined by the
 local context, language tags and index keys

---
 crates/expansion/src/element.rs | 11 +++++++----
 crates/expansion/src/node.rs    | 12 ++++++++++--
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/crates/expansion/src/element.rs b/crates/expansion/src/element.rs
index 26c3005..18d83fc 100644
--- a/crates/expansion/src/element.rs
+++ b/crates/expansion/src/element.rs
@@ -1,5 +1,5 @@
 use crate::{
-	expand_array, expand_iri, expand_literal, expand_node, expand_value, Error, Expanded,
+	expand_array, expand_iri, expand_literal, expand_node, expand_value, Action, Error, Expanded,
 	GivenLiteralValue, LiteralValue, Loader, Options, Warning, WarningHandler,
 };
 use json_ld_context_processing::{Options as ProcessingOptions, Process};
@@ -129,6 +129,9 @@ where
 			// };
 
 			// Preliminary key expansions.
+			// They only look for keywords: the expansion policy applies to the
+			// definitive expansion of the keys and types, once the active context is
+			// known.
 			let mut preliminary_value_entry = None;
 			let mut preliminary_id_entry = None;
 			for Entry { key, value } in element.entries() {
@@ -137,7 +140,7 @@ where
 					active_context,
 					Nullable::Some(key.as_str().into()),
 					false,
-					Some(options.policy.vocab),
+					Some(Action::Keep),
 				)? {
 					Some(Term::Keyword(Keyword::Value)) => {
 						preliminary_value_entry = Some(value.clone())
@@ -225,7 +228,7 @@ where
 					active_context.as_ref(),
 					Nullable::Some(key.as_str().into()),
 					false,
-					Some(options.policy.vocab),
+					Some(Action::Keep),
 				)?;
 
 				if let Some(Term::Keyword(Keyword::Type)) = expanded_key {
@@ -300,7 +303,7 @@ where
 								active_context.as_ref(),
 								Nullable::Some(input_type_str.into()),
 								false,
-								Some(options.policy.vocab),
+								Some(Action::Keep),
 							)
 						})
 						.transpose()?
diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index 6546ade..2e6865c 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -542,7 +542,7 @@ where
 												active_context,
 												Nullable::Some(language.as_str().into()),
 												false,
-												Some(options.policy.vocab),
+												Some(Action::Keep),
 											)? == Some(Term::Keyword(
 												Keyword::None,
 											)) {
@@ -689,12 +689,20 @@ where
 
 								// Initialize `expanded_index` to the result of IRI
 								// expanding index.
+								// Keys of type maps are types, the others are not
+								// terms.
+								let vocab_policy =
+									if container_mapping.contains(ContainerKind::Type) {
+										options.policy.vocab
+									} else {
+										Action::Keep
+									};
 								let expanded_index = match expand_iri(
 									&mut env,
 									active_context,
 									Nullable::Some(index.as_str().into()),
 									false,
-									Some(options.policy.vocab),
+									Some(vocab_policy),
 								)? {
 									Some(Term::Keyword(Keyword::None)) => None,
 									key => key,
-- 
2.43.0


From b52c586b615e66beddea74be4c885d1a3713833c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:21:51 +0000
Subject: [PATCH 55/72] fix: arrays were made lists by scoped contexts which do
 not define their term as one

The expansion of an array gave a list whenever the context it is expanded with
has a list container for the active property. That context may be the scoped
or the previous one: only the nested arrays become lists.
---
 crates/expansion/src/array.rs   | 23 +++++++++++------------
 crates/expansion/src/element.rs | 32 +++++++++++++-------------------
 2 files changed, 24 insertions(+), 31 deletions(-)

diff --git a/crates/expansion/src/array.rs b/crates/expansion/src/array.rs
index 6090dfc..51a1d31 100644
--- a/crates/expansion/src/array.rs
+++ b/crates/expansion/src/array.rs
@@ -1,7 +1,7 @@
 use crate::{expand_element, ActiveProperty, Error, Expanded, Loader, Options, WarningHandler};
 use json_ld_core::{context::TermDefinitionRef, object, Context, Environment, Object};
 use json_ld_syntax::ContainerKind;
-use json_syntax::Array;
+use json_syntax::Value;
 use rdf_types::VocabularyMut;
 use std::hash::Hash;
 
@@ -11,7 +11,7 @@ pub(crate) async fn expand_array<N, L, W>(
 	active_context: &Context<N::Iri, N::BlankId>,
 	active_property: ActiveProperty<'_>,
 	active_property_definition: Option<TermDefinitionRef<'_, N::Iri, N::BlankId>>,
-	element: &Array,
+	element: &[Value],
 	base_url: Option<&N::Iri>,
 	options: Options,
 	from_map: bool,
@@ -27,9 +27,6 @@ where
 	let mut is_list = false;
 	let mut result = Vec::new();
 
-	// If the container mapping of `active_property` includes `@list`, and
-	// `expanded_item` is an array, set `expanded_item` to a new map containing
-	// the entry `@list` where the value is the original `expanded_item`.
 	if let Some(definition) = active_property_definition {
 		is_list = definition.container().contains(ContainerKind::List);
 	}
@@ -54,13 +51,15 @@ where
 		))
 		.await?;
 
-		result.extend(e);
-	}
-
-	if is_list {
-		return Ok(Expanded::Object(
-			Object::List(object::List::new(result)).into(),
-		));
+		match e {
+			// If the container mapping of `active_property` includes `@list`, and
+			// `expanded_item` is an array, set `expanded_item` to a new map containing
+			// the entry `@list` where the value is the original `expanded_item`.
+			Expanded::Array(items) if is_list => {
+				result.push(Object::List(object::List::new(items)).into())
+			}
+			e => result.extend(e),
+		}
 	}
 
 	// Return result.
diff --git a/crates/expansion/src/element.rs b/crates/expansion/src/element.rs
index 18d83fc..05c341e 100644
--- a/crates/expansion/src/element.rs
+++ b/crates/expansion/src/element.rs
@@ -375,25 +375,19 @@ where
 				// recursively passing active context, active property, value for element,
 				// base URL, and the ordered flags, ensuring that the
 				// result is an array..
-				let mut result = Vec::new();
-				let list_entry = Value::force_as_array(&list_entry);
-				for item in list_entry {
-					let e = Box::pin(expand_element(
-						Environment {
-							vocabulary: env.vocabulary,
-							loader: env.loader,
-							warnings: env.warnings,
-						},
-						active_context.as_ref(),
-						active_property,
-						item,
-						base_url,
-						options,
-						false,
-					))
-					.await?;
-					result.extend(e)
-				}
+				let result = Box::pin(expand_array(
+					env,
+					active_context.as_ref(),
+					active_property,
+					active_property.get_from(active_context.as_ref()),
+					Value::force_as_array(&list_entry),
+					base_url,
+					options,
+					false,
+				))
+				.await?
+				.into_iter()
+				.collect();
 
 				Ok(Expanded::Object(Indexed::new(
 					Object::List(object::List::new(result)),
-- 
2.43.0


From 8605a8636b30e7a25112158c213e91d2c0734202 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:21:51 +0000
Subject: [PATCH 56/72] fix: undefined keys in value, list and set objects were
 errors

They are dropped, or subject to the expansion policy, as in node objects.
---
 crates/expansion/src/element.rs | 37 ++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/crates/expansion/src/element.rs b/crates/expansion/src/element.rs
index 05c341e..b176bf8 100644
--- a/crates/expansion/src/element.rs
+++ b/crates/expansion/src/element.rs
@@ -1,7 +1,8 @@
 use crate::{
 	expand_array, expand_iri, expand_literal, expand_node, expand_value, Action, Error, Expanded,
-	GivenLiteralValue, LiteralValue, Loader, Options, Warning, WarningHandler,
+	GivenLiteralValue, LiteralValue, Loader, Options, Policy, Warning, WarningHandler,
 };
+use contextual::WithContext;
 use json_ld_context_processing::{Options as ProcessingOptions, Process};
 use json_ld_core::{object, Context, Environment, Id, Indexed, Object, Term, ValidId};
 use json_ld_syntax::{Keyword, Nullable};
@@ -61,6 +62,36 @@ impl<'a> PartialEq<Keyword> for ActiveProperty<'a> {
 	}
 }
 
+/// Applies the expansion policy to the keys of a list, set or value object.
+///
+/// As in node objects, the keys which are neither keywords nor contain a `:`
+/// are dropped unless the policy forbids them.
+fn apply_key_policy<V: VocabularyMut>(
+	vocabulary: &V,
+	entries: &mut Vec<ExpandedEntry<V::Iri, V::BlankId>>,
+	policy: Policy,
+) -> Result<(), Error> {
+	let mut failed = None;
+	entries.retain(|ExpandedEntry(_, expanded_key, _)| {
+		let Term::Id(id) = expanded_key else {
+			return true;
+		};
+
+		let undefined = !id.with(vocabulary).as_str().contains(':');
+		let invalid = matches!(id, Id::Invalid(_));
+		if (invalid && policy.invalid == Action::Reject) || (undefined && !policy.allow_undefined) {
+			failed.get_or_insert_with(|| id.with(vocabulary).to_string());
+		}
+
+		!undefined && !(invalid && policy.invalid == Action::Drop)
+	});
+
+	match failed {
+		Some(key) => Err(Error::KeyExpansionFailed(key)),
+		None => Ok(()),
+	}
+}
+
 /// Result of the expansion of a single element in a JSON-LD document.
 pub(crate) type ElementExpansionResult<T, B> = Result<Expanded<T, B>, Error>;
 
@@ -357,6 +388,10 @@ where
 				}
 			}
 
+			if list_entry.is_some() || set_entry.is_some() || value_entry.is_some() {
+				apply_key_policy(env.vocabulary, &mut expanded_entries, options.policy)?;
+			}
+
 			if let Some(list_entry) = list_entry {
 				// List objects.
 				let mut index = None;
-- 
2.43.0


From 2501e00bc573f7c3e27f67045b42ea667accaaa4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:21:51 +0000
Subject: [PATCH 57/72] fix: null values of terms with a list or graph
 container gave empty lists and properties

---
 crates/expansion/src/node.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index 2e6865c..7a79717 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -890,6 +890,12 @@ where
 					}
 				};
 
+				// If expanded value is null, ignore key by continuing to the next
+				// key from element.
+				if expanded_value.is_null() {
+					continue;
+				}
+
 				// If container mapping includes @list and expanded value is
 				// not already a list object, convert expanded value to a list
 				// object by first setting it to an array containing only
-- 
2.43.0


From 33f29bfb10d528e7f689b8b9dc549b076c7ea61b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:21:51 +0000
Subject: [PATCH 58/72] fix: strings were refused by terms a scoped context
 defines of type @json

---
 crates/expansion/src/literal.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/expansion/src/literal.rs b/crates/expansion/src/literal.rs
index 84251a8..9ada1e4 100644
--- a/crates/expansion/src/literal.rs
+++ b/crates/expansion/src/literal.rs
@@ -221,6 +221,17 @@ where
 					}
 				}
 
+				Some(Type::Json) => {
+					let json = match result {
+						Literal::Null => json_syntax::Value::Null,
+						Literal::Boolean(b) => json_syntax::Value::Boolean(b),
+						Literal::Number(n) => json_syntax::Value::Number(n),
+						Literal::String(s) => json_syntax::Value::String(s),
+					};
+
+					return Ok(Object::Value(Value::Json(json)).into());
+				}
+
 				Some(t) => {
 					if let Ok(t) = t.into_iri() {
 						ty = Some(t)
-- 
2.43.0


From e27b2b858dc5ebedfa0979176032a17e40e8121b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:41:16 +0000
Subject: [PATCH 59/72] fix: included nodes were converted to JSON as @include

---
 crates/core/src/object/node/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/object/node/mod.rs b/crates/core/src/object/node/mod.rs
index 2bfe4c3..9993153 100644
--- a/crates/core/src/object/node/mod.rs
+++ b/crates/core/src/object/node/mod.rs
@@ -1345,7 +1345,7 @@ impl<T, B, N: Vocabulary<Iri = T, BlankId = B>> IntoJsonWithContext<N> for Node<
 
 		if let Some(included) = self.included {
 			obj.insert(
-				"@include".into(),
+				"@included".into(),
 				included.into_with(vocabulary).into_json(),
 			);
 		}
-- 
2.43.0


From d29751b15fafcadadaf71f5944c93742617944ed Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:41:16 +0000
Subject: [PATCH 60/72] fix: literals of graphs and included nodes were not put
 in canonical form

---
 crates/core/src/object/list.rs     | 12 +++++++++--
 crates/core/src/object/mod.rs      | 12 +++++++++--
 crates/core/src/object/node/mod.rs | 32 ++++++++++++++++++++++++++++--
 3 files changed, 50 insertions(+), 6 deletions(-)

diff --git a/crates/core/src/object/list.rs b/crates/core/src/object/list.rs
index 44fe8aa..3d9ac4b 100644
--- a/crates/core/src/object/list.rs
+++ b/crates/core/src/object/list.rs
@@ -74,14 +74,22 @@ impl<T, B> List<T, B> {
 	/// `buffer`.
 	///
 	/// The buffer is used to compute the canonical form of numbers.
-	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer) {
+	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
 		for object in self {
 			object.canonicalize_with(buffer)
 		}
 	}
 
 	/// Puts this list object literals into canonical form.
-	pub fn canonicalize(&mut self) {
+	pub fn canonicalize(&mut self)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
 		let mut buffer = ryu_js::Buffer::new();
 		self.canonicalize_with(&mut buffer)
 	}
diff --git a/crates/core/src/object/mod.rs b/crates/core/src/object/mod.rs
index df52227..b33f558 100644
--- a/crates/core/src/object/mod.rs
+++ b/crates/core/src/object/mod.rs
@@ -167,7 +167,11 @@ impl<T, B> Object<T, B> {
 	/// `buffer`.
 	///
 	/// The buffer is used to compute the canonical form of numbers.
-	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer) {
+	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
 		match self {
 			Self::List(l) => l.canonicalize_with(buffer),
 			Self::Node(n) => n.canonicalize_with(buffer),
@@ -176,7 +180,11 @@ impl<T, B> Object<T, B> {
 	}
 
 	/// Puts this object literals into canonical form.
-	pub fn canonicalize(&mut self) {
+	pub fn canonicalize(&mut self)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
 		let mut buffer = ryu_js::Buffer::new();
 		self.canonicalize_with(&mut buffer)
 	}
diff --git a/crates/core/src/object/node/mod.rs b/crates/core/src/object/node/mod.rs
index 9993153..15e824c 100644
--- a/crates/core/src/object/node/mod.rs
+++ b/crates/core/src/object/node/mod.rs
@@ -191,7 +191,31 @@ impl<T, B> Node<T, B> {
 	/// `buffer`.
 	///
 	/// The buffer is used to compute the canonical form of numbers.
-	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer) {
+	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
+		if let Some(graph) = self.graph_mut() {
+			*graph = std::mem::take(graph)
+				.into_iter()
+				.map(|mut o| {
+					o.canonicalize_with(buffer);
+					o
+				})
+				.collect();
+		}
+
+		if let Some(included) = self.included_mut() {
+			*included = std::mem::take(included)
+				.into_iter()
+				.map(|mut n| {
+					n.canonicalize_with(buffer);
+					n
+				})
+				.collect();
+		}
+
 		for (_, objects) in self.properties_mut() {
 			for object in objects {
 				object.canonicalize_with(buffer)
@@ -208,7 +232,11 @@ impl<T, B> Node<T, B> {
 	}
 
 	/// Puts this node object literals into canonical form.
-	pub fn canonicalize(&mut self) {
+	pub fn canonicalize(&mut self)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
 		let mut buffer = ryu_js::Buffer::new();
 		self.canonicalize_with(&mut buffer)
 	}
-- 
2.43.0


From a105d0117335d751674ce3aac214a65a1d018f7f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:43:34 +0000
Subject: [PATCH 61/72] fix: properties of @reverse entries were not among the
 traversed identifiers

---
 crates/core/src/object/node/mod.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/crates/core/src/object/node/mod.rs b/crates/core/src/object/node/mod.rs
index 15e824c..c7318b7 100644
--- a/crates/core/src/object/node/mod.rs
+++ b/crates/core/src/object/node/mod.rs
@@ -878,7 +878,7 @@ impl<'a, T, B> EntryValueRef<'a, T, B> {
 			Self::Type(l) => SubFragments::Type(l.iter()),
 			Self::Graph(g) => SubFragments::Graph(g.iter()),
 			Self::Included(i) => SubFragments::Included(i.iter()),
-			Self::Reverse(r) => SubFragments::Reverse(r.iter()),
+			Self::Reverse(r) => SubFragments::Reverse(r.iter(), None),
 			Self::Property(p) => SubFragments::Property(p.iter()),
 			_ => SubFragments::None,
 		}
@@ -1202,7 +1202,10 @@ pub enum SubFragments<'a, T, B> {
 	Type(std::slice::Iter<'a, Id<T, B>>),
 	Graph(indexmap::set::Iter<'a, IndexedObject<T, B>>),
 	Included(indexmap::set::Iter<'a, IndexedNode<T, B>>),
-	Reverse(reverse_properties::Iter<'a, T, B>),
+	Reverse(
+		reverse_properties::Iter<'a, T, B>,
+		Option<&'a [IndexedNode<T, B>]>,
+	),
 	Property(std::slice::Iter<'a, IndexedObject<T, B>>),
 }
 
@@ -1224,9 +1227,13 @@ impl<'a, T, B> Iterator for SubFragments<'a, T, B> {
 				.map(|t| super::FragmentRef::NodeFragment(FragmentRef::TypeFragment(t))),
 			Self::Graph(g) => g.next().map(|o| super::FragmentRef::IndexedObject(o)),
 			Self::Included(i) => i.next().map(|n| super::FragmentRef::IndexedNode(n)),
-			Self::Reverse(r) => r
-				.next()
-				.map(|(_, n)| super::FragmentRef::IndexedNodeList(n)),
+			Self::Reverse(r, nodes) => match nodes.take() {
+				Some(n) => Some(super::FragmentRef::IndexedNodeList(n)),
+				None => r.next().map(|(p, n)| {
+					*nodes = Some(n);
+					super::FragmentRef::NodeFragment(FragmentRef::Key(EntryKeyRef::Property(p)))
+				}),
+			},
 			Self::Property(o) => o.next().map(|o| super::FragmentRef::IndexedObject(o)),
 		}
 	}
-- 
2.43.0


From 295f8eed388f15d50ad82480b37d53f89b9cf6f2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:47:20 +0000
Subject: [PATCH 62/72] fix: items of lists were not traversed

---
 crates/core/src/object/list.rs | 38 ++++++++++++++++++++++++++++++++++
 crates/core/src/object/mod.rs  |  4 ++++
 2 files changed, 42 insertions(+)

diff --git a/crates/core/src/object/list.rs b/crates/core/src/object/list.rs
index 3d9ac4b..f11ecca 100644
--- a/crates/core/src/object/list.rs
+++ b/crates/core/src/object/list.rs
@@ -214,6 +214,44 @@ pub enum FragmentRef<'a, T, B> {
 	Value(&'a [IndexedObject<T, B>]),
 }
 
+impl<'a, T, B> FragmentRef<'a, T, B> {
+	pub fn is_json_array(&self) -> bool {
+		matches!(self, Self::Value(_))
+	}
+
+	pub fn sub_fragments(&self) -> SubFragments<'a, T, B> {
+		match self {
+			Self::Entry(items) => SubFragments::Entry(Some(()), Some(items)),
+			Self::Value(items) => SubFragments::Value(items.iter()),
+			Self::Key => SubFragments::None,
+		}
+	}
+}
+
+pub enum SubFragments<'a, T, B> {
+	None,
+	Entry(Option<()>, Option<&'a [IndexedObject<T, B>]>),
+	Value(core::slice::Iter<'a, IndexedObject<T, B>>),
+}
+
+impl<'a, T, B> Iterator for SubFragments<'a, T, B> {
+	type Item = super::FragmentRef<'a, T, B>;
+
+	fn next(&mut self) -> Option<Self::Item> {
+		match self {
+			Self::None => None,
+			Self::Entry(k, v) => k
+				.take()
+				.map(|()| super::FragmentRef::ListFragment(FragmentRef::Key))
+				.or_else(|| {
+					v.take()
+						.map(|v| super::FragmentRef::ListFragment(FragmentRef::Value(v)))
+				}),
+			Self::Value(items) => items.next().map(super::FragmentRef::IndexedObject),
+		}
+	}
+}
+
 impl<T, B, N: Vocabulary<Iri = T, BlankId = B>> IntoJsonWithContext<N> for List<T, B> {
 	fn into_json_with(self, vocabulary: &N) -> json_syntax::Value {
 		let mut obj = json_syntax::Object::new();
diff --git a/crates/core/src/object/mod.rs b/crates/core/src/object/mod.rs
index b33f558..7028225 100644
--- a/crates/core/src/object/mod.rs
+++ b/crates/core/src/object/mod.rs
@@ -1053,6 +1053,7 @@ impl<'a, T, B> FragmentRef<'a, T, B> {
 		match self {
 			Self::IndexedNodeList(_) => true,
 			Self::ValueFragment(i) => i.is_json_array(),
+			Self::ListFragment(i) => i.is_json_array(),
 			Self::NodeFragment(n) => n.is_json_array(),
 			_ => false,
 		}
@@ -1078,6 +1079,7 @@ impl<'a, T, B> FragmentRef<'a, T, B> {
 			}
 			Self::IndexedNodeList(l) => SubFragments::IndexedNodeList(l.iter()),
 			Self::ValueFragment(i) => SubFragments::Value(i.sub_fragments()),
+			Self::ListFragment(i) => SubFragments::List(i.sub_fragments()),
 			Self::NodeFragment(i) => SubFragments::Node(i.sub_fragments()),
 			_ => SubFragments::None,
 		}
@@ -1113,6 +1115,7 @@ pub enum SubFragments<'a, T, B> {
 	IndexEntry(Option<()>, Option<&'a str>),
 	Object(Option<&'a str>, ObjectSubFragments<'a, T, B>),
 	Value(value::SubFragments<'a, T>),
+	List(list::SubFragments<'a, T, B>),
 	Node(node::SubFragments<'a, T, B>),
 	IndexedNodeList(std::slice::Iter<'a, IndexedNode<T, B>>),
 }
@@ -1132,6 +1135,7 @@ impl<'a, T, B> Iterator for SubFragments<'a, T, B> {
 				None => i.next(),
 			},
 			Self::Value(i) => i.next().map(FragmentRef::ValueFragment),
+			Self::List(i) => i.next(),
 			Self::Node(i) => i.next(),
 			Self::IndexedNodeList(i) => i.next().map(FragmentRef::IndexedNode),
 		}
-- 
2.43.0


From 35a1f62af7cb255c98f8054416361859b9a83a88 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:47:48 +0000
Subject: [PATCH 63/72] fix: stray entries of value objects were dropped when
 reading expanded JSON

---
 crates/core/src/object/value.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/core/src/object/value.rs b/crates/core/src/object/value.rs
index 9f3934b..88ec642 100644
--- a/crates/core/src/object/value.rs
+++ b/crates/core/src/object/value.rs
@@ -266,6 +266,7 @@ impl<T> Value<T> {
 			.remove_unique("@type")
 			.map_err(InvalidExpandedJson::duplicate_key)?
 		{
+			Some(_) if !object.is_empty() => Err(InvalidExpandedJson::UnexpectedEntry),
 			Some(type_entry) => match type_entry.value {
 				json_syntax::Value::String(ty) => match ty.as_str() {
 					"@json" => Ok(Self::Json(value_entry.value)),
@@ -297,6 +298,8 @@ impl<T> Value<T> {
 						language,
 						direction,
 					)?))
+				} else if !object.is_empty() {
+					Err(InvalidExpandedJson::UnexpectedEntry)
 				} else {
 					let lit = value_entry.value.try_into()?;
 					Ok(Self::Literal(lit, None))
-- 
2.43.0


From b3b851be161385dfa8486c108138e98fe6176bfb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:56:21 +0000
Subject: [PATCH 64/72] fix: rdf:first was written as rdf:type when serializing
 quads with types

---
 crates/core/src/serialization.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/core/src/serialization.rs b/crates/core/src/serialization.rs
index bea3008..0cb4142 100644
--- a/crates/core/src/serialization.rs
+++ b/crates/core/src/serialization.rs
@@ -265,7 +265,6 @@ impl<I, B> ExpandedDocument<I, B> {
 
 			match rdf_property(vocabulary, interpretation, quad.1) {
 				Some(RdfProperty::Type) => {
-					rdf_terms.first = Some(quad.1);
 					let ty = rdf_type(vocabulary, interpretation, quad.2);
 
 					if ty.is_list() {
-- 
2.43.0


From 039520e6873499ccec0c1306b347e5fa62b79ab7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:57:18 +0000
Subject: [PATCH 65/72] fix: resources only referenced from a cycle were lost
 when serializing quads

---
 crates/core/src/serialization.rs | 55 ++++++++++++++++++++++++++++----
 1 file changed, 49 insertions(+), 6 deletions(-)

diff --git a/crates/core/src/serialization.rs b/crates/core/src/serialization.rs
index 0cb4142..2de224d 100644
--- a/crates/core/src/serialization.rs
+++ b/crates/core/src/serialization.rs
@@ -98,6 +98,8 @@ struct SerResource<R> {
 	graph: Option<SerGraph<R>>,
 	list: SerList<R>,
 	references: usize,
+	/// Last known resource referencing this one.
+	referrer: Option<R>,
 }
 
 impl<R> Default for SerResource<R> {
@@ -108,6 +110,7 @@ impl<R> Default for SerResource<R> {
 			graph: None,
 			list: SerList::default(),
 			references: 0,
+			referrer: None,
 		}
 	}
 }
@@ -155,6 +158,45 @@ impl<R> SerGraph<R> {
 	{
 		self.resources.entry(id).or_default()
 	}
+
+	/// Makes sure that every resource is either a top level resource, or
+	/// (indirectly) embedded in one.
+	///
+	/// A resource referenced exactly once is embedded in its referrer. When
+	/// such resources form a cycle, one of them must stay at the top level.
+	fn break_cycles(&mut self)
+	where
+		R: Copy + Ord,
+	{
+		let mut visited = BTreeSet::new();
+		let mut cycles = Vec::new();
+
+		for &id in self.resources.keys() {
+			let mut path = BTreeSet::new();
+			let mut current = Some(id);
+
+			while let Some(id) = current {
+				if !visited.insert(id) {
+					if path.contains(&id) {
+						cycles.push(id)
+					}
+
+					break;
+				}
+
+				path.insert(id);
+				current = self
+					.resources
+					.get(&id)
+					.filter(|resource| resource.references == 1)
+					.and_then(|resource| resource.referrer);
+			}
+		}
+
+		for id in cycles {
+			self.resource_mut(id).references = usize::MAX
+		}
+	}
 }
 
 enum RdfProperty {
@@ -297,12 +339,13 @@ impl<I, B> ExpandedDocument<I, B> {
 			}
 
 			let object = graph.resource_mut(quad.2);
-			if quad.1 == quad.2 {
-				object.references = usize::MAX;
-			} else {
-				let r = object.references;
-				object.references = r.saturating_add(1)
-			}
+			object.references = object.references.saturating_add(1);
+			object.referrer = Some(quad.0);
+		}
+
+		node_map.default_graph.break_cycles();
+		for graph in node_map.named_graphs.values_mut() {
+			graph.break_cycles()
 		}
 
 		let mut graph = node_map.fold_into_default_graph();
-- 
2.43.0


From cd8075516558295c15b5d7b9a2133506d20fee57 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:57:18 +0000
Subject: [PATCH 66/72] fix: types with properties were lost when serializing
 quads

---
 crates/core/src/serialization.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/core/src/serialization.rs b/crates/core/src/serialization.rs
index 2de224d..bc79640 100644
--- a/crates/core/src/serialization.rs
+++ b/crates/core/src/serialization.rs
@@ -314,6 +314,9 @@ impl<I, B> ExpandedDocument<I, B> {
 					}
 
 					subject.types.insert(ty);
+
+					// Types are never embedded.
+					continue;
 				}
 				Some(RdfProperty::First) => {
 					rdf_terms.first = Some(quad.1);
-- 
2.43.0


From ac50d31ecf8fd66e08769d21cb445d9b365e2848 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:58:25 +0000
Subject: [PATCH 67/72] fix: literals given as types were lost when serializing
 quads

---
 crates/core/src/serialization.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/serialization.rs b/crates/core/src/serialization.rs
index bc79640..dbeb2b2 100644
--- a/crates/core/src/serialization.rs
+++ b/crates/core/src/serialization.rs
@@ -306,7 +306,8 @@ impl<I, B> ExpandedDocument<I, B> {
 			let subject = graph.resource_mut(quad.0);
 
 			match rdf_property(vocabulary, interpretation, quad.1) {
-				Some(RdfProperty::Type) => {
+				// Only nodes can be types.
+				Some(RdfProperty::Type) if id_of(interpretation, quad.2).is_some() => {
 					let ty = rdf_type(vocabulary, interpretation, quad.2);
 
 					if ty.is_list() {
@@ -336,7 +337,7 @@ impl<I, B> ExpandedDocument<I, B> {
 					subject.list.rest.insert(quad.2);
 					graph.resource_mut(quad.2).list.reverse_rest.insert(quad.1);
 				}
-				None => {
+				Some(RdfProperty::Type) | None => {
 					subject.insert(quad.1, quad.2);
 				}
 			}
-- 
2.43.0


From 6f2f5f5e332253aa81a48839a5dec09817ab6b1d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 06:16:50 +0000
Subject: [PATCH 68/72] fix: empty lists and ends of lists were not rdf:nil in
 linked data

---
 .../core/src/deserialization/object/list.rs   | 36 ++++++++++++++-----
 crates/core/src/deserialization/object/mod.rs |  1 +
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/crates/core/src/deserialization/object/list.rs b/crates/core/src/deserialization/object/list.rs
index 6b07da2..746ff47 100644
--- a/crates/core/src/deserialization/object/list.rs
+++ b/crates/core/src/deserialization/object/list.rs
@@ -1,25 +1,40 @@
 use linked_data::{
-	LinkedData, LinkedDataGraph, LinkedDataPredicateObjects, LinkedDataResource, LinkedDataSubject,
+	CowRdfTerm, LinkedData, LinkedDataGraph, LinkedDataPredicateObjects, LinkedDataResource, LinkedDataSubject,
 	ResourceInterpretation,
 };
-use rdf_types::{vocabulary::IriVocabularyMut, Interpretation, Vocabulary};
+use rdf_types::{vocabulary::IriVocabularyMut, Id, Interpretation, Term, Vocabulary};
 
 use crate::{
 	object::List,
-	rdf::{RDF_FIRST, RDF_REST},
+	rdf::{RDF_FIRST, RDF_NIL, RDF_REST},
 	IndexedObject,
 };
 
-impl<T, B, V: Vocabulary, I: Interpretation> LinkedDataResource<I, V> for List<T, B> {
+impl<T, B, V: Vocabulary, I: Interpretation> LinkedDataResource<I, V> for List<T, B>
+where
+	V: IriVocabularyMut,
+{
 	fn interpretation(
 		&self,
-		_vocabulary: &mut V,
+		vocabulary: &mut V,
 		_interpretation: &mut I,
 	) -> ResourceInterpretation<'_, I, V> {
-		ResourceInterpretation::Uninterpreted(None)
+		list_interpretation(vocabulary, self.as_slice())
 	}
 }
 
+/// The empty list is `rdf:nil`, the others are anonymous.
+fn list_interpretation<'a, T, B, V: IriVocabularyMut + Vocabulary, I: Interpretation>(
+	vocabulary: &mut V,
+	items: &[IndexedObject<T, B>],
+) -> ResourceInterpretation<'a, I, V> {
+	ResourceInterpretation::Uninterpreted(
+		items
+			.is_empty()
+			.then(|| CowRdfTerm::Owned(Term::Id(Id::Iri(vocabulary.insert(RDF_NIL))))),
+	)
+}
+
 impl<T, B, V: Vocabulary<Iri = T>, I: Interpretation> LinkedDataSubject<I, V> for List<T, B>
 where
 	T: LinkedDataResource<I, V> + LinkedDataSubject<I, V>,
@@ -82,13 +97,16 @@ where
 
 struct Rest<'a, T, B>(&'a [IndexedObject<T, B>]);
 
-impl<'a, T, B, V: Vocabulary, I: Interpretation> LinkedDataResource<I, V> for Rest<'a, T, B> {
+impl<'a, T, B, V: Vocabulary, I: Interpretation> LinkedDataResource<I, V> for Rest<'a, T, B>
+where
+	V: IriVocabularyMut,
+{
 	fn interpretation(
 		&self,
-		_vocabulary: &mut V,
+		vocabulary: &mut V,
 		_interpretation: &mut I,
 	) -> ResourceInterpretation<'_, I, V> {
-		ResourceInterpretation::Uninterpreted(None)
+		list_interpretation(vocabulary, self.0)
 	}
 }
 
diff --git a/crates/core/src/deserialization/object/mod.rs b/crates/core/src/deserialization/object/mod.rs
index f51ed88..992c84a 100644
--- a/crates/core/src/deserialization/object/mod.rs
+++ b/crates/core/src/deserialization/object/mod.rs
@@ -13,6 +13,7 @@ impl<T, B, V: Vocabulary<Iri = T>, I: Interpretation> LinkedDataResource<I, V> f
 where
 	T: LinkedDataResource<I, V>,
 	B: LinkedDataResource<I, V>,
+	V: IriVocabularyMut,
 {
 	fn interpretation(
 		&self,
-- 
2.43.0


From d7aa0defa73cea97c9087cc38f9ca5744bb9b9bd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 06:18:07 +0000
Subject: [PATCH 69/72] fix: typed booleans lost their type in linked data

---
 crates/core/src/deserialization/object/value.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/deserialization/object/value.rs b/crates/core/src/deserialization/object/value.rs
index d2f147e..5b00325 100644
--- a/crates/core/src/deserialization/object/value.rs
+++ b/crates/core/src/deserialization/object/value.rs
@@ -17,9 +17,15 @@ impl<V: Vocabulary, I: Interpretation> LinkedDataResource<I, V> for Value<V::Iri
 				Literal::Null => CowRdfTerm::Owned(Term::Literal(RdfLiteral::Xsd(
 					xsd_types::Value::String("null".to_string()),
 				))),
-				Literal::Boolean(b) => CowRdfTerm::Owned(Term::Literal(RdfLiteral::Xsd(
-					xsd_types::Value::Boolean((*b).into()),
-				))),
+				Literal::Boolean(b) => match ty {
+					Some(ty) => CowRdfTerm::Borrowed(Term::Literal(RdfLiteralRef::Any(
+						if *b { "true" } else { "false" },
+						LiteralTypeRef::Any(ty),
+					))),
+					None => CowRdfTerm::Owned(Term::Literal(RdfLiteral::Xsd(
+						xsd_types::Value::Boolean((*b).into()),
+					))),
+				},
 				Literal::Number(n) => match ty {
 					Some(ty) => match typed_number_interpretation(vocabulary, ty, n) {
 						Some(value) => CowRdfTerm::Owned(Term::Literal(RdfLiteral::Xsd(value))),
-- 
2.43.0


From f2ad9a05fdc244306b58bc7998d26c54860c2dd3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 06:18:42 +0000
Subject: [PATCH 70/72] fix: values were missing from lists in linked data

---
 crates/core/src/deserialization/object/value.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/deserialization/object/value.rs b/crates/core/src/deserialization/object/value.rs
index 5b00325..0521736 100644
--- a/crates/core/src/deserialization/object/value.rs
+++ b/crates/core/src/deserialization/object/value.rs
@@ -83,11 +83,12 @@ impl<T, V: Vocabulary, I: Interpretation> LinkedDataSubject<I, V> for Value<T> {
 	}
 }
 
-impl<T, V: Vocabulary, I: Interpretation> LinkedDataPredicateObjects<I, V> for Value<T> {
-	fn visit_objects<S>(&self, visitor: S) -> Result<S::Ok, S::Error>
+impl<V: Vocabulary, I: Interpretation> LinkedDataPredicateObjects<I, V> for Value<V::Iri> {
+	fn visit_objects<S>(&self, mut visitor: S) -> Result<S::Ok, S::Error>
 	where
 		S: linked_data::PredicateObjectsVisitor<I, V>,
 	{
+		visitor.object(self)?;
 		visitor.end()
 	}
 }
-- 
2.43.0


From be986e75afedab6570e54ada04ec33b78f47229f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 06:20:12 +0000
Subject: [PATCH 71/72] fix: lists were serialized from linked data with
 doubled and null items

---
 crates/serialization/src/expanded/list.rs   | 199 --------------------
 crates/serialization/src/expanded/mod.rs    |   1 -
 crates/serialization/src/expanded/object.rs | 130 +++++++------
 3 files changed, 72 insertions(+), 258 deletions(-)
 delete mode 100644 crates/serialization/src/expanded/list.rs

diff --git a/crates/serialization/src/expanded/list.rs b/crates/serialization/src/expanded/list.rs
deleted file mode 100644
index 8bd5f08..0000000
--- a/crates/serialization/src/expanded/list.rs
+++ /dev/null
@@ -1,199 +0,0 @@
-use std::hash::Hash;
-
-use json_ld_core::{
-	rdf::{RDF_FIRST, RDF_REST},
-	Indexed, IndexedObject, Object,
-};
-use linked_data::{CowRdfTerm, LinkedDataResource};
-use rdf_types::{
-	interpretation::{
-		ReverseBlankIdInterpretation, ReverseIriInterpretation, ReverseLiteralInterpretation,
-	},
-	vocabulary::IriVocabularyMut,
-	Id, Interpretation, Term, Vocabulary,
-};
-
-use crate::Error;
-
-use super::object::serialize_object_with;
-
-pub struct SerializeList<'a, I, V: Vocabulary> {
-	vocabulary: &'a mut V,
-	interpretation: &'a mut I,
-	first: Option<Object<V::Iri, V::BlankId>>,
-	rest: Vec<IndexedObject<V::Iri, V::BlankId>>,
-}
-
-impl<'a, I, V: Vocabulary> SerializeList<'a, I, V> {
-	pub fn new(vocabulary: &'a mut V, interpretation: &'a mut I) -> Self {
-		Self {
-			vocabulary,
-			interpretation,
-			first: None,
-			rest: Vec::new(),
-		}
-	}
-}
-
-impl<'a, I: Interpretation, V: Vocabulary> linked_data::SubjectVisitor<I, V>
-	for SerializeList<'a, I, V>
-where
-	V: IriVocabularyMut,
-	V::Iri: Clone + Eq + Hash,
-	V::BlankId: Clone + Eq + Hash,
-	I: ReverseIriInterpretation<Iri = V::Iri>
-		+ ReverseBlankIdInterpretation<BlankId = V::BlankId>
-		+ ReverseLiteralInterpretation<Literal = V::Literal>,
-{
-	type Ok = Vec<IndexedObject<V::Iri, V::BlankId>>;
-	type Error = Error;
-
-	fn predicate<L, T>(&mut self, predicate: &L, value: &T) -> Result<(), Self::Error>
-	where
-		L: ?Sized + LinkedDataResource<I, V>,
-		T: ?Sized + linked_data::LinkedDataPredicateObjects<I, V>,
-	{
-		let repr = predicate
-			.interpretation(self.vocabulary, self.interpretation)
-			.into_lexical_representation(self.vocabulary, self.interpretation)
-			.map(CowRdfTerm::into_term);
-
-		match repr {
-			Some(Term::Id(id)) => {
-				if let Id::Iri(iri) = id {
-					let iri = self.vocabulary.iri(iri.as_ref()).unwrap();
-					if iri == RDF_FIRST {
-						let serializer =
-							SerializeListFirst::new(self.vocabulary, self.interpretation);
-						self.first = value.visit_objects(serializer)?;
-					} else if iri == RDF_REST {
-						let serializer =
-							SerializeListRest::new(self.vocabulary, self.interpretation);
-						self.rest = value.visit_objects(serializer)?;
-					}
-				}
-
-				Ok(())
-			}
-			_ => Err(Error::InvalidPredicate),
-		}
-	}
-
-	fn reverse_predicate<L, T>(&mut self, _predicate: &L, _subjects: &T) -> Result<(), Self::Error>
-	where
-		L: ?Sized + LinkedDataResource<I, V>,
-		T: ?Sized + linked_data::LinkedDataPredicateObjects<I, V>,
-	{
-		Err(Error::ListReverseProperty)
-	}
-
-	fn graph<T>(&mut self, _value: &T) -> Result<(), Self::Error>
-	where
-		T: ?Sized + linked_data::LinkedDataGraph<I, V>,
-	{
-		Ok(())
-	}
-
-	fn include<T>(&mut self, _value: &T) -> Result<(), Self::Error>
-	where
-		T: ?Sized + LinkedDataResource<I, V> + linked_data::LinkedDataSubject<I, V>,
-	{
-		Err(Error::ListInclude)
-	}
-
-	fn end(self) -> Result<Self::Ok, Self::Error> {
-		let first = self.first.unwrap_or_else(Object::null);
-		let mut result = self.rest;
-		result.push(Indexed::none(first));
-		Ok(result)
-	}
-}
-
-pub struct SerializeListFirst<'a, I, V: Vocabulary> {
-	vocabulary: &'a mut V,
-	interpretation: &'a mut I,
-	result: Option<Object<V::Iri, V::BlankId>>,
-}
-
-impl<'a, I, V: Vocabulary> SerializeListFirst<'a, I, V> {
-	pub fn new(vocabulary: &'a mut V, interpretation: &'a mut I) -> Self {
-		Self {
-			vocabulary,
-			interpretation,
-			result: None,
-		}
-	}
-}
-
-impl<'a, I: Interpretation, V: Vocabulary> linked_data::PredicateObjectsVisitor<I, V>
-	for SerializeListFirst<'a, I, V>
-where
-	V: IriVocabularyMut,
-	V::Iri: Clone + Eq + Hash,
-	V::BlankId: Clone + Eq + Hash,
-	I: ReverseIriInterpretation<Iri = V::Iri>
-		+ ReverseBlankIdInterpretation<BlankId = V::BlankId>
-		+ ReverseLiteralInterpretation<Literal = V::Literal>,
-{
-	type Ok = Option<Object<V::Iri, V::BlankId>>;
-	type Error = Error;
-
-	fn object<T>(&mut self, value: &T) -> Result<(), Self::Error>
-	where
-		T: ?Sized + LinkedDataResource<I, V> + linked_data::LinkedDataSubject<I, V>,
-	{
-		self.result = Some(serialize_object_with(
-			self.vocabulary,
-			self.interpretation,
-			value,
-		)?);
-		Ok(())
-	}
-
-	fn end(self) -> Result<Self::Ok, Self::Error> {
-		Ok(self.result)
-	}
-}
-
-pub struct SerializeListRest<'a, I, V: Vocabulary> {
-	vocabulary: &'a mut V,
-	interpretation: &'a mut I,
-	result: Vec<IndexedObject<V::Iri, V::BlankId>>,
-}
-
-impl<'a, I, V: Vocabulary> SerializeListRest<'a, I, V> {
-	pub fn new(vocabulary: &'a mut V, interpretation: &'a mut I) -> Self {
-		Self {
-			vocabulary,
-			interpretation,
-			result: Vec::new(),
-		}
-	}
-}
-
-impl<'a, I: Interpretation, V: Vocabulary> linked_data::PredicateObjectsVisitor<I, V>
-	for SerializeListRest<'a, I, V>
-where
-	V: IriVocabularyMut,
-	V::Iri: Clone + Eq + Hash,
-	V::BlankId: Clone + Eq + Hash,
-	I: ReverseIriInterpretation<Iri = V::Iri>
-		+ ReverseBlankIdInterpretation<BlankId = V::BlankId>
-		+ ReverseLiteralInterpretation<Literal = V::Literal>,
-{
-	type Ok = Vec<IndexedObject<V::Iri, V::BlankId>>;
-	type Error = Error;
-
-	fn object<T>(&mut self, value: &T) -> Result<(), Self::Error>
-	where
-		T: ?Sized + LinkedDataResource<I, V> + linked_data::LinkedDataSubject<I, V>,
-	{
-		let serializer = SerializeList::new(self.vocabulary, self.interpretation);
-		self.result = value.visit_subject(serializer)?;
-		Ok(())
-	}
-
-	fn end(self) -> Result<Self::Ok, Self::Error> {
-		Ok(self.result)
-	}
-}
diff --git a/crates/serialization/src/expanded/mod.rs b/crates/serialization/src/expanded/mod.rs
index f6d8e67..f71fe9f 100644
--- a/crates/serialization/src/expanded/mod.rs
+++ b/crates/serialization/src/expanded/mod.rs
@@ -13,7 +13,6 @@ use crate::Error;
 
 mod default_graph;
 mod graph;
-mod list;
 mod node;
 mod object;
 mod property;
diff --git a/crates/serialization/src/expanded/object.rs b/crates/serialization/src/expanded/object.rs
index 8e09ed1..9177653 100644
--- a/crates/serialization/src/expanded/object.rs
+++ b/crates/serialization/src/expanded/object.rs
@@ -5,8 +5,8 @@ use json_ld_core::{
 		node::{Included, Multiset, Properties, ReverseProperties},
 		Graph, List,
 	},
-	rdf::{RDF_FIRST, RDF_REST, RDF_TYPE},
-	Indexed, IndexedObject, Node, Object,
+	rdf::{RDF_FIRST, RDF_NIL, RDF_REST, RDF_TYPE},
+	Indexed, Node, Object,
 };
 use linked_data::{CowRdfTerm, LinkedDataResource};
 use rdf_types::{
@@ -21,7 +21,6 @@ use crate::Error;
 
 use super::{
 	graph::SerializeGraph,
-	list::{SerializeListFirst, SerializeListRest},
 	node::{into_type_value, is_iri, SerializeNode},
 	property::{SerializeProperty, SerializeReverseProperty},
 	serialize_node_with,
@@ -77,8 +76,6 @@ pub struct SerializeObject<'a, I, V: Vocabulary> {
 	reverse_properties: ReverseProperties<V::Iri, V::BlankId>,
 	included: Included<V::Iri, V::BlankId>,
 	graph: Option<Graph<V::Iri, V::BlankId>>,
-	first: Option<Object<V::Iri, V::BlankId>>,
-	rest: Option<Vec<IndexedObject<V::Iri, V::BlankId>>>,
 }
 
 impl<'a, I, V: Vocabulary> SerializeObject<'a, I, V> {
@@ -91,8 +88,6 @@ impl<'a, I, V: Vocabulary> SerializeObject<'a, I, V> {
 			reverse_properties: ReverseProperties::new(),
 			included: Included::new(),
 			graph: None,
-			first: None,
-			rest: None,
 		}
 	}
 }
@@ -119,22 +114,7 @@ where
 			.lexical_representation(self.vocabulary, self.interpretation)
 			.map(CowRdfTerm::into_owned)
 		{
-			Some(Term::Id(id)) => {
-				if let Id::Iri(iri) = &id {
-					let iri = self.vocabulary.iri(iri).unwrap();
-					if iri == RDF_FIRST {
-						let serializer =
-							SerializeListFirst::new(self.vocabulary, self.interpretation);
-						self.first = value.visit_objects(serializer)?;
-					} else if iri == RDF_REST {
-						let serializer =
-							SerializeListRest::new(self.vocabulary, self.interpretation);
-						self.rest = Some(value.visit_objects(serializer)?);
-					}
-				}
-
-				json_ld_core::Id::Valid(id)
-			}
+			Some(Term::Id(id)) => json_ld_core::Id::Valid(id),
 			_ => return Err(Error::InvalidPredicate),
 		};
 
@@ -204,52 +184,86 @@ where
 	}
 
 	fn end(mut self) -> Result<Self::Ok, Self::Error> {
-		if self.first.is_some()
-			&& self.rest.is_some()
-			&& self.types.is_empty()
-			&& self.properties.is_empty()
+		if self.types.is_empty()
+			&& self.reverse_properties.is_empty()
+			&& self.included.is_empty()
 			&& self.graph.is_none()
 		{
-			#[allow(clippy::unnecessary_unwrap)]
-			let mut items = self.rest.unwrap();
-			#[allow(clippy::unnecessary_unwrap)]
-			items.push(Indexed::none(self.first.unwrap()));
-			items.reverse();
-			Ok(Object::List(List::new(items)))
-		} else {
-			if let Some(item) = self.first {
-				let iri = self.vocabulary.insert(RDF_FIRST);
-				self.properties
-					.insert(json_ld_core::Id::Valid(Id::Iri(iri)), Indexed::none(item))
+			match into_list(self.vocabulary, self.properties) {
+				Ok(list) => return Ok(Object::List(list)),
+				Err(properties) => self.properties = properties,
 			}
+		}
 
-			if let Some(rest) = self.rest {
-				let iri = self.vocabulary.insert(RDF_REST);
-				self.properties.insert(
-					json_ld_core::Id::Valid(Id::Iri(iri)),
-					Indexed::none(Object::List(List::new(rest))),
-				)
-			}
+		let mut node = Node::new();
 
-			let mut node = Node::new();
+		if !self.types.is_empty() {
+			node.types = Some(self.types)
+		}
 
-			if !self.types.is_empty() {
-				node.types = Some(self.types)
-			}
+		*node.properties_mut() = self.properties;
 
-			*node.properties_mut() = self.properties;
+		if !self.reverse_properties.is_empty() {
+			node.set_reverse_properties(Some(self.reverse_properties));
+		}
 
-			if !self.reverse_properties.is_empty() {
-				node.set_reverse_properties(Some(self.reverse_properties));
-			}
+		if !self.included.is_empty() {
+			node.set_included(Some(self.included));
+		}
 
-			if !self.included.is_empty() {
-				node.set_included(Some(self.included));
-			}
+		node.graph = self.graph;
 
-			node.graph = self.graph;
+		Ok(Object::node(node))
+	}
+}
 
-			Ok(Object::node(node))
+/// Turns the properties of an anonymous node into a list, if they are those of
+/// a well formed list: one `rdf:first`, and one `rdf:rest` which is a list.
+fn into_list<V>(
+	vocabulary: &mut V,
+	properties: Properties<V::Iri, V::BlankId>,
+) -> Result<List<V::Iri, V::BlankId>, Properties<V::Iri, V::BlankId>>
+where
+	V: Vocabulary + IriVocabularyMut,
+	V::Iri: Clone + Eq + Hash,
+	V::BlankId: Clone + Eq + Hash,
+{
+	let mut id = |iri| json_ld_core::Id::Valid(Id::Iri(vocabulary.insert(iri)));
+	let first_id = id(RDF_FIRST);
+	let rest_id = id(RDF_REST);
+	let nil_id = id(RDF_NIL);
+
+	let is_nil = |node: &Node<V::Iri, V::BlankId>| {
+		node.is_empty() && node.id.as_ref() == Some(&nil_id)
+	};
+
+	let well_formed = properties.len() == 2
+		&& properties.get(&first_id).count() == 1
+		&& properties.get(&rest_id).count() == 1
+		&& properties
+			.get_any(&rest_id)
+			.is_some_and(|rest| match rest.inner() {
+				Object::List(_) => true,
+				Object::Node(node) => is_nil(node),
+				Object::Value(_) => false,
+			});
+
+	if !well_formed {
+		return Err(properties);
+	}
+
+	let mut items = Vec::new();
+	let mut rest = Vec::new();
+	for (id, objects) in properties {
+		for object in objects {
+			if id == first_id {
+				items.push(object)
+			} else if let Object::List(list) = object.into_inner() {
+				rest = list.into_entry()
+			}
 		}
 	}
+
+	items.extend(rest);
+	Ok(List::new(items))
 }
-- 
2.43.0


From 33d37f719b1210401062771fda992ff6ac7f5a50 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 06:21:01 +0000
Subject: [PATCH 72/72] fix: graphs of nodes with other properties were missing
 from linked data

---
 crates/core/src/deserialization/object/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/deserialization/object/node.rs b/crates/core/src/deserialization/object/node.rs
index 135201f..aa596b4 100644
--- a/crates/core/src/deserialization/object/node.rs
+++ b/crates/core/src/deserialization/object/node.rs
@@ -51,7 +51,7 @@ where
 			}
 		}
 
-		if self.is_graph() {
+		if self.graph().is_some() {
 			visitor.graph(self)?;
 		}
 
-- 
2.43.0

