#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=mech,where=files[0])],**({"state":[dict(name=n,meaning=m) for n,m in state]} if state else {}))))
CTX=["crates/context-processing/src/algorithm/mod.rs","crates/context-processing/src/algorithm/define.rs","crates/context-processing/src/algorithm/iri.rs","crates/context-processing/src/lib.rs","crates/context-processing/src/stack.rs"]
EXP=["crates/expansion/src/element.rs","crates/expansion/src/node.rs","crates/expansion/src/array.rs","crates/expansion/src/value.rs","crates/expansion/src/literal.rs","crates/expansion/src/document.rs"]
PROC=["src/processor/mod.rs","src/processor/remote_document.rs"]
p("C01","Operations sharing a loader do not influence each other",
  "When several processing operations run concurrently over one loader, each of them completes, and its result is the one it would give alone for the documents it was served: whatever the interleaving, the latency of each answer, the arrival order, spurious wake-ups, or the fact that the server changed a document between two operations.",
  ["schedules","histories","inputs"],"All interleavings of 2 to 5 concurrent expand/compact/flatten/to-RDF/compare operations at every await point, all latencies, all per-client document versions.",
  "Tests run one operation at a time over an instantly answering loader; they never interleave two operations nor change a document between two of them.",
  PROC+CTX[:1]+["crates/core/src/loader/mod.rs"],"Every await point of the processor is a load; state that crosses it lives in the operation's own future, never in the loader or in process-wide storage.")
p("C02","Abandoning an operation leaves no trace",
  "Dropping an operation at any point where it waits stops its requests at once and changes nothing for others: concurrent operations give their normal results, and a later operation using the same vocabulary, blank node generator and loader gives the result it would have given had the abandoned one never run.",
  ["crash_points","schedules","histories"],"Every wait of the abandoned operation as crash point, any operation kinds before and after on the shared vocabulary and generator, any interleaving with concurrent operations.",
  "No test drops a future before it completes, nor reuses a vocabulary after a failed or abandoned operation.",
  PROC+CTX+["crates/core/src/loader/mod.rs"],"Operations borrow vocabulary, generator and loader for their duration only and keep partial results in their own future.")
p("C03","Expansion through remote contexts gives the JSON-LD 1.1 result",
  "Expanding a document whose contexts are served by remote hosts (through arrays, nesting, `@import`, property- and type-scoped contexts, nullification, propagation, containers, nesting, reverse properties, JSON literals, language and direction defaults) yields exactly the expanded document the JSON-LD 1.1 algorithms define, whatever the order and the delay in which answers arrive; it succeeds exactly when those algorithms succeed.",
  ["inputs","schedules","configurations"],"All webs of documents and contexts the generator can build from the grammar of local contexts and documents, all latencies, 1 to 3 concurrent clients, processing modes 1.0 and 1.1.",
  "The unit tests cover a handful of hand-written documents with a local loader; the official suite is not run offline, and it does not combine features.",
  CTX+EXP,"Context processing loads remote contexts recursively, merges them in order into an active context, and expansion applies it to the document.")
p("C04","A failed load fails the operation and nothing else",
  "If the load of a document or context that an operation needs fails (unreachable host, error status, connection dropped after a stall, missing page), the operation fails with `loading document failed` or `loading remote context failed`, naming the URL that failed (or with `invalid scoped context`, which the standard prescribes for any failure inside a term definition), and never returns a partial result; once the fault is over, retrying with the same vocabulary gives the fault-free result.",
  ["fault_sequences","inputs","schedules"],"Any fault kind on any request (by URL and attempt) of any operation kind, followed by a retry after the faults stop.",
  "Tests never make a load fail.",
  PROC+["crates/context-processing/src/algorithm/mod.rs","crates/core/src/loader/mod.rs","crates/expansion/src/error.rs"],"Load errors are propagated by `?` through context processing and expansion, keeping the target URL.")
p("C05","Only the documents that are needed are requested",
  "An operation requests every document, context, imported context and `Link` context its processing depends on, each by its absolute URL (resolved against the document that refers to it), no more often than the algorithms dereference it, and requests nothing else: identifiers, types, property IRIs and values are never dereferenced, already provided documents are not fetched, and a document that refers to no remote context causes no request at all.",
  ["inputs","schedules","configurations"],"All generated webs, documents and option sets, with other pages of the web present as traps.",
  "Tests use a loader that serves everything silently and never look at which URLs are requested.",
  PROC+CTX,"Loads are issued only for context references and IRI inputs, after resolution against the base URL of the referring document.")
p("C06","Processing terminates on cyclic and recursive webs",
  "Processing ends, with a result or an error, after a number of requests bounded by the size of the web, even if remote contexts include or import each other or themselves in cycles, directly or through scoped contexts; a context included again while it is being processed is not followed again, and an imported context may not import.",
  ["inputs","schedules","fault_sequences"],"All generated cyclic webs (array cycles, `@import` cycles, scoped-context cycles, long chains, documents acting as their own contexts, redirects into the cycle), under latencies and faults.",
  "Tests contain at most one self-referring context and no bound on requests is ever checked.",
  CTX,"A stack of the URLs being processed detects inclusions of a context by itself; scoped contexts already validated are not followed again.",
  [("ProcessingStack","URLs of the remote contexts currently being processed")])
p("C07","Protected terms keep their meaning",
  "Once a context marks a term as protected, no later context (in the same array, nested deeper, type-scoped, included or imported from a remote host) can change or remove its definition: the operation either fails with `protected term redefinition` or `invalid context nullification`, or gives values using the term their protected meaning; only property-scoped contexts and identical redefinitions are allowed.",
  ["inputs","histories","schedules"],"All generated sequences of contexts in which some are protected (context-wide or per term) and others, served by hostile hosts, try to redefine or nullify their terms.",
  "Tests cover single redefinitions; the guarantee is about every later sequence of contexts.",
  CTX+["crates/expansion/src/node.rs","crates/expansion/src/element.rs"],"Definitions carry a protected flag which is compared upon redefinition and nullification unless overriding is allowed.")
p("C08","How an input is delivered does not change the result",
  "An operation gives the same result whether its input is given by URL or as an already loaded document with that URL, whether a context is referred to by URL or written in place when it holds no relative reference, whether the expansion context and the compaction context are given by URL or loaded, and whether a context comes from a `Link` header or from the option; expanding and loading-as-document agree.",
  ["inputs","configurations","schedules"],"All generated webs, pairs of equivalent deliveries, both with independent latencies and schedules.",
  "Tests use one delivery form per document.",
  PROC+["crates/context-processing/src/algorithm/mod.rs","crates/core/src/loader/mod.rs"],"Remote document references are loaded first, then processed by the same code.")
p("C09","The HTTP loader applies content negotiation as documented",
  "For every sequence of HTTP answers, the HTTP loader sends its `Accept` header with the configured profiles, takes `200` answers with a JSON or JSON-LD content type, follows `alternate` JSON-LD links otherwise, reports the final URL, media type, profiles and (for plain JSON only) the resolved `Link` context of the document, and refuses several context links; the document it returns is the body that was served.",
  ["inputs","histories","schedules"],"All generated sets of HTTP resources: status, content types with parameters, link headers, alternates, redirected URLs, bodies delivered in arbitrary chunks.",
  "There is no test of the HTTP loader except the parsing of a few header values.",
  ["crates/core/src/loader/reqwest/mod.rs","crates/core/src/loader/reqwest/content_type.rs","crates/core/src/loader/reqwest/link.rs"],"A loop over `alternate` links around the HTTP client, then header parsing.")
p("C10","The HTTP loader fails cleanly and stops",
  "When the exchange goes wrong (connection error, error status, unusable content type, endless alternates, body cut, reset in the middle or damaged into invalid JSON or UTF-8) the HTTP loader returns an error after at most the configured number of redirections plus one requests; it never returns a truncated or altered document, panics or hangs, and a later load on the same loader succeeds once the server recovers.",
  ["fault_sequences","crash_points","schedules"],"Every fault kind at every request and every byte position of the body, alternates cycles of any length, any configured limit.",
  "No test makes an HTTP exchange fail.",
  ["crates/core/src/loader/reqwest/mod.rs"],"Redirection counter, status match, and strict UTF-8 and JSON parsing of the whole body.",
  [("redirection_number","alternate links followed so far")])
p("C11","The file loader returns what the disk holds or an error",
  "Loading from the file system returns exactly the document stored at the mapped path at that moment, under its URL; short reads and interrupted system calls do not show, while a missing file, an I/O error, a torn, corrupted or non-UTF-8 file gives an error naming the URL, never a different document, a panic or a hang, and the next load after repair succeeds.",
  ["fault_sequences","crash_points","histories"],"Histories of loads interleaved with file updates on a simulated disk, any fault at any system call, torn writes at any byte.",
  "There is no test of the file loader.",
  ["crates/core/src/loader/fs.rs"],"open, buffered read to the end, strict UTF-8 and JSON parsing; no cache.")
p("C12","Mount points decide which files can be reached",
  "The file loader maps a URL to the directory of the first mount point whose URL is a prefix of it, path segment by path segment, and to the file its remaining segments name below that directory; a URL under no mount point is refused without touching the disk, and no URL reaches a file outside of the directory of its mount point.",
  ["inputs","configurations","histories"],"All generated mount tables and URLs (nested mounts, shared prefixes, dot segments, empty segments, percent-encoding, queries), against the record of every path opened on the simulated disk.",
  "There is no test of the file loader.",
  ["crates/core/src/loader/fs.rs"],"`filepath` strips the mount URL and appends the remaining segments.")
p("C13","Loader combinators choose the first loader that succeeds",
  "A chain of loaders gives the answer of the first loader that succeeds, consults the next one only after a failure of the previous one, and fails only if all fail, naming the requested URL and reporting all the causes; in-memory maps serve exactly the documents they hold and the null loader nothing, so that processing over any combination equals processing over the merged web, also when members of the chain are slow or fail.",
  ["configurations","fault_sequences","schedules"],"All generated chains (nested, with maps, null loaders, simulated hosts), any document placement, any fault on any member.",
  "There is no test of chained loaders.",
  ["crates/core/src/loader/chain.rs","crates/core/src/loader/map.rs","crates/core/src/loader/none.rs","crates/core/src/loader/mod.rs"],"`ChainLoader` awaits its first member, then its second upon error.")
p("C14","Flattening gathers each node exactly once",
  "Flattening gives the JSON-LD 1.1 flattened form of the expanded document: per graph one node object per subject holding the union of its types, properties and reverse properties found anywhere in the document, lists kept in order, blank nodes consistently relabelled with labels of the given generator, and no statement lost or invented; it fails only for conflicting indexes.",
  ["inputs","schedules","histories"],"All generated documents with nested, repeated, reversed, included and named-graph nodes, received through remote contexts under any latency; up to blank node renaming.",
  "Tests cover few documents, and repeated nodes across graphs are not combined with remote contexts.",
  ["crates/core/src/flattening/node_map.rs","crates/core/src/flattening/mod.rs","crates/core/src/flattening/environment.rs",PROC[0]],"Node map generation followed by a merge of graphs into the default graph.",
  [("NodeMap","per graph map from identifiers to merged nodes")])
p("C15","Blank node labels are fresh, consistent and never reused",
  "Across any history of operations sharing a blank node generator (completed, failed or abandoned), every blank label in a flattened or RDF result was issued by the generator, during that operation; two different blank nodes never share a label, one blank node keeps a single label within a result, and results of different operations share no label.",
  ["histories","crash_points","schedules"],"All histories of flatten and to-RDF operations over a shared generator, with failures and abandoned operations in between.",
  "Tests relabel one document at a time with a fresh generator.",
  ["crates/core/src/flattening/environment.rs","crates/core/src/rdf/mod.rs","crates/core/src/rdf/quad.rs",PROC[0]],"The relabelling environment maps each source label to one generated label.")
p("C16","RDF conversion yields the dataset of the document",
  "Converting a document to RDF yields exactly the dataset the JSON-LD 1.1 algorithms define, up to blank node renaming: named graphs, types, typed, language-tagged and direction-tagged literals under each direction option, numbers and booleans in canonical form, well-formed connected lists, and generalized triples only upon request; terms that are not valid RDF are left out without damaging others.",
  ["inputs","configurations","schedules"],"All generated documents and direction and generalized-RDF options, received through remote contexts under any latency.",
  "Tests convert few documents and no directional strings, nested lists or damaged list items.",
  ["crates/core/src/rdf/mod.rs","crates/core/src/rdf/quad.rs","crates/core/src/quad.rs",PROC[0]],"Quads of the node map are translated one by one, lists and compound literals through an explicit stack.")
p("C17","Compaction loses nothing",
  "Compacting a document with a context and expanding the result with that context gives back the expanded document: no value, type, language, direction, index, list order, graph or identifier is lost, changed or moved, whatever terms, containers, prefixes, scoped contexts and compaction options are used and whatever the delay of the remote contexts involved.",
  ["inputs","configurations","schedules"],"All generated pairs of documents and compaction contexts, all compaction options, remote compaction contexts and scoped contexts.",
  "Tests compact few documents against a fixed expected output.",
  ["crates/compaction/src/iri.rs","crates/compaction/src/node.rs","crates/compaction/src/property.rs","crates/compaction/src/value.rs","crates/compaction/src/lib.rs","crates/compaction/src/document.rs","crates/core/src/context/inverse.rs"],"The inverse context selects the term and container that can represent each value.")
p("C18","Comparison tells whether two documents mean the same",
  "Comparing two documents fetched from anywhere answers true exactly if they have the same entries up to the order of array items and their expanded forms are equal up to the order of unordered values; it is reflexive and symmetric, sees any change of a value, type, language, list order, graph or of the contexts and base URLs that give the entries their meaning, and fails only if a load or an expansion fails.",
  ["inputs","schedules","fault_sequences"],"All generated pairs: identical, reshuffled, re-contextualised and mutated documents; latencies and load faults.",
  "Tests never call the comparison on documents with remote contexts.",
  [PROC[0],"crates/core/src/document/expanded.rs","crates/core/src/object/mod.rs","crates/core/src/object/node/mod.rs"],"Both inputs are expanded and compared as unordered sets of objects.")
p("C19","Hostile servers cannot crash or hang the processor",
  "Whatever JSON a server delivers as document or context (damaged, truncated to another valid JSON value, wrongly typed, with keywords in wrong places, swapped with another page, mutated between two requests), every operation ends with a result or an error, without panicking, aborting, hanging or exhausting its requests.",
  ["inputs","fault_sequences","schedules"],"All mutations of generated webs, all operation kinds and options, mutations appearing between two requests of the same URL.",
  "Tests use well-formed inputs; no test feeds damaged remote contexts to compaction, flattening or RDF conversion.",
  CTX+EXP+["crates/compaction/src/property.rs","crates/compaction/src/node.rs","crates/core/src/flattening/node_map.rs","crates/core/src/rdf/mod.rs","crates/syntax/src/context/try_from_json.rs"],"Every malformed construct has an error code; nothing is unwrapped on input-dependent paths.")
p("C20","Results do not depend on hash randomisation",
  "The outcome of an operation (result up to the order of unordered collections and the names of generated blank nodes, error code, and the requests made) is the same in every process: it does not depend on the random keys of hash maps.",
  ["schedules","inputs","configurations"],"All generated operations, each run under several hash keys and schedules.",
  "Tests run under one random key and compare with a fixed expectation; an order-dependent choice fails only for some keys.",
  ["crates/core/src/context/inverse.rs","crates/core/src/context/definition.rs","crates/compaction/src/iri.rs","crates/core/src/flattening/node_map.rs","crates/expansion/src/node.rs"],"Choices made while iterating over hash maps are order-independent or sorted.")
p("C21","Vocabularies and their history are transparent",
  "An operation gives the same result with no vocabulary, with a fresh interning vocabulary and with one that earlier operations (successful, failed or abandoned) have filled with any IRIs, blank labels and literals; identifiers decoded through the vocabulary are those of the document.",
  ["histories","configurations","schedules"],"All histories of operations over a shared vocabulary compared to the same operations without vocabulary.",
  "Tests use one vocabulary per document.",
  PROC+CTX[2:3]+["crates/core/src/id.rs","crates/core/src/loader/mod.rs","crates/core/src/rdf/mod.rs"],"Identifiers are interned by the vocabulary and only decoded for output and resolution.")
p("C22","References are resolved against where a document came from",
  "Relative identifiers of a document are resolved against its final URL after redirections, unless the caller's base or an `@base` in force overrides it, and `@base` is ignored in remote contexts; references to contexts, `@import`s, `Link` contexts and scoped contexts are resolved against the final URL of the document in which they are written, even when used later from another document.",
  ["inputs","configurations","schedules"],"All generated webs with relative references at every level, redirected pages in other directories and hosts, base options and in-place `@base` changes.",
  "Tests use absolute references or a single directory, and no redirects.",
  PROC+CTX[:3]+["crates/core/src/context/mod.rs","crates/core/src/context/definition.rs"],"Base URLs travel with contexts and are stored in term definitions with scoped contexts.",
  [("base_url","URL of the document in which a context or definition is written")])
p("C23","Invalid remote contexts and documents are rejected for the right reason",
  "A document or context that violates the JSON-LD 1.1 grammar at some place is rejected with the error code the specification assigns to that violation, wherever it is served from and whatever else is loaded before or after; a valid one is never rejected.",
  ["inputs","schedules","configurations"],"All single violations (wrong type or value of each keyword, colliding keywords, cyclic definitions, invalid mappings, containers, nest, prefix, reverse, index and language values) at random places of generated webs.",
  "Tests cover some error codes once, in place, never in remote or scoped contexts.",
  CTX+EXP+["crates/syntax/src/context/try_from_json.rs","crates/syntax/src/error.rs"],"Each check of the algorithms maps to one error variant with its code.")
p("C24","Compaction chooses the forms the specification prescribes",
  "Compacting a document yields exactly the compacted document the JSON-LD 1.1 algorithms define, up to the order of unordered values: terms chosen by value type, language, direction and container, then compact IRIs, vocabulary-relative and base-relative forms; index, language, id, type and graph maps; nesting and reverse terms; and the effect of each option.",
  ["inputs","configurations","schedules"],"All generated pairs of documents and contexts, all options, remote and scoped contexts under any latency.",
  "Tests compact few documents; term selection depends on the combination of all definitions.",
  ["crates/compaction/src/iri.rs","crates/compaction/src/node.rs","crates/compaction/src/property.rs","crates/compaction/src/value.rs","crates/compaction/src/lib.rs","crates/compaction/src/document.rs","crates/core/src/context/inverse.rs"],"Inverse context creation, term selection and value compaction.")
p("C25","Expansion policies decide what happens to undefined keys and types",
  "Under an expansion policy, a property, type or vocabulary-relative value which only has a meaning through the vocabulary mapping is kept, dropped or makes the operation fail as `vocab` says, a property or type which does not expand to an identifier as `invalid` says, and an undefined property makes the operation fail if `allow_undefined` is false; nothing else is affected (terms defined by any context in force, local or remote, compact and absolute IRIs, keywords, identifiers, language tags, index keys), and the same policy rules all kinds of operations.",
  ["inputs","configurations","schedules"],"All policies, over all generated webs and documents with undefined and malformed keys and types.",
  "Tests never set a policy.",
  ["crates/expansion/src/element.rs","crates/expansion/src/node.rs","crates/expansion/src/literal.rs","crates/expansion/src/value.rs","crates/expansion/src/options.rs","crates/context-processing/src/algorithm/iri.rs",PROC[0]],"The policy is consulted wherever a key or type of the document is expanded.")
p("C26","Expanded documents in memory keep what they say through every operation on them",
  "Whatever sequence of operations is applied to an expanded document in memory (identifying or relabelling its blank nodes with a generator, canonicalising its literals, renaming identifiers, converting it to JSON and reading it back), the document says the same after each, up to what the operation is for: fresh labels replace exactly the blank identifiers consistently (and none is given twice, also when concurrent operations share a generator), canonical literals have canonical numbers and key order, identifiers are renamed everywhere and nowhere else, JSON that is read back gives an equal document, and JSON which is not an expanded document is refused or read without loss; traversals, counts, blank and other identifiers and the main node which a document reports are those of its JSON.",
  ["inputs","histories","schedules"],"All histories of operations over documents expanded from generated webs or given expanded, by several clients sharing a generator.",
  "Tests call almost none of these operations.",
  ["crates/core/src/document/expanded.rs","crates/core/src/object/mod.rs","crates/core/src/object/node/mod.rs","crates/core/src/object/list.rs","crates/core/src/object/value.rs","crates/core/src/id.rs","crates/core/src/indexed.rs"],"Mutating operations and conversions of expanded documents.")
p("C27","Quads become a document of the same dataset, in whatever order they arrive",
  "Reading a dataset's quads into an expanded document gives a document whose RDF dataset is that dataset (up to blank node labels), whatever the order in which the quads arrive and however often each is repeated: no statement is lost or changed, including those on nodes that reference themselves or each other in cycles, nodes used as types, graph names, parts of well-formed or malformed lists, and typed, native, language-tagged and JSON literals. It fails only on literals of native or JSON type whose lexical form JSON cannot express.",
  ["inputs","orders and duplications of delivery","schedules"],"All generated datasets, and those of documents of generated webs, delivered in random orders with duplicates, alongside other operations.",
  "Tests have no case of this conversion.",
  ["crates/core/src/serialization.rs","crates/core/src/rdf/mod.rs"],"Construction of expanded documents from interpreted quads.")
p("C28","Expanded documents are linked data, and serialize back",
  "Visiting an expanded document through the linked-data interface gives exactly the statements of its RDF dataset, and serializing linked data to an expanded document gives a document with the same statements: nested nodes, reverse properties, included nodes, graphs inside nodes, types, lists of lists, empty lists, typed, tagged and native literals included, whatever documents and contexts the content was loaded from, and also when concurrent operations share the generator which names the anonymous nodes.",
  ["inputs","histories","schedules","faults while loading"],"All documents expanded from generated webs or given expanded, by several clients sharing a generator.",
  "Tests serialize a few fixed values and never visit a document.",
  ["crates/core/src/deserialization/mod.rs","crates/core/src/deserialization/object/mod.rs","crates/core/src/deserialization/object/node.rs","crates/core/src/deserialization/object/list.rs","crates/core/src/deserialization/object/value.rs","crates/serialization/src/lib.rs","crates/serialization/src/expanded/object.rs","crates/serialization/src/expanded/node.rs","crates/serialization/src/expanded/property.rs","crates/serialization/src/expanded/value.rs","crates/serialization/src/expanded/default_graph.rs","crates/serialization/src/expanded/graph.rs"],"Implementations of the linked-data traits for the types of expanded documents, and visitors which build them.")
# not applicable to deterministic simulation
p("C30","Contexts survive parsing and printing",
  "Parsing a local context and printing it back gives an equivalent context.",
  ["inputs"],"All local contexts.","Tests parse a few contexts.",
  ["crates/syntax/src/context/try_from_json.rs","crates/syntax/src/into_json.rs","crates/syntax/src/context/print.rs"],"Conversions from and to JSON values.")
p("C32","Language tags compare case-insensitively",
  "Two language tags that differ only by case are equal, hash equally and compare equally.",
  ["inputs"],"All strings.","Few examples.",
  ["crates/core/src/lang_string.rs"],"Case-folding comparison.")
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import sys
for x in P:
    for a in x["anchors"]["files"]:
        if not os.path.exists("/repo/"+a): print("missing anchor",x["id"],a,file=sys.stderr)
