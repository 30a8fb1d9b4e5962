#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
A="crates/analyzer/src/"; I="crates/ir/src/"; L="crates/lsp-server/src/"
P=[]
def p(id,title,statement,over,q,why,files,mech,obs,state=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=mech,state=state or [],observe_at=obs,hook_needed=False)))

p("D01","Valid ink! code is never flagged",
 "For every Rust source file whose ink! entities satisfy all rules of the selected ink! version (4 or 5), the analyzer reports no diagnostics at all. This holds however the entities are named, combined, ordered, nested in modules, annotated in one or several attributes, or laid out.",
 ["programs","configurations"],"all valid ink! 4 and ink! 5 programs, in every attribute spelling and layout",
 "Unit tests check a few fixed snippets and fixture contracts; the space of valid programs (attribute combinations, selectors, traits, chain extensions, environments, events) is unbounded.",
 [A+"analysis/diagnostics.rs",A+"analysis/diagnostics/",I+"attrs/"],["rule modules under diagnostics/ each of which must stay silent on conforming items"],"result of the diagnostics query on a source text")
p("D02","Contract-structure violations are reported",
 "Whenever a contract breaks a structural rule - it is not an inline module, does not have exactly one storage item, has no constructor or no message, a file has more than one contract, or an ink! item sits outside the scope in which it is allowed - the analyzer reports at least one error located on the offending item (or its attribute). No diagnostic is reported on the items that still conform.",
 ["programs"],"all programs obtained from valid ones by breaking one structural rule, at any place and next to any other items",
 "Tests exercise each rule on one or two hand-written modules; not in combination with other entities, attribute spellings or nesting.",
 [A+"analysis/diagnostics/contract.rs",A+"analysis/diagnostics/file.rs",A+"analysis/diagnostics/common.rs"],["cardinality checks on contract members","quasi-direct-descendant scope checks"],"result of the diagnostics query")
p("D03","Constructor and message violations are reported",
 "Whenever a constructor or message is not a plain public (or inherited-visibility, in a trait implementation) method of the required form - generic, const, async, unsafe, extern, variadic, wrong visibility, a constructor with a receiver or without a return type, a message without a self reference or returning the storage type itself, or placed outside an implementation block - the analyzer reports at least one error located on that function. The other functions of the program are not flagged.",
 ["programs"],"all valid programs with one callable broken in one way",
 "Tests sample a handful of signatures per rule.",
 [A+"analysis/diagnostics/contract/constructor.rs",A+"analysis/diagnostics/message.rs",A+"analysis/diagnostics/common.rs"],["callable invariants shared by constructors and messages"],"result of the diagnostics query")
p("D04","Storage, event and storage-item violations are reported",
 "Whenever a storage item, event, event topic or ink! storage type breaks one of its rules - not a struct (or, for storage types, not a struct, enum or union), not public, generic where generics are forbidden, placed outside the scope it needs, topic attributes on something that is not an event field, or conditional fields in an event - the analyzer reports at least one error located on that item. Conforming items stay unflagged.",
 ["programs"],"all valid programs with one storage/event/topic/storage-type declaration broken in one way",
 "Tests sample a few structs per rule.",
 [A+"analysis/diagnostics/contract/storage.rs",A+"analysis/diagnostics/event.rs",A+"analysis/diagnostics/event/",A+"analysis/diagnostics/storage_item.rs"],["struct invariants and descendant attribute checks"],"result of the diagnostics query")
p("D05","Trait-definition and implementation violations are reported",
 "Whenever an ink! trait definition breaks one of its rules (not a public plain trait, generic, supertraits, items other than messages, default bodies, wildcard selectors, no message at all) or an implementation of it deviates from it (missing, extra or differently typed method, differing payable, default or selector flags) or an ink! implementation block itself is malformed (generic, unsafe, default, wrong visibility for its kind, namespace on a trait implementation), the analyzer reports at least one error located on the offending item. Conforming definitions and implementations stay unflagged.",
 ["programs"],"all valid programs with one trait definition or implementation block broken in one way",
 "Tests sample a few traits and implementations per rule.",
 [A+"analysis/diagnostics/trait_definition.rs",A+"analysis/diagnostics/contract/ink_impl.rs"],["comparison of implementation methods with the declared ones"],"result of the diagnostics query")
p("D06","Chain-extension violations are reported",
 "Whenever a chain extension breaks one of its rules - not a public plain trait, missing or malformed error code type, an item that is not an extension function, a receiver or default body, duplicate function identifiers, or (ink! 5) a missing extension identifier - the analyzer reports at least one error located on the offending item. Conforming chain extensions stay unflagged.",
 ["programs","configurations"],"all valid programs with one chain extension broken in one way, in both ink! versions",
 "Tests sample a few traits per rule.",
 [A+"analysis/diagnostics/chain_extension.rs",A+"analysis/diagnostics/chain_extension/"],["extension function and error code checks"],"result of the diagnostics query")
p("D07","Malformed or misplaced ink! attributes are reported",
 "Every ink! attribute or argument that is unknown, duplicated, conflicting with its siblings, applied to the wrong kind of item, given a missing, superfluous or malformed value, or not available in the selected ink! version is reported by a diagnostic located on it or on the item it annotates. An attribute that is well-formed for its item, scope and version is not reported.",
 ["programs","configurations"],"all combinations of ink! attribute, arguments, values, item kind and ink! version",
 "The combinations of attribute, argument, value form, item kind and version number in the thousands; tests sample some.",
 [A+"analysis/diagnostics/common.rs",A+"analysis/utils.rs",I+"attrs.rs",I+"attrs/args.rs",I+"attrs/parser.rs",I+"attrs/meta/value.rs"],["generic attribute diagnostics","argument value validation"],"result of the diagnostics query")
p("D08","Selectors are computed correctly and every clash is reported",
 "The selector attributed to a constructor or message is its explicit integer if one is given, the reserved wildcard-complement value for `@`, and otherwise the first four bytes of the BLAKE2b-256 hash of its namespace, trait and function names joined by `::`. Two constructors, or two messages, of a contract with the same selector (and a second wildcard selector of a kind) are always reported as an error, and distinct selectors never are.",
 ["programs"],"all contracts, names, namespaces, implemented traits and explicit selector values",
 "Tests fix a few names and values; clashes between computed and explicit selectors, radixes, namespaces and traits form an unbounded space.",
 [I+"selector.rs",I+"traits/shared.rs",A+"analysis/diagnostics/contract.rs"],["selector composition","overlap detection"],"selector of a callable in the analyzer's entity model; diagnostics query")
p("D09","Analysis depends on the code, not on its layout",
 "Two sources that differ only in whitespace, line endings and comments between tokens get the same diagnostics, hover texts, inlay hints and signature help, attached to the same tokens. Adding unrelated plain Rust items to a file does not change the diagnostics of its ink! items.",
 ["programs"],"all programs and all re-layouts of them",
 "A relation between pairs of inputs; no test compares two layouts.",
 [A+"analysis/",I+"attrs/parser.rs",I+"tree/"],["token-tree argument parsing that skips trivia","range computation of items and attributes"],"results of the diagnostics, hover, inlay-hint and signature-help queries")
p("D10","References are followed the way Rust follows them",
 "The items that ink! entities refer to - the trait definition that an implementation names, the environment of a contract, the error code type of a chain extension, the codec and status code traits of the types involved - are found however the reference is spelled: by a relative path or one starting with crate, self or super, through nested modules, through imports (single, grouped, glob, renamed or re-exported) or a type alias. Programs that differ only in the spelling of such references get the same diagnostics, and an equally named item elsewhere is not taken for the one referred to.",
 ["programs"],"all module trees, imports, aliases and spellings of references",
 "Tests resolve a handful of fixed paths.",
 [A+"resolution.rs",I+"tree/ast_ext.rs",A+"analysis/trait_definition.rs",A+"analysis/chain_extension.rs"],["path resolution through modules, imports and aliases"],"results of the diagnostics query")
p("I01","Every ink! entity is recognised exactly once",
 "For every source, the entity model lists each ink!-annotated item exactly once, under its kind, in source order, attached to its enclosing ink! item (members of contracts, topics of events, messages of traits, functions of chain extensions), with its arguments and values as written. Items that carry no ink! attribute are not listed, except implementation blocks that contain constructors or messages or implement an ink! trait definition.",
 ["programs"],"all programs, nestings, attribute spellings and argument orders",
 "Tests count entities in a few snippets.",
 [I+"file.rs",I+"contract.rs",I+"event.rs",I+"trait_definition.rs",I+"chain_extension.rs",I+"ink_impl.rs",I+"tree/","crates/macro/src/entity.rs"],["closest-descendant traversal","attribute casting"],"public entity accessors of the parsed file")
p("E01","Attribute completions offer exactly what is valid",
 "With the cursor in an ink! attribute, the suggestions are exactly the attribute macros or arguments that are valid for the annotated item, its enclosing ink! scope and the ink! version, that do not conflict with or duplicate what is already there, and that match the typed prefix. Accepting a suggestion inserts exactly that macro or argument (with a well-formed placeholder value where one is required) at the cursor and changes nothing else.",
 ["programs","inputs","configurations"],"all attributes, item kinds, scopes, versions, existing arguments and typed prefixes",
 "Tests sample a few cursor positions in fixed snippets.",
 [A+"analysis/completions.rs",A+"analysis/utils.rs",I+"tree/item_at_offset.rs"],["suggestion tables filtered by siblings, scope and prefix"],"result of the completions query; text after applying its edit")
p("E02","Attribute code actions offer exactly what is valid",
 "For a selection on the declaration or an ink! attribute of an item, the offered `add attribute` and `add argument` actions are exactly the macros and arguments that the item, its scope and the ink! version allow and that are not present yet. Applying one leaves every existing attribute and argument in place and adds the named one in well-formed syntax; flattening attributes keeps the set of arguments unchanged.",
 ["programs","inputs","configurations"],"all items, attributes, scopes, versions and selections",
 "Tests sample fixed snippets.",
 [A+"analysis/actions/attr.rs",A+"analysis/actions/item.rs",A+"analysis/utils.rs"],["suggestion tables filtered by siblings and scope","insert offset and affix computation"],"result of the code-actions query; text after applying its edits")
p("E03","Inserting an ink! entity adds exactly that entity",
 "Every suggestion (completion or code action) that adds an ink! entity - contract, storage, event, topic, constructor, message, error code, extension, test, trait definition, storage item, chain extension - produces, when applied, code that parses and contains exactly that one additional entity in the place the cursor indicates. All existing entities and their code are preserved, and the new one gets a name and an identifier that its siblings do not use. On an empty line of a contract, implementation, trait definition, chain extension, event, test module or file, and on the declaration of one, exactly the entities that can be added there are offered; elsewhere none is.",
 ["programs","inputs"],"all programs and all cursor positions at which an entity is offered",
 "Tests compare a few fixed outputs.",
 [A+"analysis/actions/entity.rs",A+"analysis/text_edit.rs",A+"analysis/text_edit/common.rs",A+"analysis/completions.rs",A+"codegen/snippets.rs"],["insert offset computation","affix formatting of edits"],"text after applying the edits of completions and code actions")
p("E04","Hover documents exactly the attribute under the cursor",
 "Hovering any position inside an ink! attribute yields documentation of the argument under the cursor, or of the attribute itself elsewhere in it, for the selected ink! version, with the range of that argument's or macro's name. Hovering anywhere else, or on an unknown attribute or argument, yields nothing.",
 ["programs","inputs","configurations"],"all attributes and arguments, all positions and selections, both versions",
 "Tests sample single positions.",
 [A+"analysis/hover.rs",A+"analysis/hover/"],["attribute and argument lookup by range"],"result of the hover query")
p("E05","Inlay hints label exactly the valued arguments",
 "Every ink! attribute argument that takes a value, wherever it is nested, gets exactly one inlay hint that names the value type the selected ink! version expects, positioned right after the argument's name; no other hint is shown. Restricting the query to a range yields exactly the hints of the arguments inside that range.",
 ["programs","inputs","configurations"],"all programs, argument combinations, query ranges and versions",
 "Tests sample single attributes.",
 [A+"analysis/inlay_hints.rs",I+"attrs/args.rs"],["value kind per argument and version"],"result of the inlay-hints query")
p("E06","Signature help describes the arguments in reach",
 "With the cursor between the parentheses of an ink! attribute, signature help lists the arguments that can appear together in that attribute for the item and ink! version, each parameter range delimits exactly its text in the label, and the active parameter is the argument under the cursor. Outside the parentheses of ink! attributes nothing is shown.",
 ["programs","inputs","configurations"],"all attributes, cursor positions, item kinds and versions",
 "Tests sample single positions.",
 [A+"analysis/signature_help.rs",A+"analysis/utils.rs"],["signature assembly per attribute kind"],"result of the signature-help query")
p("F01","Quick fixes repair what they claim to repair",
 "Applying any quick fix offered with a diagnostic yields code without new syntax errors in which that diagnostic is gone. The fix removes code only from the flagged item, and a fix that moves an item moves it completely.",
 ["programs"],"all programs with diagnostics and all quick fixes offered for them",
 "Tests compare the edits of a few quick fixes textually; whether the diagnostic disappears is not checked.",
 [A+"analysis/diagnostics/",A+"analysis/text_edit.rs"],["quick fixes attached to diagnostics"],"diagnostics query before and after applying the fix")
p("F02","Every returned range and edit is well-formed",
 "For every source text (valid or broken, any Unicode) and position, all ranges returned by any query lie inside the text on character boundaries, and the edits of one action, completion, fix or migration never overlap. Each snippet variant of an edit, with its tab stops resolved to their defaults, equals the plain text of that edit.",
 ["inputs"],"all source texts and all positions or selections in them",
 "Requires all inputs; tests never look at broken or non-ASCII sources for these features.",
 [A+"analysis/text_edit.rs",A+"analysis/text_edit/common.rs",A+"codegen/snippets.rs",A+"analysis/utils.rs"],["range arithmetic","parallel construction of text and snippet"],"results of all queries")
p("M01","Migration turns valid ink! 4 code into equivalent ink! 5 code",
 "Applying the migration edits to any valid ink! 4 source yields code that parses, has no ink! 5 diagnostics, and differs from the original only by the documented changes: events become standalone event items imported by the contract, chain extensions get an identifier and their functions become `function`, SCALE derives become one ink! derive attribute per type, versioned call methods are renamed and end-to-end tests use the new client interface. No event, topic, argument, derive, identifier or statement is lost, duplicated or reordered.",
 ["programs"],"all valid ink! 4 programs",
 "Tests migrate a few fixed snippets; interactions (several events, mixed derives, nested calls, several contracts' members) are open-ended.",
 [A+"analysis/migrate.rs",A+"analysis/migrate/"],["edit collection over the syntax tree"],"text after applying the migration edits")
p("M02","Event extraction moves exactly one event",
 "Extracting an event yields a standalone definition with the same name, fields, topics, comments, non-ink! attributes and anonymity or signature, an edit that removes exactly that definition from the source, and an import position inside the module that contained it. Anything that is not an event is never extracted.",
 ["programs","inputs"],"all ink! 5 programs, events and selections",
 "Tests extract a few fixed events.",
 [A+"analysis/extract.rs",L+"dispatch/handlers/command.rs"],["event item reconstruction","removal edit"],"result of the extract query; workspace edit of the extract command")
p("M03","New projects are valid contracts, and only for valid names",
 "Creating a project succeeds exactly for names that consist of alphanumeric characters, underscores and hyphens and start with a letter; whenever the resulting module name is a Rust identifier, the created contract source parses, has no diagnostics for its ink! version and uses names derived from the project name consistently, and the manifest is valid TOML for a package of that name depending on that ink! version. The server places the files under the requested root and reports an error instead of creating anything for an invalid name.",
 ["inputs","configurations"],"all names, roots and ink! versions",
 "Tests use a few names.",
 [A+"codegen.rs",A+"codegen/snippets.rs",L+"dispatch/handlers/command.rs"],["name substitution in templates"],"new-project result; workspace edit of the create command")
p("L01","Each request gets exactly one correct response, and the server survives",
 "In every session, every request gets exactly one response carrying its id, in request order: a result for supported methods, `method not found` for unknown ones, `invalid params` for malformed parameters and `internal error` when it cannot be served; notifications get none. No message - unknown, malformed, stale or addressed to unknown documents - ends the session or changes later answers; only exit (after a shutdown or not) ends it.",
 ["histories","inputs","fault_sequences"],"all sequences of client messages, well-formed or not",
 "Tests send one scripted request at a time to an in-memory server.",
 [L+"dispatch.rs",L+"dispatch/routers/",L+"lib.rs"],["request router","notification router","main loop"],"message stream between client and server process")
p("L02","Answers always reflect the latest document content",
 "At any point of a session, the answer to a request about a document equals the answer the analyzer gives for the most recently opened or changed content of that document, independent of other documents and of the history before it. Documents that are not open (never opened, closed, or not Rust) are answered with an empty result.",
 ["histories"],"all interleavings of open, change, close and requests over any number of documents",
 "Tests use one document and at most one change.",
 [L+"memory.rs",L+"dispatch.rs",L+"dispatch/handlers/"],["document store","snapshot used per request"],"message stream between client and server process; analyzer queries on the modelled content",
 [dict(name="documents",meaning="content and version of each open document")])
p("L03","Diagnostics are published exactly once per change",
 "Every open or effective change of a Rust document is followed by exactly one diagnostics publication for that document with its new version and exactly the diagnostics of its new content, and closing an open document by exactly one empty publication. No other publications occur, and the last publication for a document always describes its current content.",
 ["histories"],"all interleavings of open, change, close and requests over any number of documents",
 "Tests check a single open or change.",
 [L+"dispatch.rs",L+"memory.rs",L+"dispatch/handlers/notification.rs"],["change set drained into publications"],"publishDiagnostics notifications in the message stream")
p("L04","Positions follow the negotiated encoding",
 "The server picks a position encoding the client supports (UTF-16 when the client states none) and every position it receives or sends - in requests, diagnostics, edits, hints, hovers, actions and label offsets - is in that encoding. The same session under different encodings therefore denotes the same text ranges, for any Unicode content.",
 ["inputs","configurations"],"all document contents, positions and offered encodings",
 "Tests use ASCII documents.",
 [L+"translator/",L+"utils.rs",L+"initialize.rs"],["position translation with a line index"],"message stream between client and server process")
p("L05","Responses respect the client's declared capabilities",
 "Whatever capabilities the client declares, the server announces a consistent set of its own and only uses what the client supports: snippets only with snippet support, only code action kinds the client accepts are announced, edits are left to be resolved later only when the client can resolve them, label offsets and active parameters only when supported, and edit or file creation requests only when the client can apply them. With less support the same information is delivered in the plain form.",
 ["configurations"],"all combinations of client capabilities",
 "Tests use a few fixed capability sets.",
 [L+"initialize.rs",L+"utils.rs",L+"translator/to_lsp.rs",L+"dispatch/actions.rs"],["capability queries at translation time"],"initialize result and message stream")
p("L06","Project commands produce complete and correct workspace edits",
 "The create, migrate and extract commands answer the request and, when the client supports it, send exactly one edit request whose application to the workspace yields the promised state: a new project, a source and manifest upgraded to ink! 5 with all unrelated manifest content preserved, or a new event package with its manifest, the dependency and import added and the original definition removed. Nothing outside the files involved is touched, no existing directory is overwritten, and failures are reported as errors without any edit.",
 ["inputs","histories","configurations"],"all project layouts, manifests, sources and command arguments",
 "Tests run each command on one fixture.",
 [L+"dispatch/handlers/command.rs",L+"dispatch.rs",L+"utils.rs"],["command handlers","manifest rewriting"],"applyEdit requests in the message stream, applied to a scratch workspace")
p("L07","The ink! version is taken from the project manifest",
 "Each document is analysed under the ink! version declared by the nearest manifest that governs it: 5 when its ink! dependency (direct, through the workspace, or an unversioned path or git dependency) is a 5.x requirement, 4 otherwise. The choice is the same for all requests on a document and follows the manifest after a migration or re-opening.",
 ["inputs","histories","configurations"],"all manifest contents, dependency forms and directory layouts",
 "Tests cover the parsing of a few version strings only.",
 [L+"utils.rs",L+"memory.rs",L+"dispatch.rs"],["manifest lookup and version requirement matching"],"version-dependent answers in the message stream")
p("R01","No input makes the analyzer or server crash or hang",
 "For every text and every position or selection inside it, all queries return; and for every message a client can send with any document content and any position, the server keeps running and answers. Neither panics, aborts, overflows the stack on reasonably nested input, nor fails to terminate.",
 ["inputs","histories","fault_sequences"],"all texts (including incomplete and non-ASCII code), positions, selections and requests",
 "Requires all inputs; tests use small well-formed snippets.",
 [A+"analysis/",I+"",L+"dispatch/"],["unchecked slicing, indexing, expectations and recursion anywhere in the analysis"],"process exit status, panics, CPU time of queries and server")
p("R02","Analysis results are deterministic",
 "The same text, position and ink! version always give the same results in the same order: repeated queries, fresh instances, other threads, other processes and any earlier queries make no difference.",
 ["histories","schedules","inputs"],"all inputs, repetitions, query orders, threads and processes",
 "Tests run each query once; hash-seed dependent orders differ only between maps or processes.",
 [A+"analysis/",A+"analysis/migrate.rs",A+"analysis/migrate/e2e_test.rs",L+"initialize.rs"],["hash-based collections feeding ordered results"],"results of all queries and server responses across repetitions")
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
open(out,"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
