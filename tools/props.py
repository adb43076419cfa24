CORE = "atelier-core/src/"
M = CORE + "model/"
EX = "The existing tests check a handful of fixed examples; "

prop("P01", "Shape-id text: exactly the specified grammar, and printing inverts parsing",
 "A text is accepted as an identifier, a namespace or a shape id exactly when it matches the Smithy 1.0 grammar for it. What is accepted prints back as the same text and splits into the namespace, shape and member parts the grammar gives it. Ids derived from another id (its member, its shape, a sibling) are the ones their parts spell and parse back to themselves.",
 "every text, including any Unicode text near the edges of the grammar, and every id derived from a valid one",
 EX + "acceptance and rejection must be right for every text.",
 [M + "identity.rs", "atelier-core/src/syntax.rs"], [("recognisers and component splitting", M + "identity.rs"), ("derived ids", M + "identity.rs")],
 tech="edited grammar-derived text against a hand-written recogniser of the ABNF", note="Oracle: an independent recogniser.")

prop("P02", "Ids are compared without regard to case, consistently",
 "Two ids (and two namespaces, and two names) are equal exactly when they differ at most in letter case. Hashing and ordering agree with that equality, and ordering is a total order, so a map keyed by ids finds an entry under any re-cased spelling of its key. An id still prints in the case it was given.",
 "all sets of ids and re-cased copies of them, all pairs and triples",
 EX + "no test compares hashes or orders of re-cased ids.",
 [M + "identity.rs"], [("equality, ordering and hashing of identifiers and namespaces", M + "identity.rs")],
 tech="algebraic laws over sets of ids and re-cased copies", note="Oracle: case-folded text.")

prop("P03", "A model answers every query as the map it stands for",
 "After any sequence of additions, removals and replacements, what a model, shape, structure, service, operation or resource reports - presence, lookup, iteration, counts, namespaces, completeness - is what a plain map with the same history holds. A model is complete exactly when it holds no unresolved reference. A shape with a member id is refused unless it is an unresolved reference.",
 "all histories of up to 20 operations on models and on the collections inside shapes",
 EX + "several presence queries had no test at all.",
 [M + "mod.rs", M + "shapes/aggregate.rs", M + "shapes/service.rs", M + "shapes/mod.rs"],
 [("shape and metadata collections", M + "mod.rs"), ("member collections", M + "shapes/aggregate.rs"), ("generated collection accessors", CORE + "macros.rs")],
 over=("histories",), tech="stateful, model-based: histories against a reference map", note="Oracle: a reference map compared after every step.")

prop("P04", "Two definitions of one shape merge by the published rules, or conflict",
 "Adding a second definition of a shape succeeds exactly when both have the same type and the same members or properties with the same targets, or when one of them is only a forward reference. The result has that body and the traits of both, on the shape and on each of its members, reconciled by trait conflict resolution. Otherwise it is reported as a conflict of the right kind; it is never silently dropped and never a crash.",
 "all pairs and triples of definitions of one shape",
 EX + "they only compare shapes with equal member names, and none with traits on members.",
 [M + "mod.rs", M + "shapes/mod.rs"], [("add with conflict resolution", M + "mod.rs"), ("structural equality without traits", M + "shapes/mod.rs")],
 tech="generated variants of a definition against reference merge rules", note="Oracle: the quoted Smithy merge rules restated in the harness.")

prop("P05", "Applying a trait twice follows trait conflict resolution",
 "Applying a trait that is already applied concatenates the values if both are arrays, changes nothing if the values are equal, and is otherwise refused without changing anything. A trait not yet applied is simply added, a removed trait is gone, and a member id is never accepted as a trait.",
 "all sequences of single and batch applications and removals on shapes and members",
 EX + "they apply a trait at most twice with fixed values.",
 [M + "shapes/mod.rs"], [("apply with value; merge of trait values", M + "shapes/mod.rs")],
 over=("histories", "inputs"), tech="stateful, model-based: application histories against a reference", note="Oracle: reference trait map.")

prop("P06", "Merging models follows the rules and does not depend on order",
 "Merging models yields the union of their shapes and metadata, with shapes met twice reconciled by the shape and trait rules and metadata met twice concatenated if both are arrays, kept if equal, and otherwise a conflict. Merging the same models in another order succeeds or fails alike and gives the same model up to the order of concatenated arrays.",
 "all groups of two or three models with overlapping ids and metadata keys, in every order",
 EX + "no test merges whole models with overlapping content.",
 [M + "mod.rs"], [("merge; metadata merge", M + "mod.rs")],
 tech="reference merge plus an order-permutation (metamorphic) relation", note="Oracle: reference merge and permutation.")

B = CORE + "builder/"
prop("P07", "Builder: what the calls say, however names are spelled",
 "A model built through the builder holds exactly the shapes, members, traits and metadata the calls name. Imported names, local names, full ids and prelude names resolve by the documented rules, wherever a name is used, in any case, and in whatever order shapes and traits are declared. A conflict of definitions or traits is reported by the conversion into a model and nothing of them is lost or overwritten silently; metadata set again is replaced.",
 "all sequences of uses, definitions, trait applications and metadata over a small pool of clashing names",
 EX + "they build one model with unambiguous names.",
 [B + "mod.rs", B + "shapes.rs"], [("name resolution and conversion", B + "mod.rs"), ("shape builders", B + "shapes.rs")],
 over=("histories", "inputs"), tech="generated call sequences against a reference name resolver", note="Oracle: reference resolution rules and reference merging.")

prop("P08", "Builder: every model can be built, through any equivalent calls",
 "Every model with one default namespace can be described through the builder, and building it yields exactly that model. Equivalent calls (a typed member constructor or a target id, a trait helper or a trait spelled out, a value builder or a value) yield the same model.",
 "all models of all shape kinds, through randomly chosen equivalent builder calls",
 EX + "most of the several hundred builder methods are not called by any test.",
 [B + "shapes.rs", B + "traits.rs", B + "values.rs"], [("shape and member builders", B + "shapes.rs"), ("trait helpers", B + "traits.rs"), ("value builders", B + "values.rs")],
 tech="round trip: generated model, to builder calls, to model", note="Oracle: the generated model.")

A = CORE + "action/"
prop("P17", "Validation of type references reports exactly the misuses",
 "The reference validator reports an error for exactly those targets (of members, of an operation's input, output and errors, of a service's and a resource's operations, resources and identifiers) whose shape is of a kind not allowed there, and a warning for those that are neither in the model nor in the prelude. A simple shape without traits is noted. Each issue names the shape it is about and nothing else is reported.",
 "all models with right, wrong, missing and unresolved targets in every position",
 EX + "they cover one wrong target per kind of shape at most.",
 [A + "validate/mod.rs"], [("correct type references", A + "validate/mod.rs")],
 tech="generated models against a reference validator", note="Oracle: the issues derived from the reference model, matched one to one.")

prop("P18", "Unresolved references: one error each, and none otherwise",
 "The unresolved-reference validator reports one error for each unresolved shape reference in a model, naming it, and no issue for any other model.",
 "all models with any number of unresolved references",
 EX + "one model is tried.",
 [A + "validate/mod.rs"], [("no unresolved references", A + "validate/mod.rs")],
 tech="generated models against a count from the reference model", note="Oracle: the reference model.")

prop("P19", "Naming linter: each badly styled name is reported with its correction",
 "The naming linter reports exactly the shape names that are not in upper camel case, the member names that are not in lower camel case and the traits that break their convention, together with the corrected name, at the shape where they occur.",
 "all models with names in any style",
 EX + "a few names in a few styles are tried.",
 [A + "lint/mod.rs"], [("naming conventions", A + "lint/mod.rs")],
 tech="generated models against a reference word splitter", note="Oracle: an independent word splitter and caser.")

prop("P20", "Unwelcome terms: each is found in every name that has one, once",
 "The unwelcome-terms linter reports each identifier (in namespaces, shapes, members, targets and applied traits) that has an unwelcome word among its words, in any naming style, once, where it occurs. Words that merely contain or resemble one are not reported.",
 "all models with unwelcome and similar-looking words in any style and place",
 EX + "a single model is tried.",
 [A + "lint/mod.rs", A + "lint/terms.rs"], [("unwelcome terms", A + "lint/mod.rs")],
 tech="generated models against a reference word search", note="Oracle: an independent word search over the reference model.")

prop("P21", "Running actions: every issue is collated, and fail-fast stops when due",
 "Running a list of linters or validators returns every issue of every action that ran, in order, and runs all of them unless asked to fail fast. With fail-fast it stops after the first action that reports a problem, and keeps what was reported up to there. An action that fails makes the run fail.",
 "all lists of actions with issues of all levels, with and without fail-fast",
 EX + "no test runs more than one scripted action.",
 [A + "lint/mod.rs", A + "validate/mod.rs", A + "mod.rs"], [("run_linter_actions", A + "lint/mod.rs"), ("run_validation_actions", A + "validate/mod.rs")],
 over=("histories",), tech="scripted actions against the script", note="Oracle: the script.")

prop("P22", "A model walk visits everything in the model once, and stops on error",
 "Walking a model calls the visitor once for each metadata value and once for each shape, by the method for its kind, with the shape's own id, traits and body. Directly after a shape comes one call for each of its members with the right name, target and traits (none for the members of services, operations and resources). The first error ends the walk and is returned.",
 "all models, with and without a member visitor, failing at any call",
 EX + "one fixed model is walked.",
 [M + "visitor.rs"], [("walk_model", M + "visitor.rs")],
 tech="generated models walked by a recording visitor", note="Oracle: the reference model.")

prop("P23", "The line-oriented form is the documented one and tells models apart",
 "The line-oriented form of a model is exactly the sorted list of lines its documentation describes, whatever order the model was built in, and writing it gives those lines. Two models have the same form only if they differ at most in what it leaves out (the order of array-valued targets, and 1 against 1.0).",
 "all models whose metadata and object keys are identifiers, built in any order, and pairs of similar models",
 EX + "they compare two fixed models.",
 [CORE + "io/lines.rs"], [("make_line_oriented_form", CORE + "io/lines.rs")],
 tech="generated models against a reference writer; pairs of similar models", note="Oracle: a reference writer following the documented productions.")

J = "atelier-json/src/"
prop("P09", "Writing a model as JSON and reading it back gives the same model",
 "Every model, complete or not, can be written as JSON. What is written, plain or pretty, is the JSON AST the Smithy specification gives for it, and reading it back gives the same model: shapes, members, traits, values, renames, foreign applies and metadata.",
 "all models, with any Unicode text, numbers and nesting in their values",
 EX + "three small models are written.",
 [J + "writer.rs", J + "reader.rs"], [("model_to_json", J + "writer.rs"), ("JsonReader", J + "reader.rs")],
 tech="round trip, and the written tree against a reference AST", note="Oracle: the model itself and a reference AST.")

prop("P10", "A JSON AST document is read as what it says, or refused",
 "Reading a valid JSON AST document, in whatever order, spacing, escapes and number spelling, gives exactly the model it describes; properties it does not know are ignored. A document that lacks a required part, has one of the wrong form, or gives members, traits, renames or identifiers twice under names that only differ in case, is refused with an error.",
 "all documents: any model in any legal spelling, and documents with any one part broken",
 EX + "about twenty fixed documents are read, none of them broken.",
 [J + "reader.rs"], [("JsonReader", J + "reader.rs")],
 tech="grammar-based generation from an independent JSON writer", note="Oracle: the model the document was generated from.")

prop("P11", "The JSON reader returns on every input",
 "Reading any bytes as JSON returns a model or an error with a message, and never crashes. A model read this way can be written and read again without change.",
 "all byte strings",
 EX + "no test reads malformed input.",
 [J + "reader.rs"], [("JsonReader", J + "reader.rs")],
 tech="mutation fuzzing of documents, structural edits, token soup and deep nesting", note="Oracle: no crash; round trip of what is accepted.")

I = "atelier-smithy/src/"
prop("P12", "A Smithy IDL document is read as what it says, or refused",
 "Reading a valid IDL document, in whatever order and layout, gives exactly the model it describes: metadata, imports, shapes of every kind, documentation comments, traits written in place or by apply statements, with names resolved by the Smithy rules. Definitions, traits and metadata given more than once are reconciled by the merge rules, arrays joined as written. A document with an error in its syntax, names, properties or definitions is refused.",
 "all documents whose strings need no escapes, in any legal layout, and documents with any one part broken",
 EX + "five fixed documents are read, and a few dozen fragments.",
 [I + "parser/smithy.rs", I + "smithy.pest", I + "reader.rs"], [("IDL parser", I + "parser/smithy.rs"), ("grammar", I + "smithy.pest")],
 tech="grammar-based generation from an independent IDL writer", note="Oracle: the model the document was generated from.")

prop("P13", "Writing a model as Smithy IDL and reading it back gives the same model",
 "What the IDL writer writes for one namespace can be read, and gives back the shapes of that namespace with their members, targets, traits, renames and values, the forward references and traits applied to shapes elsewhere, and the metadata. Converting what was read to JSON and back gives the same model again.",
 "all models and each of their namespaces, with values whose strings need no escapes",
 EX + "two fixed models are written.",
 [I + "writer.rs", I + "parser/smithy.rs"], [("IDL writer", I + "writer.rs"), ("IDL parser", I + "parser/smithy.rs")],
 tech="round trip of generated models, through both representations", note="Oracle: the model itself.")

prop("P14", "The Smithy IDL reader returns on every input",
 "Reading any bytes as Smithy IDL returns a model or an error with a message, and never crashes. Every id in a model read this way is well formed, and the model converts to JSON and back, and to IDL and back, unchanged.",
 "all byte strings whose values are nested at most 60 deep",
 EX + "they read valid documents only.",
 [I + "parser/smithy.rs", I + "smithy.pest"], [("IDL parser", I + "parser/smithy.rs")],
 tech="mutation fuzzing of generated and real documents, token soup and nesting", note="Oracle: no crash; well-formed ids; round trips of what is accepted.")

SELM = CORE + "model/selector/mod.rs"
prop("P15", "A selector built through the API is the one meant, and prints as itself",
 "A selector built in any of the equivalent ways (constructors, setters, comparison helpers named after a comparator, builders and their helpers) has exactly the expressions, keys, comparators, values and flags asked for. Selectors built from the same parts are equal. What it prints parses back to the same selector.",
 "all selectors of every kind of expression, whose text can be quoted, however built",
 EX + "fixed selectors are printed, and few of the helpers are called.",
 [SELM, CORE + "builder/selector.rs", I + "parser/selector.rs"], [("Selector and Display", SELM), ("SelectorBuilder", CORE + "builder/selector.rs"), ("parse_selector", I + "parser/selector.rs")],
 tech="generated selectors built in random equivalent ways; print-parse round trip", note="Oracle: the selector the calls were generated from.")

prop("P16", "The selector parser reads the documented grammar and nothing else",
 "A text is parsed as a selector exactly when the selector grammar has it, with any whitespace between tokens, either quote and any spelling of numbers, and gives the selector the grammar says. Anything else is refused with an error, never a crash. Parsing writes nothing to standard output.",
 "all texts nested to a bounded depth",
 EX + "about a hundred fixed selectors are parsed, one invalid.",
 [I + "parser/selector.rs", I + "selector.pest"], [("parse_selector", I + "parser/selector.rs"), ("grammar", I + "selector.pest")],
 tech="grammar-based generation and mutation, differential against an independent parser", note="Oracle: an independent recursive descent parser.")

R = "atelier-rdf/src/"
prop("P24", "Shape ids and shape URNs correspond one to one",
 "Every absolute shape id becomes the URN urn:smithy:NAMESPACE:SHAPE, with /MEMBER for a member, and that URN reads back as the same id. Only such URNs are recognised as shape URNs; any other IRI, including one with a query or a fragment, is refused with an error. Different ids have different URNs.",
 "all absolute shape ids, and IRIs up to three edits from a shape URN",
 EX + "two ids and nine invalid URNs are tried.",
 [R + "urn.rs"], [("URN mapping", R + "urn.rs")],
 tech="round trip of generated ids; near-miss IRIs against a reference of the mapping", note="Oracle: the documented mapping, written independently over text.")

prop("P25", "The RDF graph of a model says all of the model, and nothing else",
 "The graph of a model has exactly the statements the mapping in the book gives: the model with its version, shapes and metadata; each shape with its type, members, references, renames, identifiers and applied traits; and every value with its type, its order and its nesting. Traits applied to a shape defined elsewhere are included.",
 "all models, with any metadata and trait values, identified by an IRI or not",
 EX + "one model is written and nothing of it is looked at.",
 [R + "writer.rs", R + "vocabulary.rs"], [("model_to_rdf", R + "writer.rs"), ("vocabulary", R + "vocabulary.rs")],
 tech="generated models; the tree below each subject against a reference writer", note="Oracle: an independent writer of the documented mapping, compared up to blank node names.")

ASM = "atelier-assembler/src/lib.rs"
prop("P26", "Assembling files gives the merge of the models in them, each read once",
 "Assembling files and directories, given directly or through a search path, gives the merge of the models in the files of registered types among and below them, each read once by the reader registered for its extension in any case, and the same model whatever order they are given or listed in. A file that cannot be read as its type, and models that conflict, give an error, never a crash; other files are ignored. The registry of file types is a map from extensions and MIME types, in any case, to types.",
 "all directory trees of up to six files, some linked, with any of them requested, some twice or by two spellings, all registry histories, unreadable and vanishing files",
 EX + "three fixed directories are assembled.",
 [ASM], [("ModelAssembler", ASM), ("FileTypeRegistry", ASM)],
 over=("inputs", "histories", "faults"), tech="generated directory trees, request orders and injected read failures; registry histories against a map", note="Oracle: the merges of the models read one by one; a reference map.")

Q = "atelier-query/src/"
prop("P27", "Selecting shapes by type gives exactly the shapes of that type",
 "A query of shape types over a model selects exactly the shapes which the selector language has each of the types match, each once: every shape for *, the simple shapes for simpleType, the numeric ones for number, lists and sets for collection, and for any other type the shapes of that kind. Types in a row select what all of them match. A query writes nothing to standard output.",
 "all models and all sequences of up to five shape types, built or parsed",
 EX + "no test runs a query.",
 [Q + "evaluate.rs", Q + "projection.rs"], [("query", Q + "evaluate.rs"), ("Projection", Q + "projection.rs")],
 tech="generated models and selectors against a reference evaluator", note="Oracle: the selector language's definition of each type. Other selector expressions are not implemented in the code.")

D = "atelier-describe/src/"
prop("P28", "The documentation of a model describes all the shapes it defines",
 "The documentation of a model gives its version and metadata, and has a section for each namespace with, in order, a section for each shape defined in it. That section gives its kind, documentation, external links and every value of its traits with its path, and its members, properties and relationships with their targets, of which those in the same namespace lead to the section of the target. Writing it never fails or crashes.",
 "all models, complete or not, with any text and any values, whose shapes have different names",
 EX + "two models are described.",
 [D + "document/writer.rs"], [("describe_model", D + "document/writer.rs"), ("DocumentationWriter", D + "document/writer.rs")],
 tech="generated models; the document taken apart against a reference description", note="Oracle: an independent description of the reference model, compared block by block. What somedoc makes of the blocks is not judged.")

prop("P29", "The PlantUML diagram of a model shows its shapes as documented",
 "The PlantUML text of a model has a package for each namespace with exactly its simple shapes, services, resources, structures and unions as classes of the documented stereotype, and with their traits, versions, identifiers, operations with input and output, lifecycle operations and members. Documentation becomes notes, contained resources and base types become relationships. Models that are not complete are written too, without a crash.",
 "all models, complete or not, whose text is of single lines; any other only for crashes",
 EX + "one model is written and nothing of it is looked at.",
 [D + "plant_uml/writer.rs"], [("PlantUmlWriter", D + "plant_uml/writer.rs")],
 tech="generated models; the diagram parsed and compared with a reference of the mapping", note="Oracle: the documented mapping, written independently.")

prop("P30", "The GraphML of a model is well-formed and has its shapes and references",
 "The GraphML of a model is well-formed XML whose data refer to declared keys and whose edges have different ids. It has exactly a node for each defined shape with its type, and for services their version, and an edge for each trait, member and reference the mapping documents, with its name.",
 "all models, complete or not, whose versions have characters XML allows, and one of 70000 members",
 EX + "one model is written and nothing of it is looked at.",
 [D + "graphml/writer.rs"], [("GraphMLWriter", D + "graphml/writer.rs")],
 tech="generated models; the XML parsed and compared with a reference of the mapping", note="Oracle: the documented mapping, and a small XML parser.")

L = "cargo-atelier/src/"
prop("P31", "The command line tool writes what the libraries give, or fails",
 "Each command of the tool reads the model from all files and directories given as arguments or by the search path asked for, and writes to standard output, or to the file given, what linting, validation, conversion to the given format and namespace, or documentation of that model gives. Whenever any of these is not possible it ends with a non-zero code and a message, without writing output. It never crashes.",
 "all command lines with valid options, all environments, all sets of model files, including files that are no models, and outputs with room for only part of what is written",
 EX + "no test runs the tool.",
 [L + "actions.rs", L + "command_line.rs", L + "report.rs", L + "bin/main.rs"],
 [("command line", L + "command_line.rs"), ("actions", L + "actions.rs"), ("report", L + "report.rs")],
 tech="generated command lines and files; the tool run as a process, against the libraries", note="Oracle: the libraries, judged themselves by other properties.")

prop("P32", "Reading and writing loses nothing on a stream, and reports each failure",
 "Every reader and writer gives the same result on a stream that passes on little at a time or is interrupted as on a string. If the stream fails at any point, what is being done fails with a message: no model is made of part of a text, and no loss of output goes unnoticed. Writing to a file replaces what it had, reading from one reads all of it, and text that is not UTF-8 is refused.",
 "all models, with each reader and writer, and all streams that pass on any number of bytes, are interrupted, or fail after any number of them", 
 EX + "tests read from strings and write to memory, where nothing fails.",
 [CORE + "io/mod.rs", CORE + "io/lines.rs", CORE + "io/debug.rs", J + "reader.rs", J + "writer.rs", I + "reader.rs", I + "writer.rs", R + "writer.rs", D + "document/writer.rs", D + "plant_uml/writer.rs", D + "graphml/writer.rs"],
 [("read_model_from_…, write_model_to_…", CORE + "io/mod.rs"), ("ModelReader, ModelWriter", CORE + "io/mod.rs")],
 over=("inputs", "faults"), tech="generated models and streams with injected faults, against reading and writing of strings", note="Oracle: the stream itself knows whether it failed. Turtle is compared letter for letter without order only.")

prop("P33", "Values, kinds of shapes and names of constants are what they are made as",
 "A value made in any way, from a Rust value or through a builder, is exactly one kind of value and gives back what it was made of; numbers print so that they parse back to the same number. A shape is exactly one kind of shape, and has exactly its members, found by name in any case. Simple types, versions, error sources, file formats and builder names parse from exactly their names, and print as them; issues have the level, reporter, message and place they were made with; the prelude has exactly the names Smithy gives it.",
 "all values, all shapes, all texts and all issues",
 EX + "few of these functions are tested directly.",
 [M + "values.rs", M + "shapes/mod.rs", M + "shapes/simple.rs", CORE + "lib.rs", CORE + "prelude.rs", CORE + "action/mod.rs", CORE + "builder/id.rs", CORE + "builder/values.rs", CORE + "macros.rs"],
 [("values", M + "values.rs"), ("kinds", M + "shapes/mod.rs"), ("names", M + "shapes/simple.rs"), ("prelude", CORE + "prelude.rs")],
 tech="generated values, shapes, names and near-misses against the reference model and lists of names", note="Oracle: the reference model, and the names in the Smithy 1.0 specification.")
