"""The properties claimed, and what is said of each in MANIFEST.json."""
PROPERTIES = []
NOT_APPLICABLE = []
NOTES = ("The checks run the real crates, unmodified and without hooks, inside a monitored child process (harness/common): "
         "oracles written independently of the code judge every execution; a crash, a panic or a hang of the code under test is a violation. "
         "VERIF_SEED seeds every random choice; evidence/replay/ holds the failing cases, which ./check.sh ID --replay SECTION CASE runs again.")

MON = "runtime monitoring: "
TRUST = "Held on the executions counted in the evidence file, nothing more. Trusts the oracle in the harness, rustc and std."


def P(id, title, statement, over, text, why, files, mechanism, technique, note, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "hook_needed": None}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    PROPERTIES.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why, "anchors": a,
        "technique": MON + technique, "level_note": note + " " + TRUST,
    })


IRI = "rdftk_iri/src/iri.rs"
PNAME = "rdftk_iri/src/pname.rs"
MAP = "rdftk_iri/src/map.rs"
VOCAB = "rdftk_iri/src/vocab.rs"

P("I01", "Names and prefixes are accepted exactly by the SPARQL grammar",
  "A string is accepted as a local name, a namespace prefix or a qualified name exactly when it matches PN_LOCAL (without escapes), PNAME_NS or PNAME_LN of the SPARQL grammar quoted in the documentation. "
  "The validity predicates, the parsers and the fallible constructors agree with one another on every string, and none of them panics.",
  ["inputs"], "every string: every Unicode scalar value at every position class of a name, and strings assembled from names, dots, colons and hostile text",
  "The grammar is defined by ranges of code points; unit tests try a few characters, and a range wrong by one code point, or a rule about a final '.', passes them.",
  [PNAME], [("is_pn_* predicates and FromStr of Name, Namespace, LocalName", PNAME)],
  "grammar oracle over every code point and assembled strings",
  "All 1112064 scalar values at five positions of a name, exhaustively; assembled strings are sampled.")

P("I02", "Name types keep their parts and their order",
  "A name, namespace or qualified name made from parts gives back exactly those parts, displays as the text it parses from, and converts to and from its other forms (tuples, CURIE, IRI reference) without loss. "
  "Equality, hashing and ordering follow the text of the parts.",
  ["inputs"], "every pair of a valid prefix and a valid name, the default prefix included",
  "Every conversion has to be the inverse of another for all values; tests check one or two ASCII examples of each.",
  [PNAME, IRI], [("qualify, new, name_string, as_curie, Display/FromStr pairs", PNAME)],
  "every accessor and conversion compared with the generating strings",
  "Random ASCII and non-ASCII names.")

P("I03", "An IRI's text and value determine one another",
  "Every IRI displays, in the RDF form, as an IRIREF whose value is the IRI's own text, and in the alternate form as that text; parsing either form gives an equal IRI back, and text in normal form is kept unchanged. "
  "Strings that are not absolute IRIs are refused with an error, never a panic. Two IRIs are equal, and hash alike, exactly when their texts are equal, and are ordered as their texts are.",
  ["inputs"], "every IRI over schemes, authorities, paths, queries and fragments, and every other string, bare or in angle brackets, with and without UCHAR escapes",
  "The RDF form has to escape the characters IRIREF excludes and the parser to undo that for every IRI; the tests parse a few plain http IRIs.",
  [IRI], [("Display and FromStr of Iri", IRI)],
  "independent IRIREF parser and URL parser as oracles",
  "Assumes the url crate implements the IRI grammar.")

P("I04", "Editing one component of an IRI leaves the others alone",
  "Giving an IRI a new path, a new fragment, an empty fragment or no fragment changes that component to the given one and leaves every other component as it was, for every IRI and every replacement text. "
  "An IRI looks like a namespace when it ends in '#' with nothing after it, or has a path that ends in '/' and no query or fragment, and not when it ends in a name.",
  ["inputs"], "every IRI paired with every replacement path or fragment, hostile text included",
  "Percent-encoding and delimiters in the new component can leak into the neighbours; only pairs of unusual IRIs and unusual components show it.",
  [IRI], [("with_new_path, with_new_fragment, with_empty_fragment, with_no_fragment, looks_like_namespace", IRI)],
  "RFC 3986 appendix B decomposition of the result compared with the original's",
  "IRIs with an opaque path are only edited in the ways the url crate documents.")

P("I05", "Splitting an IRI and making a name are inverse",
  "Splitting an IRI gives a namespace and a valid name whose concatenation is the IRI, splitting at its last '#' or else its last '/', and nothing when no valid name follows. "
  "Making a name in a namespace IRI appends exactly that name, is refused for an IRI that is not a namespace, and splits back into the same two parts.",
  ["inputs"], "every IRI, opaque and hierarchical, and every pair of namespace and name",
  "Which of fragment, last path segment or neither holds the name depends on the IRI's shape; the tests cover one IRI per shape, and opaque paths had panicked.",
  [IRI], [("split, namespace, name, make_name", IRI)],
  "textual split oracle", "Random IRIs of eleven schemes.")

P("I06", "A prefix map stays a one-to-one map through every history",
  "After any sequence of insertions, removals and clears a prefix map relates each prefix to at most one IRI and each IRI to at most one prefix: the two lookups are inverse of one another, the last insertion wins on both sides, and size, iteration and the default namespace agree with them. "
  "Removing a prefix removes only its own mapping.",
  ["histories"], "every sequence of the map's operations, with prefixes and IRIs colliding on either side",
  "A stale entry on one side only appears after an overwrite that collides on both sides followed by an operation on the survivor; tests insert distinct prefixes once.",
  [MAP], [("BiMap behind IriPrefixMap", MAP)],
  "random histories observed after every operation against a reference model",
  "Random histories of up to about forty operations.", state=[("map", "prefix to IRI, both ways", MAP)])

P("I07", "Expanding and compressing names are inverse through a prefix map",
  "Expanding a qualified name gives the concatenation of the IRI its prefix is mapped to and its name, and nothing when the prefix is not mapped or its IRI is not a namespace. "
  "Compressing an IRI gives a qualified name only when expanding it gives the IRI back, it does so whenever the IRI splits into a mapped namespace and a valid name, and otherwise the IRI itself stands as the reference.",
  ["inputs", "configurations"], "every prefix map, with namespaces nested in one another, with every name and IRI inside and outside of it",
  "It depends on the map's whole content (nested namespaces, the default prefix, IRIs that are not namespaces); tests use one map and one name.",
  [MAP, IRI], [("expand, compress, compress_to_iriref", MAP)],
  "text concatenation oracle over random maps", "Random maps of up to a dozen mappings.")

P("I08", "Serialized names and IRIs come back equal, and invalid ones do not",
  "Every value of the name and IRI types deserializes, from what it serializes to, back to an equal value, inside JSON text and JSON values, and as map keys where allowed; names, namespaces and IRIs serialize to their text. "
  "Deserializing a string succeeds exactly when parsing that string does, so that no invalid name, namespace or IRI can be made from serialized data.",
  ["inputs"], "every value of the serializable types, and every string in their place",
  "Derived deserialization skips validation unless told otherwise, which only invalid data shows.",
  [PNAME, IRI, MAP], [("serde derives with from/into attributes", PNAME)],
  "round trips and validation compared with the parsers",
  "Uses serde_json as the data format.")

P("I09", "Generated IRIs are unique, across threads too",
  "Every IRI generated from a base is a distinct IRI of the form <base origin>/.well-known/genid/<id>, with the scheme and authority of the base and without its path, query and fragment, whatever the number of threads that generate them. "
  "A base that cannot have a path is refused with an error.",
  ["schedules", "inputs"], "every interleaving of generators, from every base IRI",
  "A duplicate needs two calls close together, in one thread or in two; a test that calls it once cannot see it.",
  [IRI], [("genid", IRI)],
  "log of every id generated by concurrent threads, checked for form and duplicates",
  "Interleavings are those the scheduler gave on this machine.")

P("I10", "Vocabularies carry their published prefixes and IRIs",
  "Every vocabulary constant has the prefix and the IRI that its documentation states, which are those its specification publishes. "
  "Mapping vocabularies in any combination and order maps each one's prefix to its IRI and nothing else, and the default and common maps hold exactly the vocabularies documented for them.",
  ["configurations"], "all vocabulary constants, and their combinations in every order",
  "A typo in a constant compiles, and no test compares each constant with its specification; two vocabularies that clash only show when combined.",
  [VOCAB, MAP], [("VOCABULARY_* constants, with_vocabulary, insert_vocabulary", VOCAB)],
  "constants compared with a table of the published values; random combinations",
  "All 21 constants exhaustively; combinations sampled.")

GRAPH = "rdftk_core/src/model/graph.rs"
DATASET = "rdftk_core/src/model/data_set.rs"
STMT = "rdftk_core/src/model/statement.rs"
STMTS = "rdftk_core/src/model/statement/"
LITERAL = "rdftk_core/src/model/literal.rs"
RESOURCE = "rdftk_core/src/model/resource.rs"
FEATURES = "rdftk_core/src/model/features.rs"

P("C01", "A graph holds exactly the statements its history gave it",
  "After any sequence of insertions, extensions, merges, removals, removals of a subject, deduplications, clears and replacements a graph holds exactly the statements, with their multiplicity, that the same sequence leaves in a set (or, when the graph holds duplicates, in a multiset), and it keeps its name and prefix mappings unless they are set. "
  "Operations that take statements out return exactly those they took, and a clone does not follow the changes of its original.",
  ["histories"], "every sequence of operations on graphs that do and do not hold duplicates, over statements that share parts, nested ones and collections included",
  "Each operation is right or wrong only with respect to the state that earlier ones left; tests make short fixed sequences with distinct statements.",
  [GRAPH], [("insert, extend, merge, remove, remove_all_for, dedup, clear, with_statements", GRAPH)],
  "model-based monitor: the state after every operation is compared with a multiset model",
  "Histories of up to 30 operations over 8 or so statements, sampled.",
  observe=[GRAPH], state=[("statements", "the multiset of statements", GRAPH), ("mappings", "the prefix mappings", GRAPH)])

P("C02", "Queries of a graph select exactly the matching statements",
  "For every graph and every term, matches, contains and the contains-subject, -predicate, -object and -individual queries answer exactly for the statements whose components equal those asked for, an absent component matching anything. "
  "The subjects, predicates and objects listed, and the statements and objects selected by subject or predicate, are exactly those of the graph's statements.",
  ["inputs", "histories"], "every graph and every combination of given and absent components, terms that are present, nearly present and absent",
  "Each query has eight combinations of components and must neither miss nor invent a statement; tests query one combination on one small graph.",
  [GRAPH], [("matches, contains*, subjects, predicates, objects, *_for", GRAPH)],
  "every query compared with a linear scan of a model",
  "Graphs of up to 14 statements, sampled.")

P("C03", "A data set keeps each named graph under its own name",
  "After any sequence of operations a data set holds for each name the last graph inserted with that name, and the default graph apart from them; lookups by name, the size, iteration, containment and removal agree with that. "
  "Graph names that differ, an IRI and a blank node with the same text included, name different graphs, and changing one graph leaves the others as they were.",
  ["histories"], "every sequence of insertions, extensions, removals, clears and changes in place, over few names",
  "A mix-up of names or of the default graph shows only after several operations; tests insert one graph.",
  [DATASET, GRAPH, FEATURES], [("insert, remove, graph, graph_mut, default_graph, Featured", DATASET)],
  "model-based monitor over every lookup after every operation",
  "Histories of up to 20 operations over up to 6 names, sampled.",
  observe=[DATASET], state=[("graphs", "graphs by name", DATASET)])

P("C04", "The text of every literal determines the literal",
  "For every text the lexical form, decoded by the N-Triples escapes, gives the text back and holds no character that N-Triples excludes from a quoted string. "
  "The long form of a literal, with its language tag or data type, is the N-Triples literal with that value, language and data type, so that different literals never look alike; statements of IRIs, blank nodes and such literals display as N-Triples.",
  ["inputs"], "every Unicode scalar value, and every text, language tag and data type",
  "Quoting must be reversible for every string; tests quote a handful of plain ones.",
  [LITERAL, STMT], [("Display and lexical form of Literal, Display of Statement", LITERAL)],
  "independent decoder of escapes and N-Triples parser as oracle",
  "Every scalar value exhaustively, alone and between others; longer texts sampled.")

P("C05", "Typed literals denote the value they were made from",
  "The literal made from a Rust value (integers, floats, booleans, decimals, characters, durations, dates and times, names, IRIs, binary data) has a lexical form valid for its XML Schema data type that denotes exactly that value, and its data type is the one of that Rust type. "
  "Where a literal can be decoded again, decoding gives the value back, and text that is not in the lexical space is refused with an error.",
  ["inputs"], "every value of every Rust type that converts to a literal, boundary values included",
  "Each conversion must be right at extremes, infinities, negative zero, zero-length and sub-second values; tests try one of each.",
  [LITERAL], [("From<T> for Literal, Literal::hex_encoded and base64, TryFrom", LITERAL)],
  "independent parsers of the XML Schema lexical spaces",
  "Boundary values and random values, sampled.")

P("C06", "Data types and their IRIs determine one another",
  "Every known data type has the IRI that its W3C recommendation publishes and is recognised from that IRI, and no other IRI. "
  "Every other IRI gives the data type that keeps that IRI; two data types are equal exactly when their IRIs are.",
  ["inputs"], "the 24 known data types exhaustively, and IRIs one edit away from them",
  "A wrong pairing of one of 24 data types round-trips through neither of the tests that exist.",
  [LITERAL], [("DataType::as_iri, From<Iri> for DataType", LITERAL)],
  "table of the published IRIs as oracle",
  "Known data types exhaustively; other IRIs sampled.")

P("C07", "Equality, order and hash of terms are lawful",
  "For IRIs, blank nodes, literals, collections, subjects, objects, statements, data types and graph names equality is structural identity, the order is total, transitive and agrees with equality, and equal values hash alike. "
  "Converting a term between its forms (subject, object, statement, collection) and asking what it is and holds is consistent and loses nothing.",
  ["inputs"], "every pair and triple of terms, in particular terms that differ in one component or in kind only",
  "Graphs, sets and maps of terms are only right when the laws hold for all terms; tests compare a few unequal ones.",
  [STMT, STMTS + "object.rs", STMTS + "subject.rs", STMTS + "collection.rs", LITERAL],
  [("Ord, PartialEq and Hash of the term types", STMT)],
  "law checker over all pairs and triples of related terms",
  "Sets of up to 12 terms, sampled.")

P("C08", "Reification describes the statement it replaces",
  "Reifying a statement or a collection gives a node and flat statements that describe it in the RDF reification and list vocabularies, with every nested statement and collection described in turn. "
  "Nothing is lost and nothing added: the description is, up to the labels of new blank nodes, the one the RDF recommendations define, and the new blank nodes are distinct.",
  ["inputs"], "statements and collections nested in one another to any depth",
  "The result depends on nesting and order; tests reify one flat statement.",
  [STMT, STMTS + "collection.rs"], [("reify", STMT)],
  "comparison with a model's flattening by graph isomorphism",
  "Depth up to 4, sampled; isomorphism searches that exceed a budget count as held.")

P("C09", "Simplifying a graph keeps its meaning and context",
  "Simplifying a graph leaves no nested statement or collection, keeps every flat statement as it was, and replaces every other one by its reification, whose new blank nodes are distinct and used nowhere else. "
  "The graph's name and prefix mappings are kept, and the original is unchanged; simplifying a data set does this to each of its graphs.",
  ["inputs"], "every graph of flat and nested statements and collections, and every data set of them",
  "Only graphs that nest in several ways at once show lost or shared nodes; tests simplify one.",
  [GRAPH, STMT, DATASET], [("Graph::simplify", GRAPH), ("DataSet::simplify", DATASET)],
  "comparison with a model's flattening by graph isomorphism",
  "Random graphs, sampled.")

P("C10", "Skolemization replaces each blank node by one new IRI",
  "Skolemizing a graph replaces every blank node, at every position and depth, by an IRI generated from the base, the same one for the same blank node and different ones for different blank nodes. "
  "Nothing else changes: the remaining terms, the number of statements, the name and the mappings.",
  ["inputs"], "every graph with blank nodes as subjects and objects, in nested statements and collections, and every base",
  "Sharing must be kept across positions and nesting; tests skolemize two statements.",
  [GRAPH, STMT], [("skolemize", GRAPH)],
  "offline comparison of the two graphs through the substitution observed",
  "Random graphs, sampled.")

P("C11", "A resource builder produces exactly the statements described",
  "The statements of a resource built by any sequence of the builder's methods are exactly those the calls describe: one for each value, with the subject of the resource it was given to, nested resources and containers with theirs. "
  "Container members are numbered in order from 1 with the container's type, and the shared state of a builder does not leak into another.",
  ["programs"], "every sequence of calls of the builder methods, nested resources and containers included",
  "The builder is used through long chains of calls; tests try one chain per method.",
  [RESOURCE], [("Resource and Predicate builders, Into<Vec<Statement>>", RESOURCE)],
  "model-based comparison of multisets of statements, up to blank nodes",
  "Random chains, three levels deep, sampled.")

P("C12", "Generated blank nodes are unique, and labels are checked",
  "Every blank node generated in a process is distinct from every other generated one, whatever the number of threads generating, and has a valid label. "
  "A string is accepted as a blank node label exactly when it is a valid one, with or without '_:'; the node holds that label, and as a subject, an object or a qualified name it displays as '_:' and that label.",
  ["schedules", "inputs"], "all interleavings of up to 16 threads, and every string",
  "A lost update shows only under contention; tests generate in one thread.",
  [STMTS + "bnode.rs"], [("BlankNode::generate, FromStr", STMTS + "bnode.rs")],
  "log of all generated labels, checked offline for duplicates",
  "Real threads behind a barrier; the interleavings that occur, not all of them.")

P("N01", "Vocabulary terms have their published IRIs",
  "Every term function of a vocabulary module returns the IRI of the namespace followed by the term's published local name, its _str function that name, and its _qname function the default prefix, a colon and the name; the module's prefix and namespace are those its specification publishes. "
  "A vocabulary defined with the namespace! macro behaves alike for every namespace and names, and numbered container members are rdf:_1, rdf:_2 and so on.",
  ["inputs", "schedules"], "all 399 terms of 14 modules exhaustively; first use by many threads at once",
  "A typo in one of hundreds of terms compiles, and only the macro itself is tested.",
  ["rdftk_names/src/lib.rs", "rdftk_names/src/"], [("namespace! and nsname!", "rdftk_names/src/lib.rs")],
  "every function compared with a reviewed table, first called by concurrent threads",
  "All terms exhaustively; the table was written from the code and reviewed by hand against the published vocabularies.")

IO = "rdftk_io/src/"
BLANKS = IO + "common/blanks.rs"
SAMPLED = "Random graphs and documents, sampled; blank nodes are matched by an isomorphism search that counts as held when it exceeds its budget."

P("W01", "N-Triples written is N-Triples for exactly the graph",
  "For every graph, what NTripleWriter writes is well-formed N-Triples whose statements are exactly those of the graph, with nested statements and collections in their reified form, each literal with its exact text, datatype and language, each IRI its exact text, and each blank node its own label. "
  "NTripleReader reads it back as the same graph.",
  ["inputs"], "every graph: all IRIs, blank node labels and literals, all Unicode characters in text, nested statements and collections",
  "One unescaped character, or a lost language tag, corrupts data silently; tests write a handful of fixed statements.",
  [IO + "nt/writer.rs", IO + "common/parser/ntriples.rs", LITERAL, IRI], [("NTripleWriter::write", IO + "nt/writer.rs"), ("Display of statements and terms", LITERAL)],
  "strict N-Triples parser and graph isomorphism on what is written, and read-back",
  SAMPLED + " Every Unicode character in a literal, exhaustively.")

P("W02", "The N-Triples reader reads exactly N-Triples",
  "NTripleReader accepts every well-formed N-Triples document and returns exactly its statements, with all escapes decoded, and refuses a document that is not well-formed with an error. "
  "The property is silent on white space, line ends and comments where the grammar has none.",
  ["inputs"], "every document: all token forms, escapes, line ends and comments of the grammar, and documents that differ from one by an edit",
  "The grammar has many forms and many near misses; tests read a few usual documents.",
  [IO + "common/parser/ntriples.rs", IO + "nt/reader.rs"], [("pest grammar and its tree walk", IO + "common/parser/ntriples.rs")],
  "documents generated with known statements, an independent parser as judge of near misses, W3C tests",
  SAMPLED)

P("W03", "N-Quads keeps every statement in its graph",
  "For every data set, what NQuadWriter writes is well-formed N-Quads whose quads are exactly the data set's statements, each with the name of its graph or with none in the default graph, and NQuadReader reads it back as the same data set. "
  "NQuadReader accepts every well-formed N-Quads document with exactly its quads and refuses other documents with an error; it is silent on white space, as W02.",
  ["inputs"], "every data set of named (IRI and blank) and default graphs that share blank nodes; every document, and near misses of one",
  "Which graph a statement is in shows only with several graphs at once; tests write one.",
  [IO + "nq/writer.rs", IO + "nq/reader.rs", IO + "common/parser/nquads.rs", DATASET], [("NQuadWriter::write and NQuadReader::read", IO + "nq/")],
  "strict N-Quads parser and isomorphism of data sets, near misses judged by it, W3C tests",
  SAMPLED)

P("W04", "RDF/JSON is written and read without loss",
  "For every graph, what JsonWriter writes, plain or pretty, is one well-formed JSON document of the RDF/JSON structure, in which each subject and each predicate of it occurs once, and the statements are exactly those of the graph. "
  "JsonReader returns exactly the statements of every RDF/JSON document, and refuses what is not JSON, or not of that structure, with an error.",
  ["inputs"], "every graph; every JSON tree of the RDF/JSON structure, and trees and texts that differ from one by an edit",
  "Grouping statements in objects loses those that share a key when it is wrong; tests write one subject.",
  [IO + "json/writer.rs", IO + "json/reader.rs"], [("JsonWriter::write, JsonReader::read", IO + "json/")],
  "strict JSON parser that sees duplicate keys, structure checker, isomorphism, damaged trees and texts",
  SAMPLED + " The form of subject keys that are IRIs is a known finding, judged apart.")

P("W05", "RDF/XML written is RDF/XML for exactly the graph",
  "For every graph, in both styles and layouts, what XmlWriter writes is well-formed XML and RDF/XML whose statements are exactly those of the graph, nested statements and collections reified, and XmlReader reads it back as the same graph. "
  "A graph that RDF/XML cannot have, by a predicate that is no element name or a character XML excludes, is refused with an error.",
  ["inputs", "configurations"], "every graph, trees, rings and chains of blank nodes of any length included, in every style, layout and encoding label",
  "Nesting depends on the shape of the whole graph and escaping on each character; tests write a few small graphs.",
  [IO + "xml/writer.rs", BLANKS], [("XmlWriter::write, flat and striped", IO + "xml/writer.rs"), ("which blank nodes nest", BLANKS)],
  "independent XML 1.1 and RDF/XML parser with graph isomorphism, and read-back",
  SAMPLED + " Every Unicode character in a literal, exhaustively.")

P("W06", "The RDF/XML reader finds the statements of the grammar",
  "XmlReader returns, for every RDF/XML document with absolute IRIs, exactly the statements the RDF/XML grammar gives it: node and property elements and attributes, rdf:ID, nodeID, about, resource, datatype and xml:lang in scope, rdf:li numbering, reified property elements, containers, collections, and the parse types Resource, Collection and Literal. "
  "It refuses, with an error, truncated or mismatched XML, names without a namespace, texts and elements mixed in a property element, two elements in one, and what is no IRI, label or language tag where one has to be.",
  ["inputs"], "every document: all productions of the grammar, nested, with namespaces, entities, CDATA, comments and languages at every level",
  "Productions interact (language and list counters are inherited or reset by nesting); tests read few documents.",
  [IO + "xml/reader.rs"], [("the parse_* productions of XmlReader", IO + "xml/reader.rs")],
  "documents generated from the grammar compared with an independent parser, mutations, W3C tests",
  SAMPLED + " Relative references beyond rdf:ID, and documents without rdf:RDF, are outside what the reader supports.")

P("W07", "Turtle written is Turtle for exactly the graph",
  "For every graph and every combination of the writer's options, what TurtleWriter writes is well-formed Turtle whose statements are exactly those of the graph (IRIs converted to the base as the options say), with each literal's exact text, datatype and language, whether in short form or not, and blank nodes one-to-one. "
  "Directives for the base and exactly the mapped prefixes come first, in the style asked for; lines are indented and a type placed on the subject's line as the options say; blank nodes referenced once and in no cycle are nested (unless they are very deep) if nesting is on, and none if it is off; and the same graph is always written as the same text (up to the blank nodes of reified statements).",
  ["inputs", "configurations"], "every graph: blank node trees, diamonds, rings and long chains, collections, nested statements; every combination of options and prefix mappings",
  "Abbreviations (prefixed names, a, numbers, [], lists, base) are each right only for some terms; tests write usual ones.",
  [IO + "turtle/writer.rs", IO + "turtle/mod.rs", BLANKS], [("TurtleWriter::write", IO + "turtle/writer.rs"), ("TurtleWriterOptions", IO + "turtle/writer.rs")],
  "strict Turtle parser with graph isomorphism and a model of the options",
  SAMPLED + " Every Unicode character in a literal, exhaustively.")

P("W08", "TriG written keeps every statement in its graph",
  "For every data set, and every graph, and all options, what TrigWriter writes is well-formed TriG whose quads are exactly those of the data set, each in its own graph, with the same blank node for the same blank node across graphs and IRIs resolved against the prefixes and base in force. "
  "The GRAPH keyword is written for each named graph, or for none when it is to be omitted.",
  ["inputs", "configurations"], "every data set of graphs that share blank nodes and have different prefix mappings; every combination of options",
  "Prefixes and blank nodes of one graph can capture those of another; tests write one graph.",
  [IO + "trig/writer.rs", IO + "turtle/writer.rs"], [("TrigWriter::write for DataSet and Graph", IO + "trig/writer.rs")],
  "strict TriG parser with isomorphism over the whole data set",
  SAMPLED)

P("W09", "The GraphViz drawing shows the graph",
  "For every graph and options, what DotWriter writes is a well-formed DOT document with one node for each subject and object, an edge for each statement from its subject's node to its object's, labelled with the predicate, and no other nodes or edges. "
  "Nodes have the shape, colour, label and URL of their kind, with all text escaped.",
  ["inputs", "configurations"], "every graph with any text in literals and IRIs, and every combination of the options",
  "Text that ends a quoted string, or two terms drawn as one node, needs particular graphs; there are no tests of more than one.",
  [IO + "dot/writer.rs"], [("DotWriter::write", IO + "dot/writer.rs")],
  "parser of the DOT language and comparison as labelled graphs",
  "Random graphs and options, sampled.")

P("W10", "Readers accept or refuse every input, and never crash",
  "The readers that are implemented (N-Triples, N-Quads, RDF/JSON, RDF/XML) return a graph or an error for every sequence of bytes, in reasonable time, and the same one each time. "
  "They never panic, overflow the stack, or accept bytes that are not text.",
  ["inputs"], "every sequence of bytes: damaged, truncated, random, mis-encoded, large and deeply nested documents, of any format",
  "Only inputs nobody thought of break a parser; tests give it well-formed ones.",
  [IO + "common/parser/", IO + "json/reader.rs", IO + "xml/reader.rs"], [("ObjectReader::read of each reader", IO)],
  "mutation, truncation and token fuzzing inside a process whose panics, aborts and hangs are seen",
  "Millions of inputs at the thorough tier; deep documents run in processes of their own.",
  observe=["the result of ObjectReader::read", "the end of the process"])

P("W11", "I/O failures are reported, and nothing else is changed by them",
  "When the sink or source of a writer or reader fails, at any byte and with any error, the call returns an error; it never reports success for a document that was not written or read to its end. "
  "A sink or source that takes or gives any number of bytes at a time, or is interrupted, gives the same result as one that does not, and the writer can be used again after a failure.",
  ["fault_sequences"], "every place of a failure in a document, every error kind, every way of cutting the document in pieces, for all writers and readers",
  "A result that is dropped shows only when that write fails; the tests' sinks never fail.",
  [IO], [("ObjectWriter::write and ObjectReader::read of all formats", IO)],
  "fault-injecting sinks and sources, compared with the run without faults",
  "At the thorough tier every place of a failure in small documents, otherwise sampled places.")

P("W12", "Readers and writers keep no state between documents",
  "A reader or writer used for any history of documents, with failures among them, gives for each the result a new one gives. "
  "Readers, and writers that can be shared, give the same results when threads use them at once as when one does.",
  ["histories", "schedules"], "every history of documents and failures on one set of instances; threads at once on shared graphs and writers",
  "State left over shows in the next document only; each test uses a new instance.",
  [IO], [("the writers' RefCell state", IO + "turtle/writer.rs"), ("ObjectWriter and ObjectReader instances", IO)],
  "differential comparison of used and new instances over random histories, and threads behind a barrier",
  "Histories of up to 16 documents; 8 real threads, the interleavings that occur.")

CLI = "rdftk_cli/src/"

P("T01", "The command-line tool converts and draws faithfully",
  "For every document that the library reads, 'rdftk convert' writes, to the file or stream asked for and nothing else, a well-formed document of the target representation with the same statements in the same graphs, and 'rdftk draw' a drawing of the graph, and the exit status is 0; logging does not mix with the documents. "
  "When the document is refused, cannot be represented, or cannot be read or written to the end, the tool ends with a message and a status that is neither 0 nor a panic's; the input file is never changed.",
  ["inputs", "configurations", "fault_sequences"], "every document and damaged document, every pair of representations that have a reader and a writer, files and pipes, full devices, closed pipes, missing files and directories",
  "There are no tests of the tool; a failure to write shows only on a full device, a lost data set only with that pair.",
  [CLI + "main.rs", CLI + "commands/mod.rs", CLI + "commands/representations.rs", CLI + "commands/draw.rs", IO],
  [("ConvertCmd and DrawCmd", CLI + "commands/"), ("read_graph, write_graph, read_dataset, write_dataset", CLI + "commands/mod.rs")],
  "processes run with injected faults, their output parsed by strict parsers and compared with the library's graph",
  "Documents sampled; the representations and commands that are 'not yet implemented' are excluded.",
  observe=["exit status, standard output and error, and files of the process"])
