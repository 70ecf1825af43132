# property texts; executed by make_meta.py
TESTS = "The 19 tests expand a handful of hand-written graphs of two to ten triples, always in the same store order, and look for one or two expected triples; "
prop("C01", "OWL 2 RL expansion is the exact rule closure",
     "For every well-formed RDF graph, expanding it with the OWL 2 RL semantics adds exactly the triples derivable by the OWL 2 RL/RDF rules "
     "the library documents (plus the requested axiomatic triples): nothing derivable is missing and nothing that is not derivable appears. "
     "The answer does not depend on which graph kind or named graph the triples sit in.",
     ["inputs", "schedules", "configurations"],
     "every well-formed input graph (lists acyclic and complete, list nodes not equated), every order in which the store enumerates triples, "
     "every store layout, with and without axioms and datatype axioms",
     TESTS + "they can neither show that a rule fires whatever order its premises arrive in nor that no unlisted triple is produced.",
     ["owlrl/OWLRL.py", "owlrl/Closure.py", "owlrl/AxiomaticTriples.py", "owlrl/XsdDatatypes.py"],
     [("rule groups applied to each triple per cycle until nothing new", "owlrl/Closure.py:closure"),
      ("OWL RL rule tables 4-9", "owlrl/OWLRL.py:_equality,_properties,_classes,_class_axioms,_schema_vocabulary"),
      ("datatype rules", "owlrl/OWLRL.py:_one_time_rules_datatypes")],
     ["the expanded graph"],
     "Seeded exploration; oracle is an independent indexed semi-naive evaluator of the W3C rule tables with a lower and an upper bound (they differ "
     "only where the documentation leaves literal identity open). Trusts rdflib's memory store index logic. Bounds: closures up to ~450 triples.",
     tech="seeded store schedules and layouts, every result compared with an independent executable rule model")
prop("C02", "RDFS expansion is the exact rule closure",
     "For every RDF graph, expanding it with the RDFS semantics adds exactly the triples derivable by the RDF(S) entailment rules, the requested "
     "axiomatic triples (with container-membership axioms for the rdf:_n properties in use), and copies of statements for literals with identical value; "
     "nothing is missing and nothing else appears.",
     ["inputs", "schedules", "configurations"],
     "every input graph, every store enumeration order, every layout, axioms and datatype axioms on or off, both literal-conversion settings",
     TESTS + "RDFS is touched by two of them and the value-identity rule by none.",
     ["owlrl/RDFSClosure.py", "owlrl/Closure.py", "owlrl/AxiomaticTriples.py"],
     [("RDFS rules per triple", "owlrl/RDFSClosure.py:rules"), ("one-time literal rule", "owlrl/RDFSClosure.py:one_time_rules"),
      ("container axioms", "owlrl/RDFSClosure.py:add_axioms")],
     ["the expanded graph"],
     "Seeded exploration against an independent rule model with lower and upper bound. Literal identity is judged by the model's own XSD value "
     "mapping where it is unambiguous.",
     tech="seeded store schedules and layouts, every result compared with an independent executable rule model")
prop("C03", "Combined RDFS and OWL RL (and extensions) is one joint fixpoint",
     "For every well-formed graph, the combined RDFS+OWL RL semantics, with or without the library's extensions (restricted datatypes, extra OWL 2 "
     "features, rational numbers), yields exactly the joint closure of both rule sets: consequences of one set feed the other until nothing new follows, "
     "and nothing outside that closure appears.",
     ["inputs", "schedules", "configurations"],
     "every well-formed input graph, enumeration order, layout and axiom option",
     TESTS + "only one uses the combined closure and none crosses the two rule sets over several cycles.",
     ["owlrl/CombinedClosure.py", "owlrl/OWLRLExtras.py", "owlrl/OWLRL.py", "owlrl/RDFSClosure.py"],
     [("both rule sets in one cycle", "owlrl/CombinedClosure.py:rules"), ("full binding triples", "owlrl/CombinedClosure.py:add_axioms"),
      ("extension rules", "owlrl/OWLRLExtras.py:rules")],
     ["the expanded graph"],
     "Seeded exploration against the independent rule model; upper bound is loose around owl:rational typing of integers and around facets whose "
     "comparison is undefined.",
     tech="seeded store schedules and layouts, every result compared with an independent executable rule model")
prop("C04", "Inconsistencies are reported exactly when derivable",
     "For every well-formed graph, an expansion under an OWL RL semantics leaves an error report (a blank node typed as error message with one readable "
     "message naming the offending terms) for every inconsistency the OWL 2 RL rules derive, including ones that only become visible through derived triples. "
     "A consistent graph gets no report, and the expansion itself completes in both cases.",
     ["inputs", "schedules", "configurations"],
     "every well-formed graph with or without inconsistencies, every enumeration order and layout",
     TESTS + "only two of them look for an error at all, and none shows that consistent graphs stay free of reports.",
     ["owlrl/OWLRL.py", "owlrl/Closure.py", "owlrl/RestrictedDatatype.py"],
     [("error-raising rules", "owlrl/OWLRL.py:add_error call sites"), ("report emission", "owlrl/Closure.py:closure"),
      ("lexical check", "owlrl/OWLRL.py:_one_time_rules_datatypes")],
     ["error nodes in the expanded graph"],
     "Seeded exploration; the model derives the set of inconsistency instances, each must be matched by a message naming its terms and vice versa.",
     tech="seeded store schedules, error reports compared with the inconsistencies an independent rule model derives")
prop("C05", "The closure is independent of evaluation order, hashing and graph layout",
     "Expanding the same set of triples always gives the same graph up to renaming of blank nodes of error reports: the order in which the store returns "
     "triples, the insertion order, the interpreter's hash seed, and how triples are spread over the named graphs of a dataset make no difference.",
     ["schedules", "inputs", "configurations"],
     "every pair of enumeration orders, insertion orders, layouts and hash seeds over every graph",
     TESTS + "a test runs one order in one process; order dependence shows only when executions are compared.",
     ["owlrl/Closure.py", "owlrl/OWLRL.py", "owlrl/RDFSClosure.py"],
     [("per-cycle buffer of new triples", "owlrl/Closure.py:store_triple,flush_stored_triples")],
     ["the expanded graph", "error messages"],
     "Differential: no model involved. Each graph is expanded under several schedules in one interpreter and again in a second interpreter with another "
     "hash seed.",
     tech="differential comparison of the same input under several seeded schedules, layouts and hash seeds")
prop("C06", "Expansion never removes or alters asserted triples",
     "Whatever happens during an expansion - success, an inconsistency, a store failure, an interrupt or a crash at any point - every triple the user "
     "asserted is still there, in the named graph it was in, and no named graph other than the one receiving results is written to. The only exception are "
     "statements whose predicate is a blank node, which the OWL semantics take out of the graph they process.",
     ["inputs", "crash_points", "fault_sequences", "configurations"],
     "every graph, layout and semantics, with and without one store fault or crash at any store operation",
     TESTS + "none checks what is preserved and none makes the store fail.",
     ["owlrl/Closure.py", "owlrl/OWLRL.py", "owlrl/OWLRLExtras.py"],
     [("additive store", "owlrl/Closure.py:flush_stored_triples"), ("removal of bnode predicates", "owlrl/OWLRL.py:post_process")],
     ["per-context contents before and after", "log of store writes"],
     "Seeded exploration; the write log is inspected at every operation, contents at the end, also after an injected failure. The trimming semantics are "
     "covered by C18.",
     tech="seeded faults and crashes at every store call site; write log and contents checked against what was asserted")
prop("C07", "A separate destination receives exactly the new triples",
     "When a destination graph is given, the source graph (or dataset) is left exactly as it was and the destination receives every triple the in-place "
     "expansion would have added, computed over source and destination together, and nothing that the source already holds; neither depends on whether the source is a plain graph, a dataset, or "
     "the destination is given by name.",
     ["inputs", "configurations", "schedules"],
     "every graph, every way of naming source and destination that share a store, every semantics",
     TESTS + "one test passes a destination, with one graph and one semantics.",
     ["owlrl/Closure.py", "owlrl/__init__.py"],
     [("destination resolution", "owlrl/Closure.py:__init__"), ("writes go to destination", "owlrl/Closure.py:store_triple")],
     ["source contents", "destination contents"],
     "Differential against the in-place expansion in a pristine process, plus exact source comparison.",
     tech="differential simulation of in-place and separate-destination expansion under seeded schedules and layouts")
prop("C08", "Storage failures surface; nothing is silently incomplete",
     "If the store fails during an expansion (a read, a cursor in the middle of an iteration, a membership test, an insert or a removal raises), the "
     "expansion call raises as well; it never returns as if nothing had happened.",
     ["fault_sequences", "inputs", "configurations"],
     "every kind of store error at every store operation of every expansion",
     "No test makes the store fail; a swallowed error is indistinguishable from success in a test that never injects one.",
     ["owlrl/Closure.py", "owlrl/RestrictedDatatype.py", "owlrl/OWLRLExtras.py", "owlrl/__init__.py"],
     [("no blanket exception handlers around store access", "owlrl/*.py")],
     ["outcome of expand", "graph after retry"],
     "A rehearsal run lists every store call site; faults are drawn over call sites first so rare sites are hit as often as hot ones. Up to six single "
     "faults per run; what is left behind is judged for soundness (retries: C09, C15).",
     tech="seeded store faults at every call site, the call must raise and leave only sound triples")
prop("C09", "After a crash, expanding again converges to the closure of the input",
     "If the process dies at any point of an in-place or separate-destination expansion, what is left in the store is sound (only asserted or entailed "
     "triples), and expanding again from whatever was durable reaches the closure of the original input - however often it crashes, whatever suffix or subset "
     "of the latest inserts was lost.",
     ["crash_points", "fault_sequences", "inputs", "schedules"],
     "every crash point, one to three crashes, lost tails and lost random subsets of unsynced inserts, every restart under another schedule",
     "No test crashes an expansion or expands a partially expanded graph.",
     ["owlrl/Closure.py", "owlrl/OWLRL.py", "owlrl/RDFSClosure.py"],
     [("no progress state outside the graph", "owlrl/Closure.py:closure"), ("monotone rules", "owlrl/OWLRL.py")],
     ["durable store contents", "closure after restart"],
     "Lower bound: closure of the original input; upper bound: inductively, each life adds only what is entailed by what it started from (one-time "
     "datatype rules see earlier lives' results).",
     tech="seeded crashes with lost writes, restart in a pristine process, durable state and final closure judged by the reference model")
prop("C10", "Literal conversion settings are exactly what was last asked for",
     "Outside an expansion, RDFLib's lexical-to-value conversions are always those of the last explicit switch (RDFLib's own by default); during an expansion "
     "they are the ones its improved_datatypes option calls for. However a call ends - normally, with an error or an interrupt - the conversions afterwards are "
     "the ones from before it, except for datatypes the user registered.",
     ["histories", "fault_sequences", "configurations"],
     "every history of expansions, explicit switches, rejected calls and user-registered datatypes, failing at any point",
     "The tests look at one literal after one call; none makes a call fail or runs more than two calls in one process.",
     ["owlrl/DatatypeHandling.py", "owlrl/__init__.py", "owlrl/RestrictedDatatype.py"],
     [("switch to and back", "owlrl/DatatypeHandling.py:use_Alt_lexical_conversions,use_RDFLib_lexical_conversions"),
      ("scoped use in expand", "owlrl/__init__.py:DeductiveClosure.expand")],
     ["values and well-formedness of about 120 probe literals"],
     "Seeded histories. The expected conversions come from a pristine process put in the state the model of the switch predicts.",
     tech="seeded call histories with faults; literal conversion probed after and inside every call against a pristine process")
prop("C11", "An expansion's outcome does not depend on what ran before it",
     "In one process, the outcome of every expansion - contents of each named graph, reports, or the error raised - is the same as if it were the first "
     "thing the process did, whatever expansions, failures, restricted datatypes or reused reasoner objects came before.",
     ["histories", "fault_sequences", "inputs"],
     "every history of expansions of every semantics in one process, including failed ones",
     "Each test is one call on its own graph; module-level state that leaks from one call to the next is only visible in histories.",
     ["owlrl/__init__.py", "owlrl/OWLRLExtras.py", "owlrl/RestrictedDatatype.py", "owlrl/DatatypeHandling.py", "owlrl/XsdDatatypes.py"],
     [("per-instance copies of datatype tables", "owlrl/OWLRL.py:add_new_datatype"), ("fresh reasoner per call", "owlrl/__init__.py:expand")],
     ["outcome of each call"],
     "Differential: same call in a process forked before the first call.",
     tech="seeded call histories with faults, each outcome compared with the same call in a pristine process")
prop("C12", "Concurrent use from several threads is linearizable",
     "When several threads expand their own graphs or switch literal conversions at the same time, each call's outcome and the conversions afterwards are as "
     "if the calls had run one after another in some order compatible with their start and end; no call deadlocks.",
     ["schedules", "histories", "fault_sequences"],
     "every interleaving of two to four threads at the granularity of library lines and store and lock operations, one of the calls possibly failing",
     "No test starts a thread; the conversion tables are process-wide, so only an interleaving inside a call can expose interference.",
     ["owlrl/__init__.py", "owlrl/DatatypeHandling.py"],
     [("lock around the scoped conversion switch", "owlrl/DatatypeHandling.py"), ("expand", "owlrl/__init__.py:DeductiveClosure.expand")],
     ["outcome per call", "probe literals at the end"],
     "Seeded baton scheduling of real threads; history checked for linearizability against a one-variable model, outcomes against pristine processes. "
     "Graphs are built before the threads start.",
     tech="seeded thread schedules under a baton scheduler, history checked for linearizability")
prop("C13", "Import closure fetches each imported document once and merges it",
     "interpret_owl_imports adds to the graph exactly the contents of all documents reachable through owl:imports, each fetched once, in the format asked for, "
     "whatever the import graph looks like (cycles, diamonds, self-imports). A document that cannot be fetched or parsed is reported, loses neither the "
     "import statement nor anything else, and is picked up by a repeated call.",
     ["inputs", "fault_sequences", "histories"],
     "every import graph, format, order of statements; every network, file and store fault, and the repetition after it healed",
     "No test imports anything; the tests have no network and no cyclic import.",
     ["owlrl/__init__.py"],
     [("import traversal", "owlrl/__init__.py:interpret_owl_imports")],
     ["graph contents", "documents requested"],
     "Oracle: set union over reachability in the simulated web. Documents that are fetched are parsed by RDFLib's real parsers.",
     tech="simulated network and file system with seeded faults, graph and request log compared with reachability model")
prop("C14", "Conversion front ends deliver the closure of all their sources",
     "convert_graph and the owlrl command produce, in the requested format, exactly the closure that the chosen options ask for of everything their sources "
     "(files, URLs, standard input, inline text, imports) say. If a source cannot be read or is not parsable the failure is reported, never passed over silently "
     "as a document with less in it.",
     ["configurations", "inputs", "fault_sequences"],
     "every combination of options, sources, formats and entry points, every network, file, output and store fault",
     "No test calls convert_graph or the command; the option combinations alone are in the thousands.",
     ["owlrl/__init__.py", "scripts/owlrl"],
     [("option to semantics mapping", "owlrl/__init__.py:return_closure_class,convert_graph"), ("command line", "scripts/owlrl"),
      ("source parsing", "owlrl/__init__.py:__parse_input")],
     ["serialized output", "exit status", "error raised"],
     "The output is parsed back and compared with the reference model for the documented semantics of the option combination.",
     tech="simulated network, files and streams with seeded faults; output compared with the reference closure of the sources")
prop("C15", "Repeated and incremental expansion equals expansion from scratch",
     "After any history of adding statements, expanding (with the same or another semantics, fresh or reused reasoner), retracting and failing, each successful "
     "expansion leaves the store holding exactly the closure of what it held before: nothing is missed because parts were already expanded, nothing stale is added.",
     ["histories", "inputs", "fault_sequences", "schedules"],
     "every history of batches, expansions, retractions and store failures over one store",
     "The tests expand each graph once; an engine that remembers or short-cuts between expansions passes all of them.",
     ["owlrl/Closure.py", "owlrl/__init__.py"],
     [("fixpoint over the current graph", "owlrl/Closure.py:closure")],
     ["store after every expansion"],
     "Judged after every step by the reference model on what the store held before the step.",
     tech="seeded histories of updates, expansions and faults over one simulated store, each step judged by the reference model")
prop("C16", "Any RDF graph can be expanded: no crash, no hang, no false entailment",
     "Expanding any RDF graph whatsoever - broken, cyclic or branching lists, odd cardinalities and facets, ill-typed literals, literals as subjects of "
     "derivations, vocabulary used as data - terminates and either succeeds or explicitly refuses a malformed construct; it keeps the input and derives only "
     "legal consequences.",
     ["inputs", "schedules", "configurations"],
     "every graph made of OWL/RDFS vocabulary in any positions, every semantics",
     TESTS + "all of them are well formed.",
     ["owlrl/OWLRL.py", "owlrl/RDFSClosure.py", "owlrl/RestrictedDatatype.py", "owlrl/DatatypeHandling.py"],
     [("rule premises", "owlrl/OWLRL.py"), ("facet extraction", "owlrl/RestrictedDatatype.py:extract_faceted_datatypes")],
     ["outcome of expand", "graph after"],
     "Bound on library lines for termination; upper bound of the model is relaxed where a malformed list leaves membership open.",
     tech="seeded hostile graphs under seeded schedules with a step budget; outcome classified, soundness checked against the model")
prop("C17", "Restricted datatypes classify literals exactly by base type and facets",
     "With the extended semantics, a literal is typed with (or accepted for) a facet-restricted datatype exactly if it is in the value space of the base type and "
     "satisfies every facet, wherever the facets are stated; some- and all-values-from over such types follow, and violations are reported as inconsistencies. "
     "A store failure in between surfaces.",
     ["inputs", "configurations", "fault_sequences"],
     "every base type and combination of facets the library supports, every literal, every layout",
     TESTS + "one test restricts xsd:integer with two bounds and looks at one literal.",
     ["owlrl/RestrictedDatatype.py", "owlrl/OWLRLExtras.py", "owlrl/DatatypeHandling.py"],
     [("facet checks", "owlrl/RestrictedDatatype.py:_check_*,RestrictedDatatype"), ("typing of literals", "owlrl/OWLRLExtras.py:restriction_typing_check")],
     ["rdf:type statements of literals and subjects", "reports"],
     "Oracle: the model's own value mapping and facet semantics (XSD 1.1), three-valued for incomparable values.",
     tech="seeded facet sets, literals, layouts and store faults; classification compared with an independent XSD value model")
prop("C18", "Trimming removes exactly the listed by-products and nothing else",
     "The trimming semantics yield the extended closure minus the documented trivial by-products; statements that merely resemble one stay, everything else that "
     "was derived stays, graphs other than the one receiving results are untouched, and a failure in the trimming step surfaces and a repetition completes it.",
     ["inputs", "configurations", "fault_sequences", "schedules"],
     "every graph and layout, statements one term away from a by-product, a fault at any store operation of the trimming step",
     "No test uses the trimming semantics at all.",
     ["owlrl/OWLRLExtras.py"],
     [("clean-up after the fixpoint", "owlrl/OWLRLExtras.py:OWLRL_Extension_Trimming.post_process")],
     ["graph contents"],
     "Model closure minus an independent predicate for the documented by-products.",
     tech="seeded near-miss by-products, layouts and faults; result compared with the model closure minus documented by-products")
prop("C19", "User-defined semantics take part in the closure like built-in ones",
     "Rules, one-time rules, axioms, checks, datatypes and typing vetoes that a subclass adds through the documented hooks are applied to the same fixpoint as "
     "the built-in rules, in the documented order of hooks, with every input and layout. If a user-defined rule raises, the exception reaches the caller, nothing "
     "asserted is lost and the call can be repeated.",
     ["programs", "inputs", "configurations", "fault_sequences"],
     "every combination of base semantics and user-defined parts, every input and layout, user code failing at any call",
     "No test defines a semantics of its own, although the documentation offers it as the extension mechanism.",
     ["owlrl/Closure.py", "owlrl/OWLRL.py", "owlrl/__init__.py"],
     [("hook protocol", "owlrl/Closure.py:Core.closure"), ("user-defined datatypes", "owlrl/OWLRL.py:add_new_datatype"),
      ("veto", "owlrl/OWLRL.py:restriction_typing_check")],
     ["the expanded graph", "order of hook calls", "reports"],
     "User-defined rules are generated from the same texts for the class under test and for the model.",
     tech="seeded user-defined semantics classes, schedules and faults in user code; result compared with the extended reference model")
prop("C20", "Every web service request gets one complete and correct response",
     "The CGI service answers every request - GET or POST, fields in any order or repeated, invalid, or hit by a network or store failure - with one complete "
     "response: the graph its fields ask for (the closure of everything its sources and text say) under the content type of the requested format, or else an "
     "error status with a complete page in which nothing the request said becomes markup. Failures and invalid requests never yield a graph.",
     ["configurations", "inputs", "fault_sequences"],
     "every combination of form fields, encodings, sources and formats, every network or store failure at any point of the request",
     "No test touches the service script; its error path runs only when something fails in the middle of a request.",
     ["scripts/RDFConvertService", "owlrl/__init__.py"],
     [("form fields to options", "scripts/RDFConvertService:Options"), ("answer or error page", "scripts/RDFConvertService"),
      ("conversion", "owlrl/__init__.py:convert_graph")],
     ["the bytes the script writes, read as a web server reads them"],
     "The real script runs under a simulated CGI environment; the oracle is the reference model on what RDFLib's parsers make of the simulated documents. "
     "File uploads and local file names as sources are not generated.",
     tech="simulated CGI requests with seeded network and store faults; response parsed and compared with the reference closure")
na("C50", "Lexical-to-value conversions implement XSD for every lexical form",
   "For every datatype of the OWL 2 RL datatype map, the library's improved conversions accept exactly the lexical forms XSD 1.1 allows and map them to the right value.",
   ["inputs"], "every string for each of the 30 datatypes", "Tests convert a handful of literals.",
   ["owlrl/DatatypeHandling.py"], [("conversion functions", "owlrl/DatatypeHandling.py:AltXSDToPYTHON")],
   "Pure functions of a string: no schedule, time, I/O, fault or history for a simulation to decide. What reaches an expansion is checked as part of C04 and C17.")
na("C51", "Language-range matching implements RFC 4647",
   "A rdf:langRange facet accepts a language tag exactly if extended filtering of RFC 4647 does.",
   ["inputs"], "every pair of range and tag", "One constant table, no test.",
   ["owlrl/RestrictedDatatype.py"], [("_lang_range_check", "owlrl/RestrictedDatatype.py:_lang_range_check")],
   "Pure function of two strings; the family has nothing to vary. C17 uses it with a sample of ranges only.")
