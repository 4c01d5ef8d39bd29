LANGS=("C","Go","C#","TypeScript","AssemblyScript","Rust","Swift","Zig")
WIRE="Decided on every path of the generated source, for all inputs and values, for the languages %s and for a fixed family of protocols covering every member kind, nesting, size type, enum width and the message-count limits; other protocols are not analysed. Trusts the parsers and the library models (buffer, text and list operations) of the analysis. Thorough adds size-type combinations." % ", ".join(LANGS)
C16N="C: every failing exit of the stream processor and unpacker. Zig: every failing exit of every function that takes an allocator and may fail, calls among them summarised by their declared result type (modular), lists abstracted to the stretch filled so far. Same schema family as C01; Zig values released through pieces of another function's result are not followed."
CLAIMS={
"C01":("abstract interpretation of every generated reader (symbolic offsets, loop summaries over the iteration index), compared with the wire effect of the documented layout the writers are also compared with","other",WIRE),
"C02":("wire-effect inference: the ordered store events of every generated writer and the reads of every reader compared with the layout computed from docs/protocols.md","other",WIRE),
"C03":("abstract interpretation of getSizeInBytes/GetPackedSize into a closed-form expression, compared as a polynomial in list and string lengths with the end position the writer reaches","other",WIRE),
"C04":("wire-effect inference restricted to length prefixes, over protocols that combine every list size type with every string size type","other",WIRE),
"C05":("constant evaluation of tag tables plus wire-effect inference of tagged writers and of the stream dispatch","other",WIRE),
"C06":("abstract interpretation of the stream loop with inductive position invariants and per-message reader summaries; one obligation per tag value, exit and error","other",WIRE),
"C07":("wire-effect inference of the packer and closed-form evaluation of the packed size over an abstract message list","other",WIRE),
"C08":("abstract interpretation of the unpacker with summarised stream reader: every normal exit must imply header, count and length facts","other",WIRE),
"C09":("bounds-guard dataflow: every read's offset must be implied inside the input by the guards passed, and every normal exit must imply the whole value was present","other",WIRE),
"C10":("bounds-guard dataflow on the writers: every store's offset and width must be implied inside the capacity by the guards passed, and an undersized output must end in the language's error","other",WIRE),
"C11":("value-set analysis of every enum read: the set reaching the stored member must be the declared set","other",WIRE),
"C12":("constant evaluation of the generated enum tables and of the storage width used by reads, writes and sizes","other",WIRE),
"C13":("abstract evaluation of constructors and default initialisers to a value tree, compared with the documented defaults","other",WIRE),
"C14":("ownership-event analysis: abstract interpretation of reading (or creating) followed by every way of releasing, with acquire/release events per allocation and loop summaries per element; the events must cancel exactly","other","C and Zig, every message of the schema family, every path, any list and string lengths. In C also the release of a whole message list. Ownership errors in code the family does not exercise are not seen."),
"C15":("abstract interpretation of every generated C reader, constructor, stream processor and unpacker with every allocation free to fail: a null result must be tested before use and end in an error; stores must be implied inside the requested size","other","C only. All paths with any combination of failing allocations, for the schema family. malloc(0) returning null is not treated as a failure."),
"C16":("typestate of the message list and ownership-event analysis over every failing path of the stream processor and unpacker","other",C16N),
"C17":("declaration inventory of the parsed generated source against the protocol's declarations","other",WIRE),
"C19":("line- and token-level comparison of the generated sources under every option against the source generated without it (comments removed by the language's own comment rules)","other","Complete for the analysed (schema, language, option) triples: any difference other than leading whitespace, comments, or identifier spelling is reported. The schema family covers every member kind; other schemas are not analysed."),
"C21":("adversarial-name analysis: every local, parameter and loop variable declared in the generated sources is collected and used as a member name, in every member type and alone or with the member it is derived from; the resulting sources go through the target's type checker and the abstract interpretation, and are compared with a twin under neutral names","other","Decided for every name the generators introduce today and every name derived from a member's name, in all eight languages (Swift without the type checker). Two members that clash with each other are covered when one name is derived from the other; other pairs only as they happen to share a message. Clashes with names of types and methods are outside the statement."),
"C20":("comparison of generated sources outside comments, over protocol texts containing every arrangement of comment delimiters, line splices and trigraphs","other","Decided on the generated source after removing comments by each language's rules (nested for Rust and Swift, spliced lines for C). Covers every pair of delimiter fragments within a line and across a line end; longer arrangements are not enumerated."),
"C34":("typed lint over the Python syntax tree (set-typed iteration, directory listing, clock, randomness, environment, identity) plus region-and-effect analysis for state carried between generations","other","All modules of the package. Set types are inferred from assignments and returns; a set smuggled through a container of unknown type would be missed. Trusts that the standard library calls used are deterministic."),
"C35":("region-and-effect analysis: abstract interpretation of every writer's constructor and generate() that classifies each store, in-place operator and mutating call by the region of its receiver","other","All eight writers, all paths, all protocols: reports any reachable mutation of the protocol, the option dictionary, or module/class/default-argument state. Aliases created through containers are merged (may-alias); reflection (exec, ctypes) is not modelled."),
"C18":("type-checking of every generated source by the target compiler's own front end (gcc/g++, csc, go vet, rustc metadata, tsc, zig semantic analysis), no code run","other","Complete for the analysed sources: every type error, unresolved name or warning in code generated for the protocol family and option sets is reported. The family covers every member kind, nesting, size type and option, not every protocol. AssemblyScript is checked with tsc and a shim; Swift has no compiler in this sandbox."),
"C30":("abstract interpretation of the protocol loader (string, number and list domains) over abstract documents, one family per documented rule; every path of every invalid document must end in an exception","other","The documents are abstract: names are texts of any length and characters, values any number, lists have summarised stretches, so each covers unboundedly many files. Documented rules are the 605 ways of breaking a document that are enumerated; other malformed files are not analysed. Any exception counts as rejection."),
"C31":("abstract interpretation of the protocol loader over every reference graph of bounded size, with a step budget deciding termination","other","Graphs up to the sizes in DESIGN.md (every digraph on 3 types with 2 references, 5 with 1, ...); larger graphs are not analysed. Names are abstract."),
"C32":("abstract interpretation of the protocol loader over abstract valid documents: no path may end in an exception, and the loaded declarations must mirror the document","other","Same domains as C30; the valid documents cover every declaration kind, option and order of declaration, not every protocol."),
"C33":("abstract interpretation of the command line driver over every argument combination and every failure point (effects: status, stream writes, output opens)","other","All paths of the driver, from the console script and from python -m. The protocol loader and writers are stubs that may raise; the loader's exception types are those listed in sa/clicheck.py."),
"C36":("lint over the Python syntax tree with import, constant and call-site resolution","other","Decides that every text-mode file opening in the package names UTF-8, for all paths and inputs. Trusts Python's own parser; stdout encoding is not covered (no file is opened)."),
}
NA={
"C40":"Bit patterns through float conversions are runtime values of the target runtimes; no static argument in reach bounds them. The structural part (declared width and endianness of float reads/writes) is decided under C01/C02.",
"C41":"Quantifies over runtime allocation volume driven by input values; every list reader allocates from the wire count by design, and no documented bound exists to check against.",
}
