"""What decides each property: the analyses it needs, the rule applied, and what that covers."""

SER = ("Every writer generated for the fixture types (all derive shapes and options crossed with namespace/prefix/"
       "nesting combinations), the derive output and the library code under it are analysed as monomorphic MIR, over "
       "all values of the fixture types, by a path-sensitive typestate analysis run to a fixpoint. ")

T_SER = "path-sensitive typestate dataflow (abstract interpretation of monomorphic MIR to a fixpoint)"
N_SER = ("Covers every value of each analysed fixture type on the code as built from /repo; the fixture types sample the "
         "derive configurations. Trusted: the models of std/chrono operations, the text abstraction, rustc's MIR. "
         "Paths outside the models are given up, counted in the evidence and never reported.")

DE = ("Every reader generated for the fixture types, and the library code under it, is analysed on a symbolic element: the "
      "deserializer may yield any attribute, text, child element, end or error at each step, names, namespaces and texts being "
      "symbolic and related to the configured ones as the code compares them. The monitor assigns every node to a field "
      "independently of the code, follows the consumption of every element, and compares the result. ")
N_DE = ("Covers every element content, of any length, for each analysed fixture type; the fixture types sample the derive "
        "configurations. The deserializer itself (tokens to nodes) is replaced by its contract. Trusted: the models of "
        "std/chrono operations, rustc's MIR. Paths outside the models are given up, counted in the evidence and never reported.")

TOK = ("Hand-written readers that use the public reading interface, and the whole deserializer under them, are analysed with the "
       "tokenizer replaced by its grammar: at each call it may yield any token it can yield there, with symbolic names, namespaces "
       "and texts. The monitor is a token-level reader of the nesting and namespace rules, written independently of the code; it says "
       "which nodes are due and for which documents an error is. Siblings are unbounded (fixpoint); nesting depth, attributes and "
       "declarations per element are bounded as stated by the jobs. ")
N_TOK = ("Covers every document within the stated nesting depth and attributes/declarations per element, of any length. Trusted: the "
         "grammar of the xmlparser tokenizer as modelled, the models of std collections, rustc's MIR. Paths outside the models are "
         "given up, counted in the evidence and never reported.")

PROPS = {
    "C07": {"modules": ["run_tok"], "level": "other", "technique": T_SER, "note": N_TOK,
            "rule": "no path to Ok on a token sequence with a stray, mismatched or missing end tag, with content after the root, or that ends early; start tags and ends are handed out exactly where the document has them, and skipping stops exactly at the end of the skipped element",
            "explanation": TOK},
    "C08": {"modules": ["run_tok"], "level": "other", "technique": T_SER, "note": N_TOK,
            "rule": "Ok iff no element has more attributes, levels above it or prefix declarations than the limit; the limits are symbolic numbers (caller's limits) or the documented defaults (counted out)",
            "explanation": TOK},
    "C06": {"modules": ["run_tok", "run_de"], "level": "other", "technique": T_SER, "note": N_TOK,
            "rule": "no path reaches a panic (unwrap, expect, index or slice out of bounds, explicit panic, failed assertion) in the deserializer, the decoding of texts, the library's readers or the derived readers",
            "explanation": TOK + DE},
    "C11": {"modules": ["run_tok", "run_de"], "level": "other", "technique": T_SER, "note": N_TOK,
            "rule": "what is handed out for a source text is its image with exactly the references replaced, each by the character it denotes; no path rejects a text whose references are all valid, or accepts one with an invalid reference; CDATA and decoded text reach the value unchanged, once",
            "explanation": TOK + "The decoding of texts itself is analysed on a symbolic text, byte by byte: texts are abstracted to positions, byte classes and replacement images. " + DE},
    "C12": {"modules": ["run_tok"], "level": "other", "technique": T_SER, "note": N_TOK,
            "rule": "each name handed out resolves to the namespace of the nearest enclosing declaration, unprefixed attributes to none, xml to its fixed namespace, and undeclared prefixes to an error",
            "explanation": TOK},
    "C22": {"modules": ["run_tok"], "level": "other", "technique": T_SER, "note": N_TOK,
            "rule": "no path to Ok on a token sequence with a DTD, entity declaration or processing instruction, read or skipped; no document is rejected for its comments or its leading XML declaration",
            "explanation": TOK},
    "C01": {"modules": ["run_ser"], "level": "other", "technique": T_SER, "note": N_SER,
            "rule": "the sequence of writes is a balanced, well-formed tag structure on every path to Ok",
            "explanation": SER + "The monitor is an XML tag reader over the emitted text: unbalanced or malformed tags, "
            "repeated attributes and text where markup is due are reported."},
    "C02": {"modules": ["run_ser"], "level": "other", "technique": T_SER, "note": N_SER,
            "rule": "text of a value reaches the output only as the character-by-character escaped image of that text",
            "explanation": SER + "Text is abstracted to positions, character classes and replacement images of the source text; "
            "at every write the image must cover the whole text, copy no markup character and replace the five by their references."},
    "C03": {"modules": ["run_ser"], "level": "other", "technique": T_SER, "note": N_SER,
            "rule": "every written element and attribute name resolves, under the declarations in scope at that point, to the configured namespace",
            "explanation": SER + "The monitor keeps the namespace scope of every open element, as an XML reader would."},
    "C04": {"modules": ["run_ser"], "level": "other", "technique": T_SER, "note": N_SER,
            "rule": "each present field is written exactly once in declaration order, absent ones not at all",
            "explanation": SER + "The expected content is expanded from the fixture's description as facts about the value become known."},
    "C05": {"modules": ["run_ser"], "level": "other", "technique": T_SER, "note": N_SER,
            "rule": "no path on which a write or a nested serializer failed returns Ok",
            "explanation": SER + "Each write, and each nested ToXml implementation of the failing fixture, may fail."},
    "C13": {"modules": ["run_ser", "run_de"], "level": "other", "technique": T_SER, "note": N_SER,
            "rule": "names and namespaces written are those the configuration states, and an element with the configured names and valid content is read, field by field, into the value it denotes",
            "explanation": SER + DE + "The expected names come from an independent description of the derive options."},
    "C19": {"modules": ["run_ser", "run_de"], "level": "other", "technique": T_SER, "note": N_SER,
            "rule": "each scalar is written by the conversion its documented lexical form requires, and read by the inverse conversion applied to exactly the text of its node",
            "explanation": SER + DE},
    "C09": {"modules": ["run_de"], "level": "other", "technique": T_SER, "note": N_DE,
            "rule": "no path to Ok on which two nodes were assigned to one single-valued field (the error is DuplicateValue); collections end up with exactly the values of their nodes, appended in input order",
            "explanation": DE},
    "C10": {"modules": ["run_de"], "level": "other", "technique": T_SER, "note": N_DE,
            "rule": "the reader goes on in an element only after its current child was read to its end; a prepared node is read by the field it was prepared for; Ok only at the end of the element",
            "explanation": DE},
    "C14": {"modules": ["run_de", "run_tok"], "level": "other", "technique": T_SER, "note": N_DE,
            "rule": "no path to Ok on which the deserializer, a name resolution or the conversion of a text reported an error, nor on a faulty token sequence, whether it is read or skipped",
            "explanation": DE + TOK},
    "C15": {"modules": ["run_de", "run_tok"], "level": "other", "technique": T_SER, "note": N_DE,
            "rule": "the value of a field marked to borrow is the borrowed slice itself whenever the deserializer handed out a slice; a text without references and CDATA are handed out as slices",
            "explanation": DE + TOK},
    "C16": {"modules": ["run_de"], "level": "other", "technique": T_SER, "note": N_DE,
            "rule": "no path to Ok on which a required field was assigned no node (the error is MissingValue); optional fields without node are None, collections empty",
            "explanation": DE},
    "C18": {"modules": ["run_de"], "level": "other", "technique": T_SER, "note": N_DE,
            "rule": "each node is assigned by kind, local name and namespace to the field the configuration names; the result holds the value of that node and of no other, nodes of other names leave no trace, and a root that does not match is no Ok",
            "explanation": DE},
    "C20": {"modules": ["run_de", "run_own"], "level": "other", "technique": T_SER, "note": N_DE,
            "rule": "a captured element holds the name and namespace of the element, every attribute and child in order, and all of its text",
            "explanation": DE + "The recursion of AnyElement into its children is cut by induction: a nested capture is assumed to be complete."},
    "C17": {"modules": ["run_rej"], "level": "other",
            "technique": "compile-fail witnesses with compiling twins (type-level, decided by the compiler on the macros built from /repo)",
            "note": "Covers the enumerated configurations: every unsupported request of the statement crossed with the kinds of type, positions, "
                    "order of keys and split over several xml attributes. Nothing is run. Trusted: rustc; that the twin differs only in the request.",
            "rule": "each program of the table is refused by the compiler, while its twin without the unsupported request compiles",
            "explanation": "Each obligation is one type definition that asks for something unsupported, compiled for one derive macro; the "
                           "compiler's answer is the verdict. Witnesses whose twin does not compile are undecided."},
    "C23": {"modules": ["run_case"], "level": "other", "technique": T_SER, "note": N_SER + " Letters outside ASCII that have case, and results that are "
            "no XML names, are not claimed.",
            "rule": "the names in generated writers and readers are, for each rule and identifier, those of an independent definition of the rules",
            "explanation": "Writers and readers generated for all identifiers of up to three characters over the classes {lower, upper, digit, underscore, "
            "caseless letter} (readers: two) and a list of longer ones, under each of the eight rules and none, as fields, attributes, variants and fields of transparent types, "
            "are analysed as for the other properties; a type that misses its names is compared with a twin that states them explicitly."},
    "C21": {"modules": ["run_det"], "level": "other", "technique": "effect analysis over the call graph (monomorphic MIR), with def-use of hash-container visits",
            "note": "Covers everything reachable from the writers of the fixture types and every function of the derive macros; the bodies of the macros' "
                    "dependencies (syn, quote, proc_macro2) are trusted, as are the standard library's panic paths. Calls through trait objects are not followed.",
            "rule": "nothing reachable from a writer or from the macros visits a hash container in an order that its result depends on, reads a clock, the "
                    "environment, a file, a thread or process identity, random hash keys or an address, or keeps mutable global or thread-local state",
            "explanation": "Call graph of the monomorphic program with function items and pointers; obligations are the call sites and statements of every reachable "
                           "function. A visit of a hash container is judged by the uses of what it yields."},
}

NOT_APPLICABLE = {
    "C24": "Equality of a value with what its own document parses back to is a relation between two runs over runtime text; it is "
           "the composition of C02/C04/C13/C19 (writer) with C09-C14 (reader), which are decided separately; no static argument in "
           "reach bounds the composition itself (float formatting and parsing in core, chrono).",
    "C25": "Linear running time and memory are quantitative bounds over input sizes; the loops' costs depend on runtime lengths and on "
           "the external tokenizer, for which no sound static cost argument is in reach here.",
}
