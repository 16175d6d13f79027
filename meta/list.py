AI = "path-sensitive abstract interpretation of the Go SSA form (disjunctive value-numbering dataflow with loop fixpoints)"
SOUND = "Covers every input the abstraction ranges over; rests on the hand-written models of library calls listed in vt/models.go. An obligation the analysis cannot decide is reported as a violation."

prop("P01", "Reading a catalogue never panics",
 "Reading a PO, POT or MO catalogue, or loading catalogues through a file, directory or file-system binding, never panics, whatever bytes the file holds. A malformed catalogue is answered with an error.",
 ["inputs"], "every byte sequence given to a reader or found in a loaded file",
 "The tests feed a handful of well-formed and a few broken files; a panic needs a particular malformed header, offset table or line order out of unboundedly many.",
 ["translator/po.go", "translator/pot.go", "translator/mo.go", "translator/reader.go", "translaton.go"],
 [("bounds and nil checks before each index, slice and map write", "translator readers"), ("constructors create the maps later code writes to", "translator/file.go")],
 AI, "Every index, slice, division, nil dereference, map write, type assertion and explicit panic reachable from the readers and loaders is an obligation, discharged on all paths. " + SOUND)

prop("P02", "Memory used to read a catalogue follows from its real size",
 "While a catalogue is read, no buffer is created whose size is merely claimed by the file: each allocation is bounded by the amount of data really present. A tiny corrupt file cannot make the program allocate gigabytes.",
 ["inputs"], "every byte sequence given to a reader, including offset tables with arbitrary counts, lengths and offsets",
 "The tests only use consistent binary catalogues; a 28-byte file whose table claims a 4 GiB string is not among them.",
 ["translator/mo.go", "translator/reader.go", "translator/po.go"],
 [("comparison of a claimed length with the remaining data before allocation", "translator/mo.go")],
 AI, "Every make, Grow and reader call with a computed size reachable from the readers is an obligation: its size must be bounded by a constant or by the length of data already in memory. " + SOUND)

prop("P03", "Reading, looking up and saving terminate",
 "Reading a catalogue, looking up a message and saving a catalogue come to an end for every input. No file content and no message text can make them loop or recurse forever.",
 ["inputs"], "every byte sequence, message text, catalogue and line-length setting",
 "A test that terminates says nothing about the inputs it does not try; non-progress needs a particular combination such as a continuation line at the end of file or a text that wraps at zero width.",
 ["translator/reader.go", "translator/po.go", "translator/mo.go", "translator/wrap.go", "translator/util.go"],
 [("cursor advanced on every way round each loop", "translator readers"), ("splitting consumes at least one byte per step", "translator/wrap.go")],
 AI + " with a progress measure per loop and per recursive call", "Each loop is discharged by a strictly advancing bounded measure on every way round, each recursion by a strictly shrinking argument. " + SOUND)

prop("P04", "A catalogue is read completely or not at all",
 "A reader returns either a catalogue and no error or an error and no catalogue. It reports success only when every line or table entry was recognised and every underlying read succeeded, so no malformed part is silently skipped.",
 ["inputs", "fault_sequences"], "every byte sequence and every point at which an underlying read or unquoting may fail",
 "The tests assert a few error cases; that no other error is dropped needs all paths through the readers.",
 ["translator/po.go", "translator/pot.go", "translator/mo.go", "translator/reader.go"],
 [("error returned at each failed primitive read", "translator readers")],
 AI + " with a typestate on the errors of primitive reads", "On every path that continues or succeeds, each primitive read error is known nil and each consumed line positively recognised; binary files are accepted only under a known magic number. " + SOUND)

prop("P05", "Looking a message up never panics",
 "Translating a message never panics: whatever the message, context, count and arguments, whatever has been loaded or not loaded, and whatever the plural rule of the catalogue computes, every translation call returns a text.",
 ["inputs", "histories", "configurations"], "every message id, context, count and argument list; every loaded catalogue including inconsistent ones; every sequence of set-up calls",
 "The tests use catalogues whose plural rule and number of forms agree; a rule that yields an index at or beyond the number of translations appears only for particular counts.",
 ["gettext.go", "translations.go", "translaton.go", "translator/file.go", "translator/plural.go", "f/format.go"],
 [("index checked against the number of translations", "translator/file.go"), ("fallback translation for unknown domain or locale", "translations.go")],
 AI, "Every run-time panic reachable from every public translation entry point is an obligation. " + SOUND)

prop("P06", "A singular lookup yields the translation or the message itself",
 "Looking up a message without count yields its translation exactly when the selected domain has the selected locale, that catalogue has an entry for this very context and message, and the translation is not empty. In every other case it yields the message itself; either is then formatted with the given arguments and with nothing else.",
 ["inputs", "histories", "configurations"], "every context, message, argument list, catalogue content and selection of domain and locale",
 "The tests look up some fixed messages; they cannot exclude that a different combination of context, locale and emptiness selects another entry.",
 ["translations.go", "translaton.go", "translator/file.go", "translator/entry.go"],
 [("entry key built from context and message", "translator/entry.go"), ("fallback chain domain, locale, entry", "translations.go")],
 AI + ", compared with a decision table", "Every path outcome of the lookup is matched against a decision table over the membership conditions. " + SOUND)

prop("P07", "A plural lookup yields the form the plural rule selects",
 "Looking up a message with a count yields the translation whose index the catalogue's plural rule computes for that count, if the entry exists and has that form. Otherwise it yields the singular message for a count of one and the plural message for any other count; the text is then formatted with the given arguments.",
 ["inputs", "histories", "configurations"], "every context, message, plural message, 64-bit count, argument list, catalogue content and plural rule",
 "The tests sample counts for three or four languages; the choice depends on the count, the rule, the number of forms and the emptiness of forms together.",
 ["translations.go", "translaton.go", "translator/file.go", "translator/plural.go"],
 [("plural index checked against the number of forms before use", "translator/file.go")],
 AI + ", compared with a decision table", "Every path outcome of the plural lookup is matched against a decision table over membership, rule result and number of forms. " + SOUND)

prop("P08", "Every shorthand is the full lookup with the missing parts defaulted",
 "Each short translation call, on the package, on a set of translations or on a translation object, behaves exactly like the full call with an empty context, with no separate plural text, or with the count widened, as its name says. Arguments are passed on complete, unchanged and in order.",
 ["inputs", "configurations"], "every message, context, count and argument list, for every shorthand",
 "Tests call each shorthand with one or two values, so swapped texts, a dropped argument or a truncated count in one of them can go unseen.",
 ["gettext.go", "translations.go", "translator/plural.go", "translator/file.go"],
 [("delegation of each shorthand to the full call", "gettext.go, translations.go")],
 AI + ", value equality of each shorthand and its definition", "For every shorthand all path outcomes are proved equal, value and arguments, to the full call's. " + SOUND)

prop("P35", "The extraction tool records every message once and writes all of them",
 "The extraction tool records a message once per context and text: a further use of the same kind adds its comments to the first, and a use with a plural where the earlier one had none, or the other way round, is reported and changes nothing. The written template holds a header and every recorded message, and the header has a plural rule exactly if a recorded message has a plural.",
 ["inputs", "histories"], "every sequence of extracted uses of messages",
 "The tests extract a few templates without conflicts; which uses are merged, rejected or lost depends on the order and kinds of all uses in a run.",
 ["cmd/xtemplate/internal/param.go", "cmd/xtemplate/internal/run.go", "translator/file.go"],
 [("table of entries keyed by context and text", "cmd/xtemplate/internal/param.go"), ("mark that a plural was recorded", "cmd/xtemplate/internal/param.go")],
 AI + ", compared with a decision table, and an inventory of all writes to the table", "The recording function is compared with a table of three cases, every other write to the recorded data is excluded, and every path to the template writer has added the header and, in a complete sweep, all messages. " + SOUND)

prop("P36", "Formatting and default plural choice follow their rule for all values",
 "A text is returned untouched when no arguments are given, and otherwise formatted with exactly the given arguments, surplus ones being ignored rather than reported inside the text. Without a catalogue the singular is chosen exactly for a count of one.",
 ["inputs"], "every format text, argument list and 64-bit count",
 "The tests sample a few formats and counts.",
 ["f/format.go", "translator/plural.go"],
 [("arguments handed to the formatter", "f/format.go"), ("default choice of form", "translator/plural.go")],
 AI + ", compared with a decision table", "All path outcomes of formatting and default plural choice match a decision table. " + SOUND)

prop("P09", "Looking up and listing never change anything",
 "Translating a message, asking for the current domain, locale or the supported locales and obtaining a derived handle change nothing that another caller can see: no catalogue, no handle and no package-level variable. So any number of goroutines may translate at the same time as long as nobody sets up or loads.",
 ["schedules", "inputs"], "every interleaving of read-only calls on shared handles and catalogues, with every message and argument",
 "A data race needs two lookups at the same moment on particular values; tests look messages up one after another and never see a lazily filled cache being written.",
 ["translations.go", "translaton.go", "gettext.go", "translator/file.go", "translator/plural.go", "locale/detect.go", "plurals/plurals.go", "init.go"],
 [("lookups only read shared maps and fields", "translations.go, translator/file.go"), ("write-once initialisation behind sync.Once or a lock", "locale/detect.go, plurals/plurals.go")],
 "effect analysis over path-sensitive abstract interpretation with lock and once typestate", "Every store, map write, append and copy reachable from a read-only entry point must hit an object the call created or be guarded by a mutex or a once; guarded state must be read under the same guard. " + SOUND)

prop("P10", "Derived handles do not influence each other",
 "A handle derived from another one, by choosing a domain or a locale, by copying the global one or through a context, starts with the same domains, differs exactly in what was chosen and owns its settings. Later changes to one, binding and removing domains included, never show in the other; the stand-in for an unknown domain is not shared either.",
 ["histories", "inputs"], "every sequence of deriving, setting, binding, removing and clearing on a family of handles",
 "Tests derive one handle and check it; that a later change of either leaves the other alone needs every pair of operations on every alias.",
 ["translations.go", "gettext.go", "init.go"],
 [("copy of the domain table when a handle is derived", "translations.go"), ("methods write only to their own handle", "translations.go")],
 AI + " with ownership and effect analysis", "Each derivation returns an object and a table created by the call with equal content; every mutator's writes are confined to its receiver. " + SOUND)

prop("P11", "A handle uses its own settings, the package calls the global handle's",
 "Every operation on a handle looks at that handle's domain, locales and catalogues and never at the global ones. Every package-level function behaves exactly like the operation of the same name on the global handle.",
 ["histories", "configurations"], "every method of a handle and every package-level function, for every state of both handles",
 "Tests run mostly against the global handle, so a method that consults it instead of its own receiver gives the same answers there.",
 ["init.go", "translations.go", "gettext.go", "context.go"],
 [("delegation to the package-level handle", "init.go, gettext.go")],
 AI + ", read-set analysis and value equality of outcomes", "No method reads the package-level handle on any path; each package-level function equals the method in result and effect. " + SOUND)

prop("P12", "Managing domains affects exactly the named domain",
 "Removing a domain reports whether it was bound, removes exactly that one and falls back to the default domain when it was the current one; an empty or unknown name changes nothing. Clearing leaves no domain and keeps the locales, selecting sets exactly the given domain, and the list of domains names every bound domain exactly once.",
 ["histories", "inputs"], "every handle state and every domain name",
 "Tests remove one known domain; the effect on every other binding and on the current domain in every other state is not observed.",
 ["translations.go"],
 [("fallback to the default domain after removal", "translations.go")],
 AI + ", compared with a decision table", "Result, current domain, locales and the binding of an arbitrary domain are compared with the specification on every path outcome. " + SOUND)

prop("P21", "A saved text catalogue holds every entry as the format wants it",
 "The text written for a catalogue holds each of its entries exactly once: comments, context, original, plural and translations, each under its keyword, quoted and in the order of the format, an untranslated entry included. A template holds the same entries with blank translations, only the header keeping its own. Saving changes nothing in the catalogue.",
 ["inputs"], "every catalogue: any number of entries, comments and plural forms, any texts",
 "The tests save two catalogues and compare or just print them; a wrong form index, a dropped context or a skipped entry needs a particular combination of fields to show.",
 ["translator/po.go", "translator/pot.go", "translator/file.go"],
 [("each field of an entry is written under its own keyword and condition", "translator/po.go translator/pot.go"), ("a loop over the complete list of entries", "translator/file.go")],
 AI + ", the written text taken apart into constants, terms and what loop rounds add, and parsed symbolically", "For every path the symbolic text is parsed as PO text and compared with the fields of the entry of the round; the list gone through is traced back to the table of entries. Comments are written as they are: one that holds a line break is outside the format. " + SOUND)

prop("P22", "A saved binary catalogue has the layout of the format",
 "A binary catalogue is written with the magic number, the number of entries and the positions of its two tables; each row of a table holds the length and the exact position of its text, which stands there followed by NUL. Originals (context, text and plural joined as the format says) come in ascending order, each with its translation or joined plural forms in the same row.",
 ["inputs"], "every catalogue: any number of entries and any lengths of texts",
 "The tests write one small file and read it back with the same code; an offset that drifts, a wrong order or a missing separator shows only for other numbers of entries, or in another reader.",
 ["translator/mo.go"],
 [("offsets accumulated over the entries", "translator/mo.go"), ("originals and translations joined by separators", "translator/mo.go")],
 AI + ", positions kept as linear expressions in the number of entries and the total text lengths", "The header words, table rows and text regions are laid out symbolically for an arbitrary number of entries, and each recorded position is compared with the place of its text. Files over 4 GiB, whose positions no longer fit the format, are outside. " + SOUND)

prop("P24", "A catalogue that could not be written is reported",
 "Saving a catalogue to a writer, in any of the formats, reports success only if every write to that writer succeeded and everything that was buffered has been handed on. It reports a failure only if a write failed.",
 ["fault_sequences"], "every writer and every write that fails",
 "The tests write to buffers and files that never fail; a full disk or a closed pipe at some write is what the promise is about.",
 ["translator/po.go", "translator/pot.go", "translator/mo.go"],
 [("the error of the final hand-over is returned", "translator/po.go translator/pot.go translator/mo.go")],
 AI + " with typestate on write errors and in-between buffers", "On each path that reports success, also in every round of a loop, the error of each write is known to be nil and no buffer holds text back; on each path that reports a failure some write failed. " + SOUND)

prop("P23", "Saving the same catalogue always gives the same bytes",
 "Saving a catalogue gives the same bytes every time, independent of the order in which entries were added or are stored. Running the extraction tool again on the same files gives the same template, apart from its creation date.",
 ["inputs", "schedules"], "every catalogue and template set; every iteration order of the tables involved",
 "Go iterates over tables in a random order, so a missing tie-break shows only for some catalogues and some runs, and a test that passes may fail the next time.",
 ["translator/file.go", "translator/po.go", "translator/pot.go", "translator/mo.go", "cmd/xtemplate/internal/run.go", "cmd/xtemplate/internal/param.go"],
 [("entries sorted before they are written", "translator/file.go"), ("templates of a file sorted by name", "cmd/xtemplate/internal/run.go")],
 "inventory of unordered sources, " + AI + " of every loop over them, and a decision procedure for the comparison functions", "Every map iteration, template list, clock or random source reachable from the writers and the tool is enumerated; loops must be order-insensitive or collect into a list that is sorted before use by a comparison decided to be a strict total order with a unique key. " + SOUND)

prop("P25", "What a caller passes in stays as it is",
 "No call modifies an argument list, slice, map or entry the caller passed in or got from an accessor, nor anything reachable from it, unless changing the receiver is what the call is for. A caller may reuse argument slices across calls and concurrently.",
 ["inputs", "schedules"], "every public call with every argument, including slices with spare capacity",
 "An append into the spare capacity of a caller's slice or an in-place sort shows only when the caller looks at the same backing array again.",
 ["gettext.go", "translations.go", "translator/file.go", "translator/po.go", "translator/mo.go", "f/format.go", "locale/detect.go", "errors/errors.go"],
 [("copies made before sorting or appending", "locale, translator")],
 "effect analysis over path-sensitive abstract interpretation with slice ownership", "Every store, append, copy and sort reachable from a public call must hit memory the call created or the receiver of a method that is meant to change it. " + SOUND)

prop("P13", "Loading replaces a domain as a whole, a failed load changes nothing",
 "New translations are installed only after they were read successfully: binding a domain replaces everything bound to it, loading one catalogue replaces that of its locale as a whole and leaves the other locales alone. Other domains are untouched, and a load that fails leaves everything as it was. Where a binary and a text catalogue exist for the same locale, the text one wins.",
 ["histories", "inputs", "fault_sequences"], "every sequence of loading and binding, every file content and every point at which reading may fail",
 "Tests load good files into an empty set; that a failing load leaves an earlier catalogue usable, for every failure point, is not observed.",
 ["translaton.go", "translations.go", "init.go"],
 [("catalogue installed only after a successful read", "translaton.go"), ("binary files visited before text files", "translaton.go")],
 AI + ", compared with a decision table, and an order analysis of the installing loads", "Installation and the content of the tables are compared with the specification on every path outcome, including every failing one. " + SOUND)

prop("P14", "Every catalogue found is loaded, one bad file does not hide others",
 "Binding a directory or file system loads every catalogue file in it that can be read, with its whole content and under the locale its name says; unreadable or malformed ones are skipped without stopping the rest. Files that were opened are closed.",
 ["fault_sequences", "inputs"], "every tree of files, every subset of them unreadable or malformed",
 "Tests bind directories with good files; a walk that stops at the first bad entry shows only with particular mixtures of names and errors.",
 ["translaton.go", "fs.go", "init.go"],
 [("walk callback continues after an error", "translaton.go"), ("close after open", "translaton.go")],
 AI + " of the walk callback with a typestate on opened files", "For every entry the walk visits, every path of the callback loads it if it is a readable catalogue and lets the walk go on. " + SOUND)

prop("P15", "Equivalent spellings of a locale select the same translations",
 "However a locale is spelled, with dash or underscore, in lower or upper case, with or without its region, setting it, loading it or asking for it refers to one and the same catalogue. Locales are kept and reported in one canonical form of language and region.",
 ["inputs", "configurations"], "every locale name given to any call or found in a file name or header",
 "Tests use canonical spellings nearly everywhere; a place that forgets to normalise works for those.",
 ["translations.go", "translaton.go", "locale/detect.go", "init.go", "context.go", "http.go"],
 [("normalisation at each place that stores or looks up a locale", "translations.go, translaton.go")],
 AI + " with a taint typestate for canonical locale names", "Every store and every lookup of a locale reachable from a public call must use a value derived from normalisation, on all paths. " + SOUND)

prop("P16", "The list of supported locales is complete, distinct and sorted",
 "The supported locales are the source-code locale and every locale the current domain has a catalogue for, each exactly once, in ascending order.",
 ["histories", "configurations"], "every set of loaded locales and every source-code locale",
 "Tests list one fixed set; duplicates need a source-code locale that is loaded as well.",
 ["translations.go"],
 [("duplicates removed, result sorted", "translations.go")],
 AI + " with collection facts (membership, distinctness, sortedness)", "Completeness, distinctness and order of the returned list are derived on every path. " + SOUND)

prop("P32", "A context carries locale and domain independently",
 "Attaching a locale or a domain to a context keeps the other one, and reading back gives the latest value attached. The handle obtained from a context is the global one with exactly the attached domain and locale, where present; a context without them yields the global settings.",
 ["inputs", "histories"], "every context and every sequence of attaching values to it",
 "Tests attach one value at a time; mixing up the two keys or the order of application shows only when both are attached.",
 ["context.go", "http.go"],
 [("distinct keys for locale and domain", "context.go")],
 AI + " with a model of context values", "Setting and reading are composed symbolically for an arbitrary parent context. " + SOUND)

prop("P33", "The negotiated language is one that was offered or asked for",
 "The language chosen for a request is the value of the language cookie, as it is, or else one of the supported locales, reported with its index in that very list. No request content makes the negotiation panic.",
 ["inputs", "configurations"], "every request with any cookies and headers, and every list of supported locales",
 "Tests send a few headers; an index that refers to a reordered or extended list is right for most of them.",
 ["http.go", "matcher.go", "tag.go"],
 [("index into the list of supported locales", "matcher.go")],
 AI + " with bounds and provenance obligations", "The returned locale is shown to be an element of the supported list at the returned index or the cookie's value; all panics are obligations. " + SOUND)

prop("P34", "Markers return their arguments unchanged",
 "Marking a text for extraction has no effect: the marker gives back the arguments unchanged, in order, and changes nothing.",
 ["inputs"], "every argument",
 "Tests call a marker with one value.",
 ["mark.go"],
 [("identity functions", "mark.go")],
 AI + ", value equality", "Results are proved equal to the arguments on the only path. " + SOUND)

prop("P17", "Every operator of a plural expression computes what C computes",
 "Each operator the plural-expression language accepts computes its C meaning on 64-bit integers: truth values are 0 and 1, anything but 0 is true, operands are taken in the order written, and a choice yields the branch its condition selects. Numbers and the count stand for themselves; the value of the whole expression is the value of its outermost operator.",
 ["inputs"], "every operator, every operand value and every stack of operands below",
 "Tests evaluate some dozens of formulas for small counts; swapped operands or a wrong operator that no published formula uses goes unnoticed.",
 ["plurals/exp.go", "plurals/stack.go", "plurals/parser/plural_parser.go", "plurals/plural.g4"],
 [("one case per operator, popping right before left", "plurals/exp.go"), ("operator tokens the parser sets", "plurals/parser/plural_parser.go")],
 AI + " per operator token enumerated from the generated parser, compared with a table of C operators", "The operators are read from the recogniser, each is run on a symbolic operand stack and its result compared as a value with the C meaning. One recorded finding: exclusive or computes a bitwise and. " + SOUND)

prop("P18", "Plural expressions are grouped as in C",
 "An expression is read with the precedence and associativity of C: unary operators bind tightest, then multiplication, addition, shifts, comparisons, equality, bitwise and, exclusive or, or, logical and, or, and the right-associative choice last. Parentheses, the count and decimal numbers are the only operands, blanks and tabs separate without meaning.",
 ["inputs"], "every expression the grammar accepts",
 "Tests use a few published formulas, whose grouping rarely depends on the less common levels.",
 ["plurals/parser/plural_parser.go", "plurals/parser/plural_lexer.go", "plurals/plural.g4"],
 [("precedence climbing in the generated recogniser", "plurals/parser/plural_parser.go"), ("serialised recogniser tables", "plurals/parser")],
 "grammar extraction: the serialised recogniser tables and the generated recogniser code are decoded from the source, compared with each other and with the C operator table", "Levels, operand positions and recursion limits of each alternative are compared with the C table; the code's predicates, token sets and tree getters must agree with the tables. The generic table-driven runtime is trusted. One recorded finding: the relational operators are on two levels.")

prop("P19", "Precomputed plural rules agree with their expression",
 "Where a plural expression is answered by a precomputed rule instead of being evaluated, the result is the value of exactly that expression for every count. The shortcut is taken only for a text that is that expression up to blanks.",
 ["inputs"], "every count, negative and extreme ones included, and every expression text",
 "Tests compare some counts up to a few hundred; a shortcut that differs at 111 or for negative counts, or two formulas that share a key, needs that very count.",
 ["plurals/common.go", "plurals/exp.go"],
 [("table of common expressions", "plurals/common.go")],
 AI + " of each shortcut, equivalence with its expression decided on a finite set of representatives", "Both sides depend on the count only through comparisons with and remainders by constants, so agreement on one count per class (every remainder of the common multiple, on each side of every constant, both signs) means agreement on all; anything outside that form is reported. " + SOUND)

prop("P20", "Evaluating a plural rule never panics and never hides an error",
 "Evaluating a plural expression returns a value or an error for every text and count and never panics. A text with a lexical or syntax error, an overlong number or a division by zero is answered with an error, and each evaluation is independent of any other.",
 ["inputs", "histories"], "every expression text, every count and every sequence of evaluations",
 "Tests try a handful of malformed expressions; a listener that is not attached, or forgets an earlier error when a later one is recorded, answers most of them correctly.",
 ["plurals/exp.go", "plurals/err.go", "plurals/stack.go"],
 [("recover in the evaluation", "plurals/exp.go"), ("error listeners of lexer and parser", "plurals/exp.go, plurals/err.go"), ("fresh evaluation state per call", "plurals/exp.go")],
 AI + " with a typestate on the error listeners, the recogniser treated as able to panic anywhere", "No outcome may panic, listeners must be attached when parsing starts, and what they recorded must be returned. One recorded finding: text after a complete expression is ignored. " + SOUND)

prop("P26", "Cutting a long text into lines loses nothing",
 "A text written to a catalogue is cut into pieces whose concatenation is exactly the text, in order, whatever the text and the line length. There is always at least one piece, so an empty text is still written.",
 ["inputs", "configurations"], "every text and every line length, zero and negative ones included",
 "Tests wrap some sentences at a few widths; dropping or repeating a byte needs a text that ends in a blank, starts with a line break or has no blank before the limit.",
 ["translator/wrap.go", "translator/util.go"],
 [("recursive cutting at line breaks and blanks", "translator/wrap.go")],
 AI + ", induction over recursive results and loop invariants on concatenations", "Every cutting function the writers use is proved to return pieces that concatenate to its argument. " + SOUND)

prop("P31", "Text from outside is data, never a format",
 "A text that comes from a catalogue, a template, a file name, a request or an argument is never used as a format, so its percent signs show up unchanged in errors and output. Only a constant, or the translation of a constant message meant to be formatted, is a format.",
 ["inputs"], "every text that reaches a formatting function on any way through the program",
 "Tests use names and messages without a percent sign.",
 ["errors", "cmd/xtemplate/internal", "f", "translator.go", "gettext.go"],
 [("constant formats at each printf-like call", "errors, cmd/xtemplate, translator")],
 "interprocedural taint analysis over the Go SSA form", "The format of each call to a printf-like function is traced back to its sources through all callers; an untraceable source is reported. Formats callers of the public interface hand over are theirs.")

prop("P27", "A catalogue answers with its current entries and header",
 "An entry added to a catalogue is the one found under its context and id from then on, and every other entry stays what it was. Header values, the language and the plural rule are always those of the header entry the catalogue holds now, whatever was asked or added before; a header value is the trimmed text behind the first colon of the first line with that key.",
 ["inputs", "histories"], "every order of additions and queries, every header text",
 "Tests ask once, after all entries are there; a stale answer needs a header that is replaced after a query.",
 ["translator/file.go", "translator/translator.go", "translator/plural.go"],
 [("entry table and header cache", "translator/file.go"), ("plural rule cache", "translator/plural.go")],
 AI + ", composition of every pair of operations, equality of constant patterns by automata", "Every operation of the catalogue is composed with every query from an arbitrary state of its caches. " + SOUND)

X = "cmd/xtemplate/internal"
prop("P28", "Every part of every template is searched for messages",
 "The extraction tool reads every file that matches the input pattern, parses its whole text with the delimiters given, and looks at every call in every template it defines: in both branches of a condition, in loops, in arguments of included templates, in parentheses and behind fields, and in every stage of a pipeline. It gives up on nothing but a run that is reported as failed.",
 ["inputs"], "every template file the parser accepts, however deeply nested",
 "Tests extract from a few small templates; a construct that is not searched loses its messages silently.",
 ["cmd/xtemplate/internal/run.go"],
 [("walk over the parse tree, one case per node type", X+"/run.go")],
 "structural induction over the node types of the template parser, with " + AI + " of each walking function", "For each node type that can hold calls every child must reach a function with the same obligation on every path, lists element by element to their end. " + SOUND)

prop("P29", "A keyword call is extracted with exactly its literal arguments",
 "For every call whose function name is that of a keyword and whose declared argument positions hold literal strings, with a literal piped into the call as its last argument, one message is recorded that has exactly these strings as context, id and plural and names its file and line. Nothing is recorded otherwise, and no message takes the place of the catalogue header.",
 ["inputs", "configurations"], "every call in a template and every list of keywords, overlapping ones included",
 "Tests use a handful of calls with the usual positions; an index that is off by one only beyond the last argument, or a second keyword of the same name, goes unnoticed.",
 ["cmd/xtemplate/internal/run.go", "cmd/xtemplate/internal/helper.go"],
 [("matching of names and positions", X+"/run.go"), ("literals in parentheses and pipelines", X+"/run.go")],
 AI + ", each keyword round compared with the specification as an equivalence", "Paths that record must imply every condition, paths that do not must contradict them together. " + SOUND)

prop("P30", "A failed extraction keeps the old output and is reported",
 "When any file cannot be read or parsed, or nothing can be written, the extraction tool ends with an error and a non-zero exit status, and an output file that existed before is left as it was unless writing itself fails. A successful run has written everything to the file it was told, replacing its content, and ends with status zero.",
 ["inputs", "fault_sequences"], "every combination of failing and succeeding steps, for every list of files",
 "Tests make one file fail; an error that is dropped when a later file succeeds, or an output emptied before the failure, needs a particular order.",
 ["cmd/xtemplate/main.go", "cmd/xtemplate/internal/run.go", "cmd/xtemplate/internal/keyword.go", "cmd/xtemplate/internal/param.go"],
 [("collected errors, output opened last", X+"/run.go"), ("exit status", "cmd/xtemplate/main.go")],
 AI + " with file operations modelled, an effect order on the output file and an error-to-result obligation per fallible step", "Every outcome of every fallible operation is explored; success must imply that none failed, and truncation must come after the last step that can fail. " + SOUND)

prop("P39", "A catalogue's plural rule is the one its header states",
 "When the Plural-Forms header of a catalogue reads 'nplurals=N; plural=EXPRESSION;', with blanks anywhere between the parts, the catalogue has exactly N plural forms and the form of a count n is the value of EXPRESSION, all of it, at n. A header of any other form, or an expression without a value, gives the catalogue no plural rule.",
 ["inputs"], "every text in the header, every count",
 "The tests use the headers of a few languages with up to three forms; a header with other blanks, with more forms or with a semicolon elsewhere is never read.",
 ["translator/plural.go", "translator/file.go"],
 [("pattern of the header", "translator/plural.go"), ("rule of a catalogue", "translator/file.go")],
 AI + ", the languages of the header patterns compared by their automata with groups", "The expression evaluated must be the part behind 'plural=' of the current header, the number the part behind 'nplurals='; a path without an evaluation must contradict the form. " + SOUND)

prop("P37", "A text catalogue is read as what its lines say",
 "Reading a PO or POT file yields exactly its entries: each text goes, joined over its continuation lines and unquoted, to the field its keyword names, comments go to the entry behind them, and a new entry begins where the format begins one, up to the last line of the file. An entry without any translation is left out of a PO catalogue and kept in a template; no well-formed file is rejected.",
 ["inputs"], "every text: any number and order of entries, keywords, continuation lines, comments and blank lines",
 "The tests read a few files in the usual layout; a text that lands in the wrong field or an entry that is lost or merged with its neighbour needs a particular sequence of lines.",
 ["translator/po.go", "translator/pot.go", "translator/reader.go", "translator/util.go", "translator/entry.go"],
 [("state of the line last read", "translator/po.go"), ("line given back for the next entry", "translator/reader.go")],
 AI + ", the parts of the line loop composed with the automaton of the PO format", "Every reachable pair of reader state and format state is decided for every kind of line. Lines the format has no place for may be rejected or end the entry. " + SOUND)

prop("P38", "A binary catalogue is read as what its tables say",
 "Reading an MO file of either byte order yields exactly one entry for every row of its tables: id and translation are the bytes the rows point at, with context, plural and forms taken apart at their separators, stored under its key in the order of the rows. Only contents that are cut, of an unknown kind or revision, or with lengths beyond their end are rejected.",
 ["inputs"], "every content: any byte order, number of entries, place and order of tables and texts",
 "The tests read a few files one tool wrote; files of the other byte order, with tables or texts elsewhere, with separators at the edges of a text or no NUL behind it are never read.",
 ["translator/mo.go", "translator/file.go", "translator/entry.go"],
 [("reader of binary catalogues", "translator/mo.go"), ("tables of lengths and offsets", "translator/mo.go")],
 AI + ", the position of the reader being part of the state", "Every number and text is a term of the place in the content it was read from; the rows of tables kept in lists are found again from the loops that filled them. " + SOUND)

prop("P40", "An error carries the error that caused it",
 "When reading or writing a catalogue, loading a file, reading a keyword list or running the extraction tool returns an error because a step it took failed, the returned error wraps the error of a failed step, so that errors.Is and errors.As find the cause. Whatever the expression parser reports about a plural expression is found as ErrAntlr, and later reports keep the earlier ones.",
 ["fault_sequences", "inputs"], "every step that can fail, in every function with an error result, in every order",
 "Tests look at whether there is an error; which error is in the chain behind a failure in the middle of a file is looked at by the caller only.",
 ["errors/errors.go", "translator/mo.go", "translator/po.go", "translator/reader.go", "translaton.go", "plurals/err.go", X+"/keyword.go", X+"/run.go", X+"/param.go"],
 [("wrapping helpers", "errors/errors.go"), ("listener of the expression parser", "plurals/err.go")],
 AI + ", modular over the functions with an error result, with the wrap structure of error values as terms", "On every path that returns an error while a call is known to have failed, that error or one kept from an earlier round must be among those the result wraps. Recovered panics are not steps. " + SOUND)


prop("P41", "Keyword declarations are read as documented",
 "A -k keyword list is cut at ';' and each part, blanks aside, gives exactly one keyword, in the order written: 'name' means that the first argument is the message id, 'name:i' gives the id's position, 'name:i,j' those of id and plural, 'name:ic,j' and 'name:ic,j,k' those of context, id and plural. Positions are decimal numbers. Declarations of these forms are accepted, and every other part makes the whole list an error.",
 ["inputs", "configurations"], "every text given with -k or --keyword",
 "Tests parse a few lists; which field a position ends up in, which forms are refused and what blanks do must hold for every list, and a mistake makes the tool extract the wrong argument silently.",
 [X+"/keyword.go"],
 [("ParseKeywords", X+"/keyword.go")],
 AI + ", with a decision table", "Every round over the parts that goes on must append the keyword of one of five forms with all conditions of that form known, every error must contradict all five forms, and the loop visits every part in order. " + SOUND)

prop("P42", "The extraction tool never panics",
 "Whatever the templates contain and whatever keywords, positions, functions and delimiters the options give, a run of the extraction tool ends with a result or an error and does not panic. A function name the template engine would refuse is reported as an error.",
 ["inputs", "configurations"], "every template tree the parser builds, every keyword list, function list and position",
 "A panic needs a position out of range, a nil part of a tree or a strange name in combination with a certain template; the tests run the tool on usual templates and options.",
 [X+"/run.go", X+"/param.go", X+"/keyword.go", X+"/helper.go"],
 [("keyword positions", X+"/run.go"), ("function names", X+"/param.go")],
 AI + ", modular over the recursive tree walkers with inferred preconditions", "Every nil dereference, index, assertion, nil map and explicit panic site reachable from Run is an obligation; preconditions of the recursive functions are inferred as the largest set that holds at every call; registered names need a pattern contained in the identifiers (automata). " + SOUND)

prop("P43", "What a handle reports is what its lookups use",
 "UsedLocale names the handle's locale exactly when the current domain is bound and has a catalogue for it, and the source locale otherwise. Get and GetOrNoop yield what is bound under that very name, and say so when nothing is. MostMatchLocale asks for the best match of the handle's own locale and nothing else.",
 ["histories", "inputs"], "every handle: any domain and language tables, current domain, locale and source locale",
 "A difference needs several domains that hold different languages or a locale that is close to a loaded one; the tests ask on handles with one catalogue.",
 ["translations.go", "translaton.go", "init.go"],
 [("UsedLocale", "translations.go"), ("GetOrNoop", "translaton.go")],
 AI, "The handle is arbitrary; every path's result is compared with a table over the same domain and language lookups that P05 proves for the getters. " + SOUND)

prop("P44", "The tool's options reach the run as documented",
 "The options -i, -left, -right, -k, -f, -o and -d of the extraction tool are handed to the run unchanged, with the documented defaults; -v and -h show what they promise and end with status 0 even when other options are missing; a blank -i or -k is refused with status 2 and nothing runs. The tool's own messages come from LANG_PATH when it is set and not blank, from the embedded catalogue otherwise, in the user's language.",
 ["configurations"], "every command line and every value of LANG_PATH",
 "No test runs main; an option that ends up in another field, a changed default or a check made in another order shows for some command lines only.",
 ["cmd/xtemplate/main.go"],
 [("options and their checks", "cmd/xtemplate/main.go"), ("catalogue of the messages", "cmd/xtemplate/main.go")],
 AI + ", with a decision table over the options", "main is interpreted with the flag package modelled: each registered option is an arbitrary value after parsing. Every path is split by -v, -h, blank -i, blank -k and LANG_PATH and compared with the table. " + SOUND)
