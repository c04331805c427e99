prop("C04", "Whitespace is written as requested, and only in front of content",
     "Formatting writes, in front of every piece of content, exactly what was asked for since the previous piece: no line end without a line request, one for a line break, two for a blank line, then - at the start of a line only - the current indentation in the configured unit (never less than zero levels, counting every change of indentation so far), then the spaces requested since the last line request. Nothing is written in front of content at the very start of the output for line requests, whitespace that no content follows is never written, empty text never causes whitespace to be written, and line requests discard the spaces in front of them.",
     ["inputs"], "All token streams, all indentation configurations, all depths of nesting.",
     "Tests compare some dozens of formatted snippets; the pending whitespace depends on the whole sequence of requests, and long runs are written in chunks.",
     ["src/fmt/formatter.rs", "src/fmt/cursor.rs", "src/fmt/config.rs", "src/tokens/tokens.rs"],
     [("pending whitespace and its realization", "src/fmt/formatter.rs"), ("dispatch of items", "src/fmt/formatter.rs")],
     "abstract interpretation of MIR: formatter state against the pending-whitespace specification, item by item",
     "Formatting of an arbitrary item list is explored to a fixpoint; counts of written line ends, spaces and tabs are affine expressions compared with the specification's at every piece of content. Numbers are unbounded integers except where the code saturates. " + TB)

prop("C08", "Strings and interpolations open and close as the items demand",
     "Formatting turns quote and interpolation items into calls of the language in exactly the given order: a quote opens once and closes once with the same interpolation flag, literals inside of a string are escaped by the language exactly once and literals outside are written verbatim, an interpolation is begun and ended once or - only if it is a single literal directly followed by its end - handed to the language as that literal, and a plain quote nested inside of a string is formatted in full and its complete text escaped by the enclosing string, to any depth. A stream in which a quote or an interpolation is opened, closed or left open out of place is an error, and a well-formed stream never is.",
     ["inputs"], "All token streams, including malformed ones, and all nestings of quotes and interpolations.",
     "Tests cover one level of nesting and no malformed stream; the protocol is a stack machine over arbitrary item sequences.",
     ["src/fmt/formatter.rs", "src/fmt/cursor.rs", "src/tokens/quoted.rs", "src/tokens/item.rs"],
     [("quote and interpolation frames", "src/fmt/formatter.rs"), ("lookahead", "src/fmt/cursor.rs")],
     "abstract interpretation of MIR: calls of the language interface against a pushdown specification, item by item",
     "The item loop is explored with an unbounded stack of frames abstracted by what was saved; each step's calls, result and successor state are compared with a pushdown specification. A nested string is analysed once on its own (the recursive call is replaced by its specification). " + TB)

prop("C05", "A failing destination is reported, and nothing is written after it",
     "When anything that formatting writes to fails - a writer supplied by the caller, a language item's formatting code, or a rejected nested string - the operation in progress stops at once, writes nothing more, and returns an error to the caller. Success is returned only if every single write succeeded, and outside of malformed streams an error is returned only if a write failed.",
     ["inputs", "crash_points"], "Every write at which a destination can fail, in every function between the destination and the public entry points.",
     "No test has a failing destination; there are several hundred places where a result has to be passed on.",
     ["src/fmt", "src/lang", "src/tokens/tokens.rs"],
     [("results of writes", "src/fmt/*.rs, src/lang/*.rs"), ("entry points", "src/tokens/tokens.rs")],
     "abstract interpretation of MIR: every fallible call succeeds or fails, effect of the failure on the result",
     "Compositional: each function is analysed with every fallible call in it succeeding and failing; a failure has to be the function's result, and no fallible call may follow it. " + TB)

prop("C06", "Every destination and entry point receives the same text",
     "Whatever text and line ends formatting produces arrives complete, unaltered and in order: string and I/O writers hold exactly the text with the configured line ends, never a part of a write, and the line writer holds one entry per line without line ends. Formatting to a string or to lines, of a stream or of a file, uses the language's default configuration, default indentation and \\n line ends and returns all that was written; a file ends with exactly one line end, which makes no extra entry among the lines.",
     ["inputs"], "All texts and all sequences of writes (to a bounded length per destination), all entry points, all languages.",
     "Tests look at the results of a few whole files, nearly all through one of the entry points.",
     ["src/fmt/fmt_writer.rs", "src/fmt/io_writer.rs", "src/fmt/vec_writer.rs", "src/fmt/mod.rs", "src/fmt/config.rs", "src/tokens/tokens.rs"],
     [("writers", "src/fmt/*_writer.rs"), ("to_string, to_vec, to_file_string, to_file_vec, format_file", "src/tokens/tokens.rs")],
     "abstract interpretation of MIR: contents of each destination against the sequence of writes",
     "All sequences of up to 3 (thorough: 4) writes of arbitrary texts, characters and line ends per destination; entry points with formatting replaced by one opaque write. " + TB)

LANGF = ["src/lang/python.rs", "src/lang/js.rs", "src/lang/go.rs", "src/lang/rust.rs", "src/lang/dart/mod.rs", "src/lang/swift.rs",
         "src/lang/c.rs", "src/lang/java/mod.rs", "src/lang/csharp/mod.rs", "src/lang/nix.rs", "src/tokens/tokens.rs"]
LANGB = ("Bounds: each file holds up to two imports per file in quick (all unordered pairs of the ways to build an import; Java and C# three where noted), "
         "all ordered pairs and some triples in thorough; names, modules, aliases, packages and paths are symbolic with every case of equality between them, module paths have "
         "one to three segments, and every iteration order of sorted collections that is consistent with itself is explored. ")

prop("C09", "Files are package, imports and body, in this order and unaltered",
     "Formatting a stream as a file writes, in this order and set apart by exactly one blank line each: the package declaration if one is configured (Go, Java), the declarations the imports call for, each on an unindented line of its own (Nix: the argument, with and let blocks, their contents indented once), and the complete body of the stream, unaltered and formatted with the same configuration; with a C# namespace configured the body is the only content, indented once, of that namespace's block. Parts for which there is nothing to declare are left out together with their blank line, nothing comes in front of the first part, and every declaration is one the language's grammar accepts.",
     ["inputs"], "All streams and configurations of every language that can declare imports.",
     "Tests format a few files per language with one or two configurations.",
     LANGF, [("format_file and the header of each language", "src/lang/*.rs")],
     "abstract interpretation of MIR with symbolic names; headers read back by a grammar per language",
     LANGB + TB)

prop("C10", "Every reference is bound to its import by the file's header",
     "In a formatted file of any language, what is written for an import item in the body - and in the header itself, for Nix - denotes exactly the module, member, type or value the item was built for, under the name bindings which the header of that same file establishes: plain, aliased, qualified, default, wildcard, direct and module-alias forms each match their declaration. Registering an import without using it declares it as well. The header never declares the same thing twice and declares nothing that no import in the stream asks for.",
     ["inputs"], "All sets of imports in a stream, all ways to build an import, all equalities between names, modules and aliases, all import configurations.",
     "Tests use one or two imports with distinct names; whether declaration and reference agree depends on pairs of builder calls, configuration and coincidences between names.",
     LANGF, [("collection of imports into declarations", "src/lang/*.rs"), ("formatting of an import item", "src/lang/*.rs")],
     "abstract interpretation of MIR with symbolic names; bindings of the header against the meaning of references",
     LANGB + "A meaning table per language says what each constructor and builder call asks for. " + TB)

prop("C11", "Equal streams give equal text, whatever the order of imports",
     "Building and formatting streams, and expanding the macros, depend on nothing but their inputs: not on hash seeds, addresses, clocks, the environment, threads, shared mutable state or what was formatted before. The header of a file depends on the set of imports in the stream only, not on the order in which, how often, or whether by use or by registration they were added.",
     ["inputs", "histories"], "All inputs, all functions of both crates; for the header all pairs of imports, their orders and repetitions.",
     "A test run has one hash seed and one address layout, and formats its imports in one order.",
     ["src", "genco-macros/src"], [("collections of imports", "src/lang/*.rs"), ("all code", "src, genco-macros/src")],
     "effect analysis of all MIR bodies; relational abstract interpretation of headers for permuted imports",
     "Every call, cast, static and comparison in both crates is classified; headers of permuted and repeated imports are compared for every compatible pair of outcomes. " + LANGB + TB)

prop("C12", "Java and C# names never denote two types",
     "In a formatted Java or C# file, every reference to a type - bare or qualified - denotes exactly the type it stands for, also when several types with the same name are used. A bare name is only written if it resolves to that one type by the rules of the language: in Java its own import first, then the file's own package, then java.lang; in C# the file's own namespace first, then a name that exactly one of the used namespaces is known to contain. Otherwise the name is written qualified. No two Java imports declare the same simple name.",
     ["inputs"], "All sets of up to three types, with every case of equality between their names and packages, the file's package and java.lang.",
     "The tests have one clash of two names; resolution depends on which names and packages coincide, own package and java.lang included.",
     ["src/lang/java/mod.rs", "src/lang/csharp/mod.rs"], [("imported names", "src/lang/java/mod.rs, src/lang/csharp/mod.rs"), ("qualification of a reference", "src/lang/java/mod.rs, src/lang/csharp/mod.rs")],
     "abstract interpretation of MIR with symbolic names against each language's name resolution",
     "Three types cover every pairwise and mediated interaction of the tables involved. Types which the stream does not mention are unknown to the file and not considered; namespaces are compared as a whole (members of enclosing C# namespaces are not). " + TB)

prop("C03", "Everything appended to a stream arrives complete, unchanged and in order",
     "Appending a value adds exactly its content after what is already there and alters nothing else: texts in every supported form (borrowed, owned, shared, copy-on-write, item texts, static literals, format arguments, displayed values, integers) become one literal with that text; lists, slices and options append each element once, in order; a stream appends all of its items in order; a function is called exactly once with the stream; a quoted value is wrapped in one opening and one closing quote; an import appends itself, and registering a value or a tuple of values registers every one, in order, without adding text; comment blocks of C#, Java and Dart put each of their lines, prefixed, on its own line, and nothing at all if there are no lines. Extending, collecting, iterating and cloning streams keep all content in order, and a stream is empty exactly if it has no items.",
     ["inputs"], "All values of all types that can be appended or registered, all contents of the stream they are appended to.",
     "Tests append a few values of some of the types; the implementations are some ninety, most of which no test runs on more than one shape of value.",
     ["src/tokens/format_into.rs", "src/tokens/tokens.rs", "src/tokens/item_str.rs", "src/tokens/item.rs", "src/tokens/register.rs", "src/tokens/quoted.rs",
      "src/tokens/display.rs", "src/tokens/from_fn.rs", "src/tokens/static_literal.rs", "src/macros.rs", "src/lang/java/block_comment.rs",
      "src/lang/csharp/block_comment.rs", "src/lang/csharp/comment.rs", "src/lang/dart/doc_comment.rs"],
     [("FormatInto and Register implementations", "src/tokens/*.rs, src/macros.rs, src/lang/*/"), ("extend, from_iter, iteration", "src/tokens/tokens.rs")],
     "abstract interpretation of MIR: items of the stream after appending symbolic values against a table per type",
     "Texts, elements and payloads are symbolic (arbitrary); lists have 0 to 3 elements, source streams up to two items of every kind, the stream appended to is empty or holds text and an import. Implementations for types the table does not know are reported as undecided. " + TB)

prop("C19", "Equality, order and hash go by content, conversions keep it",
     "Two item texts are equal exactly if their texts are equal, whether they are static or owned, they are ordered like their texts, and equal ones hash alike; items, streams, imports and modes are equal exactly if all of their parts are, with a consistent total order and hash, and clones are equal to what they were cloned from. A stream equals a list of items exactly if its items are those of the list, in either direction of the comparison. Converting strings of every kind into item texts, and item texts back into strings or displaying them, keeps the text.",
     ["inputs"], "All pairs (and for order, triples) of values of all comparable types of the crate; all texts.",
     "Import collection relies on sets of these values being consistent; tests never compare the different representations of one text.",
     ["src/tokens/item_str.rs", "src/tokens/item.rs", "src/tokens/tokens.rs", "src/lang"],
     [("comparisons of texts", "src/tokens/item_str.rs"), ("comparison of streams with lists", "src/tokens/tokens.rs")],
     "abstract interpretation of MIR: comparison functions on symbolic values with case splits on equality and order",
     "Implementations written by #[derive] are taken to be structural; every hand-written one is run on all shapes of values with arbitrary texts, every case of equality and order between them. " + TB)

MF = ["genco-macros/src/lib.rs", "genco-macros/src/quote.rs", "genco-macros/src/encoder.rs", "genco-macros/src/static_buffer.rs", "genco-macros/src/quote_in.rs",
      "genco-macros/src/quote_fn.rs", "genco-macros/src/string_parser.rs", "genco-macros/src/ast.rs", "genco-macros/src/fake.rs"]
MT = ("The macros themselves are analysed, not their results on samples: the MIR of genco-macros is interpreted on token lists whose texts, expressions, patterns and - where layout matters - "
      "columns, gaps and line distances are symbolic, on every path; the token stream each path constructs is read by an evaluator of the generated Rust and its sequence of effects on the stream is "
      "compared with the documented meaning of the source, in every combination of conditions, matching arms and 0 to 3 iterations. "
      "Bounds: the grammar of sources is covered by every kind of node alone, every pair, selected (thorough: all) triples and every statement in every position of every statement (one level deep). ")
MB = MT + "Models of syn, quote and proc_macro2 are in analysis/macro_model.py. " + TB

prop("C13", "The macros append all that is quoted, once and in order",
     "What quote!, quote_in! and quote_fn! expand to appends what is quoted, in order and exactly once each: tokens, delimiters and literals with their exact text, string literals as quoted strings, `$$` as a dollar sign, control functions as the whitespace they name, and interpolated variables and expressions, each evaluated once in its place. Scopes run on the stream in their place, and let bindings are visible in all that follows. quote! makes a new stream of it, quote_in! appends to its target, and quote_fn! to the stream it is run on. Empty text makes no difference to anything around it.",
     ["inputs"], "All sources built from the constructs of the quoting language, with arbitrary tokens, literals and expressions in them.",
     "Tests expand a few dozen sources; static text is buffered and merged across neighbouring constructs, so that losses and reorderings depend on what is next to what.",
     MF, [("text buffered in front of whatever is emitted next", "genco-macros/src/static_buffer.rs"), ("encoding of each construct", "genco-macros/src/encoder.rs")],
     "abstract interpretation of the macros' MIR on symbolic token lists; effects of the generated code against the meaning of the source", MB)

prop("C14", "Layout of quoted source becomes spaces, lines and indentation",
     "The whitespace an expansion requests follows the columns and rows of the source: a gap in a row becomes a space and adjacent tokens get none; a row in the column of the row before becomes a line break, one that starts deeper indents, one that starts shallower goes back to the level that started in its column - one change of indentation per level - and empty lines in between become one empty line. A row in a column that matches no enclosing level is an error, and nothing else is. Groups, strings, interpolations and statements take part like tokens; bodies of statements have their own levels and end on the level they started on; leading and trailing gaps are kept in join and in match arms in parentheses only. What is in several places (substituted by another macro) is separated by a space.",
     ["inputs"], "All columns, gaps and distances of rows (symbolic), for up to 4 rows (thorough: 6) of any kind of node, also inside of statements, groups and strings.",
     "Tests have a handful of layouts; which level a row matches depends on the columns of all rows before it.",
     MF, [("comparison of columns with levels", "genco-macros/src/encoder.rs: tokenize_whitespace, finalize"), ("places of tokens", "genco-macros/src/fake.rs, cursor.rs")],
     "abstract interpretation of the macros' MIR with symbolic columns and rows; whitespace requests against the layout rules by affine case splits",
     "Columns, gaps and counts of empty lines are unbounded natural numbers; each comparison the code makes is split, and the oracle is evaluated on each case. " + MB)

prop("C15", "Quoted if, for, match, let and ref run like the code they quote",
     "In an expansion, `if` evaluates its condition once and appends exactly one branch (or nothing without else), `for` evaluates its iterator once and appends its body once per element in order with the pattern bound, with the joining tokens after every element but the last, `match` evaluates its subject once and appends the body of the first arm whose pattern matches and whose guard holds, with the arm's attributes kept, and bindings reach exactly the bodies they belong to - in each of the forms these statements can be written, nested in each other and next to anything else, and every valid form is accepted.",
     ["inputs"], "All outcomes of conditions, guards and patterns, all lengths of iteration up to 3, all forms of each statement, nested in each other.",
     "Tests have each statement a few times with one form of body; the parser has a path of its own for each form, and static text is carried across the boundaries of bodies.",
     MF, [("parse_condition, parse_loop, parse_match", "genco-macros/src/quote.rs"), ("encode_loop, encode_match, encode_condition", "genco-macros/src/encoder.rs")],
     "abstract interpretation of the macros' MIR on symbolic token lists; the generated control flow evaluated under all outcomes", MB)

prop("C16", "Quoted strings hold exactly their parts and what they interpolate",
     "`$[str](..)` appends one quoted string holding its parts in order: tokens with their exact text, one space per column of every gap between them, `$$` as a dollar sign, constants and constant expressions without evaluation, and interpolated variables and expressions each opened and closed as one evaluation, inside of delimiters as well as next to them. The string is marked as interpolating if and only if it interpolates something itself, and the expansion demands support for interpolation of the language if and only if some string in it does, wherever it is nested. A string over several lines is rejected.",
     ["inputs"], "All sequences of up to two parts (thorough: three) with arbitrary texts and expressions and gaps of several widths, nested in each other, in groups and in every position of every statement.",
     "Tests have a dozen strings; whether one interpolates is found out while it is encoded, and gaps are counted from places in the source.",
     MF, [("string_parser::parse", "genco-macros/src/string_parser.rs"), ("requirements", "genco-macros/src/requirements.rs")],
     "abstract interpretation of the macros' MIR on symbolic token lists; quoting items and language requirements against the parts of each string", MB)

prop("C17", "Whatever they are given, the macros expand or report an error",
     "No input makes the macros panic: tokens in any place - over several lines, in any order of lines and columns, as when other macros substitute them - and input that is truncated, misplaced or malformed in any way either expands or is reported as a compile error.",
     ["inputs"], "All places of tokens (symbolic lines and columns, also going back) for up to 3 (thorough: 4) rows, and all malformed sources that differ from a valid one by one token, or end early.",
     "Tests only expand valid sources in natural places; the code subtracts places and unwraps what it looked ahead at.",
     MF, [("differences of lines and columns", "genco-macros/src/encoder.rs, string_parser.rs"), ("lookahead", "genco-macros/src/quote.rs")],
     "abstract interpretation of the macros' MIR: no path reaches a panic (overflow, unwrap, assertion, index)",
     "Arithmetic is checked for overflow as in debug builds; double borrows of RefCells are not modelled. " + MB)

prop("C18", "Building and formatting streams never panics",
     "Whatever streams are built of and however they are nested, adding to a stream, enumerating its imports, quoting text, comparing and converting items, and formatting a stream - well-formed or not, as a file or not, in every language, with every configuration, into every destination - return a value or an error and never panic: no arithmetic in the library overflows, no index or slice is out of bounds or off a character boundary, and no operation that may fail is unwrapped where it can fail.",
     ["inputs", "histories"], "All streams, texts (with characters of every width), imports, configurations, nesting depths and counts of indentation up to the limits of the counter.",
     "Overflow needs tens of thousands of items or levels, off-boundary slices need text of a certain width in a certain place; tests hold neither.",
     ["src/tokens", "src/fmt", "src/lang"],
     [("changes of indentation added up with saturation", "src/tokens/tokens.rs, src/fmt/formatter.rs"), ("slices of texts while quoting", "src/lang/*.rs"),
      ("written chunks of spaces and tabs", "src/fmt/formatter.rs")],
     "abstract interpretation of MIR: inventory of panic sites, each visited by the analyses with no path that panics",
     "The inventory lists every construct of the library's MIR that can start a panic (overflow, bounds and division assertions, diverging calls, library functions documented to panic); "
     "the explorations of the checks for streams, formatting, quoting, headers, writers, comparisons and conversions are run, and each construct has to be visited without panicking on any path. "
     "usize and 32-bit or wider counters are taken to be unbounded (they count items or bytes in memory), 16-bit ones are not. Panics of user-supplied code, exhausted memory and stack overflow are out of scope. " + TB)

prop("N01", "Everything formatted is accepted by the target language's compiler",
     "If a stream was quoted from a fragment that is valid in the target language, then the formatted text is accepted by a compiler of that language.",
     ["inputs"], "All fragments, and all compilers of all target languages.",
     "The tests never run a compiler of a target language.",
     ["src/lang", "genco-macros/src"], [("languages", "src/lang/*.rs")],
     na="The quoted text is opaque to genco and the grammars and type systems of twelve languages are not part of the source; what genco itself writes (string literals, imports, packages, comments, layout) is decided by C07, C09, C10 and C12 instead.")

prop("N02", "Building and formatting takes time and memory linear in the text",
     "Building a stream and formatting it takes time and memory proportional to the number of items and the length of their texts, at every depth of nesting of strings and of `display` values.",
     ["inputs"], "All streams.",
     "Tests use small streams and measure nothing.",
     ["src/tokens/tokens.rs", "src/fmt/formatter.rs"], [("formatting of items", "src/fmt/formatter.rs")],
     na="A bound on running time quantifies over runtime quantities (allocation, sorting in BTreeSet, the caller's Display and LangItem code) that the interpreter abstracts away; no static argument in reach bounds them.")

prop("N03", "Languages and values defined outside of the crate work as built-in ones",
     "A language defined by a user with impl_lang!, and values with a FormatInto, Display or LangItem implementation of their own, take part in all of the guarantees above.",
     ["inputs"], "All implementations of the public traits.",
     "Tests define two toy languages.",
     ["src/macros.rs", "src/lang/mod.rs"], [("impl_lang!", "src/macros.rs")],
     na="The code that decides this is not in the repository; it is opaque to an analysis of this source. What holds for every implementation (order of calls, errors passed on, items kept) is part of C01, C03, C05 and C08, where language code is an arbitrary function.")
