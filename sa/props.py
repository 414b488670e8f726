"""The properties, in one table.  `gen.py` writes properties.jsonl and MANIFEST.json from it."""

I, CF, FS, H, SC, CP = "inputs", "configurations", "fault_sequences", "histories", "schedules", "crash_points"

# id, title, statement, over, quantifier text, why tests cannot, files, [(mechanism, where)]
PROPS = [
 ("C01", "Only --write modifies files",
  "The program never creates, changes, renames or deletes anything in the file system unless it was started with --write and is not reading standard input; printing, --check and --diff runs, and every use of the library alone, leave all files as they were. Under --write the only file-system change is replacing the contents of a processed file.",
  [I, CF, FS, SC], "every command line, every set of files and contents, every configuration and every failure along the way",
  "the CLI tests run a few modes on one or two temporary files and look only at those; no test shows that some other path or failure cannot write",
  ["src/main.rs", "src/lib.rs", "src/config.rs", "src/serializer/formatter.rs"], [("mode dispatch and the only write call", "src/main.rs"), ("library free of file-system mutation", "src/lib.rs")]),
 ("C02", "--write stores exactly the formatted text, in the right file, only when needed",
  "With --write, a processed file is rewritten exactly when formatting succeeded and the formatted text differs from what was read from it, and what is stored in it is exactly the complete formatted text of that same file's content, once. A file that could not be read or formatted, or that is already formatted, is not touched.",
  [I, SC, FS], "every number of files, all contents, all schedules of the parallel workers, every read/format/write outcome",
  "tests write single small files; mixing up files, contents or outcomes across workers, or truncating, needs other inputs and schedules",
  ["src/main.rs"], [("parallel processing of files", "src/main.rs")]),
 ("C03", "Failures set the exit status, are reported, and never abort",
  "Every failure to read, format or write an input, to collect files, or to accept a setting the program validates is reported on standard error and makes the exit status a failure; if nothing fails the status is success, except that --check fails exactly when some input differs from its formatted text. None of these outcomes ends in a panic.",
  [I, FS, CF, SC], "every combination of failing operations, in every mode, over any number of files",
  "few failing outcomes are sampled; a swallowed error or a lost flag in one of the modes stays invisible",
  ["src/main.rs"], [("exit status computation and error reporting", "src/main.rs")]),
 ("C04", "Standard output carries only results; every warning reaches standard error",
  "Without --write, --check or --diff, standard output receives exactly the formatted text of every input, once and in full; --check prints nothing there and --write only the names of files it has rewritten. In every mode, each warning of each formatted input is printed to standard error with its line number and message.",
  [I, SC], "every mode, every number of inputs and warnings",
  "tests look at one stream of one run; they cannot show that no path mixes diagnostics into results or loses a warning",
  ["src/main.rs"], [("printing in the four modes", "src/main.rs")]),
 ("C05", "All modes decide by the same comparison of raw text with formatted text",
  "--check, --diff and --write all act on the same decision: whether the complete text read from the input, unmodified, differs from the formatter's output for that text, for files and for standard input alike. The printed diff is computed from the original to the formatted text, with removed lines marked -, added lines + and common lines a space.",
  [I, CF], "every input text and every mode",
  "agreement between modes is never tested; it must hold for all inputs",
  ["src/main.rs"], [("comparison sites and print_diff", "src/main.rs")]),
 ("C06", "Exactly the requested files are processed",
  "Each file named on the command line that is not a directory is processed once; for each directory exactly the regular files below it whose extension is .md or .markdown in any letter case are processed; without file arguments (and when standard input is not asked for) the files matched by the configured include patterns and not matched by an exclude pattern are processed, each once, with version-control ignore rules applied as git_aware says. Nothing selected is dropped, nothing else is processed, and an entry that cannot be read is an error.",
  [I, CF], "every directory tree, every argument list, every pattern list",
  "tests build tiny trees; dropping an entry, an extension or an order for some other tree goes unnoticed",
  ["src/main.rs", "src/config.rs"], [("argument expansion and directory walk", "src/main.rs"), ("include/exclude patterns", "src/config.rs")]),
 ("C07", "Every configuration setting governs its own formatting option",
  "On the command line each formatting option takes exactly the value of the configuration setting of the same name and section, for every setting, with --line-width overriding the configured line width and nothing else; each configured code formatter keeps its language, its full command and its timeout. The configuration comes from the file given with --config if there is one, and from the cascaded configuration files otherwise; only if it cannot be loaded, which is reported, do the defaults take its place.",
  [CF], "every configuration and every setting",
  "tests set a handful of settings through the program; a crossed or dropped setting is only visible for values no test uses",
  ["src/main.rs", "src/config.rs"], [("construction of the options", "src/main.rs")]),
 ("C08", "Every JavaScript option governs the formatting option of the same name",
  "Each option in the JavaScript options object sets the formatting option of the same name and no other, with every valid value carried over unchanged; an option that is absent leaves the default. The TypeScript declarations list exactly the names the module reads.",
  [CF], "every options object",
  "the JavaScript tests need a built WASM module and sample few options; a misnamed key or crossed option just silently keeps the default",
  ["src/wasm.rs", "packages/wasm/src"], [("options object and its conversion", "src/wasm.rs"), ("declared option names", "packages/wasm/src/types.ts")]),
 ("C09", "Defaults agree everywhere",
  "The library's default options, the default configuration, an empty configuration file, an absent JavaScript option and the defaults written in the sample configuration of the documentation all give every setting the same value.",
  [CF], "every setting on every route by which it can be left out",
  "defaults are written down independently in several places and each test looks at one of them",
  ["src/lib.rs", "src/config.rs", "src/wasm.rs", "README.md"], [("default values", "src/lib.rs"), ("section defaults", "src/config.rs")]),
 ("C10", "Every formatting option has an effect",
  "Every formatting option is consulted on some path from formatting a document to its output, so that no documented option is silently ignored.",
  [CF, I], "every option", "an option that is no longer read changes no sampled output unless a test sets it",
  ["src/lib.rs", "src/serializer"], [("uses of the options", "src/serializer/mod.rs")]),
 ("C11", "All entry points format the same way",
  "Formatting a text through the library with or without warnings, through the JavaScript functions with or without warnings or formatters, and through the command line parses it with the same Markdown extensions and renders it with the same renderer, given the complete text and the complete options; empty input gives empty output everywhere.",
  [I, CF], "every input text and options value, every entry point",
  "entry points repeat the same parser set-up; tests call mostly one of them",
  ["src/lib.rs", "src/wasm.rs", "src/main.rs", "src/serializer/mod.rs"], [("parser options and call of the renderer", "src/lib.rs"), ("the WASM entry points", "src/wasm.rs")]),
 ("C12", "Configuration layers override one another in the documented order",
  "The cascaded configuration is the defaults overlaid by the system file, the legacy user file, the XDG user file and the project file, in that order, where a later file's setting wins and a setting it does not mention keeps the earlier value; a project file that sets no_inherit discards every earlier layer. A layer that does not exist changes nothing, and one that cannot be read or parsed is an error rather than ignored.",
  [CF, H], "every combination of present, absent and partial files",
  "the tests combine two layers and one or two settings; precedence must hold for all of them",
  ["src/config.rs"], [("layer merge", "src/config.rs"), ("cascading load", "src/config.rs")]),
 ("C13", "Invalid settings are rejected on every route",
  "A value outside the documented range of a constrained setting (line width, list spaces, indent width, fence length, thematic break style, dash patterns) cannot be constructed by any route, including reading a configuration file; every value that is in range is accepted. On the command line a formatter without a command and contradictory dash settings are rejected before any input is read.",
  [CF], "every value of every constrained setting, on every construction route",
  "tests probe boundary values of the constructors; a second route around a check, or a value outside the sampled ones, is not seen",
  ["src/config.rs", "src/serializer/punctuation.rs", "src/main.rs"], [("constrained settings", "src/config.rs"), ("contradictory dash settings", "src/serializer/punctuation.rs")]),
 ("C14", "The nearest project configuration is used",
  "Without --config the project configuration is the .hongdown.toml in the starting directory or, if there is none, in the nearest ancestor that has one; a file that exists there but cannot be read or parsed is an error, not skipped. Include patterns are relative to the directory of the configuration file they come from.",
  [CF, FS], "every directory depth and placement of files", "tests use one or two levels",
  ["src/config.rs", "src/main.rs"], [("discovery", "src/config.rs")]),
 ("C15", "External formatters only run for their own language, and failures keep the code",
  "An external formatter (a configured command, or the JavaScript callback) runs only for a code block whose first info word, or the default language if there is none, is exactly a configured language, and that is not marked hongdown-no-format; it runs at most once per block and receives exactly that block's code, under the configured command and arguments. If it succeeds its output, unchanged but for being split into lines, replaces the code. If it fails in any way (the command cannot be started, exceeds its timeout, reports failure, or gives output that cannot be read or is not UTF-8) the original code is kept and a warning is recorded; the callback may decline, which also keeps the code.",
  [I, CF, FS], "every code block, formatter table and outcome of the formatter",
  "tests use a few shell commands; every failure outcome and every combination of language and marking must be covered",
  ["src/serializer/code.rs", "src/serializer/formatter.rs"], [("formatter selection and fallback", "src/serializer/code.rs"), ("running the command", "src/serializer/formatter.rs")]),
 ("C16", "Running a formatter leaves no process behind and trusts only success",
  "Once an external formatter has been started, every way out of running it, including errors, first waits for the process to end, after killing it if the configured timeout has passed or waiting for it failed; nothing else blocks on a running process, and its standard input is closed before its end is awaited. Output is used only if the process reported success and the output is valid UTF-8.",
  [FS, SC, H], "every failure point of the exchange with the process, every timing",
  "failure points and timings of a child process cannot be sampled",
  ["src/serializer/formatter.rs"], [("child process handling", "src/serializer/formatter.rs")]),
 ("C17", "Directives disable formatting exactly where they say",
  "A block inside a region disabled by a directive is copied from the source and not formatted: from hongdown-disable to hongdown-enable, the one block after hongdown-disable-next-line, the blocks after hongdown-disable-next-section up to the next heading, and everything after hongdown-disable-file. Outside such regions no block is left unformatted.",
  [I, H], "every sequence of blocks and directives", "tests use short documents with one directive",
  ["src/serializer/document.rs", "src/serializer/state.rs"], [("directive state machine", "src/serializer/document.rs")]),
 ("C18", "Formatting is a pure function of the text and the options",
  "Formatting consults no clock, environment, random source, file, process or global mutable state and iterates over no unordered collection in a way that reaches the output, apart from running a configured external formatter; and it keeps no state between calls.",
  [I, H, SC], "every input, any number of calls, any threads",
  "tests call the formatter once per input in one environment",
  ["src/serializer", "src/lib.rs"], [("everything reachable from formatting", "src/lib.rs")]),
 ("C19", "Every collected link definition is written exactly once",
  "Whenever a link or image is written in reference style its definition, with its destination and title, is recorded under the same label, and every recorded definition is written out before the document ends, without being written twice.",
  [I, H], "every document, any placement of links", "tests have a few links; a lost definition turns a link into plain text",
  ["src/serializer/mod.rs", "src/serializer/link.rs", "src/serializer/document.rs", "src/serializer/state.rs"], [("recording and flushing of definitions", "src/serializer/mod.rs")]),
 ("C20", "Every footnote that is parsed is written out",
  "Every footnote definition in the parsed document is recorded and written out with its name and content before the document ends, and none is written twice.",
  [I, H], "every document with footnotes anywhere", "tests have a few footnotes",
  ["src/serializer/mod.rs", "src/serializer/document.rs"], [("footnote collection and flushing", "src/serializer/mod.rs")]),
 ("C21", "Every kind of Markdown node is rendered with its content",
  "For every kind of node the parser can produce, wherever it may occur, rendering it writes its own text (literal, code, destination, title, footnote name, info string, heading level, task mark, alert kind and title, or the mark of a break or rule), and writes the rendering of every child, in the order of the children, on every path; or it copies the node from the source, or records what is not written in place to be written later. No kind of node silently loses content.",
  [I], "every kind of node in every place it may occur, every tree", "tests cover common kinds; a lost field of a rare kind is not seen",
  ["src/serializer"], [("rendering by node kind", "src/serializer/mod.rs")]),
 ("C22", "Code, HTML and front matter are copied verbatim",
  "The text of code blocks, inline code, HTML and front matter, and the destinations and titles of links and images, reach the output without any typographic, case or escaping change, wherever they occur: between the parsed node and the output blocks are only split into lines (every line is written, and ends where it ended), indented and prefixed, trailing newlines are normalised, and a container only lays out what was rendered inside it (line breaks at white space, table cells padded and their pipes escaped).",
  [I, CF], "every literal text and every option", "tests sample literals without the characters some transformation would touch",
  ["src/serializer/code.rs", "src/serializer/block.rs", "src/serializer/inline.rs", "src/serializer/document.rs"], [("code", "src/serializer/code.rs"), ("HTML and front matter", "src/serializer/mod.rs")]),
 ("C23", "A fence is always longer than any run of its character in the content",
  "Wherever fenced code or inline code is written, the opening and closing delimiters are equal and strictly longer than any run of the delimiter character inside the content, so the content cannot end the code early.",
  [I, CF], "every content and every fence setting", "tests sample short runs",
  ["src/serializer/code.rs", "src/serializer/mod.rs", "src/serializer/inline.rs"], [("fence length", "src/serializer/code.rs")]),
 ("C24", "Rendering context is restored after nested content",
  "Nesting depth, list position, kind and tightness, block-quote and description-list context and prefixes that rendering changes for nested content are back at their former values when that content is done, on every path, so what follows is formatted as if the nested content were not there. While nested content is rendered the context describes it: quoted content has the prefix of its surroundings and one more quote mark, and the items of a list are one level deeper, of that list's kind and tightness, and counted from the start. Output already written is never taken back.",
  [I, H], "every nesting and every exit path", "leaks need particular nesting followed by particular content",
  ["src/serializer"], [("saved and restored context", "src/serializer/state.rs")]),
 ("C25", "Escaping text keeps every character and never leaves a marker bare",
  "Escaping plain text (with and without the escapes the source has) and table cells writes every character of it exactly once and in its place, adds nothing but escapes, puts a backslash (or the source's entity) before every `*`, `_`, backtick and backslash of a text, and a backslash before a `|` that begins a table cell.",
  [I], "every text, and every source text it is compared with", "a character is lost or left unescaped only in a particular context of escapes and entities in the source",
  ["src/serializer/escape.rs", "src/serializer/inline.rs"], [("escaping", "src/serializer/escape.rs")]),
 ("C26", "The delimiter row of a table says how each column is aligned",
  "Whatever the cells and widths of a table, what is written as a column's delimiter is dashes with a colon before them exactly if the column is aligned left or centred, and a colon behind them exactly if it is aligned right or centred.",
  [I], "every table: any number and width of columns and rows", "tests sample tables; a marker that goes wrong for some width, position or content shows only there",
  ["src/serializer/table.rs"], [("table rendering", "src/serializer/table.rs")]),
 ("C27", "Typographic changes happen only when enabled",
  "Each typographic substitution is made only under its own setting: curly double quotes under curly_double_quotes, curly single quotes under curly_single_quotes, curly apostrophes under curly_apostrophes, the ellipsis under ellipsis, and an en or em dash only in place of the pattern configured for that very dash. Letters change case only under heading_sentence_case. A setting that is on has its effect.",
  [I, CF], "every text, every combination of settings", "tests switch one setting at a time on sampled texts",
  ["src/serializer/punctuation.rs", "src/serializer/heading.rs", "src/serializer/document.rs"], [("typographic transformations", "src/serializer/punctuation.rs")]),
 ("C28", "Warnings carry the right place and never change the output",
  "Formatting produces the same text whether or not warnings are requested, and every warning records the line of the construct it is about.",
  [I], "every input", "tests look at a few warnings", ["src/serializer/mod.rs", "src/serializer/state.rs"], [("warnings", "src/serializer/state.rs")]),
 ("C29", "The command line offers the documented options, one mode at a time",
  "Every documented command line option exists under its documented long and short name and sets the argument of that name and no other; --line-width and --config need a value; at most one of --write, --check and --diff can be given, and beyond that no option forbids, overrides or requires another or takes a value from elsewhere than the command line.",
  [CF], "every combination of options on the command line",
  "tests use a few options one at a time; a clash or a missing exclusion shows only for combinations they do not use",
  ["src/main.rs", "README.md"], [("argument declaration", "src/main.rs")]),
 ("C30", "Arithmetic on widths and lengths never panics",
  "No subtraction of widths, lengths or line numbers in the formatter can go below zero, whatever the text and the configured widths.",
  [I, CF], "every text and every configured width", "an underflow panics only for lengths no sampled document has",
  ["src/serializer"], [("arithmetic on lengths", "src/serializer/wrap.rs")]),
 ("C44", "Wrapping never makes a word begin a block",
  "When text is wrapped, no line is begun with a word that, at the start of a line, would begin a list item, heading, quote, fence or rule.",
  [I, CF], "every text and line width", "a word that would begin a block must fall exactly on a line break",
  ["src/serializer/wrap.rs"], [("line breaking", "src/serializer/wrap.rs")]),
 ("C45", "Wrapping changes only white space",
  "Wrapping a text, at any width, writes every character of it that is not white space exactly once and in the original order; two words separated by a space or a line break stay separated by white space; and a hard line break stays a hard line break.",
  [I, CF], "every text, prefix and width", "a character is lost or words are joined only for particular lengths, positions or sequences of words, which the sampled texts do not contain",
  ["src/serializer/wrap.rs"], [("line wrapping", "src/serializer/wrap.rs")]),
 ("C46", "Typographic substitution leaves everything else alone",
  "Every typographic substitution (dashes, ellipses, quotation marks, apostrophes), and all of them together, returns every character it is not about - letters, digits, spaces, line breaks, brackets, any other punctuation, non-ASCII text - exactly once and in its place.",
  [I, CF], "every text, every combination of settings", "a neighbouring character is lost or doubled only in a particular context of characters around a quotation mark or dash",
  ["src/serializer/punctuation.rs"], [("typographic transformations", "src/serializer/punctuation.rs")]),
 ("C40", "Formatting twice changes nothing more",
  "Formatting already formatted text returns it unchanged.", [I, CF], "every input and options value", "tests sample inputs",
  ["src/lib.rs", "src/serializer"], [("the whole formatter", "src/lib.rs")]),
 ("C41", "Formatting preserves the meaning of the document",
  "The formatted text parses to the same document as the original, apart from the documented style changes.", [I, CF], "every input and options value", "tests sample inputs",
  ["src/lib.rs", "src/serializer"], [("the whole formatter", "src/lib.rs")]),
 ("C42", "Wrapped lines fit the configured width",
  "No line of wrapped text is longer than the configured width unless it consists of a single unbreakable word.", [I, CF], "every paragraph and width", "tests sample paragraphs",
  ["src/serializer/wrap.rs"], [("wrapping", "src/serializer/wrap.rs")]),
 ("C43", "Formatting always ends, without panicking, for every input",
  "Formatting any text ends, and never panics or exhausts the stack.", [I], "every input", "tests sample inputs",
  ["src/serializer"], [("the whole formatter", "src/lib.rs")]),
]

# id -> (technique, level, level_note) of the claimed properties
ABS = "MIR abstract interpretation with a monitor automaton (custom static analyser)"
CLI_NOTE = ("Sound over all paths of main for the modelled library operations; assumes rustc's MIR, the models of std/rayon/walkdir/clap "
            "calls in sa/models.py, and clap's declared argument conflicts.")
CLAIMS = {
 "C01": ("call-event effect analysis over MIR abstract interpretation of every command mode", "other", CLI_NOTE),
 "C02": (ABS, "other", CLI_NOTE),
 "C03": (ABS, "other", CLI_NOTE),
 "C04": (ABS, "other", CLI_NOTE),
 "C06": ("MIR abstract interpretation following one arbitrary selected file (a symbolic witness) through every list of the program", "other", CLI_NOTE + " Glob matching itself is the ignore crate's."),
 "C07": ("MIR abstract interpretation with symbolic configuration: value provenance of every option field", "other", CLI_NOTE),
 "C08": ("MIR constant and symbolic propagation through the generated deserialiser and the conversion, one run per option and value; syntax-tree evaluation of the TypeScript wrapper", "other", CLI_NOTE),
 "C09": ("constant propagation of every default on every route, compared with each other and the documentation", "other", "Sound for the constants compared; the documentation is read as data. Assumes rustc's MIR and serde's generated code shape."),
 "C10": ("call-graph reachability and forward slicing of every option read", "other", "Decides that a read on some reachable path flows into a decision, call or result; not that every place the option should govern consults it."),
 "C11": ("MIR abstract interpretation of the five entry points with parser and renderer opaque; symbolic comparison of what they pass and return", "other", CLI_NOTE),
 "C18": ("effect analysis over the call graph with dominators (custom lint on MIR)", "other", "Covers this crate's code; comrak, toml and other dependencies are taken to be pure. Function-pointer callbacks supplied by the caller (the JavaScript formatter) are outside."),
 "C12": ("MIR abstract interpretation of the cascade with symbolic layers: order and provenance of every merged setting", "other", CLI_NOTE),
 "C13": ("MIR constant-region propagation through constructors and deserialisers, construction-site lint, abstract interpretation of main", "other", "Numeric ranges are decided for every value (all decisions are comparisons with constants); texts by constant propagation over a partition of short texts, so exhaustive only up to four characters of each class for thematic break styles. Assumes rustc's MIR and the library models."),
 "C21": ("MIR abstract interpretation of every renderer, once per kind of node and of child, following a symbolic witness (one arbitrary child, or one field of the node) into what is written: greatest-fixpoint provenance over the value graph, positions of the witness split by case", "other", "Modular (a renderer's children are rendered by calls that are themselves analysed for every kind they may meet). A text counts as written when what is written derives from it: that it is not altered on the way is C22's, C25's and C27's concern. Loops over the pieces of a text are taken to run. The start number of an ordered list is not content here."),
 "C22": ("MIR abstract interpretation of every renderer, helpers included, with the text of a node, one arbitrary line and the rendering of one arbitrary child as symbolic witnesses; taint-style whitelist over the graph of values between them and what is written", "other", "Modular per renderer. A helper that lays out rendered text is judged by the operations its call graph makes use of; a text taken from the source instead of the tree is accepted as the text. That delimiters fit the text (a longer fence, a quote in a title) is not decided here."),
 "C24": ("modular MIR abstract interpretation of every node renderer: symbolic comparison of each context field, and of the output, at every exit with its value at entry", "other", "Assume-guarantee: each function is analysed with the functions that render its children taken to restore what they change; all of them are checked. A list item counting itself is the one effect allowed."),
 "C27": ("interprocedural reachability over MIR of every site that writes a typographic character or changes case, with settings forced on or off by conditional constant propagation", "other", "Flow-sensitive in the functions that consult a setting, call-graph reachability elsewhere; does not decide which quote character is chosen in a given context."),
 "C29": ("MIR abstract interpretation of the generated argument declaration and parser", "other", "Assumes clap enforces what is declared."),
 "C15": ("MIR abstract interpretation of every code block renderer with everything below inlined, in product with a monitor of the formatter exchange", "other", "Sound over all paths of the renderers for the modelled operations of std::process, std::io and std::thread, one analysis per kind of info string."),
 "C16": ("MIR abstract interpretation with a typestate automaton of the child process", "other", "Sound over all paths for the modelled operations of std::process, std::io and std::thread; failing to kill or wait for a process is taken to mean that it has ended."),
 "C14": ("MIR abstract interpretation of discovery with path classification and a monitor automaton", "other", CLI_NOTE),
 "C05": (ABS + "; value provenance of comparison and diff operands", "other", CLI_NOTE),
 "C25": ("MIR abstract interpretation over a finite domain of order-preserving accumulation: one arbitrary character, per kind, and what stands before and after it as a symbolic witness", "other", "Sound for what the analysis decides, one run per escaping function, kind and place of the character; cases it cannot follow are listed as undecided in the evidence. The operations of str, String, Vec and iterators are modelled; the table of entities is taken to be right."),
 "C26": ("MIR abstract interpretation of the renderer of tables, once per alignment of all columns: what may stand between two column separators, over the terms of everything appended", "other", "Over-approximates joins of conditions; a delimiter made of parts that are not understood is not judged (listed as undecided). Rows and cells are the subject of C21, pipes in cells of C25."),
 "C45": ("MIR abstract interpretation over a finite domain of order-preserving accumulation: one arbitrary character and what stands before and after it as a symbolic witness, to the fixpoint without joins", "other", "Sound for what the analysis decides of the wrapping functions; cases it cannot follow are listed as undecided in the evidence. The operations of str, String, Vec and iterators are modelled. For separation, texts are taken to begin with a character that is not white space."),
 "C46": ("MIR abstract interpretation over a finite domain of order-preserving accumulation: one arbitrary character, per kind of character, and what stands before and after it as a symbolic witness", "other", "Sound for what the analysis decides, one run per function, kind of character and place (anywhere, first, second); cases it cannot follow are listed as undecided in the evidence. The operations of str, String, Vec and iterators are modelled."),
}
NOT_APPLICABLE = {
 "C40": "idempotence compares two runs of the whole formatter over arbitrary text; no static abstraction within reach relates the parser's reading of the output to the first run",
 "C41": "relates the parser's tree of the output to that of the input for arbitrary text; parsing happens in an external crate and depends on runtime strings no static domain here can represent",
 "C42": "bounds a sum of Unicode display widths of runtime strings; no sound static argument in reach decides it",
 "C43": "termination, stack depth and string-index safety depend on runtime text (char boundaries, nesting depth); a sound static proof is out of reach for this code base (panics of the command line itself are part of C03)",
 "C17": "relates the formatter's exchange for code blocks to wall-clock time and the operating system's scheduling; the static part (every wait has a limit, the child is ended) is C16",
 "C19": "whether the definition written under a label is the one its link meant depends on equality of runtime strings (labels, destinations) and on maps built over the whole document; the summaries used here keep no relation between entries of a map, so a verdict would be either vacuous or a false alarm (a genuine defect found by reading, two links with equal texts and different destinations, is described in DESIGN.md)",
 "C20": "which footnotes were recorded and which written are sets of runtime names that grow across recursive rendering; no abstraction here relates the two sets. That each definition's content is rendered whole is part of C21",
 "C23": "needs that a counted length (the longest run of a character) bounds what occurs in a runtime string; the abstract domains here do not relate numbers to the contents of texts",
 "C28": "the place half compares line numbers computed by arithmetic from runtime positions with what a reader would call the place of a construct; there is no independent source of truth in the program. That warnings and output of the five entry points agree is C11",
 "C30": "needs relational bounds between widths, indices and lengths of runtime strings (display widths included); most subtractions are guarded only through such relations, so a static verdict would mostly be unproved and any refactoring would raise an alarm",
 "C44": "whether a word would begin a block is a condition on its text in a helper added by a fix; that it is consulted before every line break could be checked, but that it recognises every such word cannot be decided statically. What C45 decides about wrapping holds beside it",
}
TODO = "check not built yet"
