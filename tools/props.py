"""The property table: statement, anchors, and how it is decided."""
ALL = ["src/", "src/extensions/", "cli/main.c"]
SOUND = ("Static, path-sensitive over the LLVM IR of every source of the library and the CLI; nothing is executed. An alarm is a feasible "
         "path in the tracked abstraction; sites whose state space exceeds the cap are counted as undecided in the evidence. ")

PROPS = [
 dict(id="C05", title="Every file, pipe, process, pattern and parser handle is released on every path",
  statement="Every operating-system or parser handle that a conversion, plugin run or command opens (file or directory stream, descriptor, pipe end, child process, compiled pattern, glob result, YAML or Markdown parser, tree iterator) is closed by the matching routine on every way out, error exits included. A long-lived host that converts many documents never accumulates descriptors, zombie processes or parser state.",
  over=["inputs", "fault_sequences"], forall="for every input document, configuration and failing system call, on every path through the acquiring code",
  why="The suite drives a handful of successful conversions; error exits (second pipe fails, malformed YAML, unreadable file) are never taken and nothing counts open handles.",
  files=["src/plugins.c", "src/plugins_env.c", "src/plugins_remote.c", "src/filters_ast.c", "src/extensions/includes.c", "src/extensions/metadata.c", "src/extensions/syntax_highlight.c", "cli/main.c"],
  mech=[("paired open/close on each exit", "every function that calls fopen, popen, pipe, fork, opendir, regcomp, glob, yaml_parser_initialize, cmark_iter_new or cmark_parser_new")],
  technique="path-sensitive typestate analysis of handle acquisition/release over LLVM IR",
  note=SOUND + "Trusts that library routines acquire and release as documented."),
 dict(id="C06", title="No use of memory after it was released, and no double release",
  statement="On every path, memory and syntax-tree nodes that were released are never read, written, passed on, stored as a result or released a second time. This holds across helper functions and for values kept in structures between steps of a conversion.",
  over=["inputs", "fault_sequences"], forall="for every input, option set and allocation outcome, on every path from each release",
  why="A dangling use usually reads intact bytes, so a test's output stays right; the failing paths need specific documents, options or allocation failures.",
  files=ALL, mech=[("pointer cleared or reassigned after release", "every call of free, cmark_node_free and the wrappers that release their argument")],
  technique="path-sensitive typestate analysis (released-pointer) over LLVM IR with interprocedural release summaries",
  note=SOUND + "Releases through summaries of defined functions are included; aliases through unknown heap structure are assumed distinct."),
 dict(id="C07", title="Allocation failure never turns into a NULL dereference",
  statement="When a memory request fails, the code that asked for it notices before it reads, writes or hands that memory to a routine that requires it; the conversion degrades or reports failure instead of crashing the host. This holds for each allocation separately, whichever one fails.",
  over=["fault_sequences", "inputs"], forall="for every allocation site and every path after that allocation fails",
  why="No test makes an allocation fail; there are hundreds of sites and each needs its own fault.",
  files=ALL, mech=[("result tested before first use", "every call of malloc, calloc, realloc, strdup, strndup and the library's allocating helpers")],
  technique="path-sensitive null-state analysis of every allocation result over LLVM IR with may-return-null summaries",
  note=SOUND + "Only allocations whose failure the surrounding code is shown to reach are judged; cmark's own allocator aborts and is excluded."),
 dict(id="C08", title="No conversion or command step leaks memory on any path",
  statement="All memory obtained while converting a document, reading metadata, loading plugins or rendering is released before control returns to the caller, or handed to an owner that outlives the call, on every path including early returns and rejected input. Repeated conversions in one process therefore do not grow without bound.",
  over=["inputs", "fault_sequences", "histories"], forall="for every allocation in the library and CLI helpers and every path to a return",
  why="Output is the same with or without a leak; the suite runs each conversion once and does not look at memory.",
  files=ALL, mech=[("release on every exit", "every function that allocates")],
  technique="path-sensitive ownership (leak) analysis over LLVM IR with interprocedural ownership summaries",
  note=SOUND + "main() itself is excluded because it ends the process; memory stored into a structure belongs to that structure."),
]
REACH = ("Static: interprocedural conditional constant propagation over the LLVM IR of all sources from the public entry points, with the named option fields "
         "fixed and everything else unknown; nothing is executed. An unreachable site is unreachable for every document; a reported site is reachable in the abstraction, "
         "with its call chain. ")
PROPS += [
 dict(id="C02", title="No external program runs unless plugins, a filter or a highlighter was enabled",
  statement="With plugins off, no AST filter listed and no code highlighter chosen, converting a document starts no other program and loads no code, whatever the document, its metadata or the other options say. No mode's preset turns any of the three on, and each of the three switches enables only its own programs.",
  over=["inputs", "configurations"], forall="for every document, metadata block and setting of the other options",
  why="Tests show that a few conversions work; they cannot show that no document in any option combination reaches fork, popen, system or exec.",
  files=["src/apex.c", "src/plugins.c", "src/plugins_env.c", "src/filters_ast.c", "src/extensions/syntax_highlight.c"],
  mech=[("option gates in front of every program start", "apex_markdown_to_html and the functions it calls up to fork/popen/system")],
  technique="interprocedural conditional constant propagation and call-graph reachability over LLVM IR", note=REACH),
 dict(id="C03", title="A conversion writes no file, and reads none that no enabled feature names",
  statement="Converting a document never creates, changes or removes anything in the file system (plugin support directories, created only when plugins are enabled, excepted). With includes, image and stylesheet embedding, bibliographies, plugins, filters and the highlighter off, it opens no file either, whatever the document contains.",
  over=["inputs", "configurations"], forall="for every document and every setting of the remaining options",
  why="A stray read or write needs a particular document construct and option; tests only compare output text.",
  files=["src/apex.c", "src/extensions/includes.c", "src/extensions/citations.c", "src/plugins.c"],
  mech=[("option gates in front of file access", "apex_markdown_to_html down to fopen/open/opendir/glob/mkdir")],
  technique="interprocedural conditional constant propagation and effect reachability over LLVM IR",
  note=REACH + "Reads inside an enabled feature are not judged for which path they open."),
 dict(id="C04", title="The library never ends, replaces or talks through the host process",
  statement="No library entry point ends the calling process, replaces its image, reads its standard input or prints on its standard output, for any input. After a fork the child never returns into the host's code.",
  over=["inputs", "fault_sequences"], forall="for every input, option set and failing system call, from every public entry point",
  why="An exit or a returning child appears only when something rare fails (exec, pipe, allocation); tests run in the success case.",
  files=["src/", "src/extensions/"],
  mech=[("errors are returned, children end with _exit", "every function reachable from the public API; every fork site")],
  technique="effect reachability over the interprocedural control-flow graph, with the child side of each fork explored separately",
  note=REACH + "Diagnostics on standard error are allowed."),
 dict(id="C13", title="Each mode's preset switches on exactly the features documented for it",
  statement="The options produced for each of the five modes, and the defaults, have for every field the documented value: which syntax extensions are on, whether raw HTML is allowed, heading-id format, line-break handling, include depth. No field of the option structure is left uninitialised in any mode.",
  over=["configurations"], forall="for every option field and every mode",
  why="The suite samples a few fields in a few modes; each of the several hundred field/mode pairs is a promise.",
  files=["src/apex.c", "include/apex/apex.h"], mech=[("preset functions", "apex_options_default, apex_options_for_mode")],
  technique="flow-sensitive constant folding of the preset functions over LLVM IR, compared with a specification table",
  note="Static constant folding, joined over all feasible paths; nothing is executed. Fields whose value does not fold are counted as undecided. The table restates the manual."),
 dict(id="C14", title="A feature that is off does nothing; a mode runs its own features only",
  statement="While an option is off, the processing step it controls does not touch the document, in any mode and whatever the document says; and with a mode's preset, exactly the steps and syntax extensions that belong to that mode take part. A feature that is on is actually reachable.",
  over=["inputs", "configurations"], forall="for every document, for each option off with all others free, and for each mode's preset",
  why="A dropped gate changes output only for documents that use that syntax in a mode that should not have it; the suite tests features mostly where they are on.",
  files=["src/apex.c", "src/extensions/"], mech=[("option tests in the conversion pipeline", "apex_markdown_to_html and apex_register_extensions")],
  technique="interprocedural conditional constant propagation (dead pass detection) over LLVM IR per option and per mode",
  note=REACH + "A step counts as acting when one of its loops or an extension creation is reachable. Steps inside a feature are not judged."),
 dict(id="C19", title="Output depends only on document and options, not on history or the clock",
  statement="A conversion's result does not depend on what the same process converted before, nor on the time or a random source. Any state kept between conversions is set again before it is read, or is a registration that does not change.",
  over=["inputs", "histories"], forall="for every sequence of earlier conversions and every time of day",
  why="Each test converts in a fresh or similar state; leakage shows only after a particular earlier document.",
  files=["src/apex.c", "src/ast_man.c", "src/ast_terminal.c", "src/extensions/"],
  mech=[("reset-before-use of static state", "every mutable global or static local reachable from apex_markdown_to_html")],
  technique="exposed-read (use-before-set) dataflow over every mutable global plus clock/random source reachability, LLVM IR",
  note=REACH + "Mutable arrays are counted as undecided unless never read before being written."),
 dict(id="C23", title="The host's environment and process settings come back unchanged",
  statement="When a call into the library returns, environment variables that it set for plugins or filters are restored to what they were (set again, or removed when they did not exist), on every path. It never changes the working directory, locale, signal handling, umask or random seed of the host.",
  over=["inputs", "fault_sequences", "histories"], forall="for every path through every function that installs a variable",
  why="The suite does not look at the environment after a call, and the restoring code has failure paths.",
  files=["src/plugins_env.c", "src/filters_ast.c", "src/apex.c"], mech=[("save, set, restore", "every setenv/unsetenv call reachable from the API")],
  technique="path-sensitive install/restore typestate over LLVM IR, and effect reachability for process settings", note=REACH),
 dict(id="C28", title="Safety and parsing options reach the parser and renderer exactly when set",
  statement="Raw HTML passes through only when unsafe is on; UTF-8 validation, hard breaks, no breaks, footnotes, smart typography and GitHub code language are handed to the parser or renderer when their option is on and never when it is off. GFM mode always attaches the dangerous-tag filter.",
  over=["inputs", "configurations"], forall="for every document and every setting of the other options, at every call of the parser or renderer",
  why="One wrong bit matters only for documents with raw HTML or bad UTF-8, and there are many parser calls besides the main one.",
  files=["src/apex.c", "src/extensions/"], mech=[("option word passed to cmark", "every cmark_parser_new, cmark_render_html, cmark_markdown_to_html call")],
  technique="known-bits constant propagation of the parser option word over LLVM IR",
  note=REACH + "Markdown inside HTML blocks is processed as trusted by design and is excluded for the unsafe bit."),
 dict(id="C09", title="No fixed-size buffer or array is ever overrun",
  statement="Every write into a fixed-size local buffer or array, directly, through a library routine or through a helper that the buffer is handed to, stays inside it for every input: over-long names, attributes, paths and tables are cut, refused or handled in a larger buffer, never written past the end. No more bytes are read from such a buffer than it has, and bytes copied into one are terminated before they are used as text.",
  over=["inputs", "configurations"], forall="for every input text, attribute, path, column count and option value, at every write into such a buffer",
  why="An overrun needs an input longer than any in the suite, and one byte past the end usually goes unnoticed without a sanitizer.",
  files=ALL, mech=[("length test or clamp in front of each copy", "every write into a local array: snprintf, memcpy, strncpy, fgets, fread, indexed stores, and helpers that fill a caller's buffer")],
  technique="demand-driven linear-inequality proofs (dominating conditions, loop induction, call-site substitution) for every buffer access over LLVM IR",
  note="Static; nothing is executed and no solver is used: a write counts as safe only when the inequality offset + length <= size follows from the conditions that dominate it, by induction over loops, or at every caller. "
       "Assumes that integer arithmetic does not wrap and that texts handed in end within their object. Heap buffers are not part of this property."),
]
PROPS += [
 dict(id="C10", title="No heap block is written past its end",
  statement="Memory requested for a text or table is large enough for everything then written into it, its final terminator included: a buffer sized from the lengths of its parts holds all those parts plus the terminator, and a buffer that is filled piece by piece is enlarged, or the piece refused, before a write would pass its end. This holds however long names, cells, attributes, footnotes, expansions or include files are.",
  over=["inputs"], forall="for every length of every input text and every write into requested memory",
  why="A block one byte too short is silently absorbed by allocator padding for most lengths; the suite uses short texts, runs without memory checking and rarely fills a buffer.",
  files=ALL, mech=[("requested size against bytes written", "every malloc, calloc and realloc whose result is written to"), ("room test before each piece", "apex_process_*, apex_replace_*, apex_inject_* writers")],
  technique="symbolic linear size analysis of heap blocks (block-size atoms, length facts, room-test residuals, one-turn induction for terminators) over LLVM IR",
  note="Static; nothing is executed and no solver is used. An alarm is a write whose distance past the end is a positive constant under the size requested or the room test on the way; writes whose distance depends on quantities the "
       "analysis cannot relate (growth ratios such as three times the input) are counted as undecided. Memory requests are taken to succeed (C07 covers failure)."),
 dict(id="C11", title="Every conversion ends: no loop or recursion repeats itself for ever",
  statement="For every document, option set, bibliography, include tree and plugin answer, processing ends: each way round a scanning loop consumes input or changes something that the loop's own tests look at, and no routine calls itself on an unchanged argument. Text pulled in from files can include itself or each other only to a fixed depth.",
  over=["inputs", "histories"], forall="for every way round every loop and every self-call, whatever the bytes read",
  why="A scanning loop that does not advance hangs only on one odd byte sequence (an empty key, a lone &, a full buffer), which no sample contains; a suite cannot observe that something never ends.",
  files=ALL, mech=[("advance of the read position on each branch", "every loop of every source"), ("include depth limit", "apex_process_includes")],
  technique="path-wise progress analysis (value-set and linear dataflow per way round each natural loop, with memory-effect summaries) over LLVM IR",
  note="Static; nothing is executed and no solver is used. An alarm is a way round a loop whose decisions depend on nothing that it changes and do not contradict each other; requests for memory are taken to succeed. "
       "Loops that change something on every way but still never finish (a counter that is reset, two ways that undo each other) are not found; loops over the way cap are counted as undecided."),
 dict(id="C21", title="Entry points cope with NULL for any pointer argument",
  statement="Every routine that the public and module headers declare can be called with NULL for any one of its pointer arguments (document, options, text, title, registry, key, output position): it returns a default, an empty result or NULL, and never reads or writes through the NULL, neither itself nor in a routine it hands the argument on to.",
  over=["inputs"], forall="for each declared routine and each pointer argument, whatever the other arguments are",
  why="Callers in C, Swift and Objective-C pass NULL for whatever they do not have; the suite calls each routine with complete arguments only.",
  files=ALL, mech=[("argument checks at entry", "every function declared in include/apex/*.h and src/**/*.h")],
  technique="interprocedural conditional constant propagation of a NULL argument over LLVM IR",
  note="Static; complete over each declared routine and pointer argument as far as the value stays a known NULL: once a join mixes it with other values, or it is kept in memory other than a structure the entry point itself fills in, it is no longer followed."),
 dict(id="C22", title="Conversions in different threads do not touch shared state",
  statement="The library can convert documents in several threads at once, as its API reference promises: no step of a conversion or rendering changes a global or static variable that threads share, and none calls a library routine that keeps hidden state between calls. Registrations made once with the same value, and the environment variables through which plugins and filters are told about the document, are excepted.",
  over=["schedules", "inputs"], forall="for every interleaving of any number of conversions, whatever the documents",
  why="A data race needs two threads in the same few instructions; the suite is single-threaded.",
  files=ALL, mech=[("no writable statics; thread-local renderer state", "every function reachable from the public entry points")],
  technique="effect analysis: writes to shared globals and calls of non-reentrant routines reachable from the entry points, over LLVM IR",
  note="Static. If nothing shared is written, no interleaving can matter, so all schedules are covered at once. Not judged: the once-only registrations (node types), cmark-gfm's and libyaml's own globals, and setenv for plugins and filters."),
 dict(id="C15", title="Each switch and metadata key sets exactly what it is documented to set",
  statement="Every command-line switch, with every value it accepts, and every metadata key, with true/yes/1, false/no/0 or any documented value, sets exactly the option fields the usage text and manual pages name, to the documented values; it sets nothing else, a value that is not documented sets nothing, an unknown switch or key sets nothing, metadata keys are recognised in upper and lower case, and --no-plugins still holds after a document's metadata has been applied.",
  over=["inputs"], forall="for every documented switch, key and value, whatever the other arguments and metadata are",
  why="The suite never runs the tool with its roughly 130 switches and sets option fields directly; a switch that sets a second field or a key that misses one goes unnoticed.",
  files=["cli/main.c", "src/extensions/metadata.c"],
  mech=[("comparison chains over argv[i] and over metadata keys", "main; apex_apply_metadata_to_options, is_true_value, is_false_value")],
  technique="conditional constant propagation over LLVM IR with the selecting text known, compared with a table written from the documentation",
  note="Static; 585 (switch or key, value) cases, each followed through the comparisons to every option store it can reach. Mixed-case values, the order in which several switches interact, and what --script, --width and --output do with their argument are not judged."),
 dict(id="C18", title="The command-line tool's exit status tells the truth",
  statement="Whenever the tool reports an error, cannot read its input, cannot convert, cannot open its output, or cannot write all of it, it ends with a non-zero status, also when further files are processed afterwards; it ends with status 0 only after everything it wrote has been flushed or closed successfully. Files that it announces as skipped with a warning are the only exception.",
  over=["inputs", "fault_sequences"], forall="for every argument list and every failing read, open, write, flush or close, on every path to the end of the tool",
  why="Scripts and build systems rely on the status; a full disk, an unreadable file in the middle of a list or a read error never occurs in the suite, which does not run the tool at all.",
  files=["cli/main.c"], mech=[("return values after error messages; result of flush and close", "main, read_file, read_stdin, finish_output, apex_cli_mmd_merge_index, apex_cli_combine_from_summary, add_script_tag")],
  technique="forward path analysis with constant tracking from each failure point to the returns, over LLVM IR",
  note="Static; each of the error messages and failing steps is one obligation, helpers are judged by what they return and their callers by what they do with it. An error condition that the code neither tests nor reports (other than the steps named in the statement) is not seen."),
]
PROPS += [
 dict(id="C27", title="A search that finds nothing never turns into a NULL dereference",
  statement="When a search for a character, a substring, a key or an entry finds nothing (strchr, strstr, getenv, a metadata or abbreviation lookup, a first child that is not there), the code that asked notices before it reads or writes through the result, subtracts it from another position or hands it to a routine that needs a text. This holds for each search separately, whatever the document lacks.",
  over=["inputs"], forall="for every search call and every path after it finds nothing",
  why="Tests contain the delimiter that is searched for; the missing closing quote, key or parent appears only in odd documents, and there are more than 1500 searches.",
  files=ALL, mech=[("result tested before first use, or known to be there from an earlier test", "every call of strchr, strrchr, strstr, memchr, strpbrk, getenv, the cmark node accessors and the project's own lookup functions")],
  technique="path-sensitive null-state analysis of every search result over LLVM IR with may-find-nothing summaries",
  note=SOUND + "Searches whose success follows from an earlier search of the same text on the same path are recognised; correlations through other data are assumed only where the code states them by a test, the rest are counted as undecided."),
]
PROPS += [
 dict(id="C24", title="Every text is terminated before it is used as a text",
  statement="Whatever the document, the options and the size of a piece (empty, ending exactly at a limit, cut off), a text that the program builds in a heap block or a local character array is NUL-terminated on every path before its length is taken, it is compared, searched, copied, printed with %s, scanned up to its end, stored as a text or returned as one. Nothing is read from behind the end of a text, and no leftover memory finds its way into the output.",
  over=["inputs"], forall="for every text built and every path from its first byte to its first use as a text",
  why="Fresh memory is often zero, so a missing terminator shows only when the block was used before and on the one path that skips it; there are more than 900 blocks and arrays.",
  files=ALL, mech=[("terminator stored after copying by length, or string-writing routine", "every malloc, realloc and character array of src/ and cli/, and every strlen, strdup, strcmp, %s, scanning loop or return of a text behind it")],
  technique="forward typestate analysis of every block and array (fresh, written, terminated) over LLVM IR, with summaries of which arguments, results and members are used as texts, confirmed on a path whose branch facts are consistent",
  note=SOUND + "Blocks kept in array elements or out-parameters before they are filled are not followed, and a terminator stored behind the start counts as lasting; such texts are not reported."),
]
PROPS += [
 dict(id="C17", title="Requests handed to plugins and AST filters are well-formed JSON",
  statement="Whatever the document, its links, code blocks, lists and the plugin's own id contain, the request that a plugin or an AST filter reads is one complete, well-formed JSON value, and every string in it decodes to exactly the text it stands for: quotes, backslashes and all control characters are escaped, commas and brackets match for every number of children including none.",
  over=["inputs"], forall="for every document tree, every byte value in every text, every plugin id and phase",
  why="Tests look for a few substrings in a request; a missing bracket for one node type, an empty container or one control character makes every filter written against the protocol fail.",
  files=["src/ast_json.c", "src/plugins_env.c", "src/plugins.c", "src/filters_ast.c"],
  mech=[("writers that append to one buffer; escaping of strings", "apex_cmark_to_pandoc_json, write_block, write_inline, apex_json_escape_local; apex_run_external_plugin_command, apex_json_escape")],
  technique="path-wise abstract interpretation of the writers with a JSON recogniser as abstract state, and constant propagation per byte value through the escaping routines, over LLVM IR",
  note="Static; nothing is executed. Complete over the writers' paths as far as their pieces are fixed texts, numbers, escaped texts or other writers' output; the shape of the tree (which Pandoc constructors, which fields) is not judged, nor requests put together by other means than appending or one format."),
 dict(id="C26", title="Formats are fixed in the program and fit their arguments",
  statement="No document, metadata, option, file name or plugin text ever acts as a format: text is formatted and scanned only with formats fixed in the program. Every conversion has an argument of its own kind and size, and a scanned word is never longer than the buffer that takes it. (Date patterns given to the date transform are excepted.)",
  over=["inputs"], forall="for every formatting and scanning call and every text that can reach it",
  why="A text used as a format behaves like itself until it contains a percent sign; a wrong conversion prints garbage only in a message nobody tests.",
  files=ALL, mech=[("format operands", "every call of the printf and scanf families, among them the number format of metadata transforms")],
  technique="interprocedural value tracing of format operands and type matching of conversions over LLVM IR",
  note=SOUND + "Signedness is not compared; formats that reach a call through memory other than local variables and tables are reported as not fixed."),
]
NA = [
 dict(id="C30", title="Plain CommonMark text converts exactly as CommonMark prescribes",
  statement="In the modes that are compatible with CommonMark or GFM, a document that uses none of the extensions produces the HTML that the CommonMark or GFM specification prescribes, whichever extensions are compiled in.",
  over=["inputs"], forall="for every document without extension syntax", why="The specification quantifies over all documents; a suite samples a few hundred.",
  files=ALL, mech=[("preprocessing passes leave foreign text alone", "apex_markdown_to_html")],
  reason="equality of output texts for all documents depends on what two dozen text passes and the external cmark-gfm parser do to arbitrary bytes; no static abstraction in reach relates input and output text that precisely (C14 covers which passes run at all)"),
 dict(id="C31", title="Conversion time grows in proportion to the document",
  statement="No document makes a conversion take more than time proportional to its length (times a small factor): there is no input on which a scanning pass is quadratic or worse.",
  over=["inputs"], forall="for every document of every length", why="Tests are short; quadratic behaviour shows only on long, adversarial documents.",
  files=ALL, mech=[("single forward scans", "every pass")],
  reason="the code rescans text with strstr/strlen inside loops in many places, so the bound does not hold syntactically, and amortised bounds depend on run-time positions that the progress analysis (C11: every loop ends) cannot count"),
 dict(id="C32", title="Generated HTML is well formed and no document text is lost",
  statement="For every document and option set the HTML has properly nested tags, and all text of the document that is not markup appears in it, however long a line, table, caption or index entry is.",
  over=["inputs", "configurations"], forall="for every document and option set", why="Only unusual combinations of nested markup or over-long elements break nesting or drop text.",
  files=ALL, mech=[("writers with fixed scratch buffers; tag rewriting on finished HTML", "src/html_renderer.c, src/extensions/*.c")],
  reason="nesting is established by string surgery on already rendered HTML whose structure no static argument in reach recovers; several writers drop text when a scratch buffer is full by design (listed in DESIGN.md)"),
 dict(id="C33", title="Markdown written from a document converts back to the same document",
  statement="Converting a document to one of the Markdown dialects and converting the result again yields the same document tree.",
  over=["inputs"], forall="for every document", why="Round trips over all constructs cannot be sampled exhaustively.",
  files=["src/ast_markdown.c"], mech=[("per-node writers", "src/ast_markdown.c")],
  reason="needs the semantics of the external parser on the text that is written; not decidable from the writers' source"),
]
