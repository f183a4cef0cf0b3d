#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
CORE = "crates/analyzer-core/src/"
HOST = "crates/analyzer-host/src/"
ABS = "crates/analyzer-abstractions/src/"
CLI = "crates/p4-analyzer/src/"

p("C01", "Incremental document edits give the same document as rebuilding from scratch",
  "After any sequence of full-text and ranged changes, a document's text is the text obtained by applying each change to a plain string, and its line index is the one a freshly created document with that text has. A position past the end of a line stands for the end of that line (before its line break) and a line past the last one stands for the end of the document.",
  ["histories", "inputs"], "every initial text (with any mix of 1-4 byte characters and line breaks, with and without a final line break, empty) and every sequence of changes whose range start does not lie after its end",
  "Tests apply one edit to four fixed texts with eleven fixed replacements; sequences of edits, ranges beyond line or file end, CRLF and multi-line unicode replacements are never reached.",
  [CORE + "lsp_file.rs", CORE + "lib.rs"], [("lazy splice of the line index", CORE + "lsp_file.rs LspFile::lazy_add"), ("full reparse", CORE + "lsp_file.rs LspFile::new/parse_string"), ("batch of changes", CORE + "lib.rs Analyzer::file_change_event")],
  ["document text", "line index"], [("ranges", "byte offset of the last byte of every line", CORE + "lsp_file.rs LspFile")])
p("C02", "Byte offsets and line/character positions convert consistently",
  "Converting a byte offset on a character boundary to a line/character position and back gives the same offset, an offset inside a character gives that character's position, conversion is monotone, out-of-range inputs are clamped, and ranges convert end by end. The number of characters reported for a line counts that line's characters including its line break, and is 0 for a line that does not exist.",
  ["inputs"], "every document text, every byte offset (also past the end), every position (also past line and document end); characters are Unicode scalar values, as the existing tests fix",
  "Tests probe a dozen offsets in two fixed texts.",
  [CORE + "lsp_file.rs"], [("binary search over line ends", CORE + "lsp_file.rs byte_to_lsp"), ("prefix scan of the line", CORE + "lsp_file.rs lsp_to_byte, line_char")], ["returned positions and offsets"])
p("C03", "A framed message is read back as the message that was written",
  "Writing any sequence of requests, responses and notifications to a stream and reading the stream back, through any chunking and with further header fields present, gives the same messages in the same order and then a clean end of stream. Every written frame announces the exact byte length of its JSON body, and the body carries protocol version 2.0.",
  ["inputs", "histories"], "every sequence of messages with integer or string ids, any method name and any JSON parameters, results and errors (all of Unicode), every split of the byte stream into reads, every extra header field and header order",
  "No test writes or reads a frame at all.",
  [HOST + "json_rpc.rs", HOST + "json_rpc/message.rs"], [("frame writer", HOST + "json_rpc.rs write_msg_text"), ("frame reader", HOST + "json_rpc.rs read_msg_text"), ("untagged decoding", HOST + "json_rpc/message.rs Message")], ["bytes written", "messages read"])
p("C04", "Malformed transport input is rejected without crashing or misreading",
  "Reading from any byte stream yields a message, a clean end of stream, or an error, and never panics, hangs or allocates memory out of proportion to the bytes actually received. A frame with a missing, unparsable or overlong length, a header line without the required line end or separator, or a body that is not valid UTF-8 or not a valid message is reported as an error, and complete frames before it are still delivered.",
  ["inputs", "fault_sequences"], "every byte stream: random bytes, and well-formed streams damaged at any point by truncation, deletion, duplication, bit flips or hostile header values",
  "No test reads from a stream.",
  [HOST + "json_rpc.rs"], [("header validation", HOST + "json_rpc.rs read_msg_text"), ("body decoding", HOST + "json_rpc.rs buffered_read")], ["result of each read"])
p("C05", "Every client request is answered exactly once, notifications never",
  "While the server runs, each request a client sends is answered by exactly one response carrying the same id (same value and same kind), in the order the requests were sent, with either a result or an error. No notification and no client response is ever answered.",
  ["histories", "inputs"], "every sequence of requests (known, unknown, with valid or invalid parameters), notifications and stray responses in every lifecycle state, with integer and string ids",
  "No test starts a server.",
  [HOST + "lib.rs", HOST + "fsm.rs", HOST + "lsp/dispatch.rs", HOST + "lsp/dispatch_target.rs"], [("message pump", HOST + "lib.rs run_protocol_machine"), ("default error responses", HOST + "lsp/dispatch.rs DefaultDispatch::dispatch"), ("typed handlers", HOST + "lsp/dispatch_target.rs RequestDispatchTarget")], ["messages on the outgoing channel"])
p("C06", "The server follows the LSP lifecycle",
  "Requests before initialisation, between the initialise reply and the initialised notification, and after shutdown are refused with the error code the protocol gives for that phase (-32002, -32002, -32600), and only the documented messages move the server on: a successful initialise request, the initialised notification, a shutdown request, and the exit notification, which stops the server from every phase. Initialisation in a workspace context fails, leaving the server uninitialised, unless the client can watch files. Once stopped (by exit, by its host, or because the transport closed) the server ends and sends nothing more.",
  ["histories", "configurations"], "every sequence of lifecycle and other messages, with and without workspace folders, watched-file capability and progress support",
  "No test starts a server.",
  [HOST + "fsm.rs", HOST + "lsp_impl/active_uninitialized.rs", HOST + "lsp_impl/initializing.rs", HOST + "lsp_impl/active_initialized.rs", HOST + "lsp_impl/shutting_down.rs", HOST + "lib.rs"], [("one dispatcher per state", HOST + "fsm.rs create_dispatchers"), ("transition targets", HOST + "lsp/fluent/state.rs")], ["responses", "whether the server has ended"], [("current_state", "lifecycle phase", HOST + "fsm.rs LspProtocolMachine")])
p("C07", "Server requests to the client have unique ids and get their own responses",
  "All requests the server sends to its client during a session carry pairwise different ids, and a client response completes exactly the server request with that id, whatever order responses arrive in. Responses with unknown or already answered ids, and error responses, are tolerated and the session continues.",
  ["histories", "schedules"], "every session that makes the server send requests (capability registration, progress, folder enumeration, file contents), every order and interleaving of the client's responses, including duplicate, unknown and error responses",
  "No test starts a server or sends a server request.",
  [HOST + "lsp/request.rs", HOST + "fs.rs", HOST + "lib.rs"], [("request id counter and awaiting table", HOST + "lsp/request.rs RequestManager"), ("file system over the client", HOST + "fs.rs LspEnumerableFileSystem")], ["requests on the outgoing channel", "contents later queried"], [("awaiting_requests", "id to waiting request", HOST + "lsp/request.rs")])
p("C08", "Language queries answer from the latest synchronised document text",
  "After any sequence of open, change, save (with text) and close notifications, a completion request for a document lists exactly the distinct identifiers of that document's current preprocessed text, each once and in order of first appearance; a document that was closed yields no names until it is opened again or its contents are loaded from disk. A change to a document the server does not know is ignored, and messages for one document never alter what is answered for another that does not include it.",
  ["histories"], "every sequence of document notifications over several documents (inside, across and outside the workspace folders, and with non-file URIs), with full and ranged changes, several per notification",
  "No test starts a server; documents are never synchronised through it.",
  [HOST + "lsp_impl/active_initialized.rs", HOST + "lsp/workspace.rs", CORE + "lib.rs"], [("synchronisation handlers", HOST + "lsp_impl/active_initialized.rs"), ("completion from preprocessed tokens", HOST + "lsp_impl/active_initialized.rs on_text_document_completion"), ("workspace lookup", HOST + "lsp/workspace.rs get_file")], ["completion responses"])
p("C09", "An open document is never overwritten from disk",
  "From the moment a document is opened until it is closed, no background load and no watched-file event changes what the server answers for it, however late the load completes and whether it succeeds or finds no file. For a document that is not open, a created or changed event makes the server answer from the contents then on disk, and a deleted event makes it forget them.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of document notifications and watched-file events with the start, success and failure of background loads, over several documents",
  "No test runs a background load; the interleavings need a file system whose completions are controlled.",
  [HOST + "lsp_impl/state.rs", HOST + "lsp_impl/active_initialized.rs", HOST + "lsp/workspace.rs"], [("open-in-IDE checks around the load", HOST + "lsp_impl/state.rs process_background_analyze_requests"), ("watched file handlers", HOST + "lsp_impl/active_initialized.rs created_file, deleted_file"), ("open flag", HOST + "lsp/workspace.rs File")], ["completion responses"], [("is_open_in_ide", "document under client control", HOST + "lsp/workspace.rs FileState")])
p("C10", "Initialised workspaces are watched and indexed completely",
  "After the initialised notification in a workspace context the server registers one watcher for P4 sources, then asks for the P4 files of each workspace folder once and loads every file reported, so that each is queryable without being opened. Progress, when the client supports it, is reported as one begin, one report per folder and one end for the announced token, and without a workspace context nothing is registered, enumerated or reported.",
  ["configurations", "schedules", "fault_sequences"], "every set of workspace folders and files (missing and unreadable ones included), progress support on or off, and every completion order of enumerations and loads",
  "No test starts a server.",
  [HOST + "lsp_impl/initializing.rs", HOST + "lsp/workspace.rs", HOST + "lsp/progress.rs", HOST + "lsp_impl/state.rs"], [("registration and indexing", HOST + "lsp_impl/initializing.rs on_client_initialized"), ("index", HOST + "lsp/workspace.rs WorkspaceManager::index, Workspace::index"), ("progress", HOST + "lsp/progress.rs")], ["outgoing requests and notifications", "file system calls", "completion responses"])
p("C11", "Lexing covers the text exactly and classifies every token",
  "The tokens of a document have non-empty, adjacent, in-order spans that together cover the document from its first to its last byte. Text built from P4 keywords, identifiers, punctuation, integer literals, comments, blanks and preprocessor lines lexes to exactly those tokens with exactly those spans, each keyword only when it is the whole word, a line comment running to the end of its line or of the text.",
  ["inputs"], "every text for the covering part; every sequence of well-formed lexemes, separated where needed, for the classification part",
  "The lexer tests cover a handful of fixed snippets and cannot be built offline (they need salsa).",
  [CORE + "lexer.rs", CORE + "lib.rs"], [("token rules", CORE + "lexer.rs Token"), ("directive and comment callbacks", CORE + "lexer.rs Lexer"), ("error filtering", CORE + "lib.rs process_error_tokens")], ["tokens and spans"])
p("C12", "Integer literals are read with the width, sign, base and value written",
  "Every integer literal of the P4 grammar (optional width and signedness prefix, optional base prefix, digits with underscores) whose value fits the token's value range is read as a single token with exactly the width, signedness, base and value written. A digit sequence that is not a literal of the grammar, or does not fit, is reported as an error at its place and never crashes the analyzer.",
  ["inputs"], "every literal: widths of any size, both signs, four bases in both cases, underscores, leading zeros, values up to and beyond the value range, and malformed near-misses",
  "Tests try six fixed literals and cannot be built offline.",
  [CORE + "lexer.rs"], [("literal decoding", CORE + "lexer.rs read_int, parse_width, parse_base")], ["tokens", "diagnostics"])
p("C13", "Each lexical error is reported once, where it is",
  "Every maximal run of adjacent unrecognised text gives exactly one 'unexpected token' error that spans the run, and well-formed text gives none. Preprocessing errors are reported against the file and span of the offending directive, and diagnostics of one document never depend on unrelated documents.",
  ["inputs"], "every text mixing recognised and unrecognised pieces, error runs at the start, at the end, adjacent to any token, and of any length",
  "No test reads the reported errors' positions.",
  [CORE + "lib.rs", CORE + "lexer.rs", CORE + "preprocessor.rs"], [("run merging", CORE + "lib.rs process_error_tokens"), ("preprocessor errors", CORE + "preprocessor.rs error")], ["diagnostics (as a set)"])
p("C14", "Conditional sections select the same text as a C preprocessor",
  "For any nesting of if/elif/else/endif with define and undef, the preprocessed tokens are exactly those outside directives in selected sections, in order: the first section of each conditional whose condition holds, with conditions evaluated where they stand and directives in skipped sections having no effect. Ill-nested input (dangling or repeated else, dangling endif or elif, missing endif, unknown directive) is reported with one error per fault at the offending directive, and never crashes.",
  ["inputs", "programs"], "every directive structure: any nesting depth, any number of branches, definitions inside taken and skipped branches, well-formed and ill-formed",
  "Ten fixed snippets are tested (not buildable offline); nesting inside skipped branches, undef, and definitions under conditionals are not.",
  [CORE + "preprocessor.rs"], [("conditional stack", CORE + "preprocessor.rs preprocess"), ("skipping", CORE + "preprocessor.rs skip_conditional_directive")], ["preprocessed tokens", "diagnostics"], [("conditional_stack", "open conditionals", CORE + "preprocessor.rs PreprocessorState")])
p("C15", "Preprocessor conditions evaluate like C integer expressions",
  "A condition built from integer literals, macros defined as a literal, a name or a parenthesised expression, defined(...) tests, parentheses and the binary arithmetic, shift, relational, equality, bitwise and logical operators selects its section exactly when its value under C precedence, associativity and 64-bit signed semantics is non-zero. A condition that has no value (division by zero, undefined name, cyclic definition) selects nothing and never crashes the analyzer.",
  ["inputs", "programs"], "every expression over these operators, to any depth, with any spacing, minimal or redundant parentheses, and extreme operand values",
  "Three fixed expressions are tested (not buildable offline); relational and shift operators never are.",
  [CORE + "preprocessor.rs"], [("expression parser", CORE + "preprocessor.rs mod parser"), ("evaluation", CORE + "preprocessor.rs interpret_pp_expr")], ["which section is kept"])
p("C16", "Includes are spliced in place, once per use, with their origin",
  "An include directive is replaced by the preprocessed tokens of the named file, each token keeping its own file and span, in file order, with definitions flowing through in both directions; a file may be included any number of times as long as it does not include itself. A recursive include and a missing file are each reported at the directive and contribute nothing, and a missing file is requested from the host so that it can be supplied later.",
  ["programs", "histories"], "every set of files including one another in one directory (chains, diamonds, repeats, cycles, missing files), guarded and unguarded, and files supplied or removed later",
  "No test includes a file.",
  [CORE + "preprocessor.rs", CORE + "lib.rs", HOST + "lsp_impl/state.rs"], [("include handling", CORE + "preprocessor.rs preprocess"), ("dependency tracking", CORE + "lib.rs preprocess, Analyzer::preprocessed"), ("path resolution", HOST + "lsp_impl/state.rs AnalyzerWrapper::new")], ["preprocessed tokens with file and span", "diagnostics", "requested files"], [("state", "which files are being included", CORE + "preprocessor.rs PreprocessorState")])
p("C17", "Analysis depends only on the current files, not on how they came to be",
  "Tokens, preprocessed tokens, diagnostics, include dependencies and file list of an analyzer after any history of updates, edits, deletions and queries equal those of a fresh analyzer given just the current files. Repeating a query without a change in between gives the same answer.",
  ["histories"], "every interleaving of updates, ranged edits, deletions and queries over several mutually including files",
  "No test asks an analyzer twice or compares two analyzers.",
  [CORE + "lib.rs"], [("memoised queries", CORE + "lib.rs lex, preprocess"), ("file table", CORE + "lib.rs Analyzer")], ["all query results"])
p("C18", "No file content crashes the analyzer",
  "Lexing, preprocessing and computing diagnostics terminate normally for every file content and every set of included files. Every reported location lies within the file it names, on character boundaries.",
  ["inputs"], "every UTF-8 text, in particular directive-heavy, truncated, escaped, deeply nested and random text, over sets of files that include one another",
  "Tests use a few well-formed snippets.",
  [CORE + "lexer.rs", CORE + "preprocessor.rs", CORE + "lib.rs"], [("directive parsing", CORE + "lexer.rs read_directive, parse_define, parse_include"), ("preprocessing", CORE + "preprocessor.rs")], ["termination", "token and diagnostic spans"])
p("C19", "No client message crashes the server",
  "Whatever well-framed message a client sends in whatever phase (unknown methods, missing, extra or ill-typed parameters, positions and URIs of any kind, documents with any text), the server keeps running and still answers the next request correctly.",
  ["inputs", "histories"], "every message sequence without exit and without inverted ranges: random JSON parameters, mutated valid parameters, any URI scheme, extreme positions, any document text",
  "No test starts a server.",
  [HOST + "lib.rs", HOST + "lsp/dispatch_target.rs", HOST + "lsp_impl/active_initialized.rs", HOST + "lsp/workspace.rs", HOST + "lsp_impl/state.rs"], [("parameter decoding", HOST + "lsp/dispatch_target.rs from_json"), ("protocol errors are logged", HOST + "lib.rs run_protocol_machine"), ("handlers", HOST + "lsp_impl/active_initialized.rs")], ["the server task is still alive", "reply to a probe request"])
p("C20", "Every background task runs to completion exactly once",
  "A task given to the background pool is driven until it finishes, whatever order and number of times it suspends and is woken, from inside or outside the pool, and other tasks cannot starve or cancel it; each task's effects happen exactly once. Stopping the pool ends its runner, cancellation ends it with the cancelled result, and a task woken after the stop does no harm.",
  ["schedules", "histories"], "every set of tasks that yield, wait for each other, spawn further tasks and are woken (also repeatedly, also during their own poll), and every point of stopping or cancelling",
  "The pool has no test.",
  [ABS + "futures_extensions/async_extensions.rs"], [("work queue re-entered on wake", ABS + "futures_extensions/async_extensions.rs AsyncWork, AsyncPool")], ["completion log of the tasks", "result of the runner"], [("WORK_CHANNEL", "queue of runnable tasks", ABS + "futures_extensions/async_extensions.rs")])
p("C21", "A completion source is set once and every waiter gets the value",
  "Of all attempts to complete a completion source, by value or error, from any threads, exactly one succeeds, every other one is refused, and from then on every past and future waiter and every state query yields the winning outcome. No waiter that started before, during or after completion waits forever, and none sees a value before a completion began.",
  ["schedules", "histories"], "every interleaving of several threads completing, waiting (possibly giving up and waiting again), polling and cloning one source",
  "The eight tests are sequential or rely on one real schedule; the windows between check and act are never hit.",
  [ABS + "futures_extensions.rs"], [("completed flag, value lock, event", ABS + "futures_extensions.rs set_inner_value, future, state")], ["results of all calls", "whether all waiters return"], [("completed/value", "outcome, once set", ABS + "futures_extensions.rs State")])
p("C22", "Parsing agrees with the grammar's recursive-descent meaning",
  "For every well-formed grammar and input, the parser returns a tree exactly when the start rule matches the whole input under ordered-choice semantics (first matching alternative, greedy repetition, negative lookahead without consumption), and the tree is that match. A grammar without a start rule or with a reference to an undefined rule is rejected, and every other one is accepted.",
  ["programs", "inputs"], "every grammar without left recursion and without repetition of an empty match, over small alphabets, and every input",
  "Three fixed grammars with fixed inputs are tested; negative lookahead never is.",
  [CORE + "parser.rs"], [("memoised evaluation", CORE + "parser.rs Matcher"), ("grammar validation", CORE + "parser.rs Parser::from_rules")], ["returned tree", "construction result"])
p("C23", "Reparsing after edits equals parsing the edited text afresh",
  "After any sequence of edits and parses, in any order, the result of the next parse is the result a fresh parser for the same grammar gives for the current tokens.",
  ["histories", "programs"], "every well-formed grammar (lookahead included), initial input, and sequence of edits (insertions, deletions, replacements anywhere) with parses in between or not",
  "One grammar with seven fixed edits is tested, always with a full parse in between.",
  [CORE + "parser.rs"], [("memo table invalidation by examined length", CORE + "parser.rs apply_edit")], ["returned tree"], [("memo_table", "memoised matches per position and how far each looked", CORE + "parser.rs Parser")])
p("C24", "Trace output obeys the trace level the client set",
  "With the trace level off the server sends no trace notification; at level messages each logged event is sent once with its message and no detail; at level verbose it is sent once with the message and all its other fields. The level can be set at initialisation and changed at any time, and takes effect for the next event.",
  ["histories", "configurations"], "every sequence of level changes and logged events with any messages and fields, through the layer and through a running server",
  "No test uses the tracing layer.",
  [HOST + "tracing.rs", HOST + "lsp_impl/active_initialized.rs", HOST + "lsp_impl/active_uninitialized.rs"], [("level check and visitor", HOST + "tracing.rs LspTracingLayer")], ["outgoing log-trace notifications"])
p("C25", "The native file system lists exactly the P4 files and reads them exactly",
  "Enumerating a folder yields the file URL of every P4 file in it and below it, each once and nothing else, whatever the folder and file names contain. Reading a file's URL yields its exact text, reading anything unreadable or a URL that is no local path yields nothing, and neither operation ever crashes or writes to the standard output, which carries the protocol.",
  ["inputs", "configurations"], "every directory tree (hidden, spaced, non-ASCII, glob-special and percent-bearing names, files ending in .p4 and not, directories named like files), every content and every URL",
  "Three trees with plain names are tested, and those tests cannot be built offline.",
  [CLI + "native_fs.rs"], [("glob over the folder", CLI + "native_fs.rs enumerate_folder"), ("read", CLI + "native_fs.rs file_contents")], ["returned URLs and contents"])
p("C26", "The Node stdio adapter forwards each framed message once, in order",
  "However the incoming byte stream is cut into chunks, the adapter hands the body of every complete frame to the server exactly once, unchanged and in order, and nothing else. Every server response is written to the output as one frame whose announced length is the byte length of its body.",
  ["inputs", "schedules"], "every sequence of message bodies (any size, any Unicode), every extra header, every chunking (also one byte at a time, several messages per chunk, pooled buffers)",
  "The adapter has no test.",
  ["packages/p4-analyzer/src/server/index.ts"], [("running buffer", "packages/p4-analyzer/src/server/index.ts onReceiveRequestBuffer"), ("response framing", "packages/p4-analyzer/src/server/index.ts onResponseBuffer")], ["buffers passed to the server", "bytes written to stdout"])
p("C27", "The buffered driver carries every message once and in order",
  "Messages queued for the server are delivered to it exactly once, in order, and never more of them than have been released for reading; messages from the server appear in the output exactly once, in order, framed. Clearing a buffer discards exactly what it holds. The end of the input reaches the server, and the driver ends when it is cancelled or the server closes its end, once all that the server has sent is written.",
  ["histories", "schedules"], "every sequence of queueing, releasing, sending, collecting and clearing operations with the driver's threads running",
  "The unit tests around the driver cannot be built offline and use one fixed exchange.",
  [CLI + "driver.rs", CLI + "driver/buffer_driver.rs"], [("reader and writer threads", CLI + "driver.rs Driver::start"), ("release counter and queues", CLI + "driver/buffer_driver.rs BufferStruct")], ["messages on both ends"])
p("C28", "The program serves a session over its standard streams and ends by itself",
  "Run as a process, p4analyzer serves a session over its standard streams: whatever the chunking of its input, the client gets, as frames on standard output and nothing else, exactly the messages the session calls for, with answers drawn from the files on disk and the documents sent. It ends by itself, with everything it owes written, after the exit notification, at the end of its input, and on an interrupt (Ctrl-C), also before initialisation or with a request in progress.",
  ["histories", "schedules", "configurations", "fault_sequences"], "every session (workspace folders and files, documents, watched-file events, trace level), every chunking of the input, and every way and moment of ending it: exit, shutdown and exit, end of input, input broken off in a message, one or two interrupts",
  "No test runs the program, and its parts are only wired together (threads, signal handler, logging, native file system) in the running process.",
  [CLI + "main.rs", CLI + "driver.rs", CLI + "commands/lsp_server.rs", CLI + "native_fs.rs"],
  [("interrupt handling and end of the command", CLI + "main.rs RunnableCommand::run"), ("wiring of driver, host and file system", CLI + "commands/lsp_server.rs LspServerCommand::run"), ("reader and writer threads", CLI + "driver.rs Driver::start")],
  ["bytes on standard output", "end of the process"])
p("C29", "Command line options are obeyed, and the log holds what was asked for",
  "The version option prints the version and starts nothing; a wrong command line is reported and starts nothing. With a log directory given, the program appends to p4analyzer.log in it exactly the events up to the given level (debug if none or an unknown one is given); without one, or with one that is no directory, no file is written. The order of the options does not matter, and none of them changes what the client is served.",
  ["inputs", "configurations"], "every combination and order of valid and invalid options, log paths (absolute, relative, missing, a file, with an earlier log), levels by name and number in any case, and sessions",
  "No test parses a command line or reads a log.",
  [CLI + "main.rs", CLI + "cli/flags.rs"], [("version and errors", CLI + "main.rs main"), ("log file layer", CLI + "main.rs create_default_logging_layer"), ("options", CLI + "cli/flags.rs P4Analyzer")], ["standard output", "exit status", "files in the log directory"])
p("C30", "The WebAssembly server passes each message on once, in order, and stops",
  "In the WebAssembly server (LspServer), every buffer given to sendRequest that holds exactly one JSON-RPC message in UTF-8 JSON reaches the server once, and buffers sent after one another reach it in that order; anything else is refused with an error and changes nothing. Every message of the server is handed to the response callback once, in the order of sending, as UTF-8 JSON with version 2.0: the client is served as by the analyzer host itself. After stop() or an exit notification start() settles, whatever is in progress, and from then on sendRequest is refused.",
  ["histories", "schedules", "configurations"], "every session through the WebAssembly interface: messages and malformed buffers, trace levels, moments of sending and of answering the server's requests, stop or exit at any moment",
  "The WebAssembly crate has no tests, and the moments at which its interface is called are the JavaScript host's choice.",
  ["crates/p4-analyzer-wasm/src/lib.rs", "crates/p4-analyzer-wasm/src/buffer.rs"],
  [("message intake", "crates/p4-analyzer-wasm/src/lib.rs LspServer::send_request"), ("responses", "crates/p4-analyzer-wasm/src/lib.rs LspServer::on_receive"), ("start and stop", "crates/p4-analyzer-wasm/src/lib.rs LspServer::start, LspServer::stop"), ("buffers", "crates/p4-analyzer-wasm/src/buffer.rs")],
  ["response callback", "results of sendRequest", "settling of start()"])
p("C31", "An LSIF dump lists every P4 file of its folders exactly once",
  "lsif-p4 writes one file, <output>/<filename>.lsif (by default ./P4Analysis.lsif), and changes nothing else. Each of its lines is an LSIF element in JSON with an id of its own; it has exactly one document (language P4) for each P4 file below the workspace folder (by default the current one) and the header folder, also if these overlap, and none for what does not exist or lies elsewhere. If a folder is missing or the file can't be written, the program fails and writes nothing. The version option and a wrong command line write nothing.",
  ["inputs", "configurations", "schedules"], "all folder trees, names and contents of files, relations and spellings of the two folders, orders of the options, existing dumps, and missing folders",
  "No test runs lsif-p4; the dump depends on how the server, the driver threads and the generator interleave.",
  ["crates/lsif-p4/src/lsif_generator.rs", "crates/lsif-p4/src/lsif_writer.rs", "crates/lsif-p4/src/flags.rs", "crates/lsif-p4/src/main.rs"],
  [("listing", "crates/lsif-p4/src/lsif_generator.rs LsifGenerator::setup_workspace"), ("elements and file", "crates/lsif-p4/src/lsif_writer.rs LsifWriter")],
  ["the .lsif file", "exit status", "files below the scratch folder"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
