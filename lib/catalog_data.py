FX = "whole-program call-graph effect analysis with assumption-guided path pruning"
TS = "path-sensitive typestate/dataflow over the SSA form"

P("C01", "A failed install is reported in the exit status",
  "If any file, directory, symlink, permission change or install script of an installation cannot be carried out, `muon install` exits with a failure. It never reports success for an installation that is incomplete.",
  ["fault_sequences", "inputs"], "every installed item, and every system call of the install that can fail (disk full, permission, missing build product)",
  "the tests install small trees onto a working file system; they cannot make each of the hundreds of intermediate operations fail",
  ["src/cmd_install.c", "src/platform/posix/filesystem.c", "src/platform/filesystem.c"],
  [("install loop and script loop", "src/cmd_install.c"), ("file system primitives", "src/platform/posix/filesystem.c")], ERR,
  "Every error report and fallible call reachable from the install command, and every caller up to main, is an obligation; 'fallible' is inferred, so partial writes that the C library does not report are outside it.")

P("C02", "A dry-run install changes nothing",
  "With -n, `muon install` creates, changes and removes no file, directory or symlink, and starts no program except an install script explicitly marked to run in dry-run mode.",
  ["inputs", "configurations"], "every install target kind, option and path",
  "a test can look at one tree after one dry run; the guarantee is about every operation the installer can reach",
  ["src/cmd_install.c"], [("dry-run test in front of each operation", "src/cmd_install.c")], FX,
  "System calls that mutate, spawn or use the network must be unreachable from the installer under the assumption that dry-run is set.")

P("C03", "Read-only commands do not modify anything",
  "The commands that only inspect (syntax check, analysis, summary, option listing, version, wrap checking, function listing) never write to the file system, start a program or use the network. Formatting a file without the in-place option likewise only writes to its output stream.",
  ["inputs", "programs"], "every input project and command line of the inspecting commands",
  "tests observe the output of these commands on samples; absence of side effects concerns all inputs and all call paths",
  ["src/main.c", "src/lang/analyze.c", "src/options.c", "src/lang/fmt.c", "src/cmd_subprojects.c"],
  [("command functions", "src/main.c"), ("analyzer", "src/lang/analyze.c")], FX,
  "Effects are the modelled system and library calls; diagnostics on stdout/stderr are not effects.")

P("C04", "The analyzer performs no effects of the analysed script",
  "Static analysis of a build description evaluates only functions declared free of side effects; any other function is type checked and then skipped, so analysing an untrusted project cannot run programs, write files or download anything.",
  ["programs"], "every script handed to the analyzer, every built-in function",
  "a test analyses a few scripts; the property is over the whole table of built-in functions and everything each can reach",
  ["src/lang/analyze.c", "src/lang/func_lookup.c", "src/functions/"],
  [("purity flag of each table row", "src/functions/"), ("analysis-mode stop in argument interpretation", "src/lang/interpreter.c")], FX,
  "Each purity-flagged row must not reach a mutating call; every other row must not perform one before its arguments were interpreted.")

P("C05", "Unsafe built-ins are refused in restricted evaluation",
  "When script evaluation runs with unsafe functions disabled, no built-in that can change the file system, start a program or use the network is callable.",
  ["programs"], "every script evaluated in restricted mode, every built-in function of the script language it can name",
  "a test can try a few functions; new or changed built-ins silently escape it",
  ["src/lang/func_lookup.c", "src/functions/kernel.c", "src/functions/modules/fs.c"],
  [("unsafe flag of each table row", "src/functions/"), ("refusal before the call", "src/lang/func_lookup.c")], FX,
  "Every internal-mode table row that may reach a mutating call must carry the unsafe flag and the dispatcher must refuse flagged rows.")

P("C06", "An error in a build script is never swallowed",
  "Whenever parsing or evaluating a build description (including option files, machine files and wrap files) reports an error, evaluation stops and the command fails; no error message is printed and then ignored.",
  ["programs", "inputs"], "every build description and every operation it can perform",
  "tests cover a few dozen error scenarios out of about a thousand error sites; the guarantee is that each of them reaches the exit status",
  ["src/lang/interpreter.c", "src/lang/parser.c", "src/functions/", "src/options.c", "src/wrap.c", "src/formats/ini.c"],
  [("boolean failure protocol of evaluation functions", "src/lang/interpreter.c")], ERR,
  "Each error report and fallible call in the language, functions, options, wrap and format code is an obligation; deliberate recoveries are listed with their reason and count in rules/r_errprop.py.")

P("C07", "Setup fails when a build file cannot be written",
  "Configuring a project succeeds only if every file the build needs (the build description and the private state used by the later commands) was completely opened, written and closed without an error being reported. The compilation database alone is best effort.",
  ["fault_sequences", "inputs"], "every output file and every failing file operation during setup",
  "tests run with a writable disk; they cannot make each write fail",
  ["src/backend/output.c", "src/backend/ninja.c", "src/backend/ninja/", "src/backend/backend.c"],
  [("generic output file helper", "src/backend/output.c"), ("per-target writers", "src/backend/ninja/")], ERR,
  "Same failure-propagation rule over everything the output stage reaches and its callers up to main.")

P("C08", "The evaluation context is restored on every exit",
  "Entering a subproject, a subdirectory, another source file or a new scope changes where names, files and messages are resolved; on leaving, whether normally or after an error, the previous context is back. Errors therefore never make later evaluation resolve paths or variables in the wrong place.",
  ["programs", "histories"], "every nesting of subprojects, subdirectories and functions, and every error inside them",
  "tests enter contexts in the successful case; error exits inside nested contexts are rarely exercised",
  ["src/lang/eval.c", "src/lang/interpreter.c", "src/functions/kernel/subproject.c", "src/functions/kernel.c"],
  [("saved and restored fields", "src/lang/eval.c"), ("scope stack push and pop", "src/lang/interpreter.c")], TS,
  "Save/restore and push/pop pairs are checked on all paths, error paths included.")

P("C09", "Script values are only accessed as the type they have",
  "A built-in function or operator never interprets a script value as a type it was not checked to have: a value of the wrong type is reported as a type error and cannot lead to reading unrelated memory.",
  ["programs"], "every script, value and argument position",
  "type confusion needs a specific wrong value in a specific position; tests give well typed input",
  ["src/lang/object.c", "src/lang/interpreter.c", "src/functions/"],
  [("argument type tags", "src/functions/"), ("typed accessors", "src/lang/object.c")], TS,
  "Accessor calls must be dominated by a tag check of the same value, or take a value whose declared argument type is that tag.")

P("C10", "Arithmetic and indexing on script values cannot crash",
  "Division, remainder and indexing with numbers from a script either give a result or report an error, for every number: no division trap and no access outside the container.",
  ["inputs", "programs"], "all 64-bit numbers from scripts used as divisor, index or count",
  "the failing values (zero, the smallest integer, an index past the end after adjustment) are single points in a 2^64 space",
  ["src/lang/interpreter.c", "src/functions/string.c", "src/functions/array.c", "src/functions/number.c"],
  [("guards in front of division and indexing", "src/lang/interpreter.c")], TS,
  "Guards are decided on the control-flow graph; overflow of + - * wraps and is not part of the property.")

P("C11", "Corrupt saved state is rejected, not interpreted",
  "Loading the private build state or another serialized object from a truncated or corrupted file fails with an error: no length, offset or string reference read from the file is used before it was checked against the size of what was loaded.",
  ["inputs", "crash_points"], "every byte sequence found in a state file, e.g. after an interrupted setup",
  "a test can corrupt a file in a few ways; every offset and length field matters for every value",
  ["src/lang/serial.c"], [("loader of header, tables and strings", "src/lang/serial.c")], TS,
  "Covers header, lengths, offsets, string references and the root object. References between objects inside the arena are outside the claim.")

P("C12", "Names in the generated build file are escaped",
  "Every path, name, argument and command from the project that is written to the generated build description is escaped for the place it appears in, so that special characters (space, colon, dollar, quotes) cannot change the meaning of the file.",
  ["inputs"], "all file names, target names, option values and arguments",
  "tests use plain names; special characters in each of dozens of output positions are not sampled",
  ["src/backend/ninja.c", "src/backend/ninja/", "src/backend/common_args.c", "src/args.c"],
  [("escape functions", "src/args.c"), ("emission sites", "src/backend/ninja/")], "taint analysis: every string printed into the build file is traced to an escaping function, a constant or a number",
  "Sites whose text is already escaped elsewhere or chosen by muon itself are listed with their reason in rules/r_escape.py.")

P("C13", "A failed build step fails the build",
  "If a build command fails, or cannot be started, the build ends with a failure exit status, the step's outputs are not recorded as up to date, and no step that depends on it is started.",
  ["schedules", "fault_sequences"], "every dependency graph, job limit and order in which jobs finish",
  "tests run small graphs whose steps succeed; the interleavings of failing and finishing jobs are not sampled",
  ["src/external/samurai/build.c", "src/external/samurai/samu.c"],
  [("job completion", "src/external/samurai/build.c")], ERR + "; typestate of job completion",
  "Failure propagation over the build executor plus rules that log records and readiness updates happen only for jobs that did not fail.")

P("C14", "Build steps run only after all their inputs are ready",
  "A build step is started only when every step producing one of its inputs (explicit, implicit or order-only) has completed, and a step whose command changed is always re-run.",
  ["schedules", "histories"], "every dependency graph and schedule of concurrent jobs",
  "ordering violations appear only in particular graphs and timings",
  ["src/external/samurai/build.c", "src/external/samurai/graph.c"],
  [("blocking counter", "src/external/samurai/build.c"), ("dirty decision and command hash", "src/external/samurai/build.c")], TS,
  "Queueing must be guarded by the blocking counter; the command hash must be computed before the dirtiness decision and be part of it.")

P("C15", "A download is used only after its checksum matched",
  "An archive named by a wrap file with a recorded hash is extracted, and any file from it used, only after the data was verified against that hash; a mismatch fails the operation.",
  ["inputs", "fault_sequences"], "every wrap file and every content of the downloaded or cached archive, including cached copies from earlier runs",
  "tests have no network and use at most one well-formed archive",
  ["src/wrap.c", "src/external/libarchive.c"], [("fetch, verify, extract order", "src/wrap.c")], TS,
  "Extraction and acceptance of wrap data must be preceded on every path by a successful checksum comparison of the same data.")

P("C16", "Disabling downloads really disables the network",
  "With wrap downloads disabled, configuring a project performs no network transfer and starts no version-control download, whatever wraps the project contains.",
  ["configurations", "programs"], "every project and wrap file configured with downloads disabled",
  "tests run without wraps that need the network, so reaching it would go unnoticed",
  ["src/wrap.c", "src/functions/kernel/subproject.c", "src/external/libcurl.c"], [("download guard", "src/wrap.c")], FX,
  "Network calls and version-control commands must be unreachable when the download flag is assumed off.")

P("C17", "A failed test makes the test command fail",
  "If any selected test fails (bad exit status, failed TAP point, TAP program with a failing exit status, crash, timeout or failure to start) and is not marked as expected to fail, `muon test` exits with a failure.",
  ["schedules", "inputs"], "every number, order, result and timing of concurrently running tests",
  "the tests of muon run passing tests; the combinations of result kinds with protocols are not sampled",
  ["src/cmd_test.c", "src/formats/tap.c"], [("result collection", "src/cmd_test.c"), ("TAP verdict", "src/formats/tap.c")], ERR + "; result classification over assumed outcomes",
  "Classification is decided for every protocol under assumed exit states; whether a should-fail test that passes counts as failure is left open.")

P("C18", "Saved state contains every kind of value that can be created",
  "Every type of script value is handled consistently by saving, cloning and loading, so that a value never changes or disappears between configuring a project and building, testing or installing it.",
  ["inputs", "histories"], "every value type and table row",
  "a missing case shows only for projects that store that type in the state",
  ["src/lang/object.c", "src/lang/serial.c"], [("type switches and size tables", "src/lang/object.c")], "exhaustiveness and table-consistency analysis of type switches and per-type tables",
  "Decides that each type is either copied field by field (references by cloning) or explicitly rejected, that loading reads section by section what saving wrote for every type and string form, that per-type sizes agree, and that later commands take the elements from the positions they were put at. References between objects inside a file are assumed to survive because both sides use the same numbering.")

P("C19", "Invalid option values are rejected and precedence is kept",
  "An option value that does not match the declared type, choices or range is an error wherever it comes from, and a value from a less important source never overwrites one from a more important source.",
  ["inputs", "configurations"], "every option type, every value and every combination of sources",
  "the combinations of types, sources and orders are not enumerated by tests",
  ["src/options.c"], [("validation and precedence test in front of the store", "src/options.c")], TS,
  "For every pair of sources and every option type, path analysis decides that a value is stored exactly when its source is at least as important, after the type, choice and range tests, whose failure is returned; that each way of setting options uses its own source; that unknown options are errors; and the lookup order.")

P("C20", "Files and handles are closed on every path",
  "A file, directory or archive handle opened by an operation is closed exactly once on every path that leaves it, including error paths, unless it is handed to a longer-lived owner.",
  ["fault_sequences", "histories"], "every failure inside an operation that holds a handle",
  "leaks and double closes on error paths are invisible to functional tests",
  ["src/platform/", "src/external/", "src/cmd_install.c", "src/backend/", "src/functions/"], [("open/close pairs", "src/platform/filesystem.c"), ("pipes of commands", "src/platform/posix/run_cmd.c"), ("executor logs", "src/external/samurai/samu.c")], "ownership typestate of opened handles over all paths",
  "Files, directories, descriptors, archives and transfers opened anywhere; pipes of started commands; log files of the build executor. Paths that end the process are outside.")

P("C21", "A forked child never continues as a second copy",
  "After a fork the child process either executes the requested program or exits; it never returns into the code of the parent, and a child whose setup fails exits with a failure.",
  ["fault_sequences", "schedules"], "every failing system call between the fork and the program start",
  "needs a failing system call in the child, which tests do not inject",
  ["src/platform/posix/run_cmd.c"], [("child branch after the fork", "src/platform/posix/run_cmd.c")], TS,
  "All paths of the child branch end in exec, exit or abort; exits carry a non-zero status.")

P("C22", "No script or file text is used as a format string",
  "Text from scripts, files, options or the environment is never interpreted as an output format, and each formatted message receives the arguments its format requires.",
  ["inputs"], "every string with percent signs reaching a formatting function",
  "needs percent signs in the right input at each of over a thousand formatting calls",
  ["src/log.c", "src/lang/string.c", "src/error.c"], [("formatting functions", "src/lang/string.c")], "interprocedural format-string analysis with per-directive argument typing",
  "Format arguments must resolve to literals through wrappers; directives and argument types are compared, including the object directive.")

P("C23", "Function and keyword tables are well formed",
  "Every table of built-in functions, methods and keyword arguments is terminated, has no duplicate names and only complete rows, so that looking up any name from a script ends and is unambiguous.",
  ["programs"], "every name a script can look up in every table",
  "tests look up existing names; a lookup of a missing name past an unterminated table is not sampled",
  ["src/functions/", "src/lang/func_lookup.c"], [("table definitions", "src/functions/")], "structural analysis of constant tables and of the code that scans them",
  "Covers constant tables and tables built in functions; uniqueness is per table as scanned.")

P("C24", "Fixed-size buffers are never overrun",
  "Copying or building text of any length into fixed-size storage never writes or reads outside of it: longer input is rejected, truncated safely or moved to larger storage.",
  ["inputs"], "all lengths of paths, names, lines and tables",
  "overruns need inputs of one particular excessive length",
  ["src/platform/path.c", "src/lang/string.c", "src/formats/ini.c", "src/cmd_test.c"], [("buffer users", "src/")], "symbolic bounds analysis of array accesses and bounded copies",
  "Indexes into fixed-size arrays must be provably below the size by constants, masks or a dominating comparison.")

P("C25", "The formatter reports failure and never half-replaces a file",
  "Formatting reports failure in its exit status when the input does not parse, the configuration is invalid or the output cannot be written; when formatting a file in place fails, its original content is written back.",
  ["inputs", "fault_sequences"], "every input file, configuration and failing write",
  "tests format valid files on a working file system",
  ["src/lang/fmt.c", "src/main.c"], [("in-place write", "src/main.c"), ("format driver", "src/lang/fmt.c")], ERR + "; typestate of the in-place rewrite",
  "Failure propagation through the formatter plus the rule that every failing in-place path writes the original content back.")

N("C26", "Configuration writes only inside the build directory",
  "Configuring a project creates and changes files only inside the build directory, apart from fetched subprojects and operations the script requests explicitly.",
  ["programs"], "every project", "tests look at the build directory only",
  ["src/backend/output.c"], [("output paths", "src/backend/output.c")],
  "Whether a path lies inside the build directory depends on run-time strings (project-chosen names, '..' segments, symlinks); no sound static argument in reach bounds them.")

P("C27", "The build reconfigures when a build description changes",
  "Every build description, option file, wrap file and other source file that muon reads to configure the project, and every existing file named by a command it runs for run_command() or configure_file(), is recorded as an input of the build, so that changing it triggers a reconfiguration before the next build.",
  ["histories"], "every file that configuration reads", "tests configure once and do not edit each kind of input",
  ["src/lang/workspace.c", "src/lang/eval.c", "src/backend/ninja/rules.c", "src/functions/"], [("regeneration dependencies", "src/lang/workspace.c")], TS,
  "Reading functions of the evaluation must record the path on every successful path, the list must reach the build file, and the built-in builder must reload it first; files that programs read by themselves are outside the claim.")

P("C28", "Every installed path honours DESTDIR",
  "When a staging directory is set, every file, directory and symlink that installation creates is at its destination path appended to the staging directory; no operation uses the unprefixed destination, and install scripts are told the staging directory.",
  ["inputs", "configurations"], "every install target and destination",
  "tests that stage into a directory would not notice an additional write elsewhere",
  ["src/cmd_install.c"], [("destination computation", "src/cmd_install.c")], "taint analysis of destination paths",
  "Destinations of mutating calls in the installer must come from the prefixed path computation. A destination that itself climbs with '..' segments is outside the claim.")

P("C29", "Archive entries cannot escape the extraction directory",
  "Extracting an archive writes only below the chosen directory: absolute names, parent-directory segments and links leading outside are rejected, for every entry of every archive.",
  ["inputs"], "every entry name and link target in a (possibly hostile) archive",
  "tests extract benign archives only",
  ["src/external/libarchive.c"], [("entry path check", "src/external/libarchive.c")], TS,
  "The entry's path must be checked before the header is written, the writer must have the secure extraction flags, and hard-link targets must be checked.")

P("C30", "Failed downloads and wrap operations are reported",
  "When fetching, unpacking, patching or updating a wrapped subproject fails, that run of the operation fails with an error, and does not go on to treat the subproject as complete.",
  ["fault_sequences", "inputs"], "every failing step of wrap handling and every wrap file content",
  "tests have no network and do not inject failures into the steps",
  ["src/wrap.c", "src/external/libcurl.c", "src/external/libarchive.c", "src/cmd_subprojects.c"], [("wrap steps", "src/wrap.c")], ERR,
  "Failure propagation over wrap handling, archive extraction, transfers and the subprojects command.")

P("C31", "Corrupt build logs are harmless",
  "The bundled build executor reads its own logs of recorded commands and dependencies from the build directory. Whatever bytes a damaged or truncated log contains, reading it never accesses memory outside of the tables it fills: identifiers and lengths from the file are checked first, and a damaged log is at worst ignored.",
  ["inputs", "crash_points"], "every byte sequence found in a log file, e.g. after a build was killed while it appended a record",
  "tests start from an empty build directory or a log written completely by the same program",
  ["src/external/samurai/deps.c", "src/external/samurai/log.c"], [("record readers", "src/external/samurai/deps.c")], TS,
  "Every index, length and copy size that comes from the file must be bounds-checked before use; whether a plausible but wrong record causes a needless rebuild is outside the claim.")

P("C32", "A program that fails is never taken for one that succeeded",
  "Wherever muon runs another program whose success matters (install and post-configure scripts, version control, patching, code generators, compiler runs, the build tool), a program that exits with a failing status, is killed by a signal or cannot be collected is treated as failed, or its status is handed unchanged to the script that asked for it.",
  ["fault_sequences", "schedules"], "every program muon starts and every way it can end",
  "tests run programs that succeed; each caller would have to be tested with each way of failing",
  ["src/platform/posix/run_cmd.c", "src/backend/backend.c", "src/functions/kernel.c", "src/functions/compiler.c", "src/wrap.c", "src/main.c"],
  [("decoding of the wait status", "src/platform/posix/run_cmd.c"), ("status checks of the callers", "src/")], TS,
  "The wait status is decoded symbolically for each way of ending; every caller is decided under the assumption that its program failed. Callers that only identify a tool by its output are listed in rules/r_proc.py.")

P("C33", "Text outside ASCII is ordinary text",
  "Scripts, messages, file names and the paths in build and dependency files may contain bytes outside ASCII (UTF-8 or any other encoding). No such byte is mistaken for a control character or blank, treated as the end of the text, rejected or altered where arbitrary text is allowed, or used as an index before the start of a table.",
  ["inputs"], "every byte value in every text muon reads",
  "tests use ASCII with a rare accented letter; whether a byte is negative depends on its value and the platform",
  ["src/lang/string.c", "src/lang/lexer.c", "src/external/samurai/scan.c", "src/external/samurai/deps.c"],
  [("escaping of strings", "src/lang/string.c"), ("readers of build files and depfiles", "src/external/samurai/")], TS,
  "Covers comparisons with, and table lookups by, signed characters everywhere, end-of-file markers merged with characters, and the readers of script strings, build file text and depfiles; identifiers in scripts are ASCII by definition of the language.")

P("C34", "Parts an object lacks are not used",
  "An object of the build description may lack an optional part: a program that was not found has no command, a dependency may have no version, name or include directories, a target no environment, dependency file, associated pkg-config file or link dependencies, a generator no dependencies, a test no suites, an installed directory no exclusions, a module no exports. Wherever such a part is used as a value, it was tested before, or set before, or its presence follows from what was tested: a project that leaves the part out gets a result or an error, and never stops muon with an internal failure.",
  ["programs", "histories"], "every object of every kind, however it came to be (found or not, declared, looked up, generated), and every use of each of its parts",
  "tests use the parts of objects that have them; an object without the part reaches a given use only in particular projects",
  ["src/functions/", "src/backend/", "src/args.c", "src/install.c", "src/cmd_install.c"],
  [("objects and their parts", "src/functions/"), ("writers of the build description", "src/backend/ninja/")], TS,
  "Whole-program inference of which fields some creator leaves empty on a successful path, followed through fields, parameters and results to every function that needs a value. Values that are missing for other reasons (an optional argument that was not given) belong to C09; parts handed on through the option structures of target creation and through the cells of lists are not followed. The flags that stand for the presence of a part are found by looking at every place where they are set.")

P("C35", "Version requirements are enforced",
  "When a version requirement is given to dependency(), find_program() or subproject(), nothing known not to satisfy it is returned as found: not from the system, an override, the cache, a fallback, a wrap or an earlier call for the same name. A list of requirements is satisfied exactly by the versions that satisfy every element (an empty one by all), and each operator (>=, >, ==, =, !=, <=, <) accepts exactly the outcomes of the comparison it names. A dependency without a version satisfies no requirement.",
  ["inputs", "histories"], "every way a dependency, program or subproject can be found, in every order of lookups, with every requirement",
  "tests ask once, for one thing, with a requirement that is met; an override, a cached result or a fallback of the wrong version needs a particular project and history",
  ["src/functions/kernel/dependency.c", "src/functions/kernel.c", "src/functions/kernel/subproject.c", "src/functions/string.c"],
  [("lookups and their caches", "src/functions/kernel/"), ("comparison with a list of requirements", "src/functions/string.c")], TS,
  "Interprocedural: from the entry point, with a requirement assumed given, the set of (candidate obtained, compared, found) states of every path is computed across helpers, callbacks and loops. Things that carry no version to compare (a program object passed as argument, a program whose version cannot be guessed, the threads dependency, the built-in ninja) are outside the statement. How versions are ordered is C42.")

P("C45", "The build description carries what targets declare",
  "Writing the build description succeeds only if, for every target, what was declared is in it: sources and objects, inputs and outputs, the command with its environment and its capture, feed, depfile and console options, dependencies of every kind, libraries and link arguments, include directories and compiler arguments from the target, its project, global settings and options, and whether the target is built by default or always stale.",
  ["programs", "configurations"], "every target of every kind with any combination of declared properties",
  "the tests build a few projects, in which a dropped flag or dependency often goes unnoticed (the build still succeeds from scratch)",
  ["src/backend/ninja/", "src/backend/common_args.c"],
  [("target writers", "src/backend/ninja/"), ("compiler and linker arguments", "src/backend/common_args.c")], TS,
  "Flow of each declared field, on every success path of its writer, into the stream or the argument list written there; the order and formatting of what is written is not judged.")

P("C46", "A keyword argument that was given takes effect",
  "Every keyword that a built-in function accepts is taken notice of: when a script gives it, the function does not succeed without having looked at its value (apart from keywords accepted only for compatibility and those that only matter together with another one), the value reaches the part of the target, test, installation entry, option or request it is meant for and no other, and a boolean keyword has its effect when it is true, not when it is false, and by default exactly if it is documented as on.",
  ["programs"], "every built-in function with keyword arguments, every combination of keywords given",
  "the tests give few of the about 300 keywords in few combinations; a keyword that is silently dropped leaves a successful configuration behind",
  ["src/functions/"], [("keyword tables and their readers", "src/functions/")], TS,
  "That the value is read on every success path (or handed on whole), which struct members, parameters and callbacks it flows to, and what setting a boolean keyword changes; not what is done further on with the member it reached (C45, C08 and C17 follow some).")

N("C40", "The formatter is idempotent and preserves meaning",
  "Formatting a formatted file changes nothing, and formatting never changes what the script means.",
  ["inputs"], "all scripts and configurations", "tests format samples", ["src/lang/fmt.c"], [("fragment layout", "src/lang/fmt.c")],
  "Equality of outputs over all input texts is a functional relation between run-time strings; static dataflow cannot decide it.")

N("C41", "Paths are normalised and relative paths resolve back",
  "Normalising, joining and relativising paths gives the path that denotes the same file, for all inputs.",
  ["inputs"], "all path strings", "tests sample paths", ["src/platform/path.c"], [("path functions", "src/platform/path.c")],
  "Correctness of string transformations depends on run-time contents; only memory bounds of these functions are decided (C24).")

N("C42", "Checksums and version comparisons are computed correctly",
  "Hashes and version orderings equal their specification for all inputs.",
  ["inputs"], "all data and version strings", "tests sample vectors", ["src/sha_256.c", "src/rpmvercmp.c"], [("algorithms", "src/")],
  "Functional correctness of an algorithm against a mathematical specification needs proof or exhaustive evaluation, not static dataflow.")

N("C43", "Results agree with the reference implementation",
  "A project accepted by the reference build system is configured to an equivalent build.",
  ["programs"], "all projects", "tests compare samples", ["src/functions/"], [("built-in functions", "src/functions/")],
  "Equivalence with another program's behaviour on all inputs is outside static analysis of this source.")

N("C44", "Timeouts end a test at the configured time",
  "A test that exceeds its timeout is ended and reported within the configured time.",
  ["schedules"], "all timings", "tests cannot wait for all timings", ["src/cmd_test.c"], [("timeout comparison", "src/cmd_test.c")],
  "Depends on wall-clock time and the operating system's scheduling; the classification of a timed-out test is part of C17.")
