# id -> (oracle and workload, bounds and cost, why tests cannot)
D = {}
D["C01"] = ("Accept/reject of the parser against the model, on derivations, systematic texts, damaged texts and token soup; an accepted text must be accepted by both, a rejected one must carry an error and an empty configuration.",
 "quick: every n-th systematic text and 100 000s of random ones, 50 s; thorough: all systematic texts and millions. Nesting up to some hundred levels, numbers within float64.",
 "Language equality needs both directions over an infinite set; the tests' texts are nearly all valid.")
D["C02"] = ("The tree returned for each accepted text, node by node with all contents, against the model's tree (sections grouped per type).",
 "20 s; literals up to 100 kB.", "Combination of constructs, empty constructs, escapes, hostile contents.")
D["C03"] = ("As C02 with comments: every regular comment with text, order and element; comments carry unique numbers in part of the texts.",
 "18 s.", "places × neighbours × layouts.")
D["C04"] = ("Relation between two runs of the real parser (option on and off): verdict, error text, tree and positions equal, no comment anywhere.",
 "27 s.", "a relation over all texts, never tested.")
D["C05"] = ("Warnings against the model's list of exceptional stretches: number, order and position; with the option off none and the same tree; other options (comments ignored, invalid UTF-8 allowed, in any order) leave the warnings as they are.",
 "21 s.", "backtracking (state rollback) decides; only texts with alternatives abandoned behind a comment show it.")
D["C06"] = ("Positions of all nodes against the model, which counts lines and characters itself; multi-byte, tabs, CR, CRLF, comments.",
 "26 s.", "tests are ASCII and pretty printed.")
D["C07"] = ("Render, read the output with the model *and* the parser: same tree without positions (numbers as float64, literals byte-identical; empty else blocks may disappear).",
 "30 s.", "data loss appears only for special literals in deep places.")
D["C08"] = ("As C07 with comments: the formatted text contains the same regular comments at the same elements and no other `#` comment.",
 "25 s.", "places × neighbours.")
D["C09"] = ("format(format(x)) = format(x), byte for byte.", "27 s.", "golden files are checked on already formatted inputs only.")
D["C10"] = ("(a) Format equal for a text and white space variants of it made by the model's token list (line ends \\n, \\r\\n, \\r, tabs, joined or split lines); (b) a line scanner driven by the model's literals checks indentation, trailing blanks, one item per line, one line break at the end.",
 "23 s.", "relation between pairs and a rule for all lines.")
D["C11"] = ("No panic, no death, no hang for any bytes under random option combinations; what is returned is rendered and inspected. Work: steps (Statistics option) of 120 families of nesting/repetition at doubling sizes must grow linearly; at most 300 steps per byte. Memory: eight times the copies of a family may take 14 times the memory at most. Stack: 20000 levels of each nesting must survive in a child process; 100000 is the recorded finding.",
 "20–40 s; 400 copies (thorough 6400). Work is counted in steps, never in seconds, except the one minute of processor time that counts as a hang.", "exponential backtracking and stack depth need particular shapes and sizes.")
D["C12"] = ("For rejected texts: name, offset/line/column agreement (recomputed from the text), quoted excerpt, no duplicate failures, same result when parsed again (also with other texts between). An illegal character inserted between two tokens at a known place must be reported there or at the enclosing unclosed construct; first invalid byte exactly.",
 "39 s.", "about 25 messages are tested.")
D["C13"] = ("Parse, ParseReader (five kinds of chunking, data with EOF, early EOF, errors after n bytes), ParseFile (also absolute/odd names, missing, unreadable, directories, prefixes such as a BOM, pipes, whose size is not known beforehand, and texts of 64 KiB to 10 MB whose end decides): equal outcome; a read error is returned and no configuration.",
 "25 s.", "no reader in the tests misbehaves.")
D["C14"] = ("Each text without options and under a random combination of Memoize, Statistics, Recover(false), AllowInvalidUTF8, MaxExpressions above need (Debug, which prints the run, separately): equal tree, positions, verdict. Texts with invalid bytes against the model.",
 "31 s.", "no test sets options.")
D["C15"] = ("2–11 goroutines, released together, with random yields and micro-delays, on a pool of texts: parse (own text, shared text, options), render and inspect shared trees, edit own trees, escape/quote, read the failure report. Race detector plus comparison of each result with its sequential result; the report must belong to exactly one parse of the case. Every fourth case is a fresh process in which 2 to 8 goroutines make the very first calls of the package at the same time (parse, escape, build and render trees), so that lazily initialised state is seen being initialised (also through the String methods of small pieces of a tree, before anything else has run). All argument-less methods of the nodes of shared trees are called and their answers compared. Evidence counts overlapping pairs of operations, distinct completion orders and cold processes.",
 "90 s, 2 worker processes; executed schedules only.", "the suite is sequential.")
D["C16"] = ("Histories of 15–39 operations (parse the same or other texts from slices, readers and files, render, inspect, edit one tree, overwrite the input buffer, read the report): each answer (result, rendered text, what every argument-less method of every node gives) must equal that of a fresh process for the same text; digests of all unedited trees are checked again and again.",
 "25 s.", "each test is one parse in isolation.")
D["C17"] = ("Callback events (plugin, index, parent identity) against a list model; tree unchanged; small trees enumerated, random and parsed ones, blocks nested up to 300 deep.", "7 s.", "six fixed trees in the tests.")
D["C18"] = ("Edits at each visited plugin against a list model: Plugin/Index/Parent after every edit, the resulting tree at the end, lists outside the edit untouched.", "10 s; all sequences up to two edits (+delete) exhaustively, random beyond.", "combinations of edits.")
D["C19"] = ("Escape/Unescape against a table-driven model; inverse; exhaustive short words, random long ones.", "2 s.", "eleven strings are tested.")
D["C20"] = ("Quote/QuoteWithEscape: existence of a literal is decided by reading the value between the quotes with parser and model; the returned literal is read back by both.", "23 s; exhaustive up to 4 (6) characters.", "six values are tested.")
D["C21"] = ("ID of constructed and parsed plugins against the model's attributes; chains of wrapped errors (fmt %w, own types with Unwrap/Is) against IsNotFoundError.", "9 s.", "four plugins are tested.")
D["C22"] = ("`mustache check` on generated directories (valid, invalid, empty, missing, directories, links, unreadable, pipes, twice the same file, odd names): exit status, exact attribution of error lines to files (expected error text from the library in process, positions from the model), stdout empty, file system snapshot (contents, modes, owners, times of content) equal.", "16 s, 8000 runs.", "no tests of the program exist.")
D["C23"] = ("`mustache format` likewise (a file may be named `-`): stdout is the concatenation of the formatted texts up to the first failing file.", "20 s, 8000 runs.", "same.")
D["C24"] = ("`mustache format -w`: contents, mode, inode, links, names after the run; second run changes nothing.", "24 s, 10000 runs.", "same.")
D["C25"] = ("`mustache lint`: lines against the model's own list of missing and repeated ids and exceptional stretches (hundreds of each in some files).", "19 s, 8000 runs.", "same.")
D["C26"] = ("`mustache lint --auto-fix-id`: the file afterwards is read by the model: only appended ids, unique among all plugins (hundreds of plugins in some runs); comments and contents kept; second and third run change nothing.", "23 s.", "same.")
D["C27"] = ("Fault injection: missing, permission, unreadable special files, read-only targets, /dev/full, closed stdout, file size limit (RLIMIT_FSIZE) × command × position; exit status, errors, other files.", "22 s; 5 ways × 12 faults × 16 neighbourhoods × 3 exhaustively.", "no fault is injected in tests.")
D["C28"] = ("Trees from the constructors and edited parsed trees: rendering read back by model and parser equals the tree (nil entries skipped); rendering and reusing parts in other nodes changes nothing.", "50 s.", "forty small trees are compared with golden texts.")
D["C29"] = ("Each text with limits around, far below and far above its number of steps (0, n-1, n, n+1, 2^16..2^63, MaxUint64): stops with the right error iff steps > limit, otherwise the same outcome.", "31 s.", "no test sets a limit.")
D["C30"] = ("Each node of a parsed or constructed tree is rendered alone and put into a minimal frame (`filter { p { a => <value> } }`, `filter { if <condition> {} }`, ...); the model (every 16th time also the parser) reads the frame and must find exactly that node, with comments where the node renders them. Additionally composition laws: a condition is the concatenation of its expressions, a comment block that of its comments, quoted strings are the value between quotes.", "48 s; up to 400 nodes of a tree; millions of evaluations.", "whole configurations are rendered in tests, nodes hardly ever.")
D["C31"] = ("(a) The checkers of C22-C26 with flags in any place and spelling (`-w=T`, `--auto-fix-id=0`, repeated), files named like flags or commands, valid settings files and environment variables (names and words of the program's source, MUSTACHE_ prefixed) around, and broken ones in places where none is looked for; (b) mistakes (unknown commands and flags, among them beginnings and near misses of known ones, foreign flags, impossible values, broken settings), help and version: exit status, output, snapshot equal.", "14 s, 5000 runs.", "no tests of the program exist.")
D["C32"] = ("Pieces of valid texts, most cut at the start of a node, some damaged or truncated, are parsed with every entry point whose rule fits (and some that do not); the model is started at the same rule: same verdict, same tree with positions and comments. Rules a parser does not offer are skipped.", "11 s, half a million parses.", "no test uses the Entrypoint option.")
D["C33"] = ("The debug output of each parse is read by a push-down monitor: nesting and depth, places (line, column, offset and character agree with the text), quoted matches; entered expressions and decided choices (per rule and alternative) are counted against Stats; then the same parse without debug output: no output, same statistics and error. Half of the parses are memoized, most fail, every twelfth is stopped by a limit; one in a hundred has a literal, comment, name or gap of up to 16000 characters.", "30 s, 9500 parses, some 75 million trace lines.", "no test looks at either.")
D["C34"] = ("The list in each 'no match found' error is read (literals, character classes, EOF); the text up to the error is continued with every listed literal, with listed literals cut short, with nothing, and with a dozen other tokens, characters and words of the dictionary. The parser must get beyond the place (or accept) if and only if a listed item fits. Each failure listed in a failure report is judged too: one of a set of remedies (characters, tokens, comments, line ends, words) put at the reported place must get the parser beyond it. Systematic texts, damaged texts, valid texts with a character inserted between two parts, with and without comments.", "20 s, some 500000 continuations.", "the tests know a handful of messages; a list that forgets or invents an item, is cut or belongs to another place shows only for particular places.")
