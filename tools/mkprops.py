#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The list below is the source."""
import json, os

P = []
def prop(id, title, statement, over, quant, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"state": state} if state else {}),
                          "observe_at": observe}})

PARSER = ["logstash_config.peg", "logstash_config.go", "logstash_config_helper.go"]
AST = ["ast/ast.go", "ast/ast_helper.go"]
PARSE_API = ["config.Parse, config.ParseReader, config.ParseFile"]

prop("C01", "The parser accepts exactly the Logstash configuration language",
     "For every text, parsing succeeds if and only if the text is valid UTF-8 and derivable from the Logstash configuration grammar the project ships (sections, plugins, attributes of every value kind, if / else if / else branches, conditions with all operators, comments and white space everywhere the grammar allows them); values of plugin kind inside arrays and hashes are rejected. A rejected text yields an error.",
     ["inputs"], "every byte string: derivations of the grammar with arbitrary layout, comments and token contents, damaged derivations, token soup; nesting up to some hundred levels, numbers within the float64 range",
     "The language is infinite; the tests parse a few dozen hand written texts, nearly all of them valid, and check about 25 syntax errors.",
     PARSER + ["grammar.treetop"], [("PEG rules", "logstash_config.peg"), ("generated recogniser", "logstash_config.go"), ("fatalError on unclosed constructs", "parse_error_helper.go")], PARSE_API)
prop("C02", "The parsed tree contains exactly what the text says",
     "For every valid text the returned tree has the same sections, plugins, branches, blocks, conditions, operators, attributes, array elements and hash entries in the same order and nesting as the text, with names, string contents and quoting kind, number values (as float64), regular expressions and field references exactly as written, and nothing added or lost. Operators, boolean connectives and their grouping are kept as written.",
     ["inputs"], "every valid text; sections are compared per type in document order",
     "Tests compare trees for single constructs with plain contents; combinations, empty and nested constructs, escapes, and unusual characters are not reached.",
     PARSER + ["ast/ast.go"], [("semantic actions", "logstash_config_helper.go")], PARSE_API + ["exported fields and accessors of package ast"])
prop("C03", "Regular comments stay attached to the element they belong to",
     "Every comment in a place where the formatter keeps comments (before a section, plugin, branch, else-if or else block, attribute, array element or hash entry, before a closing brace or bracket, and at the end of a configuration with at least one section) is found in the returned tree exactly once, with its text, in order, at exactly that element as a leading or trailing comment, and comments of one element never appear at another.",
     ["inputs"], "every valid text with any number of comments in any regular place, including comments with quotes, braces and hashes in them, CRLF line ends and comments at end of file",
     "Comment tests use a handful of fixed layouts; the number of places times neighbouring elements is unbounded and several comment handling defects were found here.",
     PARSER + ["ast/ast.go"], [("commentBlock and comment actions", "logstash_config_helper.go"), ("rule _ and comment", "logstash_config.peg")], ["Comment, CommentBlock and FooterComment fields of the tree"])
prop("C04", "Ignoring comments changes nothing except the comments",
     "Parsing with comments ignored accepts the same texts, reports the same errors and produces the same tree with the same positions as parsing normally, except that the tree carries no comments at all.",
     ["inputs", "configurations"], "every text, valid or not, with the option on and off",
     "The option is exercised on one text; equality over all texts is a relation between two runs no test checks.",
     ["logstash_config_options.go", "logstash_config_helper.go"], [("comment action", "logstash_config_helper.go"), ("IgnoreComments option", "logstash_config_options.go")], PARSE_API)
prop("C05", "One warning per comment in an exceptional place, none otherwise",
     "With warnings for exceptional comments enabled, a successful parse lists, in text order, exactly one warning for each stretch between two tokens that holds a comment in a place where the formatter does not keep comments, each naming the position of that stretch, and none for comments in regular places. With the option disabled there are no warnings, and the option has no other effect.",
     ["inputs", "configurations"], "every valid text with comments in any places, with and without the option, parser memoization off",
     "Backtracking decides whether a warning is recorded twice, dropped or kept for an abandoned alternative; tests look at a few places only.",
     PARSER + ["logstash_config_options.go"], [("rule __ with state rollback", "logstash_config.peg"), ("warnComment", "logstash_config_helper.go")], ["Warnings of the returned configuration"])
prop("C06", "Every node carries its exact source position",
     "In the tree of every valid text, each section, plugin, attribute, array element, hash entry and key, nested value, branch, else-if and else block, condition expression, operator and field reference reports the byte offset at which its text starts and the line and column (counted in characters) of that offset.",
     ["inputs"], "every valid text, including multi-byte characters, tabs, CRLF, multi-line strings and comments in front of the node",
     "Position tests cover one pretty printed example per construct, ASCII only.",
     PARSER + ["ast/ast.go"], [("astPos in each action", "logstash_config_helper.go")], ["Pos() of all nodes"])
prop("C07", "Formatting preserves the meaning of the configuration",
     "For every valid text, rendering the parsed tree yields a text which is itself valid and parses to a configuration with the same sections (per type), plugins, branches, conditions, attributes and values, in the same order and with byte-identical string, regular expression and field reference contents and equal numbers; only empty else blocks may disappear. Multi-line literals are never re-indented.",
     ["inputs"], "every valid text whose structure does not depend on the contents of a dropped comment, and without a plugin named else directly after a dropped else block",
     "Formatting tests compare golden texts for benign contents; data loss shows up with quotes, hashes, brackets and line breaks inside literals at deeper nesting levels.",
     AST, [("String methods", "ast/ast.go"), ("prefix: indentation of logical lines", "ast/ast_helper.go")], ["String() of the configuration", "mustache format"])
prop("C08", "Formatting keeps every regular comment in place",
     "For every valid text with at least one section, the formatted text contains every regular comment exactly once, with its text, in order and attached to the same element as before, and introduces no other comment.",
     ["inputs"], "every valid text with comments in any regular places",
     "Golden texts cover some places with one comment each.",
     AST + ["logstash_config_helper.go"], [("CommentBlock rendering", "ast/ast.go"), ("comment attachment", "logstash_config_helper.go")], ["String() of the configuration", "mustache format"])
prop("C09", "Formatting is idempotent",
     "Formatting the output of the formatter reproduces it byte for byte, for every valid text.",
     ["inputs"], "every valid text within the domain of the meaning-preservation property",
     "Tests check this only for inputs that are already formatted.",
     AST + ["logstash_config_helper.go"], [("String methods", "ast/ast.go"), ("prefix", "ast/ast_helper.go"), ("SpaceBefore / SpaceAfter of comments", "logstash_config_helper.go")], ["String() of the configuration"])
prop("C10", "Formatted layout is canonical",
     "The formatted text depends only on the configuration, its comments and the blank lines between comments, not on other white space of the input. In it every line that does not continue a multi-line literal is indented by exactly two blanks per enclosing brace or bracket, has no trailing blanks except after an empty comment, holds at most one attribute, array element, hash entry or comment, and the text ends with exactly one line break.",
     ["inputs"], "every valid text and all its white space variants",
     "It is a relation between pairs of inputs and a condition on every output line; golden texts sample it.",
     AST, [("String methods", "ast/ast.go"), ("prefix", "ast/ast_helper.go")], ["String() of the configuration"])
prop("C11", "Parsing any bytes terminates without panic and with linear work",
     "For every byte string and every combination of the comment and encoding options, parsing returns a configuration or an error, never panics, and any configuration returned without error can be rendered and its node positions read without panic. The number of parsing steps and the memory taken grow no faster than linearly with the size of the text for every way of repeating or nesting a construct, valid or damaged.",
     ["inputs", "configurations"], "arbitrary byte strings including invalid UTF-8, NUL and truncations; repetition and nesting up to some thousand copies",
     "Tests feed well-formed ASCII of small size; a backtracking parser turns exponential or panics only for specific nestings and damage.",
     PARSER + ["parse_error_helper.go"], [("panic recovery and error list", "logstash_config.go"), ("fatalError cuts backtracking", "parse_error_helper.go")], PARSE_API + ["Statistics option"])
prop("C12", "Parse errors point at the right place in the text",
     "For every rejected text the error names the given file, and the error and the farthest-failure report, where there is one, give positions inside the text whose line, column and offset agree; the report quotes exactly the text between its two offsets and lists at least one failure, none twice; both are the same for every parse of the text. An illegal character put between two tokens of a valid text is reported exactly at its place or, where the parser reports an enclosing construct as unclosed, not behind it and not before that construct begins; the first invalid UTF-8 byte is reported at its offset.",
     ["inputs"], "every rejected text, with any file name",
     "Tests compare a fixed set of about 25 messages.",
     ["parse_error_helper.go", "logstash_config.go", "logstash_config.peg"], [("pushError keeps the farthest failure", "parse_error_helper.go"), ("fatalError", "parse_error_helper.go")], ["error values", "config.GetFarthestFailure"],
     [{"name": "farthest failure list", "meaning": "the failures at the largest offset of the last parse", "where": "parse_error_helper.go"}])
prop("C13", "All ways of feeding a text to the parser agree",
     "Parsing a byte slice, a reader delivering the same bytes in any chunks, or a file with the same content gives the same tree, positions, warnings and errors. If the reader or the file fails, the error is returned and no configuration is produced from the partial content.",
     ["inputs", "fault_sequences"], "every text; every chunking of reads, including one byte at a time and data delivered together with the end or an error; a read error after any number of bytes; missing and unreadable files",
     "Only Parse and ParseReader with strings are used in tests; no reader misbehaves.",
     ["logstash_config.go"], [("ParseFile, ParseReader, Parse", "logstash_config.go")], PARSE_API)
prop("C14", "Tuning options do not change the result",
     "Memoization, statistics, debug output, tolerance for invalid UTF-8, disabled panic recovery, unexhausted expression limits, the default entry point and foreign values in the stores leave the tree, its positions and the accept or reject verdict of every text that is valid UTF-8 unchanged. With tolerance for invalid UTF-8 a text is accepted whenever it is derivable from the grammar byte-wise outside its literals and comments. An unknown entry point is an error.",
     ["inputs", "configurations"], "every text and combination of options (warnings excepted under memoization)",
     "No test sets these options.",
     ["logstash_config.go"], [("parser options", "logstash_config.go")], PARSE_API)
prop("C15", "Concurrent use is free of data races and equals sequential use",
     "Any number of goroutines may parse, render, inspect and edit independent configurations at the same time, and render or inspect a shared one: each obtains exactly the result it obtains when running alone, without data races, and a failure report read at any time describes one single parse.",
     ["schedules"], "every interleaving of concurrent calls of the public functions on valid and invalid texts",
     "The test suite is sequential and not run under the race detector.",
     ["parse_error_helper.go", "logstash_config.go", "ast/ast.go"], [("per-parser state, mutex around the shared failure report", "parse_error_helper.go")], ["go race detector", "results per goroutine"],
     [{"name": "shared failure report", "meaning": "the only process-wide mutable state", "where": "parse_error_helper.go"}])
prop("C16", "Results do not depend on history and share no state",
     "The result of parsing or rendering a text does not depend on what was parsed or rendered before in the process, and rendering or inspecting a tree does not change it. Later modification of the input bytes or of another tree never changes a tree returned earlier, and the failure report after a parse describes that parse only.",
     ["histories", "inputs"], "every sequence of parse, render, inspect, edit and buffer overwrite operations",
     "Each test case performs one parse in isolation.",
     ["logstash_config.go", "logstash_config_helper.go", "parse_error_helper.go", "ast/ast.go"], [("per-call parser state, reset of the failure report", "logstash_config_helper.go")], PARSE_API + ["config.GetFarthestFailure", "String()"])
prop("C17", "Plugin traversal visits every plugin exactly once in order",
     "Walking the plugins of a block list calls the callback exactly once for each plugin and each nil entry contained directly or in if, else-if and else blocks at any depth, in document order, with a cursor giving that plugin, its containing list and its index in it. A walk whose callback does nothing leaves the tree unchanged, and the returned list is the complete list.",
     ["inputs"], "every tree of blocks, branches, plugins and nil entries",
     "Tests use six small fixed trees.",
     ["ast/astutil/apply.go"], [("ApplyPlugins", "ast/astutil/apply.go")], ["callback events"])
prop("C18", "Cursor edits change exactly what they name",
     "During a walk, any sequence of replacing, inserting before and inserting after, optionally ended by deleting, applied at any visited plugins, changes the containing lists exactly as the corresponding list operations at the current plugin, at every depth; inserted and replacement plugins are not visited, all other plugins are still visited exactly once, and the cursor keeps denoting the current plugin.",
     ["inputs", "histories"], "every tree and every assignment of edit sequences to its plugins",
     "Tests apply a single kind of edit to fixed trees; combinations are where index and step bookkeeping fails.",
     ["ast/astutil/apply.go"], [("iterator index and step", "ast/astutil/apply.go")], ["returned tree and callback events"],
     [{"name": "cursor index and step", "meaning": "position of the current plugin and distance to the next one", "where": "ast/astutil/apply.go"}])
prop("C19", "Escaping and unescaping are exact inverses on escaped text",
     "Unescaping an escaped value gives back the value; an escaped value contains no raw line break, tab, carriage return or unescaped quote or backslash; unescaping replaces exactly the six documented escape sequences and leaves all other text, including other backslash sequences, as it is.",
     ["inputs"], "every string, including long runs of backslashes, multi-byte characters and (for unescaping) a trailing backslash",
     "Tests cover eleven short strings.",
     ["ast/astutil/escape.go"], [("Escape, Unescape", "ast/astutil/escape.go")], ["return values"])
prop("C20", "Quoting yields exactly one valid literal with that value or an error",
     "Quoting a value either fails, or returns a literal of the requested kind that the parser reads back as one string with exactly that value; it fails exactly if no such literal exists. Quoting with escaping returns a literal of the requested kind that the parser accepts; in double or single quotes it only adds a backslash before unescaped quotes of that kind, as a bareword it replaces exactly the characters that are not allowed, one underscore for each.",
     ["inputs"], "every string of valid UTF-8; for quoting with escaping values not ending in a backslash, and for barewords at least two characters",
     "Tests quote six values.",
     ["ast/astutil/quote.go"], [("Quote, QuoteWithEscape", "ast/astutil/quote.go")], ["return values fed to the parser"])
prop("C21", "Plugin ids are found if and only if they are present",
     "Asking a plugin for its id returns the value of its first id attribute (the name written bare or quoted, the value any kind of string); it reports not-found exactly if the plugin has no such attribute, and another error if the id is not a string. Not-found errors stay recognisable when wrapped, and other errors are never recognised as not-found.",
     ["inputs"], "every plugin, every chain of wrapped errors",
     "Tests look at four plugins and a few errors.",
     ["ast/ast.go", "ast/errors.go"], [("Plugin.ID", "ast/ast.go"), ("IsNotFoundError", "ast/errors.go")], ["return values"])
prop("C22", "The check command reports exactly the invalid files",
     "The check command exits with status 0 and no error output if all named files are readable and valid and with status 1 otherwise, reporting every invalid or unreadable file with its name and position, and no valid one; directories are skipped. It prints nothing to standard output and never modifies any file.",
     ["inputs", "configurations"], "every list of files, valid, invalid, empty, missing or directories, in any order",
     "The command line program has no tests at all.",
     ["internal/app/check/check.go", "internal/app/app.go", "internal/format/multierr.go"], [("Check.Run", "internal/app/check/check.go")], ["exit status, stdout, stderr and files of the mustache binary"])
prop("C23", "The format command prints the formatted files and changes nothing",
     "Without the write flag, the format command prints the formatted text of each named file in order to standard output, exits with status 0, and modifies no file; at the first file that cannot be read or parsed it stops with status 1 and an error naming that file.",
     ["inputs", "configurations"], "every list of files",
     "The command line program has no tests at all.",
     ["internal/app/format/format.go"], [("Format.Run", "internal/app/format/format.go")], ["exit status, stdout, stderr and files of the mustache binary"])
prop("C24", "In-place formatting replaces content faithfully and touches nothing else",
     "With the write flag, each named valid file up to the first file that cannot be read, parsed or written ends up containing exactly its formatted text, with its permissions, links and name kept, and nothing is printed to standard output. The command stops at that first failing file with status 1 and an error naming it; this file, all later ones and all files not named are left untouched byte for byte. Formatting twice equals formatting once.",
     ["inputs", "configurations"], "every list of files incl. longer and shorter results, symbolic and hard links, restrictive modes",
     "The command line program has no tests at all.",
     ["internal/app/format/format.go"], [("Format.Run with writeToSource", "internal/app/format/format.go")], ["file system state after the mustache binary ran"])
prop("C25", "The lint command reports exactly the offending plugins",
     "The lint command lists for each valid file exactly the plugins without a string id and exactly the plugins repeating an id seen earlier in the file (inputs, then filters, then outputs), each with position and name, plus one line for every exceptional comment, and every invalid or unreadable file with its error. It exits with 0 if there is nothing to report and 1 otherwise and modifies no file.",
     ["inputs", "configurations"], "every list of files, any nesting of plugins in branches, any mix of missing, repeated, quoted, bareword and non-string ids",
     "The command line program has no tests at all.",
     ["internal/app/lint/lint.go"], [("Lint.Run and validator.walk", "internal/app/lint/lint.go")], ["exit status, stderr and files of the mustache binary"],
     [{"name": "seen ids", "meaning": "ids met so far in the current file", "where": "internal/app/lint/lint.go"}])
prop("C26", "Automatic id fixing adds missing ids and nothing else",
     "With automatic fixing, afterwards every plugin in sections and branches of a valid file has an id, every added id differs from the ids of all other plugins in sections and branches of the file, and apart from the appended id attributes and canonical layout the configuration and its regular comments are unchanged. A file lacking no id is not modified, a second run changes nothing, and the rewritten file is valid.",
     ["inputs", "histories"], "every valid file, including quoted plugin names, ids that look like generated ones and repeated runs",
     "The command line program has no tests at all.",
     ["internal/app/lint/lint.go", "ast/astutil/apply.go"], [("validator.walk with autoFixID", "internal/app/lint/lint.go")], ["file content after the mustache binary ran"])
prop("C27", "Input and output failures are reported and spare the other files",
     "If a file does not exist, cannot be opened, read or written, or standard output cannot be written, the command exits with status 1 and an error describing that failure rather than a crash or success, check and lint still report all other files correctly, and no error text of one file is attributed to another. Files that are not the failing target keep their content, and a file whose rewriting fails keeps its old content.",
     ["fault_sequences", "inputs"], "every command, every position of the failing file among valid and invalid ones, missing, permission denied, unreadable special files, read-only targets, full output device, file size limit",
     "The command line program has no tests at all and no test injects faults.",
     ["internal/app/check/check.go", "internal/app/format/format.go", "internal/app/lint/lint.go"], [("error aggregation", "internal/format/multierr.go")], ["exit status, stderr and files of the mustache binary under injected faults"])
prop("C28", "Trees built or edited in code render to the configuration they describe",
     "A tree assembled with the public constructors from legal names and values, or obtained by editing a parsed tree, renders to a text that parses back to the same sections, branches, conditions, attributes, values and comments. Nil entries in block, attribute, array and expression lists are skipped. Constructing nodes from parts of a tree does not change that tree.",
     ["inputs", "histories"], "every tree built from legal parts: values expressible in the language (barewords of at least two characters, arrays in conditions that cannot be read as a selector), names that cannot be read as the keyword of a following block",
     "Tests render about forty small trees and compare texts.",
     AST, [("constructors and String methods", "ast/ast.go")], ["String() fed to the parser"])
prop("C29", "Expression limits bound the parsing work exactly",
     "With an expression limit, parsing stops with an error saying that the limit was exceeded as soon as it is, and otherwise gives the unlimited result; whether it stops depends only on whether the number of steps the text needs, as reported by the statistics, exceeds the limit.",
     ["inputs", "configurations"], "every text and every limit",
     "No test sets a limit.",
     ["logstash_config.go"], [("MaxExpressions, Statistics", "logstash_config.go")], ["error values and statistics"])

prop("C30", "Every node renders on its own to the text of exactly that node",
     "For every section, plugin, attribute, array element, hash entry, branch, if, else-if and else block, condition, expression, operand, field reference, comment and comment block of a tree, its own rendering (String, ValueString, Name and CommentBlock), put in the place of such a node in an otherwise minimal configuration, is valid and reads back as exactly that node with its contents and its comments.",
     ["inputs"], "every node of every parsed or constructed tree in the domain of C07 and C28",
     "Tests render whole configurations; the methods of the single nodes are exported and used on their own, but rendered in a handful of tests only.",
     AST, [("String, ValueString, Name and CommentBlock methods", "ast/ast.go")], ["return values read by the reference model and the parser"])
prop("C31", "Commands, flags, help and settings files mean the same everywhere",
     "Flags take effect wherever they stand between the command and the end-of-options mark, in every spelling of their value, the last one counting; all other arguments, also those looking like flags behind that mark, are files. An unknown command or flag, a flag of another command, an impossible value or a broken settings file leads to exit status 1 with an error naming it, no standard output and no change to any file. Help and version are printed to standard output with exit status 0 without touching any file. Settings files, which are looked for in the working directory and in the directory mustache of the user's configuration directory only, do not change what is done, nor do environment variables other than those which say where that directory is.",
     ["inputs", "configurations"], "every command line and any valid or broken settings file in the working or user directory",
     "The command line program has no tests at all.",
     ["internal/app/app.go", "internal/app/check.go", "internal/app/format.go", "internal/app/lint.go", "cmd/mustache/main.go"], [("commands and flags", "internal/app"), ("Execute", "internal/app/app.go")], ["exit status, stdout, stderr and files of the mustache binary"])
prop("C32", "Other entry points read one element like the configuration does",
     "Parsing with one of the rules the parser offers as entry point besides the default one (configuration, section, plugin, attribute, value, array, hash, hash entries, branch, if, else-if and else block, condition, expression of each kind, operand) succeeds if and only if such an element, comments in front of it included where the grammar gives them to it, stands at the start of the text, and returns exactly that element with its contents, comments and positions (relative to the text), as it is returned within a configuration. What follows the element is not looked at.",
     ["inputs", "configurations"], "every text that is valid UTF-8, every rule accepted by the Entrypoint option, with and without comments and memoization",
     "No test uses the Entrypoint option.",
     ["logstash_config.go", "logstash_config.peg", "logstash_config_helper.go"], [("Entrypoint", "logstash_config.go"), ("rules", "logstash_config.peg")], ["returned value or error of Parse with Entrypoint"])
prop("C33", "Statistics and debug output describe exactly what the parser did",
     "The debug output of a parse is a properly nested sequence of entered and left steps, each naming a place of the text with its line, column, offset and character, and each match quoting exactly the text between its start and that place. The statistics count every evaluated expression, and every decided choice with the alternative taken, exactly as often as the debug output shows them, for every combination of options and also for parses that fail or are stopped. Without the debug option nothing is printed, and the statistics are the same.",
     ["inputs", "configurations"], "every text that is valid UTF-8, every combination of the other options",
     "No test looks at the debug output or at statistics.",
     ["logstash_config.go"], [("Debug, Statistics, Stats", "logstash_config.go"), ("print, in, out, incChoiceAltCnt, parseExpr", "logstash_config.go")], ["standard output during Parse", "the Stats value"])
prop("C34", "The list of expected items in an error is exactly what can follow there",
     "When a text is rejected because nothing fits at some place, the error lists there, each once, exactly the items which can follow: a continuation of the text up to that place brings the parser beyond it (or is accepted) if it begins with one of the listed literals or with a character of one of the listed classes, and only then; and EOF is listed if and only if the text up to that place is accepted as it is. Likewise each failure that GetFarthestFailure lists for such a text names something that is missing at the place it reports: with it there, the parser gets further. (Places behind a comment mark on the same line, where a continuation belongs to the comment, and operators completed by the continuation are outside of this.)",
     ["inputs", "configurations"], "every rejected text that is valid UTF-8, every continuation",
     "Tests compare a handful of error messages.",
     ["logstash_config.go"], [("failAt, maxFailExpected", "logstash_config.go"), ("no match found, expected", "logstash_config.go")], ["error text of Parse", "position of the error for the continued text"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
