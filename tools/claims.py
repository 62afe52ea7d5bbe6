T.update({
 "P05": ("exhaustive enumeration of operator chains (all operators, all chains up to a length, all whitespace styles) against an independent precedence parser, replayed on the real parser",
         "Exhaustive within the stated bounds; the trees are those of the real ludtwig-parser linked from /repo."),
 "P13": ("exhaustive enumeration of names x naming positions and of all template compositions up to a depth, replayed on the real binary",
         "Exhaustive within the stated bounds (names over a 5 letter alphabet, vocabulary compositions); " + BLACK + "."),
 "P14": ("exhaustive enumeration of string contents x quotes x configuration and of all template compositions up to a depth, replayed on the real binary",
         "Exhaustive within the stated bounds; " + BLACK + "."),
 "P15": ("exhaustive enumeration of filter/test/function lists, filter chains, hash keys, operator chains and of all template compositions up to a depth, replayed on the real binary",
         "Exhaustive within the stated bounds; " + BLACK + "."),
})
T.update({
 "P16": ("exhaustive enumeration of all forests of blocks and elements (25 labels) up to a number of nodes and of all template compositions up to a depth, replayed on the real binary",
         "Exhaustive within the stated bounds; " + BLACK + "."),
})
T.update({
 "P07": ("exhaustive enumeration of element x directive form x rule list x context x siblings x nesting against the composed expectation, replayed on the real binary in lint and fix mode",
         "Exhaustive within the stated bounds; " + BLACK + "."),
 "P08": ("exhaustive enumeration of document x directive form x rule list x position (every top level position, nested in every context) against the composed expectation, replayed on the real binary in lint and fix mode",
         "Exhaustive within the stated bounds; " + BLACK + "."),
})
T.update({
 "P01": ("exhaustive enumeration of all character sequences, token sequences and tag sequences up to a length and of all single mutations of all vocabulary templates, replayed on the real parser",
         "Exhaustive within the stated bounds; the trees and errors are those of the real ludtwig-parser linked from /repo."),
 "P02": ("exhaustive enumeration of all character / token / tag sequences up to a length, single mutations and repetitions, replayed on the real parser (with a watchdog) and on the real binary in lint and fix mode",
         "Exhaustive within the stated bounds; the binary is built with overflow checks and debug assertions."),
})
T.update({
 "P03": ("exhaustive enumeration of every construct in every context (compositions up to a depth), every pair of neighbours, every keyword in every name position and every token sequence in every text position; tree compared with that of the plainest place, replayed on the real parser and binary",
         "Exhaustive within the stated bounds; the trees and errors are those of the real ludtwig-parser linked from /repo."),
})
T.update({
 "P06": ("exhaustive enumeration of delimiter forms (all uniform combinations, every single delimiter) and whitespace between tokens (all kinds, every single gap, inserted and removed blanks) over all template compositions up to a depth; tree and findings compared, replayed on the real parser and binary",
         "Exhaustive within the stated bounds; " + BLACK + "."),
})

T.update({
 "P04": ("exhaustive enumeration of every single loss, exchange or repetition of a delimiter, closing tag, tag name, bracket or quote in every composition of the vocabulary up to a depth (all broken templates judged by an independent scanner), replayed on the real parser and binary",
         "Exhaustive within the stated bounds; the errors are those of the real ludtwig-parser linked from /repo, exit codes those of the real binary."),
})
T.update({
 "P09": ("exhaustive enumeration of all subsets of fixable findings on one line and of all compositions of the vocabulary up to a depth under all format configurations; the fixed file compared with the application of the reported suggestions, replayed on the real binary",
         "Exhaustive within the stated bounds; " + BLACK + "."),
 "P10": ("exhaustive enumeration of all compositions, messy layouts and damaged templates under all format configurations; the fix - lint - fix cycle is run to its end on the real binary and must reach a fixed point in one run",
         "Exhaustive within the stated bounds; " + BLACK + "."),
 "P11": ("exhaustive enumeration of all compositions, messy layouts, protected literals x contexts x separators and operator chains x rule subsets; the fixed text compared with the composed expectation (text, structure by an independent reader, grouping by an independent precedence parser), replayed on the real binary",
         "Exhaustive within the stated bounds; " + BLACK + "."),
})
T.update({
 "P12": ("exhaustive enumeration of template structures x whitespace in every gap x format configurations against a reference model of the layout that predicts every finding and the fixed text, replayed on the real binary in lint and fix mode",
         "Exhaustive within the stated bounds; " + BLACK + "."),
})
T.update({
 "P17": ("exhaustive enumeration of all multisets (up to a size) of 21 kinds of files and directories x ways to give them x options; the findings and errors printed are counted and compared with the summary and the exit code of the real binary",
         "Exhaustive within the stated bounds; runs as an unprivileged user in a scratch directory, " + BLACK + "."),
 "P20": ("exhaustive enumeration of all multisets of 21 kinds of files (unreadable, read-only, dangling, not UTF-8, ...) and of every single failing file operation, every sequence of two failing operations and every crash point of small runs (system call interposition); files, findings and errors compared with the run without faults",
         "Exhaustive within the stated bounds; the faults are injected into the unmodified binary by an LD_PRELOAD shim."),
})
T.update({
 "P18": ("exhaustive enumeration of ignore files (10 places x 34 pattern lists, all pairs of places), nested repositories and argument lists over a fixed tree against an independent model of the ignore rules, replayed on the real binary",
         "Exhaustive within the stated bounds; " + BLACK + "."),
})
T.update({
 "P19": ("exhaustive enumeration of all values of every option x source (default, file, environment, both), all pairs of options, all assignments of sources to the options of a table, all rule sets up to a size and their complements, all malformed values; compared with one file holding the effective values, replayed on the real binary",
         "Exhaustive within the stated bounds; " + BLACK + "."),
 "P21": ("exhaustive enumeration of the states of the target (12) x its directory (7) x name x spelling x options, and of every failing operation, crash point and racing creation during -C (system call interposition), replayed on the real binary",
         "Exhaustive within the stated bounds; runs as an unprivileged user in a scratch directory."),
})
T.update({
 "P22": ("systematic exploration of thread schedules of the real program under a controlled scheduler (stateless model checking, preemption bound 1 and 2, timeouts as choices): scheduling points at every atomic access, lock, futex, thread and file operation",
         "Exhaustive within the stated bounds: the real sources of /repo and their dependencies, std excepted, are compiled with thread-sanitizer instrumentation and linked against the scheduler; one thread runs at a time (sequentially consistent executions)."),
})
T.update({
 "P23": ("exhaustive enumeration of all compositions (up to a depth) of templates whose parts are marked, x styles of blanks and whitespace control, of all operator chains up to a length and of all tag and token sequences up to a length; every result of every typed accessor compared with the marks, replayed on the real parser",
         "Exhaustive within the stated bounds; the trees are those of the real ludtwig-parser linked from /repo."),
})
T.update({
 "P24": ("exhaustive enumeration of all command lines up to a length over 41 arguments (judged by an independent parser of the option conventions), of environments (single variables and pairs) and of all states of the three standard streams and every single failing write to them, each run on the real binary; exit code, output and every file compared with the prediction",
         "Exhaustive within the stated bounds; " + BLACK + "; failing writes are injected by an LD_PRELOAD shim."),
 "P25": ("exhaustive enumeration of all templates with findings and all broken templates (up to a depth) x prefixes x suffixes x line endings; every printed finding is compared with the source file and with the finding of the bare template moved by the prefix, on the real binary",
         "Exhaustive within the stated bounds; " + BLACK + "."),
 "P26": ("exhaustive enumeration of all templates with findings, all broken templates (up to a depth) and pairs of them x lint/--fix x --inspect, several files per run; the printed tree is compared with the tree of the file on disk, the names and replacements in the findings with the text at their place, the 'fixed' lines with the files that were rewritten, on the real binary",
         "Exhaustive within the stated bounds; " + BLACK + "."),
 "P27": ("exhaustive enumeration of the sets of active rules (every rule alone, all but one, all rotations of the order, entries twice, none; thorough: all pairs) x all templates (up to a depth), broken templates, layouts and directives; the findings of a rule must be the same with every set, on the real binary",
         "Exhaustive within the stated bounds; " + BLACK + "."),
 "P28": ("exhaustive enumeration of all sequences of up to three files over 22 contents (clean, findings, broken, directives that dangle, not UTF-8, large, too many fixes ...), of all names x ways to give the path x lint/--fix, and all rotations of all files together; findings, files, messages, summary and exit code are compared with those of the files alone, on the real binary",
         "Exhaustive within the stated bounds; " + BLACK + "."),
 "P29": ("exhaustive enumeration of 44 constructs x every token removed, replaced by or preceded by each of 27 others, and every cut x 4 continuations (and before each kind of opening delimiter), between two parts with findings in 18 kinds of bodies, lint and --fix: the findings and fixes in front and behind are those of the parts alone, on the real binary",
         "Exhaustive within the stated bounds; " + BLACK + "."),
})
