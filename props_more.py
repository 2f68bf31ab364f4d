MC = "monitors/c/src/"
CMP = "gated-SSA summaries of the C functions (clang AST, abstract heap) compared path by path with an independently written specification"
CNOTE = ("Every path of the function as it stands is compared, over all integer operand values, cell contents and timestamps, under the assumption that "
         "counters do not wrap; two paths differ only where their conditions are jointly satisfiable. ")

prop("P09", "Every temporal operator of the C monitor emits its semantic verdicts",
     "Each propositional, future-time and past-time operator of the monitor, executed on whatever its operands have reported so far, emits exactly the "
     "verdict-and-time pairs the semantics of mission-time temporal logic determine at that point, and keeps exactly the bookkeeping needed to continue. It never reports a verdict "
     "early, twice, for the wrong time, or with the wrong truth value, for any bounds, operand kind or earlier history.",
     ["inputs", "histories"],
     "every operator, operand kind (atomic, constant, subformula), interval, operand readiness, operand verdict and stored history",
     "The suite compares complete monitor runs for a few dozen formulas on fixed traces; a wrong comparison in one branch of until, release, since or triggered "
     "needs a particular order of operand verdicts relative to the bounds.",
     [MC + "engines/mltl.c"], [("operator transfer functions", MC + "engines/mltl.c: r2u2_mltl_update, check_operand_data, push_result")],
     CMP + " (one comparison per operator and operand kind)",
     CNOTE + "The specification (ref/c/mltl.c) is itself trusted: it was written from the operator semantics and checked by brute force on small traces while it was developed, which is not part of the check.")

prop("P10", "Verdict queues deliver every verdict in order and only when it is new",
     "A verdict queue accepts verdicts in increasing time order, merges adjacent equal verdicts, wraps around at its capacity, and hands each reader the oldest verdict that "
     "covers the time the reader is waiting for, or nothing. No stored verdict is skipped, delivered a second time or delivered to the wrong operand's reader.",
     ["inputs", "histories", "schedules"],
     "every queue length up to the analysed limit, every write and read position, any stored contents and any time waited for",
     "Tests only drive queues through whole runs whose queue lengths and interleavings of reads and writes are fixed by a few formulas.",
     [MC + "memory/shared_connection_queue.c", MC + "memory/shared_connection_queue.h"],
     [("queue read and write", MC + "memory/shared_connection_queue.c: r2u2_scq_read, r2u2_scq_write")],
     CMP + ", for every queue length up to 4 (5 in the thorough tier) and every index position with symbolic contents",
     CNOTE + "Queue lengths above 5 are not compared.")

prop("P11", "Every arithmetic and comparison instruction computes its operation",
     "Each non-temporal instruction of the monitor (loading signals and constants, storing atomic values, previous value, timestamp, logic, bitwise, comparison and arithmetic on "
     "integers and on floats, with the float comparison tolerance) computes exactly its operation on its operands, in operand order, and writes only its own result.",
     ["inputs"],
     "every instruction code, including unknown ones, on all operand values and memory contents",
     "Tests reach a minority of the instruction codes and with two or three operand values; swapped operands or a wrong field matter only for asymmetric values.",
     [MC + "engines/booleanizer.c"], [("instruction dispatch", MC + "engines/booleanizer.c: r2u2_bz_update")],
     CMP + " (one comparison per instruction code)",
     CNOTE + "Float arithmetic is uninterpreted except for constant witnesses, so a change that only reassociates float arithmetic is reported as undecided, not as a violation.")

prop("P12", "One monitor step runs all instructions to quiescence and advances time once",
     "A monitor step executes every non-temporal instruction exactly once and in order, then repeats all temporal instructions in order until a whole pass makes no progress, then "
     "advances the time stamp by exactly one and rewinds the instruction counters for the next step. The status it returns is always a defined one: that of its last instruction, or success without instructions.",
     ["inputs", "schedules", "histories"],
     "every instruction count within the unrolling, every sequence of progress results and statuses of the instructions",
     "A program whose instructions need several passes, or one that fails midway, appears in no unit test.",
     [MC + "engines/engines.c"], [("engine loop", MC + "engines/engines.c: r2u2_engine_step; " + MC + "lib.c: r2u2_step")],
     CMP + ", loops unrolled for programs of up to two instructions and passes",
     CNOTE + "Loops are unrolled twice, and the instruction executions are abstracted to arbitrary effects.")

prop("P13", "A compiled specification is decoded into exactly the instructions it encodes",
     "Loading a compiled specification reads the header, every instruction record, configuration record and name record in order, decodes each field from its own bytes, "
     "appends each instruction to the right table, and allots every verdict queue and temporal block its configured length, bounds and slots. Constants and initial previous values are in place before the first step, and a failing configuration record makes the load fail.",
     ["inputs"],
     "every record kind, field content and number of records within the unrolling, with and without names",
     "Tests load only binaries that the compiler itself produced; a field decoded from the wrong bytes or a wrong memory slot shows only for particular instruction mixes.",
     [MC + "internals/process_binary.c", MC + "instructions/mltl.c", MC + "instructions/booleanizer.c", MC + "lib.c"],
     [("binary decoding", MC + "internals/process_binary.c: r2u2_process_binary; " + MC + "instructions/mltl.c, booleanizer.c: *_from_binary; r2u2_mltl_configure_instruction_dispatch"),
      ("specification loading", MC + "lib.c: r2u2_load_specification")],
     CMP + ", record loop unrolled for up to two records",
     CNOTE + "The record loop is unrolled twice (once with names in the quick tier); capacity limits of the static tables are outside the property.")

prop("P14", "Resetting a monitor clears exactly what the reset promises",
     "The clock reset restarts the time stamp, the step progress and the instruction counters and nothing else; the soft reset additionally empties both loaded programs; the hard "
     "reset additionally clears all verdict memory. Nothing that a reset promises to clear survives it and nothing it promises to keep is lost.",
     ["histories"],
     "every monitor state a reset can be called in",
     "No test calls a reset.",
     [MC + "memory/monitor.c", MC + "memory/monitor.h"], [("resets", MC + "memory/monitor.c: r2u2_monitor_clock_reset, r2u2_monitor_soft_reset, r2u2_monitor_hard_reset")],
     CMP, CNOTE + "The specification takes the effect each reset documents in this code base as given; queue control blocks are rewritten by the next load, not by a reset.")

prop("P15", "Named verdicts and contract outcomes are reported under the right name",
     "With names enabled, a formula's verdict is printed under that formula's name, and an assume-guarantee contract is reported as inactive, invalid or verified "
     "exactly when its assumption fails, its guarantee fails or both hold, each with the verdict's time. No verdict is printed under another formula's or contract's name.",
     ["inputs"],
     "every formula number, verdict and set of names and contracts (up to three)",
     "Only a couple of contracts appear in tests, each with one outcome order.",
     [MC + "engines/aux_info.c"], [("name reports", MC + "engines/aux_info.c: r2u2_aux_formula_report, r2u2_aux_contract_report")],
     CMP + ", for up to three contracts", CNOTE + "The contract loop is unrolled three times.")

prop("P16", "Input values reach the signal slot they were given for",
     "Loading a boolean, integer, float or text value for a signal index changes that signal and nothing else, converted exactly as documented. A trace line is split at its commas "
     "into consecutive signal indices with its line break removed, and the end of the input is reported as the end of the trace.",
     ["inputs"],
     "every signal index and value; every line with up to three columns",
     "Tests use a few fixed traces and only one of the loading functions.",
     [MC + "lib.c", MC + "cli/csv_trace.c"], [("signal loading", MC + "lib.c: r2u2_load_bool_signal, r2u2_load_int_signal, r2u2_load_float_signal, r2u2_load_string_signal"),
      ("trace lines", MC + "cli/csv_trace.c: r2u2_csv_load_next_signals")],
     CMP + ", column loop unrolled three times", CNOTE + "Library parsing functions (sscanf, strtok and so on) are uninterpreted; lines longer than the buffer are outside the property.")

PCMP = "gated summaries of the compiler functions (syntax tree, abstract heap) compared path by path with an independently written specification"
PNOTE = ("Every path of the function as it stands is compared, over all argument values and object states; two paths differ only where their conditions are jointly satisfiable. "
         "Loops over lists of unknown length are compared for up to the stated number of elements. ")

prop("P07", "The assembled program computes each operand before it is used",
     "Every expression of a specification becomes exactly one instruction with the operator, operand kinds and operand numbers of that expression, numbered in the order in "
     "which it is stored, children before parents, and queue configuration for every temporal or shared node. A formula that cannot be assembled is reported, never silently "
     "dropped or miscompiled.",
     ["programs"],
     "every operator, operand kind and mix of non-temporal, atomic, propositional, temporal and constant expressions in both the future-time and the past-time part",
     "Tests compare the printed assembly of a few dozen specifications; a wrong operand kind or number shows only for particular sharing or mixes of the two parts.",
     [C2 + "assemble.py"], [("instruction selection", C2 + "assemble.py: gen_ft_instruction, gen_pt_instruction, gen_bz_instruction, gen_tl_operand, gen_*_scq_instructions"),
                            ("program order", C2 + "assemble.py: gen_assembly")],
     PCMP + "; program order over all kinds of expressions, two (three in the thorough tier) per program",
     PNOTE + "Depends on the traversal order being children first, which is a property of its own.")

prop("P08", "The compiler and both monitors agree on the binary format",
     "The specification image is a header, every instruction in program order with its length, and the name and contract records; every field has the width, byte order, signedness and "
     "position the monitors read, and every operator, operand kind and engine has the same number on both sides. Any operand value an instruction can carry is representable in its field.",
     ["programs", "inputs"],
     "every instruction, operand type, operator code, alias and contract record that can be written",
     "Tests run a few dozen compiled images through one of the monitors; a field that is too narrow, unsigned or shifted matters only for values or instructions those images lack.",
     [C2 + "assemble.py", MC + "instructions/mltl.h", MC + "instructions/booleanizer.h", "monitors/rust/r2u2_core/src/instructions"],
     [("image writer", C2 + "assemble.py: assemble, pack_bz_instruction, pack_tl_instruction, pack_cg_instruction, pack_aliases"),
      ("decoders", MC + "instructions, monitors/rust/r2u2_core/src/instructions")],
     PCMP + ", with packed bytes modelled as sequences of typed fields; code tables of the three languages compared",
     PNOTE + "Images of up to two instructions per engine; the Rust side is read syntactically (constants and decoder literals) and anything not recognised is undecided. The C decoder is compared by the property on loading.")

prop("P28", "Generated size limits cover what the specification needs",
     "The limits the compiler writes for the monitors count every instruction, queue slot, signal, formula, contract and name that the compiled specification uses, and each limit is written under "
     "the right name into the file of each monitor that has it.",
     ["programs"],
     "every compiled specification (any number of signals, instructions, queues, aliases and contracts)",
     "The one test of this feature compares the files for a single specification with expected text; a limit that counts the wrong list differs only for specifications in which the two counts differ.",
     [C2 + "assemble.py"], [("limits", C2 + "assemble.py: compute_bounds, write_bounds_c, write_bounds_rust")],
     PCMP,
     PNOTE + "Says that each limit is computed as specified, not that the monitors never exceed it.")

prop("P03", "Desugaring replaces each construct by exactly what it abbreviates",
     "Definitions, struct constructions and accesses, enumeration members, arrays, set aggregation (each, some, exactly, at least, at most) and assume-guarantee contracts are replaced by the core "
     "expressions they stand for: each use by its own meaning, every member, element and bound variable in its own place, and a contract by its assumption, implication and conjunction in that order.",
     ["programs"],
     "every program over these constructs (small abstract programs with symbolic names and operands; two or three uses, members or elements each)",
     "Each construct appears in two or three test specifications; a wrong element, member or bound variable is masked when the instances used in the tests look alike.",
     [C2 + "desugar.py"], [("passes", C2 + "desugar.py: expand_definitions, convert_function_calls_to_structs, resolve_enum_references, resolve_contracts, unroll_set_aggregation, resolve_struct_accesses, resolve_array_accesses, unroll_array_accesses")],
     PCMP + " on small abstract programs",
     PNOTE + "The programs have up to three nodes of the construct under test, in a known traversal order; names, types, locations and operands are symbolic.")

prop("P04", "Sharing common subexpressions merges equal expressions and nothing else",
     "Common-subexpression elimination makes every later occurrence of an expression refer to the first equal one in the same half of the program. Expressions that differ in any way stay "
     "apart, and nothing is shared between the future-time and the past-time half.",
     ["programs"],
     "every program with up to three expressions per half, with any pattern of equal and different expressions",
     "Tests compare printed results for a handful of formulas, none of which has equal expressions in both halves or three occurrences with one different.",
     [C2 + "cse.py"], [("sharing", C2 + "cse.py: optimize_cse")],
     PCMP + " on abstract programs",
     PNOTE + "Equality of expressions is equality of their canonical texts, which is left uninterpreted; that the text determines the expression is the property on printed forms.")

prop("P06", "Verdict queues are laid out without gaps or overlaps at their required size",
     "Every stored expression gets its own contiguous slice of queue memory, slices follow each other without gap or overlap in program order, the total is the end of the last slice, and each slice is large "
     "enough to keep a verdict until every expression sharing a parent has caught up with it. A constant operand takes no memory and a whole formula exactly one slot (plus the requested reserve).",
     ["programs"],
     "every program: all kinds of expressions and sharing patterns of up to three expressions and parents, all earliest and latest delays and reserves",
     "The tests print queue sizes for about a dozen formulas; an error matters when a node has several parents or when the slower sibling is not the last one.",
     [C2 + "scq.py"], [("queue sizes", C2 + "scq.py: compute_scq_sizes")],
     PCMP + " on abstract expression graphs with symbolic delays",
     PNOTE + "Sizes are compared with the published rule (slowest sibling minus own earliest delay, plus one); that this rule ignores the node's own delay is a known finding.")

prop("P32", "Atomic propositions get distinct indices between the two engines",
     "Each expression that a temporal or propositional operator reads from outside the temporal engine gets one index, distinct from every other, and all those readers, and no others, read it through one node. "
     "Without the non-temporal engine, signals keep the index the trace mapping gave them, or get a fresh one.",
     ["programs"],
     "every kind of expression and of parent, up to three expressions per program and two parents each, with and without the non-temporal engine and with indices already given",
     "The tests never combine an expression read by both engines with a second atomic, nor a partly indexed program.",
     [C2 + "atomics.py"], [("atomics", C2 + "atomics.py: compute_atomics")],
     PCMP + " on small abstract programs",
     PNOTE + "Fresh indices and mapped indices are only distinct when the mapping covers all signals or none, which a later check of the compiler enforces.")

prop("P30", "Syntax trees are built, classified, visited and rewired consistently",
     "Every construct of the language is built with its own operator, bounds, operands in order, result type and engine, and answers questions about itself accordingly. Visits report every reachable node "
     "exactly once, operands before (or after) the expressions that use them, and replacing a node redirects every one of its users and nothing else.",
     ["programs"],
     "every kind of node with any operands; visits and replacements on all shapes of small graphs, with shared and repeated operands",
     "The tests see trees only through printed results of whole compilations; a node used twice by one parent, or replaced while it is shared, is not among them.",
     [C2 + "cpt.py"], [("tree nodes", C2 + "cpt.py: constructors, static constructors, accessors, is_* predicates"), ("traversal and rewiring", C2 + "cpt.py: postorder, preorder, Expression.replace, get_siblings, rename, Program")],
     PCMP + "; visit orders on concrete shapes compared with the definition of the order",
     PNOTE + "Visit orders are decided for ten fixed shapes; termination on cyclic graphs is outside the property.")

prop("P19", "Saving, restoring and clearing the compiler's state loses and leaks nothing",
     "A saved copy of the program and its tables equals the original in every entry, refers to its own copies of the expressions, and stays as it was whatever is done to the original afterwards. "
     "Reading a new program starts from empty tables while options and the signal mapping survive.",
     ["programs", "histories"],
     "every kind of expression, section, declaration, table and statistic; any contents; any change made in place after the copy",
     "One test pushes and pops a state once; a table that is shared or forgotten only shows when the right command sequence runs between saving and restoring.",
     [C2 + "cpt.py", C2 + "stats.py"], [("copying", C2 + "cpt.py: deepcopy_expr, *.deepcopy, deepcopy_program_with_context; " + C2 + "stats.py: Stats.deepcopy"), ("clearing", C2 + "cpt.py: Context.clear")],
     PCMP + "; copies are compared a second time after the original's tables have been changed in place",
     PNOTE + "Expressions shared between two formulas are copied once per formula, which is not judged.")

prop("P31", "The text written for a specification says exactly what the specification is",
     "Every kind of expression, declaration, section and program is written with all its parts, each in its place and in order, in the spelling the language reads back as the same construct; names made up "
     "by the compiler are left out of the infix form. The exchange format for temporal formulas names each atomic by its index and writes every formula, one per line.",
     ["programs"],
     "every kind of construct with any names, bounds and operands (symbolic), nested once, with up to four operands or members",
     "The tests compare printed results of formulas made of a few operators; declarations, enumerations, aggregations, slices and function calls are never printed and read again.",
     [C2 + "cpt.py", C2 + "parse_c2po.py"], [("writers", C2 + "cpt.py: to_infix_str, to_prefix_str, to_mltl_std, *.__str__, Program.__repr__")],
     "derivation of the text returned for each kind of node from the gated summary (symbolic names), compared with the text the grammar prescribes; operator texts against the token table",
     "Nesting is one level deep: each construct's text is built from its operands' texts only, which the writers' single loop treats alike.")

prop("P23", "Equality saturation replaces a formula only by what the engine answered",
     "An answer of the equality-saturation engine is read as exactly the formula it spells, with each numbered atomic standing for the stored expression of that number; unreadable or ill-typed answers give no formula. "
     "A formula is replaced exactly when the engine succeeded and an equivalence check that was asked for did not refute the answer; time-outs, lack of memory, failures and contracts leave it as written, and the reported outcome is the one that occurred.",
     ["inputs", "programs", "configurations"],
     "every production and token of the answer language; answers with shared, repeated or single atomics; programs of up to two items with every outcome of the engine, of encoding, extraction and equivalence check, either engine, each output option",
     "The engine is not installed where the tests run, so none of this code is exercised by them.",
     [C2 + "eqsat.py", C2 + "parse_egglog_output.py"], [("answers", C2 + "parse_egglog_output.py: EgglogOutputLexer, EgglogOutputParser, parse"), ("driver", C2 + "eqsat.py: optimize_eqsat, run_egglog, write_eqsat_encoding")],
     PCMP, PNOTE + "The engine's process is modelled by its exit code and output; extraction with an integer-programming solver (egraph.py) is not covered.")

prop("P27", "Reading a specification builds exactly the constructs that were written",
     "Each grammar rule of the input languages (specifications, formula lists, rewrite-rule equivalences) builds the construct it stands for from its own parts, operators bind with the documented strength, and every spelling of a word, number, name or symbol is "
     "one token. Input that is not in the language, uses a negative size or bound, needs an unset mission time, or mixes past and future where that is not allowed, is reported and gives no program.",
     ["programs", "inputs"],
     "every grammar rule with any parts (symbolic), every pair of operators, every token spelling with any following text",
     "About a hundred specifications are parsed by the tests; most operators appear once, in parentheses, so a swapped operand, a wrong precedence or a name that collides with a keyword goes unnoticed.",
     [C2 + "parse_c2po.py", C2 + "parse_mltl.py", C2 + "parse_equiv.py"], [("C2PO grammar", C2 + "parse_c2po.py: C2POParser, C2POLexer, parse_c2po"), ("MLTL grammar", C2 + "parse_mltl.py: MLTLParser, MLTLLexer, parse_mltl"), ("equivalence grammar", C2 + "parse_equiv.py: MLTLEquivParser, MLTLEquivLexer, parse_equiv")],
     PCMP + " per grammar production; precedence and token tables extracted from the source and compared as relations",
     PNOTE + "The parser generator (vendored sly) is trusted to implement LALR(1) with the given precedences. List parts of a production have two elements.")

prop("P05", "Type checking accepts exactly the well-typed expressions and types them",
     "Every expression is accepted exactly if its operands have the types its operator is documented to take (and inputs, names, members, indices, bounds, intervals and constant operands are valid); "
     "anything else is rejected with an error. An accepted expression has the documented result type, and formulas, contracts and bound variables are recorded under their own names.",
     ["programs"],
     "every kind of expression over operands of every kind of type, with the non-temporal engine on or off, in either kind of specification section",
     "The suite has a handful of ill-typed specifications, one error each; a rule that is too weak for one operator and one operand type lets a program through that no test contains.",
     [C2 + "type_check.py", C2 + "types.py"], [("typing rules", C2 + "type_check.py: type_check_expr"), ("types", C2 + "types.py: Type and its subclasses")],
     PCMP + " (one comparison per kind of expression and combination of operand types)",
     PNOTE + "Shift operators are documented but rejected by this code base, and that is what the specification says; whether a type is constant is not used anywhere else and is not compared.")

prop("P26", "Map files and trace headers bind each name to the position they give",
     "After a map file or the header of a trace has been read, every listed name (and every element of an array slice, counting up) has exactly the position the text gives, the last mention counts, and every "
     "signal of the program got the position of its name. Malformed lines and signals without a position are reported and fail; generated mappings number the inputs in order, and generated traces have one "
     "column per input in the order of their positions.",
     ["inputs", "programs"],
     "map and trace files of every line shape (scalars, elements, slices of any width, repeats, malformed lines) against programs with scalar, array and repeated signals",
     "The suite reads a few well-formed maps with single-digit indices; a mapping that is off by one for one shape of line gives wrong verdicts only on the traces that use it.",
     [C2 + "map.py", C2 + "trace.py"], [("reading and generating maps", C2 + "map.py: parse_map_file, generate_map"), ("reading headers, generating traces", C2 + "trace.py: parse_trace_file, generate_trace")],
     PCMP + " per shape of file and program, with constants of the file shape propagated through the readers; file names, types and random values symbolic",
     PNOTE + "File texts are representatives of each line shape, not arbitrary texts.")

prop("P18", "Commands run only in states they can work on and report what happened",
     "Every documented command exists with its operands, options, defaults and steps, and runs only after everything it depends on (at any depth) has been established; otherwise it is refused and leaves the "
     "state alone. A failing step ends a composite command with its own code, the console keeps the last error it saw as its result, a parsed program replaces the current one only if parsing succeeded, and "
     "push and pop nest.",
     ["programs", "histories"],
     "every registered command and every precondition on its own and in pairs; every sequence of up to three steps with any results; every kind of console line with any earlier result and 0 to 2 saved states",
     "The suite runs two dozen scripts whose commands come in a sensible order; a missing precondition shows only on the sequences that violate it, and then as a crash or a wrong program.",
     [C2 + "command.py", C2 + "main.py"], [("commands and preconditions", C2 + "command.py: Command, CompositeCommand, CommandRegistry, GUARD_DEPENDENCIES; *_command in every module"),
                                          ("console and scripts", C2 + "main.py: CommandConsole, script")],
     "extraction of the command table from the syntax tree, dependency closure compared with the documented table; " + PCMP,
     PNOTE + "What a registered function does to the state is the subject of the other properties.")

prop("P25", "Command-line options select exactly the steps and settings they stand for",
     "For every combination of command-line options, the script the tool runs parses the named specification with the right reader, and performs exactly the requested checks, rewrites and settings, in the "
     "documented order, with the given values, before the result is written to the given file. File names are passed on whatever characters they contain.",
     ["inputs"],
     "every option with every representative value and every pair of options (all triples of switches in the thorough tier); file names with spaces",
     "The tests drive the compiler through scripts and one Python entry point, so most command-line options are never used; an option that is parsed and dropped, or passed on in the wrong place, changes only "
     "which monitor is produced.",
     ["compiler/c2po.py", C2 + "main.py", C2 + "main_wrapper.py"], [("option table", "compiler/c2po.py"), ("script", C2 + "main.py: cli"), ("library entry point", C2 + "main.py: main_rs")],
     "constant propagation through the script-building function, the resulting lines read as commands by the extracted option tables and compared with the documented plan",
     "Values are representatives of each option's type; what each step then does is the subject of the other properties.")

prop("P17", "An operation that reported an error does not claim success",
     "Whenever a step of the compiler reports an error, that step returns a failure to its caller instead of a result that looks complete, and every caller of a step that can fail looks at the outcome before "
     "going on. So a run that printed an error never ends with a success code and an output file that silently lacks something.",
     ["inputs", "programs"],
     "every path through every function of the compiler that can reach an error report (up to local conditions), and every call of such a function",
     "Tests feed inputs that are right, or wrong in one of a few ways; there are over a hundred places that report an error, and each is one forgotten return away from a monitor that is missing a formula.",
     ["compiler/c2po.py", C2 + "*.py"], [("error reports", C2 + "log.py: error, internal"), ("steps that report", C2 + "parse_c2po.py, parse_mltl.py, type_check.py, assemble.py, command.py, map.py, trace.py, eqsat.py, sat.py")],
     "typestate analysis over the syntax tree of every function (no report / reported), path sensitive in local flags; call sites of failing functions checked for a use of the outcome",
     "Conditions that are not local flags are taken both ways; a report followed by a raise or by a recorded failure mark counts as failure.")

prop("P24", "What is printed, written and measured is what was computed",
     "Printed and written programs, assembly listings, maps, traces and statistics contain exactly the items the compiler holds, in the documented form and order, and go to the file or stream that was asked for. "
     "Every statistic that can be named in a format reports the quantity its description names, for every program, including programs without formulas or whose first item is a contract.",
     ["programs", "configurations"],
     "every printing and writing command, with and without a file name, for programs of zero to several sections and every kind of item; every placeholder of the statistics format; every way of finding and running the monitor",
     "Hardly any test looks at printed output; a statistic that is never set, a listing that drops the last section or a file written under the wrong name passes the whole suite.",
     [C2 + "serialize.py", C2 + "command.py", C2 + "stats.py", C2 + "log.py", C2 + "util.py"], [("serialising", C2 + "serialize.py"), ("printing commands, statistics", C2 + "command.py: print_*, run_r2u2; " + C2 + "stats.py"), ("messages", C2 + "log.py")],
     PCMP + "; def-use analysis of the statistics fields and their placeholders",
     PNOTE + "The times that are measured are not bounded; only which clock readings they come from.")

prop("P20", "Satisfiability encodings have exactly the formula's models",
     "For every formula and every supported theory, the text handed to the solver is well formed and is satisfiable exactly when some trace satisfies the formula; a trace that satisfies the formula is a model, and "
     "every model is such a trace. A formula that the theory cannot express is refused instead of being encoded as something else.",
     ["inputs", "programs"],
     "every operator with every operand arrangement and representative intervals, nested two deep, all truth assignments and representative integers over the whole horizon, in each of the three theories, strict and not; every kind of type",
     "The suite asks for the verdict of some forty formulas; a wrong encoding still answers sat or unsat correctly for nearly all of them, and nothing else in the tool chain notices a wrong verdict.",
     [C2 + "sat.py"], [("bit-vector encoding", C2 + "sat.py: to_qf_bv_smtlib2"), ("quantifier-free encoding", C2 + "sat.py: to_qf_uflia_smtlib2"), ("quantified encoding", C2 + "sat.py: to_uflia_smtlib2")],
     "constant propagation derives the script each encoder produces for a concrete formula; the script is sort-checked and its meaning compared with the formula's on every trace of the horizon by truth-table masks",
     "Formulas and intervals are representative, traces exhaustive over the horizon for Boolean signals and over small integer ranges. No solver is run. Division of negative numbers and traces that end early are left open.")

prop("P21", "The solver's answer is reported for what it is",
     "The solver that is run is the one configured or the first one found, on exactly the text that was made, within the requested limits; its output decides the verdict, and a timeout, exhausted memory, a missing "
     "solver or a failed encoding is never reported as a verdict. Equivalence is reported only if every pair of neighbouring formulas was shown equivalent, and non-equivalence whenever one was shown different.",
     ["inputs", "fault_sequences"],
     "every way the solver can be found, end, be killed and answer; programs of zero to three formulas and contracts with every combination of answers; every option",
     "The tests run one solver that always answers in time; the paths for memory and time limits, refused encodings and mixed answers are never entered.",
     [C2 + "sat.py"], [("running the solver", C2 + "sat.py: run_smt_solver, find_smt_solver"), ("verdicts", C2 + "sat.py: check_sat, check_equiv, check_sat_result, to_smt_equiv"), ("files", C2 + "sat.py: write_smt_encoding, write_equiv_smt")],
     PCMP, PNOTE + "What the solver does is not modelled: any exit code and any output.")

prop("P22", "Equality saturation never equates different formulas",
     "The program handed to the equality-saturation engine denotes exactly the given formula with its intervals and shared parts, is well formed, and includes exactly the rule sets that were asked for. Every rule in them "
     "equates only formulas with the same truth value on every trace, for all intervals its condition admits, and the delays it computes are those of the formula.",
     ["inputs", "configurations"],
     "every rule of every rule file that is included, with all interval values up to 3 (4 in the thorough tier) and all traces over the resulting horizon; every operator with representative operands and intervals; every option",
     "The engine is not even installed where the tests run; and a wrong rule shows only on the intervals that satisfy its condition.",
     [C2 + "eqsat.py", C2 + "egglog/*"], [("program", C2 + "eqsat.py: to_egglog"), ("rules", C2 + "egglog/rewrites/*.egg, egglog/greedy/*.egg, egglog/ilp/*.egg")],
     "the rule files are parsed and each rule's two sides evaluated exactly over all traces; constant propagation derives the program for a concrete formula, which is read back and compared",
     "Interval values beyond the bound are not evaluated; termination and cost of saturation are not considered.")

prop("P29", "Compiler and monitor together report the semantic verdict of every formula",
     "Compiling any accepted specification with any combination of optimisations and running the monitor on any trace reports, for each formula and time step, "
     "the truth value that the formula's semantics gives it, once and in order.",
     ["programs", "inputs", "histories"],
     "every specification, option combination and trace of any length",
     "A handful of specifications and traces are run end to end.",
     [C2 + "main.py", "monitors/c/src/lib.c"], [("whole pipeline", C2 + "main.py: main; monitors/c/src/lib.c: r2u2_tic")],
     na="The statement relates unbounded executions of generated programs to traces; a sound static argument for the composition (queue contents over time against the semantics of the "
        "source formula) is out of reach here. Its parts are decided under P27, P05, P03, P01, P02, P04, P06, P07, P08, P13, P09-P12 and P15.")

prop("P33", "The Rust monitor reports the same verdicts as the C monitor",
     "On the same compiled specification and the same inputs the two monitors report the same verdicts in the same order.",
     ["programs", "inputs", "histories"],
     "every compiled specification and every input sequence",
     "The suite runs the C monitor only.",
     ["monitors/rust/r2u2_core/src/engines/mltl.rs"], [("temporal engine", "monitors/rust/r2u2_core/src/engines/mltl.rs")],
     na="No compiled form of the Rust sources can be analysed here (their dependencies are not available offline, and no front end for Rust was built); only the layout and codes of the binary "
        "format are compared across C, Rust and the compiler (P08).")

prop("P34", "The formula taken from an e-graph is one of least cost",
     "Among the formulas an e-graph represents, the optimal extraction picks one whose queues need the fewest bits; the greedy one never picks a dearer one than it computed.",
     ["programs", "inputs"],
     "every e-graph the engine may answer",
     "The optimiser is not installed where the tests run.",
     [C2 + "egraph.py"], [("integer program", C2 + "egraph.py: EGraph.build_gurobi_model_, EGraph.extract")],
     na="Optimality of the answer of an external integer-program solver over a run-time model is not a fact about the source text; that the formula put in place is the one answered, and that the rules equate "
        "only equivalent formulas, is decided under P22 and P23.")
