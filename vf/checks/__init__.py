"""property id -> (module, function, the rule applied)."""
REGISTRY = {
    "P01": ("rewrites", "p01", "Every replacement the rewriting pass can perform is extracted from the gated summary of its loop and both sides "
            "are compared exactly over all traces for all small intervals and arities its guard admits."),
    "P02": ("rewrites", "p02", "Every replacement of the normal-form and operator-removal passes is extracted, compared exactly over all traces, "
            "and the operators it creates are checked against the operators the pass promises to leave."),
}
_CMP = ("The gated summary of each function (every path, abstract heap, clang AST) is compared with the summary of its specification in ref/c; a path pair whose "
        "conditions are jointly satisfiable must agree on the result, every stored cell and every emitted action. ")
REGISTRY.update({
    "P09": ("cmonitor", "p09", _CMP + "One comparison per temporal operator and operand kind; queue reads and writes are events."),
    "P10": ("cmonitor", "p10", _CMP + "One comparison per queue length, write index and read index."),
    "P11": ("cmonitor", "p11", _CMP + "One comparison per instruction code."),
    "P12": ("cmonitor", "p12", _CMP + "The step with up to two instructions and passes; instruction effects abstracted."),
    "P13": ("cmonitor", "p13", _CMP + "Field decoding, queue configuration and the record loop unrolled."),
    "P14": ("cmonitor", "p14", _CMP + "The three resets."),
    "P15": ("cmonitor", "p15", _CMP + "Name and contract reports, up to three contracts."),
    "P16": ("cmonitor", "p16", _CMP + "Signal loading and trace lines of up to three columns."),
})

_PY = ("The gated summary of each function (every path, abstract heap, syntax tree) is compared with the summary of its specification in ref/py, computed by the same "
       "analysis; a path pair whose conditions are jointly satisfiable must agree on the result, every attribute stored and every file written. ")
REGISTRY.update({
    "P07": ("compiler", "p07", _PY + "Instruction selection per expression; the program order over expression kinds, two per side."),
    "P06": ("compiler", "p06", _PY + "Queue sizes and slices for up to three expressions in every sharing pattern."),
    "P05": ("typing", "p05", _PY + "Every kind of expression with operands of every kind of type."),
    "P03": ("front", "p03", _PY + "Each piece of surface syntax on small abstract programs."),
    "P04": ("front", "p04", _PY + "Up to three expressions per half."),
    "P32": ("front", "p32", _PY + "Every kind of expression, up to three per program."),
    "P19": ("trees", "p19", _PY + "Every node kind, section and table of the compiler's state; copies are also compared after the original changes."),
    "P30": ("trees", "p30", _PY + "Every node class's construction, accessor and classification; rewiring and visiting on small graphs."),
    "P31": ("text", "p31", "The text each printing function returns is derived from its source for every kind of expression, with symbolic names and one level of nesting, and "
            "compared with the text the grammar reads back as that expression."),
    "P27": ("grammar", "p27", _PY + "One comparison per production; precedence and token tables are compared as relations."),
    "P28": ("compiler", "bounds", _PY + "Every limit, and the two files."),
    "P08": ("compiler", "p08", _PY + "Field layout as a sequence of fixed-width fields."),
})
REGISTRY.update({
    "P26": ("signals", "p26", _PY + "Map files and trace headers of every line shape against programs with scalar and array signals; generated mappings and traces."),
})
REGISTRY.update({
    "P18": ("commands", "p18", "The registered commands, their operands, options, preconditions (closed under dependency) and steps are extracted from the syntax tree and compared with the documented table. " + _PY
            + "Guards over every precondition, compositions of up to three steps, every kind of script line."),
    "P25": ("commands", "p25", "The script the command-line tool runs is derived by constant propagation for every option and every pair of options, read as commands with all their options spelled out, and "
            "compared with the pipeline the options stand for; option definitions are compared with the documented ones."),
    "P24": ("outputs", "p24", "Placeholders are compared with the documented table and every statistic has to be set by some code. " + _PY),
    "P17": ("errors", "p17", "Forward typestate analysis of every function: a path on which an error has been reported does not return success, and a call of an operation that reports failure has its result looked at."),
})
REGISTRY.update({
    "P20": ("smt", "p20", "The script each encoder returns is derived by constant propagation for concrete formulas, read with a sort checker, and its models are compared with the formula's on every trace."),
    "P21": ("solver", "p21", _PY + "Finding, running and limiting the solver; verdicts of programs of up to three formulas."),
    "P22": ("egg", "p22", "Every rule of the rule files included is evaluated on all traces for all small intervals; the program derived for each formula is read back."),
    "P23": ("extract", "p23", "The parser of the engine's answers and the driver that uses them are compared with a reference. " + _PY),
})

# A property also rests on what other checks decide: the expression trees every pass reads and rewires, the texts sharing goes by,
# the queues the operators report through, the commands the command line is made of.
TREES = ("P30", ".")
SUPPORT = {
    "P01": [TREES], "P02": [TREES], "P03": [TREES, ("P19", r"cpt\.(deepcopy_expr|Expression\.deepcopy|Context\.)")], "P04": [TREES, ("P31", ".")],
    "P05": [TREES, ("P19", r"cpt\.Context\.")], "P06": [TREES], "P07": [TREES], "P19": [TREES], "P20": [TREES], "P22": [TREES], "P23": [TREES],
    "P24": [("P31", "."), ("P26", "generate_trace")], "P25": [("P18", ".")], "P26": [("P30", r"assign_signal_ids|has_valid_signal")], "P27": [TREES], "P28": [TREES], "P31": [TREES], "P32": [TREES],
    "P09": [("P10", ".")], "P12": [("P09", ".")], "P15": [("P08", "pack_aliases"), ("P13", "with names")],
}
