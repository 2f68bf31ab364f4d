"""What each production of the grammar of rewrite rules builds.  `loc` stands for the place in the file; p holds the matched parts."""
from c2po import cpt, log, types, util

from c2po.parse_equiv import MLTLEquivLexer, MLTLEquivParser


@_("constraint_list spec_list")
def program(self, p):
    self.constraints = p[0]
    inputs = cpt.InputSection(0, [cpt.VariableDeclaration(0, list(self.atomics), types.BoolType())])
    mapping = {a: int(a[1:]) for a in self.atomics}
    return (cpt.Program(log.FileLocation(self.filename, 0), [inputs, cpt.FutureTimeSpecSection(0, p[1])]), mapping)

@_("constraint_list constraint")
def constraint_list(self, p):
    return p[0] + [p[1]]

@_("")
def constraint_list(self, p):
    return []

@_("CONSTRAINT_LABEL constraint_expr NEWLINE")
def constraint(self, p):
    return p[1]

@_("constraint_expr REL_EQ constraint_expr")
def constraint_expr(self, p):
    return cpt.Operator.Equal(log.FileLocation(self.filename, p.lineno), p[0], p[2])

@_("constraint_expr REL_NEQ constraint_expr")
def constraint_expr(self, p):
    return cpt.Operator.NotEqual(log.FileLocation(self.filename, p.lineno), p[0], p[2])

@_("constraint_expr REL_GTE constraint_expr")
def constraint_expr(self, p):
    return cpt.Operator.GreaterThanOrEqual(log.FileLocation(self.filename, p.lineno), p[0], p[2])

@_("constraint_expr REL_LTE constraint_expr")
def constraint_expr(self, p):
    return cpt.Operator.LessThanOrEqual(log.FileLocation(self.filename, p.lineno), p[0], p[2])

@_("constraint_expr REL_GT constraint_expr")
def constraint_expr(self, p):
    return cpt.Operator.GreaterThan(log.FileLocation(self.filename, p.lineno), p[0], p[2])

@_("constraint_expr REL_LT constraint_expr")
def constraint_expr(self, p):
    return cpt.Operator.LessThan(log.FileLocation(self.filename, p.lineno), p[0], p[2])

@_("constraint_expr ARITH_ADD constraint_expr")
def constraint_expr(self, p):
    return cpt.Operator.ArithmeticAdd(log.FileLocation(self.filename, p.lineno), [p[0], p[2]])

@_("constraint_expr ARITH_SUB constraint_expr")
def constraint_expr(self, p):
    return cpt.Operator.ArithmeticSubtract(log.FileLocation(self.filename, p.lineno), p[0], p[2])

@_("constraint_expr ARITH_MUL constraint_expr")
def constraint_expr(self, p):
    return cpt.Operator.ArithmeticMultiply(log.FileLocation(self.filename, p.lineno), [p[0], p[2]])

@_("constraint_expr ARITH_DIV constraint_expr")
def constraint_expr(self, p):
    return cpt.Operator.ArithmeticDivide(log.FileLocation(self.filename, p.lineno), p[0], p[2])

@_("MIN LPAREN constraint_expr COMMA constraint_expr RPAREN")
def constraint_expr(self, p):
    return cpt.Operator.Min(log.FileLocation(self.filename, p.lineno), [p[2], p[4]])

@_("MAX LPAREN constraint_expr COMMA constraint_expr RPAREN")
def constraint_expr(self, p):
    return cpt.Operator.Max(log.FileLocation(self.filename, p.lineno), [p[2], p[4]])

@_("LPAREN constraint_expr RPAREN")
def constraint_expr(self, p):
    return p[1]

@_("TL_BOUND")
def constraint_expr(self, p):
    name = cpt.SymbolicIntervalVariable(log.FileLocation(self.filename, p.lineno), p[0])
    if name not in self.bounds:
        self.bounds.append(name)
    return name

@_("NUMERAL")
def constraint_expr(self, p):
    return cpt.Constant(log.FileLocation(self.filename, p.lineno), int(p[0]))

@_("TL_MISSION_TIME")
def constraint_expr(self, p):
    return cpt.MissionTime(log.FileLocation(self.filename, p.lineno))

@_("spec_list spec")
def spec_list(self, p):
    return p[0] + [p[1]]

@_("")
def spec_list(self, p):
    return []

@_("expr NEWLINE")
def spec(self, p):
    self.spec_num += 1
    return cpt.Formula(log.FileLocation(self.filename, p.lineno), self.fresh_label(), self.spec_num - 1, p[0])

@_("LOG_NEG expr")
def expr(self, p):
    return cpt.Operator.LogicalNegate(log.FileLocation(self.filename, p.lineno), p[1])

@_("expr LOG_IMPL expr")
def expr(self, p):
    return cpt.Operator.LogicalImplies(log.FileLocation(self.filename, p.lineno), p[0], p[2])

@_("expr LOG_IFF expr")
def expr(self, p):
    return cpt.Operator.LogicalIff(log.FileLocation(self.filename, p.lineno), p[0], p[2])

@_("expr LOG_OR expr")
def expr(self, p):
    return cpt.Operator.LogicalOr(log.FileLocation(self.filename, p.lineno), [p[0], p[2]])

@_("expr LOG_AND expr")
def expr(self, p):
    return cpt.Operator.LogicalAnd(log.FileLocation(self.filename, p.lineno), [p[0], p[2]])

@_("TL_GLOBAL interval expr")
def expr(self, p):
    return cpt.SymbolicTemporalOperator.Global(log.FileLocation(self.filename, p.lineno), p[1].lb, p[1].ub, p[2])

@_("TL_FUTURE interval expr")
def expr(self, p):
    return cpt.SymbolicTemporalOperator.Future(log.FileLocation(self.filename, p.lineno), p[1].lb, p[1].ub, p[2])

@_("expr TL_UNTIL interval expr")
def expr(self, p):
    return cpt.SymbolicTemporalOperator.Until(log.FileLocation(self.filename, p.lineno), p[2].lb, p[2].ub, p[0], p[3])

@_("expr TL_RELEASE interval expr")
def expr(self, p):
    return cpt.SymbolicTemporalOperator.Release(log.FileLocation(self.filename, p.lineno), p[2].lb, p[2].ub, p[0], p[3])

@_("LPAREN expr RPAREN")
def expr(self, p):
    return p[1]

@_("TL_TRUE")
def expr(self, p):
    return cpt.Constant(log.FileLocation(self.filename, p.lineno), True)

@_("TL_FALSE")
def expr(self, p):
    return cpt.Constant(log.FileLocation(self.filename, p.lineno), False)

@_("TL_ATOMIC")
def expr(self, p):
    self.atomics.add(p[0])
    return cpt.Signal(log.FileLocation(self.filename, p.lineno), p[0], types.NoType())

@_("TL_PROPOSITION")
def expr(self, p):
    self.variables[p[0]] = types.BoolType()
    return cpt.Variable(log.FileLocation(self.filename, p.lineno), p[0])

@_("LBRACK constraint_expr COMMA constraint_expr RBRACK")
def interval(self, p):
    return cpt.SymbolicInterval(p[1], p[3])


def parse_equiv(context, options):
    contents = util.read_file(options["filename"])
    if contents is None:
        return None
    context.clear()
    context.set_spec_filename(options["filename"])
    lexer = MLTLEquivLexer(options["filename"])
    parser = MLTLEquivParser(options["filename"])
    output = parser.parse(lexer.tokenize(contents))
    if lexer.status and parser.status:
        program, mapping = output
        context.bounds = parser.bounds
        context.constraints = parser.constraints
        context.signal_mapping = mapping
        context.variables = parser.variables
        return program
    return None

def MLTLEquivLexer_init(self, filename):
    self.status = True

def MLTLEquivParser_init(self, filename):
    self.spec_num = 0
    self.atomics = set()
    self.variables = {}
    self.bounds = []
    self.constraints = []
    self.is_ft = False
    self.is_pt = False
    self.status = True
