"""What each production of the C2PO grammar builds.  `loc` stands for the place in the file; p holds the matched parts."""
from c2po import cpt, log, types, util

from c2po.parse_c2po import C2POLexer, C2POParser

@_("section ft_spec_section")
def section(self, p):
    return p[0] + [p[1]]

@_("section pt_spec_section")
def section(self, p):
    return p[0] + [p[1]]

@_("section struct_section")
def section(self, p):
    return p[0] + [p[1]]

@_("section enum_section")
def section(self, p):
    return p[0] + [p[1]]

@_("section input_section")
def section(self, p):
    return p[0] + [p[1]]

@_("section define_section")
def section(self, p):
    return p[0] + [p[1]]

@_("")
def section(self, p):
    return []

@_("KW_STRUCT struct struct_list")
def struct_section(self, p):
    return cpt.StructSection(log.FileLocation(self.filename, p.lineno), [p[1]] + p[2])

@_("struct_list struct")
def struct_list(self, p):
    return p[0] + [p[1]]

@_("")
def struct_list(self, p):
    return []

@_("SYMBOL COLON LBRACE variable_declaration_list RBRACE SEMI")
def struct(self, p):
    members = []
    for typed_vars in p[3]:
        ln, variables, type = typed_vars
        member_decl = cpt.VariableDeclaration(ln, variables, type)
        members.append(member_decl)
    return cpt.StructDefinition(log.FileLocation(self.filename, p.lineno), p[0], members)

@_("KW_ENUM enum enum_list")
def enum_section(self, p):
    return cpt.EnumSection(log.FileLocation(self.filename, p.lineno), [p[1]] + p[2])

@_("enum_list enum")
def enum_list(self, p):
    return p[0] + [p[1]]

@_("")
def enum_list(self, p):
    return []

@_("SYMBOL COLON LBRACE enum_declaration_list enum_declaration_last RBRACE SEMI")
def enum(self, p):
    members = []
    index = 0
    for var in p[3] + [p[4]]:
        ln, variable, value = var
        if value is None:
            value = cpt.Constant(log.FileLocation(self.filename, p.lineno), int(index))
            index += 1
        member_def = cpt.Definition(ln, variable, value)
        members.append(member_def)
    return cpt.EnumDefinition(log.FileLocation(self.filename, p.lineno), p[0], members)

@_("enum_declaration_list enum_declaration")
def enum_declaration_list(self, p):
    return p[0] + [p[1]]

@_("")
def enum_declaration_list(self, p):
    return []

@_("SYMBOL COLON expr COMMA")
def enum_declaration(self, p):
    return (log.FileLocation(self.filename, p.lineno), p[0], p[2])

@_("SYMBOL COLON expr")
def enum_declaration_last(self, p):
    return (log.FileLocation(self.filename, p.lineno), p[0], p[2])

@_("SYMBOL COMMA")
def enum_declaration(self, p):
    return (log.FileLocation(self.filename, p.lineno), p[0], None)

@_("SYMBOL")
def enum_declaration_last(self, p):
    return (log.FileLocation(self.filename, p.lineno), p[0], None)

@_("KW_INPUT variable_declaration variable_declaration_list")
def input_section(self, p):
    var_decl_list = [p[1]] + p[2]
    signal_declarations = []
    for typed_vars in var_decl_list:
        ln, variables, type = typed_vars
        signal_decl = cpt.VariableDeclaration(ln, variables, type)
        signal_declarations.append(signal_decl)
        if isinstance(type, types.ArrayType):
            continue
        for var in variables:
            self.literals[var] = cpt.Signal
    return cpt.InputSection(log.FileLocation(self.filename, p.lineno), signal_declarations)

@_("variable_declaration_list variable_declaration")
def variable_declaration_list(self, p):
    return p[0] + [p[1]]

@_("")
def variable_declaration_list(self, p):
    return []

@_("SYMBOL symbol_list COLON type SEMI")
def variable_declaration(self, p):
    return (log.FileLocation(self.filename, p.lineno), [p[0]] + p[1], p[3])

@_("symbol_list COMMA SYMBOL")
def symbol_list(self, p):
    return p[0] + [p[2]]

@_("")
def symbol_list(self, p):
    return []

@_("SYMBOL")
def type(self, p):
    if p[0] == 'bool':
        return types.BoolType()
    elif p[0] == 'int':
        return types.IntType()
    elif p[0] == 'float':
        return types.FloatType()
    else:
        return types.StructType(p[0])

@_("type LBRACK RBRACK")
def type(self, p):
    return types.ArrayType(p[0])

@_("type LBRACK NUMERAL RBRACK")
def type(self, p):
    size = int(p[2])
    if size < 0:
        log.error(f"Array sizes must be greater than zero (found '{size}')", log.FileLocation(self.filename, p.lineno))
        self.status = False
    return types.ArrayType(p[0], size=size)

@_("KW_DEFINE definition definition_list")
def define_section(self, p):
    return cpt.DefineSection(log.FileLocation(self.filename, p.lineno), [p[1]] + p[2])

@_("definition_list definition")
def definition_list(self, p):
    return p[0] + [p[1]]

@_("")
def definition_list(self, p):
    return []

@_("SYMBOL ASSIGN expr SEMI")
def definition(self, p):
    return cpt.Definition(log.FileLocation(self.filename, p.lineno), p[0], p[2])

@_("KW_FTSPEC spec spec_list")
def ft_spec_section(self, p):
    return cpt.FutureTimeSpecSection(log.FileLocation(self.filename, p.lineno), [p[1]] + p[2])

@_("KW_PTSPEC spec spec_list")
def pt_spec_section(self, p):
    return cpt.PastTimeSpecSection(log.FileLocation(self.filename, p.lineno), [p[1]] + p[2])

@_("spec_list spec")
def spec_list(self, p):
    return p[0] + [p[1]]

@_("")
def spec_list(self, p):
    return []

@_("expr SEMI")
def spec(self, p):
    formula = cpt.Formula(log.FileLocation(self.filename, p.lineno), self.fresh_label(), self.spec_num, p[0])
    self.spec_num += 1
    return formula

@_("SYMBOL COLON expr SEMI")
def spec(self, p):
    formula = cpt.Formula(log.FileLocation(self.filename, p.lineno), p[0], self.spec_num, p[2])
    self.spec_num += 1
    return formula

@_("SYMBOL COLON expr CONTRACT_ASSIGN expr SEMI")
def spec(self, p):
    contract = cpt.Contract(log.FileLocation(self.filename, p.lineno), p[0], self.spec_num, self.spec_num + 1, self.spec_num + 2, p[2], p[4])
    self.spec_num += 3
    return contract

@_("expr_list COMMA expr")
def expr_list(self, p):
    p[0].append(p[2])
    return p[0]

@_("")
def expr_list(self, p):
    return []

@_("LBRACE expr expr_list RBRACE")
def expr(self, p):
    return cpt.ArrayExpression(log.FileLocation(self.filename, p.lineno), [p[1]] + p[2])

@_("LBRACE RBRACE")
def expr(self, p):
    return cpt.ArrayExpression(log.FileLocation(self.filename, p.lineno), [])

@_("KW_FOREXACTLY LPAREN SYMBOL COLON expr COMMA expr RPAREN LPAREN expr RPAREN")
def expr(self, p):
    boundvar = cpt.Variable(log.FileLocation(self.filename, p.lineno), p[2])
    return cpt.SetAggregation.ForExactly(log.FileLocation(self.filename, p.lineno), boundvar, p[4], p[6], p[9])

@_("KW_FORATLEAST LPAREN SYMBOL COLON expr COMMA expr RPAREN LPAREN expr RPAREN")
def expr(self, p):
    boundvar = cpt.Variable(log.FileLocation(self.filename, p.lineno), p[2])
    return cpt.SetAggregation.ForAtLeast(log.FileLocation(self.filename, p.lineno), boundvar, p[4], p[6], p[9])

@_("KW_FORATMOST LPAREN SYMBOL COLON expr COMMA expr RPAREN LPAREN expr RPAREN")
def expr(self, p):
    boundvar = cpt.Variable(log.FileLocation(self.filename, p.lineno), p[2])
    return cpt.SetAggregation.ForAtMost(log.FileLocation(self.filename, p.lineno), boundvar, p[4], p[6], p[9])

@_("KW_FOREACH LPAREN SYMBOL COLON expr RPAREN LPAREN expr RPAREN")
def expr(self, p):
    boundvar = cpt.Variable(log.FileLocation(self.filename, p.lineno), p[2])
    return cpt.SetAggregation.ForEach(log.FileLocation(self.filename, p.lineno), boundvar, p[4], p[7])

@_("KW_FORSOME LPAREN SYMBOL COLON expr RPAREN LPAREN expr RPAREN")
def expr(self, p):
    boundvar = cpt.Variable(log.FileLocation(self.filename, p.lineno), p[2])
    return cpt.SetAggregation.ForSome(log.FileLocation(self.filename, p.lineno), boundvar, p[4], p[7])

@_("SYMBOL LPAREN expr expr_list RPAREN")
def expr(self, p):
    p[3].insert(0, p[2])
    return cpt.FunctionCall(log.FileLocation(self.filename, p.lineno), p[0], p[3])

@_("SYMBOL LPAREN RPAREN")
def expr(self, p):
    return cpt.FunctionCall(log.FileLocation(self.filename, p.lineno), p[0], [])

@_("expr DOT SYMBOL")
def expr(self, p):
    return cpt.StructAccess(log.FileLocation(self.filename, p.lineno), p[0], p[2])

@_("expr LBRACK NUMERAL RBRACK")
def expr(self, p):
    return cpt.ArrayIndex(log.FileLocation(self.filename, p.lineno), p[0], int(p[2]))

@_("expr LBRACK NUMERAL DDOT NUMERAL RBRACK")
def expr(self, p):
    return cpt.ArraySlice(log.FileLocation(self.filename, p.lineno), p[0], int(p[2]), int(p[4]))

@_("LOG_NEG expr")
def expr(self, p):
    return cpt.Operator.LogicalNegate(log.FileLocation(self.filename, p.lineno), p[1])

@_("BW_NEG expr")
def expr(self, p):
    return cpt.Operator.BitwiseNegate(log.FileLocation(self.filename, p.lineno), p[1])

@_("ARITH_SUB expr %prec UNARY_ARITH_SUB")
def expr(self, p):
    return cpt.Operator.ArithmeticNegate(log.FileLocation(self.filename, p.lineno), p[1])

@_("ARITH_SQRT expr")
def expr(self, p):
    return cpt.Operator.ArithmeticSqrt(log.FileLocation(self.filename, p.lineno), p[1])

@_("ARITH_ABS expr")
def expr(self, p):
    return cpt.Operator.ArithmeticAbs(log.FileLocation(self.filename, p.lineno), p[1])

@_("PREV LPAREN expr COMMA expr RPAREN")
def expr(self, p):
    return cpt.Operator.PreviousFunction(log.FileLocation(self.filename, p.lineno), p[2], p[4])

@_("expr LOG_XOR expr")
def expr(self, p):
    return cpt.Operator.LogicalXor(log.FileLocation(self.filename, p.lineno), [p[0], p[2]])

@_("expr LOG_IMPL expr")
def expr(self, p):
    return cpt.Operator.LogicalImplies(log.FileLocation(self.filename, p.lineno), p[0], p[2])

@_("expr LOG_IFF expr")
def expr(self, p):
    return cpt.Operator.LogicalIff(log.FileLocation(self.filename, p.lineno), p[0], p[2])

@_("expr LOG_OR expr")
def expr(self, p):
    return cpt.Operator.LogicalOr(log.FileLocation(self.filename, p.lineno), [p[0], p[2]])

@_("expr LOG_AND expr")
def expr(self, p):
    return cpt.Operator.LogicalAnd(log.FileLocation(self.filename, p.lineno), [p[0], p[2]])

@_("expr BW_OR expr")
def expr(self, p):
    return cpt.Operator.BitwiseOr(log.FileLocation(self.filename, p.lineno), p[0], p[2])

@_("expr BW_XOR expr")
def expr(self, p):
    return cpt.Operator.BitwiseXor(log.FileLocation(self.filename, p.lineno), p[0], p[2])

@_("expr BW_AND expr")
def expr(self, p):
    return cpt.Operator.BitwiseAnd(log.FileLocation(self.filename, p.lineno), p[0], p[2])

@_("expr REL_EQ expr")
def expr(self, p):
    return cpt.Operator.Equal(log.FileLocation(self.filename, p.lineno), p[0], p[2])

@_("expr REL_NEQ expr")
def expr(self, p):
    return cpt.Operator.NotEqual(log.FileLocation(self.filename, p.lineno), p[0], p[2])

@_("expr REL_GT expr")
def expr(self, p):
    return cpt.Operator.GreaterThan(log.FileLocation(self.filename, p.lineno), p[0], p[2])

@_("expr REL_LT expr")
def expr(self, p):
    return cpt.Operator.LessThan(log.FileLocation(self.filename, p.lineno), p[0], p[2])

@_("expr REL_GTE expr")
def expr(self, p):
    return cpt.Operator.GreaterThanOrEqual(log.FileLocation(self.filename, p.lineno), p[0], p[2])

@_("expr REL_LTE expr")
def expr(self, p):
    return cpt.Operator.LessThanOrEqual(log.FileLocation(self.filename, p.lineno), p[0], p[2])

@_("expr BW_SHIFT_LEFT expr")
def expr(self, p):
    return cpt.Operator.ShiftLeft(log.FileLocation(self.filename, p.lineno), p[0], p[2])

@_("expr BW_SHIFT_RIGHT expr")
def expr(self, p):
    return cpt.Operator.ShiftRight(log.FileLocation(self.filename, p.lineno), p[0], p[2])

@_("expr ARITH_ADD expr")
def expr(self, p):
    return cpt.Operator.ArithmeticAdd(log.FileLocation(self.filename, p.lineno), [p[0], p[2]])

@_("expr ARITH_SUB expr")
def expr(self, p):
    return cpt.Operator.ArithmeticSubtract(log.FileLocation(self.filename, p.lineno), p[0], p[2])

@_("expr ARITH_MUL expr")
def expr(self, p):
    return cpt.Operator.ArithmeticMultiply(log.FileLocation(self.filename, p.lineno), [p[0], p[2]])

@_("expr ARITH_DIV expr")
def expr(self, p):
    return cpt.Operator.ArithmeticDivide(log.FileLocation(self.filename, p.lineno), p[0], p[2])

@_("expr ARITH_MOD expr")
def expr(self, p):
    return cpt.Operator.ArithmeticModulo(log.FileLocation(self.filename, p.lineno), p[0], p[2])

@_("expr ARITH_POW expr")
def expr(self, p):
    return cpt.Operator.ArithmeticPower(log.FileLocation(self.filename, p.lineno), p[0], p[2])

@_("TL_GLOBAL interval expr")
def expr(self, p):
    return cpt.TemporalOperator.Global(log.FileLocation(self.filename, p.lineno), p[1].lb, p[1].ub, p[2])

@_("TL_FUTURE interval expr")
def expr(self, p):
    return cpt.TemporalOperator.Future(log.FileLocation(self.filename, p.lineno), p[1].lb, p[1].ub, p[2])

@_("TL_HIST interval expr")
def expr(self, p):
    return cpt.TemporalOperator.Historical(log.FileLocation(self.filename, p.lineno), p[1].lb, p[1].ub, p[2])

@_("TL_ONCE interval expr")
def expr(self, p):
    return cpt.TemporalOperator.Once(log.FileLocation(self.filename, p.lineno), p[1].lb, p[1].ub, p[2])

@_("expr TL_UNTIL interval expr")
def expr(self, p):
    return cpt.TemporalOperator.Until(log.FileLocation(self.filename, p.lineno), p[2].lb, p[2].ub, p[0], p[3])

@_("expr TL_RELEASE interval expr")
def expr(self, p):
    return cpt.TemporalOperator.Release(log.FileLocation(self.filename, p.lineno), p[2].lb, p[2].ub, p[0], p[3])

@_("expr TL_SINCE interval expr")
def expr(self, p):
    return cpt.TemporalOperator.Since(log.FileLocation(self.filename, p.lineno), p[2].lb, p[2].ub, p[0], p[3])

@_("expr TL_TRIGGER interval expr")
def expr(self, p):
    return cpt.TemporalOperator.Trigger(log.FileLocation(self.filename, p.lineno), p[2].lb, p[2].ub, p[0], p[3])

@_("LPAREN expr RPAREN")
def expr(self, p):
    return p[1]

@_("TL_TRUE")
def expr(self, p):
    return cpt.Constant(log.FileLocation(self.filename, p.lineno), True)

@_("TL_FALSE")
def expr(self, p):
    return cpt.Constant(log.FileLocation(self.filename, p.lineno), False)

@_("SYMBOL")
def expr(self, p):
    if p[0] in self.literals:
        if self.literals[p[0]] is cpt.Signal:
            return cpt.Signal(log.FileLocation(self.filename, p.lineno), p[0], types.NoType())
    return cpt.Variable(log.FileLocation(self.filename, p.lineno), p[0])

@_("KW_TIMESTAMP")
def expr(self, p):
    return cpt.CurrentTimestamp(log.FileLocation(self.filename, p.lineno))

@_("NUMERAL")
def expr(self, p):
    return cpt.Constant(log.FileLocation(self.filename, p.lineno), int(p[0]))

@_("DECIMAL")
def expr(self, p):
    return cpt.Constant(log.FileLocation(self.filename, p.lineno), float(p[0]))

@_("LBRACK bound RBRACK")
def interval(self, p):
    return cpt.ConcreteInterval(0, p[1])

@_("LBRACK bound COMMA bound RBRACK")
def interval(self, p):
    return cpt.ConcreteInterval(p[1], p[3])

@_("NUMERAL")
def bound(self, p):
    num = int(p[0])
    if int(p[0]) < 0:
        log.error(f"interval bounds must be greater than zero (found '{num}')", log.FileLocation(self.filename, p.lineno))
        self.status = False
    return num

@_("TL_MISSION_TIME")
def bound(self, p):
    if self.mission_time < 0:
        log.error(f"mission time used but not set. Set using the 'set_mission_time' command or the '--mission-time' option.", log.FileLocation(self.filename, p.lineno))
        self.status = False
    return self.mission_time

def parse_c2po(context, options):
    contents = util.read_file(options["filename"])
    if contents is None:
        return None
    context.clear()
    context.set_spec_filename(options["filename"])
    given = options["mission_time"]
    lexer = C2POLexer(options["filename"])
    parser = C2POParser(options["filename"], given if given > -1 else context.mission_time)
    sections = parser.parse(lexer.tokenize(contents))
    if lexer.status and parser.status:
        return cpt.Program(0, sections)
    return None

def lexer_error(self, t):
    self.status = False
    log.error("illegal character")
    self.index += 1

def parser_error(self, token):
    self.status = False
    log.error("syntax error")

def C2POLexer_init(self, filename):
    self.status = True

def C2POParser_init(self, filename, mission_time):
    self.mission_time = mission_time
    self.spec_num = 0
    self.literals = {}
    self.status = True
