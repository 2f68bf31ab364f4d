"""What each production of the MLTL grammar builds.  `loc` stands for the place in the file; p holds the matched parts."""
from c2po import cpt, log, types, util

from c2po.parse_mltl import MLTLLexer, MLTLParser

@_("spec_list")
def program(self, p):
    declaration = [cpt.VariableDeclaration(0, list(self.atomics), types.BoolType())]
    input_section = cpt.InputSection(0, declaration)
    if self.is_pt:
        spec_section = cpt.PastTimeSpecSection(0, p[0])
    else:
        spec_section = cpt.FutureTimeSpecSection(0, p[0])
    signal_mapping = {a: int(a[1:]) for a in self.atomics}
    return (cpt.Program(0, [input_section, spec_section]), signal_mapping)

@_("spec_list spec")
def spec_list(self, p):
    return p[0] + [p[1]]

@_("")
def spec_list(self, p):
    return []

@_("expr NEWLINE")
def spec(self, p):
    self.spec_num += 1
    return cpt.Formula(log.FileLocation(self.filename, p.lineno), self.fresh_label(), self.spec_num - 1, p[0])

@_("LOG_NEG expr")
def expr(self, p):
    return cpt.Operator.LogicalNegate(log.FileLocation(self.filename, p.lineno), p[1])

@_("expr LOG_IMPL expr")
def expr(self, p):
    return cpt.Operator.LogicalImplies(log.FileLocation(self.filename, p.lineno), p[0], p[2])

@_("expr LOG_IFF expr")
def expr(self, p):
    return cpt.Operator.LogicalIff(log.FileLocation(self.filename, p.lineno), p[0], p[2])

@_("expr LOG_OR expr")
def expr(self, p):
    return cpt.Operator.LogicalOr(log.FileLocation(self.filename, p.lineno), [p[0], p[2]])

@_("expr LOG_AND expr")
def expr(self, p):
    return cpt.Operator.LogicalAnd(log.FileLocation(self.filename, p.lineno), [p[0], p[2]])

@_("TL_GLOBAL interval expr")
def expr(self, p):
    self.is_ft = True
    if self.is_pt:
        log.error(f'Mixing past and future time formula not allowed.', log.FileLocation(self.filename, p.lineno))
        self.status = False
    return cpt.TemporalOperator.Global(log.FileLocation(self.filename, p.lineno), p[1].lb, p[1].ub, p[2])

@_("TL_FUTURE interval expr")
def expr(self, p):
    self.is_ft = True
    if self.is_pt:
        log.error(f'Mixing past and future time formula not allowed.', log.FileLocation(self.filename, p.lineno))
        self.status = False
    return cpt.TemporalOperator.Future(log.FileLocation(self.filename, p.lineno), p[1].lb, p[1].ub, p[2])

@_("TL_HIST interval expr")
def expr(self, p):
    self.is_pt = True
    if self.is_ft:
        log.error(f'Mixing past and future time formula not allowed.', log.FileLocation(self.filename, p.lineno))
        self.status = False
    return cpt.TemporalOperator.Historical(log.FileLocation(self.filename, p.lineno), p[1].lb, p[1].ub, p[2])

@_("TL_ONCE interval expr")
def expr(self, p):
    self.is_pt = True
    if self.is_ft:
        log.error(f'Mixing past and future time formula not allowed.', log.FileLocation(self.filename, p.lineno))
        self.status = False
    return cpt.TemporalOperator.Once(log.FileLocation(self.filename, p.lineno), p[1].lb, p[1].ub, p[2])

@_("expr TL_UNTIL interval expr")
def expr(self, p):
    self.is_ft = True
    if self.is_pt:
        log.error(f'Mixing past and future time formula not allowed.', log.FileLocation(self.filename, p.lineno))
        self.status = False
    return cpt.TemporalOperator.Until(log.FileLocation(self.filename, p.lineno), p[2].lb, p[2].ub, p[0], p[3])

@_("expr TL_RELEASE interval expr")
def expr(self, p):
    self.is_ft = True
    if self.is_pt:
        log.error(f'Mixing past and future time formula not allowed.', log.FileLocation(self.filename, p.lineno))
        self.status = False
    return cpt.TemporalOperator.Release(log.FileLocation(self.filename, p.lineno), p[2].lb, p[2].ub, p[0], p[3])

@_("expr TL_SINCE interval expr")
def expr(self, p):
    self.is_pt = True
    if self.is_ft:
        log.error(f'Mixing past and future time formula not allowed.', log.FileLocation(self.filename, p.lineno))
        self.status = False
    return cpt.TemporalOperator.Since(log.FileLocation(self.filename, p.lineno), p[2].lb, p[2].ub, p[0], p[3])

@_("expr TL_TRIGGER interval expr")
def expr(self, p):
    self.is_pt = True
    if self.is_ft:
        log.error(f'Mixing past and future time formula not allowed.', log.FileLocation(self.filename, p.lineno))
        self.status = False
    return cpt.TemporalOperator.Trigger(log.FileLocation(self.filename, p.lineno), p[2].lb, p[2].ub, p[0], p[3])

@_("LPAREN expr RPAREN")
def expr(self, p):
    return p[1]

@_("TL_TRUE")
def expr(self, p):
    return cpt.Constant(log.FileLocation(self.filename, p.lineno), True)

@_("TL_FALSE")
def expr(self, p):
    return cpt.Constant(log.FileLocation(self.filename, p.lineno), False)

@_("TL_ATOMIC")
def expr(self, p):
    self.atomics.add(p[0])
    signal = cpt.Signal(log.FileLocation(self.filename, p.lineno), p[0], types.NoType())
    return signal

@_("LBRACK bound RBRACK")
def interval(self, p):
    return cpt.ConcreteInterval(0, p[1])

@_("LBRACK bound COMMA bound RBRACK")
def interval(self, p):
    return cpt.ConcreteInterval(p[1], p[3])

@_("NUMERAL")
def bound(self, p):
    return int(p[0])

@_("TL_MISSION_TIME")
def bound(self, p):
    if self.mission_time < 0:
        log.error(f"Mission time used but not set. Set using the '--mission-time' option.", log.FileLocation(self.filename, p.lineno))
        self.status = False
    return self.mission_time

def parse_mltl(context, options):
    contents = util.read_file(options["filename"])
    if contents is None:
        return None
    context.clear()
    context.set_spec_filename(options["filename"])
    given = options["mission_time"]
    lexer = MLTLLexer(options["filename"])
    parser = MLTLParser(options["filename"], given if given > -1 else context.mission_time)
    output = parser.parse(lexer.tokenize(contents))
    if lexer.status and parser.status:
        program, signal_mapping = output
        context.signal_mapping = signal_mapping
        cpt.assign_signal_ids(program, context, signal_mapping)
        return program
    return None

def MLTLLexer_init(self, filename):
    self.status = True

def MLTLParser_init(self, filename, mission_time):
    self.mission_time = mission_time
    self.spec_num = 0
    self.atomics = set()
    self.is_ft = False
    self.is_pt = False
    self.status = True
