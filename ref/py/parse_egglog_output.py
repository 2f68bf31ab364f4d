"""What each production of egglog's terms builds, and how its atomics become the formula's again."""
from c2po import cpt, log, type_check, types

from c2po.parse_egglog_output import EgglogOutputLexer, EgglogOutputParser


@_("expr")
def program(self, p):
    return p[0]

@_("LPAREN OP_IMPLIES expr expr RPAREN")
def expr(self, p):
    return cpt.Operator.LogicalImplies(log.FileLocation(self.filename, p.lineno), p[2], p[3])

@_("LPAREN OP_EQUIV expr expr RPAREN")
def expr(self, p):
    return cpt.Operator.LogicalIff(log.FileLocation(self.filename, p.lineno), p[2], p[3])

@_("LPAREN OP_NOT expr RPAREN")
def expr(self, p):
    return cpt.Operator.LogicalNegate(log.FileLocation(self.filename, p.lineno), p[2])

@_("LPAREN OP_AND expr_list RPAREN")
def expr(self, p):
    return cpt.Operator.LogicalAnd(log.FileLocation(self.filename, p.lineno), p[2])

@_("LPAREN OP_OR expr_list RPAREN")
def expr(self, p):
    return cpt.Operator.LogicalOr(log.FileLocation(self.filename, p.lineno), p[2])

@_("LPAREN OP_FUTURE interval expr RPAREN")
def expr(self, p):
    return cpt.TemporalOperator.Future(log.FileLocation(self.filename, p.lineno), p[2].lb, p[2].ub, p[3])

@_("LPAREN OP_GLOBAL interval expr RPAREN")
def expr(self, p):
    return cpt.TemporalOperator.Global(log.FileLocation(self.filename, p.lineno), p[2].lb, p[2].ub, p[3])

@_("LPAREN OP_UNTIL interval expr expr RPAREN")
def expr(self, p):
    return cpt.TemporalOperator.Until(log.FileLocation(self.filename, p.lineno), p[2].lb, p[2].ub, p[3], p[4])

@_("LPAREN OP_RELEASE interval expr expr RPAREN")
def expr(self, p):
    return cpt.TemporalOperator.Release(log.FileLocation(self.filename, p.lineno), p[2].lb, p[2].ub, p[3], p[4])

@_("LPAREN KW_BOOL BOOL_TRUE RPAREN")
def expr(self, p):
    return cpt.Constant(log.FileLocation(self.filename, p.lineno), True)

@_("LPAREN KW_BOOL BOOL_FALSE RPAREN")
def expr(self, p):
    return cpt.Constant(log.FileLocation(self.filename, p.lineno), False)

@_("LPAREN KW_VAR STRING RPAREN")
def expr(self, p):
    name = p[2][1:-1]
    self.atomics.add(name)
    return cpt.Signal(log.FileLocation(self.filename, p.lineno), name, types.NoType())

@_("LPAREN KW_INTERVAL NUMERAL NUMERAL RPAREN")
def interval(self, p):
    return cpt.ConcreteInterval(int(p[2]), int(p[3]))

@_("expr_list expr")
def expr_list(self, p):
    return p[0] + [p[1]]

@_("expr")
def expr_list(self, p):
    return [p[0]]


def parse(egglog_output, context, options):
    lexer = EgglogOutputLexer("")
    parser = EgglogOutputParser("")
    output = parser.parse(lexer.tokenize(egglog_output.strip()))
    if not (lexer.status and parser.status):
        return None
    used = set()
    for expr in cpt.postorder(output, context):
        used.add(expr)
    for expr in cpt.postorder(output, context):
        if isinstance(expr, cpt.Signal):
            atomic = context.atomic_expr_map[int(expr.symbol[1:])]
            expr.replace(atomic)
            if expr is output:
                output = atomic
            else:
                dead = set()
                for parent in atomic.parents:
                    if parent not in used:
                        dead.add(parent)
                for parent in dead:
                    atomic.parents.remove(parent)
    if type_check.type_check_expr(output, context, options):
        return output
    log.error("type check failed")
    return None

def EgglogOutputLexer_init(self, filename):
    self.status = True

def EgglogOutputParser_init(self, filename):
    self.status = True
    self.atomics = set()
