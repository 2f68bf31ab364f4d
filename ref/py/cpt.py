"""Specification of the expression trees: what each constructor builds, and how trees are rewired, visited and copied."""
from c2po import cpt, log, stats, types

K = cpt.OperatorKind
E = types.R2U2Engine
LOGICAL = (K.LOGICAL_AND, K.LOGICAL_OR, K.LOGICAL_XOR, K.LOGICAL_IMPLIES, K.LOGICAL_EQUIV, K.LOGICAL_NEGATE)
FUTURE = (K.GLOBAL, K.FUTURE, K.UNTIL, K.RELEASE)
PAST = (K.HISTORICAL, K.ONCE, K.SINCE, K.TRIGGER)


def base(self, loc, children, type=types.NoType(), set_parents=True):
    self.loc = loc
    self.symbol = ""
    self.engine = E.NONE
    self.scq_size = -1
    self.scq = (-1, -1)
    self.bpd = 0
    self.wpd = 0
    self.type = type
    self.parents = set()
    self.children = [c for c in children]
    if set_parents:
        for c in children:
            c.parents.add(self)
    self.replacement = None


def Expression___init__(self, loc, children, type=types.NoType(), set_parents=True):
    base(self, loc, children, type, set_parents)


def Constant___init__(self, loc, value):
    base(self, loc, [])
    self.value = value
    self.symbol = str(value)
    if isinstance(value, bool):
        self.type = types.BoolType(True)
    elif isinstance(value, int):
        self.type = types.IntType(True)
    elif isinstance(value, float):
        self.type = types.FloatType(True)
    else:
        raise ValueError(f"Bad value ({value})")
    self.engine = E.TEMPORAL_LOGIC if isinstance(value, bool) else E.BOOLEANIZER


def Signal___init__(self, loc, s, t):
    base(self, loc, [], t)
    self.symbol = s
    self.signal_id = -1


def Variable___init__(self, loc, s):
    base(self, loc, [])
    self.symbol = s


def ArrayExpression___init__(self, loc, members):
    base(self, loc, members)
    self.max_size = len(members)


def ArraySlice___init__(self, loc, array, start, stop):
    base(self, loc, [array])
    self.symbol = "[]"
    self.start = start
    self.stop = stop


def ArrayIndex___init__(self, loc, array, index):
    base(self, loc, [array])
    self.symbol = "[]"
    self.index = index


def Struct___init__(self, loc, s, m, c):
    base(self, loc, c)
    self.symbol = s
    self.members = m


def StructAccess___init__(self, loc, struct, member):
    base(self, loc, [struct])
    self.symbol = "."
    self.member = member


def FunctionCall___init__(self, loc, s, operands):
    base(self, loc, operands)
    self.symbol = s


def Bind___init__(self, loc, var, set):
    base(self, loc, [])
    self.bound_var = var
    self.set_expr = set


def SetAggregation___init__(self, loc, operator, var, set, num, expr):
    bind = cpt.Bind(loc, var, set)
    if num:
        base(self, loc, [set, num, bind, expr])
    else:
        base(self, loc, [set, bind, expr])
    self.symbol = operator.value
    self.operator = operator
    self.bound_var = var
    self.type = types.BoolType()


def operator(self, loc, op_kind, children, type=types.NoType(), set_parents=True):
    base(self, loc, children, type, set_parents)
    self.operator = op_kind
    self.symbol = op_kind.value
    self.engine = E.TEMPORAL_LOGIC if op_kind in LOGICAL + FUTURE + PAST else E.BOOLEANIZER
    self.bpd = min([c.bpd for c in children])
    self.wpd = max([c.wpd for c in children])


def Operator___init__(self, loc, op_kind, children, type=types.NoType(), set_parents=True):
    operator(self, loc, op_kind, children, type, set_parents)


def temporal(self, loc, kind, lb, ub, children):
    operator(self, loc, kind, children)
    self.symbol = f"{kind.value}[{lb},{ub}]"


def TemporalOperator___init__(self, loc, operator, lb, ub, children):
    temporal(self, loc, operator, lb, ub, children)
    self.interval = cpt.ConcreteInterval(lb, ub)
    self.bpd = min([c.bpd for c in children]) + lb
    self.wpd = max([c.wpd for c in children]) + ub


def SymbolicTemporalOperator___init__(self, loc, operator, lb, ub, children):
    temporal(self, loc, operator, lb, ub, children)
    self.interval = cpt.SymbolicInterval(lb, ub)


def Atomic___init__(self, loc, child):
    base(self, loc, [child], types.BoolType())
    self.engine = E.BOOLEANIZER


def Formula___init__(self, loc, label, fnum, expr):
    base(self, loc, [expr])
    self.symbol = label
    self.formula_number = fnum
    self.engine = E.TEMPORAL_LOGIC


def Contract___init__(self, loc, label, fnum1, fnum2, fnum3, assume, guarantee):
    base(self, loc, [assume, guarantee])
    self.symbol = label
    self.formula_numbers = (fnum1, fnum2, fnum3)


def typed(node, type):
    node.type = type
    return node


def Operator_BitwiseAnd(loc, lhs, rhs):
    return typed(cpt.Operator(loc, K.BITWISE_AND, [lhs, rhs]), types.IntType())


def Operator_BitwiseOr(loc, lhs, rhs):
    return typed(cpt.Operator(loc, K.BITWISE_OR, [lhs, rhs]), types.IntType())


def Operator_BitwiseXor(loc, lhs, rhs):
    return typed(cpt.Operator(loc, K.BITWISE_XOR, [lhs, rhs]), types.IntType())


def Operator_ShiftLeft(loc, lhs, rhs):
    return typed(cpt.Operator(loc, K.SHIFT_LEFT, [lhs, rhs]), types.IntType())


def Operator_ShiftRight(loc, lhs, rhs):
    return typed(cpt.Operator(loc, K.SHIFT_RIGHT, [lhs, rhs]), types.IntType())


def Operator_BitwiseNegate(loc, operand):
    return typed(cpt.Operator(loc, K.BITWISE_NEGATE, [operand]), types.IntType())


def Operator_Min(loc, operands):
    return typed(cpt.Operator(loc, K.MIN, operands), types.IntType())


def Operator_Max(loc, operands):
    return typed(cpt.Operator(loc, K.MAX, operands), types.IntType())


def Operator_Count(loc, num, children, type=types.NoType()):
    return typed(cpt.Operator(loc, K.COUNT, [num] + children, type), types.IntType())


def Operator_ArithmeticAdd(loc, operands, type=types.NoType()):
    return cpt.Operator(loc, K.ARITHMETIC_ADD, operands, type)


def Operator_ArithmeticMultiply(loc, operands, type=types.NoType()):
    return cpt.Operator(loc, K.ARITHMETIC_MULTIPLY, operands, type)


def Operator_ArithmeticSubtract(loc, lhs, rhs, type=types.NoType()):
    return cpt.Operator(loc, K.ARITHMETIC_SUBTRACT, [lhs, rhs], type)


def Operator_ArithmeticDivide(loc, lhs, rhs, type=types.NoType()):
    return cpt.Operator(loc, K.ARITHMETIC_DIVIDE, [lhs, rhs], type)


def Operator_ArithmeticPower(loc, lhs, rhs, type=types.NoType()):
    return cpt.Operator(loc, K.ARITHMETIC_POWER, [lhs, rhs], type)


def Operator_ArithmeticModulo(loc, lhs, rhs, type=types.NoType()):
    return typed(cpt.Operator(loc, K.ARITHMETIC_MODULO, [lhs, rhs], type), types.IntType())


def Operator_ArithmeticSqrt(loc, operand):
    return cpt.Operator(loc, K.ARITHMETIC_SQRT, [operand])


def Operator_ArithmeticAbs(loc, operand):
    return cpt.Operator(loc, K.ARITHMETIC_ABS, [operand])


def Operator_ArithmeticNegate(loc, operand):
    return cpt.Operator(loc, K.ARITHMETIC_NEGATE, [operand])


def Operator_PreviousFunction(loc, initial, operand):
    return cpt.Operator(loc, K.PREVIOUS, [initial, operand])


def Operator_Equal(loc, lhs, rhs):
    return typed(cpt.Operator(loc, K.EQUAL, [lhs, rhs]), types.BoolType())


def Operator_NotEqual(loc, lhs, rhs):
    return typed(cpt.Operator(loc, K.NOT_EQUAL, [lhs, rhs]), types.BoolType())


def Operator_GreaterThan(loc, lhs, rhs):
    return typed(cpt.Operator(loc, K.GREATER_THAN, [lhs, rhs]), types.BoolType())


def Operator_LessThan(loc, lhs, rhs):
    return typed(cpt.Operator(loc, K.LESS_THAN, [lhs, rhs]), types.BoolType())


def Operator_GreaterThanOrEqual(loc, lhs, rhs):
    return typed(cpt.Operator(loc, K.GREATER_THAN_OR_EQUAL, [lhs, rhs]), types.BoolType())


def Operator_LessThanOrEqual(loc, lhs, rhs):
    return typed(cpt.Operator(loc, K.LESS_THAN_OR_EQUAL, [lhs, rhs]), types.BoolType())


def Operator_LogicalImplies(loc, lhs, rhs):
    return typed(cpt.Operator(loc, K.LOGICAL_IMPLIES, [lhs, rhs]), types.BoolType())


def Operator_LogicalOr(loc, operands):
    return typed(cpt.Operator(loc, K.LOGICAL_OR, operands), types.BoolType())


def Operator_LogicalXor(loc, operands):
    return typed(cpt.Operator(loc, K.LOGICAL_XOR, operands), types.BoolType())


def Operator_LogicalAnd(loc, operands, set_parents=True):
    return typed(cpt.Operator(loc, K.LOGICAL_AND, operands, set_parents=set_parents), types.BoolType())


def Operator_LogicalNegate(loc, operand, set_parents=True):
    return typed(cpt.Operator(loc, K.LOGICAL_NEGATE, [operand], set_parents=set_parents), types.BoolType())


def Operator_LogicalIff(loc, lhs, rhs, set_parents=True):
    return typed(cpt.Operator(loc, K.LOGICAL_EQUIV, [lhs, rhs], set_parents=set_parents), types.BoolType())


def TemporalOperator_Global(loc, lb, ub, operand):
    return typed(cpt.TemporalOperator(loc, K.GLOBAL, lb, ub, [operand]), types.BoolType())


def TemporalOperator_Future(loc, lb, ub, operand):
    return typed(cpt.TemporalOperator(loc, K.FUTURE, lb, ub, [operand]), types.BoolType())


def TemporalOperator_Until(loc, lb, ub, lhs, rhs):
    return typed(cpt.TemporalOperator(loc, K.UNTIL, lb, ub, [lhs, rhs]), types.BoolType())


def TemporalOperator_Release(loc, lb, ub, lhs, rhs):
    return typed(cpt.TemporalOperator(loc, K.RELEASE, lb, ub, [lhs, rhs]), types.BoolType())


def SymbolicTemporalOperator_Global(loc, lb, ub, operand):
    return typed(cpt.SymbolicTemporalOperator(loc, K.GLOBAL, lb, ub, [operand]), types.BoolType())


def SymbolicTemporalOperator_Future(loc, lb, ub, operand):
    return typed(cpt.SymbolicTemporalOperator(loc, K.FUTURE, lb, ub, [operand]), types.BoolType())


def SymbolicTemporalOperator_Until(loc, lb, ub, lhs, rhs):
    return typed(cpt.SymbolicTemporalOperator(loc, K.UNTIL, lb, ub, [lhs, rhs]), types.BoolType())


def SymbolicTemporalOperator_Release(loc, lb, ub, lhs, rhs):
    return typed(cpt.SymbolicTemporalOperator(loc, K.RELEASE, lb, ub, [lhs, rhs]), types.BoolType())


def SymbolicTemporalOperator_Historical(loc, lb, ub, operand):
    return typed(cpt.SymbolicTemporalOperator(loc, K.HISTORICAL, lb, ub, [operand]), types.BoolType())


def TemporalOperator_Historical(loc, lb, ub, operand):
    new = typed(cpt.TemporalOperator(loc, K.HISTORICAL, lb, ub, [operand]), types.BoolType())
    new.bpd = operand.bpd - ub
    new.wpd = operand.bpd - lb
    return new


def SymbolicTemporalOperator_Once(loc, lb, ub, operand):
    return typed(cpt.SymbolicTemporalOperator(loc, K.ONCE, lb, ub, [operand]), types.BoolType())


def TemporalOperator_Once(loc, lb, ub, operand):
    new = typed(cpt.TemporalOperator(loc, K.ONCE, lb, ub, [operand]), types.BoolType())
    new.bpd = operand.bpd - ub
    new.wpd = operand.bpd - lb
    return new


def SymbolicTemporalOperator_Since(loc, lb, ub, lhs, rhs):
    return typed(cpt.SymbolicTemporalOperator(loc, K.SINCE, lb, ub, [lhs, rhs]), types.BoolType())


def TemporalOperator_Since(loc, lb, ub, lhs, rhs):
    new = typed(cpt.TemporalOperator(loc, K.SINCE, lb, ub, [lhs, rhs]), types.BoolType())
    new.bpd = min(lhs.bpd, rhs.bpd) - lb
    new.wpd = max(lhs.wpd, rhs.wpd) - lb
    return new


def SymbolicTemporalOperator_Trigger(loc, lb, ub, lhs, rhs):
    return typed(cpt.SymbolicTemporalOperator(loc, K.TRIGGER, lb, ub, [lhs, rhs]), types.BoolType())


def TemporalOperator_Trigger(loc, lb, ub, lhs, rhs):
    new = typed(cpt.TemporalOperator(loc, K.TRIGGER, lb, ub, [lhs, rhs]), types.BoolType())
    new.bpd = min(lhs.bpd, rhs.bpd) - lb
    new.wpd = max(lhs.wpd, rhs.wpd) - lb
    return new


def SetAggregation_ForEach(loc, var, set, expr):
    return cpt.SetAggregation(loc, cpt.SetAggregationKind.FOR_EACH, var, set, None, expr)


def SetAggregation_ForSome(loc, var, set, expr):
    return cpt.SetAggregation(loc, cpt.SetAggregationKind.FOR_SOME, var, set, None, expr)


def SetAggregation_ForExactly(loc, var, set, num, expr):
    return cpt.SetAggregation(loc, cpt.SetAggregationKind.FOR_EXACTLY, var, set, num, expr)


def SetAggregation_ForAtMost(loc, var, set, num, expr):
    return cpt.SetAggregation(loc, cpt.SetAggregationKind.FOR_AT_MOST, var, set, num, expr)


def SetAggregation_ForAtLeast(loc, var, set, num, expr):
    return cpt.SetAggregation(loc, cpt.SetAggregationKind.FOR_AT_LEAST, var, set, num, expr)


def SetAggregation_get_num(self):
    return self.children[1] if len(self.children) >= 4 else None


def SetAggregation_get_set(self):
    return self.children[0]


def SetAggregation_get_expr(self):
    return self.children[-1]


def Contract_get_assumption(self):
    return self.children[0]


def Contract_get_guarantee(self):
    return self.children[1]


def Formula_get_expr(self):
    return self.children[0]


def Atomic_get_expr(self):
    return self.children[0]


def Bind_get_bound_var(self):
    return self.bound_var


def Bind_get_set(self):
    return self.set_expr


def kind_in(expr, kinds):
    return isinstance(expr, cpt.Operator) and expr.operator in kinds


def is_operator(expr, operator):
    return isinstance(expr, cpt.Operator) and expr.operator is operator


def is_commutative_operator(expr):
    return kind_in(expr, (K.LOGICAL_AND, K.LOGICAL_OR, K.LOGICAL_XOR, K.LOGICAL_EQUIV, K.BITWISE_AND, K.BITWISE_OR, K.BITWISE_XOR,
                          K.ARITHMETIC_ADD, K.ARITHMETIC_MULTIPLY, K.EQUAL, K.NOT_EQUAL))


def is_multi_arity_operator(expr):
    return kind_in(expr, (K.LOGICAL_AND, K.LOGICAL_OR, K.ARITHMETIC_ADD, K.ARITHMETIC_MULTIPLY))


def is_bitwise_operator(expr):
    return kind_in(expr, (K.BITWISE_AND, K.BITWISE_OR, K.BITWISE_XOR, K.BITWISE_NEGATE))


def is_arithmetic_operator(expr):
    return kind_in(expr, (K.ARITHMETIC_ADD, K.ARITHMETIC_SUBTRACT, K.ARITHMETIC_MULTIPLY, K.ARITHMETIC_DIVIDE, K.ARITHMETIC_MODULO,
                          K.ARITHMETIC_NEGATE, K.ARITHMETIC_POWER, K.ARITHMETIC_SQRT, K.ARITHMETIC_ABS))


def is_relational_operator(expr):
    return kind_in(expr, (K.EQUAL, K.NOT_EQUAL, K.LESS_THAN, K.LESS_THAN_OR_EQUAL, K.GREATER_THAN, K.GREATER_THAN_OR_EQUAL))


def is_logical_operator(expr):
    return kind_in(expr, LOGICAL)


def is_future_time_operator(expr):
    return kind_in(expr, FUTURE)


def is_past_time_operator(expr):
    return kind_in(expr, PAST)


def is_temporal_operator(expr):
    return kind_in(expr, FUTURE + PAST)


def is_prev_operator(expr):
    return kind_in(expr, (K.PREVIOUS,))


def is_min_max_operator(expr):
    return kind_in(expr, (K.MIN, K.MAX))


# ------------------------------------------------------------------------------ rewiring and visiting
def Expression_replace(self, new):
    if self is new:
        return
    for parent in self.parents:
        for i in range(len(parent.children)):
            if parent.children[i] is self:
                parent.children[i] = new
        new.parents.add(parent)
    for child in self.children:
        if self in child.parents:
            child.parents.remove(self)
    self.replacement = new
    new.type = self.type


def Expression_get_siblings(self):
    found = set()
    for parent in self.parents:
        for other in parent.children:
            if not other == self:
                found.add(other)
    return found


def Expression_has_only_tl_parents(self):
    for p in self.parents:
        if p.engine != E.TEMPORAL_LOGIC:
            return False
    return True


def Expression_copy_attrs(self, new):
    new.symbol = self.symbol
    new.type = self.type
    new.engine = self.engine
    new.bpd = self.bpd
    new.wpd = self.wpd
    new.scq = self.scq
    new.scq_size = self.scq_size


# ------------------------------------------------------------------------------ further nodes
def Node___init__(self, loc):
    self.loc = loc
    self.symbol = ""


def Match___init__(self, loc, name, match_function):
    base(self, loc, [])
    self.match_function = match_function
    self.symbol = name


def Match_matches(self, arg):
    return self.match_function(arg)


def MissionTime___init__(self, loc):
    base(self, loc, [])
    self.symbol = "M"
    self.type = types.IntType(True)


def Variable___eq__(self, other):
    return isinstance(other, cpt.Variable) and self.symbol == other.symbol


def SymbolicIntervalVariable___init__(self, loc, s):
    base(self, loc, [])
    self.symbol = s
    self.type = types.IntType(True)


def SymbolicIntervalVariable___eq__(self, other):
    return isinstance(other, cpt.SymbolicIntervalVariable) and self.symbol == other.symbol


def SymbolicIntervalVariable___hash__(self):
    return hash(self.symbol)


def ArraySlice_get_array(self):
    return self.children[0]


def ArraySlice_get_indices(self):
    return (self.start, self.stop)


def ArrayIndex_get_array(self):
    return self.children[0]


def ArrayIndex_get_index(self):
    return self.index


def StructAccess_get_struct(self):
    return self.children[0]


def Struct_get_member(self, name):
    if name in self.members:
        return self.children[self.members[name]]
    return None


def ConcreteInterval___eq__(self, other):
    return isinstance(other, cpt.ConcreteInterval) and self.lb == other.lb and self.ub == other.ub


def SymbolicInterval___eq__(self, other):
    return isinstance(other, cpt.SymbolicInterval) and str(self.lb) == str(other.lb) and str(self.ub) == str(other.ub)


def Contract___eq__(self, other):
    return isinstance(other, cpt.Contract) and self.symbol == other.symbol


def Contract___hash__(self):
    return hash(self.symbol)


def SpecificationSet___init__(self, loc, specs):
    base(self, loc, specs)


def SpecificationSet_get_specs(self):
    return self.children


def StructDefinition___init__(self, loc, symbol, var_decls):
    self.loc = loc
    self.symbol = symbol
    self.var_decls = var_decls
    self.members = {}
    for d in var_decls:
        for name in d.variables:
            self.members[name] = d.type


def EnumDefinition___init__(self, loc, symbol, var_defs):
    self.loc = loc
    self.symbol = symbol
    self.var_defs = var_defs
    self.members = {}
    for d in var_defs:
        self.members[d.symbol] = d.expr


def VariableDeclaration___init__(self, loc, vars, t):
    self.loc = loc
    self.symbol = ""
    self.variables = vars
    self.type = t


def Definition___init__(self, loc, symbol, expr):
    self.loc = loc
    self.symbol = symbol
    self.expr = expr


def StructSection___init__(self, loc, struct_defs):
    self.loc = loc
    self.symbol = ""
    self.struct_defs = struct_defs


def EnumSection___init__(self, loc, enum_defs):
    self.loc = loc
    self.symbol = ""
    self.enum_defs = enum_defs


def InputSection___init__(self, loc, signal_decls):
    self.loc = loc
    self.symbol = ""
    self.signal_decls = signal_decls


def DefineSection___init__(self, loc, defines):
    self.loc = loc
    self.symbol = ""
    self.defines = defines


def FutureTimeSpecSection___init__(self, loc, specs):
    self.loc = loc
    self.symbol = ""
    self.specs = specs


def PastTimeSpecSection___init__(self, loc, specs):
    self.loc = loc
    self.symbol = ""
    self.specs = specs


# ------------------------------------------------------------------------------ whole programs
def Program___init__(self, loc, sections):
    self.loc = loc
    self.symbol = ""
    self.sections = sections
    future, past, definitions = [], [], []
    for s in sections:
        if isinstance(s, cpt.FutureTimeSpecSection):
            future += s.specs
        elif isinstance(s, cpt.PastTimeSpecSection):
            past += s.specs
        elif isinstance(s, cpt.DefineSection):
            definitions += s.defines
    self.ft_spec_set = cpt.SpecificationSet(loc, future)
    self.pt_spec_set = cpt.SpecificationSet(loc, past)
    self.definitions = definitions
    self.total_scq_size = -1
    self.is_dummy = False
    self.is_well_typed = False


def Program_get_num_signals(self, context):
    n = 0
    for e in self.postorder(context):
        if isinstance(e, cpt.Signal):
            n += 1
    return n


def Program_get_num_temporal_operators(self, context):
    n = []
    for e in self.postorder(context):
        if isinstance(e, cpt.TemporalOperator):
            n.append(e)
    return len(n)


def Program_get_specs(self):
    return self.ft_spec_set.children + self.pt_spec_set.children


def Program_get_max_wpd(self):
    return max([s.children[0].wpd for s in self.ft_spec_set.children + self.pt_spec_set.children if isinstance(s, cpt.Formula)])


def Program_get_spec(self, symbol):
    for s in self.ft_spec_set.children:
        if s.symbol == symbol:
            return s
    for s in self.pt_spec_set.children:
        if s.symbol == symbol:
            return s
    return None


def assign_signal_ids(program, context, signal_mapping):
    missing = []
    for e in program.postorder_with_definitions(context):
        if isinstance(e, cpt.Signal):
            if e.symbol in signal_mapping:
                e.signal_id = signal_mapping[e.symbol]
            else:
                missing.append(e.symbol)
    return missing


# ------------------------------------------------------------------------------ the context
def Context_set_mission_time(self, mission_time):
    self.mission_time = mission_time


def Context_set_spec_filename(self, filename):
    self.spec_filename = filename
    self.stats.set_spec_filename(filename)


def Context_get_symbols(self):
    names = []
    for table in (self.definitions, self.structs, self.enums, self.signals, self.variables, self.specifications, self.contracts, self.bound_vars):
        for k in table.keys():
            names.append(k)
    return names


def Context_is_future_time(self):
    return self.is_ft


def Context_is_past_time(self):
    return not self.is_ft


def Context_set_future_time(self):
    self.is_ft = True


def Context_set_past_time(self):
    self.is_ft = False


def Context_add_signal(self, symbol, t):
    self.signals[symbol] = t


def Context_add_variable(self, symbol, t):
    self.variables[symbol] = t


def Context_add_definition(self, symbol, e):
    self.definitions[symbol] = e


def Context_add_struct(self, symbol, m):
    self.structs[symbol] = m


def Context_add_enum(self, symbol, m):
    self.enums[symbol] = m


def Context_add_formula(self, symbol, s):
    self.specifications[symbol] = s


def Context_add_contract(self, symbol, c):
    self.contracts[symbol] = c


def Context___init__(self):
    self.definitions = {}
    self.structs = {}
    self.enums = {}
    self.signals = {}
    self.variables = {}
    self.specifications = {}
    self.contracts = {}
    self.atomic_id_map = {}
    self.atomic_expr_map = {}
    self.bound_vars = {}
    self.signal_mapping = {}
    self.trace = []
    self.assembly = []
    self.binary = bytes()
    self.r2u2_output = ""
    self.bounds = []
    self.constraints = []
    self.stats = stats.Stats()
    self.is_ft = False
    self.has_future_time = False
    self.has_past_time = False
    self.status = True
    self.trace_length = -1
    self.mission_time = -1
    self.enable_booleanizer = False
    self.script_filename = ""
    self.spec_filename = ""
    self.trace_filename = ""
    self.map_filename = ""
    self.egglog_path = None
    self.smt_solver_path = None
    self.r2u2_c_path = None
    self.r2u2_bin_path = None


def Context_clear(self):
    """Everything that belongs to the program read before goes; the signal mapping, the trace and the options stay."""
    for table in (self.definitions, self.structs, self.enums, self.signals, self.variables, self.specifications, self.contracts,
                  self.atomic_id_map, self.atomic_expr_map, self.bound_vars, self.assembly, self.bounds, self.constraints):
        table.clear()
    self.binary = bytes()
    self.stats = stats.Stats()
    self.trace_length = -1
    self.is_ft = False
    self.has_future_time = False
    self.has_past_time = False
    self.status = True
    self.spec_filename = ""


def Program_postorder(self, context):
    for e in cpt.postorder(self.ft_spec_set, context):
        yield e
    for e in cpt.postorder(self.pt_spec_set, context):
        yield e


def Program_preorder(self, context):
    for e in cpt.preorder(self.ft_spec_set, context):
        yield e
    for e in cpt.preorder(self.pt_spec_set, context):
        yield e


def Program_postorder_with_definitions(self, context):
    for d in self.definitions:
        for e in cpt.postorder(d.expr, context):
            yield e
    for e in self.postorder(context):
        yield e
    for e in self.preorder(context):
        yield e


def rename(target, repl, expr, context):
    if expr == target:
        return repl
    new = expr.deepcopy(context)
    for node in cpt.postorder(new, context):
        if node == target:
            node.replace(repl)
    return new
