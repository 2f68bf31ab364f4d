"""Specification of typing: which expressions are well typed, and the type each one gets.

One rule per kind of expression; an expression that breaks its rule is rejected with an error message."""
from c2po import cpt, types, log, command

K = cpt.OperatorKind
A = cpt.SetAggregationKind


def reject(expr):
    log.error("ill typed", expr.loc)
    return False


def is_member(t, context):
    """The name of one enumeration member: a type of its own until it is compared with an enumeration."""
    return isinstance(t, types.EnumType) and t.symbol not in context.enums


def type_check_expr(start, context, options):
    for expr in cpt.postorder(start, context):
        if not rule(expr, context, options):
            return False
    return True


def rule(expr, context, options):
    if isinstance(expr, cpt.Formula):
        if not isinstance(expr.children[0].type, types.BoolType):
            return reject(expr)
        context.specifications[expr.symbol] = expr
        expr.type = types.BoolType()
        return True
    if isinstance(expr, cpt.Contract):
        if not isinstance(expr.children[0].type, types.BoolType) or not isinstance(expr.children[1].type, types.BoolType):
            return reject(expr)
        context.contracts[expr.symbol] = expr
        expr.type = types.ContractValueType()
        return True
    if isinstance(expr, cpt.Constant):
        if isinstance(expr.value, int):
            bits = types.IntType.width - 1 if types.IntType.is_signed else types.IntType.width
            if expr.value.bit_length() > bits:
                return reject(expr)
        return True
    if isinstance(expr, cpt.CurrentTimestamp):
        if types.IntType.is_signed:
            log.warning("unsigned", expr.loc)
        expr.type = types.IntType()
        return True
    if isinstance(expr, cpt.Signal):
        return signal(expr, context)
    if isinstance(expr, cpt.Variable):
        return variable(expr, context)
    if isinstance(expr, cpt.Atomic):
        expr.type = types.BoolType()
        return True
    if isinstance(expr, cpt.SymbolicIntervalVariable) or isinstance(expr, cpt.MissionTime):
        expr.type = types.IntType(True)
        return True
    if isinstance(expr, cpt.ArrayExpression):
        return array(expr)
    if isinstance(expr, cpt.ArraySlice):
        return array_slice(expr)
    if isinstance(expr, cpt.ArrayIndex):
        return array_index(expr, context, options)
    if isinstance(expr, cpt.StructAccess):
        name = expr.children[0].type.symbol
        if name not in context.structs:
            return reject(expr)
        if expr.member not in context.structs[name]:
            return reject(expr)
        expr.type = context.structs[name][expr.member]
        return True
    if isinstance(expr, cpt.FunctionCall) or isinstance(expr, cpt.Struct):
        if expr.symbol not in context.structs:
            return reject(expr)
        wanted = [t for t in context.structs[expr.symbol].values()]
        found = [c.type for c in expr.children]
        if len(wanted) != len(found):
            return reject(expr)
        for i in range(0, len(wanted)):
            if wanted[i] != found[i]:
                return reject(expr)
        expr.type = types.StructType(expr.symbol, True)
        return True
    if isinstance(expr, cpt.SetAggregation):
        return aggregation(expr, context)
    if isinstance(expr, cpt.TemporalOperator):
        return temporal(expr, context)
    if isinstance(expr, cpt.SymbolicTemporalOperator):
        return all_bool(expr)
    if isinstance(expr, cpt.Operator):
        return operator(expr, context)
    return reject(expr)


def signal(expr, context):
    declared = context.signals[expr.symbol]
    if not context.enable_booleanizer:
        if isinstance(declared, types.EnumType) or isinstance(declared, types.IntType) or isinstance(declared, types.FloatType):
            return reject(expr)
    else:
        expr.engine = types.R2U2Engine.BOOLEANIZER
    if expr.signal_id == -1 and expr.symbol in context.signal_mapping:
        expr.signal_id = context.signal_mapping[expr.symbol]
    expr.type = declared
    return True


def variable(expr, context):
    name = expr.symbol
    if name in context.bound_vars:
        t = context.bound_vars[name].type
        if not isinstance(t, types.ArrayType):
            log.internal("not a set")
            return False
        expr.type = t.member_type
        return True
    if name in context.variables:
        expr.type = context.variables[name]
        return True
    if name in context.definitions:
        expr.type = context.definitions[name].type
        return True
    if name in context.structs or name in context.enums:
        return reject(expr)
    if name in context.specifications:
        expr.type = types.BoolType()
        return True
    if name in context.contracts:
        return reject(expr)
    for members in context.enums.values():
        if name in members:
            expr.type = types.EnumType(name)
            return True
    return reject(expr)


def array(expr):
    """All elements have one type, and the array has as many elements as are listed."""
    member = types.NoType()
    for c in expr.children:
        member = c.type
    for c in expr.children:
        if c.type != member:
            return reject(expr)
    expr.type = types.ArrayType(member, size=len(expr.children))
    return True


def inside(i, size):
    """An index is valid if the array has that element; arrays of unknown size are checked later."""
    return size < 0 or (i < size and -i < size)


def array_slice(expr):
    t = expr.children[0].type
    if not isinstance(t, types.ArrayType):
        return reject(expr)
    if not inside(expr.start, t.size) or not inside(expr.stop, t.size):
        return reject(expr)
    if expr.start < 0:
        expr.start = -expr.start
    if expr.stop < 0:
        expr.stop = -expr.stop
    if expr.start > expr.stop:
        return reject(expr)
    expr.type = types.ArrayType(t.member_type, size=expr.stop - expr.start + 1)
    return True


def array_index(expr, context, options):
    t = expr.children[0].type
    if not isinstance(t, types.ArrayType):
        return reject(expr)
    if not inside(expr.index, t.size):
        return reject(expr)
    if expr.index < 0:
        expr.index = -expr.index
    if isinstance(expr.children[0], cpt.Variable):
        # an element of an array of inputs is typed as an input of its own would be
        probe = cpt.Signal(expr.loc, str(expr), t.member_type)
        context.signals[str(expr)] = types.NoType()
        good = type_check_expr(probe, context, options)
        del context.signals[str(expr)]
        if not good:
            return False
    expr.type = t.member_type
    return True


def aggregation(expr, context):
    over = expr.children[0]
    if not isinstance(over.type, types.ArrayType):
        return reject(expr)
    context.variables[expr.bound_var.symbol] = over.type.member_type
    if expr.operator is A.FOR_EXACTLY or expr.operator is A.FOR_AT_LEAST or expr.operator is A.FOR_AT_MOST:
        if not context.enable_booleanizer:
            return reject(expr)
        if not whole(expr.children[1].type):
            return reject(expr)
    if not isinstance(expr.children[-1].type, types.BoolType):
        return reject(expr)
    expr.type = types.BoolType()
    return True


def whole(t):
    """Types of whole numbers."""
    return isinstance(t, types.IntType) or isinstance(t, types.BoolType) or isinstance(t, types.EnumType)


def all_bool(expr):
    for c in expr.children:
        if not isinstance(c.type, types.BoolType):
            return reject(expr)
    expr.type = types.BoolType()
    return True


def temporal(expr, context):
    for c in expr.children:
        if not isinstance(c.type, types.BoolType):
            return reject(expr)
    future = expr.operator is K.GLOBAL or expr.operator is K.FUTURE or expr.operator is K.UNTIL or expr.operator is K.RELEASE
    if future and not context.is_ft:
        return reject(expr)
    if not future and context.is_ft:
        return reject(expr)
    if not expr.interval:
        log.internal("no interval")
        return False
    if expr.interval.lb > expr.interval.ub:
        return reject(expr)
    expr.type = types.BoolType()
    return True


def operator(expr, context):
    k = expr.operator
    if k is K.MIN or k is K.MAX:
        for c in expr.children:
            if not isinstance(c.type, types.IntType):
                return reject(expr)
        expr.type = types.IntType()
        return True
    if k is K.BITWISE_AND or k is K.BITWISE_OR or k is K.BITWISE_XOR or k is K.BITWISE_NEGATE:
        if not context.enable_booleanizer:
            return reject(expr)
        for c in expr.children:
            if isinstance(c, cpt.ArrayExpression) or isinstance(c, cpt.ArraySlice):
                return reject(expr)
            if c.type != expr.children[0].type or not whole(c.type):
                return reject(expr)
        expr.type = expr.children[0].type
        return True
    if (k is K.ARITHMETIC_ADD or k is K.ARITHMETIC_SUBTRACT or k is K.ARITHMETIC_MULTIPLY or k is K.ARITHMETIC_DIVIDE or k is K.ARITHMETIC_MODULO
            or k is K.ARITHMETIC_NEGATE or k is K.ARITHMETIC_POWER or k is K.ARITHMETIC_SQRT or k is K.ARITHMETIC_ABS):
        return arithmetic(expr, context)
    if (k is K.EQUAL or k is K.NOT_EQUAL or k is K.LESS_THAN or k is K.GREATER_THAN or k is K.LESS_THAN_OR_EQUAL or k is K.GREATER_THAN_OR_EQUAL):
        return relational(expr, context)
    if (k is K.LOGICAL_AND or k is K.LOGICAL_OR or k is K.LOGICAL_XOR or k is K.LOGICAL_IMPLIES or k is K.LOGICAL_EQUIV or k is K.LOGICAL_NEGATE):
        return all_bool(expr)
    if k is K.PREVIOUS:
        return previous(expr, context)
    return reject(expr)


def arithmetic(expr, context):
    if not context.enable_booleanizer:
        return reject(expr)
    k = expr.operator
    first = expr.children[0].type
    if k is K.ARITHMETIC_DIVIDE or k is K.ARITHMETIC_MODULO:
        by = expr.children[1]
        if isinstance(by, cpt.Constant) and by.value == 0:
            return reject(expr)
    if k is K.ARITHMETIC_SQRT and isinstance(first, types.IntType):
        return reject(expr)
    if k is K.ARITHMETIC_POWER and isinstance(first, types.IntType):
        by = expr.children[1]
        if isinstance(by, cpt.Constant):
            if by.value < 0:
                return reject(expr)
        elif types.IntType.is_signed and not isinstance(by, cpt.CurrentTimestamp):
            return reject(expr)
    for c in expr.children:
        if isinstance(c, cpt.ArrayExpression) or isinstance(c, cpt.ArraySlice):
            return reject(expr)
        if c.type != first:
            return reject(expr)
    expr.type = first
    return True


def relational(expr, context):
    k = expr.operator
    lhs, rhs = expr.children[0], expr.children[1]
    if not context.enable_booleanizer and k is not K.EQUAL and k is not K.NOT_EQUAL:
        return reject(expr)
    if is_member(lhs.type, context) and rhs.type.symbol in context.enums:
        if lhs.type.symbol not in context.enums[rhs.type.symbol]:
            return reject(expr)
        lhs.type = rhs.type
    elif is_member(rhs.type, context) and lhs.type.symbol in context.enums:
        if rhs.type.symbol not in context.enums[lhs.type.symbol]:
            return reject(expr)
        rhs.type = lhs.type
    elif is_member(lhs.type, context) and is_member(rhs.type, context):
        return reject(expr)
    if lhs.type != rhs.type:
        return reject(expr)
    expr.type = types.BoolType()
    return True


def previous(expr, context):
    """prev(initial value, expression): the initial value is a constant of the expression's type."""
    first, then = expr.children[0], expr.children[1]
    if is_member(first.type, context) and then.type.symbol in context.enums:
        if first.type.symbol not in context.enums[then.type.symbol]:
            return reject(expr)
        first.type = then.type
    elif first.type.symbol in context.enums:
        return reject(expr)
    elif is_member(first.type, context) and is_member(then.type, context):
        return reject(expr)
    elif first.type != then.type:
        return reject(expr)
    value = first
    if first.symbol in context.definitions:
        value = context.definitions[first.symbol]
    if not isinstance(value, cpt.Constant) and not isinstance(value.type, types.EnumType):
        return reject(expr)
    for d in expr.get_descendants():
        if isinstance(d, cpt.Operator) and d.operator is K.PREVIOUS:
            return reject(expr)
    expr.type = value.type
    return True


def taken(name, symbols, where):
    """A name may be declared once."""
    if name in symbols:
        log.error("already in use", where)
        return True
    return False


def type_check_section(section, symbols, context, options):
    good = True
    if isinstance(section, cpt.InputSection):
        for d in section.signal_decls:
            for name in d.variables:
                if taken(name, symbols, d.loc):
                    good = False
                if d.type.symbol in context.enums:
                    d.type = types.EnumType(d.type.symbol)
                symbols.add(name)
                context.signals[name] = d.type
                if isinstance(d.type, types.ArrayType):
                    elements = []
                    for i in range(0, d.type.size):
                        elements.append(cpt.Signal(d.loc, name + "[" + str(i) + "]", d.type.member_type))
                    whole_array = cpt.ArrayExpression(d.loc, elements)
                    whole_array.type = d.type
                    context.definitions[name] = whole_array
                    for i in range(0, d.type.size):
                        context.signals[name + "[" + str(i) + "]"] = d.type.member_type
                    for e in elements:
                        type_check_expr(e, context, options)
    elif isinstance(section, cpt.DefineSection):
        for d in section.defines:
            if taken(d.symbol, symbols, d.loc):
                good = False
            symbols.add(d.symbol)
            if type_check_expr(d.expr, context, options):
                context.definitions[d.symbol] = d.expr
            else:
                good = False
    elif isinstance(section, cpt.StructSection):
        for d in section.struct_defs:
            if taken(d.symbol, symbols, d.loc):
                good = False
            symbols.add(d.symbol)
            context.structs[d.symbol] = d.members
    elif isinstance(section, cpt.EnumSection):
        for d in section.enum_defs:
            if d.symbol in symbols or d.symbol in context.get_symbols():
                log.error("already in use", d.loc)
                good = False
            for name, value in d.members.items():
                if not isinstance(value, cpt.Constant) or not whole(value.type):
                    log.error("not a whole number", d.loc)
                    good = False
                if name in symbols or name in context.get_symbols() or name == d.symbol:
                    log.error("already in use", d.loc)
                    good = False
            symbols.add(d.symbol)
            context.enums[d.symbol] = d.members
    elif isinstance(section, cpt.SpecSection):
        context.is_ft = isinstance(section, cpt.FutureTimeSpecSection)
        for s in section.specs:
            if s.symbol != "" and taken(s.symbol, symbols, s.loc):
                good = False
            symbols.add(s.symbol)
            if not type_check_expr(s, context, options):
                good = False
    return good


def type_check(program, context, options):
    good = True
    symbols = set()
    for section in program.sections:
        if not type_check_section(section, symbols, context, options):
            good = False
    program.is_well_typed = good
    if good:
        return command.ReturnCode.SUCCESS
    return command.ReturnCode.ERROR
