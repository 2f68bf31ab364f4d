"""Specification of desugaring: what each piece of surface syntax stands for."""
from c2po import cpt, types, log, command

OK = command.ReturnCode.SUCCESS
K = cpt.OperatorKind
A = cpt.SetAggregationKind


def every_expression(program, context):
    out = []
    for d in context.definitions.values():
        for e in cpt.postorder(d, context):
            out.append(e)
    for e in program.postorder(context):
        out.append(e)
    return out


def expand_definitions(program, context, options):
    for e in every_expression(program, context):
        if isinstance(e, cpt.Variable):
            if e.symbol in context.definitions:
                e.replace(context.definitions[e.symbol])
            elif e.symbol in context.specifications:
                e.replace(context.specifications[e.symbol].get_expr())
    return OK


def convert_function_calls_to_structs(program, context, options):
    for e in every_expression(program, context):
        if isinstance(e, cpt.FunctionCall) and e.symbol in context.structs:
            position = {}
            for i, name in enumerate(context.structs[e.symbol].keys()):
                position[name] = i
            e.replace(cpt.Struct(e.loc, e.symbol, position, e.children))
    return OK


def resolve_enum_references(program, context, options):
    for e in program.postorder(context):
        if types.is_enum_type(e.type):
            known = False
            for members in context.enums.values():
                if e.symbol in members:
                    known = True
            if known:
                e.replace(context.enums[e.type.symbol][e.symbol])
    return OK


def resolve_contracts(program, context, options):
    for spec in program.get_specs():
        if isinstance(spec, cpt.Contract):
            assume, guarantee = spec.children[0], spec.children[1]
            active = cpt.Formula(spec.loc, f"__{spec.symbol}_active__", spec.formula_numbers[0], assume)
            valid = cpt.Formula(spec.loc, f"__{spec.symbol}_valid__", spec.formula_numbers[1],
                                cpt.Operator.LogicalImplies(spec.loc, assume, guarantee))
            verified = cpt.Formula(spec.loc, f"__{spec.symbol}_verified__", spec.formula_numbers[2],
                                   cpt.Operator.LogicalAnd(spec.loc, [assume, guarantee]))
            active.children[0].type = types.BoolType()
            valid.children[0].type = types.BoolType()
            verified.children[0].type = types.BoolType()
            program.replace_spec(spec, [active, valid, verified])
    return OK


def struct_member(e):
    """A member access on a known struct is that member, with the member's own type."""
    if isinstance(e, cpt.StructAccess) and isinstance(e.children[0], cpt.Struct):
        s = e.children[0]
        member = s.children[s.members[e.member]]
        typ = member.type
        e.replace(member)
        member.type = typ


def instances(e, context):
    return [cpt.rename(e.bound_var, x, e.get_expr(), context) for x in e.get_set().children]


def total(e, context):
    return cpt.Operator.ArithmeticAdd(e.loc, instances(e, context), types.IntType())


def unroll_set_aggregation(program, context, options):
    for e in program.preorder(context):
        if not isinstance(e, cpt.SetAggregation):
            continue
        for x in cpt.postorder(e.get_set(), context):
            struct_member(x)
        if e.operator is A.FOR_EACH:
            new = cpt.Operator.LogicalAnd(e.loc, instances(e, context))
        elif e.operator is A.FOR_SOME:
            new = cpt.Operator.LogicalOr(e.loc, instances(e, context))
        elif e.operator is A.FOR_EXACTLY:
            new = cpt.Operator.Equal(e.loc, total(e, context), e.get_num())
        elif e.operator is A.FOR_AT_LEAST:
            new = cpt.Operator.GreaterThanOrEqual(e.loc, total(e, context), e.get_num())
        else:
            new = cpt.Operator.LessThanOrEqual(e.loc, total(e, context), e.get_num())
        e.replace(new)
        for x in cpt.postorder(new, context):
            struct_member(x)
    return OK


def resolve_struct_accesses(program, context, options):
    for e in program.postorder(context):
        struct_member(e)
    return OK


def resolve_array_accesses(program, context, options):
    for e in program.postorder(context):
        if isinstance(e, cpt.ArrayIndex):
            array = e.children[0]
            if not isinstance(array.type, types.ArrayType):
                log.error("array access on something else", e.loc)
                return command.ReturnCode.ERROR
            if e.index >= array.type.size:
                log.error("index out of bounds", e.loc)
                return command.ReturnCode.ERROR
            e.replace(array.children[e.index])
        elif isinstance(e, cpt.ArraySlice):
            array = e.children[0]
            if e.start >= array.type.size or e.stop >= array.type.size:
                log.error("slice out of bounds", e.loc)
                return command.ReturnCode.ERROR
            e.replace(cpt.ArrayExpression(e.loc, [array.children[i] for i in range(e.start, e.stop + 1)]))
    return OK


def unroll_array_accesses(program, context, options):
    for e in program.preorder(context):
        if e.engine == types.R2U2Engine.BOOLEANIZER and len(e.children) == 2:
            x, y = e.children
            if isinstance(x, cpt.ArrayExpression) and isinstance(y, cpt.ArrayExpression) and isinstance(e, cpt.Operator) and cpt.is_relational_operator(e):
                pairs = []
                for i in range(len(x.children)):
                    pairs.append(cpt.Operator(e.loc, e.operator, [x.children[i], y.children[i]]))
                if e.operator is cpt.OperatorKind.NOT_EQUAL:
                    e.replace(cpt.Operator.LogicalOr(e.loc, pairs))
                else:
                    e.replace(cpt.Operator.LogicalAnd(e.loc, pairs))
    return OK
