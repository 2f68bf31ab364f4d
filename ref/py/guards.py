"""Specification of the preconditions: what has been established about a program."""
from c2po import cpt, types

K = cpt.OperatorKind
ABBREVIATIONS = (cpt.Struct, cpt.FunctionCall, cpt.ArrayExpression, cpt.StructAccess, cpt.ArrayIndex, cpt.SetAggregation, cpt.Contract)
DERIVED = (K.LOGICAL_XOR, K.LOGICAL_IMPLIES, K.FUTURE, K.GLOBAL, K.HISTORICAL, K.ONCE)


def is_valid_program(program, context):
    return not program.is_dummy


def is_well_typed_program(program, context):
    if program.is_dummy:
        return False
    return program.is_well_typed


def is_assembled(program, context):
    return len(context.assembly) != 0


def has_valid_signal_mapping(program, context):
    for e in program.postorder(context):
        if isinstance(e, cpt.Signal):
            if e.symbol not in context.signal_mapping:
                return False
            if context.signal_mapping[e.symbol] != e.signal_id:
                return False
    return True


def has_atomic_consistent_signal_mapping(program, context):
    if not context.enable_booleanizer:
        for e in program.postorder(context):
            if isinstance(e, cpt.Signal):
                if e not in context.atomic_id_map:
                    return False
                if context.atomic_id_map[e] != e.signal_id:
                    return False
    return True


def is_desugared(program, context):
    for e in program.postorder(context):
        if isinstance(e, ABBREVIATIONS):
            return False
    return True


def has_valid_scq_sizes(program, context):
    for e in program.postorder(context):
        if isinstance(e, cpt.Expression):
            if e.engine == types.R2U2Engine.TEMPORAL_LOGIC or e in context.atomic_id_map:
                if e.scq_size < 0:
                    return False
    return True


def is_only_binary_operators(program, context):
    for e in program.postorder(context):
        if isinstance(e, cpt.Expression) and not isinstance(e, cpt.SpecificationSet):
            if len(e.children) > 2:
                return False
    return True


def has_no_extended_operators(program, context):
    for e in program.postorder(context):
        if isinstance(e, cpt.Operator) and e.operator in DERIVED:
            return False
    return True


def has_computed_atomics(program, context):
    for e in program.postorder(context):
        if isinstance(e, cpt.Atomic):
            if e not in context.atomic_id_map:
                return False
        elif isinstance(e, cpt.Signal) and not context.enable_booleanizer:
            if e not in context.atomic_id_map:
                return False
    return True


def is_pure_mltl(program, context):
    for e in program.postorder(context):
        if not isinstance(e, cpt.Expression):
            continue
        if isinstance(e, (cpt.Signal, cpt.Formula, cpt.SpecificationSet)):
            continue
        if isinstance(e, cpt.Constant) and types.is_bool_type(e.type):
            continue
        if cpt.is_logical_operator(e) or cpt.is_temporal_operator(e):
            continue
        return False
    return True
