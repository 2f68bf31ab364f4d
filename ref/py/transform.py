"""Specification of two passes that keep every formula: ordering operands, and naming atomics."""
from c2po import cpt, command, log, types

K = cpt.OperatorKind
ANY_ORDER = [K.LOGICAL_AND, K.LOGICAL_OR, K.LOGICAL_XOR, K.LOGICAL_EQUIV, K.BITWISE_AND, K.BITWISE_OR, K.BITWISE_XOR, K.ARITHMETIC_ADD, K.ARITHMETIC_MULTIPLY, K.EQUAL, K.NOT_EQUAL]


def sort_operands_by_pd(program, context, options):
    for e in program.postorder(context):
        if isinstance(e, cpt.Operator) and e.operator in ANY_ORDER:
            e.children = sorted(e.children, key=lambda c: c.wpd)
    return command.ReturnCode.SUCCESS


def convert_atomics_to_signals(program, context, options):
    for e in program.preorder(context):
        k = 0
        for c in e.children:
            if isinstance(c, cpt.Atomic):
                if c not in context.atomic_id_map:
                    log.error("unknown atomic")
                    return command.ReturnCode.ERROR
                n = context.atomic_id_map[c]
                s = cpt.Signal(c.loc, "a" + str(n), types.BoolType())
                s.signal_id = n
                s.parents.add(e)
                e.children[k] = s
            k += 1
    return command.ReturnCode.SUCCESS
