"""Specification of the verdict queues: one slice per stored expression, in program order, without gaps or overlaps."""
from c2po import cpt, types, command


def compute_scq_sizes(program, context, options):
    """The published sizes: siblings only."""
    return sizes(program, context, options, False)


def compute_scq_sizes_own(program, context, options):
    """Sizes that also cover the node's own delay, when several of its verdicts arrive at once."""
    return sizes(program, context, options, True)


def sizes(program, context, options, own):
    extra = options["scq_constant"]
    top = 0
    for expr in cpt.postorder(program.get_specs(), context):
        if isinstance(expr, cpt.SpecSection):
            continue
        if isinstance(expr, cpt.Formula):
            size = 1 + extra
        elif expr.engine != types.R2U2Engine.TEMPORAL_LOGIC and expr not in context.atomic_id_map:
            continue
        elif isinstance(expr, cpt.Constant) and types.is_bool_type(expr.type):
            size = 0
        else:
            # a verdict stays until the slowest node sharing a parent has caught up with the earliest it can be written
            latest = expr.wpd if own else 0
            for parent in expr.parents:
                for other in parent.children:
                    if other is not expr and other.wpd > latest:
                        latest = other.wpd
            size = 1 + extra
            if latest > expr.bpd:
                size += latest - expr.bpd
        expr.scq_size = size
        expr.scq = (top, top + size)
        top += size
    program.total_scq_size = top
    context.stats.total_scq_size = top
    return command.ReturnCode.SUCCESS
