"""Specification of atomics: the propositions the temporal engine reads."""
from c2po import cpt, command, types

TL, BZ = types.R2U2Engine.TEMPORAL_LOGIC, types.R2U2Engine.BOOLEANIZER


def compute_atomics(program, context, options):
    fresh = 0
    for e in program.postorder(context):
        if e in context.atomic_id_map or isinstance(e, cpt.Constant) or e.engine == TL:
            continue
        if context.enable_booleanizer:
            above = [p for p in e.parents if p.engine == TL]
            if e.engine == BZ and not isinstance(e, cpt.Atomic) and above:
                node = cpt.Atomic(e.loc, e)
                for p in above:
                    for i in range(len(p.children)):
                        if p.children[i] is e:
                            p.children[i] = node
                    node.parents.add(p)
                if node in context.atomic_id_map:
                    context.atomic_expr_map[context.atomic_id_map[node]] = node
                else:
                    context.atomic_id_map[node] = fresh
                    context.atomic_expr_map[fresh] = node
                    fresh += 1
        elif isinstance(e, cpt.Signal):
            if e.signal_id < 0:
                context.atomic_id_map[e] = fresh
                context.atomic_expr_map[fresh] = e
                fresh += 1
            else:
                context.atomic_id_map[e] = e.signal_id
                context.atomic_expr_map[e.signal_id] = e
    return command.ReturnCode.SUCCESS
