"""Specification of sharing."""
from c2po import cpt, command


def optimize_cse(program, context, options):
    for half in (program.ft_spec_set, program.pt_spec_set):
        first = {}
        for e in cpt.postorder(half, context):
            text = repr(e)
            if text in first:
                e.replace(first[text])
            else:
                first[text] = e
    return command.ReturnCode.SUCCESS
