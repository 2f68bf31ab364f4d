"""What each node of egglog's answer is read as, and the formula chosen nodes stand for."""
from c2po import cpt, log, egraph


def ENode_from_json(id, content):
    own = content[id]
    below = [content[c]["eclass"] for c in own["children"] if "Interval" not in c and "String" not in c and "bool" not in c]
    interval, name, truth = None, None, None
    if own["op"] in ("Global", "Future", "Until", "Release"):
        for c in own["children"]:
            if "Interval" in c:
                ends = content[c]["children"]
                interval = (int(content[ends[0]]["op"]), int(content[ends[1]]["op"]))
    elif own["op"] == "Var":
        for c in own["children"]:
            if "String" in c:
                name = content[c]["op"].strip('"')
    elif own["op"] == "Bool":
        for c in own["children"]:
            if "bool" in c:
                truth = "true" in content[c]["op"]
    return egraph.ENode(id, own["op"], interval, name, truth, below, own["eclass"])


def EGraph_build_expr_(self, repr_map):
    def atomic(name):
        for e, i in self.context.atomic_id_map.items():
            if i == int(name.replace('"', "")[1:]):
                e.parents.clear()
                return e
        raise ValueError("no such atomic")

    def build(n):
        here = log.EMPTY_FILE_LOC
        if n.op == "Bool":
            return cpt.Constant(here, n.value)
        if n.op == "Var":
            if not n.string:
                raise ValueError("no name")
            return atomic(n.string)
        if n.op not in ("Not", "Equiv", "Implies", "Global", "Future", "Until", "Release") and n.op[:3] != "And" and n.op[:2] != "Or":
            raise ValueError("unknown")
        parts = [build(repr_map[c]) for c in n.child_eclass_ids]
        if n.op == "Not":
            return cpt.Operator.LogicalNegate(here, parts[0])
        if n.op == "Equiv":
            return cpt.Operator.LogicalIff(here, parts[0], parts[1])
        if n.op == "Implies":
            return cpt.Operator.LogicalImplies(here, parts[0], parts[1])
        if n.op == "Global":
            return cpt.TemporalOperator.Global(here, n.interval[0], n.interval[1], parts[0])
        if n.op == "Future":
            return cpt.TemporalOperator.Future(here, n.interval[0], n.interval[1], parts[0])
        if n.op == "Until":
            return cpt.TemporalOperator.Until(here, n.interval[0], n.interval[1], parts[0], parts[1])
        if n.op == "Release":
            return cpt.TemporalOperator.Release(here, n.interval[0], n.interval[1], parts[0], parts[1])
        if n.op[:3] == "And":
            return cpt.Operator.LogicalAnd(here, parts)
        return cpt.Operator.LogicalOr(here, parts)

    return build(repr_map[self.root_eclass])
