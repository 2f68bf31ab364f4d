"""Desugaring, sharing, atomics: passes of the compiler over small abstract programs (see scen.py)."""
from __future__ import annotations
from ..dd import T, C
from .compiler import job
from .scen import Scen, var, enum

P, CTX = var("program"), var("context")
BOOL, NUMERIC = None, None


def typ(cls, name, **a):
    return T("o", cls, name)


def desugar_cases():
    out = []

    def add(fn, s, **kw):
        kw.setdefault("effects", ("replace", "replace_spec"))
        kw.setdefault("unroll", 4)
        out.append(job("desugar", fn, **s.kw(**kw)))

    # definitions: a variable in a definition and one in the program; the definition may or may not be theirs
    s = Scen("var")
    d0, d1 = s.obj("Operator", "d0"), s.obj("Operator", "d1")
    x0, x1 = s.obj("Variable", "x0", symbol=var("sym0")), s.obj("Variable", "x1", symbol=var("sym1"))
    sig, f = s.obj("Signal", "sig", symbol=var("sym2")), s.obj("Formula", "f")
    s.set(f, children=[var("fexpr")])
    s.set(CTX, definitions={"a": d0, "b": d1}, specifications={"p": f})
    s.walk(d0, [x0, d0])
    s.walk(d1, [d1])
    s.walk(P, [sig, x1])
    add("expand_definitions", s)

    s = Scen("calls")
    d0 = s.obj("Operator", "d0")
    c0, c1 = s.obj("FunctionCall", "c0", symbol=var("sym0"), children=[var("a0"), var("a1")]), s.obj("FunctionCall", "c1", symbol=C("S"), children=[var("b0")])
    sig = s.obj("Signal", "sig", symbol=C("S"))
    s.set(CTX, definitions={"a": d0}, structs={"S": {"m": var("tm"), "n": var("tn")}, "R": {"k": var("tk")}})
    s.walk(d0, [c0])
    s.walk(P, [sig, c1])
    add("convert_function_calls_to_structs", s)

    for ty in ("EnumType", "IntType"):
        s = Scen(ty)
        t = s.obj(ty, "t", symbol=var("tsym"))
        e = s.obj("Variable", "e0", symbol=var("sym"), type=t)
        s.set(CTX, enums={"E": {"A": var("ea"), "B": var("eb")}, "F": {"X": var("fx")}})
        s.walk(P, [e])
        add("resolve_enum_references", s)

    for kinds in (("Contract",), ("Formula", "Contract"), ("Contract", "Contract"), ("Formula",)):
        s = Scen("+".join(kinds))
        specs = []
        for i, k in enumerate(kinds):
            o = s.obj(k, f"s{i}", symbol=var(f"sym{i}"), loc=var(f"loc{i}"))
            if k == "Contract":
                s.set(o, children=[var(f"assume{i}"), var(f"guar{i}")], formula_numbers=(var(f"n{i}a"), var(f"n{i}b"), var(f"n{i}c")))
            specs.append(o)
        s.model("cpt.Program.get_specs", lambda ip, args, st, specs=specs: ip.alloc(_l(specs), st))
        add("resolve_contracts", s)

    for kind, num in (("FOR_EACH", 0), ("FOR_SOME", 0), ("FOR_EXACTLY", 1), ("FOR_AT_LEAST", 1), ("FOR_AT_MOST", 1)):
        s = Scen(kind)
        st_ = s.obj("Struct", "st", children=[s.obj("Operator", "m0"), s.obj("Operator", "m1"), s.obj("Operator", "m2")], members={"a": 0, "b": 1})
        acc = s.obj("StructAccess", "acc", member=C("b"), children=[st_])
        acc2 = s.obj("StructAccess", "acc2", member=C("a"), children=[s.obj("Variable", "v")])
        arr = s.obj("ArrayExpression", "arr", children=[var("e0"), var("e1")])
        body, n = s.obj("Operator", "body"), s.obj("Constant", "num")
        agg = s.obj("SetAggregation", "agg", operator=enum("SetAggregationKind", kind), bound_var=var("bv"), loc=var("loc"),
                    children=[arr] + ([n] if num else []) + [s.obj("Bind", "bind"), body])
        s.walk(P, pre=[agg, s.obj("Signal", "sig")])
        s.walk(arr, [acc, arr])
        s.more["cpt.postorder"] = _walk_new({arr: [acc2, acc, arr]}, [acc, body])
        add("unroll_set_aggregation", s, pure=("rename",))

    s = Scen()
    st_ = s.obj("Struct", "st", children=[s.obj("Operator", "m0"), s.obj("Operator", "m1"), s.obj("Operator", "m2")], members={"a": 0, "b": 1, "c": 2})
    for i, m in enumerate("abc"):
        s.obj("StructAccess", f"acc{i}", member=C(m), children=[st_])
    s.walk(P, [T("o", "StructAccess", f"acc{i}") for i in range(3)] + [s.obj("StructAccess", "acc3", member=C("a"), children=[s.obj("Variable", "v")]), s.obj("Signal", "sig")])
    add("resolve_struct_accesses", s)

    for ty in ("ArrayType", "IntType"):
        for i in (0, 1, 2):
            s = Scen(f"index {ty} {i}")
            arr = s.obj("ArrayExpression", "arr", children=[var("e0"), var("e1"), var("e2")], type=s.obj(ty, "t", size=var("size")))
            s.walk(P, [s.obj("Signal", "sig"), s.obj("ArrayIndex", "ix", index=i, children=[arr], loc=var("loc")), s.obj("ArrayIndex", "ix2", index=0, children=[arr], loc=var("loc2"))])
            add("resolve_array_accesses", s)
    for a, b in ((0, 0), (0, 1), (1, 2), (0, 2), (2, 1)):
        s = Scen(f"slice {a}..{b}")
        arr = s.obj("ArrayExpression", "arr", children=[var("e0"), var("e1"), var("e2")], type=s.obj("ArrayType", "t", size=var("size")))
        s.walk(P, [s.obj("ArraySlice", "sl", start=a, stop=b, children=[arr], loc=var("loc"))])
        add("resolve_array_accesses", s)

    for op in ("EQUAL", "NOT_EQUAL", "LESS_THAN", "ARITHMETIC_ADD"):
        for left, right in (("ArrayExpression", "ArrayExpression"), ("ArrayExpression", "Signal"), ("Signal", "ArrayExpression")):
            for eng in ("BOOLEANIZER", "TEMPORAL_LOGIC"):
                s = Scen(f"{op} {left} {right} {eng}")
                x = s.obj(left, "x", children=[var("x0"), var("x1")])
                y = s.obj(right, "y", children=[var("y0"), var("y1")])
                e = s.obj("Operator", "e", operator=enum("OperatorKind", op), children=[x, y], engine=enum("R2U2Engine", eng), loc=var("loc"))
                s.walk(P, pre=[s.obj("Signal", "sig", engine=enum("R2U2Engine", "NONE"), children=[]), e])
                add("unroll_array_accesses", s)
    return out


def _l(items):
    from ..dd import leaf
    return leaf(T("list", *items))


def _walk_new(known, rest):
    """A traversal of a new tree visits `rest`."""
    from .. import dd
    from ..dd import leaf

    def f(ip, args, st):
        a = dd.leaves(args[0])
        return leaf(T("list", *known.get(a[0] if len(a) == 1 else None, rest)))
    return f


def p03(rep):
    rep.tasks(desugar_cases())


FT, PT = T("o", "SpecificationSet", "ft"), T("o", "SpecificationSet", "pt")
KIND = {"bz": ("Operator", "BOOLEANIZER"), "prop": ("Operator", "TEMPORAL_LOGIC"), "sig": ("Signal", "NONE"), "const": ("Constant", "TEMPORAL_LOGIC"),
        "atomic": ("Atomic", "BOOLEANIZER"), "temp": ("TemporalOperator", "TEMPORAL_LOGIC"), "none": ("SpecificationSet", "NONE")}


def p04(rep):
    """Sharing: equal texts become one expression, separately in each half of the program."""
    jobs = []
    for nf, np_ in ((1, 0), (2, 0), (0, 2), (3, 0), (2, 2), (1, 2), (0, 3)):
        s = Scen(f"{nf}+{np_}")
        s.set(P, ft_spec_set=FT, pt_spec_set=PT)
        s.walk(FT, [s.obj("Operator", f"f{i}") for i in range(nf)])
        s.walk(PT, [s.obj("Operator", f"p{i}") for i in range(np_)])
        jobs.append(job("cse", "optimize_cse", **s.kw(effects=("replace",), unroll=5)))
    rep.tasks(jobs)


def p32(rep):
    """Atomics: which expressions get an index, and where the node between the two engines goes."""
    jobs = []
    for bz in (True, False):
        for kinds in (("bz",), ("prop",), ("sig",), ("const",), ("atomic",), ("bz", "bz"), ("sig", "sig"), ("bz", "prop"), ("sig", "bz"), ("const", "bz"), ("temp", "bz"), ("bz", "sig", "bz")):
            for known in ((), (0,)):
                for up in (("prop",), ("bz",), ("prop", "bz"), ("none",), ("none", "prop"), ()):
                    if up != ("prop",) and (not bz or "bz" not in kinds):
                        continue
                    s = Scen(f"{'bz' if bz else 'direct'} {'+'.join(kinds)} {'+'.join(up)} {'known' if known else ''}")
                    objs, ids = [], {}
                    for i, k in enumerate(kinds):
                        o = s.obj(KIND[k][0], f"e{i}", engine=enum("R2U2Engine", KIND[k][1]), loc=var(f"loc{i}"))
                        ps = [s.obj(KIND[u][0], f"p{i}_{j}", engine=enum("R2U2Engine", KIND[u][1]), children=[o, T("o", "Signal", "else"), o]) for j, u in enumerate(up)]
                        s.set(o, parents=set(ps))
                        objs.append(o)
                        if i in known:
                            ids[o] = var(f"known{i}")
                    s.set(CTX, enable_booleanizer=bz, atomic_id_map=ids, atomic_expr_map={})
                    s.walk(P, objs)
                    jobs.append(job("atomics", "compute_atomics", **s.kw(unroll=8)))
    rep.tasks(jobs)


ORDERED = ["LOGICAL_IMPLIES", "ARITHMETIC_SUBTRACT", "ARITHMETIC_DIVIDE", "ARITHMETIC_MODULO", "LESS_THAN", "LESS_THAN_OR_EQUAL", "GREATER_THAN", "GREATER_THAN_OR_EQUAL", "PREVIOUS",
           "SHIFT_LEFT", "SHIFT_RIGHT"]
ANY_ORDER = ["LOGICAL_AND", "LOGICAL_OR", "LOGICAL_XOR", "LOGICAL_EQUIV", "BITWISE_AND", "BITWISE_OR", "BITWISE_XOR", "ARITHMETIC_ADD", "ARITHMETIC_MULTIPLY", "EQUAL", "NOT_EQUAL"]


def kept_formulas():
    """Passes that keep every operator: which operands may change places, and what stands for an atomic."""
    jobs = []
    for cls, kinds in (("Operator", ANY_ORDER + ORDERED), ("TemporalOperator", ["UNTIL", "RELEASE", "SINCE", "TRIGGER"]), ("Formula", [None]), ("Contract", [None])):
        for k in kinds:
            for wpd in ((2, 1), (1, 2), (3, 1, 2), (5, 5, 0), (0, 7, 3, 3)):
                if len(wpd) > 2 and k not in ("LOGICAL_AND", "LOGICAL_OR", "ARITHMETIC_ADD", "ARITHMETIC_MULTIPLY"):
                    continue
                s = Scen(f"{k or cls} {' '.join(map(str, wpd))}")
                e = s.obj(cls, "e", **({"operator": enum("OperatorKind", k)} if k else {}), children=[s.obj("Operator", f"c{i}", wpd=w, bpd=9 - w) for i, w in enumerate(wpd)])
                s.walk(P, [e])
                jobs.append(job("transform", "sort_operands_by_pd", refmod="ref_transform", **s.kw(unroll=6)))
    for shape in (("Atomic",), ("Signal",), ("Atomic", "Atomic"), ("Signal", "Atomic"), ("Atomic", "Operator", "Atomic"), ()):
        for known in ((0, 1, 2), (0,), (2,)):
            s = Scen(f"{'+'.join(shape)} known {known}")
            cs = [s.obj(c, f"c{i}", loc=var(f"loc{i}"), children=[]) for i, c in enumerate(shape)]
            top = s.obj("Operator", "top", operator=enum("OperatorKind", "LOGICAL_AND"), children=list(cs))
            s.set(CTX, atomic_id_map={c: var(f"id{i}") for i, c in enumerate(cs) if shape[i] == "Atomic" and i in known})
            s.walk(P, [top] + cs)
            jobs.append(job("transform", "convert_atomics_to_signals", refmod="ref_transform", **s.kw(unroll=6)))
    twice = Scen("one atomic under two operators and twice under one")
    a = twice.obj("Atomic", "a", loc=var("loc"), children=[])
    p0, p1 = (twice.obj("Operator", n, operator=enum("OperatorKind", "LOGICAL_OR"), children=c) for n, c in (("p0", [a, a]), ("p1", [T("o", "Signal", "x"), a])))
    twice.set(CTX, atomic_id_map={a: var("id")})
    twice.walk(P, [p0, a, p1])
    jobs.append(job("transform", "convert_atomics_to_signals", refmod="ref_transform", **twice.kw(unroll=6)))
    return jobs
