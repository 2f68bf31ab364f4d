"""P05: the typing rule of every kind of expression, and the declarations of a program."""
from __future__ import annotations
from .. import dd
from .compiler import job
from .scen import Scen, var, enum

P, CTX = var("program"), var("context")
BASE = {"BoolType": "BOOL", "IntType": "INT", "FloatType": "FLOAT", "ArrayType": "ARRAY", "StructType": "STRUCT", "EnumType": "ENUM", "NoType": "NOTYPE", "ContractValueType": "CONTRACT"}
SYM = {"BoolType": "bool", "IntType": "int", "FloatType": "float"}
IGNORE = (".is_const",)


def plain(ip, cname, args, kw, st, fr, e):
    """Whether a type is constant is not compared."""
    if cname in BASE and cname not in ("NoType", "EnumType"):
        keep = {"BoolType": 0, "IntType": 0, "FloatType": 0, "ContractValueType": 0, "StructType": 1, "ArrayType": 1}[cname]
        args, kw = args[:keep] + ([None] + args[2:] if cname == "ArrayType" and len(args) > 2 else []), {k: v for k, v in kw.items() if k != "is_const"}
        if None in args:
            from ..dd import leaf, C
            args[1] = leaf(C(False))
        ip.c_hook = None
        r = ip.construct(cname, args, kw, st, fr, e)
        ip.c_hook = plain
        return r


class TS(Scen):
    def typ(self, cls, name, **a):
        a.setdefault("value", enum("BaseType", BASE[cls]))
        a.setdefault("is_const", var(name + "_const"))
        a.setdefault("symbol", SYM.get(cls, var(name + "_sym")))
        if cls == "ArrayType":
            a.setdefault("member_type", self.typ("BoolType", name + "_m"))
            a.setdefault("size", var(name + "_size"))
        return self.obj(cls, name, **a)

    def child(self, i, ty, cls="Signal", **a):
        t = ty if not isinstance(ty, str) else self.typ(ty, f"t{i}")
        a.setdefault("symbol", var(f"sym{i}"))
        a.setdefault("children", [])
        return self.obj(cls, f"c{i}", type=t, loc=var(f"loc{i}"), **a)

    def context(self, **a):
        a.setdefault("enable_booleanizer", var("bz"))
        a.setdefault("is_ft", var("ft"))
        for k in ("structs", "enums", "definitions", "variables", "specifications", "contracts", "bound_vars", "signals", "signal_mapping"):
            a.setdefault(k, {})
        return self.set(CTX, **a)


SCALARS = ("BoolType", "IntType", "FloatType")
ALL = SCALARS + ("ArrayType", "StructType", "EnumType")


def expr_job(s, e, items=None, **kw):
    s.walk(e, items or [e])
    s.arg("start", e)
    kw.setdefault("unroll", 4)
    # messages are texts about the expression, the decision is the result
    return job("type_check", "type_check_expr", ignore=IGNORE, post=accepted, **follow(s.kw(**kw)))


def accepted(ip, ra, st):
    """What a rejected program's tables hold does not matter."""
    r = ip.val(ra, st)
    ok = dd.truth(r)
    for k in list(st.d):
        if isinstance(k, tuple) and k[0] in ("at", "ct") and k in st.d:
            st.d[k] = dd.ite(ok, st.d[k], ip.default(k))
    return r


def follow(kw):
    setup = kw["setup"]

    def f(ip, st):
        ip.eqmods, ip.c_hook = ("types",), plain
        return setup(ip, st)
    return dict(kw, setup=f)


def cases():
    out = []

    def op(kind, tys, tag="", classes=None, extra=None, **ctx):
        s = TS(f"{kind} {' '.join(t if isinstance(t, str) else '?' for t in tys)}{tag}")
        kids = []
        for i, t in enumerate(tys):
            cls = (classes or {}).get(i, "Signal")
            a = {"value": var(f"v{i}")} if cls == "Constant" else {}
            kids.append(s.child(i, t, cls, **a))
        e = s.obj("Operator", "e", operator=enum("OperatorKind", kind), children=kids, loc=var("loc"), symbol=kind)
        s.context(**ctx)
        if extra:
            extra(s, e, kids)
        out.append(expr_job(s, e))

    # propositional and temporal operators
    for k in ("LOGICAL_AND", "LOGICAL_OR", "LOGICAL_XOR", "LOGICAL_IMPLIES", "LOGICAL_EQUIV"):
        for tys in (("BoolType", "BoolType"), ("IntType", "BoolType"), ("BoolType", "FloatType"), ("BoolType", "EnumType")):
            op(k, tys)
    op("LOGICAL_AND", ("BoolType", "BoolType", "IntType"))
    op("LOGICAL_OR", ("BoolType", "BoolType", "BoolType"))
    for ty in ALL:
        op("LOGICAL_NEGATE", (ty,))
        op("BITWISE_NEGATE", (ty,))
        op("ARITHMETIC_NEGATE", (ty,))
        op("ARITHMETIC_ABS", (ty,))
        op("ARITHMETIC_SQRT", (ty,))
    for k in ("MIN", "MAX"):
        for tys in (("IntType", "IntType"), ("IntType", "FloatType"), ("BoolType", "IntType"), ("IntType", "IntType", "BoolType")):
            op(k, tys)
    for k in ("BITWISE_AND", "BITWISE_OR", "BITWISE_XOR"):
        for tys in (("IntType", "IntType"), ("BoolType", "BoolType"), ("IntType", "BoolType"), ("FloatType", "FloatType"), ("IntType", "FloatType")):
            op(k, tys)
        op(k, ("IntType", "ArrayType"), classes={1: "ArrayExpression"})
        op(k, ("ArrayType", "ArrayType"), classes={0: "ArraySlice"})
    for k in ("ARITHMETIC_ADD", "ARITHMETIC_SUBTRACT", "ARITHMETIC_MULTIPLY", "ARITHMETIC_DIVIDE", "ARITHMETIC_MODULO", "ARITHMETIC_POWER"):
        for tys in (("IntType", "IntType"), ("FloatType", "FloatType"), ("IntType", "FloatType"), ("FloatType", "IntType")):
            op(k, tys)
            op(k, tys, " by a constant", classes={1: "Constant"})
        op(k, ("ArrayType", "ArrayType"), classes={0: "ArrayExpression"})
        op(k, ("ArrayType", "ArrayType"), classes={0: "Variable", 1: "ArraySlice"})
        op(k, ("IntType", "IntType"), " by the time", classes={1: "CurrentTimestamp"})
    op("ARITHMETIC_ADD", ("IntType", "IntType", "FloatType"))
    # comparisons, with enumerations and the names of their members
    members = {"E": {"A": var("ea"), "B": var("eb")}, "F": {"X": var("fx")}}

    def enumeration(s, name, sym):
        return s.typ("EnumType", name, symbol=sym)
    for k in ("EQUAL", "NOT_EQUAL", "LESS_THAN", "LESS_THAN_OR_EQUAL", "GREATER_THAN", "GREATER_THAN_OR_EQUAL", "PREVIOUS"):
        for tys in (("BoolType", "BoolType"), ("IntType", "IntType"), ("FloatType", "FloatType"), ("IntType", "FloatType"), ("BoolType", "IntType"), ("ArrayType", "ArrayType"),
                    ("ArrayType", "IntType"), ("StructType", "StructType"), ("EnumType", "IntType")):
            op(k, tys, enums=members)
            if k == "PREVIOUS":
                op(k, tys, " from a constant", classes={0: "Constant"}, enums=members)
        for a in ("E", "A", "X", "C"):
            for b in ("E", "F", "A", "C", None):
                s = TS(f"{k} {a} {b}")
                ta = enumeration(s, "t0", a)
                tb = s.typ("IntType", "t1") if b is None else enumeration(s, "t1", b)
                s.context(enums=members)
                x, y = s.child(0, ta, "Variable"), s.child(1, tb)
                e = s.obj("Operator", "e", operator=enum("OperatorKind", k), children=[x, y], loc=var("loc"), symbol=k)
                out.append(expr_job(s, e))
                if b is None or k == "PREVIOUS":
                    continue
                s = TS(f"{k} {b} {a}")
                ta, tb = enumeration(s, "t0", a), enumeration(s, "t1", b)
                s.context(enums=members)
                e = s.obj("Operator", "e", operator=enum("OperatorKind", k), children=[s.child(0, tb), s.child(1, ta, "Variable")], loc=var("loc"), symbol=k)
                out.append(expr_job(s, e))
    for cls in ("Constant", "Signal"):
        s = TS(f"PREVIOUS of a definition that is a {cls}")
        d = s.obj(cls, "d", type=s.typ("IntType", "td"), symbol=var("dsym"))
        s.context(definitions={"k": d})
        e = s.obj("Operator", "e", operator=enum("OperatorKind", "PREVIOUS"), children=[s.child(0, "IntType", "Variable", symbol="k"), s.child(1, "IntType")], loc=var("loc"))
        out.append(expr_job(s, e))
    for depth in (1, 2):
        s = TS(f"nested PREVIOUS {depth}")
        s.context()
        inner = s.obj("Operator", "inner", operator=enum("OperatorKind", "PREVIOUS"), children=[])
        if depth == 2:
            inner = s.obj("Operator", "mid", operator=enum("OperatorKind", "ARITHMETIC_ADD"), children=[s.obj("Signal", "z", children=[]), inner])
        x, y = s.child(0, "IntType", "Constant", value=var("v0")), s.child(1, "IntType", "Operator", operator=enum("OperatorKind", "ARITHMETIC_NEGATE"), children=[inner])
        e = s.obj("Operator", "e", operator=enum("OperatorKind", "PREVIOUS"), children=[x, y], loc=var("loc"))
        out.append(expr_job(s, e))
    for k in ("SHIFT_LEFT", "COUNT"):
        op(k, ("IntType", "IntType"))

    for k in ("GLOBAL", "FUTURE", "HISTORICAL", "ONCE"):
        for ty in ("BoolType", "IntType"):
            for iv in (0, 1):
                s = TS(f"{k} {ty}{'' if iv else ' without interval'}")
                s.context()
                i = s.obj("Interval", "iv", lb=var("lb"), ub=var("ub")) if iv else None
                out.append(expr_job(s, s.obj("TemporalOperator", "e", operator=enum("OperatorKind", k), children=[s.child(0, ty)], interval=i, loc=var("loc"))))
    for k in ("UNTIL", "RELEASE", "SINCE", "TRIGGER"):
        for tys in (("BoolType", "BoolType"), ("IntType", "BoolType"), ("BoolType", "FloatType")):
            s = TS(f"{k} {' '.join(tys)}")
            s.context()
            i = s.obj("Interval", "iv", lb=var("lb"), ub=var("ub"))
            out.append(expr_job(s, s.obj("TemporalOperator", "e", operator=enum("OperatorKind", k), children=[s.child(j, t) for j, t in enumerate(tys)], interval=i, loc=var("loc"))))
    for ty in ("BoolType", "IntType"):
        s = TS(f"symbolic bounds {ty}")
        s.context()
        out.append(expr_job(s, s.obj("SymbolicTemporalOperator", "e", operator=enum("OperatorKind", "GLOBAL"), children=[s.child(0, ty)], loc=var("loc"))))

    # specifications
    for ty in ALL:
        s = TS(f"formula of {ty}")
        s.context(specifications={"g": var("g")})
        out.append(expr_job(s, s.obj("Formula", "e", symbol="f", children=[s.child(0, ty)], loc=var("loc"))))
    for a, b in (("BoolType", "BoolType"), ("IntType", "BoolType"), ("BoolType", "IntType")):
        s = TS(f"contract of {a} {b}")
        s.context(contracts={"d": var("d")})
        out.append(expr_job(s, s.obj("Contract", "e", symbol="c", children=[s.child(0, a), s.child(1, b)], loc=var("loc"))))

    # leaves
    for v in (0, 1, -1, 2147483647, 2147483648, -2147483647, -2147483648, 4294967295, 4294967296, True, 1.5):
        s = TS(f"constant {v}")
        s.context()
        out.append(expr_job(s, s.obj("Constant", "e", value=v, loc=var("loc"), type=s.typ("IntType", "t"))))
    for cls in ("CurrentTimestamp", "Atomic", "SymbolicIntervalVariable", "MissionTime"):
        s = TS(cls)
        s.context()
        out.append(expr_job(s, s.obj(cls, "e", loc=var("loc"), children=[])))
    for ty in ALL:
        s = TS(f"input of {ty}")
        s.context(signals={"i": s.typ(ty, "t"), "j": s.typ("BoolType", "u")}, signal_mapping={"i": var("slot")})
        out.append(expr_job(s, s.obj("Signal", "e", symbol="i", signal_id=var("id"), loc=var("loc"), engine=enum("R2U2Engine", "NONE"))))
        s = TS(f"unmapped input of {ty}")
        s.context(signals={"i": s.typ(ty, "t")}, signal_mapping={"j": var("slot")})
        out.append(expr_job(s, s.obj("Signal", "e", symbol="i", signal_id=var("id"), loc=var("loc"), engine=enum("R2U2Engine", "NONE"))))
    for where in ("bound_vars", "variables", "definitions", "structs", "enums", "specifications", "contracts", "members", "nowhere", "bound_vars+variables", "bound_vars ill"):
        s = TS(f"name in {where}")
        c = {"enums": {"E": {"A": var("ea"), "B": var("eb")}, "F": {"X": var("fx")}}}
        for w in where.split()[0].split("+"):
            if w == "bound_vars":
                c[w] = {"n": s.obj("ArrayExpression", "set", type=s.typ("ArrayType" if "ill" not in where else "IntType", "ts"))}
            elif w == "variables":
                c[w] = {"n": s.typ("IntType", "tv"), "m": s.typ("BoolType", "tm")}
            elif w == "definitions":
                c[w] = {"n": s.obj("Operator", "d", type=s.typ("IntType", "td"))}
            elif w == "enums":
                c[w]["n"] = {"P": var("p")}
            elif w in ("structs", "specifications", "contracts"):
                c[w] = {"n": var(w)}
        s.context(**c)
        name = {"members": "X", "nowhere": "q"}.get(where, "n")
        out.append(expr_job(s, s.obj("Variable", "e", symbol=name, loc=var("loc"))))

    # arrays and structs
    for tys in ((), ("BoolType",), ("IntType", "IntType"), ("IntType", "FloatType"), ("BoolType", "BoolType", "IntType"), ("IntType", "BoolType", "BoolType")):
        s = TS(f"array of {' '.join(tys)}")
        s.context()
        out.append(expr_job(s, s.obj("ArrayExpression", "e", children=[s.child(i, t) for i, t in enumerate(tys)], loc=var("loc"))))
    for size in (-1, 0, 3):
        for i in (0, 2, 3, 4, -1, -2, -3, -4):
            for cls in ("ArrayExpression", "Variable"):
                if cls == "Variable" and (i not in (0, 2) or size == 0):
                    continue
                s = TS(f"element {i} of {size} in {cls}")
                s.context(signals={"a": var("ta")}, enable_booleanizer=True if cls == "Variable" else var("bz"))
                t = s.typ("ArrayType", "t", size=size, member_type=s.typ("IntType", "tm"))
                e = s.obj("ArrayIndex", "e", index=i, children=[s.obj(cls, "arr", type=t, symbol="a")], loc=var("loc"))
                out.append(expr_job(s, e, pure=("__str__",)) if cls != "Variable" else index_job(s, e))
        for a, b in ((0, 0), (0, 2), (1, 2), (2, 1), (0, 3), (3, 3), (0, 4), (-1, 2), (-2, -1), (-3, 2), (-4, 2), (0, -4)):
            s = TS(f"slice {a}..{b} of {size}")
            s.context()
            t = s.typ("ArrayType", "t", size=size, member_type=s.typ("IntType", "tm"))
            out.append(expr_job(s, s.obj("ArraySlice", "e", start=a, stop=b, children=[s.obj("ArrayExpression", "arr", type=t)], loc=var("loc")), pure=("__str__",)))
    for cls in ("ArrayIndex", "ArraySlice"):
        s = TS(f"{cls} of an integer")
        s.context()
        out.append(expr_job(s, s.obj(cls, "e", index=0, start=0, stop=0, children=[s.child(0, "IntType")], loc=var("loc")), pure=("__str__",)))
    for member in ("x", "y", "z"):
        for name in ("T", "U"):
            s = TS(f"member {member} of {name}")
            s.context(structs={"T": {"x": s.typ("IntType", "tx"), "y": s.typ("BoolType", "ty")}, "R": {"z": s.typ("BoolType", "tz")}})
            e = s.obj("StructAccess", "e", member=member, children=[s.child(0, s.typ("StructType", "t0", symbol=name))], loc=var("loc"))
            out.append(expr_job(s, e))
    for cls in ("FunctionCall", "Struct"):
        for name in ("T", "U"):
            for tys in (("IntType", "BoolType"), ("BoolType", "IntType"), ("IntType",), ("IntType", "BoolType", "BoolType"), ()):
                s = TS(f"{cls} {name}({' '.join(tys)})")
                s.context(structs={"T": {"x": s.typ("IntType", "tx"), "y": s.typ("BoolType", "ty")}})
                out.append(expr_job(s, s.obj(cls, "e", symbol=name, children=[s.child(i, t) for i, t in enumerate(tys)], loc=var("loc"))))
    for kind in ("FOR_EACH", "FOR_SOME", "FOR_EXACTLY", "FOR_AT_LEAST", "FOR_AT_MOST"):
        for over, num, body in (("ArrayType", "IntType", "BoolType"), ("IntType", "IntType", "BoolType"), ("ArrayType", "FloatType", "BoolType"), ("ArrayType", "BoolType", "BoolType"),
                                ("ArrayType", "IntType", "IntType")):
            s = TS(f"{kind} {over} {num} {body}")
            s.context()
            kids = [s.child(0, over)] + ([s.child(1, num)] if kind not in ("FOR_EACH", "FOR_SOME") else []) + [s.obj("Bind", "bind"), s.child(2, body)]
            out.append(expr_job(s, s.obj("SetAggregation", "e", operator=enum("SetAggregationKind", kind), children=kids, bound_var=s.obj("Variable", "bv", symbol="k"), loc=var("loc"),
                                         type=s.typ("NoType", "te")), pure=("__str__",)))
    for cls in ("Bind", "Program"):
        s = TS(f"a {cls}")
        s.context()
        out.append(expr_job(s, s.obj(cls, "e", loc=var("loc"), children=[])))
    # every expression of a tree is checked, children first, until the first that is ill typed
    for t0, t1 in (("BoolType", "BoolType"), ("IntType", "BoolType"), ("BoolType", "IntType")):
        s = TS(f"tree {t0} {t1}")
        s.context()
        x = s.obj("Operator", "x", operator=enum("OperatorKind", "LOGICAL_NEGATE"), children=[s.child(0, t0)], loc=var("locx"))
        y = s.obj("Operator", "y", operator=enum("OperatorKind", "LOGICAL_NEGATE"), children=[s.child(1, t1)], loc=var("locy"))
        e = s.obj("Operator", "e", operator=enum("OperatorKind", "LOGICAL_AND"), children=[x, y], loc=var("loc"))
        out.append(expr_job(s, e, [x, y, e]))
    return out


def index_job(s, e):
    """The element of an array of inputs: a probe of its own is checked as an input."""
    from ..dd import leaf
    from .. import dd
    s.walk(e, [e])
    s.arg("start", e)

    def visit(ip, args, st):
        return leaf(dd.T("list", *dd.leaves(args[0])))
    s.more["cpt.postorder"] = visit
    return job("type_check", "type_check_expr", ignore=IGNORE, post=accepted, **follow(s.kw(unroll=4, pure=("__str__",))))


def checked(ip, args, st):
    """An expression of a declaration is checked: it may turn out well typed or not."""
    x = ip.val(args[0], st)
    ip.effect(st, "type_check_expr", [x], None)
    return dd.ite(dd.atom(dd.T("well typed", x.leaf if x.leaf is not None else dd.C("?"))), dd.leaf(dd.C(True)), dd.leaf(dd.C(False)))


def sections():
    """Declarations: every kind of section before and after another, with equal and different names."""
    out = []

    def section(s, kind, i, name):
        if kind.startswith("Input"):
            ty = {"Input": "IntType", "InputEnum": "StructType", "InputArray": "ArrayType"}[kind]
            t = s.typ(ty, f"t{i}", **({"symbol": "E"} if kind == "InputEnum" else {"size": 2, "member_type": s.typ("IntType", f"tm{i}")} if kind == "InputArray" else {}))
            d = s.obj("VariableDeclaration", f"d{i}", variables=[name, f"other{i}"] if kind == "Input" else [name], type=t, loc=var(f"loc{i}"))
            return s.obj("InputSection", f"sec{i}", signal_decls=[d])
        if kind == "Define":
            return s.obj("DefineSection", f"sec{i}", defines=[s.obj("Definition", f"d{i}", symbol=name, expr=s.obj("Operator", f"x{i}"), loc=var(f"loc{i}")),
                                                             s.obj("Definition", f"dd{i}", symbol=f"other{i}", expr=s.obj("Operator", f"xx{i}"), loc=var(f"loc{i}"))])
        if kind == "Struct":
            return s.obj("StructSection", f"sec{i}", struct_defs=[s.obj("StructDefinition", f"d{i}", symbol=name, members={"m": var(f"m{i}")}, loc=var(f"loc{i}"))])
        if kind.startswith("Enum"):
            v = s.obj("Signal" if kind == "EnumExpr" else "Constant", f"v{i}", type=s.typ("FloatType" if kind == "EnumFloat" else "IntType", f"t{i}"))
            d = s.obj("EnumDefinition", f"d{i}", symbol={"EnumMember": "E", "EnumOther": "G"}.get(kind, name), members={name if kind in ("EnumMember", "EnumOther") else f"A{i}": v}, loc=var(f"loc{i}"))
            return s.obj("EnumSection", f"sec{i}", enum_defs=[d])
        cls = "FutureTimeSpecSection" if kind.startswith("Future") else "PastTimeSpecSection"
        return s.obj(cls, f"sec{i}", specs=[s.obj("Formula", f"f{i}", symbol="" if kind.endswith("0") else name, loc=var(f"loc{i}")),
                                            s.obj("Contract", f"c{i}", symbol=f"other{i}", loc=var(f"loc{i}"))])
    kinds = ("Input", "InputEnum", "InputArray", "Define", "Struct", "Enum", "EnumMember", "EnumFloat", "EnumExpr", "Future", "Past", "Future0")

    def one(ks, names, tag):
        s = TS(tag)
        s.model("type_check.type_check_expr", checked)
        s.context(enums={"E": {"A": var("ea")}} if "InputEnum" in ks else {})
        s.set(P, sections=[section(s, k, i, n) for i, (k, n) in enumerate(zip(ks, names))])
        return job("type_check", "type_check", **follow(s.kw(unroll=4)))
    for k in kinds:
        out.append(one((k,), ("a",), k))
        for k2 in kinds:
            if "Expr" in k + k2 or "Float" in k + k2:
                continue
            out.append(one((k, k2), ("a", "a"), f"{k}, {k2} of the same name"))
            if k <= k2:
                out.append(one((k, k2), ("a", "b"), f"{k}, {k2}"))
    for n in ("a", "b"):
        for ks in (("EnumMember", "EnumOther"), ("EnumOther", "EnumMember"), ("Struct", "EnumOther"), ("EnumOther", "Define")):
            out.append(one(ks, ("a", n), f"{', '.join(ks)} {n}"))
    out.append(one((), (), "no section"))
    s = TS("one section with repeated names")
    s.model("type_check.type_check_expr", checked)
    s.context()
    d = [s.obj("Definition", f"d{i}", symbol="a", expr=s.obj("Operator", f"x{i}"), loc=var(f"loc{i}")) for i in range(2)]
    v = [s.obj("VariableDeclaration", f"v{i}", variables=["b", "c"][i:] + ["c"][:i], type=s.typ("IntType", f"t{i}"), loc=var(f"vloc{i}")) for i in range(2)]
    s.set(P, sections=[s.obj("DefineSection", "s0", defines=d), s.obj("InputSection", "s1", signal_decls=v)])
    out.append(job("type_check", "type_check", **follow(s.kw(unroll=4))))
    return out


def p05(rep):
    rep.tasks(cases() + sections())
