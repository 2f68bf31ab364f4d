"""Printed forms (cpt.to_infix_str, to_prefix_str, to_mltl_std, sections, programs) against texts written from the grammar."""
from __future__ import annotations
from .. import dd, pycompare
from ..dd import T, C, leaf
from ..pyfront import St, mk_cat, mk_str
from .compiler import interp, project, judge, where_of
from . import grammar
from .scen import Scen, var, enum, val

def cat(*parts):
    return mk_cat([C(p) if isinstance(p, str) else p for p in parts])


def S(t):
    return mk_str("str", t)


def between(parts, *sep):
    out = []
    for i, p in enumerate(parts):
        out += (list(sep) if i else []) + list(p)
    return out


class Tree:
    """An expression of a scenario together with its texts (infix, prefix, MLTL; None: no text)."""

    def __init__(self, obj, infix, prefix, mltl=None):
        self.obj, self.infix, self.prefix, self.mltl = obj, infix, prefix, mltl
        self.labelled = prefix


class Forest(Scen):
    def __init__(self, tag=""):
        super().__init__(tag)
        self.n = 0
        self.texts = {}

    def add(self, cls, infix, prefix, mltl=None, children=(), **attrs):
        o = self.obj(cls, f"n{self.n}", children=[c.obj for c in children], **attrs)
        self.n += 1
        t = Tree(o, infix, prefix, mltl)
        t.children = list(children)
        self.texts[o] = t
        return t

    def sym(self, cls):
        s = var(f"text symbol{self.n}")
        return self.add(cls, [s], [s], symbol=s)

    def const(self, text):
        low = text.lower()
        return self.add("Constant", [low], [low], [low, " "], symbol=C(text))

    def op(self, kind, *cs, cls="Operator"):
        s = var(f"text symbol{self.n}")
        n = [c.infix for c in cs]
        pre = ["(", s, " "] + between([c.prefix for c in cs], " ") + [")"]
        m = [c.mltl for c in cs]
        mltl = None
        if len(cs) == 1:
            inf = ["(", s, " ", *n[0], ")"]
            mltl = ["(", s, " ", *(m[0] or ["?"]), ")"]
        elif kind == "PREVIOUS":
            inf = [s, "(", *n[0], ",", *n[1], ")"]
        else:
            inf = ["("] + between(n, " ", s, " ") + [")"]
            ms = {"LOGICAL_AND": "&", "LOGICAL_OR": "|"}.get(kind, s)
            mltl = ["("] + between([x or ["?"] for x in m], " ", ms, " ") + [")"]
        return self.add(cls, inf, pre, mltl, cs, operator=enum("OperatorKind", kind), symbol=s)

    def call(self, cls, *cs, **kw):
        s = var(f"text symbol{self.n}")
        inf = [s, "("] + between([c.infix for c in cs], ", ") + [")"]
        pre = ["(", s] + [x for c in cs for x in [" "] + c.prefix] + [")"]
        return self.add(cls, inf, pre, None, cs, symbol=s, **kw)

    def array(self, *cs):
        return self.add("ArrayExpression", ["{"] + between([c.infix for c in cs], ", ") + ["}"], ["{"] + between([c.prefix for c in cs], " ") + ["}"], None, cs)

    def index(self, a):
        i = var(f"index{self.n}")
        return self.add("ArrayIndex", [*a.infix, "[", S(i), "]"], [*a.prefix, "[", S(i), "]"], None, [a], index=i)

    def slice(self, a):
        i, j = var(f"start{self.n}"), var(f"stop{self.n}")
        return self.add("ArraySlice", [*a.infix, "[", S(i), "..", S(j), "]"], [*a.prefix, "[", S(i), "..", S(j), "]"], None, [a], start=i, stop=j)

    def access(self, a):
        m = var(f"text member{self.n}")
        return self.add("StructAccess", [*a.infix, ".", m], [*a.prefix, ".", m], None, [a], member=m)

    def agg(self, kind, s, num, e):
        sym, v = var(f"text symbol{self.n}"), self.sym("Variable")
        b = self.add("Bind", [""], [""], bound_var=v.obj, set_expr=s.obj)
        n = [", ", *num.infix] if num else []
        p = [", ", *num.prefix] if num else []
        return self.add("SetAggregation", [sym, "(", *v.infix, " : ", *s.infix, *n, ")(", *e.infix, ")"],
                        ["(", sym, " (", *v.infix, " : ", *s.prefix, *p, ") ", *e.prefix, ")"], None,
                        [s] + ([num] if num else []) + [b, e], operator=enum("SetAggregationKind", kind), bound_var=v.obj, symbol=sym)

    def atomic(self, e):
        return self.add("Atomic", e.infix, ["Atomic(", *e.prefix, ")"], None, [e])

    def formula(self, label, e):
        internal = label.startswith("__") and label.endswith("__")
        t = self.add("Formula", ([] if internal else [label, ": "]) + e.infix + [";"], ([] if internal else [label, ": "]) + e.prefix, None, [e], symbol=C(label))
        t.labelled = [label, ": "] + e.prefix
        return t

    def contract(self, a, g):
        s = var(f"text symbol{self.n}")
        return self.add("Contract", [s, ": ", *a.infix, " => ", *g.infix, ";"], None, None, [a, g], symbol=s)


def expect(rep, mod, fn, scen, text, cls=None, models=None, unroll=12, pure=()):
    """The function returns exactly this text on this scenario."""
    p = project()
    if p.func(mod, fn) is None:
        rep.skip(f"{mod}.{fn}[{scen.tag}]", "no such function")
        return
    kw = scen.kw()
    ip = interp(pure, unroll, dict(kw["models"], **(models or {})))

    def start():
        st = St()
        return kw["setup"](ip, st), st
    ip.speak = True
    args, sa = start()
    ra, sa = ip.run(mod, fn, args=args, st=sa, cls=cls, called=list(scen.bind))
    _, sb = start()
    res = pycompare.compare(ip, ip.val(ra, sa), sa, leaf(text), sb)
    # only the text: the printing functions' effects are covered elsewhere
    res = [r for r in res if r[0].endswith("result") or r[0] == "return"] or res[:1]
    judge(rep, f"{mod}.{fn}{kw['tag']}", where_of(mod, fn), res, fn + kw["tag"])


def kind_ops():
    return [k for k in project().enum_members("OperatorKind")]


def shapes():
    """(tag, builder) for every kind of expression, with leaves and nested once."""
    out = []

    def add(tag, f):
        out.append((tag, f))
    for cls in ("CurrentTimestamp", "Variable", "Signal", "SymbolicIntervalVariable", "MissionTime", "Match"):
        add(cls, lambda f, cls=cls: f.sym(cls))
    for c in ("True", "False", "12", "-3", "1.5"):
        add(f"Constant {c}", lambda f, c=c: f.const(c))
    leafs = lambda f, n: [f.sym("Signal") for _ in range(n)]
    for n in range(4):
        add(f"array of {n}", lambda f, n=n: f.array(*leafs(f, n)))
        for cls in ("Struct", "FunctionCall"):
            add(f"{cls} of {n}", lambda f, n=n, cls=cls: f.call(cls, *leafs(f, n)))
        if n:
            add(f"count of {n}", lambda f, n=n: f.call("Operator", *leafs(f, n), operator=enum("OperatorKind", "COUNT")))
    add("index", lambda f: f.index(f.sym("Signal")))
    add("slice", lambda f: f.slice(f.sym("Signal")))
    add("access", lambda f: f.access(f.sym("Variable")))
    add("nested access", lambda f: f.access(f.index(f.slice(f.access(f.sym("Variable"))))))
    add("index of array", lambda f: f.index(f.array(*leafs(f, 2))))
    for k in ("BITWISE_NEGATE", "LOGICAL_NEGATE", "ARITHMETIC_NEGATE", "ARITHMETIC_SQRT", "ARITHMETIC_ABS", "GLOBAL", "FUTURE", "HISTORICAL", "ONCE"):
        cls = "TemporalOperator" if k in ("GLOBAL", "FUTURE", "HISTORICAL", "ONCE") else "Operator"
        add(k, lambda f, k=k, cls=cls: f.op(k, *leafs(f, 1), cls=cls))
        add(f"{k} nested", lambda f, k=k, cls=cls: f.op("LOGICAL_NEGATE", f.op(k, f.op("BITWISE_OR", *leafs(f, 2)), cls=cls)))
    for k in ("BITWISE_AND", "SHIFT_LEFT", "ARITHMETIC_SUBTRACT", "ARITHMETIC_POWER", "EQUAL", "LESS_THAN", "LOGICAL_AND", "LOGICAL_OR", "LOGICAL_XOR", "LOGICAL_IMPLIES",
              "LOGICAL_EQUIV", "PREVIOUS", "UNTIL", "RELEASE", "SINCE", "TRIGGER"):
        cls = "TemporalOperator" if k in ("UNTIL", "RELEASE", "SINCE", "TRIGGER") else "Operator"
        add(k, lambda f, k=k, cls=cls: f.op(k, *leafs(f, 2), cls=cls))
        add(f"{k} nested", lambda f, k=k, cls=cls: f.op(k, f.op("LOGICAL_NEGATE", *leafs(f, 1)), f.op(k, *leafs(f, 2), cls=cls), cls=cls))
    for k in ("LOGICAL_AND", "LOGICAL_OR", "ARITHMETIC_ADD", "BITWISE_XOR", "ARITHMETIC_MULTIPLY"):
        for n in (3, 4):
            add(f"{k} of {n}", lambda f, k=k, n=n: f.op(k, *leafs(f, n)))
        add(f"{k} of {n} nested", lambda f, k=k: f.op(k, f.op(k, *leafs(f, 3)), *leafs(f, 1), f.const("True")))
    for k in ("FOR_EACH", "FOR_SOME"):
        add(k, lambda f, k=k: f.agg(k, f.sym("Variable"), None, f.sym("Signal")))
        add(f"{k} nested", lambda f, k=k: f.agg(k, f.array(*leafs(f, 2)), None, f.op("LOGICAL_AND", *leafs(f, 2))))
    for k in ("FOR_EXACTLY", "FOR_AT_LEAST", "FOR_AT_MOST"):
        add(k, lambda f, k=k: f.agg(k, f.sym("Variable"), f.const("2"), f.sym("Signal")))
        add(f"{k} nested", lambda f, k=k: f.agg(k, f.array(*leafs(f, 2)), f.op("ARITHMETIC_ADD", *leafs(f, 2)), f.op("LOGICAL_AND", *leafs(f, 2))))
    add("Atomic", lambda f: f.atomic(f.op("EQUAL", *leafs(f, 2))))
    for label in ("name", "__f0__", "_x_", "__half"):
        add(f"Formula {label}", lambda f, label=label: f.formula(label, f.op("LOGICAL_AND", *leafs(f, 2))))
    add("Contract", lambda f: f.contract(f.op("LOGICAL_AND", *leafs(f, 2)), *leafs(f, 1)))
    return out


def p31(rep):
    jobs = []
    for tag, make in shapes():
        def go(r, tag=tag, make=make):
            for fn, attr in (("to_infix_str", "infix"), ("to_prefix_str", "prefix")):
                f = Forest(tag)
                t = make(f)
                f.arg("start", t.obj)
                if fn == "to_prefix_str":
                    if t.prefix is None:
                        continue
                    f.arg("with_internal_labels", False)
                models = {"cpt.Expression.__str__": lambda ip, a, st, f=f: said(ip, a, st, f, "infix")}
                expect(r, "cpt", fn, f, cat(*getattr(t, attr)), models=models)
            if t.labelled is not t.prefix:
                f = Forest(tag + " labelled")
                t = make(f)
                f.arg("start", t.obj)
                f.arg("with_internal_labels", True)
                expect(r, "cpt", "to_prefix_str", f, cat(*t.labelled))
        jobs.append((tag, go))
    mltl(jobs)
    sections(jobs)
    jobs.append(("operator texts", grammar.written))
    rep.tasks(jobs)


def said(ip, args, st, forest, attr):
    a = dd.leaves(ip.val(args[0], st))
    if len(a) == 1 and a[0] in forest.texts:
        return leaf(cat(*getattr(forest.texts[a[0]], attr)))
    return ip.pure("str", args, {}, st)


def mltl(rep_jobs):
    """to_mltl_std on programs of one or two formulas; atomics are named by their ids."""
    cases = {
        "atomic": lambda f, A: f.formula("x", A()),
        "true": lambda f, A: f.formula("x", f.const("True")),
        "negation": lambda f, A: f.formula("x", f.op("LOGICAL_NEGATE", A())),
        "and 3": lambda f, A: f.formula("x", f.op("LOGICAL_AND", A(), A(), A())),
        "or 2": lambda f, A: f.formula("x", f.op("LOGICAL_OR", A(), A())),
        "implies": lambda f, A: f.formula("x", f.op("LOGICAL_IMPLIES", A(), f.op("LOGICAL_OR", A(), A()))),
        "equiv": lambda f, A: f.formula("x", f.op("LOGICAL_EQUIV", A(), A())),
        "until": lambda f, A: f.formula("x", f.op("UNTIL", A(), f.op("LOGICAL_AND", A(), A()), cls="TemporalOperator")),
        "global": lambda f, A: f.formula("x", f.op("GLOBAL", f.op("FUTURE", A(), cls="TemporalOperator"), cls="TemporalOperator")),
        "since": lambda f, A: f.formula("x", f.op("SINCE", f.op("LOGICAL_NEGATE", A()), f.op("ONCE", A(), cls="TemporalOperator"), cls="TemporalOperator")),
        "same atomic": lambda f, A: f.formula("x", f.op("RELEASE", *[A()] * 2, cls="TemporalOperator")),
        "two": lambda f, A: (f.formula("x", f.op("LOGICAL_OR", A(), A())), f.formula("y", f.op("LOGICAL_NEGATE", A()))),
        "contract": lambda f, A: (f.formula("x", A()), f.contract(A(), A()), f.formula("y", f.op("LOGICAL_NEGATE", A()))),
    }
    for tag, make in cases.items():
        def go(r, tag=tag, make=make):
            f = Forest(tag)
            ids = {}

            def atom():
                t = f.sym("Signal")
                ids[t.obj] = var(f"id{len(ids)}")
                t.mltl = ["a", S(ids[t.obj])]
                return t
            specs = make(f, atom)
            specs = specs if isinstance(specs, tuple) else (specs,)
            text = []
            for s in specs:
                if s.obj.args[0] == "Formula":
                    body = s.children[0]
                    text += body.mltl + ["\n"]
            ft, pt = f.obj("SpecificationSet", "ft", children=[s.obj for s in specs[:1]]), f.obj("SpecificationSet", "pt", children=[s.obj for s in specs[1:]])
            f.arg("program", f.obj("Program", "program", ft_spec_set=ft, pt_spec_set=pt))
            f.arg("context", f.obj("Context", "context", atomic_id_map=ids))
            expect(r, "cpt", "to_mltl_std", f, cat(*text))
        rep_jobs.append((f"mltl {tag}", go))


def sections(jobs):
    def add(cls, meth, tag, make):
        def go(r):
            f = Forest(tag)
            o, text = make(f)
            f.arg("self", o)
            expect(r, "cpt", f"{cls}.{meth}", f, cat(*text), cls=cls)
        jobs.append((f"{cls}.{meth} {tag}", go))

    def ty(f, i):
        s = var(f"text type{i}")
        return f.obj("BoolType", f"type{i}", symbol=s), [s]

    def arr(f, i, size):
        m, t = ty(f, i)
        return f.obj("ArrayType", f"array{i}", member_type=m, size=size), t + ["[", "" if size < 0 else str(size), "]"]

    def decl(f, i, n, t=None):
        names = [var(f"text name{i}.{j}") for j in range(n)]
        o, text = t or ty(f, i)
        return f.obj("VariableDeclaration", f"decl{i}", variables=names, type=o), between([[x] for x in names], ",") + [": "] + text

    def definition(f, i):
        s, e = var(f"text defined{i}"), f.op("LOGICAL_AND", f.sym("Signal"), f.sym("Variable"))
        return f.obj("Definition", f"definition{i}", symbol=s, expr=e.obj), [s, " := ", *e.infix]

    def struct(f, i, n):
        s, ds = var(f"text struct{i}"), [decl(f, 10 * i + j, 1 + j) for j in range(n)]
        return f.obj("StructDefinition", f"struct{i}", symbol=s, var_decls=[d for d, _ in ds]), [s, ": {", *between([t + [";"] for _, t in ds], " "), "}"]

    def enumdef(f, i, n):
        s, ds, texts = var(f"text enum{i}"), [], []
        for j in range(n):
            m, c = var(f"text member{i}.{j}"), f.const(str(3 * j + i))
            ds.append(f.obj("Definition", f"member{i}.{j}", symbol=m, expr=c.obj))
            texts.append([m, ": ", *c.infix])
        return f.obj("EnumDefinition", f"enum{i}", symbol=s, var_defs=ds), [s, ": {", *between(texts, ", "), "}"]

    def section(f, cls, field, word, items, semi=";"):
        return f.obj(cls, f"section {word}", **{field: [o for o, _ in items]}), [word, "\n\t", *between([t + [semi] for _, t in items], "\n\t")]

    def specs(f, n):
        out = []
        for i in range(n):
            t = f.contract(f.sym("Signal"), f.sym("Signal")) if i == 1 else f.formula(["name", "__f0__", "last"][i], f.op("LOGICAL_OR", f.sym("Signal"), f.sym("Signal")))
            out.append((t.obj, t.infix))
        return out
    SECTIONS = {
        "StructSection": lambda f, n: section(f, "StructSection", "struct_defs", "STRUCT", [struct(f, i, 2 - i) for i in range(n)]),
        "EnumSection": lambda f, n: section(f, "EnumSection", "enum_defs", "ENUM", [enumdef(f, i, 3 - i) for i in range(n)]),
        "InputSection": lambda f, n: section(f, "InputSection", "signal_decls", "INPUT", [decl(f, 100 + i, 2 - i) for i in range(n)]),
        "DefineSection": lambda f, n: section(f, "DefineSection", "defines", "DEFINE", [definition(f, i) for i in range(n)]),
        "FutureTimeSpecSection": lambda f, n: section(f, "FutureTimeSpecSection", "specs", "FTSPEC", specs(f, n), ""),
        "PastTimeSpecSection": lambda f, n: section(f, "PastTimeSpecSection", "specs", "PTSPEC", specs(f, n), ""),
    }
    for size in (-1, 0, 7):
        add("VariableDeclaration", "__str__", f"array {size}", lambda f, size=size: decl(f, 0, 2, arr(f, 0, size)))
    for n in (1, 2, 3):
        add("VariableDeclaration", "__str__", f"{n}", lambda f, n=n: decl(f, 0, n))
        add("StructDefinition", "__str__", f"{n}", lambda f, n=n: struct(f, 0, n))
        add("EnumDefinition", "__str__", f"{n}", lambda f, n=n: enumdef(f, 0, n))
    add("Definition", "__str__", "", lambda f: definition(f, 0))
    for cls, make in SECTIONS.items():
        for n in (1, 2) + ((3,) if "Spec" in cls else ()):
            add(cls, "__str__", f"{n}", lambda f, n=n, make=make: make(f, n))

    def whole(f, order):
        ss = [SECTIONS[c](f, 1) for c in order]
        return f.obj("Program", "program", sections=[o for o, _ in ss]), between([t for _, t in ss], "\n")
    order = list(SECTIONS)
    for tag, o in (("as declared", order), ("reversed", order[::-1]), ("specifications only", order[4:])):
        add("Program", "__str__", tag, lambda f, o=o: whole(f, o))

    def prefixes(f):
        ft = [f.formula("name", f.op("LOGICAL_OR", f.sym("Signal"), f.sym("Signal"))), f.formula("__f1__", f.sym("Signal"))]
        pt = [f.formula("__p0__", f.op("LOGICAL_NEGATE", f.sym("Signal")))]
        sets = [f.obj("SpecificationSet", n, children=[t.obj for t in ts]) for n, ts in (("ft", ft), ("pt", pt))]
        return f.obj("Program", "program", ft_spec_set=sets[0], pt_spec_set=sets[1]), between([t.labelled for t in ft + pt], "\n")
    add("Program", "__repr__", "", prefixes)
