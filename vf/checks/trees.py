"""Expression trees: constructors, accessors, classification, rewiring, traversal, copying (cpt.py, stats.py, main.py)."""
from __future__ import annotations
import re
from .. import dd
from ..dd import T, C, leaf
from ..pyfront import St
from .compiler import job, project, interp, where_of
from .scen import Scen, var, enum


def members(prefix=""):
    """Functions and methods of cpt that ref/py/cpt.py specifies."""
    out = []
    for name in project().mods["ref_cpt"].funcs:
        m = re.match(r"([A-Z]\w*?)_(__\w+__|[A-Za-z]\w*)$", name)
        if m and m[1] in project().mods["cpt"].classes:
            out.append((f"{m[1]}.{m[2]}", name, m[1]))
        elif name in project().mods["cpt"].funcs:
            out.append((name, name, None))
    return out


TRAVERSE = {"postorder", "preorder", "deepcopy_expr", "rename", "deepcopy_program_with_context", "assign_signal_ids"}


BASE = ("engine", "scq_size", "scq", "bpd", "wpd", "type", "children", "parents", "replacement")


def p30(rep):
    jobs = []
    for fn, ref, cls in members():
        meth = fn.split(".")[-1]
        if fn in TRAVERSE or cls == "Context" or meth in ("deepcopy", "replace", "get_siblings") or cls == "Program":
            continue
        ignore = (".type",) if fn in ("TemporalOperator.Trigger", "SymbolicTemporalOperator.Trigger") else (".symbol",) if fn == "TemporalOperator.Future" else ()
        if cls and meth == "__init__":
            s = Scen()
            me = s.arg("self", T("o", cls, "self")) or T("o", cls, "self")
            kinds = project().supers(cls)
            # whatever the constructor leaves out shows as "unset"
            s.set(me, **{a: "unset" for a in ("loc", "symbol") + (BASE if "Expression" in kinds else ())})
            jobs.append(job("cpt", fn, reffn=ref, cls=cls, ignore=ignore, **s.kw(unroll=3)))
        else:
            jobs.append(job("cpt", fn, reffn=ref, cls=cls, ignore=ignore, unroll=3))
    jobs += rewiring() + walks() + programs()
    rep.tasks(jobs)


def rewiring():
    """replace and get_siblings on small graphs: shared operands, several parents, a node twice below one parent."""
    out = []
    shapes = {"one": [("a",)], "twice": [("a", "x", "a")], "two": [("a", "x"), ("y", "a")], "new too": [("a", "n"), ("n", "a")], "none": []}
    for tag, ps in shapes.items():
        for same in (False, True):
            s = Scen(tag + (" itself" if same else ""))
            n = {k: s.obj("Operator", k) for k in "axynbc"}
            parents = [s.obj("Operator", f"p{i}", children=[n[c] for c in cs]) for i, cs in enumerate(ps)]
            for k in "axyn":
                s.set(n[k], parents=set(p for p, cs in zip(parents, ps) if k in cs))
            s.set(n["a"], children=[n["b"], n["c"]])
            s.set(n["b"], parents={n["a"]})
            s.set(n["c"], parents={n["a"], n["y"]})
            s.arg("self", n["a"])
            s.arg("new", n["a"] if same else n["n"])
            out.append(job("cpt", "Expression.replace", reffn="Expression_replace", cls="Operator", **s.kw(unroll=4)))
            if not same:
                out.append(job("cpt", "Expression.get_siblings", reffn="Expression_get_siblings", cls="Operator", **s.kw(unroll=4)))
    return out


def programs():
    out = []

    def prog(s, **kw):
        ft, pt = s.obj("SpecificationSet", "ft"), s.obj("SpecificationSet", "pt")
        f = {n: s.obj(k, n, symbol=var(f"{n}.symbol")) for n, k in (("f0", "Formula"), ("f1", "Contract"), ("p0", "Formula"), ("p1", "Formula"))}
        for n in ("f0", "p0", "p1"):
            s.set(f[n], children=[s.obj("Operator", n + ".expr", wpd=var(f"{n}.wpd"))])
        s.set(ft, children=[f["f0"], f["f1"]])
        s.set(pt, children=[f["p0"], f["p1"]])
        return s.obj("Program", "self", ft_spec_set=ft, pt_spec_set=pt, **kw), ft, pt, f

    def add(fn, s, **kw):
        out.append(job("cpt", f"Program.{fn}", reffn=f"Program_{fn}", cls="Program", **s.kw(unroll=6, **kw)))
    s = Scen()
    secs = []
    for i, (cls, field, items) in enumerate((("DefineSection", "defines", 2), ("PastTimeSpecSection", "specs", 1), ("FutureTimeSpecSection", "specs", 2), ("InputSection", "signal_decls", 1),
                                            ("FutureTimeSpecSection", "specs", 1), ("PastTimeSpecSection", "specs", 2), ("DefineSection", "defines", 1))):
        secs.append(s.obj(cls, f"sec{i}", **{field: [var(f"item{i}.{j}") for j in range(items)]}))
    s.arg("self", T("o", "Program", "self"))
    s.arg("sections", secs)
    add("__init__", s)
    for fn in ("get_specs", "get_max_wpd", "get_spec"):
        s = Scen()
        me, ft, pt, f = prog(s)
        s.arg("self", me)
        add(fn, s)
    for fn in ("postorder", "preorder", "postorder_with_definitions", "get_num_signals", "get_num_temporal_operators"):
        s = Scen()
        d = [s.obj("Definition", f"d{i}", expr=s.obj("Operator", f"def{i}")) for i in range(2)]
        me, ft, pt, f = prog(s, definitions=d)
        nodes = [s.obj(k, f"n{i}") for i, k in enumerate(("Signal", "Constant", "TemporalOperator", "Operator", "Signal"))]
        s.walk(T("o", "Operator", "def0"), nodes[:2])
        s.walk(T("o", "Operator", "def1"), nodes[2:3])
        s.walk(ft, nodes[1:4], nodes[4:0:-1])
        s.walk(pt, nodes[3:], nodes[:2])
        if fn != "postorder":
            s.walk(me, nodes[:4], nodes[1:])
        s.arg("self", me)
        add(fn, s)
    s = Scen()
    sigs = [s.obj("Signal", f"sig{i}", symbol=var(f"name{i}"), signal_id=-1) for i in range(2)]
    p = var("program")
    s.walk(p, [sigs[0], s.obj("Operator", "op"), sigs[1]])
    s.arg("signal_mapping", {"a": var("ia"), "b": var("ib")})
    s.arg("program", p)
    out.append(job("cpt", "assign_signal_ids", **s.kw(unroll=6)))
    for name in ("x", "y"):
        s = Scen(f"body is a variable {name}")
        e, c = s.obj("Variable", "e", symbol=C(name)), s.obj("Variable", "copy", symbol=C(name))
        s.model("cpt.Expression.deepcopy", lambda ip, args, st, c=c: leaf(c))
        s.walk(c, [c])
        s.arg("expr", e)
        s.arg("target", s.obj("Variable", "target", symbol=C("x")))
        s.arg("repl", s.obj("Signal", "repl"))
        out.append(job("cpt", "rename", **s.kw(unroll=6, effects=("replace",))))
    s = Scen()
    e, c = s.obj("Operator", "e"), s.obj("Operator", "copy")
    tgt = s.obj("Variable", "target", symbol=C("x"))
    vs = [s.obj("Variable", f"v{i}", symbol=var(f"name{i}")) for i in range(2)]
    s.model("cpt.Expression.deepcopy", lambda ip, args, st: leaf(c))
    s.walk(c, vs + [c])
    s.arg("expr", e)
    s.arg("target", tgt)
    s.arg("repl", s.obj("Signal", "repl"))
    out.append(job("cpt", "rename", **s.kw(unroll=6, effects=("replace",))))
    return out


# a tree is a dict node -> children; the expected visits follow from the definition of the order
TREES = {
    "leaf": {"a": ""}, "chain": {"a": "b", "b": "c", "c": ""}, "fork": {"a": "bc", "b": "", "c": ""}, "deep left": {"a": "bc", "b": "de", "c": "", "d": "", "e": ""},
    "shared": {"a": "bc", "b": "d", "c": "d", "d": ""}, "same operand twice": {"a": "bb", "b": "c", "c": ""}, "cross": {"a": "bc", "b": "", "c": "b"}, "three": {"a": "bcd", "b": "", "c": "", "d": ""},
}


def expected_post(tree, starts):
    out, seen = [], set()

    def go(n):
        if n in seen:
            return
        seen.add(n)
        for c in tree[n]:
            go(c)
        out.append(n)
    for s in starts:
        go(s)
    return out


def expected_pre(tree, starts, repl={}):
    out, seen = [], set()

    def go(n):
        if n in seen:
            return
        out.append(n)
        if n in repl:
            go(repl[n])
            return
        seen.add(n)
        for c in tree[n]:
            go(c)
    for s in starts:
        go(s)
    return out


def visit_job(fn, tag, tree, starts, want, as_list=False, repl={}, kinds={}):
    def f(rep):
        if project().func("cpt", fn) is None:
            rep.skip(f"cpt.{fn}", "no such function")
            return
        s = Scen()
        o = {n: T("o", kinds.get(n, "Operator"), n) for n in tree}
        for n, cs in tree.items():
            s.set(o[n], children=[o[c] for c in cs], replacement=o[repl[n]] if n in repl else None)
            if kinds.get(n) == "SetAggregation":
                s.set(o[n], bound_var=T("o", "Variable", "bv"))
            if kinds.get(n) == "Bind":
                s.set(o[n], bound_var=T("o", "Variable", "bv"), set_expr=T("v", "the set"))
        s.set(T("o", "Variable", "bv"), symbol=C("x"))
        ctx = T("v", "context")
        s.set(ctx, bound_vars={})
        s.arg("start", [o[n] for n in starts] if as_list else o[starts[0]])
        kw = s.kw()
        ip = interp((), 24, {}, {}, ())
        st = St()
        args = kw["setup"](ip, st)
        _, st = ip.run("cpt", fn, args=dict(args, context=leaf(ctx)), st=st)
        key = f"cpt.{fn}[{tag}]"
        io = ip.get(st, "$io")
        outs = [] if io is None else [(c, l) for c, l in dd.cubes(dd.ite(ip.get(st, "$trunc"), leaf(T("c", "cut")), io)) if dd.consistent(tuple(c))]
        got = []
        for c, l in outs:
            seq, t = [], l
            while t.op == "seq" and t.args:
                if t.args[1].args[0] == "yield":
                    seq.append(t.args[1])
                t = t.args[0]
            got.append((c, seq[::-1], l))
        if len(got) != 1 or got[0][2].op != "seq":
            rep.skip(key, f"order not determined ({len(got)} cases)")
            return
        names = []
        for e in got[0][1]:
            v = e.args[1]
            while v.op in ("list", "tuple") and len(v.args) == 1:
                v = v.args[0]
            names.append(v.args[1] if v.op == "o" else "?")
        if "?" in names:
            rep.skip(key, "visited node not determined")
        elif names == list(want):
            rep.ok(what="visits", sample=f"{fn} {tag}: {' '.join(names)}")
        else:
            rep.bad(key, f"visits {' '.join(names)}, specified {' '.join(want)}", where_of("cpt", fn))
    return (f"{fn} {tag}", f)


def walks():
    out = []
    for tag, tree in TREES.items():
        out.append(visit_job("postorder", tag, tree, ["a"], expected_post(tree, ["a"])))
        out.append(visit_job("preorder", tag, tree, ["a"], expected_pre(tree, ["a"])))
    two = {"a": "c", "b": "cd", "c": "", "d": ""}
    out.append(visit_job("postorder", "two roots", two, ["a", "b"], expected_post(two, ["b", "a"]), as_list=True))
    return out


# ------------------------------------------------------------------------------------------ copying and clearing the state
TABLES = ("definitions", "structs", "enums", "signals", "variables", "specifications", "contracts", "atomic_id_map", "atomic_expr_map", "bound_vars")
LEAVES = ("loc", "symbol", "type", "engine", "bpd", "wpd", "scq", "scq_size")


def full_context(s, name="ctx"):
    c = s.obj("Context", name)
    s.set(c, **{k: {f"{k} key": var(f"{k} value")} for k in TABLES})
    s.set(c, signal_mapping={"signal": var("number")}, assembly=[var("instruction")], bounds=[s.obj("SymbolicIntervalVariable", "bound")], constraints=[s.obj("Operator", "constraint")], stats=s.obj("Stats", "stats"))
    return c


def copy_cases():
    """One node of every kind above signals, one of which is used twice."""
    def sig(s, n):
        return s.obj("Signal", n, **{a: var(f"{n}.{a}") for a in LEAVES + ("signal_id",)})
    out = []
    two = {"Operator": {"operator": var("op")}, "ArrayExpression": {}, "Struct": {"members": var("members")}, "FunctionCall": {}, "TemporalOperator": None, "SymbolicTemporalOperator": None,
           "Contract": {"formula_numbers": (var("n1"), var("n2"), var("n3"))}}
    one_ = {"Formula": {"formula_number": var("n")}, "ArrayIndex": {"index": var("i")}, "ArraySlice": {"start": var("i"), "stop": var("j")}, "StructAccess": {"member": var("m")}, "Atomic": {}}
    zero = {"Constant": {"value": var("val")}, "MissionTime": {}, "CurrentTimestamp": {}, "Variable": {}, "SymbolicIntervalVariable": {}, "Signal": {"signal_id": var("sid")}}
    for arity, kinds in ((2, two), (1, one_), (0, zero)):
        for kind, extra in kinds.items():
            s = Scen(kind)
            a, b = sig(s, "a"), sig(s, "b")
            n = s.obj(kind, "n", **{x: var(f"n.{x}") for x in LEAVES})
            if extra is None:
                iv = s.obj("ConcreteInterval" if kind == "TemporalOperator" else "SymbolicInterval", "interval", lb=var("lb"), ub=var("ub"))
                extra = {"operator": var("op"), "interval": iv}
            s.set(n, **extra)
            s.set(n, children=[a, b, a][:arity] if kind not in ("Operator", "ArrayExpression", "Struct", "FunctionCall") else [a, b, a])
            ctx = s.obj("Context", "ctx", enable_booleanizer=var("booleanizer"), atomic_id_map={n: var("number"), b: var("other number")}, atomic_expr_map={})
            s.walk(n, [a, b, n] if arity == 2 else [a, n] if arity else [n])
            s.arg("start", n)
            s.arg("context", ctx)
            s.arg("memo", {})
            out.append(job("cpt", "deepcopy_expr", refmod="ref_state", **s.kw(unroll=6)))
    for num in (False, True):
        s = Scen("SetAggregation" + (" with a number" if num else ""))
        st, k, x = sig(s, "set"), sig(s, "number"), sig(s, "body")
        bv = s.obj("Variable", "bv", symbol=var("bound name"))
        bind = s.obj("Bind", "bind", bound_var=bv, set_expr=st, **{a: var(f"bind.{a}") for a in LEAVES})
        n = s.obj("SetAggregation", "n", bound_var=bv, operator=var("op"), children=[st] + ([k] if num else []) + [bind, x], **{a: var(f"n.{a}") for a in LEAVES})
        ctx = s.obj("Context", "ctx", enable_booleanizer=var("booleanizer"), atomic_id_map={}, atomic_expr_map={})
        s.walk(n, [st] + ([k] if num else []) + [x, n])
        s.arg("start", n)
        s.arg("context", ctx)
        s.arg("memo", {})
        out.append(job("cpt", "deepcopy_expr", refmod="ref_state", **s.kw(unroll=6)))
    return out


def section_cases():
    out = []

    def add(cls, s, me, **kw):
        s.arg("self", me)
        s.arg("context", s.obj("Context", "ctx", **{k: {} for k in TABLES}))
        kw.setdefault("pure", PURE)
        out.append(job("cpt", f"{cls}.deepcopy", refmod="ref_state", reffn=f"{cls}_deepcopy", cls=cls, **s.kw(unroll=4, **kw)))
    s = Scen()
    add("VariableDeclaration", s, s.obj("VariableDeclaration", "d", variables=[var("x"), var("y")]))
    s = Scen()
    add("Definition", s, s.obj("Definition", "d"))
    s = Scen()
    add("StructDefinition", s, s.obj("StructDefinition", "d", var_decls=[s.obj("VariableDeclaration", "v0"), s.obj("VariableDeclaration", "v1")]))
    s = Scen()
    add("EnumDefinition", s, s.obj("EnumDefinition", "d", var_defs=[s.obj("Definition", "v0"), s.obj("Definition", "v1")]))
    for cls, item, field in (("StructSection", "StructDefinition", "struct_defs"), ("EnumSection", "EnumDefinition", "enum_defs"), ("InputSection", "VariableDeclaration", "signal_decls"), ("DefineSection", "Definition", "defines")):
        s = Scen()
        add(cls, s, s.obj(cls, "section", **{field: [s.obj(item, "i0"), s.obj(item, "i1")]}), pure=(f"{item}.deepcopy",))
    for cls in ("FutureTimeSpecSection", "PastTimeSpecSection"):
        for kinds in (("Formula", "Contract"), ("Contract", "Formula"), ()):
            s = Scen(cls + " " + "+".join(kinds))
            s.arg("self", s.obj(cls, "section", specs=[s.obj(k, f"s{i}", symbol=var(f"name{i}")) for i, k in enumerate(kinds)]))
            s.arg("context", s.obj("Context", "ctx", **{k: {} for k in TABLES}))
            out.append(job("cpt", "SpecSection.deepcopy", refmod="ref_state", reffn="SpecSection_deepcopy", cls="SpecSection", **s.kw(unroll=4, pure=PURE)))
    s = Scen()
    add("SpecificationSet", s, s.obj("SpecificationSet", "d", children=[s.obj("Formula", "v0"), s.obj("Contract", "v1")], **{x: var(f"n.{x}") for x in LEAVES}))
    return out


PURE = ("cpt.Expression.deepcopy", "cpt.deepcopy_expr", "stats.Stats.deepcopy")


def p19(rep):
    jobs = []
    s = Scen()
    s.arg("self", full_context(s))
    jobs.append(job("cpt", "Context.deepcopy", refmod="ref_state", reffn="Context_deepcopy", cls="Context", **s.kw(unroll=4, pure=PURE)))
    for h in ("change_original", "change_copy"):
        s = Scen()
        s.arg("context", full_context(s))
        jobs.append(job("ref_state", h, refmod="ref_state", reffn=h + "_spec", **s.kw(unroll=4, pure=PURE)))
    for fn, ref, cls in members():
        if cls != "Context":
            continue
        s = Scen()
        c = full_context(s)
        if fn == "Context.__init__":
            c = T("o", "Context", "self")
            s = Scen()
        s.arg("self", c)
        for past in ((False, True) if "time" in fn else (None,)):
            if past is not None:
                s.set(c, is_ft=past)
            jobs.append(job("cpt", fn, reffn=ref, cls=cls, **s.kw(unroll=4)))
    for fn in ("deepcopy", "reset_smt_stats", "set_spec_filename"):
        s = Scen()
        s.arg("self", s.obj("Stats", "stats"))
        jobs.append(job("stats", f"Stats.{fn}", refmod="ref_state", reffn=f"Stats_{fn}", cls="Stats", **s.kw(unroll=2)))
    for now in ("as read", "contract replaced", "one left"):
        s = Scen(now)
        f, c, q = s.obj("Formula", "f"), s.obj("Contract", "c"), s.obj("Formula", "q")
        new = [s.obj("Formula", f"new{i}") for i in range(2)]
        secs = [s.obj("FutureTimeSpecSection", "fts", specs=[f, c]), s.obj("InputSection", "inputs"), s.obj("PastTimeSpecSection", "pts", specs=[q])]
        copies = {secs[0]: s.obj("FutureTimeSpecSection", "fts copy", specs=[var("f copy"), var("c copy")]), secs[1]: s.obj("InputSection", "inputs copy"),
                  secs[2]: s.obj("PastTimeSpecSection", "pts copy", specs=[var("q copy")])}
        now_ft = {"as read": [f, c], "contract replaced": [f] + new, "one left": [c]}[now]
        me = s.obj("Program", "self", sections=secs, ft_spec_set=s.obj("SpecificationSet", "ft", children=now_ft), pt_spec_set=s.obj("SpecificationSet", "pt", children=[q]))
        s.arg("self", me)
        for cls in ("SpecSection", "InputSection"):
            s.model(f"cpt.{cls}.deepcopy", lambda ip, args, st, copies=copies: leaf(copies[dd.leaves(args[0])[0]]))
        jobs.append(job("cpt", "Program.deepcopy", refmod="ref_state", reffn="Program_deepcopy", cls="Program", **s.kw(unroll=6, pure=PURE)))
    jobs += copy_cases() + section_cases()
    jobs.append(job("cpt", "deepcopy_program_with_context", refmod="ref_state", effects=("deepcopy",), unroll=2))
    rep.tasks(jobs)
