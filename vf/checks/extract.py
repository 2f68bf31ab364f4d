"""P23: what the equality-saturation engine answers becomes the formula, and only that."""
from __future__ import annotations
from .. import dd
from ..dd import C, T, leaf
from . import grammar
from .compiler import job
from .scen import Scen, enum, val, var
from .solver import quiet


def parse_scenarios():
    """Trees of the engine's answer with the atomics they mention, shared or not."""
    for shape in ("a", "and", "twice", "shared", "const", "until"):
        for par in ("root", "both", "none"):
            s = quiet(Scen(f"{shape} {par}"))
            lx, ps = s.obj("EgglogOutputLexer", "lexer"), s.obj("EgglogOutputParser", "parser")
            sig = [s.obj("Signal", f"sig{i}", symbol=f"a{i}", parents=set(), children=[]) for i in (0, 1, 2)]
            atoms = [s.obj("Atomic", f"atomic{i}", children=[], type=var(f"t{i}")) for i in range(3)]
            other = s.obj("Operator", "other")
            if shape == "a":
                root, order = sig[1], [sig[1]]
            elif shape == "const":
                root = s.obj("Constant", "root", children=[], parents=set())
                order = [root]
            elif shape == "twice":
                again = s.obj("Signal", "sig0'", symbol="a0", parents=set(), children=[])
                root = s.obj("LogicalAnd", "root", children=[sig[0], again], parents=set())
                s.set(again, parents={root})
                s.set(sig[0], parents={root})
                sig.append(again)
                order = [sig[0], again, root]
            else:
                kids = {"and": sig[:2], "shared": [sig[0], sig[0]], "until": sig[1:3]}[shape]
                root = s.obj("TemporalOperator" if shape == "until" else "LogicalAnd", "root", children=kids, parents=set())
                order = list(dict.fromkeys(kids)) + [root]
                for k in order[:-1]:
                    s.set(k, parents={root})
            for i, a in enumerate(atoms):
                s.set(a, parents={"root": {other}, "both": {other, root}, "none": set()}[par] if shape != "a" else {other})
            s.walk(root, order)
            s.arg("egglog_output", var("text output"))
            s.arg("options", var("options"))
            ctx = s.obj("Context", "context")
            s.set(ctx, atomic_expr_map={0: atoms[0], 1: atoms[1], 2: atoms[2]})
            s.arg("context", ctx)
            s.model("parse_egglog_output.EgglogOutputLexer", lambda ip, a, st, o=lx: leaf(o))
            s.model("parse_egglog_output.EgglogOutputParser", lambda ip, a, st, o=ps: leaf(o))
            for n in ("EgglogOutputParser.parse",):
                s.model(n, lambda ip, a, st, r=root: leaf(r))
            yield s, {o: f"a{o.args[1][3]}" for o in sig}


def parse_jobs():
    for s, texts in parse_scenarios():
        kw = s.kw(unroll=6)
        base = kw["setup"]

        def setup(ip, st, base=base, texts=texts):
            ip.texts = texts
            return base(ip, st)
        kw["setup"] = setup
        yield job("parse_egglog_output", "parse", refmod="ref_parse_egglog_output", pure=("type_check_expr",), **kw)


def specs(s, kinds):
    objs = [s.obj(k, f"spec{i}", symbol=var(f"text name{i}"), loc=var(f"loc{i}")) for i, k in enumerate(kinds)]
    prog = s.obj("Program", "program", loc=var("loc"))
    ft = s.obj("SpecificationSet", "future")
    s.set(prog, ft_spec_set=ft)
    s.arg("program", prog)
    s.arg("context", s.obj("Context", "context", stats=s.obj("Stats", "stats")))
    s.model("cpt.SpecificationSet.get_specs", lambda ip, a, st: ip.alloc(leaf(val(list(objs))), st))
    olds = {o: s.obj("Expression", f"old{i}") for i, o in enumerate(objs)}
    s.model("cpt.Formula.get_expr", lambda ip, a, st: dd.apply(lambda t: leaf(olds[t]) if t in olds else dd.NONE, a[0]))
    return objs, olds


NODES = {"n0": "And2", "n1": "Var", "n2": "Interval", "n3": "Until", "n4": "Equiv", "n5": "String", "n6": "Bool", "n7": "Or4", "n8": "Implies", "n9": "Not", "n10": "Global", "n11": "Future", "n12": "Release",
         "n13": "And3", "n14": "And4", "n15": "Or2", "n16": "Or3", "n17": "i64"}


def optimize_jobs():
    F, K = "Formula", "Contract"
    for kinds in ((), (F,), (K,), (F, F), (K, F)):
        for check in (False, True):
            outcomes = ["ok", "timeout", "memout", "failure"] if len(kinds) < 2 or kinds[0] == K else ["ok", "failure"]
            for outs in [(o, p) for o in outcomes for p in (("ok", "timeout") if kinds == (F, F) else ("ok",))]:
                for graph in ("whole", "no nodes", "no classes") if kinds == (F,) and outs == ("ok", "ok") and not check else ("whole",):
                    for name in (None, var("text smtfile")) if check and kinds == (F,) else (None,):
                        for fails in ("", "encoding", "extraction") if len(kinds) == 1 and kinds[0] == F else ("",):
                            yield optimize_job(kinds, check, outs, graph, name, fails)


def optimize_job(kinds, check, outs, graph, name, fails):
    s = quiet(Scen(f"{'+'.join(kinds) or 'no formulas'}{' checked' if check else ''} {'/'.join(outs[:max(1, len(kinds))])} {graph} {'file' if name is not None else ''}{fails}"))
    objs, olds = specs(s, kinds)
    nodes = T("dict", *[x for k, op in NODES.items() for x in (C(k), T("dict", C("op"), C(op)))])
    classes = T("dict", *[x for k in ("MLTL-1", "Interval-4", "MLTL-3", "String-MLTL-1") for x in (C(k), var(f"class {k}"))])
    both = [C("nodes"), nodes] if graph != "no nodes" else []
    both += [C("class_data"), classes] if graph != "no classes" else []
    theory = s.obj("Options", "o")
    s.arg("options", {"extraction_method": "greedy", "egglog_max_time": var("time"), "egglog_max_memory": var("memory"), "check_equiv": check, "theory": "uflia",
                      "equiv_smt_encoding_filename": name, "smt_max_time": var("smt time"), "smt_max_memory": var("smt memory")})
    index = {o: i for i, o in enumerate(olds.values())}

    def text(ip, a, st):
        return dd.apply(lambda t: dd.NONE if fails == "encoding" else leaf(C(f"(program {index.get(t)})")), a[0])

    def ran(ip, a, st):
        def f(t):
            i = int(t.args[0].strip("()").split()[-1]) if t.op == "c" and str(t.args[0]).strip("()").split()[-1].isdigit() else 0
            g = T("dict", *both) if outs[i] == "ok" else T("dict")
            return leaf(T("tuple", C(f"answer {i}"), g, C(outs[i]), T("v", f"seconds {i}", *[dd.leaves(x)[0] for x in (ip.val(y, st) for y in a[1:3])], *[dd.leaves(x)[0] for x in a[4:]])))
        return dd.apply(f, ip.val(a[0], st))

    def parsed(ip, a, st):
        def f(t):
            return dd.NONE if fails == "extraction" else leaf(T("o", "Expression", f"new {dd.show(t)}"))
        return dd.apply(f, ip.val(a[0], st))
    s.model("eqsat.to_egglog", text)
    s.model("eqsat.run_egglog", ran)
    s.model("parse_egglog_output.parse", parsed)
    return job("eqsat", "optimize_eqsat", refmod="ref_eqsat", pure=("to_smt_equiv", "run_smt_solver", "get_rusage_time"), effects=("replace",), **s.kw(unroll=20))


def deep(kw):
    """The formula is built by a function that calls itself."""
    base = kw["setup"]

    def setup(ip, st):
        ip.reclimit, ip.maxdepth = 8, 60
        return base(ip, st)
    kw["setup"] = setup
    return kw


def node_jobs():
    """A node of the e-graph is read as the operator, interval and operands the answer gives it."""
    rest = {"x": {"op": "Var", "children": ["String-1"], "eclass": "M-2"}, "y": {"op": "Not", "children": ["x"], "eclass": "M-3"}, "String-1": {"op": '"a17"', "eclass": "s"},
            "f-Interval": {"op": "Interval", "children": ["i64-1", "i64-2"], "eclass": "IntervalSort-1"}, "i64-1": {"op": "3", "eclass": "k"}, "i64-2": {"op": "12", "eclass": "l"},
            "bool-1": {"op": "true", "eclass": "z"}, "bool-2": {"op": "false", "eclass": "w"}}
    rows = [("Var", ["String-1"]), ("Bool", ["bool-1"]), ("Bool", ["bool-2"]), ("Not", ["y"]), ("Implies", ["x", "y"]), ("Equiv", ["y", "x"])]
    rows += [(o, ["x", "y", "x", "x"][:n]) for o, n in (("And2", 2), ("And3", 3), ("And4", 4), ("Or2", 2), ("Or3", 3), ("And2", 1))]
    rows += [(o, ["f-Interval", "y"]) for o in ("Global", "Future")] + [(o, ["f-Interval", *k]) for o in ("Until", "Release") for k in (("x", "y"), ("y", "x"))]
    for op, kids in rows:
        s = quiet(Scen(f"{op} {' '.join(kids)}"))
        s.arg("id", C("n"))
        s.arg("content", {"n": {"op": op, "children": kids, "eclass": "M-1"}, **rest})
        yield job("egraph", "ENode.from_json", refmod="ref_egraph", reffn="ENode_from_json", **s.kw(unroll=8))


def build_jobs():
    """The chosen nodes are put together to the formula they stand for."""
    x, y, z, t, g = ("Var", None, "a0", None, []), ("Var", None, "a1", None, []), ("Var", None, '"a12"', None, []), ("Bool", None, None, True, []), ("Global", (2, 5), None, None, ["y"])
    lib = dict(x=x, y=y, z=z, t=t, f=("Bool", None, None, False, []), g=g, u=("Until", (0, 3), None, None, ["y", "x"]), n=("Not", None, None, None, ["u"]))
    roots = [x, z, t, lib["f"], ("Var", None, "a9", None, []), ("Var", None, None, None, [])]
    for kids in (["x", "y"], ["y", "x"], ["x", "x"], ["g", "n"], ["n", "t"], ["u", "x"]):
        roots += [("Implies", None, None, None, kids), ("Equiv", None, None, None, kids), ("And2", None, None, None, kids), ("Or2", None, None, None, kids)]
        roots += [("Until", (1, 4), None, None, kids), ("Release", (0, 4), None, None, kids)]
    roots += [(o, None, None, None, k) for o in ("And3", "Or3") for k in (["x", "y", "z"], ["z", "g", "x"])] + [("And4", None, None, None, ["x", "y", "z", "t"])]
    roots += [(o, iv, None, None, [k]) for o in ("Global", "Future") for iv in ((0, 0), (0, 3), (2, 7)) for k in ("x", "n")] + [("Not", None, None, None, [k]) for k in "xgt"]
    for r in roots:
        s = quiet(Scen(f"{r}"))
        nodes = {k: s.obj("ENode", f"node {k}", op=C(v[0]), interval=v[1], string=C(v[2]), value=C(v[3]), child_eclass_ids=list(v[4]), eclass_id=C(k)) for k, v in {"r": r, **lib}.items()}
        atoms = [s.obj("Atomic", f"atom{i}", parents={T("o", "Operator", "old")}, children=[]) for i in range(3)]
        ctx = s.obj("Context", "context", atomic_id_map=dict(zip(atoms, (0, 1, 12))))
        s.arg("self", s.obj("EGraph", "self", root_eclass=C("r"), context=ctx))
        s.arg("repr_map", nodes)
        yield job("egraph", "EGraph.build_expr_", refmod="ref_egraph", reffn="EGraph_build_expr_", cls="EGraph", **deep(s.kw(unroll=8)))


def p23(rep):
    jobs = [("productions", lambda r: grammar.coverage(r, grammar.EGG)), ("tokens", lambda r: grammar.lexing(r, grammar.EGG))] + grammar.grammar_jobs(grammar.EGG)
    jobs += list(parse_jobs()) + list(node_jobs()) + list(build_jobs())
    for exp in (True, False):
        s = quiet(Scen("experimental" if exp else "plain"))
        s.arg("use_experimental", exp)
        jobs.append(job("eqsat", "find_egglog", refmod="ref_eqsat", pure=("check_executable",), **s.kw()))
        s = quiet(Scen("experimental" if exp else "plain"))
        s.arg("use_experimental_egglog", exp)
        jobs.append(job("eqsat", "run_egglog", refmod="ref_eqsat", pure=("get_children_rusage_time", "set_max_memory_offset", "find_egglog"), **s.kw(unroll=4)))
    for kinds in ((), ("Formula",), ("Contract",), ("Formula", "Formula"), ("Contract", "Formula"), ("Formula", "Contract")):
        s = quiet(Scen("+".join(kinds) or "no formulas"))
        specs(s, kinds)
        s.arg("options", val({"location": var("text location"), "formula": None}))
        jobs.append(job("eqsat", "write_eqsat_encoding", refmod="ref_eqsat", pure=("to_egglog",), **s.kw(unroll=5)))
    for found in ("Formula", "Contract", None):
        s = quiet(Scen(f"one formula asked for: {found}"))
        specs(s, ("Formula", "Formula"))
        o = s.obj(found, "wanted", symbol=var("text wanted"), loc=var("lw")) if found else None
        s.model("cpt.Program.get_spec", lambda ip, a, st, o=o: leaf(o) if o is not None else dd.NONE)
        s.arg("options", val({"location": var("text location"), "formula": var("text which")}))
        jobs.append(job("eqsat", "write_eqsat_encoding", refmod="ref_eqsat", pure=("to_egglog", "get_expr"), **s.kw(unroll=5)))
    jobs += list(optimize_jobs())
    rep.tasks(jobs)
