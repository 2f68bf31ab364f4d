"""The command layer: which commands exist, what they take, need and run; guards, execution, the console."""
from __future__ import annotations
import ast, itertools, json, os, shlex
from .. import dd, report
from ..dd import C, T, leaf
from ..pycompare import flat_seq
from ..pyfront import St
from .compiler import interp, job, project, where_of
from .scen import Scen, enum, val, var

REF = os.path.join(os.path.dirname(__file__), "..", "..", "ref", "commands.json")


class Unknown(Exception):
    pass


def resolve(mod, name):
    """Where a global name is defined: ('def', module, name), ('val', module, expression) or ('mod', module)."""
    p = project()
    for _ in range(8):
        m = p.mods.get(mod)
        if m is None:
            break
        if name in m.funcs or name in m.classes:
            return "def", mod, name
        if name in m.assigns:
            e = m.assigns[name]
            if isinstance(e, ast.Name) and e.id != name:
                name = e.id
                continue
            return "val", mod, e
        imp = m.imports.get(name)
        if imp is None:
            return "def", "builtins", name
        if imp[0] == "mod":
            return "mod", p.modname(imp[1]) or imp[1], None
        _, frm, nm, lvl = imp
        if (frm in ("", p.pkg)) and nm in p.mods:
            return "mod", nm, None
        src = p.modname(frm) if frm else None
        if src is None:
            return "def", frm, nm
        mod, name = src, nm
    raise Unknown(name)


def target(mod, e):
    if isinstance(e, ast.Name):
        return resolve(mod, e.id)
    if isinstance(e, ast.Attribute):
        k, m, x = target(mod, e.value)
        if k == "mod":
            return resolve(m, e.attr) if m in project().mods else ("def", m, e.attr)
    raise Unknown(ast.dump(e)[:60])


def value(mod, e):
    """Constant structure of an expression: literals, lists, dictionaries, calls of guards and commands, functions."""
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, (ast.List, ast.Tuple)):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out += value(mod, x.value)
            else:
                out.append(value(mod, x))
        return out
    if isinstance(e, ast.Dict):
        out = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                out.update(value(mod, v))
            else:
                kk = value(mod, k)
                try:
                    vv = value(mod, v)
                except Unknown:
                    vv = {"unknown": True}
                out[kk if isinstance(kk, (str, int)) else json.dumps(kk, sort_keys=True)] = vv
        return out
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        return -value(mod, e.operand)
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        return value(mod, e.left) + value(mod, e.right)
    if isinstance(e, ast.Lambda):
        if isinstance(e.body, ast.Call):
            k, m, x = target(mod, e.body.func)
            if k == "def":
                return {"func": x}
        raise Unknown("lambda")
    if isinstance(e, ast.Attribute) and e.attr in ("value", "name") and isinstance(e.value, ast.Attribute):
        k, m, x = target(mod, e.value.value)
        mem = project().enum_members(x) if k == "def" and x in project().class_of else {}
        if e.value.attr in mem:
            return value(m, mem[e.value.attr]) if e.attr == "value" else e.value.attr
    if isinstance(e, (ast.Name, ast.Attribute)):
        k, m, x = target(mod, e)
        if k == "val":
            return value(m, x)
        if k == "def" and m == "builtins" and x in ("int", "str", "bool", "float"):
            return {"type": x}
        if k == "def":
            return {"func": x}
    if isinstance(e, ast.ListComp) and len(e.generators) == 1 and not e.generators[0].ifs and isinstance(e.elt, ast.Attribute) and isinstance(e.elt.value, ast.Name):
        g = e.generators[0]
        k, m, x = target(mod, g.iter)
        if k == "def" and isinstance(g.target, ast.Name) and g.target.id == e.elt.value.id and e.elt.attr in ("value", "name"):
            mem = project().enum_members(x)
            return [value(m, v) for v in mem.values()] if e.elt.attr == "value" else list(mem)
    if isinstance(e, ast.Call):
        try:
            k, m, x = target(mod, e.func)
        except Unknown:
            return {"computed": ast.unparse(e)}
        if k == "def" and x in ("Command", "CompositeCommand", "CommandGuard"):
            fields = {"Command": ("name", "description", "options", "func", "guards"), "CompositeCommand": ("name", "description", "commands", "guards"),
                      "CommandGuard": ("name", "predicate")}[x]
            out = {"is": x}
            for n, a in list(zip(fields, e.args)) + [(kw.arg, kw.value) for kw in e.keywords]:
                try:
                    out[n] = value(mod, a)
                except Unknown:
                    out[n] = {"unknown": True}
            return out
        if k == "def" and x == "dict" and not e.args:
            return {kw.arg: value(mod, kw.value) for kw in e.keywords}
        if k == "def" and x == "list" and len(e.args) == 1:
            return value(mod, e.args[0])
        return {"computed": ast.unparse(e)}
    raise Unknown(type(e).__name__)


def where(mod, node):
    return f"{project().relpath(mod)}:{getattr(node, 'lineno', '?')}"


def registered():
    """name -> (description of the command, where it is registered)."""
    p, out, unread = project(), {}, False
    for mn, m in p.mods.items():
        if mn.startswith("ref_"):
            continue
        own = {id(n) for c in ast.walk(m.tree) if isinstance(c, ast.ClassDef) and c.name == "CommandRegistry" for n in ast.walk(c)}
        read = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "register" and "CommandRegistry" in ast.unparse(n.func.value) and n.args:
                try:
                    v = value(mn, n.args[0])
                except Unknown:
                    v = None
                if isinstance(v, dict) and isinstance(v.get("name"), str):
                    out.setdefault(v["name"], (v, where(mn, n)))
                    read.add(id(n.func))
        for n in ast.walk(m.tree):
            if id(n) in own:
                continue
            if isinstance(n, ast.Attribute) and n.attr == "register" and id(n) not in read:
                unread = True
            if isinstance(n, ast.Attribute) and "CommandRegistry.commands" in ast.unparse(n.value) or \
                    isinstance(n, ast.Attribute) and n.attr == "commands" and isinstance(n.ctx, ast.Store) and "CommandRegistry" in ast.unparse(n.value):
                unread = True
    return out, unread


def guard_name(g):
    return g["predicate"].get("func") if isinstance(g, dict) and isinstance(g.get("predicate"), dict) else None


def dependencies():
    """guard -> guards it depends on, by predicate; None when the table is not readable."""
    p = project()
    for mn, m in p.mods.items():
        if "GUARD_DEPENDENCIES" in m.assigns and not mn.startswith("ref_"):
            e = m.assigns["GUARD_DEPENDENCIES"]
            if isinstance(e, ast.Dict):
                try:
                    return {guard_name(value(mn, k)): [guard_name(x) for x in value(mn, v)] for k, v in zip(e.keys, e.values)}
                except (Unknown, AttributeError):
                    return None
    return None


def closure(gs, deps):
    seen, todo = set(), list(gs)
    while todo:
        g = todo.pop()
        if g not in seen:
            seen.add(g)
            todo += deps.get(g, [])
    return seen


def snapshot():
    deps = dependencies()
    return {"dependencies": {k: sorted(v) for k, v in deps.items()},
            "commands": {n: strip(v) for n, (v, _) in sorted(registered()[0].items())}}


def strip(v):
    out = {"is": v["is"]}
    if "options" in v or v["is"] == "Command":
        out["options"] = [{k: x for k, x in o.items() if k != "description"} for o in v.get("options", [])]
    out["guards"] = sorted(guard_name(g) for g in v.get("guards", []))
    if "func" in v:
        out["func"] = v["func"].get("func")
    if "commands" in v:
        out["commands"] = [c["name"] for c in v["commands"]]
    return out


# ------------------------------------------------------------------------------------------ tables
def ref():
    with open(REF) as f:
        return json.load(f)


def is_unknown(x):
    return isinstance(x, dict) and ("unknown" in x or "computed" in x)


def same(a, b):
    return a == b and type(a) is type(b) if not isinstance(a, (list, dict)) else a == b


def option_table(opts):
    return {o["name"]: o for o in opts if isinstance(o, dict) and isinstance(o.get("name"), str)} if isinstance(opts, list) else None


def table(rep):
    """Every documented command is registered with its options, preconditions and steps."""
    (got, unread), want, deps = registered(), ref(), dependencies()
    if deps is None:
        rep.skip("guards", "dependency table not readable")
        deps = want["dependencies"]
    else:
        for g in want["dependencies"]:
            a, b = closure([g], deps), closure([g], want["dependencies"])
            if a == b:
                rep.ok(what="guards", sample=f"guard {g}: {sorted(b)}")
            else:
                rep.bad(f"guard:{g}", f"the condition {g} also stands for {sorted(a - {g})}, specified {sorted(b - {g})}", "compiler/c2po/command.py")
    known = {w.get("func") for w in want["commands"].values()}
    for name, w in want["commands"].items():
        if name not in got:
            if unread:
                rep.skip(f"command:{name}", "not registered in a form that is read")
            else:
                rep.bad(f"command:{name}", f"the command '{name}' is not registered", "compiler/c2po/command.py")
            continue
        c, at = got[name]
        gs = c.get("guards", [])
        if isinstance(gs, list) and all(guard_name(g) for g in gs):
            a, b = closure([guard_name(g) for g in gs], deps), closure(w["guards"], want["dependencies"])
            if a == b:
                rep.ok(what="guards", sample=f"{name} needs {sorted(b)}")
            else:
                less, more = sorted(b - a), sorted(a - b)
                rep.bad(f"command:{name}:guards", f"'{name}' " + "; ".join(([f"runs without {less}"] if less else []) + ([f"also demands {more}"] if more else [])), at)
        else:
            rep.skip(f"command:{name}:guards", "not a literal list")
        opts = option_table(c.get("options", []))
        if "options" in w and opts is not None:
            for o in w["options"]:
                h = opts.get(o["name"])
                if h is None:
                    rep.bad(f"command:{name}:{o['name']}", f"'{name}' does not take '{o['name']}'", at)
                    continue
                for k in ("required", "type", "default", "choices"):
                    x, y = h.get(k), o.get(k)
                    if is_unknown(x) or is_unknown(y):
                        rep.skip(f"command:{name}:{o['name']}:{k}", "computed")
                    elif same(x, y) or k == "choices" and x is not None and y is not None and sorted(map(str, x)) == sorted(map(str, y)):
                        rep.ok(what="options", sample=f"{name} {o['name']}: {k} {y}")
                    else:
                        rep.bad(f"command:{name}:{o['name']}:{k}", f"option '{o['name']}' of '{name}' has {k} {x}, documented {y}", at)
            req = [o["name"] for o in w["options"] if o.get("required") is True]
            now = [n for n, o in opts.items() if o.get("required") is True]
            if [n for n in now if n in req] == req:
                rep.ok(what="options")
            else:
                rep.bad(f"command:{name}:order", f"'{name}' takes its operands in the order {now}, documented {req}", at)
        if "func" in w:
            f = c.get("func")
            f = f.get("func") if isinstance(f, dict) else None
            if f == w["func"]:
                rep.ok(what="steps")
            elif f in known:
                rep.bad(f"command:{name}:func", f"'{name}' runs {f}, which is what another command does (specified {w['func']})", at)
            else:
                rep.skip(f"command:{name}:func", "runs another function")
        if "commands" in w:
            steps = c.get("commands")
            if isinstance(steps, list) and all(isinstance(x, dict) and isinstance(x.get("name"), str) for x in steps):
                steps = [x["name"] for x in steps]
                if steps == w["commands"]:
                    rep.ok(what="steps", sample=f"{name}: {steps}")
                else:
                    rep.bad(f"command:{name}:steps", f"'{name}' runs {steps}, specified {w['commands']}", at)
            else:
                rep.skip(f"command:{name}:steps", "not a literal list")


# ------------------------------------------------------------------------------------------ guards, execution, console
def guard_jobs():
    deps = ref()["dependencies"]
    p = project()
    names = [n for n, e in p.mods["command"].assigns.items() if isinstance(e, ast.Call) and ast.unparse(e.func).endswith("CommandGuard")]
    out = []
    for gs in [()] + [(n,) for n in names] + [(a, b) for a, b in (("WELL_TYPED", "DESUGARED"), ("DESUGARED", "WELL_TYPED"), ("COMPUTED_ATOMICS", "VALID_SIGNAL_MAPPING")) if a in names and b in names]:
        s = Scen("+".join(gs) or "none")
        gobj = {n: s.obj("CommandGuard", n) for n in names}
        me = s.obj("Command", "cmd", guards=[gobj[g] for g in gs])
        s.arg("self", me)
        kw = s.kw(unroll=12)
        base = kw["setup"]

        def setup(ip, st, base=base, gobj=gobj):
            for n, o in gobj.items():
                ip.const_cache["command", n] = leaf(o)
                ip.const_cache["ref_command", n] = leaf(o)
            ip.reclimit = 8
            return base(ip, st)
        kw["setup"] = setup
        out.append(job("command", "Command.check_guards", reffn="check_guards", cls="Command", post=lambda ip, ra, st: dd.truth(dd.apply(lambda t: dd.TRUE if t is dd.NONE.leaf else dd.FALSE, ra)), **kw))
    return out


def exec_jobs():
    out = []
    for n in (0, 1, 2, 3):
        s = Scen(f"{n} steps")
        steps = [var(f"step{i}") for i in range(n)]
        s.arg("self", s.obj("CompositeCommand", "cmd", commands=steps))
        out.append(job("command", "CompositeCommand.execute", reffn="execute_all", cls="CompositeCommand", pure=PURE, **s.kw(unroll=6)))
        if n:
            out.append(job("command", "CompositeCommand.check_guards", reffn="guards_of_first", cls="CompositeCommand", pure=PURE, **s.kw(unroll=6)))
    out.append(job("command", "Command.execute", reffn="execute", cls="Command", models={"log.debug": none, "log.set_current_command_name": none, "log.reset_current_command_name": none}))
    for c in ("SUCCESS", "ERROR", "BAD_ARGS", "FILE_NOT_FOUND", "PARSE_ERROR", "GUARD_CONDITION_NOT_MET", "SHLEX_ERROR", "NO_STATE_TO_POP", "UNKNOWN_COMMAND", "UNKNOWN_RESULT_TYPE", "ARGPARSE_EXIT",
              "ASSEMBLY_ERROR"):
        s = Scen(c)
        s.arg("self", enum("ReturnCode", c))
        out.append(job("command", "ReturnCode.is_error", reffn="is_error", cls="ReturnCode", **s.kw()))
        s = Scen(c)
        s.arg("self", s.obj("CommandConsole", "console", return_code=var("earlier code")))
        s.arg("return_code", enum("ReturnCode", c))
        out.append(job("main", "CommandConsole.set_return_code", reffn="set_return_code", cls="CommandConsole", **s.kw()))
    for f in ("set_egglog_path", "set_smt_solver_path", "set_r2u2_c_path", "set_r2u2_bin_path", "enable_booleanizer", "disable_booleanizer", "set_mission_time"):
        s = Scen()
        s.arg("context", s.obj("Context", "context"))
        out.append(job("command", f, **s.kw()))
    G = lambda n: T("g", "builtins", n)
    optv = lambda n, t, req, dflt, ch: val({"name": n, "description": var("description of " + n), "required": req, "type": G(t), "default": dflt, "choices": ch})
    kinds = {"none": [], "operand": [optv("x", "str", True, "", None)], "option": [optv("my-x", "str", False, None, None)], "switch": [optv("y", "bool", False, True, None)],
             "choice": [optv("z", "str", False, "a", ["a", "b"])], "number": [optv("n", "int", False, 3, None)], "repeated": [optv("x", "str", True, "", None), optv("x", "int", False, 1, None)],
             "two": [optv("x", "str", True, "", None), optv("y", "bool", False, False, None)], "ill-typed": [optv("n", "int", False, "3", None)]}
    for what, opts in kinds.items():
        s = Scen(what)
        s.arg("self", s.obj("Command", "cmd"))
        s.arg("options", val(opts))
        out.append(job("command", "Command.__init__", reffn="command_init", cls="Command", effects=("add_argument",), **s.kw(unroll=6)))
    s = Scen()
    s.arg("self", s.obj("Command", "cmd", argparser=s.obj("ArgumentParser", "parser")))
    s.model("builtins.vars", lambda ip, a, st: leaf(val({"in-file": var("file"), "a_b": var("ab"), "x": var("x")})))
    out.append(job("command", "Command.parse_args", reffn="parse_args", cls="Command", **s.kw(unroll=6)))
    out.append(job("command", "print_program_mltl", pure=("to_mltl_std",)))
    return out


def none(ip, a, st):
    return dd.NONE


PURE = ("parse_args", "check_guards", "execute", "deepcopy_program_with_context", "print_failed_guard_message")
LINES = ["", "   ", "# note", "exit", "push", "pop", "type_check", " echo 'a b' ", "parse_map \"my file\"", "unknown x", "push # x", "exit now"]


def console_jobs():
    out = []
    for line in LINES:
        for depth in (0, 1, 2):
            if depth and line.strip() not in ("push", "pop"):
                continue
            s = Scen(f"{line!r} {depth} saved")
            states = [val((var(f"program{i}"), var(f"context{i}"))) for i in range(depth)]
            s.arg("self", s.obj("CommandConsole", "console", program=var("program"), context=var("context"), return_code=var("earlier code"), state_stack=states,
                                command_dict={C("type_check"): var("command type_check"), C("echo"): var("command echo"), C("parse_map"): var("command parse_map")}))
            s.arg("source", C(line))
            out.append(job("main", "CommandConsole.runsource", reffn="runsource", cls="CommandConsole", pure=PURE, methods={"execute": "Command", "check_guards": "Command", "parse_args": "Command"},
                           effects=("exit",), **s.kw(unroll=6)))
    results = {f"a code {c}": leaf(enum("ReturnCode", c)) for c in ("SUCCESS", "ERROR", "PARSE_ERROR", "ASSEMBLY_ERROR")}
    results["nothing"] = dd.NONE
    results["a failed step"] = leaf(val((var("step"), var("condition"))))
    for what, r in results.items():
        for met in (True, False):
            s = Scen(f"{what}, condition {'met' if met else 'not met'}")
            s.model("command.Command.execute", lambda ip, a, st, r=r: r)
            s.model("command.Command.check_guards", lambda ip, a, st, met=met: dd.NONE if met else leaf(var("condition")))
            s.arg("self", s.obj("CommandConsole", "console", program=var("program"), context=var("context"), return_code=enum("ReturnCode", "PARSE_ERROR"), state_stack=[],
                                command_dict={C("type_check"): var("command type_check")}))
            s.arg("source", C("type_check"))
            out.append(job("main", "CommandConsole.runsource", reffn="runsource", cls="CommandConsole", pure=PURE, methods={"execute": "Command", "check_guards": "Command", "parse_args": "Command"},
                           **s.kw(unroll=6)))
    for depth in (0, 1, 2):
        s = Scen(f"{depth} saved")
        states = [val((var(f"program{i}"), var(f"context{i}"))) for i in range(depth)]
        s.arg("self", s.obj("CommandConsole", "console", program=var("program"), context=var("context"), state_stack=states))
        for f in ("push_state", "pop_state") if depth else ("push_state",):
            out.append(job("main", f"CommandConsole.{f}", reffn=f, cls="CommandConsole", pure=PURE, **s.kw(unroll=6)))
    return out


def script_jobs():
    out = []
    for text in (None, "", "type_check", "type_check\n desugar \n", "a\n\nb\nc"):
        s = Scen(repr(text))
        s.model("util.read_file", lambda ip, a, st, text=text: leaf(C(text)))
        s.model("main.CommandConsole", lambda ip, a, st: leaf(val(s_console)))
        s_console = s.obj("CommandConsole", "console", context=s.obj("Context", "context"), return_code=var("code"))
        out.append(job("main", "script", effects=("runsource", "chdir", "run_rc_script"), **s.kw(unroll=6)))
    out.append(job("main", "run_rc_script", effects=("runsource",), unroll=2))
    return out


def predicate_jobs():
    """What each precondition says about a program: kinds of nodes, alone and in any position among harmless ones."""
    kinds = ["LOGICAL_AND", "LOGICAL_OR", "LOGICAL_XOR", "LOGICAL_IMPLIES", "LOGICAL_EQUIV", "LOGICAL_NEGATE", "EQUAL", "LESS_THAN", "ARITHMETIC_ADD", "ARITHMETIC_NEGATE", "BITWISE_AND", "COUNT"]
    temporal = ["GLOBAL", "FUTURE", "UNTIL", "RELEASE", "ONCE", "HISTORICAL", "SINCE", "TRIGGER"]
    nodes = [(c, None) for c in ("Constant", "Signal", "Variable", "Atomic", "Struct", "StructAccess", "FunctionCall", "ArrayExpression", "ArrayIndex", "SetAggregation", "Formula", "Contract",
                                 "SpecificationSet")] + [("Operator", k) for k in kinds] + [("TemporalOperator", k) for k in temporal]
    jobs = []

    def program(tag, **kw):
        s = Scen(tag)
        top = s.obj("Program", "program", is_dummy=var("dummy"), is_well_typed=var("well_typed"), **kw)
        s.arg("program", top)
        ctx = s.obj("Context", "context")
        s.arg("context", ctx)
        return s, top, ctx

    for fn in ("is_valid_program", "is_well_typed_program"):
        for d in (True, False):
            s, top, ctx = program(f"dummy {d}")
            s.set(top, is_dummy=C(d))
            s.walk(top, [])
            jobs.append(job("cpt", fn, refmod="ref_guards", **s.kw(unroll=6)))
    for n in range(3):
        s, top, ctx = program(f"{n} instructions")
        s.set(ctx, assembly=[T("o", "Instruction", f"i{j}") for j in range(n)])
        s.walk(top, [])
        jobs.append(job("cpt", "is_assembled", refmod="ref_guards", **s.kw(unroll=6)))

    def make(s, i, cls, kind, n):
        e = s.obj(cls, f"e{i}", symbol=var(f"symbol{i}"), engine=var(f"engine{i}"), scq_size=var(f"size{i}"), signal_id=var(f"sid{i}"), children=[T("o", "Variable", f"x{i}{j}") for j in range(n)],
                  type=T("o", "BoolType", f"type{i}"))
        if kind:
            s.set(e, operator=enum("OperatorKind", kind))
        return e

    for cls, kind in nodes:
        for n in (0, 1, 2, 3, 4):
            if n > 2 and cls not in ("Operator", "SpecificationSet", "Struct", "FunctionCall") or n == 4 and kind not in ("LOGICAL_AND",):
                continue
            for at in (0, 1, 2):
                s, top, ctx = program(f"{kind or cls} with {n} at {at}")
                row = [make(s, i, "Operator", "LOGICAL_NEGATE", 1) for i in range(2)]
                row.insert(at, make(s, 7, cls, kind, n))
                s.walk(top, row)
                for fn in ("is_desugared", "is_only_binary_operators", "has_no_extended_operators", "is_pure_mltl"):
                    if fn == "is_only_binary_operators" or n < 2:
                        jobs.append(job("cpt", fn, refmod="ref_guards", **s.kw(unroll=6)))
    for t in ("BoolType", "IntType", "FloatType"):
        s, top, ctx = program(f"constant {t}")
        c = make(s, 0, "Constant", None, 0)
        s.set(c, type=T("o", t, "type"))
        s.walk(top, [c])
        jobs.append(job("cpt", "is_pure_mltl", refmod="ref_guards", **s.kw(unroll=6)))
    shapes = [(), ("Signal",), ("Atomic",), ("Signal", "Signal"), ("Atomic", "Signal"), ("Signal", "Atomic"), ("Atomic", "Atomic"), ("Operator", "Signal"), ("Operator", "Atomic"), ("Variable", "Operator")]
    for shape in shapes:
        for known in ((), (0,), (1,), (0, 1)):
            if any(k >= len(shape) for k in known):
                continue
            for bz in (True, False):
                s, top, ctx = program(f"{'+'.join(shape)} known {known} booleanizer {bz}")
                row = [make(s, i, c, "LOGICAL_AND" if c == "Operator" else None, 0) for i, c in enumerate(shape)]
                for i, e in enumerate(row):
                    s.set(e, symbol=C(f"s{i}"))
                s.set(ctx, enable_booleanizer=C(bz), atomic_id_map={row[i]: var(f"id{i}") for i in known}, signal_mapping={C(f"s{i}"): var(f"column{i}") for i in known})
                s.walk(top, row)
                for fn in ("has_computed_atomics", "has_atomic_consistent_signal_mapping") + (("has_valid_signal_mapping",) if bz else ()):
                    jobs.append(job("cpt", fn, refmod="ref_guards", **s.kw(unroll=6)))
    for shape in shapes:
        for known in ((), (0,), (1,), (0, 1)):
            for engines in itertools.product(("TEMPORAL_LOGIC", "BOOLEANIZER", "NONE"), repeat=len(shape)):
                if any(k >= len(shape) for k in known):
                    continue
                s, top, ctx = program(f"{'+'.join(shape)} known {known} engines {engines}")
                row = [make(s, i, c, "LOGICAL_AND" if c == "Operator" else None, 0) for i, c in enumerate(shape)]
                for e, g in zip(row, engines):
                    s.set(e, engine=enum("R2U2Engine", g))
                s.set(ctx, atomic_id_map={row[i]: var(f"id{i}") for i in known})
                s.walk(top, row)
                jobs.append(job("cpt", "has_valid_scq_sizes", refmod="ref_guards", **s.kw(unroll=6)))
    return jobs


def p18(rep):
    table(rep)
    rep.tasks(predicate_jobs() + guard_jobs() + exec_jobs() + console_jobs() + script_jobs())


# ------------------------------------------------------------------------------------------ the command line
DEFAULTS = dict(spec_filename="dir/spec.c2po", trace_filename=None, map_filename="dir/m.map", output_filename="spec.bin", write_bounds_filename=None, quiet=None, debug=None, only_parse=False,
                only_type_check=False, only_compile=False, mission_time=-1, scq_constant=0, enable_booleanizer=False, enable_aux=True, enable_cse=True, enable_rewrite=True, enable_extops=False,
                enable_eqsat=False, enable_eqsat_equiv_check=False, enable_eqsat_const_folding=True, enable_eqsat_associative=True, enable_eqsat_commutative=True, enable_eqsat_multi_arity=True,
                enable_eqsat_temporal=True, eqsat_max_time=5, eqsat_max_memory=0, num_gurobi_threads=0, egglog_path=None, check_sat=False, smt_theory="uflia", smt_max_time=5, smt_max_memory=0,
                smt_solver_path=None)
OTHERS = dict(spec_filename=["f.mltl", "my spec.c2po", "f.txt", "nosuffix"], trace_filename=["t.csv", "my trace.csv"], map_filename=[None, "my map"], output_filename=["out dir/x.bin", None],
              write_bounds_filename=["b.h", "b.toml", "b.txt", "my b.h"], quiet=[True], debug=[True], only_parse=[True], only_type_check=[True], only_compile=[True], mission_time=[0, 7, 250],
              scq_constant=[3], enable_booleanizer=[True], enable_aux=[False], enable_cse=[False], enable_rewrite=[False], enable_extops=[True], enable_eqsat=[True],
              enable_eqsat_equiv_check=[True], enable_eqsat_const_folding=[False], enable_eqsat_associative=[False], enable_eqsat_commutative=[False], enable_eqsat_multi_arity=[False],
              enable_eqsat_temporal=[False], eqsat_max_time=[17], eqsat_max_memory=[18], num_gurobi_threads=[4], egglog_path=["my egg"], check_sat=[True], smt_theory=["qf_bv"], smt_max_time=[9],
              smt_max_memory=[19], smt_solver_path=["my z3"])


def expected(o):
    """The commands a run of the command-line tool stands for: (name, operands and options that differ from their defaults)."""
    out = []

    def add(name, **kw):
        out.append((name, {k.replace("_", "-"): v for k, v in kw.items()}))
    if o["enable_booleanizer"]:
        add("enable_booleanizer")
    if o["mission_time"] >= 0:
        add("set_mission_time", mission_time=o["mission_time"])
    if o["debug"]:
        add("set_debug")
    kind = o["spec_filename"].rsplit(".", 1)[-1]
    b = (o["write_bounds_filename"] or "x.h").rsplit(".", 1)[-1]
    if kind not in ("c2po", "mltl") or b not in ("h", "toml"):
        return None
    add("parse_" + kind, filename=o["spec_filename"])
    if o["trace_filename"]:
        add("parse_trace", filename=o["trace_filename"])
    if o["map_filename"]:
        add("parse_map", filename=o["map_filename"])
    if o["only_parse"]:
        return out
    add("type_check")
    if o["only_type_check"]:
        return out
    add("desugar")
    if o["egglog_path"]:
        add("set_egglog_path", egglog_path=o["egglog_path"])
    if o["smt_solver_path"]:
        add("set_smt_solver_path", smt_solver_path=o["smt_solver_path"])
    if o["enable_eqsat"]:
        add("compute_atomics")
        add("optimize_eqsat", egglog_max_time=o["eqsat_max_time"], egglog_max_memory=o["eqsat_max_memory"], num_gurobi_threads=o["num_gurobi_threads"], theory=o["smt_theory"],
            smt_max_time=o["smt_max_time"], smt_max_memory=o["smt_max_memory"], check_equiv=o["enable_eqsat_equiv_check"], const_folding=o["enable_eqsat_const_folding"],
            associative=o["enable_eqsat_associative"], commutative=o["enable_eqsat_commutative"], multi_arity=o["enable_eqsat_multi_arity"], temporal=o["enable_eqsat_temporal"])
    elif o["enable_rewrite"]:
        add("optimize_rewrites")
    if not o["enable_extops"]:
        add("remove_extended_operators")
    if o["enable_cse"]:
        add("optimize_cse")
    if o["check_sat"]:
        add("check_sat", theory=o["smt_theory"], smt_max_time=o["smt_max_time"], smt_max_memory=o["smt_max_memory"], print=True)
    if o["only_compile"]:
        return out
    add("multi_operators_to_binary")
    add("remove_extended_operators")
    if o["output_filename"]:
        add("assemble", aux=o["enable_aux"], print=not o["quiet"], scq_constant=max(o["scq_constant"], 0), binary_filename=o["output_filename"])
    if o["write_bounds_filename"]:
        add({"h": "write_bounds_c", "toml": "write_bounds_rust"}[b], filename=o["write_bounds_filename"])
    return out


def all_options(name, cmds):
    c = cmds[name]
    if "commands" in c:
        return [o for s in c["commands"] for o in all_options(s, cmds)]
    return c.get("options", [])


def defaults(cmd, cmds):
    name, given = cmd
    full = {o["name"]: o.get("default") for o in all_options(name, cmds)}
    full.update(given)
    return name, full


def read_script(text, cmds):
    """What a script stands for: its commands with all options spelled out; a string says why it cannot be read."""
    out = []
    for line in text.split("\n"):
        try:
            words = shlex.split(line)
        except ValueError:
            return f"line {line!r} cannot be split"
        if not words or line.strip().startswith("#"):
            continue
        name, words = words[0], words[1:]
        if name == "exit":
            return out
        if name not in cmds:
            return f"there is no command '{name}'"
        opts = {o["name"]: o for o in all_options(name, cmds)}
        free = [o["name"] for o in all_options(name, cmds) if o.get("required")]
        got = {}
        i = 0
        while i < len(words):
            w = words[i]
            i += 1
            if w.startswith("--"):
                key, _, v = w[2:].partition("=")
                if key in opts and opts[key]["type"].get("type") == "bool":
                    got[key] = True
                elif key.startswith("no-") and key[3:] in opts and opts[key[3:]]["type"].get("type") == "bool":
                    got[key[3:]] = False
                elif key in opts and not opts[key].get("required"):
                    if "=" not in w:
                        if i >= len(words):
                            return f"'--{key}' of '{name}' lacks its value"
                        v = words[i]
                        i += 1
                    got[key] = v
                else:
                    return f"'{name}' has no option '--{key}'"
            elif free:
                got[free.pop(0)] = w
            else:
                return f"'{name}' is given one operand too many: '{w}'"
        if free:
            return f"'{name}' lacks its operand '{free[0]}'"
        for k, v in got.items():
            t = opts[k]["type"].get("type")
            if isinstance(v, str) and t in ("int", "float"):
                try:
                    got[k] = {"int": int, "float": float}[t](v)
                except ValueError:
                    return f"'{k}' of '{name}' is {v!r}"
        out.append((name, got))
    return out


def cli_cases(tier):
    yield {}
    single = [{k: v} for k, vs in OTHERS.items() for v in vs]
    yield from single
    main_ = ("only_parse", "only_type_check", "only_compile", "enable_eqsat", "check_sat", "quiet", "enable_extops", "write_bounds_filename", "output_filename", "map_filename")
    for a, b in itertools.combinations(single, 2):
        (ka, _), (kb, _) = *a.items(), *b.items()
        if ka != kb and (tier == "thorough" or ka in main_ or kb in main_):
            yield {**a, **b}


def no_failure(n):
    """The paths on which nothing outside fails."""
    return dd.restrict(n, {a: False for a in dd.atoms(n) if a.op == "b" and a.args[0] == "exc"})


def cli_job(case):
    def f(rep):
        o = {**DEFAULTS, **case}
        tag = " ".join(f"{k}={v}" for k, v in case.items()) or "defaults"
        ip = interp(pure=("script",), unroll=8)
        st = St()
        params = ip.params("main", "cli")
        unknown = [k for k in params if k not in o]
        if unknown and not project().func("main", "cli").args.defaults:
            rep.skip("main.cli", f"unknown parameters {unknown}")
            return
        ra, s = ip.run("main", "cli", args={k: leaf(C(o[k])) for k in params if k in o}, st=st)
        cmds = ref()["commands"]
        want = expected(o)
        key, at = f"cli:{tag}", where_of("main", "cli")
        effs = [e for n in dd.leaves(no_failure(ip.get(s, "$io"))) for e in flat_seq(n)[1]]
        texts = [e.args[-1].args[0] for e in effs if e.args[0] == ".write" and e.args[-1].op == "c"]
        results = list(dd.leaves(no_failure(ra)))
        runs = any("main.script" in dd.show(r) for r in results)
        if want is None:
            if runs or any(r is enum("ReturnCode", "SUCCESS") for r in results):
                rep.bad(key, f"with {tag}: files that cannot be compiled are accepted", at)
            else:
                rep.ok(what="command lines", sample=tag)
            return
        if len(texts) != 1 or len(results) != 1:
            if results and all(r.op == "enum" and r.args[-1] != "SUCCESS" for r in results):
                rep.bad(key, f"with {tag}: nothing is run, the result is {dd.show(results[0])}", at)
                return
            rep.skip(key, "the script is not one constant text")
            return
        text = texts[0].decode() if isinstance(texts[0], bytes) else texts[0]
        got = read_script(text, cmds)
        if isinstance(got, str):
            rep.bad(key, f"with {tag}: {got}", at)
            return
        a, b = [defaults(x, cmds) for x in got], [defaults(x, cmds) for x in want]
        if a == b:
            rep.ok(what="command lines", sample=tag)
        else:
            i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            sx, sy = (str(z[i]) if i < len(z) else "nothing" for z in (got, want))
            rep.bad(key, f"with {tag}: step {i + 1} is {sx[:200]}, specified {sy[:200]}", at)
    return f"cli {case}", f


def tool_options(rep):
    """compiler/c2po.py: which option feeds which parameter, with which default."""
    path = os.path.join(report.REPO, "compiler", "c2po.py")
    with open(path) as f:
        tree = ast.parse(f.read())
    want = ref()["tool"]
    opts, feeds = {}, {}
    for n in ast.walk(tree):
        if not isinstance(n, ast.Call):
            continue
        name = n.func.attr if isinstance(n.func, ast.Attribute) else ""
        if name == "add_argument":
            flags = [a.value for a in n.args if isinstance(a, ast.Constant)]
            kw = {k.arg: k.value for k in n.keywords}
            if not flags:
                continue
            d = kw["dest"].value if "dest" in kw and isinstance(kw["dest"], ast.Constant) else next((x for x in flags if x.startswith("--")), flags[0]).lstrip("-").replace("-", "_")
            opts[d] = dict(flags=sorted(flags), action=ast.unparse(kw["action"]).split(".")[-1].strip("'\"") if "action" in kw else "store",
                           default=lit(kw.get("default")), type=ast.unparse(kw["type"]) if "type" in kw else "str")
        if name == "cli" and n.keywords:
            for k in n.keywords:
                if isinstance(k.value, ast.Attribute) and isinstance(k.value.value, ast.Name):
                    feeds[k.arg] = k.value.attr
    if not feeds or not opts:
        rep.skip("c2po.py", "options not read")
        return
    for prm, w in want.items():
        d = feeds.get(prm)
        if d is None or d not in opts:
            rep.skip(f"tool:{prm}", "not fed from an option in a form that is read")
            continue
        for k in ("flags", "action", "default", "type"):
            x, y = opts[d][k], w[k]
            if x == "?" or y == "?":
                rep.skip(f"tool:{prm}:{k}", "computed")
            elif norm(k, x, opts[d]) == norm(k, y, w):
                rep.ok(what="tool options", sample=f"{prm}: {k} {y}")
            else:
                rep.bad(f"tool:{prm}:{k}", f"{k} of the option for {prm} is {x}, documented {y}", "compiler/c2po.py")


def norm(k, x, o):
    switch = o["action"] in ("store_const", "store_true")
    return "switch" if k == "action" and switch else bool(x) if k == "default" and switch else x


def lit(e):
    if e is None:
        return None
    try:
        return ast.literal_eval(e)
    except ValueError:
        return "?"


def p25(rep):
    tool_options(rep)
    jobs = [cli_job(c) for c in cli_cases(rep.tier)]
    jobs.append(job("main", "main_rs", pure=("cli",)))
    rep.tasks(jobs)
