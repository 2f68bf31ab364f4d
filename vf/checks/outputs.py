"""What is printed, written to files, run and measured."""
from __future__ import annotations
import ast
from .. import dd
from ..dd import C, T, leaf
from .compiler import interp, job, project, where_of
from .scen import Scen, enum, val, var

# what each placeholder of the statistics stands for
PLACEHOLDERS = {
    "F": "spec_filename", "f0": "first_formula_string", "scq": "total_scq_size", "dagsize": "total_dag_size", "numtlo": "num_temporal_operators", "asmnum": "asm_num_instructions",
    "asmbz": "asm_num_bz_instructions", "asmtltemp": "asm_num_tl_temporal_instructions", "asmtl": "asm_num_tl_instructions", "asmcg": "asm_num_cg_instructions",
    "asmscq": "asm_num_scq_instructions", "asmaliases": "asm_num_aliases", "asmsignals": "asm_num_signals", "asmatomics": "asm_num_atomics", "satres": "smt_solver_result",
    "satenc": "smt_encoding_time", "sattime": "smt_solver_time", "satnc": "smt_num_calls", "eqsatenc": "eqsat_encoding_time", "eqsattime": "eqsat_solver_time",
    "eqsatstatus": "eqsat_solver_status", "eqsateclasses": "eqsat_num_eclasses", "eqsatenodes": "eqsat_num_enodes", "eqsatgurenc": "eqsat_gurobi_encoding_time",
    "eqsatgurtime": "eqsat_gurobi_solver_time", "eqsatgurstatus": "eqsat_gurobi_solver_status", "eqsateqres": "eqsat_equiv_result", "eqsateqtime": "eqsat_equiv_solver_time",
    "eqsateqenc": "eqsat_equiv_encoding_time", "r2u2median": "r2u2_median_runtime", "r2u2average": "r2u2_average_runtime", "r2u2min": "r2u2_min_runtime", "r2u2max": "r2u2_max_runtime",
    "r2u2status": "r2u2_status", "sabrebytes": "sabre_total_bytes"}


def prints(base=None):
    def setup(ip, st):
        ip.prints = True
        return base(ip, st) if base else None
    return setup


def const_dict(mod, name):
    e = project().mods[mod].assigns.get(name) if mod in project().mods else None
    if e is None:
        return None
    try:
        d = ast.literal_eval(e)
    except ValueError:
        return None
    return d if isinstance(d, dict) else None


def placeholders(rep):
    table = const_dict("stats", "STATS_FORMAT_MAP")
    p = project()
    cls = p.cls("Stats")
    if table is None or cls is None:
        rep.skip("stats", "table not readable")
        return
    fields = {s.target.id for s in cls.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)}
    at = "compiler/c2po/stats.py"
    keys = list(table)
    for k, f in PLACEHOLDERS.items():
        if k not in table:
            rep.bad(f"placeholder:{k}", f"the placeholder %{k} is not known", at)
        elif table[k] not in fields:
            rep.bad(f"placeholder:{k}", f"the placeholder %{k} stands for {table[k]}, which is not a statistic", at)
        elif f in fields and table[k] != f:
            rep.bad(f"placeholder:{k}", f"the placeholder %{k} stands for {table[k]}, documented {f}", at)
        else:
            rep.ok(what="placeholders", sample=f"%{k}: {table[k]}")
    for i, k in enumerate(keys):
        hit = [j for j in keys[i + 1:] if j.startswith(k)]
        if hit:
            rep.bad(f"placeholder:{k}:prefix", f"%{k} is replaced before %{hit[0]}, which can then never be used", at)
        else:
            rep.ok(what="placeholders")
    # a statistic nothing ever sets reports nothing
    methods = {}
    for s in cls.body:
        if isinstance(s, ast.FunctionDef):
            methods[s.name] = {n.attr for n in ast.walk(s) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
    written, dynamic = set(), False
    for mn, m in p.mods.items():
        if mn.startswith("ref_"):
            continue
        inside = {id(n) for c in ast.walk(m.tree) if isinstance(c, ast.ClassDef) and c.name == "Stats" for n in ast.walk(c)}
        for n in ast.walk(m.tree):
            if id(n) in inside:
                continue
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                written.add(n.attr)
            if isinstance(n, ast.Attribute) and n.attr in methods and n.attr not in ("deepcopy", "format", "get_help_message") and not n.attr.startswith("reset"):
                written |= methods[n.attr]
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" or isinstance(n, ast.Attribute) and n.attr == "__dict__":
                dynamic = True
    for k, f in table.items():
        if f in written:
            rep.ok(what="statistics", sample=f"{f} is set")
        elif f in fields:
            (rep.skip if dynamic else rep.bad)(f"statistic:{f}", f"nothing ever sets {f}, so %{k} always shows its initial value", *([] if dynamic else [at]))


def format_jobs():
    out = []
    for text in ("", "%scq", "%F %f0", "%asmtl %asmtltemp", "%asmnum\\n%asmbz\\t%asmcg", 'a \\"b\\"', "%r2u2max%r2u2min", "100% %satres", "%eqsateqres %eqsatenc %eqsateqenc"):
        s = Scen(repr(text))
        s.arg("self", s.obj("Stats", "stats", **{f: var("text " + f) for f in PLACEHOLDERS.values()}))
        s.arg("format_str", C(text))
        kw = s.kw(unroll=50)
        base = kw["setup"]

        def setup(ip, st, base=base):
            ip.fold_replace = True
            return base(ip, st)
        kw["setup"] = setup
        out.append(job("stats", "Stats.format", refmod="ref_output", reffn="stats_format", cls="Stats", **kw))
    return out


def limited(ip, ra, st):
    """What the function run in the new process does."""
    return ip.per_leaf(ra, st, lambda t, s2: ip.call(t, [], {}, s2, None, None) if t.op == "clos" else leaf(t))


INSTANTS = [0.0, 1.5, 5.0, 6.0, 16.0, 16.25, 80.0, 81.0]


def clock(ip, args, st):
    """What a clock shows after a number of runs of other programs."""
    return dd.apply(lambda t: dd.const(INSTANTS[min(t.args[0], 7)]), ip.get(st, ("work", "n")))


def usage(ip, args, st):
    which = lambda t: "self" if "SELF" in dd.show(t) else "children"
    return dd.apply(lambda t: leaf(T("o", "Usage", which(t))), ip.val(args[0], st))


def ran(name, **attrs):
    """A model of running a program: what comes of the n-th run."""
    def f(ip, args, st):
        ip.effect(st, name, args, None)
        st.d["work", "n"] = ip.add_leafs(ip.get(st, ("work", "n")), 1)

        def one(t):
            o = T("o", "Process", f"run {t.args[0]}")
            for k, v in attrs.items():
                if ("at", o, k) not in st.d:
                    st.d["at", o, k] = leaf(C(v[min(t.args[0] - 1, len(v) - 1)] if isinstance(v, list) else v))
            return leaf(o)
        return dd.apply(one, ip.get(st, ("work", "n")))
    return f


def processes():
    """Clocks, memory limits and whether a program can be run."""
    out = processes_in_general()
    for codes in ([0, 0, 0], [1, 0, 0], [1, 1, 0], [1, 1, 2], [2, 2, 0]):
        s = Scen(f"exit codes {codes}")
        s.arg("executable", var("text executable"))
        s.model("subprocess.run", ran("subprocess.run", returncode=codes))
        out.append(job("util", "check_executable", refmod="ref_output", **s.kw()))
    for mb in (0, 1, 4096, -5):
        for f in ("set_max_memory", "set_max_memory_offset"):
            s = Scen(f"{mb} MB, usage known")
            s.model("log.debug", lambda ip, a, st: dd.NONE)
            s.model("resource.getrusage", usage)
            s.arg("mb", C(mb))
            s.set(T("o", "Usage", "self"), ru_maxrss=5 * 1024, ru_utime=1.0, ru_stime=8.0)
            s.set(T("o", "Usage", "children"), ru_maxrss=3 * 1024, ru_utime=64.0, ru_stime=512.0)
            out.append(job("util", f, refmod="ref_output", post=limited, **s.kw()))
    for f in ("get_rusage_time", "get_children_rusage_time"):
        s = Scen("usage known")
        s.model("resource.getrusage", usage)
        s.set(T("o", "Usage", "self"), ru_maxrss=5 * 1024, ru_utime=1.0, ru_stime=8.0)
        s.set(T("o", "Usage", "children"), ru_maxrss=3 * 1024, ru_utime=64.0, ru_stime=512.0)
        out.append(job("util", f, refmod="ref_output", **s.kw()))
    return out


def processes_in_general():
    out = [job("util", f, refmod="ref_output") for f in ("get_rusage_time", "get_children_rusage_time")]
    out.append(job("util", "check_executable", refmod="ref_output"))
    for mb in (0, 1, 4096, -5):
        s = Scen(f"{mb} MB")
        s.model("log.debug", lambda ip, a, st: dd.NONE)
        s.arg("mb", C(mb))
        for f in ("set_max_memory", "set_max_memory_offset"):
            out.append(job("util", f, refmod="ref_output", post=limited, **s.kw()))
    return out


def p24(rep):
    placeholders(rep)
    jobs = []
    for mod, fn in (("serialize", "write_c2po"), ("serialize", "write_prefix"), ("serialize", "write_mltl"), ("serialize", "write_pickle"), ("command", "print_program_c2po"),
                    ("command", "print_program_mltl"), ("command", "print_program_prefix"), ("util", "read_file"), ("util", "format_bytes")):
        jobs.append(job(mod, fn, refmod="ref_output", pure=("to_mltl_std", "to_prefix_str", "get_specs", "pickle"), setup=prints()))
    for specs in ((), ("Formula",), ("Formula", "Formula"), ("Contract",), ("Contract", "Formula"), ("Formula", "Contract"), ("Contract", "Contract", "Formula")):
        s = Scen("+".join(specs) or "no formulas")
        objs = [s.obj(c, f"spec{i}") for i, c in enumerate(specs)]
        s.arg("program", s.obj("Program", "program"))
        s.arg("context", s.obj("Context", "context", stats=s.obj("Stats", "stats")))
        s.model("cpt.Program.get_specs", lambda ip, a, st, objs=objs: ip.alloc(leaf(val(list(objs))), st))
        for o in objs:
            s.model("cpt.Formula.get_expr", lambda ip, a, st: dd.apply(lambda t: leaf(T("v", f"text of {dd.show(t)}")), a[0]))
        kw = s.kw(unroll=6)
        kw["setup"] = prints(kw["setup"])
        jobs.append(job("command", "print_stats", refmod="ref_output", pure=("get_dag_size", "get_num_temporal_operators", "format"), **kw))
        if specs:
            kw = s.kw(unroll=6)
            kw["setup"] = prints(kw["setup"])
            jobs.append(job("command", "print_program_prefix", refmod="ref_output", pure=("to_prefix_str",), **kw))
    for kinds in ((), ("LogicalAnd",), ("TemporalOperator", "Atomic"), ("TemporalOperator", "LogicalNegate", "TemporalOperator")):
        s = Scen("+".join(kinds) or "nothing")
        prog = s.obj("Program", "program")
        s.arg("self", prog)
        s.walk(prog, [s.obj(k, f"e{i}") for i, k in enumerate(kinds)])
        for f in ("get_dag_size", "get_num_temporal_operators"):
            jobs.append(job("cpt", f"Program.{f}", refmod="ref_output", reffn=f, cls="Program", **s.kw(unroll=6)))
    jobs.append(job("r2u2", "find_r2u2_executable", refmod="ref_output", pure=("check_executable",)))
    for runs in (0, 1, 3):
        for d in (None, "", "dir"):
            for out in (None, "file"):
                for show in (True, False):
                    s = Scen(f"{runs} runs, directory {d}, output {out}, {'printed' if show else 'not printed'}")
                    s.arg("program", var("program"))
                    s.arg("context", s.obj("Context", "context", stats=s.obj("Stats", "stats")))
                    s.arg("options", val({"binary": var("text binary"), "trace": var("text trace"), "print": show, "output": out, "num_runs": runs, "r2u2dir": d}))
                    kw = s.kw(unroll=6)
                    kw["setup"] = prints(kw["setup"])
                    jobs.append(job("r2u2", "run_r2u2", refmod="ref_output", pure=("find_r2u2_executable", "get_children_rusage_time"), **kw))
                    for codes in ([0], [1], [0, 3, 0]):
                        s.tag += f" {codes}"
                        s.model("util.get_children_rusage_time", clock)
                        s.model("subprocess.run", ran("subprocess.run", returncode=codes, stdout=[b"first\n", b"", b" third\n"], stderr=b"note"))
                        kw = s.kw(unroll=6)
                        kw["setup"] = prints(kw["setup"])
                        jobs.append(job("r2u2", "run_r2u2", refmod="ref_output", pure=("find_r2u2_executable",), **kw))
    for f in ("debug", "warning", "error"):
        jobs.append(job("log", f, refmod="ref_output", pure=("format",)))
    jobs.append(job("log", "format", refmod="ref_output", reffn="message"))
    for f in ("set_log_level", "set_quiet", "set_suppress_warnings", "set_current_command_name", "reset_current_command_name"):
        jobs.append(job("log", f, refmod="ref_output"))
    rep.tasks(jobs + format_jobs() + processes())
