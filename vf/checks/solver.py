"""P21: which solver is run, on what text, and what its answer decides."""
from __future__ import annotations
from .. import dd
from ..dd import C, T, leaf
from .compiler import job
from .outputs import clock, prints, ran
from .scen import Scen, enum, val, var

THEORIES = ("UFLIA", "QF_UFLIA", "QF_BV")


def quiet(s):
    s.model("log.debug", lambda ip, a, st: dd.NONE)
    return s


def specs_of(s, kinds, ft=True):
    objs = [s.obj(k, f"spec{i}", symbol=var(f"text name{i}"), loc=var(f"loc{i}")) for i, k in enumerate(kinds)]
    prog = s.obj("Program", "program", loc=var("loc"))
    fts = s.obj("SpecificationSet", "future")
    s.set(prog, ft_spec_set=fts)
    s.arg("program", prog)
    s.arg("context", s.obj("Context", "context", stats=s.obj("Stats", "stats")))
    give = lambda ip, a, st: ip.alloc(leaf(val(list(objs))), st)
    s.model("cpt.Program.get_specs", give)
    s.model("cpt.SpecificationSet.get_specs", give)
    s.model("cpt.Formula.get_expr", lambda ip, a, st: dd.apply(lambda t: leaf(T("v", f"formula of {dd.show(t)}")), a[0]))
    return objs


COMBOS = ((), ("Formula",), ("Contract",), ("Formula", "Formula"), ("Contract", "Formula"), ("Formula", "Contract"), ("Formula", "Formula", "Formula"), ("Formula", "Contract", "Formula"))
PURE = ("to_smt", "to_smt_equiv", "run_smt_solver", "get_spec_str_reference", "LogicalAnd", "get_spec")


def p21(rep):
    jobs = [job("sat", "find_smt_solver", refmod="ref_solver", pure=("check_executable",), setup=prints()), job("sat", "check_sat_result", refmod="ref_solver")]
    for r in ("SAT", "UNSAT", "UNKNOWN", "TIMEOUT", "MEMOUT", "FAILURE"):
        s = Scen(r)
        s.arg("result", enum("SatResult", r))
        jobs.append(job("sat", "check_sat_result", refmod="ref_solver", **s.kw()))
    for th in THEORIES:
        for solver in ("/bin/z3", "/opt/cvc5/bin/cvc5", "/usr/bin/yices-smt2", "/usr/bin/mathsat", "/usr/bin/bitwuzla", None):
            s = quiet(Scen(f"{th} {solver}"))
            s.arg("theory", enum("SMTTheory", th))
            s.arg("context", s.obj("Context", "context", stats=s.obj("Stats", "stats")))
            s.model("sat.find_smt_solver", lambda ip, a, st, solver=solver: dd.const(solver))
            jobs.append(job("sat", "run_smt_solver", refmod="ref_solver", effects=("kill",), pure=("get_children_rusage_time", "set_max_memory_offset"), **s.kw(unroll=4)))
        s = quiet(Scen(th))
        s.arg("theory", enum("SMTTheory", th))
        s.arg("context", s.obj("Context", "context", stats=s.obj("Stats", "stats")))
        jobs.append(job("sat", "to_smt", refmod="ref_solver", pure=("get_rusage_time", "to_uflia_smtlib2", "to_qf_uflia_smtlib2", "to_qf_bv_smtlib2"), **s.kw()))
    for solver in ("/bin/z3", "/opt/cvc5", "/usr/bin/mathsat"):
        for code in (0, 1, -6):
            for out in (b"sat\n", b"unsat\n", b"unknown\n", b"", b"(warning x)\nunsat\n(bye)", b"std::bad_alloc"):
                for err in (b"", b"(error \"out of memory\")", b"std::bad_alloc"):
                    if code == 0 and err or code and out in (b"unsat\n", b"unknown\n"):
                        continue
                    s = quiet(Scen(f"{solver} {code} {out} {err}"))
                    s.arg("theory", enum("SMTTheory", "QF_BV"))
                    s.arg("context", s.obj("Context", "context", stats=s.obj("Stats", "stats", smt_solver_time=3.0, smt_num_calls=2)))
                    s.model("sat.find_smt_solver", lambda ip, a, st, solver=solver: dd.const(solver))
                    s.model("util.get_children_rusage_time", clock)
                    s.model("subprocess.Popen", ran("subprocess.Popen", returncode=code))
                    s.model("Process.communicate", lambda ip, a, st, out=out, err=err: (ip.effect(st, ".communicate", a, None), leaf(T("tuple", C(out), C(err))))[1])
                    jobs.append(job("sat", "run_smt_solver", refmod="ref_solver", effects=("kill",), pure=("set_max_memory_offset",), **s.kw(unroll=4)))
    s = quiet(Scen())
    jobs.append(job("sat", "to_smt_equiv", refmod="ref_solver", pure=("to_smt", "LogicalNegate", "LogicalIff"), **s.kw()))
    for kinds in COMBOS:
        tag = "+".join(kinds) or "no formulas"
        for fn in ("write_smt_encoding", "check_sat", "write_equiv_smt", "check_equiv"):
            for th in ("uflia", "qf_bv") if len(kinds) == 1 else ("uflia",):
                for on in (False, True):
                    s = quiet(Scen(f"{tag} {th} {on}"))
                    specs_of(s, kinds)
                    s.arg("options", val({"location": var("text location"), "theory": th, "strict": on if len(kinds) == 1 else var("strict"), "formula": None, "print": on, "quiet": on,
                                          "smt_max_time": var("time"), "smt_max_memory": var("memory")}))
                    kw = s.kw(unroll=5)
                    kw["setup"] = prints(kw["setup"])
                    if fn.startswith("write") and on and len(kinds) != 1:
                        continue
                    jobs.append(job("sat", fn, refmod="ref_solver", pure=PURE, **kw))
    for found in ("Formula", "Contract", None):
        s = quiet(Scen(f"one formula asked for: {found}"))
        objs = specs_of(s, ("Formula", "Formula"))
        o = s.obj(found, "wanted", symbol=var("text wanted"), loc=var("lw")) if found else None
        s.model("cpt.Program.get_spec", lambda ip, a, st, o=o: leaf(o) if o is not None else dd.NONE)
        s.arg("options", val({"location": var("text location"), "theory": "qf_uflia", "strict": var("strict"), "formula": var("text which")}))
        jobs.append(job("sat", "write_smt_encoding", refmod="ref_solver", pure=("to_smt",), **s.kw(unroll=5)))
    from .outputs import processes
    rep.tasks(jobs + processes())
