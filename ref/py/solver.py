"""How a solver is found and run, and what its answers decide."""
import pathlib
import shutil
import subprocess
import tempfile
from c2po import command, cpt, log, sat, util


def find_smt_solver(context):
    if context.smt_solver_path is not None and util.check_executable(context.smt_solver_path):
        return context.smt_solver_path
    for name in ["z3", "cvc5", "yices-smt2", "mathsat", "bitwuzla"]:
        path = shutil.which(name)
        if path is not None:
            return path if util.check_executable(path) else None
    return None


def check_sat_result(result):
    return result == sat.SatResult.SAT or result == sat.SatResult.UNSAT or result == sat.SatResult.UNKNOWN


def run_smt_solver(smt_encoding, theory, max_time, max_memory, context):
    solver = sat.find_smt_solver(context)
    if solver is None:
        log.error("no solver")
        return sat.SatResult.FAILURE
    words = [solver]
    if "cvc5" in solver and (theory == sat.SMTTheory.UFLIA or theory == sat.SMTTheory.QF_UFLIA):
        words = [solver, "--finite-model-find", "--fmf-bound"]
    with tempfile.TemporaryDirectory() as folder:
        path = f"{folder}/tmp.smt2"
        with open(path, "w") as f:
            f.write(smt_encoding)
        words = words + [path]
        begin = util.get_children_rusage_time()
        try:
            proc = subprocess.Popen(words, preexec_fn=util.set_max_memory_offset(max_memory), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        except OSError:
            log.internal("cannot run")
            return sat.SatResult.FAILURE
        try:
            (out, err) = proc.communicate(timeout=max_time)
        except subprocess.TimeoutExpired:
            proc.kill()
            log.warning("time")
            return sat.SatResult.TIMEOUT
    end = util.get_children_rusage_time()
    out = out.decode() if out else ""
    err = err.decode() if err else ""
    if proc.returncode != 0:
        exhausted = ("z3" in solver and "(error \"out of memory\")" in err
                     or "cvc5" in solver and "std::bad_alloc" in out or "std::bad_alloc" in err
                     or "yices" in solver and "Out of memory" in err
                     or "mathsat" in solver and proc.returncode == -6)
        if exhausted:
            log.warning("memory")
            return sat.SatResult.MEMOUT
        log.error("failed")
        return sat.SatResult.FAILURE
    if out.find("unsat") > -1:
        result = sat.SatResult.UNSAT
    elif out.find("sat") > -1:
        result = sat.SatResult.SAT
    else:
        result = sat.SatResult.UNKNOWN
    context.stats.smt_solver_time += end - begin
    context.stats.smt_num_calls += 1
    context.stats.smt_solver_result = result.value
    return result


def to_smt(expr, context, theory, strict):
    begin = util.get_rusage_time()
    if theory == sat.SMTTheory.UFLIA:
        text = sat.to_uflia_smtlib2(expr, context, strict)
    elif theory == sat.SMTTheory.QF_UFLIA:
        text = sat.to_qf_uflia_smtlib2(expr, context, strict)
    elif theory == sat.SMTTheory.QF_BV:
        text = sat.to_qf_bv_smtlib2(expr, context, strict)
    else:
        log.error("theory")
        return None
    context.stats.smt_encoding_time += util.get_rusage_time() - begin
    return text


def to_smt_equiv(expr1, expr2, context, theory, strict):
    same = cpt.Operator.LogicalIff(expr1.loc, expr1, expr2, set_parents=False)
    return sat.to_smt(cpt.Operator.LogicalNegate(expr1.loc, same, set_parents=False), context, theory, strict)


def write_smt_encoding(program, context, options):
    location = pathlib.Path(options["location"])
    folder = False
    if location.is_file():
        location.unlink()
    elif location.is_dir():
        folder = True
    theory = sat.SMTTheory(options["theory"])
    if options["formula"] is not None:
        formula = program.get_spec(options["formula"])
        if formula is None:
            log.error("not found")
            return command.ReturnCode.ERROR
        if isinstance(formula, cpt.Contract):
            log.error("contract")
            return command.ReturnCode.ERROR
        text = sat.to_smt(formula.get_expr(), context, theory, options["strict"])
        if text is None:
            log.error("failed")
            return command.ReturnCode.ERROR
        with open(location / f"{formula.symbol}.smt2" if folder else location, "w") as f:
            f.write(text)
        return command.ReturnCode.SUCCESS
    specs = program.ft_spec_set.get_specs()
    if len(specs) > 1:
        folder = True
    if folder:
        location.mkdir(parents=True, exist_ok=True)
    for formula in specs:
        if isinstance(formula, cpt.Contract):
            continue
        text = sat.to_smt(formula.get_expr(), context, theory, options["strict"])
        if text is None:
            log.error("failed")
            return command.ReturnCode.ERROR
        with open(location / f"{formula.symbol}.smt2" if folder else location, "w") as f:
            f.write(text)
    return command.ReturnCode.SUCCESS


def check_sat(program, context, options):
    theory = sat.SMTTheory(options["theory"])
    exprs = []
    for spec in program.get_specs():
        if isinstance(spec, cpt.Contract):
            log.warning("contract")
            continue
        expr = spec.get_expr()
        exprs.append(expr)
        text = sat.to_smt(expr, context, theory, options["strict"])
        if text is None:
            log.error("failed")
            return command.ReturnCode.ERROR
        result = sat.run_smt_solver(text, theory, options["smt_max_time"], options["smt_max_memory"], context)
        name = cpt.get_spec_str_reference(spec)
        if not check_sat_result(result):
            log.error("unexpected")
            return command.ReturnCode.ERROR
        if options["print"]:
            print(f"{name} : {result.value}")
        elif result != sat.SatResult.SAT:
            log.warning("result")
    if len(exprs) <= 1:
        return command.ReturnCode.SUCCESS
    every = cpt.Operator.LogicalAnd(program.loc, exprs, set_parents=False)
    text = sat.to_smt(every, context, theory, options["strict"])
    if text is None:
        log.error("failed")
        return command.ReturnCode.ERROR
    result = sat.run_smt_solver(text, theory, options["smt_max_time"], options["smt_max_memory"], context)
    if not check_sat_result(result):
        log.error("unexpected")
        return command.ReturnCode.ERROR
    if options["print"]:
        print(f"program : {result.value}")
    elif result != sat.SatResult.SAT:
        log.warning("result")
    return command.ReturnCode.SUCCESS


def write_equiv_smt(program, context, options):
    location = pathlib.Path(options["location"])
    folder = False
    if location.is_file():
        location.unlink()
    elif location.is_dir():
        folder = True
    theory = sat.SMTTheory(options["theory"])
    specs = program.ft_spec_set.get_specs()
    if len(specs) == 1:
        log.warning("nothing to do")
        return command.ReturnCode.SUCCESS
    if len(specs) > 2:
        folder = True
    if folder:
        location.mkdir(parents=True, exist_ok=True)
    for one, two in zip(specs, specs[1:]):
        if isinstance(one, cpt.Contract) or isinstance(two, cpt.Contract):
            continue
        text = sat.to_smt_equiv(one.get_expr(), two.get_expr(), context, theory, options["strict"])
        if not text:
            log.error("failed")
            return command.ReturnCode.ERROR
        with open(location / f"equiv_{one.symbol}_{two.symbol}.smt2" if folder else location, "w") as f:
            f.write(text)
    return command.ReturnCode.SUCCESS


def check_equiv(program, context, options):
    theory = sat.SMTTheory(options["theory"])
    good = True
    verdict = "equiv"
    specs = program.get_specs()
    for one, two in zip(specs, specs[1:]):
        if isinstance(one, cpt.Contract) or isinstance(two, cpt.Contract):
            log.warning("contract")
            continue
        text = sat.to_smt_equiv(one.get_expr(), two.get_expr(), context, theory, options["strict"])
        if text is None:
            log.error("failed")
            good = False
            if verdict != "not-equiv":
                verdict = "unknown"
            continue
        result = sat.run_smt_solver(text, theory, options["smt_max_time"], options["smt_max_memory"], context)
        if not check_sat_result(result):
            good = False
        if result == sat.SatResult.SAT:
            verdict = "not-equiv"
        elif result != sat.SatResult.UNSAT and verdict != "not-equiv":
            verdict = "unknown"
    if not options["quiet"]:
        print(verdict)
    return command.ReturnCode.SUCCESS if good else command.ReturnCode.ERROR
