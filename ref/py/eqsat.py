"""How egglog is found and run, what its answers decide, and which formula replaces which."""
import json
import pathlib
import shutil
import subprocess
import tempfile
from c2po import command, cpt, eqsat, log, parse_egglog_output, sat, util

try:
    from c2po import egraph
except ImportError:
    egraph = None


def find_egglog(context, use_experimental=False):
    if context.egglog_path is not None and util.check_executable(context.egglog_path):
        return context.egglog_path
    name = "egglog-experimental" if use_experimental else "egglog"
    path = shutil.which(name)
    if path is not None and util.check_executable(path):
        return path
    built = pathlib.Path(eqsat.__file__).parent.parent / "deps" / name / "target" / "release" / name
    return str(built) if util.check_executable(str(built)) else None


def run_egglog(egglog_encoding, max_time, max_memory, context, use_experimental_egglog=False):
    tool = eqsat.find_egglog(context, use_experimental_egglog)
    if tool is None:
        log.error("no egglog")
        return "", {}, "failure", -1.0
    with tempfile.TemporaryDirectory() as folder:
        source = pathlib.Path(folder) / "tmp.egg"
        with open(source, "w") as f:
            f.write(egglog_encoding)
        words = [tool, str(source), "--to-json"]
        begin = util.get_children_rusage_time()
        try:
            proc = subprocess.Popen(words, preexec_fn=util.set_max_memory_offset(max_memory), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        except OSError:
            log.internal("cannot run")
            return "", {}, "failure", -1.0
        try:
            (out, err) = proc.communicate(timeout=max_time)
        except subprocess.TimeoutExpired:
            proc.kill()
            log.warning("time")
            return "", {}, "timeout", -1.0
        end = util.get_children_rusage_time()
        if proc.returncode == -6:
            log.error("memory")
            return "", {}, "memout", -1.0
        if proc.returncode != 0:
            log.error("failed")
            return "", {}, "failure", -1.0
        with open(pathlib.Path(folder) / "tmp.json", "r") as f:
            graph = json.loads(f.read())
    return out.decode(), graph, "ok", end - begin


def write_one(formula, path, context, options):
    text = eqsat.to_egglog(formula.get_expr(), context, options)
    if text is None:
        log.error("no encoding")
        return command.ReturnCode.ERROR
    with open(path, "w") as f:
        f.write(text)
    return command.ReturnCode.SUCCESS


def write_eqsat_encoding(program, context, options):
    location = pathlib.Path(options["location"])
    folder = False
    if location.is_file():
        location.unlink()
    elif location.is_dir():
        folder = True
    if options["formula"] is not None:
        formula = program.get_spec(options["formula"])
        if formula is None or isinstance(formula, cpt.Contract):
            log.error("no such formula")
            return command.ReturnCode.ERROR
        return write_one(formula, location / f"{formula.symbol}.eqsat.egglog" if folder else location, context, options)
    specs = program.ft_spec_set.get_specs()
    if len(specs) > 1:
        folder = True
    if folder:
        location.mkdir(parents=True, exist_ok=True)
    for formula in specs:
        if not isinstance(formula, cpt.Contract):
            result = write_one(formula, location / f"{formula.symbol}.eqsat.egglog" if folder else location, context, options)
            if result != command.ReturnCode.SUCCESS:
                return result
    return command.ReturnCode.SUCCESS


COUNTED = {"Bool", "Var", "Not", "And2", "And3", "And4", "Or2", "Or3", "Or4", "Global", "Future", "Until", "Release"}


def optimize_eqsat(program, context, options):
    every = True
    for formula in program.ft_spec_set.get_specs():
        if isinstance(formula, cpt.Contract):
            log.warning("skipped")
            continue
        greedy = options["extraction_method"] != "ilp"
        options["greedy_extraction"] = greedy
        old = formula.get_expr()
        text = eqsat.to_egglog(old, context, options)
        if text is None:
            log.error("no encoding")
            return command.ReturnCode.ERROR
        out, graph, outcome, seconds = eqsat.run_egglog(text, options["egglog_max_time"], options["egglog_max_memory"], context, options["extraction_method"] == "greedy")
        context.stats.eqsat_solver_time += seconds
        context.stats.eqsat_solver_status = outcome
        if outcome == "timeout" or outcome == "memout":
            return command.ReturnCode.SUCCESS
        if outcome != "ok":
            log.warning("skipped")
            continue
        if "nodes" not in graph or "class_data" not in graph:
            log.error("no graph")
            return command.ReturnCode.ERROR
        context.stats.eqsat_num_enodes = len([n for n in graph["nodes"].values() if n["op"] in {"Bool", "Var", "Not", "And2", "And3", "And4", "Or2", "Or3", "Or4", "Global", "Future", "Until", "Release"}])
        context.stats.eqsat_num_eclasses = len([c for c in graph["class_data"].keys() if c.startswith("MLTL-")])
        new = parse_egglog_output.parse(str(out), context, options)
        if new is None:
            log.error("nothing extracted")
            return command.ReturnCode.ERROR
        if not options["check_equiv"]:
            old.replace(new)
            continue
        theory = sat.SMTTheory(options["theory"])
        begin = util.get_rusage_time()
        question = sat.to_smt_equiv(old, new, context, theory, strict=False)
        context.stats.eqsat_equiv_encoding_time += util.get_rusage_time() - begin
        if question is None:
            log.error("no encoding")
            return command.ReturnCode.ERROR
        if options["equiv_smt_encoding_filename"] is not None:
            with open(options["equiv_smt_encoding_filename"], "w") as f:
                f.write(question)
        begin = util.get_rusage_time()
        answer = sat.run_smt_solver(question, theory, options["smt_max_time"], options["smt_max_memory"], context)
        context.stats.eqsat_equiv_solver_time += util.get_rusage_time() - begin
        if answer is sat.SatResult.SAT:
            log.warning("not equivalent")
            word = "not-equiv"
            every = False
        elif answer is sat.SatResult.UNSAT:
            word = "equiv"
            old.replace(new)
        else:
            log.warning("unknown")
            word = "unknown"
            old.replace(new)
        context.stats.eqsat_equiv_result = word
    return command.ReturnCode.SUCCESS if every else command.ReturnCode.ERROR
