"""What is printed, written and measured."""
import resource
import pathlib
import shutil
import statistics
import subprocess
import sys
from c2po import command, cpt, log, r2u2, util


def write_c2po(program, options):
    with open(options["filename"], "w") as f:
        f.write(str(program))
    return command.ReturnCode.SUCCESS


def write_prefix(program, options):
    with open(options["filename"], "w") as f:
        f.write(repr(program))
    return command.ReturnCode.SUCCESS


def write_mltl(program, context, options):
    text = cpt.to_mltl_std(program, context)
    if text == "":
        log.error("no text")
        return command.ReturnCode.ERROR
    with open(options["filename"], "w") as f:
        f.write(text)
    return command.ReturnCode.SUCCESS


def write_pickle(program, options):
    with open(options["filename"], "wb") as f:
        f.write(program.pickle())
    return command.ReturnCode.SUCCESS


def print_program_c2po(program):
    print(program)
    return command.ReturnCode.SUCCESS


def print_program_mltl(program, context):
    text = cpt.to_mltl_std(program, context)
    if text == "":
        log.error("no text")
        return command.ReturnCode.ERROR
    print(text[:-1])
    return command.ReturnCode.SUCCESS


def print_program_prefix(program):
    for spec in program.get_specs():
        print(cpt.to_prefix_str(spec))
    return command.ReturnCode.SUCCESS


def print_stats(program, context, options):
    formulas = [s for s in program.get_specs() if isinstance(s, cpt.Formula)]
    context.stats.first_formula_string = str(formulas[0].get_expr()) if len(formulas) > 0 else ""
    context.stats.total_dag_size = program.get_dag_size(context)
    context.stats.num_temporal_operators = program.get_num_temporal_operators(context)
    print(context.stats.format(options["format"]), end="")
    return command.ReturnCode.SUCCESS


def get_dag_size(self, context):
    return len(set(id(e) for e in self.postorder(context)))


def get_num_temporal_operators(self, context):
    return len([e for e in self.postorder(context) if isinstance(e, cpt.TemporalOperator)])


def find_r2u2_executable(context):
    if context.r2u2_bin_path is not None and util.check_executable(context.r2u2_bin_path):
        return pathlib.Path(context.r2u2_bin_path).resolve()
    if context.r2u2_c_path is not None:
        own = pathlib.Path(context.r2u2_c_path).resolve() / "build" / "r2u2"
        if util.check_executable(str(own)):
            return own
    found = shutil.which("r2u2")
    if found is not None and util.check_executable(found):
        return pathlib.Path(found)
    near = util.C2PO_SRC_DIR / ".." / ".." / "monitors" / "c" / "build" / "r2u2"
    return near if util.check_executable(str(near)) else None


def run_r2u2(program, context, options):
    if options["r2u2dir"] is not None and options["r2u2dir"] != "":
        exe = pathlib.Path(options["r2u2dir"]) / "build" / "r2u2"
        if not exe.exists():
            log.error("no executable")
            context.stats.r2u2_status = "error"
            return command.ReturnCode.ERROR
    else:
        exe = r2u2.find_r2u2_executable(context)
        if exe is None:
            log.error("no executable")
            context.stats.r2u2_status = "error"
            return command.ReturnCode.ERROR
    times = []
    output = b""
    for i in range(max(options["num_runs"], 1)):
        start = util.get_children_rusage_time()
        proc = subprocess.run([str(exe), str(options["binary"]), str(options["trace"])], capture_output=True)
        times.append(util.get_children_rusage_time() - start)
        output = proc.stdout
        if proc.returncode != 0:
            log.error("code")
            log.error("stdout")
            log.error("stderr")
            context.stats.r2u2_status = "error"
            return command.ReturnCode.ERROR
    context.stats.r2u2_median_runtime = statistics.median(times)
    context.stats.r2u2_average_runtime = statistics.mean(times)
    context.stats.r2u2_min_runtime = min(times)
    context.stats.r2u2_max_runtime = max(times)
    context.stats.r2u2_status = "ok"
    if options["print"]:
        print(output.decode("utf-8").strip())
    if options["output"] is not None:
        with open(options["output"], "wb") as f:
            f.write(output)
    return command.ReturnCode.SUCCESS


def message(message_type, location, message):
    where = f"{location.filename}:{location.lineno}: " if location else ""
    who = f"{log.current_command_name}: " if log.current_command_name else ""
    return f"{who}{message_type}: {where}{message}\n"


def debug(level, message, location=None):
    if level <= log.log_level and not log.enable_quiet:
        sys.stderr.write(log.format("debug", location, message))


def warning(message, location=None):
    if not log.enable_quiet and not log.suppress_warnings:
        sys.stderr.write(log.format("warning", location, message))


def error(message, location=None):
    if not log.enable_quiet:
        sys.stderr.write(log.format("error", location, message))


def read_file(filename):
    try:
        with open(filename, "r") as f:
            return f.read()
    except OSError as e:
        log.error(str(e))
        return None


def format_bytes(bytes):
    if bytes < 1024:
        return f"{bytes} bytes"
    if bytes < 1048576:
        return f"{bytes / 1024:.2f} KB"
    if bytes < 1073741824:
        return f"{bytes / 1024 / 1024:.2f} MB"
    return f"{bytes / 1024 / 1024 / 1024:.2f} GB"


# longest placeholder first: no placeholder hides another
TEXTS = [("%eqsatgurstatus", "eqsat_gurobi_solver_status"), ("%eqsateclasses", "eqsat_num_eclasses"), ("%eqsatgurtime", "eqsat_gurobi_solver_time"), ("%eqsatenodes", "eqsat_num_enodes"),
         ("%eqsateqtime", "eqsat_equiv_solver_time"), ("%eqsatgurenc", "eqsat_gurobi_encoding_time"), ("%eqsatstatus", "eqsat_solver_status"), ("%r2u2average",
         "r2u2_average_runtime"), ("%asmaliases", "asm_num_aliases"), ("%asmatomics", "asm_num_atomics"), ("%asmsignals", "asm_num_signals"), ("%eqsateqenc",
         "eqsat_equiv_encoding_time"), ("%eqsateqres", "eqsat_equiv_result"), ("%r2u2median", "r2u2_median_runtime"), ("%r2u2status", "r2u2_status"), ("%sabrebytes",
         "sabre_total_bytes"), ("%asmtltemp", "asm_num_tl_temporal_instructions"), ("%eqsattime", "eqsat_solver_time"), ("%eqsatenc", "eqsat_encoding_time"), ("%dagsize",
         "total_dag_size"), ("%r2u2max", "r2u2_max_runtime"), ("%r2u2min", "r2u2_min_runtime"), ("%sattime", "smt_solver_time"), ("%asmnum", "asm_num_instructions"), ("%asmscq",
         "asm_num_scq_instructions"), ("%numtlo", "num_temporal_operators"), ("%satenc", "smt_encoding_time"), ("%satres", "smt_solver_result"), ("%asmbz",
         "asm_num_bz_instructions"), ("%asmcg", "asm_num_cg_instructions"), ("%asmtl", "asm_num_tl_instructions"), ("%satnc", "smt_num_calls"), ("%scq", "total_scq_size"), ("%f0",
         "first_formula_string"), ("%F", "spec_filename")]


def stats_format(self, format_str):
    for placeholder, field in TEXTS:
        format_str = format_str.replace(placeholder, str(getattr(self, field)))
    return format_str.replace("\\n", "\n").replace('\\"', '"').replace("\\t", "\t")


def set_log_level(level):
    log.log_level = level


def set_quiet():
    log.enable_quiet = True


def set_suppress_warnings():
    log.suppress_warnings = True


def set_current_command_name(command_name):
    log.current_command_name = command_name


def reset_current_command_name():
    log.current_command_name = None


def get_rusage_time():
    own, children = resource.getrusage(resource.RUSAGE_SELF), resource.getrusage(resource.RUSAGE_CHILDREN)
    return own.ru_utime + own.ru_stime + children.ru_utime + children.ru_stime


def get_children_rusage_time():
    children = resource.getrusage(resource.RUSAGE_CHILDREN)
    return children.ru_utime + children.ru_stime


def set_max_memory(mb):
    if sys.platform == "darwin" or mb <= 0:
        return lambda: None
    limit = mb * 1024 * 1024
    return lambda: resource.setrlimit(resource.RLIMIT_AS, (limit, resource.RLIM_INFINITY))


def set_max_memory_offset(mb):
    if mb <= 0:
        return lambda: None
    used = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss + resource.getrusage(resource.RUSAGE_CHILDREN).ru_maxrss
    if sys.platform == "darwin":
        used = used // 1024
    return util.set_max_memory(mb + used // 1024)


def check_executable(executable):
    if not pathlib.Path(executable).exists() or not pathlib.Path(executable).is_file():
        return False
    try:
        a = subprocess.run([executable, "--version"], capture_output=True)
        b = subprocess.run([executable, "-version"], capture_output=True)
        c = subprocess.run([executable, "-v"], capture_output=True)
        return a.returncode == 0 or b.returncode == 0 or c.returncode == 0
    except FileNotFoundError:
        return False
