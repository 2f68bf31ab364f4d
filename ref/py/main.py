"""The console: how a script line is run and what becomes of its result."""
import os
import pathlib
import shlex
import sys
from c2po import command, cpt, log, main, util


def set_return_code(self, return_code):
    if return_code.is_error():
        self.return_code = return_code


def push_state(self):
    self.state_stack.append(cpt.deepcopy_program_with_context(self.program, self.context))


def pop_state(self):
    state = self.state_stack.pop()
    self.program = state[0]
    self.context = state[1]


def runsource(self, source, filename="<input>", symbol="single"):
    source = source.strip()
    if source == "" or source.startswith("#"):
        return False
    try:
        words = shlex.split(source)
        name = words[0]
    except ValueError:
        log.error("error parsing command")
        self.set_return_code(command.ReturnCode.SHLEX_ERROR)
        return False
    if name == "exit":
        sys.exit(self.return_code.value)
    if name == "push":
        self.state_stack.append(cpt.deepcopy_program_with_context(self.program, self.context))
        return False
    if name == "pop":
        if len(self.state_stack) == 0:
            log.error("no state to pop, use 'push' to create a new state")
            self.set_return_code(command.ReturnCode.NO_STATE_TO_POP)
            return False
        state = self.state_stack.pop()
        self.program = state[0]
        self.context = state[1]
        return False
    if name not in self.command_dict:
        log.error("unknown command")
        self.set_return_code(command.ReturnCode.UNKNOWN_COMMAND)
        return False
    cur = self.command_dict[name]
    try:
        options = cur.parse_args(words[1:])
        unmet = cur.check_guards(self.program, self.context)
        if unmet is not None:
            main.print_failed_guard_message(unmet, cur)
            self.set_return_code(command.ReturnCode.GUARD_CONDITION_NOT_MET)
            return False
        result = cur.execute(self.program, self.context, options)
        if isinstance(result, cpt.Program):
            self.program = result
            self.set_return_code(command.ReturnCode.SUCCESS)
        elif result is None:
            self.set_return_code(command.ReturnCode.PARSE_ERROR)
        elif isinstance(result, tuple):
            main.print_failed_guard_message(result[1], result[0])
            self.set_return_code(command.ReturnCode.GUARD_CONDITION_NOT_MET)
        elif isinstance(result, command.ReturnCode):
            self.set_return_code(result)
        else:
            log.internal("unexpected result type")
            self.set_return_code(command.ReturnCode.UNKNOWN_RESULT_TYPE)
    except SystemExit:
        self.set_return_code(command.ReturnCode.ARGPARSE_EXIT)
        return False
    return False


def run_rc_script(console):
    with open(main.C2PO_RC_PATH, "r") as file:
        for line in file:
            console.runsource(line.strip())


def main_rs(spec_filename, trace_filename, map_filename, output_filename, write_bounds_filename, enable_aux, enable_booleanizer, enable_rewrite, enable_cse, enable_sat, timeout_sat):
    return main.cli(
        spec_filename, trace_filename if trace_filename != "" else None, map_filename if map_filename != "" else None, output_filename if output_filename != "" else None,
        write_bounds_filename if write_bounds_filename != "" else None, False, False, False, False, False, -1, 0, enable_booleanizer, enable_aux, enable_cse, enable_rewrite, False,
        False, False, False, False, False, False, False, 5, 0, 0, "", enable_sat, "uflia", timeout_sat, 0, "")


def script(script_filename, chdir=True):
    console = main.CommandConsole()
    console.context.script_filename = script_filename
    if main.C2PO_RC_PATH.exists():
        main.run_rc_script(console)
    text = util.read_file(script_filename)
    if text is None:
        return command.ReturnCode.FILE_NOT_FOUND
    if chdir:
        os.chdir(pathlib.Path(script_filename).parent)
    for line in text.splitlines():
        console.runsource(line.strip())
    return console.return_code


def interactive():
    console = main.CommandConsole()
    if main.C2PO_RC_PATH.exists():
        main.run_rc_script(console)
    console.interact(banner="", exitmsg="")
    return console.return_code
