"""Guards, execution of commands, and the commands that only set or show something."""
import argparse
from c2po import command, cpt, log


def check_guards(self, program, context):
    def unmet(guards):
        for guard in guards:
            if not guard.predicate(program, context):
                return guard
            below = unmet(command.GUARD_DEPENDENCIES[guard])
            if below is not None:
                return below
        return None
    return unmet(self.guards)


def execute(self, program, context, options):
    try:
        return self.func(program, context, options)
    except Exception as e:
        log.internal("unexpected error")
        return command.ReturnCode.ERROR


def execute_all(self, program, context, options):
    for step in self.commands:
        unmet = step.check_guards(program, context)
        if unmet is not None:
            return (step, unmet)
        result = step.execute(program, context, options)
        if result is None:
            return result
        if result != command.ReturnCode.SUCCESS:
            return result
    return command.ReturnCode.SUCCESS


def guards_of_first(self, program, context):
    return self.commands[0].check_guards(program, context)


def is_error(self):
    return self.value != 0


def set_egglog_path(context, options):
    context.egglog_path = options["egglog_path"]
    return command.ReturnCode.SUCCESS


def set_smt_solver_path(context, options):
    context.smt_solver_path = options["smt_solver_path"]
    return command.ReturnCode.SUCCESS


def set_r2u2_c_path(context, options):
    context.r2u2_c_path = options["r2u2_c_path"]
    return command.ReturnCode.SUCCESS


def set_r2u2_bin_path(context, options):
    context.r2u2_bin_path = options["r2u2_bin_path"]
    return command.ReturnCode.SUCCESS


def enable_booleanizer(context):
    context.enable_booleanizer = True
    return command.ReturnCode.SUCCESS


def disable_booleanizer(context):
    context.enable_booleanizer = False
    return command.ReturnCode.SUCCESS


def set_mission_time(context, options):
    context.set_mission_time(options["mission_time"])
    return command.ReturnCode.SUCCESS


def print_program_mltl(program, context):
    text = cpt.to_mltl_std(program, context)
    if text == "":
        log.error("no text")
        return command.ReturnCode.ERROR
    print(text[:-1])
    return command.ReturnCode.SUCCESS


def command_init(self, name, description, options, func, guards):
    self.name = name
    self.description = description
    self.options = options
    self.func = func
    self.guards = guards
    self.argparser = argparse.ArgumentParser(prog=name, description=description)
    seen = set()
    for o in options:
        if o.get("default") is not None and type(o["default"]) is not o["type"]:
            raise ValueError("the default is not of the type of the option")
        if o["name"] in seen:
            continue
        seen.add(o["name"])
        spelled = o["name"] if o["required"] else "--" + o["name"]
        if o["type"] is bool:
            self.argparser.add_argument(spelled, help=o["description"], action=argparse.BooleanOptionalAction, default=o["default"])
        elif o["choices"] is not None:
            self.argparser.add_argument(spelled, help=o["description"], type=o["type"], default=o["default"], choices=o["choices"])
        else:
            self.argparser.add_argument(spelled, help=o["description"], type=o["type"], default=o["default"])


def parse_args(self, args):
    return {n.replace("-", "_"): v for n, v in vars(self.argparser.parse_args(args)).items()}
