"""How map files and traces bind names to positions in the signal vector."""
import random
import re

from c2po import cpt, command, util, types, log


def place(mapping, name, position):
    if name in mapping:
        log.warning(f"signal '{name}' found multiple times in map file, using latest value")
    mapping[name] = position


def parse_map_file(program, context, options):
    text = util.read_file(options["filename"])
    if text is None:
        return command.ReturnCode.ERROR
    context.map_filename = options["filename"]
    mapping = {}
    for line in text.splitlines():
        if re.match(r"[a-zA-Z_][a-zA-Z0-9_\[\]\.]*:\d+", line) is None:
            log.error(f"invalid format for map line (found {line}), should be of the form SYMBOL ':' NUMERAL")
            return command.ReturnCode.ERROR
        fields = line.split(":")
        name = fields[0]
        position = int(fields[1])
        slice_ = re.match(r"([a-zA-Z_][a-zA-Z0-9_]*)\[(\d+)\.\.(\d+)\]", name)
        if slice_ is None:
            place(mapping, name, position)
        else:
            for i in range(int(slice_.group(2)), int(slice_.group(3)) + 1):
                place(mapping, slice_.group(1) + "[" + str(i) + "]", position + i - int(slice_.group(2)))
    context.signal_mapping = mapping
    missing = cpt.assign_signal_ids(program, context, mapping)
    if len(missing) > 0:
        log.error(f"map file does not contain all signals in the program: {', '.join(missing)}")
        return command.ReturnCode.ERROR
    return command.ReturnCode.SUCCESS


def generate_map(program, context, options):
    if not cpt.has_valid_signal_mapping(program, context):
        mapping = {}
        i = 0
        for name in context.signals:
            mapping[name] = i
            i += 1
        missing = cpt.assign_signal_ids(program, context, mapping)
        if len(missing) > 0:
            log.internal(f"auto-generated map file does not contain all signals in the program: {', '.join(missing)}")
            return command.ReturnCode.ERROR
        context.signal_mapping = mapping
    if options["output"] is None:
        return command.ReturnCode.SUCCESS
    with open(options["output"], "w") as f:
        for name, position in context.signal_mapping.items():
            f.write(f"{name}:{position}\n")
    context.map_filename = options["output"]
    return command.ReturnCode.SUCCESS


def parse_trace_file(program, context, options):
    text = util.read_file(options["filename"])
    if text is None:
        return command.ReturnCode.ERROR
    context.trace_filename = options["filename"]
    rows = text.splitlines()
    if len(rows) == 0:
        log.error("trace file is empty")
        return command.ReturnCode.ERROR
    if not rows[0].startswith("#"):
        context.trace_length = len(rows)
        return command.ReturnCode.SUCCESS
    mapping = {}
    column = 0
    for name in rows[0][1:].split(","):
        name = name.strip()
        if name in mapping:
            log.warning(f"signal '{name}' found multiple times in csv, using right-most value")
        mapping[name] = column
        column += 1
    context.signal_mapping = mapping
    missing = cpt.assign_signal_ids(program, context, mapping)
    if len(missing) > 0:
        log.error(f"trace file does not contain all signals in the program: {', '.join(missing)}")
        return command.ReturnCode.ERROR
    context.trace_length = len(rows) - 1
    return command.ReturnCode.SUCCESS


def generate_trace(program, context, options):
    low = options["min"]
    high = options["max"]
    width = options["float_precision"] + 2
    if options["seed"] is not None:
        random.seed(options["seed"])
    columns = sorted(list(context.signals.items()), key=lambda x: context.signal_mapping[x[0]])
    rows = ["#" + ",".join([name for name, _ in columns])]
    for _ in range(options["length"]):
        cells = []
        for _, kind in columns:
            if types.is_bool_type(kind):
                cells.append(str(random.randint(0, 1)))
            elif types.is_float_type(kind):
                cells.append(str(random.uniform(low, high))[:width])
            else:
                cells.append(str(random.randint(int(low), int(high))))
        rows.append(",".join(cells))
    context.trace = rows
    if options["output"] is not None:
        with open(options["output"], "w") as f:
            f.write("\n".join(rows))
    if options["print"]:
        print("\n".join(rows))
    return command.ReturnCode.SUCCESS
