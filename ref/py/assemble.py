"""Specification of the assembler: which instructions a formula becomes, and how each is laid out in the image."""
import struct
from c2po import cpt, types, log, command
from c2po.assemble import (EngineTag, BZOperator, TLOperandType, FTOperator, PTOperator, CGType, AliasType,
                           BZInstruction, TLInstruction, CGInstruction, AliasInstruction)

K = cpt.OperatorKind

# (operator, on integers) -> booleanizer operation
BZ = {
    (K.BITWISE_AND, True): BZOperator.BWAND, (K.BITWISE_OR, True): BZOperator.BWOR, (K.BITWISE_XOR, True): BZOperator.BWXOR,
    (K.BITWISE_NEGATE, True): BZOperator.BWNEG,
    (K.ARITHMETIC_ADD, True): BZOperator.IADD, (K.ARITHMETIC_ADD, False): BZOperator.FADD,
    (K.ARITHMETIC_SUBTRACT, True): BZOperator.ISUB, (K.ARITHMETIC_SUBTRACT, False): BZOperator.FSUB,
    (K.ARITHMETIC_MULTIPLY, True): BZOperator.IMUL, (K.ARITHMETIC_MULTIPLY, False): BZOperator.FMUL,
    (K.ARITHMETIC_DIVIDE, True): BZOperator.IDIV, (K.ARITHMETIC_DIVIDE, False): BZOperator.FDIV,
    (K.ARITHMETIC_MODULO, True): BZOperator.MOD,
    (K.ARITHMETIC_POWER, True): BZOperator.IPOW, (K.ARITHMETIC_POWER, False): BZOperator.FPOW,
    (K.ARITHMETIC_SQRT, True): BZOperator.ISQRT, (K.ARITHMETIC_SQRT, False): BZOperator.FSQRT,
    (K.ARITHMETIC_ABS, True): BZOperator.IABS, (K.ARITHMETIC_ABS, False): BZOperator.FABS,
    (K.PREVIOUS, True): BZOperator.PREV, (K.PREVIOUS, False): BZOperator.PREV,
    (K.EQUAL, True): BZOperator.IEQ, (K.EQUAL, False): BZOperator.FEQ,
    (K.NOT_EQUAL, True): BZOperator.INEQ, (K.NOT_EQUAL, False): BZOperator.FNEQ,
    (K.GREATER_THAN, True): BZOperator.IGT, (K.GREATER_THAN, False): BZOperator.FGT,
    (K.GREATER_THAN_OR_EQUAL, True): BZOperator.IGTE, (K.GREATER_THAN_OR_EQUAL, False): BZOperator.FGTE,
    (K.LESS_THAN, True): BZOperator.ILT, (K.LESS_THAN, False): BZOperator.FLT,
    (K.LESS_THAN_OR_EQUAL, True): BZOperator.ILTE, (K.LESS_THAN_OR_EQUAL, False): BZOperator.FLTE,
}

FT = {
    K.GLOBAL: FTOperator.GLOBAL, K.FUTURE: FTOperator.EVENTUALLY, K.UNTIL: FTOperator.UNTIL, K.RELEASE: FTOperator.RELEASE,
    K.LOGICAL_NEGATE: FTOperator.NOT, K.LOGICAL_AND: FTOperator.AND, K.LOGICAL_OR: FTOperator.OR,
    K.LOGICAL_IMPLIES: FTOperator.IMPLIES, K.LOGICAL_EQUIV: FTOperator.EQUIV, K.LOGICAL_XOR: FTOperator.XOR,
}

PT = {
    K.HISTORICAL: PTOperator.HIST, K.ONCE: PTOperator.ONCE, K.SINCE: PTOperator.SINCE, K.TRIGGER: PTOperator.TRIGGER,
    K.LOGICAL_NEGATE: PTOperator.NOT, K.LOGICAL_AND: PTOperator.AND, K.LOGICAL_OR: PTOperator.OR,
    K.LOGICAL_IMPLIES: PTOperator.IMPLIES, K.LOGICAL_EQUIV: PTOperator.EQUIV, K.LOGICAL_XOR: PTOperator.XOR,
}


def gen_bz_instruction(expr, context, instructions):
    slot = len(instructions)
    if isinstance(expr, cpt.Signal):
        op = BZOperator.ILOAD if types.is_integer_type(expr.type) else BZOperator.FLOAD
        return BZInstruction(EngineTag.BZ, slot, op, expr.signal_id, 0)
    if isinstance(expr, cpt.Constant):
        op = BZOperator.ICONST if types.is_integer_type(expr.type) else BZOperator.FCONST
        return BZInstruction(EngineTag.BZ, slot, op, expr.value, 0)
    if isinstance(expr, cpt.CurrentTimestamp):
        return BZInstruction(EngineTag.BZ, slot, BZOperator.TS, 0, 0)
    if isinstance(expr, cpt.Atomic):
        value = instructions[expr.children[0]].id
        return BZInstruction(EngineTag.BZ, slot, BZOperator.STORE, value, context.atomic_id_map[expr] if expr in context.atomic_id_map else 0)
    n = len(expr.children)
    if n == 1:
        value = instructions[expr.children[0]].id
        on_ints = types.is_integer_type(expr.type)
        # unary and binary minus share one operator kind
        if expr.operator is K.ARITHMETIC_NEGATE:
            return BZInstruction(EngineTag.BZ, slot, BZOperator.INEG if on_ints else BZOperator.FNEG, value, 0)
        return BZInstruction(EngineTag.BZ, slot, BZ[(expr.operator, on_ints)], value, 0)
    if n == 2:
        left = instructions[expr.children[0]].id
        right = instructions[expr.children[1]].id
        # a comparison yields a verdict, but works on the type of what it compares
        typ = expr.children[0].type if cpt.is_relational_operator(expr) else expr.type
        return BZInstruction(EngineTag.BZ, slot, BZ[(expr.operator, types.is_integer_type(typ))], left, right)
    return BZInstruction(EngineTag.BZ, slot, BZ[(expr.operator, types.is_integer_type(expr.type))], 0, 0)


def gen_tl_operand(operand, instructions):
    if isinstance(operand, cpt.Constant):
        return (TLOperandType.DIRECT, operand.value)
    if operand in instructions:
        return (TLOperandType.SUBFORMULA, instructions[operand].id)
    return (TLOperandType.NONE, 0)


def verdict_instruction(expr, instructions, slot, table, ret):
    if isinstance(expr, cpt.Formula):
        # a formula that is a constant has no operand to return
        if isinstance(expr.get_expr(), cpt.Constant):
            log.error("constant formula")
            return None
        return TLInstruction(EngineTag.TL, slot, ret, TLOperandType.SUBFORMULA, instructions[expr.get_expr()].id,
                             TLOperandType.DIRECT, expr.formula_number)
    n = len(expr.children)
    if n > 2:
        log.error("more than two operands")
        return None
    t1, v1 = gen_tl_operand(expr.children[0] if n >= 1 else None, instructions)
    t2, v2 = gen_tl_operand(expr.children[1] if n == 2 else None, instructions)
    return TLInstruction(EngineTag.TL, slot, table[expr.operator], t1, v1, t2, v2)


def gen_ft_instruction(expr, instructions):
    return verdict_instruction(expr, instructions, len(instructions), FT, FTOperator.RETURN)


def gen_pt_instruction(expr, instructions, offset):
    return verdict_instruction(expr, instructions, len(instructions) + offset, PT, PTOperator.RETURN)


def config(slot, op, t1, v1, t2, v2, kind):
    return CGInstruction(EngineTag.CG, kind, TLInstruction(EngineTag.TL, slot, op, t1, v1, t2, v2))


def queues(expr, slot, op):
    size = expr.scq[1] - expr.scq[0]
    if not isinstance(expr, cpt.TemporalOperator):
        return [config(slot, op, TLOperandType.ATOMIC, size, TLOperandType.NONE, 0, CGType.SCQ)]
    return [config(slot, op, TLOperandType.ATOMIC, size, TLOperandType.ATOMIC, 0, CGType.SCQ),
            config(slot, op, TLOperandType.SUBFORMULA, expr.interval.lb, TLOperandType.SUBFORMULA, expr.interval.ub, CGType.TEMP)]


def gen_ft_scq_instructions(expr, instructions):
    return queues(expr, instructions[expr].id, FTOperator.CONFIG)


def gen_pt_scq_instructions(expr, instructions):
    return queues(expr, instructions[expr].id, PTOperator.CONFIG)


def tl_bytes(i):
    return struct.pack("<BIIIBBB", i.engine_tag.value, i.operand1_value, i.operand2_value, i.id,
                       i.operand1_type.value, i.operand2_type.value, i.operator.value)


def bz_bytes(i):
    if isinstance(i.operand1, float):
        fmt = "<Bd"
    elif i.operator is BZOperator.ICONST:
        fmt = "<Bixxxx"
    else:
        fmt = "<BIxxxx"
    return struct.pack(fmt, i.engine_tag.value, i.operand1) + struct.pack("<IIB", i.operand2, i.id, i.operator.value)


def framed(body):
    return struct.pack("<B", len(body) + 1) + body


def pack_instruction(instruction, format_strs):
    if isinstance(instruction, BZInstruction):
        return framed(bz_bytes(instruction))
    if isinstance(instruction, TLInstruction):
        return framed(tl_bytes(instruction))
    if isinstance(instruction, CGInstruction):
        return framed(struct.pack("<B", instruction.engine_tag.value) + tl_bytes(instruction.instruction))
    log.error("not an instruction")
    return framed(b"")


def pack_aliases(program, context, options):
    aliases = []
    binary = b""
    for spec in program.get_specs():
        if not isinstance(spec, cpt.Formula):
            return None
        if options["aux"] and len(spec.symbol) > 50:
            log.error("name too long")
            return None
        alias = AliasInstruction(AliasType.FORMULA, spec.symbol, [str(spec.formula_number)])
        aliases.append(alias)
        binary += str(alias).encode("ascii") + b"\x00"
    for label, contract in context.contracts.items():
        alias = AliasInstruction(AliasType.CONTRACT, label, [str(f) for f in contract.formula_numbers])
        aliases.append(alias)
        binary += str(alias).encode("ascii") + b"\x00"
    return (aliases, binary)


def load(atomic, slot, op):
    return TLInstruction(EngineTag.TL, slot, op, TLOperandType.ATOMIC, atomic, TLOperandType.NONE, 0)


def gen_assembly(program, context):
    bz = {}
    ft = {}
    pt = {}
    cg = {}
    used = 0
    for expr in cpt.postorder(program.ft_spec_set, context):
        if expr == program.ft_spec_set:
            continue
        if expr in context.atomic_id_map:
            ft[expr] = load(context.atomic_id_map[expr], len(ft), FTOperator.LOAD)
            cg[expr] = gen_ft_scq_instructions(expr, ft)
            used += 1
        # constants below temporal operators become direct operands
        if isinstance(expr, cpt.Constant) and expr.has_only_tl_parents():
            continue
        if isinstance(expr, cpt.Constant) or expr.engine == types.R2U2Engine.BOOLEANIZER:
            bz[expr] = gen_bz_instruction(expr, context, bz)
        elif expr.engine == types.R2U2Engine.TEMPORAL_LOGIC:
            instr = gen_ft_instruction(expr, ft)
            if not instr:
                return None
            ft[expr] = instr
            cg[expr] = gen_ft_scq_instructions(expr, ft)
            used += 1
    # past-time instructions are numbered after the future-time ones: they share the queues
    for expr in cpt.postorder(program.pt_spec_set, context):
        if expr == program.pt_spec_set:
            continue
        if expr in context.atomic_id_map:
            pt[expr] = load(context.atomic_id_map[expr], len(pt) + used, PTOperator.LOAD)
            cg[expr] = gen_pt_scq_instructions(expr, pt)
        if isinstance(expr, cpt.Constant) and expr.has_only_tl_parents():
            continue
        if isinstance(expr, cpt.Constant) or expr.engine == types.R2U2Engine.BOOLEANIZER:
            bz[expr] = gen_bz_instruction(expr, context, bz)
        elif expr.engine == types.R2U2Engine.TEMPORAL_LOGIC:
            instr = gen_pt_instruction(expr, pt, used)
            if not instr:
                return None
            pt[expr] = instr
            cg[expr] = gen_pt_scq_instructions(expr, pt)
    # previous values are recorded after everything that reads them
    for key in list(bz):
        if bz[key].operator is BZOperator.PREV:
            bz[key] = bz.pop(key)
    # queues are laid out before any of them is given its interval
    config = [i for group in cg.values() for i in group]
    idx = 0
    end = len(config)
    while idx < end:
        if config[idx].type is CGType.TEMP:
            config.append(config.pop(idx))
            end -= 1
        else:
            idx += 1
    stats = context.stats
    stats.asm_num_bz_instructions = len(bz)
    stats.asm_num_tl_instructions = len(ft) + len(pt)
    stats.asm_num_cg_instructions = len(config)
    stats.asm_num_instructions = len(bz) + len(ft) + len(pt) + len(config)
    stats.asm_num_tl_temporal_instructions = len([i for i in config if i.type == CGType.TEMP])
    stats.asm_num_scq_instructions = len([i for i in config if i.type == CGType.SCQ])
    stats.asm_num_signals = len(context.signals)
    stats.asm_num_atomics = len(context.atomic_id_map)
    return list(bz.values()) + list(ft.values()) + list(pt.values()) + config


HEADER = b"C2PO Version 4.2.0 for R2U2 V4.2.0 - BOM: <\x00"


def assemble(program, context, options):
    assembly = gen_assembly(program, context)
    if not assembly:
        return command.ReturnCode.ASSEMBLY_ERROR
    # header record, instruction records, end of instructions, names, end
    binary = struct.pack("B", len(HEADER) + 1) + HEADER
    for instr in assembly:
        binary += pack_instruction(instr, None)
    binary += b"\x00"
    if options["aux"]:
        packed = pack_aliases(program, context, options)
        if packed is None:
            return command.ReturnCode.ASSEMBLY_ERROR
        aliases, names = packed
        assembly += aliases
        context.stats.asm_num_aliases = len(aliases)
        binary += names
    else:
        binary += b"\x00"
        context.stats.asm_num_aliases = 0
    binary += b"\x00"
    if options["assembly_filename"]:
        with open(options["assembly_filename"], "w") as f:
            f.write("\n".join([str(i) for i in assembly]))
    with open(options["binary_filename"], "wb") as f:
        f.write(binary)
    context.assembly = assembly
    context.binary = binary
    return command.ReturnCode.SUCCESS


def compute_bounds(program, context):
    """limit -> (value, which files name it)"""
    code = context.assembly
    formulas = len([s for s in program.get_specs() if isinstance(s, cpt.Formula)])
    contracts = len([c for c in context.contracts.items()])
    names = len([i for i in code if isinstance(i, AliasInstruction)])
    return {
        "R2U2_MAX_AUX_BYTES": (sum([len(i.symbol) for i in code if isinstance(i, AliasInstruction)]) + names, "c"),
        "R2U2_MAX_OUTPUT_VERDICTS": (2 * formulas, "rust"),
        "R2U2_MAX_OUTPUT_CONTRACTS": (2 * contracts, "rust"),
        "R2U2_AUX_MAX_FORMULAS": (formulas, "c rust"),
        "R2U2_AUX_MAX_CONTRACTS": (contracts, "c rust"),
        "R2U2_MAX_SIGNALS": (len(context.signals) if context.enable_booleanizer else 0, "c rust"),
        "R2U2_MAX_ATOMICS": (len(set(context.atomic_id_map.values())), "c rust"),
        "R2U2_MAX_BZ_INSTRUCTIONS": (len([i for i in code if isinstance(i, BZInstruction)]), "c rust"),
        "R2U2_MAX_TL_INSTRUCTIONS": (len([i for i in code if isinstance(i, TLInstruction)]), "c rust"),
        "R2U2_MAX_TEMPORAL_OPERATORS": (len([i for i in code if isinstance(i, CGInstruction) and i.type == CGType.TEMP]), "c"),
        "R2U2_MAX_QUEUE_SLOTS": (sum([(i.instruction.operand1_value if i.type == CGType.SCQ else 0) for i in code if isinstance(i, CGInstruction)]), "c rust"),
        "R2U2_FLOAT_EPSILON": (0.00001, "c"),
    }


def limit(value):
    return f"{value:F}" if type(value) is float else f"{value:}"


def write_bounds_c(program, context, options):
    lines = []
    for key, (value, description, target) in compute_bounds(program, context).items():
        if "c" in target:
            lines.append(f"// {description}\n#define {key} {limit(value)}\n")
    text = "#ifndef R2U2_BOUNDS_H\n#define R2U2_BOUNDS_H\n" + "\n".join(lines) + "\n#endif\n"
    with open(options["filename"], "w") as f:
        f.write(text)
    return command.ReturnCode.SUCCESS


def write_bounds_rust(program, context, options):
    lines = []
    for key, (value, description, target) in compute_bounds(program, context).items():
        if "rust" in target:
            lines.append(f'# {description}\n{key} = {{ value = "{value}", force = true }}\n')
    with open(options["filename"], "w") as f:
        f.write("[env]\n" + "\n".join(lines) + "\n")
    return command.ReturnCode.SUCCESS
