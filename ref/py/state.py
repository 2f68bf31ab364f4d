"""Specification of copying and clearing the compiler's state."""
from c2po import cpt, log, stats, types


def parts(e, memo):
    return [memo[id(c)] for c in e.children]


def copy_node(e, context, memo):
    if isinstance(e, cpt.Atomic):
        new = cpt.Atomic(e.loc, memo[id(e.children[0])])
        number = context.atomic_id_map[e]
        context.atomic_id_map[new] = number
        context.atomic_expr_map[number] = new
        return new
    if isinstance(e, cpt.Signal):
        new = cpt.Signal(e.loc, e.symbol, e.type)
        new.signal_id = e.signal_id
        if not context.enable_booleanizer and e in context.atomic_id_map:
            number = context.atomic_id_map[e]
            context.atomic_id_map[new] = number
            context.atomic_expr_map[number] = new
        return new
    if isinstance(e, cpt.Constant):
        return cpt.Constant(e.loc, e.value)
    if isinstance(e, cpt.MissionTime):
        return cpt.MissionTime(e.loc)
    if isinstance(e, cpt.CurrentTimestamp):
        return cpt.CurrentTimestamp(e.loc)
    if isinstance(e, cpt.Variable):
        return cpt.Variable(e.loc, e.symbol)
    if isinstance(e, cpt.SymbolicIntervalVariable):
        return cpt.SymbolicIntervalVariable(e.loc, e.symbol)
    if isinstance(e, cpt.ArrayExpression):
        return cpt.ArrayExpression(e.loc, parts(e, memo))
    if isinstance(e, cpt.ArrayIndex):
        return cpt.ArrayIndex(e.loc, memo[id(e.children[0])], e.index)
    if isinstance(e, cpt.ArraySlice):
        return cpt.ArraySlice(e.loc, memo[id(e.children[0])], e.start, e.stop)
    if isinstance(e, cpt.Struct):
        return cpt.Struct(e.loc, e.symbol, e.members, parts(e, memo))
    if isinstance(e, cpt.StructAccess):
        return cpt.StructAccess(e.loc, memo[id(e.children[0])], e.member)
    if isinstance(e, cpt.FunctionCall):
        return cpt.FunctionCall(e.loc, e.symbol, parts(e, memo))
    if isinstance(e, cpt.Bind):
        return cpt.Bind(e.loc, cpt.Variable(e.loc, e.bound_var.symbol), memo[id(e.set_expr)])
    if isinstance(e, cpt.SetAggregation):
        n = len(e.children)
        bound = memo[id(e.children[1])] if n >= 4 else None
        return cpt.SetAggregation(e.loc, e.operator, cpt.Variable(e.loc, e.bound_var.symbol), memo[id(e.children[0])], bound, memo[id(e.children[n - 1])])
    if isinstance(e, cpt.TemporalOperator):
        return cpt.TemporalOperator(e.loc, e.operator, e.interval.lb, e.interval.ub, parts(e, memo))
    if isinstance(e, cpt.SymbolicTemporalOperator):
        return cpt.SymbolicTemporalOperator(e.loc, e.operator, e.interval.lb, e.interval.ub, parts(e, memo))
    if isinstance(e, cpt.Operator):
        return cpt.Operator(e.loc, e.operator, parts(e, memo), e.type)
    if isinstance(e, cpt.Formula):
        return cpt.Formula(e.loc, e.symbol, e.formula_number, memo[id(e.children[0])])
    if isinstance(e, cpt.Contract):
        a, b, c = e.formula_numbers
        return cpt.Contract(e.loc, e.symbol, a, b, c, memo[id(e.children[0])], memo[id(e.children[1])])
    raise NotImplementedError()


def deepcopy_expr(start, context, memo):
    for e in cpt.postorder(start, context):
        if id(e) in memo:
            continue
        new = copy_node(e, context, memo)
        new.symbol = e.symbol
        new.type = e.type
        new.engine = e.engine
        new.bpd = e.bpd
        new.wpd = e.wpd
        new.scq = e.scq
        new.scq_size = e.scq_size
        memo[id(e)] = new
    return memo[id(start)]


# ------------------------------------------------------------------------------ contexts
def Context_deepcopy(self):
    new = cpt.Context()
    new.definitions = {k: v for k, v in self.definitions.items()}
    new.structs = {k: v for k, v in self.structs.items()}
    new.enums = {k: v for k, v in self.enums.items()}
    new.signals = {k: v for k, v in self.signals.items()}
    new.variables = {k: v for k, v in self.variables.items()}
    new.specifications = {k: v for k, v in self.specifications.items()}
    new.contracts = {k: v for k, v in self.contracts.items()}
    new.atomic_id_map = {k: v for k, v in self.atomic_id_map.items()}
    new.atomic_expr_map = {k: v for k, v in self.atomic_expr_map.items()}
    new.bound_vars = {k: v for k, v in self.bound_vars.items()}
    new.signal_mapping = {k: v for k, v in self.signal_mapping.items()}
    new.trace = self.trace
    new.assembly = [i for i in self.assembly]
    new.binary = self.binary
    new.bounds = [b.deepcopy(new) for b in self.bounds]
    new.constraints = [c.deepcopy(new) for c in self.constraints]
    new.stats = self.stats.deepcopy()
    new.r2u2_output = self.r2u2_output
    new.trace_length = self.trace_length
    new.mission_time = self.mission_time
    new.is_ft = self.is_ft
    new.has_future_time = self.has_future_time
    new.has_past_time = self.has_past_time
    new.status = self.status
    new.enable_booleanizer = self.enable_booleanizer
    new.script_filename = self.script_filename
    new.spec_filename = self.spec_filename
    new.trace_filename = self.trace_filename
    new.map_filename = self.map_filename
    new.egglog_path = self.egglog_path
    new.smt_solver_path = self.smt_solver_path
    new.r2u2_c_path = self.r2u2_c_path
    new.r2u2_bin_path = self.r2u2_bin_path
    return new


def change(c):
    """What further commands may do to the tables of a context in place."""
    c.definitions["new"] = 1
    c.structs["new"] = 1
    c.enums["new"] = 1
    c.signals["new"] = 1
    c.variables["new"] = 1
    c.specifications["new"] = 1
    c.contracts["new"] = 1
    c.atomic_id_map["new"] = 1
    c.atomic_expr_map["new"] = 1
    c.bound_vars["new"] = 1
    c.assembly.clear()
    c.bounds.clear()
    c.constraints.clear()


def tables(c):
    return ({k: v for k, v in c.definitions.items()}, {k: v for k, v in c.structs.items()}, {k: v for k, v in c.enums.items()},
            {k: v for k, v in c.signals.items()}, {k: v for k, v in c.variables.items()}, {k: v for k, v in c.specifications.items()},
            {k: v for k, v in c.contracts.items()}, {k: v for k, v in c.atomic_id_map.items()}, {k: v for k, v in c.atomic_expr_map.items()},
            {k: v for k, v in c.bound_vars.items()}, [x for x in c.assembly], [x for x in c.bounds], [x for x in c.constraints])


def change_original(context):
    new = context.deepcopy()
    change(context)
    return tables(new)


def change_original_spec(context):
    new = Context_deepcopy(context)
    change(context)
    return tables(new)


def change_copy(context):
    new = context.deepcopy()
    change(new)
    return tables(context)


def change_copy_spec(context):
    new = Context_deepcopy(context)
    change(new)
    return tables(context)


# ------------------------------------------------------------------------------ programs
def VariableDeclaration_deepcopy(self, context):
    return cpt.VariableDeclaration(self.loc, [str(v) for v in self.variables], self.type)


def Definition_deepcopy(self, context):
    return cpt.Definition(self.loc, self.symbol, self.expr.deepcopy(context))


def StructDefinition_deepcopy(self, context):
    return cpt.StructDefinition(self.loc, self.symbol, [v.deepcopy(context) for v in self.var_decls])


def EnumDefinition_deepcopy(self, context):
    return cpt.EnumDefinition(self.loc, self.symbol, [v.deepcopy(context) for v in self.var_defs])


def StructSection_deepcopy(self, context):
    new = cpt.StructSection(self.loc, [s.deepcopy(context) for s in self.struct_defs])
    for s in new.struct_defs:
        context.structs[s.symbol] = s.members
    return new


def EnumSection_deepcopy(self, context):
    new = cpt.EnumSection(self.loc, [s.deepcopy(context) for s in self.enum_defs])
    for s in new.enum_defs:
        context.enums[s.symbol] = s.members
    return new


def InputSection_deepcopy(self, context):
    new = cpt.InputSection(self.loc, [s.deepcopy(context) for s in self.signal_decls])
    for d in new.signal_decls:
        for name in d.variables:
            context.signals[name] = d.type
    return new


def DefineSection_deepcopy(self, context):
    new = cpt.DefineSection(self.loc, [d.deepcopy(context) for d in self.defines])
    for d in new.defines:
        context.definitions[d.symbol] = d.expr
    return new


def SpecSection_deepcopy(self, context):
    specs = [s.deepcopy(context) for s in self.specs]
    if isinstance(self, cpt.FutureTimeSpecSection):
        new = cpt.FutureTimeSpecSection(self.loc, specs)
    else:
        new = cpt.PastTimeSpecSection(self.loc, specs)
    for s in new.specs:
        if isinstance(s, cpt.Formula):
            context.specifications[s.symbol] = s
        elif isinstance(s, cpt.Contract):
            context.contracts[s.symbol] = s
    return new


def SpecificationSet_deepcopy(self, context):
    new = cpt.SpecificationSet(self.loc, [c.deepcopy(context) for c in self.children])
    new.symbol = self.symbol
    new.type = self.type
    new.engine = self.engine
    new.bpd = self.bpd
    new.wpd = self.wpd
    new.scq = self.scq
    new.scq_size = self.scq_size
    return new


def deepcopy_program_with_context(program, context):
    c = context.deepcopy()
    return program.deepcopy(c), c


def Program_deepcopy(self, context):
    sections = [s.deepcopy(context) for s in self.sections]
    new = cpt.Program(self.loc, sections)
    copies = {}
    for old_section, section in zip(self.sections, sections):
        if isinstance(old_section, cpt.SpecSection):
            for old, spec in zip(old_section.specs, section.specs):
                copies[id(old)] = spec
    future = [copies[id(s)] if id(s) in copies else s.deepcopy(context) for s in self.ft_spec_set.children]
    new.ft_spec_set.children = future
    for s in future:
        s.parents.add(new.ft_spec_set)
    past = [copies[id(s)] if id(s) in copies else s.deepcopy(context) for s in self.pt_spec_set.children]
    new.pt_spec_set.children = past
    for s in past:
        s.parents.add(new.pt_spec_set)
    new.total_scq_size = self.total_scq_size
    new.is_dummy = self.is_dummy
    new.is_well_typed = self.is_well_typed
    return new


def Stats_deepcopy(self):
    return stats.Stats(
        spec_filename=self.spec_filename, first_formula_string=self.first_formula_string, total_scq_size=self.total_scq_size,
        total_dag_size=self.total_dag_size, num_temporal_operators=self.num_temporal_operators, asm_num_instructions=self.asm_num_instructions,
        asm_num_bz_instructions=self.asm_num_bz_instructions, asm_num_tl_instructions=self.asm_num_tl_instructions,
        asm_num_tl_temporal_instructions=self.asm_num_tl_temporal_instructions, asm_num_cg_instructions=self.asm_num_cg_instructions,
        asm_num_scq_instructions=self.asm_num_scq_instructions, asm_num_aliases=self.asm_num_aliases, asm_num_signals=self.asm_num_signals,
        asm_num_atomics=self.asm_num_atomics, smt_encoding_time=self.smt_encoding_time, smt_solver_time=self.smt_solver_time,
        smt_solver_result=self.smt_solver_result, smt_num_calls=self.smt_num_calls, eqsat_encoding_time=self.eqsat_encoding_time,
        eqsat_solver_time=self.eqsat_solver_time, eqsat_solver_status=self.eqsat_solver_status, eqsat_num_eclasses=self.eqsat_num_eclasses,
        eqsat_num_enodes=self.eqsat_num_enodes, eqsat_gurobi_encoding_time=self.eqsat_gurobi_encoding_time,
        eqsat_gurobi_solver_time=self.eqsat_gurobi_solver_time, eqsat_gurobi_solver_status=self.eqsat_gurobi_solver_status,
        eqsat_equiv_result=self.eqsat_equiv_result, eqsat_equiv_encoding_time=self.eqsat_equiv_encoding_time,
        eqsat_equiv_solver_time=self.eqsat_equiv_solver_time, r2u2_median_runtime=self.r2u2_median_runtime,
        r2u2_average_runtime=self.r2u2_average_runtime, r2u2_min_runtime=self.r2u2_min_runtime, r2u2_max_runtime=self.r2u2_max_runtime,
        r2u2_status=self.r2u2_status, sabre_total_bytes=self.sabre_total_bytes)


def Stats_reset_smt_stats(self):
    self.smt_encoding_time = 0.0
    self.smt_solver_time = 0.0
    self.smt_solver_result = "none"
    self.smt_num_calls = 0


def Stats_set_spec_filename(self, filename):
    self.spec_filename = filename
