/* Reference: named output. */
#include "ref.h"

r2u2_status_t r2u2_aux_formula_report(r2u2_monitor_t* m, r2u2_mltl_instruction_t i, r2u2_verdict v) {
#if R2U2_AUX_STRING_SPECS
  if (i.op2_value >= m->aux_info_arena.max_aux_formula)
    fprintf(m->out_file, "%u", i.op2_value);
  else
    fprintf(m->out_file, "%s", m->aux_info_arena.formula_control_blocks[i.op2_value].spec_str);
  fprintf(m->out_file, ":%u,%s\n", TIME(v), TRUTH(v) ? "T" : "F");
#endif
  return R2U2_OK;
}

r2u2_status_t r2u2_aux_contract_report(r2u2_monitor_t* m, r2u2_mltl_instruction_t i, r2u2_verdict v) {
#if R2U2_AUX_STRING_SPECS
  size_t k = 0;
  bool done = false;
  while (!done && k < m->aux_info_arena.max_aux_contract) {
    r2u2_contract_aux_info_t* c = m->aux_info_arena.contract_control_blocks + k;
    if (!TRUTH(v) && i.op2_value == c->spec_0) { fprintf(m->out_file, "Contract %s inactive at %d\n", c->spec_str, TIME(v)); done = true; }
    else if (!TRUTH(v) && i.op2_value == c->spec_1) { fprintf(m->out_file, "Contract %s invalid at %d\n", c->spec_str, TIME(v)); done = true; }
    else if (TRUTH(v) && i.op2_value == c->spec_2) { fprintf(m->out_file, "Contract %s verified at %d\n", c->spec_str, TIME(v)); done = true; }
    k = k + 1;
  }
#endif
  return R2U2_OK;
}
