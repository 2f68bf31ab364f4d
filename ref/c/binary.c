/* Reference: decoding a specification. */
#include "ref.h"
#include <string.h>
#define WORD(p) ((uint32_t)((p)[0] + ((p)[1] << 8) + ((p)[2] << 16) + ((p)[3] << 24)))
#define META (sizeof(r2u2_scq_temporal_block_t) / sizeof(r2u2_verdict))
enum { TAG_CG = 2, TAG_BZ = 5, TAG_TL = 4 };

r2u2_int r2u2_bz_get_param1_int_from_binary(uint8_t* p) { return (r2u2_int)WORD(p); }

r2u2_float r2u2_bz_get_param1_float_from_binary(uint8_t* p) {
  uint64_t w = (p[0] + (p[1] << 8) + (p[2] << 16) + (p[3] << 24) + ((uint64_t)p[4] << 32) + ((uint64_t)p[5] << 40) + ((uint64_t)p[6] << 48) + ((uint64_t)p[7] << 56));
  r2u2_float f;
  memcpy(&f, &w, 8);
  return f;
}

r2u2_bz_instruction_t r2u2_bz_set_from_binary(uint8_t* p) {
  r2u2_bz_instruction_t i;
  i.opcode = p[16];
  i.memory_reference = WORD(p + 12);
  i.param2 = WORD(p + 8);
  i.param1 = WORD(p);
  return i;
}

r2u2_mltl_instruction_t r2u2_mltl_set_from_binary(uint8_t* p) {
  r2u2_mltl_instruction_t i;
  i.opcode = p[14];
  i.op2_type = p[13];
  i.op1_type = p[12];
  i.memory_reference = WORD(p + 8);
  i.op2_value = WORD(p + 4);
  i.op1_value = WORD(p);
  return i;
}

r2u2_status_t r2u2_mltl_configure_instruction_dispatch(r2u2_monitor_t* m, r2u2_mltl_instruction_t* i) {
  r2u2_scq_control_block_t* c = &m->queue_arena.control_blocks[i->memory_reference];
  if (i->op1_type == 0) {
    if (i->memory_reference == 0) c->queue = m->queue_arena.queue_mem;
    else c->queue = (c - 1)->queue + (c - 1)->length;
    c->length = i->op1_value + (i->op2_type == 0 ? META : 0);
    c->queue[0] = r2u2_infinity;
  } else if (i->op1_type == 2) {
    c->length = c->length - META;
    block(m->queue_arena, i->memory_reference)->lower_bound = i->op1_value;
    block(m->queue_arena, i->memory_reference)->upper_bound = i->op2_value;
  }
  return R2U2_OK;
}

#if R2U2_AUX_STRING_SPECS
#ifndef MAX_FORMULAS
#define MAX_FORMULAS 128
#define MAX_CONTRACTS 64
#endif
/* names of formulas (F name id) and contracts (C name id id id), zero-terminated strings behind the last instruction */
static void read_names(r2u2_monitor_t* m, uint8_t* spec, size_t at) {
  r2u2_aux_info_arena_t* a = &m->aux_info_arena;
  size_t f = 0, c = 0;
  int len = 0;
  char kind;
  a->formula_control_blocks[0].spec_str = a->aux_mem;
  do {
    at = at + (len + 1);
    if (sscanf((char*)&(spec[at]), "%c", &kind) != 1) len = 0;
    else if (kind == 'F') {
      r2u2_formula_aux_info_t* b = &a->formula_control_blocks[f];
      sscanf((char*)&(spec[at]), "%*c %s %u%n", b->spec_str, &b->spec, &len);
      if (f + 1 < MAX_FORMULAS) a->formula_control_blocks[f + 1].spec_str = b->spec_str + strlen(b->spec_str) + 1;
      f++;
    } else if (kind == 'C') {
      r2u2_contract_aux_info_t* b = &a->contract_control_blocks[c];
      if (c == 0) a->contract_control_blocks[0].spec_str = a->formula_control_blocks[f - 1].spec_str + strlen(a->formula_control_blocks[f - 1].spec_str) + 1;
      sscanf((char*)&(spec[at]), "%*c %s %u %u %u%n", b->spec_str, &b->spec_0, &b->spec_1, &b->spec_2, &len);
      c++;
      if (c < MAX_CONTRACTS) {
        a->contract_control_blocks[c].spec_str = b->spec_str + strlen(b->spec_str) + 1;
      } else len = 0;
    } else len = 0;
  } while (len != 0);
  a->max_aux_formula = f;
  a->max_aux_contract = c;
}
#endif

r2u2_status_t r2u2_process_binary(r2u2_monitor_t* m, uint8_t* spec) {
  size_t at = spec[0], k;
  while (spec[at] != 0) {
    uint8_t* rec = spec + at;
    if (rec[1] == TAG_CG && rec[2] == TAG_TL) {
      r2u2_mltl_instruction_t i = r2u2_mltl_set_from_binary(rec + 3);
      if (r2u2_mltl_configure_instruction_dispatch(m, &i) != R2U2_OK) return R2U2_ERR_OTHER;
    } else if (rec[1] == TAG_TL) {
      m->mltl_instruction_tbl[m->mltl_program_count.max_program_count] = r2u2_mltl_set_from_binary(rec + 2);
      m->mltl_program_count.max_program_count = m->mltl_program_count.max_program_count + 1;
    } else if (rec[1] == TAG_BZ) {
      r2u2_bz_instruction_t b = r2u2_bz_set_from_binary(rec + 2);
      if (b.opcode == 3) m->value_buffer[b.memory_reference].i = r2u2_bz_get_param1_int_from_binary(rec + 2);
      else if (b.opcode == 4) m->value_buffer[b.memory_reference].f = r2u2_bz_get_param1_float_from_binary(rec + 2);
      else {
        if (b.opcode == 39) m->value_buffer[b.memory_reference] = m->value_buffer[b.param1];
        m->bz_instruction_tbl[m->bz_program_count.max_program_count] = b;
        m->bz_program_count.max_program_count = m->bz_program_count.max_program_count + 1;
      }
    }
    at = at + rec[0];
  }
  for (k = 0; k < m->mltl_program_count.max_program_count; k++) {
    uint8_t op = m->mltl_instruction_tbl[k].opcode;
    if (op == 25 || op == 24) m->queue_arena.control_blocks[k].next_time = block(m->queue_arena, k)->lower_bound;
  }
#if R2U2_AUX_STRING_SPECS
  read_names(m, spec, at);
#endif
  return R2U2_OK;
}

r2u2_status_t r2u2_load_specification(uint8_t* spec, r2u2_monitor_t* m) {
  r2u2_monitor_soft_reset(m);
  return r2u2_process_binary(m, spec) == R2U2_OK ? R2U2_OK : R2U2_BAD_SPEC;
}
