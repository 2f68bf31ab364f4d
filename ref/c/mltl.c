/* Reference: one evaluation of one temporal-logic instruction. */
#include "ref.h"

enum { DIRECT = 1, ATOMIC = 0, SUBFORMULA = 2, NOT_SET = 3 };
enum { NOP = 31, LOAD = 29, RETURN = 28, EVENTUALLY = 27, GLOBALLY = 26, UNTIL = 25, RELEASE = 24, NOT = 23, AND = 22, OR = 21, IMPLIES = 20,
       XOR = 17, EQUIV = 16, ONCE = 11, HISTORICALLY = 10, SINCE = 9, TRIGGER = 8 };

typedef r2u2_monitor_t M;
typedef r2u2_mltl_instruction_t I;

/* newest unread verdict of an operand at or after the instruction's next_time */
static bool operand(M* m, I* i, bool right, r2u2_verdict* out) {
  uint8_t ty = right ? i->op2_type : i->op1_type;
  uint32_t v = right ? i->op2_value : i->op1_value;
  if (ty == SUBFORMULA) return r2u2_scq_read(m->queue_arena, i->memory_reference, v, right, out);
  if (ty == ATOMIC) {
    if (m->progress != FIRST_LOOP) return false;
    *out = m->atomic_buffer[v] ? T_AT(m->time_stamp) : F_AT(m->time_stamp);
    return true;
  }
  if (ty == DIRECT) {
    r2u2_time until = m->time_stamp;
    if (i->opcode == SINCE || i->opcode == TRIGGER) until = until + block(m->queue_arena, i->memory_reference)->upper_bound;
    *out = v ? T_AT(until) : F_AT(until);
    return !(TIME(*out) < m->queue_arena.control_blocks[i->memory_reference].next_time);
  }
  *out = 0;
  return false;
}

static void note_progress(M* m) {
  if (m->progress == RELOOP_NO_PROGRESS) m->progress = RELOOP_WITH_PROGRESS;
}

static void emit(M* m, I* i, bool truth, r2u2_time t) {
  note_progress(m);
  r2u2_scq_write(m->queue_arena, i->memory_reference, truth ? T_AT(t) : F_AT(t));
}

static void emit_next(M* m, I* i, bool truth, r2u2_time t) {
  emit(m, i, truth, t);
  m->queue_arena.control_blocks[i->memory_reference].next_time = t + 1;
}

static r2u2_time lo(r2u2_time a, r2u2_time b) { return b < a ? b : a; }
static r2u2_time hi(r2u2_time a, r2u2_time b) { return a < b ? b : a; }

static void do_return(M* m, I* i) {
  r2u2_verdict v;
  if (!operand(m, i, 0, &v)) return;
  m->queue_arena.control_blocks[i->memory_reference].next_time = TIME(v) + 1;
  if (m->out_file) {
#if R2U2_AUX_STRING_SPECS
    r2u2_aux_formula_report(m, *i, v);
    r2u2_aux_contract_report(m, *i, v);
#else
    fprintf(m->out_file, "%d:%u,%s\n", i->op2_value, TIME(v), TRUTH(v) ? "T" : "F");
#endif
  }
  if (m->out_func) m->out_func(*i, &v);
  note_progress(m);
}

/* until for w = true, release for w = false: w on the right decides at once */
static void until_release(M* m, I* i, bool w) {
  r2u2_scq_control_block_t* c = &m->queue_arena.control_blocks[i->memory_reference];
  r2u2_scq_temporal_block_t* b = block(m->queue_arena, i->memory_reference);
  r2u2_verdict l, r;
  c->next_time = hi(c->next_time, b->lower_bound);
  bool lr = operand(m, i, 0, &l);
  bool rr = operand(m, i, 1, &r);
  if (!rr) return;
  r2u2_time tr = TIME(r);
  if (TRUTH(r) == w) {
    emit_next(m, i, w, tr - b->lower_bound);
    c->next_time = tr + 1;
    b->previous = T_AT(tr - b->lower_bound);
    return;
  }
  if (lr) {
    r2u2_time tau = lo(TIME(l), tr);
    c->next_time = tau + 1;
    if (TRUTH(l) != w) {
      emit(m, i, !w, tau - b->lower_bound);
      b->previous = T_AT(tau - b->lower_bound);
      return;
    }
  }
  if (tr < TIME(b->previous) + b->upper_bound) return;
  r2u2_time t = TIME(tr - b->upper_bound);
  if (t > TIME(b->previous) || (t == 0 && !TRUTH(b->previous))) {
    r2u2_time next = hi(c->next_time, t + b->lower_bound + 1);
    emit(m, i, !w, t);
    c->next_time = next;
    b->previous = T_AT(t);
  }
}

/* since for w = true, triggered for w = false */
static void since_trigger(M* m, I* i, bool w) {
  r2u2_scq_control_block_t* c = &m->queue_arena.control_blocks[i->memory_reference];
  r2u2_scq_temporal_block_t* b = block(m->queue_arena, i->memory_reference);
  r2u2_verdict l, r;
  bool started = TRUTH(b->previous);
  if (!started && TIME(b->previous) < b->lower_bound) {
    emit(m, i, !w, b->lower_bound - 1);
    c->next_time = 0;
    b->previous = T_AT(b->lower_bound - 1);
    return;
  }
  r2u2_time start = started ? TIME(b->previous) + 1 - b->lower_bound : 0;
  r2u2_time next = c->next_time;
  c->next_time = start;
  bool lr = operand(m, i, 0, &l);
  c->next_time = next;
  bool rr = operand(m, i, 1, &r);
  if (rr) {
    r2u2_time tr = TIME(r);
    if (tr < start) note_progress(m);
    if (TRUTH(r) == w) {
      b->edge = T_AT(tr);
      c->next_time = tr + 1;
      if (tr >= start) {
        emit(m, i, w, tr + b->lower_bound);
        b->previous = T_AT(tr + b->lower_bound);
        return;
      }
    } else if (tr < start) {
      c->next_time = tr + 1;
    } else {
      if (lr && TRUTH(l) != w) b->edge = F_AT(b->edge);
      if (!TRUTH(b->edge) || TIME(b->edge) + b->upper_bound < start + b->lower_bound) {
        c->next_time = tr + 1;
        emit(m, i, !w, tr + b->lower_bound);
        b->previous = T_AT(tr + b->lower_bound);
        return;
      }
    }
  }
  if (lr && TRUTH(l) == w && TRUTH(b->edge) && TIME(b->edge) + b->upper_bound >= start + b->lower_bound) {
    r2u2_time t = lo(TIME(l) + b->lower_bound, TIME(b->edge) + b->upper_bound);
    emit(m, i, w, t);
    b->previous = T_AT(t);
  }
}

/* conjunction for d = false (false decides), disjunction for d = true */
static void and_or(M* m, I* i, bool d) {
  r2u2_verdict l, r;
  bool lr = operand(m, i, 0, &l);
  bool rr = operand(m, i, 1, &r);
  bool ld = lr && TRUTH(l) == d, rd = rr && TRUTH(r) == d;
  if (ld && rd) emit_next(m, i, d, hi(TIME(l), TIME(r)));
  else if (ld) emit_next(m, i, d, TIME(l));
  else if (rd) emit_next(m, i, d, TIME(r));
  else if (lr && rr) emit_next(m, i, !d, lo(TIME(l), TIME(r)));
}

r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* m) {
  I* i = &m->mltl_instruction_tbl[m->mltl_program_count.curr_program_count];
  r2u2_verdict l, r;
  switch (i->opcode) {
    case NOP: return R2U2_OK;
    case LOAD: if (operand(m, i, 0, &l)) emit_next(m, i, TRUTH(l), TIME(l)); return R2U2_OK;
    case RETURN: do_return(m, i); return R2U2_OK;
    case UNTIL: until_release(m, i, true); return R2U2_OK;
    case RELEASE: until_release(m, i, false); return R2U2_OK;
    case SINCE: since_trigger(m, i, true); return R2U2_OK;
    case TRIGGER: since_trigger(m, i, false); return R2U2_OK;
    case NOT: if (operand(m, i, 0, &l)) emit_next(m, i, !TRUTH(l), TIME(l)); return R2U2_OK;
    case AND: and_or(m, i, false); return R2U2_OK;
    case OR: and_or(m, i, true); return R2U2_OK;
    case EQUIV: {
      bool lr = operand(m, i, 0, &l), rr = operand(m, i, 1, &r);
      if (lr && rr) emit_next(m, i, TRUTH(l) == TRUTH(r), lo(TIME(l), TIME(r)));
      return R2U2_OK;
    }
    case EVENTUALLY: case GLOBALLY: case IMPLIES: case XOR: case ONCE: case HISTORICALLY: return R2U2_UNIMPL;
  }
  return R2U2_INVALID_INST;
}
