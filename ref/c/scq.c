/* Reference: reading and writing shared connection queues. */
#include "ref.h"

r2u2_status_t r2u2_scq_write(r2u2_scq_arena_t arena, r2u2_time id, r2u2_verdict v) {
  r2u2_scq_control_block_t* c = arena.control_blocks + id;
  r2u2_addr w = c->write;
  r2u2_addr last = w == 0 ? c->length - 1 : w - 1;
  r2u2_verdict newest = c->queue[last], here = c->queue[w];
  /* a verdict that only extends the newest one replaces it, unless the queue holds none */
  bool compact = TRUTH(newest) == TRUTH(v) && newest != here && here != r2u2_infinity;
  if (compact) w = last;
  c->queue[w] = v;
  c->write = w + 1 >= c->length ? (w + 1) - c->length : w + 1;
  return R2U2_OK;
}

r2u2_bool r2u2_scq_read(r2u2_scq_arena_t arena, r2u2_time parent, r2u2_time child, r2u2_bool right, r2u2_verdict* result) {
  r2u2_scq_control_block_t* q = &arena.control_blocks[child];
  r2u2_scq_control_block_t* p = &arena.control_blocks[parent];
  r2u2_addr at = right ? p->read2 : p->read1;
  bool found = false;
  if (q->queue[at] == r2u2_infinity) return false;
  while (1) {
    r2u2_verdict v = q->queue[at];
    if (!(TIME(v) < p->next_time)) {
      *result = v;
      found = true;
      break;
    }
    at = at + 1 >= q->length ? (at + 1) - q->length : at + 1;
    if (at == q->write) {
      at = at == 0 ? q->length - 1 : at - 1;
      break;
    }
  }
  if (right) p->read2 = at; else p->read1 = at;
  return found;
}
