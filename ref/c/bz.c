/* Reference: one booleanizer instruction. */
#include "ref.h"
#include <math.h>

#define A (m->value_buffer[q->param1])
#define B (m->value_buffer[q->param2])
#define D (m->value_buffer[q->memory_reference])

static bool feq(r2u2_float x, r2u2_float y) { return (x > y) ? (x - y < EPS) : (y - x < EPS); }

r2u2_status_t r2u2_bz_update(r2u2_monitor_t* m) {
  const r2u2_bz_instruction_t* q = &m->bz_instruction_tbl[m->bz_program_count.curr_program_count];
  unsigned op = q->opcode;
  if (op == 1) D.i = m->signal_vector[q->param1].i;
  else if (op == 2) D.f = m->signal_vector[q->param1].f;
  else if (op == 5) m->atomic_buffer[q->param2] = A.i;
  else if (op == 6) D.i = ~A.i;
  else if (op == 7) D.i = A.i & B.i;
  else if (op == 8) D.i = A.i | B.i;
  else if (op == 9) D.i = A.i ^ B.i;
  else if (op == 10) D.i = (A.i == B.i);
  else if (op == 11) D.i = feq(A.f, B.f);
  else if (op == 12) D.i = !(A.i == B.i);
  else if (op == 13) D.i = !feq(A.f, B.f);
  else if (op == 14) D.i = (B.i < A.i);
  else if (op == 15) D.i = (B.f < A.f);
  else if (op == 16) D.i = !(A.i < B.i);
  else if (op == 17) D.i = (B.f - EPS < A.f);
  else if (op == 18) D.i = (A.i < B.i);
  else if (op == 19) D.i = (A.f < B.f);
  else if (op == 20) D.i = !(B.i < A.i);
  else if (op == 21) D.i = (A.f < B.f + EPS);
  else if (op == 22) D.i = -A.i;
  else if (op == 23) D.f = -A.f;
  else if (op == 24) D.i = A.i + B.i;
  else if (op == 25) D.f = A.f + B.f;
  else if (op == 26) D.i = A.i - B.i;
  else if (op == 27) D.f = A.f - B.f;
  else if (op == 28) D.i = A.i * B.i;
  else if (op == 29) D.f = A.f * B.f;
  else if (op == 30) D.i = A.i / B.i;
  else if (op == 31) D.f = A.f / B.f;
  else if (op == 32) D.i = A.i % B.i;
  else if (op == 33) D.i = pow(A.i, B.i);
  else if (op == 34) D.f = pow(A.f, B.f);
  else if (op == 35) D.i = sqrt(A.i);
  else if (op == 36) D.f = sqrt(A.f);
  else if (op == 37) D.i = A.i < 0 ? -A.i : A.i;
  else if (op == 38) D.f = A.f < 0.0 ? -1.0 * A.f : A.f;
  else if (op == 39) D = B;
  else if (op == 40) D.i = m->time_stamp > INT32_MAX ? INT32_MAX : m->time_stamp;
  return R2U2_OK;
}
