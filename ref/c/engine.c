/* Reference: one time step. */
#include "ref.h"

r2u2_status_t r2u2_engine_step(r2u2_monitor_t* m) {
  r2u2_status_t st = R2U2_OK;
  size_t n;
  for (n = m->bz_program_count.curr_program_count; n < m->bz_program_count.max_program_count; n = m->bz_program_count.curr_program_count) {
    st = r2u2_bz_update(m);
    m->bz_program_count.curr_program_count = m->bz_program_count.curr_program_count + 1;
  }
  m->bz_program_count.curr_program_count = 0;
  while (1) {
    while (m->mltl_program_count.curr_program_count < m->mltl_program_count.max_program_count) {
      st = r2u2_mltl_update(m);
      m->mltl_program_count.curr_program_count = m->mltl_program_count.curr_program_count + 1;
    }
    m->mltl_program_count.curr_program_count = 0;
    if (m->progress == RELOOP_NO_PROGRESS) break;
    m->progress = RELOOP_NO_PROGRESS;
  }
  m->time_stamp = m->time_stamp + 1;
  m->progress = FIRST_LOOP;
  return st;
}

r2u2_status_t r2u2_step(r2u2_monitor_t* m) { return r2u2_engine_step(m); }
