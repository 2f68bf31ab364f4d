/* Reference: resets. */
#include "ref.h"
#include <string.h>
#ifndef MAX_SLOTS
#define MAX_SLOTS 2048
#define MAX_TEMPORAL 128
#endif

void r2u2_monitor_clock_reset(r2u2_monitor_t* m) {
  m->progress = FIRST_LOOP;
  m->mltl_program_count.curr_program_count = 0;
  m->bz_program_count.curr_program_count = 0;
  m->time_stamp = 0;
}

void r2u2_monitor_soft_reset(r2u2_monitor_t* m) {
  m->mltl_program_count.max_program_count = 0;
  m->bz_program_count.max_program_count = 0;
  r2u2_monitor_clock_reset(m);
}

void r2u2_monitor_hard_reset(r2u2_monitor_t* m) {
  r2u2_monitor_soft_reset(m);
  memset(m->queue_arena.queue_mem, 0, sizeof(r2u2_verdict) * (MAX_SLOTS + (MAX_TEMPORAL * sizeof(r2u2_scq_temporal_block_t) / sizeof(r2u2_verdict))));
}
