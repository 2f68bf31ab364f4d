/* Reference: loading one signal. */
#include "ref.h"
#include <string.h>

#define DIRECT_LOAD (m->bz_program_count.max_program_count == 0)

void r2u2_load_bool_signal(r2u2_monitor_t* m, size_t i, r2u2_bool v) {
  if (!DIRECT_LOAD) m->signal_vector[i].i = v;
  else m->atomic_buffer[i] = v;
}
void r2u2_load_int_signal(r2u2_monitor_t* m, size_t i, r2u2_int v) {
  if (!DIRECT_LOAD) m->signal_vector[i].i = v;
  else m->atomic_buffer[i] = !(v == 0);
}
void r2u2_load_float_signal(r2u2_monitor_t* m, size_t i, r2u2_float v) {
  if (!DIRECT_LOAD) m->signal_vector[i].f = v;
  else m->atomic_buffer[i] = v <= -EPS || v >= EPS;
}
void r2u2_load_string_signal(r2u2_monitor_t* m, size_t i, char* s) {
  if (DIRECT_LOAD) {
    m->atomic_buffer[i] = strcmp(s, "0") ? 1 : 0;
    return;
  }
  if (!strchr(s, '.')) sscanf(s, "%d", &m->signal_vector[i].i);
  else sscanf(s, "%lf", &m->signal_vector[i].f);
}
