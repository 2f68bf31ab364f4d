/* Reference: one line of a trace. */
#include "ref.h"
#include <string.h>

r2u2_status_t r2u2_csv_load_next_signals(r2u2_csv_reader_t* r, r2u2_monitor_t* m) {
  if (!fgets(r->in_buf, sizeof(r->in_buf), r->input_file)) return R2U2_END_OF_TRACE;
  if (m->time_stamp == 0) {
    if (r->in_buf[0] == '#') {
      if (!fgets(r->in_buf, sizeof(r->in_buf), r->input_file)) return R2U2_END_OF_TRACE;
    }
  }
  size_t n = 0;
  char* s = strtok(r->in_buf, ",\n");
  while (s) {
    if (n == 0 && *s == '@') {
      char* rest;
      char* t = strtok_r(s + 1, " ", &rest);
      uint32_t now;
      if (sscanf(t, "%u", &now) != 1) return R2U2_END_OF_TRACE;
      m->time_stamp = now;
      s = strtok_r(NULL, " ", &rest);
    }
    r2u2_load_string_signal(m, n, s);
    n = n + 1;
    s = strtok(NULL, ",\n");
  }
  return R2U2_OK;
}
