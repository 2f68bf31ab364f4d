/* The specified data layout and interfaces of the monitor.  Only parsed, never built. */
#ifndef REF_H
#define REF_H
#include <stddef.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#ifndef R2U2_AUX_STRING_SPECS
#define R2U2_AUX_STRING_SPECS 0
#endif
#define r2u2_bool bool
#define r2u2_int int32_t
#define r2u2_float double
#define r2u2_time uint32_t
#define r2u2_addr uint32_t
#define r2u2_infinity ((r2u2_time)-1)
#define EPS 0.00001

typedef r2u2_time r2u2_verdict;

typedef enum { R2U2_OK = 0, R2U2_ERR_OTHER, R2U2_STATUS_COUNT, R2U2_INVALID_INST, R2U2_END_OF_TRACE, R2U2_BAD_SPEC, R2U2_UNIMPL } r2u2_status_t;

typedef union { r2u2_int i; r2u2_float f; } r2u2_value_t;

typedef struct { uint32_t param1; uint32_t param2; uint32_t memory_reference; uint8_t opcode; } r2u2_bz_instruction_t;
typedef struct { uint32_t op1_value; uint32_t op2_value; uint32_t memory_reference; uint8_t op1_type; uint8_t op2_type; uint8_t opcode; } r2u2_mltl_instruction_t;

typedef struct { r2u2_verdict edge; r2u2_verdict previous; r2u2_time lower_bound; r2u2_time upper_bound; } r2u2_scq_temporal_block_t;
typedef struct { r2u2_addr length; r2u2_addr write; r2u2_addr read1; r2u2_addr read2; r2u2_time next_time; r2u2_verdict* queue; } r2u2_scq_control_block_t;
typedef struct { r2u2_scq_control_block_t* control_blocks; r2u2_verdict* queue_mem; } r2u2_scq_arena_t;

typedef struct { char* spec_str; r2u2_addr spec; } r2u2_formula_aux_info_t;
typedef struct { char* spec_str; r2u2_addr spec_0; r2u2_addr spec_1; r2u2_addr spec_2; } r2u2_contract_aux_info_t;
typedef struct {
  r2u2_formula_aux_info_t* formula_control_blocks;
  r2u2_contract_aux_info_t* contract_control_blocks;
  char* aux_mem;
  size_t max_aux_formula;
  size_t max_aux_contract;
} r2u2_aux_info_arena_t;

typedef enum { FIRST_LOOP, RELOOP_NO_PROGRESS, RELOOP_WITH_PROGRESS } r2u2_monitor_progress_state_t;
typedef struct { size_t curr_program_count; size_t max_program_count; } program_count_t;

typedef struct {
  r2u2_time time_stamp;
  r2u2_monitor_progress_state_t progress;
  program_count_t bz_program_count;
  r2u2_bz_instruction_t* bz_instruction_tbl;
  program_count_t mltl_program_count;
  r2u2_mltl_instruction_t* mltl_instruction_tbl;
  FILE* out_file;
  r2u2_status_t (*out_func)(r2u2_mltl_instruction_t, r2u2_verdict*);
  r2u2_value_t* signal_vector;
  r2u2_value_t* value_buffer;
  r2u2_bool* atomic_buffer;
  #if R2U2_AUX_STRING_SPECS
  r2u2_aux_info_arena_t aux_info_arena;
  #endif
  r2u2_scq_arena_t queue_arena;
} r2u2_monitor_t;

typedef struct { FILE* input_file; char in_buf[BUFSIZ]; } r2u2_csv_reader_t;

r2u2_status_t r2u2_scq_write(r2u2_scq_arena_t arena, r2u2_time queue_id, r2u2_verdict value);
r2u2_bool r2u2_scq_read(r2u2_scq_arena_t arena, r2u2_time parent_queue_id, r2u2_time child_queue_id, r2u2_bool read_num, r2u2_verdict* result);
r2u2_status_t r2u2_aux_formula_report(r2u2_monitor_t* monitor, r2u2_mltl_instruction_t instr, r2u2_verdict result);
r2u2_status_t r2u2_aux_contract_report(r2u2_monitor_t* monitor, r2u2_mltl_instruction_t instr, r2u2_verdict result);
r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor);
r2u2_status_t r2u2_bz_update(r2u2_monitor_t* monitor);
r2u2_status_t r2u2_mltl_configure_instruction_dispatch(r2u2_monitor_t* monitor, r2u2_mltl_instruction_t* instr);
r2u2_status_t r2u2_engine_step(r2u2_monitor_t* monitor);
r2u2_status_t r2u2_process_binary(r2u2_monitor_t* monitor, uint8_t* spec);
r2u2_status_t r2u2_load_specification(uint8_t* spec, r2u2_monitor_t* monitor);
void r2u2_monitor_soft_reset(r2u2_monitor_t* monitor);
void r2u2_load_string_signal(r2u2_monitor_t* monitor, size_t index, char* value);
r2u2_status_t r2u2_csv_load_next_signals(r2u2_csv_reader_t* csv_reader, r2u2_monitor_t* monitor);
r2u2_status_t r2u2_step(r2u2_monitor_t* monitor);

/* verdict words: the top bit is the truth value, the rest the time */
#define TRUTH(v) (((v) & 0x80000000u) != 0)
#define TIME(v) ((v) & 0x7FFFFFFFu)
#define T_AT(t) ((t) | 0x80000000u)
#define F_AT(t) ((t) & 0x7FFFFFFFu)

/* the temporal block lies directly behind the queue's slots */
static inline r2u2_scq_temporal_block_t* block(r2u2_scq_arena_t a, r2u2_time id) {
  return (r2u2_scq_temporal_block_t*)(&a.control_blocks[id].queue[a.control_blocks[id].length]);
}
#endif
