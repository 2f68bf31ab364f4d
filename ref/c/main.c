/* Reference: the command line monitor. */
#include "ref.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>

r2u2_csv_reader_t r2u2_csv_reader = {0};

/* after set-up: read a line, take a step, until the trace ends */
