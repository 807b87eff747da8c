/* The time limit, bit-precise: every starting and current clock reading */
#include "nd.h"
#include "algorithms/branch_and_bound.h"
static Problem P; static long start, now;
clock_t clock(void) { return now; }
void harness(void) {
  start = nd(0, 2147483647); long sec = nd(0, 10000), us = nd(0, 999999); start = start * 1024 + 7; now = start + sec * 1000000 + us;
  P.start = start; set_problem(&P); int r = !!time_limit_reached();
  if (sec < 600 || (sec == 600 && us == 0)) CHECK(!r, "the time limit is declared exceeded although it is not");
  if (sec >= 601) CHECK(r, "the time limit is not noticed although it is exceeded");
  REACHED();
}
