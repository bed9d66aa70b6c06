/* Controlled scheduler: with sched_on(), exactly one thread of the process runs at a time and every switch is
 * decided by a seeded PRNG at synchronisation calls and at random basic-block edges of the library. */
#ifndef SCHED_H
#define SCHED_H
#include <stdint.h>
void sched_on(uint64_t seed, int mode, long period); /* mode 0 uniform random, 1 PCT-like priorities, 2 round-robin slices */
void sched_jitter(uint64_t seed);                    /* free-running threads with random delays at edges */
void sched_spurious(int percent);                    /* injected spurious condition wakeups */
void sched_report(void);                             /* prints an S line */
void sched_off(void);
extern long sched_edges;
#endif
