// Deterministic schedules for unchanged code.
//
// The code under test is compiled with -fsanitize=thread but linked, instead
// of with the sanitizer's run-time system, with this one: every memory
// access, atomic operation, lock, condition variable and thread operation
// becomes a point at which a seeded scheduler may hand the processor to
// another thread.  Exactly one thread runs at a time, so an execution is an
// interleaving, and repeats from its seed.
//
//   VS_SEED   seed
//   VS_RUN    mean number of points between switches (an atomic operation
//             counts for several)
//   VS_DELAY  every so many points, on average, a thread is put to sleep for
//             a long time
//   VS_PRIO    n: threads have priorities, of which one changes every n points
//              or so; without it, the next thread is drawn at random
//   VS_TSO    1: atomic stores that are not sequentially consistent linger in
//             a store buffer
//   VS_LIMIT  points after which the program is considered not to make progress
#ifndef VSCHED_H
#define VSCHED_H
void vs_init(void);
void vs_point(void);
int vs_self(void);                   // number of the calling thread
unsigned vs_random(unsigned n);
extern void (*vs_on_stuck)(const char *why);   // deadlock or livelock
unsigned long vs_steps(void), vs_switches(void);
unsigned vs_threads_seen(void);
void vs_pause(void), vs_resume(void);   // no switch in between, unless the thread blocks
#endif
