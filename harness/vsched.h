// Controlled scheduler: one thread runs at a time, every synchronisation operation of the program is a choice point,
// plain memory accesses are checked for happens-before races and use after free. See sched.cpp.
#pragma once
#include <stdint.h>
extern "C" {
void sched_quiet_begin() __attribute__((weak));
void sched_quiet_end() __attribute__((weak));
int sched_active() __attribute__((weak));           // 1 while a controlled execution is running
int sched_self();                                   // index of the running thread
int64_t sched_now();                                // virtual time, ns
int64_t sched_idle();                               // the part of it which passed while every thread waited
void sched_sleep(int64_t ns);                       // virtual sleep
void sched_point(const char* what, void* obj);      // a choice point and an event on obj
void sched_acquire(void* obj);                      // happens-before edges of modelled primitives
void sched_release(void* obj);
int sched_block(int (*pred)(void*), void* arg, int64_t timeout_ns, const char* what);  // waits until pred (1) or timeout (0; <0: none)
void sched_atomic_range(const void* lo, uint64_t size);  // atomics in here are choice points
void sched_fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));  // records a violation and ends the execution
void sched_name(const char* name);                  // names the running thread
void sched_name_next(const char* name);             // names the next thread created by the running thread
void sched_set_clock(void* atomic_i64);
void sched_focus(int on);                           // choices made while off are not varied
int sched_live();                                   // threads which have not ended, without the running one
void sched_no_preempt(int on);                      // no choice points in between (harness set-up)
void sched_outcome(uint64_t h);                     // outcome of this execution
}
struct SchedStats { uint64_t execs, states, events, pruned, fails, outcomes, maxpoints; int complete; int full; };
struct SchedOptions { int bound = 2; int workers = 8; int must = 0; double seconds = 60;  /* deviations up to `must` are covered even when it takes longer */ int block_cost = 0; bool lifo = false;  /* default order: round robin, or the thread woken last first */
  bool spurious = false; uint64_t max_events = 8000; };
typedef void (*sched_report_t)(const char* key, const char* text);
// runs body() under every schedule within the bound
SchedStats sched_explore(void (*body)(int), int scenario, const SchedOptions& o, sched_report_t report);
void sched_replay(void (*body)(int), int scenario, const char* schedule);
