// Shared between the parts of the simulator core.  The core is built without sanitizers and without C++ library
// containers, so none of its code is merged with instrumented template code and it never uses operator new.
#ifndef CAITLYN_SIM_INTERNAL_H_
#define CAITLYN_SIM_INTERNAL_H_

#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <sys/types.h>

#define MAX_CHOICES 32768u
#define MAX_COUNTERS 128u
#define MAX_THREADS 24
#define TRACE_CAP (1u << 18)

struct Counter { char name[44]; uint32_t used; uint64_t n; };

struct RunShared
{
    volatile uint32_t status;  // 0 running, 1 ok, 2 failed, 3 truncated
    uint32_t nchoices;
    uint32_t nontrivial;
    uint32_t trace_len;
    uint64_t hash;
    uint64_t sim_ns;
    uint64_t steps;
    uint32_t nknown;
    char known[4][64];
    char cls[96];
    char msg[2048];
    char sample[768];
    uint32_t sample_len;
    uint32_t ncounters;
    Counter counters[MAX_COUNTERS];
    uint32_t choices[MAX_CHOICES];
    char trace[TRACE_CAP];
};

extern "C" {
extern int g_active;                 // a simulated run is in progress in this process
extern RunShared* g_run;
extern __thread int t_lib;           // depth of library scope
extern __thread int t_self;          // simulated thread id, 0 = harness
extern uint64_t g_now;
void sim_step(const char* what);
void core_sched_point(const char* what, uint32_t permille_override);
void core_block_on(void* addr, int kind, const char* what);
void core_wake(void* addr, int kind, int all);
int core_mt(void);
void core_crash_here(void);
int core_can_crash(void);
uint64_t core_prng(void);

// happens-before hooks (concurrency build); weak no-ops otherwise
void hb_acquire(void* addr);
void hb_release(void* addr);
void hb_fork(int child);
void hb_join(int child);
void hb_alloc(void* p, size_t n);
void hb_free(void* p, size_t n);
int hb_enabled(void);
void hb_reset(void);
void* hb_arena_alloc(size_t n);
int hb_in_arena(void* p);

// real functions
ssize_t real_write_err(const void* p, size_t n);
}

#endif
