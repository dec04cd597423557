// Threads of the simulated process: real pthreads parked and released one at a time.  Locks, condition variables,
// once-flags and static-initialisation guards are modelled, so who runs next is always the simulator's choice.
// Also: operator new/delete with failing allocations and live-block accounting.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <locale>
#include <locale.h>
#include "internal.h"
#include "sim.h"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <new>

#define REAL(name) ({ static decltype(&::name) f_; if (!f_) f_ = (decltype(&::name))dlsym(RTLD_NEXT, #name); f_; })

extern "C" {

__thread int t_lib = 0;
__thread int t_self = 0;
static __thread uint32_t t_arm, t_fired, t_seen;
static __thread int t_arm_persist;

// default no-op happens-before hooks; the concurrency build links strong ones
__attribute__((weak)) void hb_acquire(void*) {}
__attribute__((weak)) void hb_release(void*) {}
__attribute__((weak)) void hb_fork(int) {}
__attribute__((weak)) void hb_join(int) {}
__attribute__((weak)) void hb_alloc(void*, size_t) {}
__attribute__((weak)) void hb_free(void*, size_t) {}
__attribute__((weak)) int hb_enabled(void) { return 0; }
__attribute__((weak)) void hb_reset(void) {}
__attribute__((weak)) void* hb_arena_alloc(size_t) { return nullptr; }
__attribute__((weak)) int hb_in_arena(void*) { return 0; }

}

namespace {

enum State { FREE = 0, READY, BLOCKED, DONE, DEAD };

struct Thr { State st; int futex; pthread_t tid; void (*fn)(void*); void* arg; void* on; int on_kind; };

Thr thr[MAX_THREADS];
int n_thr = 1;          // 0 is the harness
int running = 0;        // a simulated process is running (sim_run in progress)
int crashed = 0;
uint32_t switch_permille = 200;
uint64_t n_switches;

void fwait(int* a)
{
    while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    __atomic_store_n(a, 0, __ATOMIC_RELAXED);
}
void fwake(int* a)
{
    __atomic_store_n(a, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

void hand_to(int t)
{
    // the caller gives up the token
    const int me = t_self;
    if (t == me) return;
    ++n_switches;
    fwake(&thr[t].futex);
    fwait(&thr[me].futex);
}

int ready_list(int* out)
{
    int n = 0;
    for (int i = 1; i < n_thr; ++i) if (thr[i].st == READY) out[n++] = i;
    return n;
}

// the current thread cannot go on: run another one
void give_up()
{
    int l[MAX_THREADS];
    const int n = ready_list(l);
    if (n == 0)
    {
        bool any_blocked = false;
        for (int i = 1; i < n_thr; ++i) if (thr[i].st == BLOCKED) any_blocked = true;
        if (any_blocked) sim_fail("deadlock", "every thread of the simulated process waits for another one");
        hand_to(0);
        return;
    }
    const int t = l[n > 1 ? sim_choose((uint32_t)n) : 0];
    sim_trace("run thread %d", t);
    hand_to(t);
}

// what is to run when a thread or the process ends
struct Ending { void (*fn)(void*); void* arg; int thread, lib, used; };
const int MAX_ENDINGS = 4096;
Ending endings[MAX_ENDINGS];
int n_endings;

void add_ending(void (*fn)(void*), void* arg, int thread, int lib)
{
    if (n_endings == MAX_ENDINGS) sim_fail("harness", "too many things to do at the end");
    hb_release(&n_endings);
    const Ending e = {fn, arg, thread, lib, 0};
    endings[n_endings++] = e;
}

// the newest first, also of those that are added meanwhile
int run_endings(int thread)
{
    int n = 0;
    const int keep = t_lib;
    for (int i = n_endings; i-- > 0;)
    {
        if (endings[i].used || endings[i].thread != thread) continue;
        endings[i].used = 1;
        hb_acquire(&n_endings);
        t_lib = endings[i].lib;
        endings[i].fn(endings[i].arg);
        t_lib = keep;
        ++n;
        i = n_endings;
    }
    return n;
}

void* thread_main(void* p)
{
    const int id = (int)(intptr_t)p;
    t_self = id;
    fwait(&thr[id].futex);
    thr[id].fn(thr[id].arg);
    t_lib = 0;
    run_endings(id);
    thr[id].st = DONE;
    sim_trace("thread %d ends", id);
    hb_release(&thr[id]);
    int l[MAX_THREADS];
    const int n = ready_list(l);
    if (n)
    {
        const int t = l[n > 1 ? sim_choose((uint32_t)n) : 0];
        sim_trace("run thread %d", t);
        fwake(&thr[t].futex);
    }
    else
    {
        bool any_blocked = false;
        for (int i = 1; i < n_thr; ++i) if (thr[i].st == BLOCKED) any_blocked = true;
        if (any_blocked) sim_fail("deadlock", "every thread of the simulated process waits for another one");
        fwake(&thr[0].futex);
    }
    // stay: the exit of a real thread is not part of the simulation
    for (;;) pause();
    return nullptr;
}

}  // namespace

extern "C" {

int core_mt(void) { return running && t_self > 0; }
int sim_self(void) { return t_self; }
int sim_concurrency_build(void) { return hb_enabled(); }

void sim_sched_config(uint32_t sp) { switch_permille = sp; }
__attribute__((weak)) void sim_preempt_config(uint32_t) {}

void core_sched_point(const char* what, uint32_t permille)
{
    if (!g_active || !running || t_self == 0) return;
    int l[MAX_THREADS];
    int n = 0;
    for (int i = 1; i < n_thr; ++i) if (thr[i].st == READY && i != t_self) l[n++] = i;
    if (n == 0) return;
    if (!sim_chance(permille ? permille : switch_permille)) return;
    const int t = l[n > 1 ? sim_choose((uint32_t)n) : 0];
    sim_count("fault:preemption", 1);
    sim_trace("switch at %s to %d", what, t);
    hand_to(t);
}

void sim_yield(const char* what) { core_sched_point(what, 500); }

void core_block_on(void* addr, int kind, const char* what)
{
    if (t_self == 0) sim_fail("deadlock", "the harness thread would wait for ever (%s)", what);
    thr[t_self].st = BLOCKED;
    thr[t_self].on = addr;
    thr[t_self].on_kind = kind;
    sim_trace("blocks (%s)", what);
    give_up();
}

void core_wake(void* addr, int kind, int all)
{
    int l[MAX_THREADS];
    int n = 0;
    for (int i = 1; i < n_thr; ++i) if (thr[i].st == BLOCKED && thr[i].on == addr && thr[i].on_kind == kind) l[n++] = i;
    if (n == 0) return;
    if (all) { for (int i = 0; i < n; ++i) thr[l[i]].st = READY; return; }
    thr[l[n > 1 ? sim_choose((uint32_t)n) : 0]].st = READY;
}

int core_can_crash(void) { return running && t_self > 0; }

void core_crash_here(void)
{
    crashed = 1;
    const int me = t_self;
    for (int i = 1; i < n_thr; ++i) thr[i].st = DEAD;
    fwake(&thr[0].futex);
    fwait(&thr[me].futex);   // for ever
    for (;;) pause();
}

void sim_at_exit(void (*fn)(void*), void* arg) { add_ending(fn, arg, -1, 0); }
void sim_at_thread_exit(void (*fn)(void*), void* arg) { add_ending(fn, arg, t_self, 0); }

// as exit() does: the thread's own objects, then the process's
int sim_exit_run(void)
{
    const int n = run_endings(t_self);
    return n + run_endings(-1);
}

void sim_process_end(void) { if (running && t_self > 0) core_crash_here(); }

int sim_spawn(void (*fn)(void*), void* arg)
{
    if (n_thr >= MAX_THREADS) sim_fail("harness", "too many threads");
    const int id = n_thr++;
    thr[id].st = READY; thr[id].futex = 0; thr[id].fn = fn; thr[id].arg = arg;
    const int keep = t_lib;
    t_lib = 0;
    hb_fork(id);
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, 1 << 20);
    if (REAL(pthread_create)(&thr[id].tid, &a, thread_main, (void*)(intptr_t)id)) sim_fail("harness", "pthread_create failed");
    pthread_attr_destroy(&a);
    t_lib = keep;
    return id;
}

int sim_run(void)
{
    int l[MAX_THREADS];
    const int n = ready_list(l);
    if (n == 0) return 0;
    running = 1;
    crashed = 0;
    const int t = l[n > 1 ? sim_choose((uint32_t)n) : 0];
    sim_trace("run thread %d", t);
    fwake(&thr[t].futex);
    fwait(&thr[0].futex);
    running = 0;
    if (!crashed) for (int i = 1; i < n_thr; ++i) if (thr[i].st == DONE) hb_acquire(&thr[i]);
    sim_count("scheduler:context_switches", n_switches);
    n_switches = 0;
    return crashed;
}


// ---- library scope and allocation --------------------------------------------------------------------------------

// A program that sets its own locale: the library sees it, the harness does not.
static locale_t harness_locale;
struct Comma : std::numpunct<char>
{
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\3"; }
    std::string do_truename() const override { return "wahr"; }
    std::string do_falsename() const override { return "falsch"; }
};
int sim_locale(int which)
{
    static const char* const names[] = {"C", "de_DE.utf8", "C with a decimal comma for streams", "de_DE.utf8 for C only", "tr_TR.utf8", "fr_FR.iso88591"};
    char exe[512];
    const ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
    if (n <= 0) return 0;
    exe[n] = 0;
    *strrchr(exe, '/') = 0;
    strcat(exe, "/locale");
    setenv("LOCPATH", exe, 1);
    if (!harness_locale) harness_locale = newlocale(LC_ALL_MASK, "C", 0);
    uselocale(harness_locale);
    try
    {
        switch (which)
        {
            case 0: case 1: case 4: case 5: std::locale::global(std::locale(names[which])); break;
            case 2: std::locale::global(std::locale::classic()); std::locale::global(std::locale(std::locale::classic(), new Comma)); break;
            default:
                std::locale::global(std::locale::classic());
                if (!setlocale(LC_ALL, "de_DE.utf8")) return 0;
        }
    }
    catch (const std::exception&) { return 0; }   // no such locale could be made here
    if (which) sim_count("fault:foreign_locale", 1);
    sim_trace("the program sets the locale %s", names[which]);
    return 1;
}
int sim_foreign_locale(void) { return sim_locale(1); }
void sim_lib_enter(void)
{
    if (t_lib++) return;
    if (harness_locale) uselocale(LC_GLOBAL_LOCALE);
    // errno holds whatever an earlier call of the program left there
    static const int stale[] = {ERANGE, 0, EINTR, ENOMEM};
    static unsigned entered;
    errno = stale[entered++ % 4];
}
void sim_lib_leave(void) { if (!--t_lib && harness_locale) uselocale(harness_locale); }
void sim_alloc_arm(uint32_t k, int persist) { t_arm = k; t_arm_persist = persist; t_fired = 0; t_seen = 0; }
uint32_t sim_alloc_seen(void) { return t_seen; }
uint32_t sim_alloc_fired(void) { return t_fired; }

}

namespace {

struct Blk { void* p; size_t n; int kind; int lib; };
const uint32_t NBLK = 1u << 17;
Blk blks[NBLK];
uint32_t n_blk;
uint64_t live_blocks, live_bytes;

uint32_t slot(void* p) { return (uint32_t)(((uintptr_t)p >> 4) * 2654435761u) & (NBLK - 1); }

void blk_add(void* p, size_t n, int kind, int lib)
{
    if (n_blk > NBLK * 3 / 4) sim_fail("runaway-allocation", "%u live heap blocks", n_blk);
    uint32_t i = slot(p);
    while (blks[i].p) i = (i + 1) & (NBLK - 1);
    blks[i].p = p; blks[i].n = n; blks[i].kind = kind; blks[i].lib = lib;
    ++n_blk;
    if (lib) { ++live_blocks; live_bytes += n; }
}

// 0: unknown block
int blk_remove(void* p, Blk* out)
{
    uint32_t i = slot(p);
    while (blks[i].p && blks[i].p != p) i = (i + 1) & (NBLK - 1);
    if (!blks[i].p) return 0;
    *out = blks[i];
    if (blks[i].lib) { --live_blocks; live_bytes -= blks[i].n; }
    blks[i].p = nullptr;
    --n_blk;
    uint32_t j = i;
    for (;;)
    {
        j = (j + 1) & (NBLK - 1);
        if (!blks[j].p) break;
        const uint32_t h = slot(blks[j].p);
        if (i <= j ? (i < h && h <= j) : (i < h || h <= j)) continue;
        blks[i] = blks[j];
        blks[j].p = nullptr;
        i = j;
    }
    return 1;
}

void* do_new(size_t n, int kind, bool nothrow)
{
    if (!g_active) { void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
    sim_step("allocation");
    if (t_lib > 0) ++t_seen;
    if (t_lib > 0 && t_arm)
    {
        if (--t_arm == 0)
        {
            if (t_arm_persist) t_arm = 1;
            ++t_fired;
            sim_count("fault:allocation", 1);
            sim_trace("allocation of %zu fails", n);
            if (nothrow) return nullptr;
            throw std::bad_alloc();
        }
    }
    if (n > (1u << 28) || live_bytes + n > (1ull << 29))
    {
        if (n > (1ull << 40) || t_lib == 0) { if (nothrow) return nullptr; throw std::bad_alloc(); }
        sim_fail("runaway-allocation", "allocation of %zu bytes with %llu live", n, (unsigned long long)live_bytes);
    }
    void* p = hb_enabled() ? hb_arena_alloc(n) : nullptr;
    if (!p) p = malloc(n ? n : 1);
    if (!p) abort();
    blk_add(p, n, kind, t_lib > 0);
    hb_alloc(p, n);
    return p;
}

void do_delete(void* p, int kind)
{
    if (!p) return;
    if (!g_active)
    {
        if (!hb_in_arena(p)) free(p);
        return;
    }
    Blk b;
    if (!blk_remove(p, &b))
    {
        if (hb_in_arena(p)) sim_fail("double-free", "a heap block is freed twice");
        free(p);   // allocated before the run, or a double free that the address sanitizer reports
        return;
    }
    if (b.kind != kind) sim_fail("alloc-mismatch", "new%s block released with delete%s", b.kind ? "[]" : "", kind ? "[]" : "");
    hb_free(p, b.n);
    if (!hb_in_arena(p)) free(p);
}

}  // namespace

extern "C" {
uint64_t sim_live_blocks(void) { return live_blocks; }
uint64_t sim_live_bytes(void) { return live_bytes; }
}

#define VISN __attribute__((visibility("default"), noinline))
VISN void* operator new(size_t n) { return do_new(n, 0, false); }
VISN void* operator new[](size_t n) { return do_new(n, 1, false); }
VISN void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, 0, true); }
VISN void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, 1, true); }
VISN void operator delete(void* p) noexcept { do_delete(p, 0); }
VISN void operator delete[](void* p) noexcept { do_delete(p, 1); }
VISN void operator delete(void* p, size_t) noexcept { do_delete(p, 0); }
VISN void operator delete[](void* p, size_t) noexcept { do_delete(p, 1); }
VISN void operator delete(void* p, const std::nothrow_t&) noexcept { do_delete(p, 0); }
VISN void operator delete[](void* p, const std::nothrow_t&) noexcept { do_delete(p, 1); }

// ---- locks --------------------------------------------------------------------------------------------------------

namespace {

struct Lock { void* a; int owner; int depth; int readers; int guard; };
Lock locks[256];

Lock* lock_of(void* a)
{
    uint32_t i = (uint32_t)(((uintptr_t)a >> 3) * 2654435761u) & 255;
    for (int k = 0; k < 256; ++k, i = (i + 1) & 255)
    {
        if (locks[i].a == a) return &locks[i];
        if (!locks[i].a) { locks[i].a = a; locks[i].owner = -1; locks[i].depth = 0; locks[i].readers = 0; locks[i].guard = 0; return &locks[i]; }
    }
    sim_fail("harness", "too many locks");
}

bool modelled() { return g_active && running && t_self > 0; }
// Nobody else is there who could release what the only thread waits for.
bool alone() { return g_active && !running; }

enum { K_LOCK = 1, K_COND, K_ONCE, K_GUARD };

}  // namespace

extern "C" void sim_kill_threads(void)
{
    for (int i = 1; i < n_thr; ++i) if (thr[i].st != DONE) thr[i].st = DEAD;
    // a new process would find none of the dead one's locks and half-done initialisations
    for (int i = 0; i < 256; ++i)
        if (locks[i].a && locks[i].owner > 0 && locks[i].owner < MAX_THREADS)
        {
            if (locks[i].guard) ((volatile unsigned char*)locks[i].a)[1] = 0;
            locks[i].owner = -1;
            locks[i].depth = 0;
            locks[i].readers = 0;
        }
}

extern "C" {

#define VIS __attribute__((visibility("default")))

VIS int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!modelled())
    {
        if (alone() && (m->__data.__kind & 3) != PTHREAD_MUTEX_ERRORCHECK)
        {
            const int r = REAL(pthread_mutex_trylock)(m);
            if (r == EBUSY) sim_fail("deadlock", "the only thread waits for a mutex that stays locked");
            return r;
        }
        return REAL(pthread_mutex_lock)(m);
    }
    core_sched_point("mutex lock", 0);
    Lock* l = lock_of(m);
    while (l->owner != -1 && l->owner != t_self) core_block_on(m, K_LOCK, "mutex");
    if (l->owner == t_self)
    {
        if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { ++l->depth; return 0; }
        sim_fail("deadlock", "a thread locks a mutex it already holds");
    }
    l->owner = t_self;
    l->depth = 1;
    hb_acquire(m);
    return 0;
}
VIS int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!modelled()) return REAL(pthread_mutex_trylock)(m);
    core_sched_point("mutex trylock", 0);
    Lock* l = lock_of(m);
    if (l->owner == t_self && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { ++l->depth; return 0; }
    if (l->owner != -1) return EBUSY;
    l->owner = t_self;
    l->depth = 1;
    hb_acquire(m);
    return 0;
}
VIS int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!modelled()) return REAL(pthread_mutex_unlock)(m);
    Lock* l = lock_of(m);
    if (l->owner != t_self) sim_fail("lock-misuse", "a thread unlocks a mutex it does not hold");
    if (--l->depth == 0)
    {
        l->owner = -1;
        hb_release(m);
        core_wake(m, K_LOCK, 1);
        core_sched_point("mutex unlock", 0);
    }
    return 0;
}
VIS int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!modelled()) return REAL(pthread_cond_wait)(c, m);
    Lock* l = lock_of(m);
    const int d = l->depth;
    l->owner = -1;
    l->depth = 0;
    hb_release(m);
    core_wake(m, K_LOCK, 1);
    core_block_on(c, K_COND, "condition");
    while (l->owner != -1) core_block_on(m, K_LOCK, "mutex");
    l->owner = t_self;
    l->depth = d;
    hb_acquire(m);
    return 0;
}
VIS int pthread_cond_signal(pthread_cond_t* c)
{
    if (!modelled()) return REAL(pthread_cond_signal)(c);
    core_wake(c, K_COND, 0);
    core_sched_point("signal", 0);
    return 0;
}
VIS int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (!modelled()) return REAL(pthread_cond_broadcast)(c);
    core_wake(c, K_COND, 1);
    core_sched_point("broadcast", 0);
    return 0;
}
VIS int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if (!modelled())
    {
        if (alone())
        {
            const int r = pthread_rwlock_tryrdlock(m);
            if (r == EBUSY) sim_fail("deadlock", "the only thread waits for a lock that stays locked");
            return r;
        }
        return REAL(pthread_rwlock_rdlock)(m);
    }
    core_sched_point("read lock", 0);
    Lock* l = lock_of(m);
    while (l->owner != -1) core_block_on(m, K_LOCK, "read lock");
    ++l->readers;
    hb_acquire(m);
    return 0;
}
VIS int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if (!modelled())
    {
        if (alone())
        {
            const int r = pthread_rwlock_trywrlock(m);
            if (r == EBUSY) sim_fail("deadlock", "the only thread waits for a lock that stays locked");
            return r;
        }
        return REAL(pthread_rwlock_wrlock)(m);
    }
    core_sched_point("write lock", 0);
    Lock* l = lock_of(m);
    while (l->owner != -1 || l->readers) core_block_on(m, K_LOCK, "write lock");
    l->owner = t_self;
    hb_acquire(m);
    return 0;
}
VIS int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    if (!modelled()) return REAL(pthread_rwlock_unlock)(m);
    Lock* l = lock_of(m);
    if (l->owner == t_self) l->owner = -1; else --l->readers;
    hb_release(m);
    core_wake(m, K_LOCK, 1);
    core_sched_point("rwlock unlock", 0);
    return 0;
}
VIS int pthread_once(pthread_once_t* o, void (*fn)(void))
{
    if (!modelled()) return REAL(pthread_once)(o, fn);
    core_sched_point("once", 0);
    Lock* l = lock_of(o);
    while (l->owner != -1 && l->owner != 1000) core_block_on(o, K_ONCE, "once");
    if (*(volatile int*)o == 2 || l->owner == 1000) { hb_acquire(o); return 0; }
    l->owner = t_self;
    fn();                       // an exception leaves owner set; nothing here throws through pthread_once in practice
    *(volatile int*)o = 2;
    l->owner = 1000;
    hb_release(o);
    core_wake(o, K_ONCE, 1);
    return 0;
}
VIS int sched_yield(void)
{
    if (modelled()) { core_sched_point("yield", 700); return 0; }
    return (int)syscall(SYS_sched_yield);
}
VIS int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
    if (g_active) sim_fail("harness", "the library started a thread of its own, which the simulator does not model");
    return REAL(pthread_create)(t, a, fn, arg);
}

// destructors of static and thread-local objects of the library, and its exit handlers
typedef int (*AtExit)(void (*)(void*), void*, void*);
VIS int __cxa_atexit(void (*fn)(void*), void* arg, void* dso)
{
    static AtExit real;
    if (!real) real = (AtExit)dlsym(RTLD_NEXT, "__cxa_atexit");
    if (!g_active || t_lib <= 0) return real(fn, arg, dso);
    add_ending(fn, arg, -1, 1);
    return 0;
}
VIS int __cxa_thread_atexit(void (*fn)(void*), void* arg, void* dso)
{
    static AtExit real;
    if (!real) real = (AtExit)dlsym(RTLD_NEXT, "__cxa_thread_atexit");
    if (!g_active || t_lib <= 0) return real(fn, arg, dso);
    add_ending(fn, arg, t_self, 1);
    return 0;
}

// one-time initialisation of function-local statics
VIS int __cxa_guard_acquire(uint64_t* g)
{
    volatile unsigned char* b = (volatile unsigned char*)g;
    if (b[0]) { hb_acquire(g); return 0; }
    if (!modelled())
    {
        if (b[1]) { if (g_active) sim_fail("deadlock", "recursive initialisation of a static"); abort(); }
        b[1] = 1;
        return 1;
    }
    core_sched_point("static guard", 0);
    Lock* l = lock_of(g);
    while (!b[0] && b[1])
    {
        if (l->owner == t_self) sim_fail("deadlock", "recursive initialisation of a static");
        core_block_on(g, K_GUARD, "static initialisation");
    }
    if (b[0]) { hb_acquire(g); return 0; }
    b[1] = 1;
    l->owner = t_self;
    l->guard = 1;
    return 1;
}
VIS void __cxa_guard_release(uint64_t* g)
{
    volatile unsigned char* b = (volatile unsigned char*)g;
    hb_release(g);
    b[0] = 1;
    b[1] = 0;
    if (modelled()) { lock_of(g)->owner = -1; core_wake(g, K_GUARD, 1); core_sched_point("static ready", 0); }
}
VIS void __cxa_guard_abort(uint64_t* g)
{
    volatile unsigned char* b = (volatile unsigned char*)g;
    b[1] = 0;
    if (modelled()) { lock_of(g)->owner = -1; core_wake(g, K_GUARD, 1); core_sched_point("static failed", 0); }
}

}  // extern "C"
