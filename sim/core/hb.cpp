// Concurrency build: our own runtime for code compiled with -fsanitize=thread.  Every memory access of the library
// is a possible preemption point and is checked against a vector-clock happens-before order; freed heap memory is
// never reused within a run, so a use after free is always seen.
#include "internal.h"
#include "sim.h"

#include <dlfcn.h>
#include <iostream>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>

extern "C" char __data_start[], _end[], __executable_start[];

namespace {

typedef uintptr_t uptr;
const uptr ARENA_SIZE = 192u << 20;
const int NT = MAX_THREADS;

struct Slot { uint32_t clk; uint8_t tid, mask, write, atomic; uint32_t pc; };   // clk 0: empty
struct Cell { Slot s[4]; };

char* arena;
uptr arena_pos;
Cell* arena_cells;      // one per 8 bytes
uint8_t* arena_state;   // per 8 bytes: 0 never allocated, 1 live, 2 freed
Cell* glob_cells;
uptr glob_lo, glob_hi;
uint32_t vc[NT][NT];
uint32_t fence_rel[NT][NT];   // clock at the last release fence
uint32_t fence_acq[NT][NT];   // what relaxed loads have seen, claimed by an acquire fence
int fence_rel_set[NT];
uint32_t preempt_gap;
__thread uint32_t preempt_left;
__thread uint32_t t_stack[64];
__thread int t_sp;

struct Sync { uptr a; uint32_t v[NT]; };
const uint32_t NSYNC = 8192;
Sync* syncs;

uint32_t rel_pc(void* pc) { return (uint32_t)((uptr)pc - (uptr)__executable_start); }

Sync* sync_of(uptr a)
{
    uint32_t i = (uint32_t)((a >> 2) * 2654435761u) & (NSYNC - 1);
    for (uint32_t k = 0; k < NSYNC; ++k, i = (i + 1) & (NSYNC - 1))
    {
        if (syncs[i].a == a) return &syncs[i];
        if (!syncs[i].a) { syncs[i].a = a; return &syncs[i]; }
    }
    sim_fail("harness", "too many synchronisation objects");
}

void join(uint32_t* a, const uint32_t* b) { for (int i = 0; i < NT; ++i) if (b[i] > a[i]) a[i] = b[i]; }

Cell* cell_of(uptr a)
{
    const uptr off = a - (uptr)arena;
    if (off < ARENA_SIZE) return &arena_cells[off >> 3];
    if (a >= glob_lo && a < glob_hi)
    {
        // standard stream objects are the C++ library's business
        static const struct { const void* p; size_t n; } skip[] = {
            {&std::cout, sizeof std::cout}, {&std::cerr, sizeof std::cerr}, {&std::clog, sizeof std::clog}, {&std::cin, sizeof std::cin},
            {&std::wcout, sizeof std::wcout}, {&std::wcerr, sizeof std::wcerr}, {&std::wclog, sizeof std::wclog}, {&std::wcin, sizeof std::wcin}};
        for (unsigned i = 0; i < sizeof skip / sizeof *skip; ++i) if (a - (uptr)skip[i].p < skip[i].n) return nullptr;
        return &glob_cells[(a - glob_lo) >> 3];
    }
    return nullptr;
}

void describe(char* b, size_t n)
{
    size_t at = 0;
    b[0] = 0;
    for (int i = t_sp < 64 ? t_sp : 64; i-- > 0 && at + 16 < n;) at += (size_t)snprintf(b + at, n - at, " pc=+0x%x", t_stack[i]);
}

void check(uptr a, uint8_t mask, bool write, bool atomic, uint32_t pc)
{
    Cell* c = cell_of(a);
    if (!c) return;
    const int me = t_self;
    Slot* put = nullptr;
    for (int i = 0; i < 4; ++i)
    {
        Slot& s = c->s[i];
        if (!s.clk) { if (!put) put = &s; continue; }
        if (s.tid == me)
        {
            if (s.mask == mask && s.write == write && s.atomic == atomic) put = &s;
            continue;
        }
        if ((s.mask & mask) && (s.write || write) && !(s.atomic && atomic) && s.clk > vc[me][s.tid])
        {
            char st[512];
            describe(st, sizeof st);
            sim_fail("data-race", "%s%s pc=+0x%x by thread %d and %s%s pc=+0x%x by thread %d are unordered; stack of the latter:%s",
                     s.atomic ? "atomic " : "", s.write ? "write" : "read", s.pc, s.tid, atomic ? "atomic " : "", write ? "write" : "read", pc, me, st);
        }
    }
    if (!put)
    {
        // prefer to forget a slot that is ordered before us, else the oldest
        put = &c->s[0];
        for (int i = 0; i < 4; ++i)
        {
            Slot& s = c->s[i];
            if (s.tid == me || s.clk <= vc[me][s.tid]) { put = &s; if (!s.write || write) break; }
        }
    }
    put->clk = vc[me][me];
    put->tid = (uint8_t)me;
    put->mask = mask;
    put->write = write;
    put->atomic = atomic;
    put->pc = pc;
}

void use_check(uptr a, size_t n, bool write, uint32_t pc)
{
    const uptr off = a - (uptr)arena;
    if (off >= ARENA_SIZE) return;
    for (uptr g = off >> 3; g <= (off + n - 1) >> 3; ++g)
        if (arena_state[g] != 1)
        {
            char st[512];
            describe(st, sizeof st);
            sim_fail(arena_state[g] == 2 ? "use-after-free" : "heap-out-of-bounds", "%s of %zu bytes pc=+0x%x; stack:%s", write ? "write" : "read", n, pc, st);
        }
}

void preempt_here(const char* what)
{
    if (!preempt_gap) return;
    if (preempt_left == 0)
    {
        const uint32_t v = sim_choose(preempt_gap + 1);
        preempt_left = v ? v : 0x7fffffffu;
    }
    if (--preempt_left == 0) core_sched_point(what, 1000);
}

void access(void* p, size_t n, bool write, void* ret, bool atomic = false)
{
    if (t_lib <= 0 || !g_active) return;
    const uptr a = (uptr)p;
    const uint32_t pc = rel_pc(ret);
    if (((a - (uptr)arena) < ARENA_SIZE)) use_check(a, n, write, pc);
    if (!core_mt()) return;
    if (!cell_of(a)) return;
    if (!atomic) preempt_here(write ? "write" : "read");
    uptr x = a;
    size_t left = n;
    while (left)
    {
        const size_t o = x & 7;
        size_t k = 8 - o;
        if (k > left) k = left;
        check(x, (uint8_t)(((1u << k) - 1) << o), write, atomic, pc);
        x += k;
        left -= k;
    }
}

void rel_store(uptr a, int mo, bool rmw)
{
    const int me = t_self;
    Sync* s = sync_of(a);
    if (mo == 3 || mo == 4 || mo == 5)
    {
        if (rmw) join(s->v, vc[me]);
        else memcpy(s->v, vc[me], sizeof s->v);
        ++vc[me][me];
    }
    else
    {
        if (!rmw) memset(s->v, 0, sizeof s->v);
        if (fence_rel_set[me]) join(s->v, fence_rel[me]);
    }
}

void acq_load(uptr a, int mo)
{
    const int me = t_self;
    Sync* s = sync_of(a);
    if (mo == 1 || mo == 2 || mo == 4 || mo == 5) join(vc[me], s->v);
    else join(fence_acq[me], s->v);
}

bool on() { return t_lib > 0 && g_active && core_mt(); }

template <typename T> T a_load(const volatile T* p, int mo, void* pc)
{
    if (t_lib > 0 && g_active) use_check((uptr)p, sizeof(T), false, rel_pc(pc));
    if (on()) { core_sched_point("atomic load", 0); access((void*)p, sizeof(T), false, pc, true); acq_load((uptr)p, mo); }
    return *p;
}
template <typename T> void a_store(volatile T* p, T v, int mo, void* pc)
{
    if (t_lib > 0 && g_active) use_check((uptr)p, sizeof(T), true, rel_pc(pc));
    if (on()) { core_sched_point("atomic store", 0); access((void*)p, sizeof(T), true, pc, true); rel_store((uptr)p, mo, false); }
    *p = v;
}
template <typename T, typename F> T a_rmw(volatile T* p, int mo, void* pc, F f)
{
    if (t_lib > 0 && g_active) use_check((uptr)p, sizeof(T), true, rel_pc(pc));
    if (on()) { core_sched_point("atomic update", 0); access((void*)p, sizeof(T), true, pc, true); acq_load((uptr)p, mo); rel_store((uptr)p, mo, true); }
    const T old = *p;
    *p = f(old);
    return old;
}
template <typename T> int a_cas(volatile T* p, T* exp, T des, int mo, int fmo, void* pc)
{
    if (t_lib > 0 && g_active) use_check((uptr)p, sizeof(T), true, rel_pc(pc));
    if (on())
    {
        core_sched_point("compare-exchange", 0);
        if (*p == *exp) { access((void*)p, sizeof(T), true, pc, true); acq_load((uptr)p, mo); rel_store((uptr)p, mo, true); }
        else { access((void*)p, sizeof(T), false, pc, true); acq_load((uptr)p, fmo); }
    }
    if (*p == *exp) { *p = des; return 1; }
    *exp = *p;
    return 0;
}

void* reserve(size_t n)
{
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) abort();
    return p;
}

}  // namespace

extern "C" {

int hb_enabled(void) { return 1; }

static void hb_setup(void)
{
    if (arena) return;
    arena = (char*)mmap((void*)0x600000000000ull, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (arena == MAP_FAILED) abort();
    arena_cells = (Cell*)reserve((ARENA_SIZE >> 3) * sizeof(Cell));
    arena_state = (uint8_t*)reserve(ARENA_SIZE >> 3);
    glob_lo = (uptr)__data_start & ~(uptr)7;
    glob_hi = (uptr)_end;
    glob_cells = (Cell*)reserve((((glob_hi - glob_lo) >> 3) + 1) * sizeof(Cell));
    syncs = (Sync*)reserve(NSYNC * sizeof(Sync));
}

void hb_reset(void)
{
    hb_setup();
    for (int i = 0; i < NT; ++i) vc[i][i] = 1;
    arena_pos = 64;
}

void sim_preempt_config(uint32_t gap) { preempt_gap = gap; }

void hb_acquire(void* a) { if (g_active) join(vc[t_self], sync_of((uptr)a)->v); }
void hb_release(void* a)
{
    if (!g_active) return;
    join(sync_of((uptr)a)->v, vc[t_self]);
    ++vc[t_self][t_self];
}
void hb_fork(int child)
{
    join(vc[child], vc[t_self]);
    ++vc[t_self][t_self];
}
void* hb_arena_alloc(size_t n)
{
    const uptr need = ((n ? n : 1) + 15 + 16) & ~(uptr)15;
    if (arena_pos + need > ARENA_SIZE) sim_fail("runaway-allocation", "the simulated heap of %lu bytes is used up", (unsigned long)ARENA_SIZE);
    char* p = arena + arena_pos;
    arena_pos += need;
    return p;
}
int hb_in_arena(void* p) { return (uptr)p - (uptr)arena < ARENA_SIZE && arena; }
void hb_alloc(void* p, size_t n)
{
    if (!hb_in_arena(p)) return;
    const uptr off = (uptr)p - (uptr)arena;
    memset(arena_state + (off >> 3), 1, ((n ? n : 1) + 7) >> 3);
    memset(p, 0xcd, n);
}
void hb_free(void* p, size_t n)
{
    if (!hb_in_arena(p)) return;
    void* pc = __builtin_return_address(0);
    if (t_lib > 0 && core_mt() && n)
    {
        // releasing memory conflicts with every unordered access to it
        for (uptr a = (uptr)p; a < (uptr)p + n; a += 8) check(a, 0xff, true, false, rel_pc(pc));
    }
    memset(arena_state + (((uptr)p - (uptr)arena) >> 3), 2, ((n ? n : 1) + 7) >> 3);
}

#define PC __builtin_return_address(0)

void __tsan_init(void) {}
void __tsan_func_entry(void* pc) { if (t_sp >= 0 && t_sp < 64) t_stack[t_sp] = rel_pc(pc); ++t_sp; }
void __tsan_func_exit(void) { --t_sp; }
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}

#define RW(n) \
    void __tsan_read##n(void* p) { access(p, n, false, PC); } \
    void __tsan_write##n(void* p) { access(p, n, true, PC); } \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } \
    void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); } \
    void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); } \
    void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); } \
    void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false, PC); } \
    void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true, PC); } \
    void __tsan_read_write##n(void* p) { access(p, n, false, PC); access(p, n, true, PC); } \
    void __tsan_unaligned_read_write##n(void* p) { access(p, n, false, PC); access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)

void __tsan_read_range(void* p, size_t n) { if (n) access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { if (n) access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n)
{
    if (n) { access((void*)s, n, false, PC); access(d, n, true, PC); }
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n)
{
    if (n) { access((void*)s, n, false, PC); access(d, n, true, PC); }
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n)
{
    if (n) access(d, n, true, PC);
    return memset(d, c, n);
}

#define ATOMICS(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* p, int mo) { return a_load<T>(p, mo, PC); } \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { a_store<T>(p, v, mo, PC); } \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, PC, [v](T) { return v; }); } \
    T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, PC, [v](T o) { return (T)(o + v); }); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, PC, [v](T o) { return (T)(o - v); }); } \
    T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, PC, [v](T o) { return (T)(o & v); }); } \
    T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, PC, [v](T o) { return (T)(o | v); }); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, PC, [v](T o) { return (T)(o ^ v); }); } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, PC, [v](T o) { return (T)~(o & v); }); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T d, int mo, int fmo) { return a_cas<T>(p, e, d, mo, fmo, PC); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T d, int mo, int fmo) { return a_cas<T>(p, e, d, mo, fmo, PC); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T d, int mo, int fmo) { a_cas<T>(p, &e, d, mo, fmo, PC); return e; }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)

void __tsan_atomic_thread_fence(int mo)
{
    if (!on()) return;
    core_sched_point("fence", 0);
    const int me = t_self;
    if (mo == 1 || mo == 2 || mo == 4 || mo == 5) join(vc[me], fence_acq[me]);
    if (mo == 3 || mo == 4 || mo == 5) { memcpy(fence_rel[me], vc[me], sizeof fence_rel[me]); fence_rel_set[me] = 1; ++vc[me][me]; }
}
void __tsan_atomic_signal_fence(int) {}

}

// std::getline for std::string lives in the C++ library, outside our instrumentation: note that it writes the string.
std::istream& sim_getline(std::istream& is, std::string& s, char d)
    asm("_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_");
__attribute__((visibility("default"))) std::istream& sim_getline(std::istream& is, std::string& s, char d)
{
    typedef std::istream& (*F)(std::istream&, std::string&, char);
    static const F real = (F)dlsym(RTLD_NEXT, "_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_");
    access(&s, sizeof s, true, PC);
    std::istream& r = real(is, s, d);
    access(&s, sizeof s, true, PC);
    return r;
}

