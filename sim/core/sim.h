// Interface between simulated workloads ("scenarios") and the simulator core.
// One seed -> one choice sequence -> one execution.  Usable from C++11.
#ifndef CAITLYN_SIM_H_
#define CAITLYN_SIM_H_

#include <cstddef>
#include <cstdint>
#include <exception>
#include <ios>
#include <new>
#include <stdexcept>
#include <string>
#include <vector>

// ---- C interface of the core (no C++ library types cross this boundary) ------------------------------------
extern "C" {
uint32_t sim_choose(uint32_t n);            // recorded choice in [0,n); 0 is the simplest
int sim_chance(uint32_t permille);          // recorded biased coin; 0 is the simplest
void sim_trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void sim_fail(const char* cls, const char* fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void sim_known(const char* key);            // a listed known finding showed itself in this run
void sim_count(const char* name, uint64_t n);  // counter in the evidence (faults use "fault:<kind>")
void sim_nontrivial(void);                  // this run exercised what the property is about
void sim_sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// library scope: allocations are tracked and may fail; memory accesses are race-checked (concurrency build)
void sim_lib_enter(void);
void sim_lib_leave(void);
int sim_locale(int which);                          // 0: the one programs start with, 1-5: others
int sim_foreign_locale(void);                       // from now on library calls meet a locale with a decimal comma
void sim_alloc_arm(uint32_t kth, int persistent);   // next lib scope of this thread: fail the kth (0 = none)
uint32_t sim_alloc_fired(void);                     // failures injected since the last arm (this thread)
uint32_t sim_alloc_seen(void);                      // allocations in lib scopes since the last arm (this thread)
uint64_t sim_live_blocks(void);
uint64_t sim_live_bytes(void);
uint32_t sim_choice_mark(void);
void sim_choice_rewind(uint32_t mark);

// simulated process threads
int sim_spawn(void (*fn)(void*), void* arg);
int sim_run(void);                          // run spawned threads; 0 all done, 1 the simulated process crashed
void sim_yield(const char* what);
int sim_self(void);
void sim_sched_config(uint32_t switch_permille);
void sim_preempt_config(uint32_t gap);      // concurrency build: most accesses between two preemptions, 0 = none
void sim_kill_threads(void);                // forget parked threads of a crashed process
int sim_concurrency_build(void);
void sim_at_exit(void (*fn)(void*), void* arg);         // as std::atexit; what the library registers is taken along
void sim_at_thread_exit(void (*fn)(void*), void* arg);  // as the destructor of a thread-local object
int sim_exit_run(void);                     // what the end of the process runs: this thread's, then the process's
void sim_process_end(void);                 // the process ends here, whatever its other threads are doing

// simulated disk.  Fault rates are per mille per system call; see SimDisk.
struct SimDisk
{
    uint32_t short_read, short_write, eintr, eio_read, eio_write, enospc, open_fail, close_fail, lseek_fail;
    uint32_t crash;                         // per mille per system call: the process dies here
    uint32_t max_faults;                    // stop injecting errors after this many (0 = none at all)
    int64_t capacity;                       // bytes on the device, -1 unlimited
    uint32_t slow;                          // per mille: the call takes seconds of simulated time
};
extern struct SimDisk sim_disk;
void sim_disk_faults_off(void);
uint32_t sim_disk_errors(void);             // error results injected so far (not short/eintr)
void sim_disk_put(const char* path, const void* data, size_t n);
void sim_disk_hole(const char* path, uint64_t n);   // n bytes in front of what was put; only for reading behind them
long sim_disk_size(const char* path);       // -1: no such file
size_t sim_disk_get(const char* path, void* out, size_t cap);
void sim_disk_remove(const char* path);
int sim_disk_files(void);
void sim_disk_reset(void);
int sim_open_fds(void);
uint32_t sim_syscalls(void);
void sim_write_marks_reset(void);           // note the file size at the start of each write call from now on
uint32_t sim_write_marks(uint64_t* out, uint32_t cap);
void sim_process_restart(void);             // drop descriptors of the dead process

// simulated console
struct SimConsole
{
    uint32_t out_error;                     // per mille per device write
    uint32_t out_short;
    uint32_t in_eintr;
    uint32_t in_error;
    uint32_t in_chunk;                      // most bytes per device read
    uint32_t out_buffer;                    // stdio buffer size for standard output
    uint32_t max_errors;
    uint32_t out_slow;                      // per mille: the device write takes seconds of simulated time
};
extern struct SimConsole sim_console;
void sim_console_reset(void);
void sim_console_input(const void* data, size_t n);
size_t sim_console_delivered(int fd, void* out, size_t cap);   // bytes that reached the device
size_t sim_console_pending(int fd);                            // bytes still in the stdio buffer
uint32_t sim_console_errors(void);
uint32_t sim_console_write_calls(int fd);
void sim_console_on_block(void (*fn)(void*), void* arg);       // called when the program waits for input

// simulated clock
uint64_t sim_now_ns(void);
void sim_advance_ns(uint64_t d);
void sim_clock_mode(int mode, uint64_t tick_ns);  // 0: advances by tick per reading, 1: scripted by on_read
void sim_clock_on_read(uint64_t (*fn)(void*), void* arg);
void sim_clock_set(uint64_t ns);
void sim_wall_jump(int64_t ns);             // the wall clock is set; the monotonic clock is not affected
uint32_t sim_clock_reads(void);

// implemented by the scenario
void scenario_run(void);
extern const char* scenario_name;
}

namespace sim {

inline uint32_t choose(uint32_t n) { return sim_choose(n); }
inline uint32_t range(uint32_t lo, uint32_t hi) { return lo + sim_choose(hi - lo + 1); }
inline bool chance(uint32_t permille) { return sim_chance(permille) != 0; }
template <typename T, size_t N> inline const T& pick(const T (&a)[N]) { return a[sim_choose((uint32_t)N)]; }

struct LibScope
{
    LibScope() { sim_lib_enter(); }
    ~LibScope() { sim_lib_leave(); }
};

enum Kind { OK = 0, IOS, BAD_ALLOC, OUT_OF_RANGE, RUNTIME, LOGIC, STD, FOREIGN, LENGTH };

struct Outcome
{
    Kind kind;
    std::string what;
    bool ok() const { return kind == OK; }
};

inline const char* kind_name(Kind k)
{
    static const char* const n[] = {"ok", "ios_failure", "bad_alloc", "out_of_range", "runtime_error", "logic_error", "std_exception", "foreign", "length_error"};
    return n[k];
}

// Run f as library code; classify what it throws.
template <typename F>
inline Outcome lib(F f)
{
    Outcome o;
    o.kind = OK;
    {
        // The scope is left before the handlers touch harness strings.
        struct Guard
        {
            bool on;
            Guard() : on(true) { sim_lib_enter(); }
            void off() { if (on) { on = false; sim_lib_leave(); } }
            ~Guard() { off(); }
        };
        try { Guard g; f(); }
        catch (const std::bad_alloc&) { o.kind = BAD_ALLOC; }
        catch (const std::ios_base::failure& e) { o.kind = IOS; o.what = e.what(); }
        catch (const std::out_of_range& e) { o.kind = OUT_OF_RANGE; o.what = e.what(); }
        catch (const std::length_error& e) { o.kind = LENGTH; o.what = e.what(); }
        catch (const std::runtime_error& e) { o.kind = RUNTIME; o.what = e.what(); }
        catch (const std::logic_error& e) { o.kind = LOGIC; o.what = e.what(); }
        catch (const std::exception& e) { o.kind = STD; o.what = e.what(); }
        catch (...) { o.kind = FOREIGN; }
    }
    return o;
}

inline std::string disk(const char* path)
{
    long n = sim_disk_size(path);
    if (n < 0) return std::string();
    std::string s((size_t)n, '\0');
    if (n) sim_disk_get(path, &s[0], (size_t)n);
    return s;
}
inline void disk_put(const char* path, const std::string& s) { sim_disk_put(path, s.data(), s.size()); }
inline std::string delivered(int fd)
{
    size_t n = sim_console_delivered(fd, nullptr, 0);
    std::string s(n, '\0');
    if (n) sim_console_delivered(fd, &s[0], n);
    return s;
}

// printable, bounded
inline std::string show(const std::string& s, size_t max = 60)
{
    std::string r = "\"";
    static const char hex[] = "0123456789abcdef";
    for (size_t i = 0; i < s.size() && i < max; ++i)
    {
        unsigned char c = (unsigned char)s[i];
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { r += "\\x"; r += hex[c >> 4]; r += hex[c & 15]; }
        else r += (char)c;
    }
    r += "\"";
    if (s.size() > max) r += "...(" + std::to_string(s.size()) + ")";
    return r;
}

inline void check_fail(const char* cls, const std::string& m) { sim_fail(cls, "%s", m.c_str()); }

// Run body; if library heap blocks remain, run the very same body again (same choices) and report a leak if
// the number grows every time: data that is lazily prepared once is not a leak, even where preparing it in one pass
// makes the next one take another path.
template <typename F>
inline void leakcheck(F body, const char* cls = "memory-leak")
{
    const uint32_t mark = sim_choice_mark();
    uint64_t before = sim_live_blocks();
    body();
    uint64_t now = sim_live_blocks();
    for (int pass = 2; now > before; ++pass)
    {
        if (pass > 6) sim_fail(cls, "%llu heap blocks allocated by the library are never freed", (unsigned long long)(now - before));
        sim_trace("leak? %llu blocks remain, pass %d", (unsigned long long)(now - before), pass);
        sim_choice_rewind(mark);
        before = now;
        body();
        now = sim_live_blocks();
    }
}

template <typename F>
struct SpawnBox
{
    F f;
    explicit SpawnBox(F g) : f(g) {}
    static void go(void* p) { static_cast<SpawnBox*>(p)->f(); }
};
template <typename F>
inline int spawn(F f)
{
    return sim_spawn(&SpawnBox<F>::go, new SpawnBox<F>(f));
}

}  // namespace sim

#define SIM_REQUIRE(cond, cls, msg) do { if (!(cond)) ::sim::check_fail(cls, msg); } while (0)

#endif
