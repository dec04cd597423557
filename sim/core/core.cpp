// Choices, traces, process-per-run exploration, replay and minimisation.
#include "internal.h"
#include "sim.h"

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern "C" {

int g_active = 0;
RunShared* g_run = nullptr;
uint64_t g_now = 1000000000ull;

static uint64_t g_seed_state;
static const uint32_t* g_replay = nullptr;
static uint32_t g_replay_n = 0;
static int g_explore = 0;
static uint32_t g_pos = 0;      // next choice position (differs from nchoices after a rewind)
static const char* g_allowed = "";
static int g_keep_trace = 0;

uint64_t core_prng(void)
{
    uint64_t z = (g_seed_state += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

extern "C" __attribute__((weak)) void sim_cov_child(void);
extern "C" __attribute__((weak)) void sim_cov_write(void);
__attribute__((noreturn)) static void die(int code)
{
    if (sim_cov_child) sim_cov_child();
    syscall(SYS_exit_group, code);
    for (;;) {}
}

static void finish(uint32_t status)
{
    g_run->sim_ns = g_now;
    __atomic_store_n(&g_run->status, status, __ATOMIC_SEQ_CST);
    die(0);
}

static void hash_bytes(const void* p, size_t n)
{
    const unsigned char* c = (const unsigned char*)p;
    uint64_t h = g_run->hash;
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
    g_run->hash = h;
}

static uint32_t next_choice(uint32_t n, uint32_t permille)
{
    // n == 0: a coin with probability permille
    uint32_t v;
    if (g_pos < g_run->nchoices) v = g_run->choices[g_pos];       // after a rewind: same again
    else if (g_pos >= MAX_CHOICES) { finish(3); return 0; }
    else
    {
        if (g_pos < g_replay_n) v = g_replay[g_pos];
        else if (g_explore)
        {
            const uint64_t r = core_prng();
            v = n ? (uint32_t)((r >> 11) % n) : (uint32_t)((r >> 11) % 1000 < permille);
        }
        else v = 0;
    }
    v = n ? v % n : (permille == 0 ? 0 : v % 2);
    if (g_pos >= g_run->nchoices) { g_run->choices[g_pos] = v; g_run->nchoices = g_pos + 1; }
    ++g_pos;
    return v;
}

uint32_t sim_choose(uint32_t n)
{
    if (n <= 1) return 0;
    return next_choice(n, 0);
}

int sim_chance(uint32_t permille)
{
    if (permille == 0) return 0;
    return (int)next_choice(0, permille);
}

uint32_t sim_choice_mark(void) { return g_pos; }
void sim_choice_rewind(uint32_t mark) { g_pos = mark; }

void sim_trace(const char* fmt, ...)
{
    if (!g_run) return;
    char buf[512];
    int n = snprintf(buf, sizeof buf, "[%d] ", t_self);
    va_list ap;
    va_start(ap, fmt);
    int m = vsnprintf(buf + n, sizeof buf - (size_t)n - 1, fmt, ap);
    va_end(ap);
    if (m < 0) m = 0;
    n += m;
    if (n > (int)sizeof buf - 2) n = (int)sizeof buf - 2;
    buf[n++] = '\n';
    hash_bytes(buf, (size_t)n);
    if (g_keep_trace && g_run->trace_len + (uint32_t)n < TRACE_CAP)
    {
        memcpy(g_run->trace + g_run->trace_len, buf, (size_t)n);
        g_run->trace_len += (uint32_t)n;
    }
}

void sim_fail(const char* cls, const char* fmt, ...)
{
    g_active = 0;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(g_run->msg, sizeof g_run->msg, fmt, ap);
    va_end(ap);
    snprintf(g_run->cls, sizeof g_run->cls, "%s", cls);
    sim_trace("VIOLATION %s: %s", cls, g_run->msg);
    finish(2);
    die(1);
}

void sim_known(const char* key)
{
    const char* p = strstr(g_allowed, key);
    const size_t n = strlen(key);
    if (!p || (p[n] && p[n] != ',') || (p != g_allowed && p[-1] != ','))
        sim_fail("finding", "finding not listed: %s", key);
    for (uint32_t i = 0; i < g_run->nknown; ++i) if (!strcmp(g_run->known[i], key)) return;
    if (g_run->nknown < 4) snprintf(g_run->known[g_run->nknown++], 64, "%s", key);
}

void sim_count(const char* name, uint64_t n)
{
    if (!g_run) return;
    for (uint32_t i = 0; i < g_run->ncounters; ++i)
        if (!strcmp(g_run->counters[i].name, name)) { g_run->counters[i].n += n; return; }
    if (g_run->ncounters < MAX_COUNTERS)
    {
        Counter& c = g_run->counters[g_run->ncounters++];
        snprintf(c.name, sizeof c.name, "%s", name);
        c.n = n;
    }
}

void sim_nontrivial(void) { g_run->nontrivial = 1; }

void sim_sample(const char* fmt, ...)
{
    if (g_run->sample_len + 2 >= sizeof g_run->sample) return;
    va_list ap;
    va_start(ap, fmt);
    int m = vsnprintf(g_run->sample + g_run->sample_len, sizeof g_run->sample - g_run->sample_len, fmt, ap);
    va_end(ap);
    if (m > 0)
    {
        uint32_t l = g_run->sample_len + (uint32_t)m;
        g_run->sample_len = l < sizeof g_run->sample - 1 ? l : (uint32_t)sizeof g_run->sample - 1;
    }
}

void sim_step(const char* what)
{
    if (++g_run->steps > 4000000ull) sim_fail("hang", "no end after %llu simulated steps (%s)", (unsigned long long)g_run->steps, what);
}

static void on_cpu_limit(int)
{
    if (g_run && g_run->status == 0)
    {
        snprintf(g_run->cls, sizeof g_run->cls, "hang");
        snprintf(g_run->msg, sizeof g_run->msg, "the run used 8 s of processor time without ending");
        g_run->status = 2;
    }
    die(0);
}

const char* __asan_default_options(void)
{
    return "detect_leaks=0:symbolize=0:exitcode=77:alloc_dealloc_mismatch=0:detect_stack_use_after_return=0:"
           "allocator_may_return_null=1:max_malloc_fill_size=65536:malloc_fill_byte=190:quarantine_size_mb=32:thread_local_quarantine_size_kb=64:"
           "handle_abort=0:malloc_context_size=12:detect_odr_violation=0:intercept_tls_get_addr=0:abort_on_error=0:"
           "check_initialization_order=0:strict_init_order=0:print_legend=0:color=never";
}
const char* __ubsan_default_options(void) { return "print_stacktrace=0:symbolize=0:exitcode=77:color=never"; }

}  // extern "C"

// ---- running ------------------------------------------------------------------------------------------------

namespace {

struct FailRec { uint64_t index; uint32_t n; uint32_t status; char cls[96]; char msg[2048]; uint64_t hash; uint32_t* choices; };

struct WorkerStats
{
    uint64_t runs, nontrivial, truncated, sim_ns, steps, rechecked, mismatched, choices;
    uint32_t ncounters;
    Counter counters[MAX_COUNTERS];
    uint32_t nknown;
    char known[4][64];
    uint64_t known_n[4];
    char samples[3][768];
    uint32_t nsamples;
    uint32_t failed;
    uint64_t fail_index;
    uint32_t fail_n;
    uint64_t fail_hash;
    char cls[96];
    char msg[2048];
    uint32_t fail_choices[MAX_CHOICES];
    uint64_t mismatch_index;
};

struct Shared
{
    volatile uint64_t min_fail;
    volatile uint64_t distinct, distinct_nontrivial;
    uint64_t table_mask;
};

Shared* g_sh;
volatile uint64_t* g_table;
int g_errfd = -1;   // memfd holding standard error of the children of this worker

void* shmap(size_t n)
{
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
    return p;
}

bool insert_hash(uint64_t h)
{
    if (h == 0) h = 1;
    uint64_t i = (h * 0x9E3779B97F4A7C15ull) & g_sh->table_mask;
    for (int probes = 0; probes < 64; ++probes)
    {
        uint64_t cur = g_table[i];
        if (cur == h) return false;
        if (cur == 0)
        {
            uint64_t expect = 0;
            if (__atomic_compare_exchange_n((uint64_t*)&g_table[i], &expect, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return true;
            if (expect == h) return false;
        }
        i = (i + 1) & g_sh->table_mask;
    }
    return false;
}

double wall()
{
    struct timespec t;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + (double)t.tv_nsec * 1e-9;
}

uint64_t mix(uint64_t a, uint64_t b)
{
    uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x632BE59BD9B4E019ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

uint64_t name_hash(const char* s)
{
    uint64_t h = 1469598103934665603ull;
    for (; *s; ++s) { h ^= (unsigned char)*s; h *= 1099511628211ull; }
    return h;
}

void classify_abnormal(RunShared* r, int st, const char* err)
{
    char cls[96] = "", msg[1500] = "";
    const char* p;
    if ((p = strstr(err, "ERROR: AddressSanitizer: ")))
    {
        p += 25;
        char kind[48];
        size_t i = 0;
        while (p[i] && p[i] != ' ' && p[i] != '\n' && i < 47) { kind[i] = p[i]; ++i; }
        kind[i] = 0;
        snprintf(cls, sizeof cls, "asan:%s", kind);
    }
    else if (strstr(err, "runtime error: ")) snprintf(cls, sizeof cls, "ubsan");
    else if (strstr(err, "Assertion '")) snprintf(cls, sizeof cls, "glibcxx-assertion");
    else if (strstr(err, "terminate called")) snprintf(cls, sizeof cls, "terminate");
    else if (strstr(err, "pure virtual")) snprintf(cls, sizeof cls, "pure-virtual");
    else if (WIFSIGNALED(st)) snprintf(cls, sizeof cls, "signal:%d", WTERMSIG(st));
    else snprintf(cls, sizeof cls, "exit:%d", WIFEXITED(st) ? WEXITSTATUS(st) : -1);
    snprintf(msg, sizeof msg, "the process died: %.1400s", err);
    snprintf(r->cls, sizeof r->cls, "%s", cls);
    snprintf(r->msg, sizeof r->msg, "%s", msg);
    r->status = 2;
}

struct Job { int explore; uint64_t seed; const uint32_t* replay; uint32_t n; int keep_trace; };

void on_look(int) {}

// The processor time a process has used if all of its threads are asleep, ~0 otherwise.
// (Simulated threads take turns and never sleep: one of them is always running or ready to.)
unsigned long long blocked_for_good(pid_t pid)
{
    char path[64];
    snprintf(path, sizeof path, "/proc/%d/task", (int)pid);
    DIR* d = opendir(path);
    if (!d) return ~0ull;
    unsigned long long total = 0;
    bool asleep = true;
    while (struct dirent* e = readdir(d))
    {
        if (e->d_name[0] == '.') continue;
        char file[128], text[512];
        snprintf(file, sizeof file, "%s/%.20s/stat", path, e->d_name);
        const int fd = open(file, O_RDONLY);
        const ssize_t n = fd < 0 ? -1 : read(fd, text, sizeof text - 1);
        if (fd >= 0) close(fd);
        if (n <= 0) { asleep = false; continue; }
        text[n] = 0;
        const char* p = strrchr(text, ')');
        char state = 0;
        unsigned long long u = 0, k = 0;
        if (!p || sscanf(p + 2, "%c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %llu %llu", &state, &u, &k) != 3 || state != 'S') asleep = false;
        total += u + k;
    }
    closedir(d);
    return asleep ? total : ~0ull;
}

void run_one(RunShared* r, const Job& j)
{
    r->status = 0; r->nchoices = 0; r->nontrivial = 0; r->trace_len = 0; r->hash = 1469598103934665603ull;
    r->sim_ns = 0; r->steps = 0; r->nknown = 0; r->cls[0] = 0; r->msg[0] = 0; r->sample[0] = 0; r->sample_len = 0;
    r->ncounters = 0;
    const pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(3); }
    if (pid == 0)
    {
        g_run = r;
        g_explore = j.explore; g_seed_state = j.seed; g_replay = j.replay; g_replay_n = j.n; g_pos = 0; g_keep_trace = j.keep_trace;
        struct sigaction sa;
        memset(&sa, 0, sizeof sa);
        sa.sa_handler = on_cpu_limit;
        sigaction(SIGVTALRM, &sa, nullptr);
        struct itimerval tv = {{0, 0}, {8, 0}};
        setitimer(ITIMER_VIRTUAL, &tv, nullptr);
        hb_reset();
        g_active = 1;
        scenario_run();
        g_active = 0;
        finish(1);
    }
    int st = 0;
    struct sigaction sa, old;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_look;        // without SA_RESTART: the wait is interrupted every now and then
    sigaction(SIGALRM, &sa, &old);
    const struct itimerval look = {{4, 0}, {4, 0}}, none = {{0, 0}, {0, 0}};
    setitimer(ITIMER_REAL, &look, nullptr);
    unsigned long long used = ~0ull;
    uint32_t same = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
    {
        const unsigned long long now = blocked_for_good(pid);
        same = now != ~0ull && now == used ? same + 1 : 0;
        used = now;
        if (same >= 2 && r->status == 0)
        {
            snprintf(r->cls, sizeof r->cls, "hang");
            snprintf(r->msg, sizeof r->msg, "all threads wait for something that never happens");
            r->status = 2;
            kill(pid, SIGKILL);
        }
    }
    setitimer(ITIMER_REAL, &none, nullptr);
    static char err[6000];
    err[0] = 0;
    if (g_errfd >= 0)
    {
        const off_t n = lseek(g_errfd, 0, SEEK_END);
        if (n > 0)
        {
            ssize_t k = pread(g_errfd, err, sizeof err - 1, 0);
            err[k > 0 ? k : 0] = 0;
            if (ftruncate(g_errfd, 0)) {}
            lseek(g_errfd, 0, SEEK_SET);
        }
    }
    if (r->status == 0) classify_abnormal(r, st, err);
}

bool failed(const RunShared* r) { return r->status == 2; }

void redirect_stderr()
{
    g_errfd = memfd_create("simerr", 0);
    dup2(g_errfd, 2);
    // children share the file offset; runs of one worker are sequential
    const int nul = open("/dev/null", O_RDWR);
    if (nul >= 0) { dup2(nul, 0); }
}

void worker(int w, int W, uint64_t seed, uint64_t nruns, double deadline, WorkerStats* ws, RunShared* r)
{
    redirect_stderr();
    const uint64_t nh = name_hash(scenario_name);
    for (uint64_t i = (uint64_t)w; i < nruns; i += (uint64_t)W)
    {
        if (i > g_sh->min_fail) break;
        if ((ws->runs & 15) == 0 && wall() > deadline) break;
        const Job j = {1, mix(seed ^ nh, i), nullptr, 0, 0};
        run_one(r, j);
        ws->runs++;
        ws->sim_ns += r->sim_ns;
        ws->steps += r->steps;
        ws->choices += r->nchoices;
        if (r->status == 3) ws->truncated++;
        if (insert_hash(r->hash)) { __atomic_fetch_add(&g_sh->distinct, 1, __ATOMIC_RELAXED); if (r->nontrivial) __atomic_fetch_add(&g_sh->distinct_nontrivial, 1, __ATOMIC_RELAXED); }
        if (r->nontrivial) ws->nontrivial++;
        for (uint32_t a = 0; a < r->ncounters; ++a)
        {
            uint32_t b = 0;
            while (b < ws->ncounters && strcmp(ws->counters[b].name, r->counters[a].name)) ++b;
            if (b == ws->ncounters) { if (b == MAX_COUNTERS) continue; ws->ncounters++; memcpy(ws->counters[b].name, r->counters[a].name, 44); ws->counters[b].n = 0; ws->counters[b].used = 0; }
            ws->counters[b].n += r->counters[a].n;
            ws->counters[b].used++;
        }
        for (uint32_t a = 0; a < r->nknown; ++a)
        {
            uint32_t b = 0;
            while (b < ws->nknown && strcmp(ws->known[b], r->known[a])) ++b;
            if (b == ws->nknown) { if (b == 4) continue; ws->nknown++; memcpy(ws->known[b], r->known[a], 64); }
            ws->known_n[b]++;
        }
        if (r->nontrivial && r->sample_len && ws->nsamples < 3 && (ws->runs % 7) == 3) memcpy(ws->samples[ws->nsamples++], r->sample, sizeof r->sample);
        if (failed(r))
        {
            ws->failed = 1; ws->fail_index = i; ws->fail_n = r->nchoices; ws->fail_hash = r->hash;
            memcpy(ws->cls, r->cls, sizeof r->cls);
            memcpy(ws->msg, r->msg, sizeof r->msg);
            memcpy(ws->fail_choices, r->choices, r->nchoices * sizeof(uint32_t));
            uint64_t cur = g_sh->min_fail;
            while (i < cur && !__atomic_compare_exchange_n((uint64_t*)&g_sh->min_fail, &cur, i, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {}
            break;
        }
        if ((i / (uint64_t)W) % 50 == 7)
        {
            const uint64_t h = r->hash;
            const uint32_t n = r->nchoices, s = r->status;
            run_one(r, j);
            ws->rechecked++;
            if (r->hash != h || r->nchoices != n || r->status != s)
            {
                if (!ws->mismatched) ws->mismatch_index = i;
                ws->mismatched++;
            }
        }
    }
    _exit(0);
}

void jstr(FILE* f, const char* s)
{
    fputc('"', f);
    for (; *s; ++s)
    {
        unsigned char c = (unsigned char)*s;
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c == '\n') fputs("\\n", f);
        else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

void jchoices(FILE* f, const uint32_t* c, uint32_t n)
{
    fputc('[', f);
    for (uint32_t i = 0; i < n; ++i) fprintf(f, i ? ",%u" : "%u", c[i]);
    fputc(']', f);
}

// ---- minimisation: shorter, then lexicographically smaller choice sequences of the same violation class -----

struct Best { uint32_t n; uint32_t c[MAX_CHOICES]; char cls[96]; char msg[2048]; uint64_t hash; };

struct Minimiser
{
    RunShared* r;
    Best* best;
    uint32_t attempts, budget;
    double deadline;
    uint32_t buf[MAX_CHOICES];

    bool over() const { return attempts >= budget || wall() > deadline; }

    bool better(const uint32_t* a, uint32_t an) const
    {
        // trailing zeros are free
        while (an && a[an - 1] == 0) --an;
        uint32_t bn = best->n;
        while (bn && best->c[bn - 1] == 0) --bn;
        if (an != bn) return an < bn;
        uint64_t sa = 0, sb = 0;
        for (uint32_t i = 0; i < an; ++i) { sa += a[i]; sb += best->c[i]; }
        if (sa != sb) return sa < sb;
        for (uint32_t i = 0; i < an; ++i) if (a[i] != best->c[i]) return a[i] < best->c[i];
        return false;
    }

    bool attempt(uint32_t n)
    {
        if (over()) return false;
        ++attempts;
        const Job j = {0, 0, buf, n, 0};
        run_one(r, j);
        if (!failed(r) || strcmp(r->cls, best->cls)) return false;
        if (!better(r->choices, r->nchoices)) return false;
        uint32_t k = r->nchoices;
        while (k && r->choices[k - 1] == 0) --k;
        best->n = k;
        memcpy(best->c, r->choices, k * sizeof(uint32_t));
        memcpy(best->msg, r->msg, sizeof best->msg);
        best->hash = r->hash;
        return true;
    }

    void go()
    {
        bool progress = true;
        while (progress && !over())
        {
            progress = false;
            for (uint32_t cut = best->n / 2; cut >= 1 && !over(); cut /= 2)   // shorter tail
                while (best->n > cut)
                {
                    memcpy(buf, best->c, best->n * sizeof(uint32_t));
                    if (!attempt(best->n - cut)) break;
                    progress = true;
                }
            for (uint32_t len = 64; len >= 1 && !over(); len = len > 4 ? len / 2 : len - 1)   // delete blocks
                for (uint32_t i = best->n; i-- > 0 && !over();)
                {
                    if (i + len > best->n) continue;
                    memcpy(buf, best->c, i * sizeof(uint32_t));
                    memcpy(buf + i, best->c + i + len, (best->n - i - len) * sizeof(uint32_t));
                    if (attempt(best->n - len)) progress = true;
                }
            for (uint32_t len = 32; len >= 1 && !over(); len /= 4)   // zero blocks
                for (uint32_t i = 0; i + len <= best->n && !over(); i += len)
                {
                    bool any = false;
                    for (uint32_t k = i; k < i + len; ++k) any = any || best->c[k];
                    if (!any) continue;
                    memcpy(buf, best->c, best->n * sizeof(uint32_t));
                    memset(buf + i, 0, len * sizeof(uint32_t));
                    if (attempt(best->n)) progress = true;
                }
            for (uint32_t i = 0; i < best->n && !over(); ++i)   // smaller values
            {
                while (i < best->n && best->c[i] > 1 && !over())
                {
                    memcpy(buf, best->c, best->n * sizeof(uint32_t));
                    buf[i] = best->c[i] / 2;
                    if (!attempt(best->n)) break;
                    progress = true;
                }
                if (i < best->n && best->c[i] > 0 && !over())
                {
                    memcpy(buf, best->c, best->n * sizeof(uint32_t));
                    buf[i] = best->c[i] - 1;
                    if (attempt(best->n)) progress = true;
                }
                if (i + 1 < best->n && best->c[i] > 0 && !over())   // lower and delete one after (list length)
                {
                    memcpy(buf, best->c, (i + 1) * sizeof(uint32_t));
                    buf[i] = best->c[i] - 1;
                    memcpy(buf + i + 1, best->c + i + 2, (best->n - i - 2) * sizeof(uint32_t));
                    if (attempt(best->n - 1)) progress = true;
                }
            }
        }
    }
};

int cmd_explore(int argc, char** argv)
{
    if (argc < 7) return 3;
    const uint64_t seed = strtoull(argv[2], nullptr, 10);
    const uint64_t nruns = strtoull(argv[3], nullptr, 10);
    const double limit = atof(argv[4]);
    const int W = atoi(argv[5]);
    const char* out = argv[6];
    g_sh = (Shared*)shmap(sizeof(Shared));
    g_sh->min_fail = ~0ull;
    g_sh->table_mask = (1ull << 23) - 1;
    g_table = (volatile uint64_t*)shmap(sizeof(uint64_t) << 23);
    WorkerStats* ws = (WorkerStats*)shmap(sizeof(WorkerStats) * (size_t)W);
    RunShared** rs = (RunShared**)calloc((size_t)W, sizeof(RunShared*));
    for (int i = 0; i < W; ++i) rs[i] = (RunShared*)shmap(sizeof(RunShared));
    const double t0 = wall();
    for (int w = 0; w < W; ++w)
    {
        const pid_t p = fork();
        if (p == 0) worker(w, W, seed, nruns, t0 + limit, &ws[w], rs[w]);
    }
    int st;
    int bad = 0;
    while (wait(&st) > 0) if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = 1;
    const double t1 = wall();
    if (sim_cov_write) sim_cov_write();
    FILE* f = fopen(out, "w");
    if (!f || bad) return 3;
    static WorkerStats tot;
    int fw = -1;
    for (int w = 0; w < W; ++w)
    {
        tot.runs += ws[w].runs; tot.nontrivial += ws[w].nontrivial; tot.truncated += ws[w].truncated;
        tot.sim_ns += ws[w].sim_ns; tot.steps += ws[w].steps; tot.rechecked += ws[w].rechecked; tot.choices += ws[w].choices;
        if (ws[w].mismatched) { tot.mismatched += ws[w].mismatched; tot.mismatch_index = ws[w].mismatch_index; }
        for (uint32_t a = 0; a < ws[w].ncounters; ++a)
        {
            uint32_t b = 0;
            while (b < tot.ncounters && strcmp(tot.counters[b].name, ws[w].counters[a].name)) ++b;
            if (b == tot.ncounters) { if (b == MAX_COUNTERS) continue; tot.ncounters++; memcpy(tot.counters[b].name, ws[w].counters[a].name, 44); }
            tot.counters[b].n += ws[w].counters[a].n;
            tot.counters[b].used += ws[w].counters[a].used;
        }
        for (uint32_t a = 0; a < ws[w].nknown; ++a)
        {
            uint32_t b = 0;
            while (b < tot.nknown && strcmp(tot.known[b], ws[w].known[a])) ++b;
            if (b == tot.nknown) { if (b == 4) continue; tot.nknown++; memcpy(tot.known[b], ws[w].known[a], 64); }
            tot.known_n[b] += ws[w].known_n[a];
        }
        if (ws[w].failed && (fw < 0 || ws[w].fail_index < ws[fw].fail_index)) fw = w;
    }
    fprintf(f, "{\"scenario\":");
    jstr(f, scenario_name);
    fprintf(f, ",\"seed\":%llu,\"runs\":%llu,\"wall\":%.3f,\"nontrivial\":%llu,\"distinct\":%llu,\"distinct_nontrivial\":%llu,\"truncated\":%llu,\"sim_s\":%.6f,\"steps\":%llu,\"choices\":%llu,\"rechecked\":%llu,\"mismatched\":%llu,\"mismatch_index\":%llu,",
            (unsigned long long)seed, (unsigned long long)tot.runs, t1 - t0, (unsigned long long)tot.nontrivial,
            (unsigned long long)g_sh->distinct, (unsigned long long)g_sh->distinct_nontrivial, (unsigned long long)tot.truncated,
            (double)tot.sim_ns * 1e-9, (unsigned long long)tot.steps, (unsigned long long)tot.choices, (unsigned long long)tot.rechecked,
            (unsigned long long)tot.mismatched, (unsigned long long)tot.mismatch_index);
    fprintf(f, "\"counters\":{");
    for (uint32_t a = 0; a < tot.ncounters; ++a) { if (a) fputc(',', f); jstr(f, tot.counters[a].name); fprintf(f, ":[%llu,%u]", (unsigned long long)tot.counters[a].n, tot.counters[a].used); }
    fprintf(f, "},\"known\":{");
    for (uint32_t a = 0; a < tot.nknown; ++a) { if (a) fputc(',', f); jstr(f, tot.known[a]); fprintf(f, ":%llu", (unsigned long long)tot.known_n[a]); }
    fprintf(f, "},\"samples\":[");
    int ns = 0;
    for (int w = 0; w < W && ns < 4; ++w) for (uint32_t k = 0; k < ws[w].nsamples && ns < 4; ++k) { if (ns++) fputc(',', f); jstr(f, ws[w].samples[k]); }
    fprintf(f, "],\"fail\":");
    if (fw < 0) fprintf(f, "null}\n");
    else
    {
        WorkerStats& x = ws[fw];
        // same seed again, in a fresh child: must fail the same way
        redirect_stderr();
        const Job j = {1, mix(seed ^ name_hash(scenario_name), x.fail_index), nullptr, 0, 0};
        run_one(rs[0], j);
        const bool same = failed(rs[0]) && !strcmp(rs[0]->cls, x.cls) && rs[0]->hash == x.fail_hash && rs[0]->nchoices == x.fail_n;
        Best* b = (Best*)calloc(1, sizeof(Best));
        b->n = x.fail_n;
        memcpy(b->c, x.fail_choices, x.fail_n * sizeof(uint32_t));
        memcpy(b->cls, x.cls, sizeof b->cls);
        memcpy(b->msg, x.msg, sizeof b->msg);
        b->hash = x.fail_hash;
        static Minimiser m;
        m.r = rs[0]; m.best = b; m.attempts = 0;
        m.budget = 6000;
        m.deadline = wall() + (argc > 7 ? atof(argv[7]) : 20.0);
        if (same) m.go();
        const Job jr = {0, 0, b->c, b->n, 1};
        run_one(rs[0], jr);
        const bool again = failed(rs[0]) && !strcmp(rs[0]->cls, b->cls);
        fprintf(f, "{\"index\":%llu,\"same\":%s,\"again\":%s,\"class\":", (unsigned long long)x.fail_index, same ? "true" : "false", again ? "true" : "false");
        jstr(f, b->cls);
        fprintf(f, ",\"message\":");
        jstr(f, again ? rs[0]->msg : x.msg);
        fprintf(f, ",\"first_message\":");
        jstr(f, x.msg);
        fprintf(f, ",\"hash\":\"%016llx\",\"attempts\":%u,\"original_choices\":%u,\"choices\":", (unsigned long long)(again ? rs[0]->hash : x.fail_hash), m.attempts, x.fail_n);
        jchoices(f, b->c, b->n);
        fprintf(f, ",\"trace\":");
        rs[0]->trace[rs[0]->trace_len < TRACE_CAP ? rs[0]->trace_len : TRACE_CAP - 1] = 0;
        jstr(f, rs[0]->trace);
        fprintf(f, "}}\n");
    }
    fclose(f);
    return 0;
}

// replay <file with choices, whitespace separated> : prints class, hash, message, trace
int cmd_replay(int argc, char** argv)
{
    if (argc < 4) return 3;
    FILE* f = fopen(argv[2], "r");
    if (!f) return 3;
    static uint32_t c[MAX_CHOICES];
    uint32_t n = 0;
    while (n < MAX_CHOICES && fscanf(f, "%u", &c[n]) == 1) ++n;
    fclose(f);
    RunShared* r = (RunShared*)shmap(sizeof(RunShared));
    FILE* o = fopen(argv[3], "w");
    if (!o) return 3;
    redirect_stderr();
    const Job j = {0, 0, c, n, 1};
    run_one(r, j);
    r->trace[r->trace_len < TRACE_CAP ? r->trace_len : TRACE_CAP - 1] = 0;
    fprintf(o, "{\"failed\":%s,\"class\":", failed(r) ? "true" : "false");
    jstr(o, r->cls);
    fprintf(o, ",\"hash\":\"%016llx\",\"message\":", (unsigned long long)r->hash);
    jstr(o, r->msg);
    fprintf(o, ",\"trace\":");
    jstr(o, r->trace);
    fprintf(o, "}\n");
    fclose(o);
    return failed(r) ? 1 : 0;
}

// one <seed> <index> : one run with its trace on standard output (for people)
int cmd_one(int argc, char** argv)
{
    if (argc < 4) return 3;
    RunShared* r = (RunShared*)shmap(sizeof(RunShared));
    const Job j = {1, mix(strtoull(argv[2], nullptr, 10) ^ name_hash(scenario_name), strtoull(argv[3], nullptr, 10)), nullptr, 0, 1};
    run_one(r, j);
    fwrite(r->trace, 1, r->trace_len, stdout);
    printf("status=%u class=%s hash=%016llx choices=%u nontrivial=%u\n%s\n", r->status, r->cls, (unsigned long long)r->hash, r->nchoices, r->nontrivial, r->msg);
    for (uint32_t i = 0; i < r->ncounters; ++i) printf("  %s = %llu\n", r->counters[i].name, (unsigned long long)r->counters[i].n);
    return 0;
}

// hashes <seed> <from> <n> : trace hash of each run (determinism across processes)
int cmd_hashes(int argc, char** argv)
{
    if (argc < 5) return 3;
    RunShared* r = (RunShared*)shmap(sizeof(RunShared));
    const uint64_t from = strtoull(argv[3], nullptr, 10), n = strtoull(argv[4], nullptr, 10);
    const int keep = dup(1);
    redirect_stderr();
    FILE* o = fdopen(keep, "w");
    for (uint64_t i = from; i < from + n; ++i)
    {
        const Job j = {1, mix(strtoull(argv[2], nullptr, 10) ^ name_hash(scenario_name), i), nullptr, 0, 0};
        run_one(r, j);
        fprintf(o, "%llu %016llx %u %u\n", (unsigned long long)i, (unsigned long long)r->hash, r->nchoices, r->status);
    }
    fclose(o);
    return 0;
}

}  // namespace

int main(int argc, char** argv)
{
    const int pers = personality(0xffffffff);
    if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC"))
    {
        if (personality((unsigned long)pers | ADDR_NO_RANDOMIZE) >= 0)
        {
            setenv("SIM_NO_REEXEC", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    // Touch every allocator size class once, so that the forked runs find the pages mapped.
    for (size_t n = 16; n <= (1u << 17); n += n < 256 ? 16 : n / 8)
    {
        void* p[4];
        for (int i = 0; i < 4; ++i) p[i] = malloc(n);
        for (int i = 0; i < 4; ++i) free(p[i]);
    }
    const char* k = getenv("SIM_KNOWN");
    if (k) g_allowed = strdup(k);
    if (argc >= 2)
    {
        if (!strcmp(argv[1], "explore")) return cmd_explore(argc, argv);
        if (!strcmp(argv[1], "replay")) return cmd_replay(argc, argv);
        if (!strcmp(argv[1], "one")) return cmd_one(argc, argv);
        if (!strcmp(argv[1], "hashes")) return cmd_hashes(argc, argv);
    }
    fprintf(stderr, "usage: explore|replay|one|hashes\n");
    return 3;
}
