// A01: application start-up happens at most once and never half-way.
#include "Caitlyn/__Caitlyn/Application.h"
#include "apart.h"

extern "C" { const char* scenario_name = "a01"; }

namespace {

typedef std::string Str;
typedef Caitlyn::Application App;

const App* the_app;          // what the winning attempt returned
uint32_t winners, already, exhausted, attempts;
std::vector<Str>* given;     // the arguments of the winning attempt

Str argument()
{
    static const char* const p[] = {"", "a", "--flag", "--file=name with spaces", "\xC3\xA9t\xC3\xA9", "\xFF\xFE", "-", "x\ny"};
    if (sim::chance(150)) return Str(sim::chance(950) ? 1 + sim::choose(300) : 1000 + sim::choose(70000), (char)('a' + sim::choose(26)));
    return sim::pick(p);
}

struct Attempt
{
    std::vector<Str> args;
    int argc;
    bool bare;              // Initialise() without arguments
    uint32_t fail_at;
    bool persistent;
};

Attempt plan(bool memory)
{
    Attempt a;
    a.bare = sim::chance(200);
    const uint32_t n = sim::chance(100) ? sim::choose(sim::chance(900) ? 60 : 400) : sim::choose(6);
    if (!a.bare) for (uint32_t i = 0; i < n; ++i) a.args.push_back(argument());
    a.argc = (int)a.args.size();
    if (a.argc == 0 && sim::chance(300)) a.argc = -(int)sim::choose(3);
    a.fail_at = memory && sim::chance(600) ? 1 + sim::choose((uint32_t)a.args.size() + 4) : 0;
    a.persistent = sim::chance(300);
    return a;
}

void check_args(const char* when)
{
    std::vector<const char*> got;
    bool copied = false;
    // a caller reads its arguments like this
    sim::lib([&] {
        const std::vector<const char*>& v = the_app->GetArgs();
        sim_lib_leave();
        got = v;
        sim_lib_enter();
        copied = true;
    });
    if (!copied) sim::check_fail("spurious-failure", "GetArgs threw");
    if (got.size() != given->size()) sim::check_fail("wrong-arguments", Str(when) + ": " + std::to_string(got.size()) + " arguments are available, " + std::to_string(given->size()) + " were given");
    for (size_t i = 0; i < got.size(); ++i)
    {
        bool same = false;
        const char* const want = (*given)[i].c_str();
        sim::lib([&] { same = strcmp(got[i], want) == 0; });
        if (!same) sim::check_fail("wrong-arguments", Str(when) + ": argument " + std::to_string(i) + " is not " + sim::show((*given)[i]));
    }
}

// one attempt on memory of the caller's own, which is overwritten and freed afterwards
void attempt(const Attempt& a, bool single)
{
    std::vector<char*> mem;
    for (const Str& s : a.args) { char* p = (char*)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); mem.push_back(p); }
    const char** argv = (const char**)malloc((mem.size() + 1) * sizeof(char*));
    for (size_t i = 0; i < mem.size(); ++i) argv[i] = mem[i];
    argv[mem.size()] = nullptr;
    const App* r = nullptr;
    sim_trace("thread %d: %s with %d arguments, allocation %u fails", sim_self(), a.bare ? "Initialise()" : "Initialize", a.argc, a.fail_at);
    int argc = a.argc;
    // Memory in use after the same attempt with memory available, as if this one were not made: what a failed
    // attempt keeps for the next one is no leak.
    const auto in_use_then = [&]() -> long {
        return atol(sim::apart([&]() -> Str {
            sim::lib([&] { if (a.bare) App::Initialise(); else App::Initialize(argc, argv); });
            return std::to_string(sim_live_blocks());
        }).c_str());
    };
    const bool count_blocks = single && a.fail_at;
    const long blocks = count_blocks ? in_use_then() : 0;
    if (a.fail_at) sim_alloc_arm(a.fail_at, a.persistent ? 1 : 0);
    const sim::Outcome o = sim::lib([&] { r = a.bare ? App::Initialise() : App::Initialize(argc, argv); });
    const bool fired = a.fail_at && sim_alloc_fired() > 0;
    sim_alloc_arm(0, 0);
    ++attempts;
    sim_trace("thread %d: -> %s", sim_self(), sim::kind_name(o.kind));
    const long blocks_now = count_blocks && !o.ok() ? in_use_then() : blocks;
    argc = 77;
    for (size_t i = 0; i < mem.size(); ++i) { memset(mem[i], '#', a.args[i].size() + 1); free(mem[i]); argv[i] = nullptr; }
    free(argv);
    if (o.ok())
    {
        if (winners) sim::check_fail("initialised-twice", "a second attempt to initialise the application succeeded");
        if (!r) sim::check_fail("no-application", "initialising succeeded and returned no application");
        ++winners;
        the_app = r;
        *given = a.args;
        check_args("right after initialising");
    }
    else if (o.kind == sim::BAD_ALLOC && fired)
    {
        ++exhausted;
        if (single)
        {
            if (blocks_now > blocks) sim::check_fail("memory-leak", std::to_string(blocks_now - blocks) + " heap blocks of a failed attempt are never freed");
        }
    }
    else if (o.kind == sim::RUNTIME || o.kind == sim::LOGIC)
    {
        ++already;
        if (single && !winners) sim::check_fail("refused-before-initialised", "an attempt was refused although none had succeeded: " + o.what);
    }
    else sim::check_fail("spurious-failure", Str("an attempt ended with ") + sim::kind_name(o.kind) + " " + o.what);
    if (winners && the_app && single) check_args("after another attempt");
}

}  // namespace

extern "C" void scenario_run(void)
{
    std::vector<Str> g;
    given = &g;
    the_app = nullptr;
    winners = already = exhausted = attempts = 0;
    const bool memory = sim::chance(600);
    const uint32_t before = sim::choose(3);
    for (uint32_t i = 0; i < before; ++i)
    {
        Attempt a = plan(memory);
        if (memory && sim::chance(500) && !a.fail_at) a.fail_at = 1;
        attempt(a, true);
    }
    const uint32_t threads = sim::chance(sim_concurrency_build() ? 950 : 400) ? 2 + sim::choose(3) : 0;
    if (threads)
    {
        static const uint32_t sw[] = {50, 300, 1000};
        static const uint32_t gaps[] = {0, 5, 20, 100};
        sim_sched_config(sim::pick(sw));
        sim_preempt_config(sim::pick(gaps));
        std::vector<std::vector<Attempt> > plans(threads);
        for (uint32_t t = 0; t < threads; ++t)
        {
            const uint32_t n = 1 + sim::choose(3);
            for (uint32_t i = 0; i < n; ++i) plans[t].push_back(plan(memory));
        }
        const uint32_t w0 = winners;
        for (uint32_t t = 0; t < threads; ++t)
        {
            const std::vector<Attempt>* p = &plans[t];
            sim::spawn([p] { for (const Attempt& a : *p) attempt(a, false); });
        }
        sim_run();
        if (!winners && already && !exhausted) sim::check_fail("nobody-initialised", "every attempt was told that the application is already initialised");
        if (!winners && !exhausted) sim::check_fail("nobody-initialised", "no attempt succeeded");
        if (w0 && winners != w0) sim::check_fail("initialised-twice", "a second attempt to initialise the application succeeded");
    }
    if (winners) check_args("after all threads");
    const uint32_t after = 1 + sim::choose(2);
    for (uint32_t i = 0; i < after; ++i)
    {
        Attempt a = plan(false);
        const bool first = winners == 0;
        attempt(a, true);
        if (first && !winners) sim::check_fail("never-initialised", "with memory available and nobody initialised, an attempt did not succeed");
    }
    if (winners != 1) sim::check_fail("never-initialised", std::to_string(winners) + " attempts succeeded");
    check_args("at the end");
    const bool ok = the_app->GetSystemName() && the_app->GetCompilerInfo() && the_app->GetCaitlynInfo();
    if (!ok) sim::check_fail("no-information", "the application has no system, compiler or library name");
    if (attempts > 1) sim_nontrivial();
    sim_count("probe:attempts refused", already);
    sim_count("probe:attempts that ran out of memory", exhausted);
    sim_sample("%u threads, %u attempts, %u refused, %u ran out of memory, %zu arguments", threads, attempts, already, exhausted, g.size());
}
