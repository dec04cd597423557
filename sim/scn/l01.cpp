// L01: the library can be used from the construction of the first static object to the end of the process.
#include "l01.h"

extern "C" { const char* scenario_name = "l01"; }

// where the build puts the initialisation of the two source files
extern "C" {
typedef void (*InitFn)(int, char**, char**);
extern InitFn __start_sim_init_a[], __stop_sim_init_a[], __start_sim_init_b[], __stop_sim_init_b[];
}

TEST(FileA, Counts) { life::test_ran(0); }

static life::Resident resident(0, life::unit_here);

namespace life {

using calls::Plan;
using calls::Player;
using calls::Str;

enum Kind { STATIC_A, STATIC_B, LOCAL_STATIC, HANDLER, THREAD_LOCAL, DETACHED, WORKER, AT_END };
static const char* const kind_names[] = {"static object of file A", "static object of file B", "function-local static", "exit handler", "thread-local of the main thread", "detached thread", "thread-local of a worker", "made while the process exits"};

struct Entity
{
    Kind kind;
    Plan plan;
    size_t first, second;     // calls done when made, and before the end
    Str alone, disk;
    Player y;
    const Unit* u;
    bool alive;
    std::vector<Str> said;
};

enum { ENTITIES = 7 };

// no object of the harness's may need initialisation that has not happened yet
static Entity* ents;
static calls::Recipe* given;
static bool quiet;            // the process in which the expected results are found
static bool exiting;
static int ran[2];
static uint32_t done_calls, spoilt;
const calls::Shared* shared_value = nullptr;

void made_shared(const calls::Shared* s) { shared_value = s; }
void test_ran(int which) { ++ran[which]; }

static void say(Entity& e)
{
    if (e.kind == DETACHED || !sim::chance(400)) return;
    const int id = (int)(&e - ents);
    const int stream = (int)sim::choose(3);
    const Str t = "@" + std::to_string(id) + "." + std::to_string(e.said.size()) + ";";
    e.said.push_back(Str(stream == 0 ? "o" : "e") + t);
    e.u->say(stream, t);
}

static void on(Entity& e, size_t upto, const char* when)
{
    sim_trace("%s %d, %s", kind_names[e.kind], (int)(&e - ents), when);
    const size_t was = e.y.next;
    if (!e.y.begun) e.u->begin(e.y);
    e.u->play(e.y, upto);
    done_calls += (uint32_t)(e.y.next - was);
    say(e);
}

static void over(Entity& e)
{
    on(e, e.plan.calls.size(), "last calls");
    e.u->end(e.y);
    e.alive = false;
}

static void over_(void* p);

static void make(Entity& e, const Unit& u)
{
    e.u = &u;
    e.alive = true;
    u.share(*given);
    on(e, e.first, "made");
}

static void over_(void* p)
{
    Entity& e = *static_cast<Entity*>(p);
    over(e);
    // what is first made now is also destroyed before the process ends
    if (exiting && sim_self() == 1)
        for (int k = 2; k < ENTITIES; ++k)
            if (ents[k].kind == AT_END && !ents[k].u && sim::chance(600))
            {
                make(ents[k], unit_here);
                sim_at_exit(over_, &ents[k]);
                break;
            }
}

void constructed(int who, const Unit& u)
{
    if (quiet) return;
    sim_lib_leave();
    make(ents[who], u);
    sim_lib_enter();
}

void destroyed(int who)
{
    if (quiet) return;
    sim_lib_leave();
    over(ents[who]);
    sim_lib_enter();
}

static void initialise(bool b)
{
    sim_trace("file %c is initialised", b ? 'B' : 'A');
    InitFn* const from = b ? __start_sim_init_b : __start_sim_init_a;
    InitFn* const to = b ? __stop_sim_init_b : __stop_sim_init_a;
    for (InitFn* f = from; f != to; ++f)
        if (*f) { sim_lib_enter(); (*f)(0, nullptr, nullptr); sim_lib_leave(); }
}

// a call on values that nothing else uses, during which memory runs out
static void spoil()
{
    Plan p = calls::plan(90);
    p.calls.resize(1);
    if (p.calls[0].kind >= 35 && p.calls[0].kind <= 37) p.calls[0].kind = 5;
    Player y(&p);
    calls::shared = shared_value;
    calls::begin(y);
    sim_alloc_arm(1 + sim::choose(12), 0);
    calls::play(y, 1);
    const uint32_t fired = sim_alloc_fired();
    sim_alloc_arm(0, 0);
    calls::end(y);
    if (fired) { ++spoilt; sim_count("probe:calls during which memory ran out", fired); sim_trace("memory ran out: %s", y.all.c_str()); }
}

static void detached(Entity& e)
{
    on(e, e.first, "made");
    for (size_t k = e.first; k <= e.plan.calls.size(); ++k) { on(e, k, "goes on"); sim_yield("between calls"); }
    // threads that nobody waits for go on as long as the process lives
    Plan more = e.plan;
    more.id += 20;
    for (int k = 0; k < 3; ++k)
    {
        Player again(&more);
        calls::begin(again);
        calls::play(again, e.plan.calls.size());
        calls::end(again);
        sim_yield("once more");
    }
    over(e);
}

static void worker(Entity& e)
{
    make(e, unit_here);
    sim_at_thread_exit(over_, &e);
    on(e, e.second, "in the thread");
}

static void process()
{
    const bool b_first = sim::chance(500);
    initialise(b_first);
    initialise(!b_first);

    // main
    if (sim::chance(300))
    {
        int status = -1;
        const sim::Outcome o = sim::lib([&] { status = Caitlyn::Test::TestRegistry::Instance().RunAll(); });
        if (!o.ok() || status != 0 || ran[0] != 1 || ran[1] != 1)
            sim::check_fail("tests-lost", "two source files register a test each before main; RunAll gave " + Str(sim::kind_name(o.kind)) + " " + std::to_string(status) + " and ran them " + std::to_string(ran[0]) + " and " + std::to_string(ran[1]) + " times");
        sim_count("probe:tests registered in two source files", 1);
    }
    const uint32_t events = sim::choose(9);
    for (uint32_t n = 0; n < events; ++n)
    {
        Entity& e = ents[sim::choose(ENTITIES)];
        if (sim::chance(150)) { spoil(); continue; }
        if (e.u)
        {
            if (e.kind != DETACHED && e.kind != WORKER && e.alive && e.y.next < e.second) on(e, e.y.next + 1, "in main");
            continue;
        }
        Entity* p = &e;
        switch (e.kind)
        {
            case LOCAL_STATIC: make(e, unit_here); sim_at_exit(over_, &e); break;
            case HANDLER: e.u = &unit_here; e.alive = true; sim_at_exit(over_, &e); break;
            case THREAD_LOCAL: make(e, unit_here); sim_at_thread_exit(over_, &e); break;
            case DETACHED: e.u = &unit_here; e.alive = true; sim::spawn([p] { detached(*p); }); sim_yield("spawned"); break;
            case WORKER: e.u = &unit_here; e.alive = true; sim::spawn([p] { worker(*p); }); sim_yield("spawned"); break;
            default: break;
        }
        sim_count((Str("probe:") + kind_names[e.kind]).c_str(), 1);
    }
    if (sim::chance(200)) spoil();

    sim_trace("exit");
    exiting = true;
    const int n = sim_exit_run();
    sim_count("probe:destructors and exit handlers run", (uint64_t)n);
    // as the C++ library does at the very end
    sim::lib([&] { std::cout.flush(); std::clog.flush(); });
    sim_trace("the process has ended");
    sim_process_end();
}

static Str start_of(const Str& s, size_t n) { return s.substr(0, n); }

}  // namespace life

extern "C" void scenario_run(void)
{
    using namespace life;
    calls::Recipe r = calls::recipe();
    given = &r;
    std::vector<Entity> box(ENTITIES);
    ents = box.data();
    static const Kind later[] = {LOCAL_STATIC, HANDLER, THREAD_LOCAL, DETACHED, WORKER, AT_END};
    for (int k = 0; k < ENTITIES; ++k)
    {
        Entity& e = ents[k];
        e.kind = k == 0 ? STATIC_A : k == 1 ? STATIC_B : sim::pick(later);
        e.plan = calls::plan(k);
        e.second = sim::choose((uint32_t)e.plan.calls.size() + 1);
        e.first = sim::choose((uint32_t)e.second + 1);
        e.y = Player(&e.plan);
        e.u = nullptr;
        e.alive = false;
    }
    // the same calls in the middle of the life of another process
    Str t = sim::apart([&] {
        quiet = true;
        initialise(false);
        initialise(true);
        unit_here.share(r);
        Str all;
        for (int k = 0; k < ENTITIES; ++k)
        {
            all += calls::labelled(ents[k].plan) + '\x01';
            all += sim::disk(calls::file_name(ents[k].plan.id).c_str()) + '\x02';
        }
        return all;
    });
    for (int k = 0; k < ENTITIES; ++k)
    {
        const size_t at = t.find('\x01'), to = t.find('\x02');
        if (at == Str::npos || to == Str::npos || to < at) sim::check_fail("died-in-main", "the calls do not come to an end in the middle of the process's life");
        ents[k].alone = t.substr(0, at);
        ents[k].disk = t.substr(at + 1, to - at - 1);
        t.erase(0, to + 1);
    }
    static const uint32_t sw[] = {50, 300, 1000};
    static const uint32_t gaps[] = {0, 10, 100, 1000};
    sim_sched_config(sim::pick(sw));
    sim_preempt_config(sim::pick(gaps));
    if (sim::chance(300)) { sim_disk.short_read = 300; sim_disk.short_write = 300; sim_disk.eintr = 200; sim_disk.max_faults = 1000; sim_console.out_short = 300; }
    sim::spawn([] { process(); });
    sim_run();

    uint32_t used = 0;
    for (int k = 0; k < ENTITIES; ++k)
    {
        Entity& e = ents[k];
        if (!e.u) continue;
        ++used;
        const Str got = e.y.all, want = e.y.ended ? e.alone : start_of(e.alone, got.size());
        if (got != want)
        {
            size_t at = 0;
            while (at < got.size() && at < want.size() && got[at] == want[at]) ++at;
            at = at ? got.rfind('\n', at - 1) : Str::npos;
            at = at == Str::npos ? 0 : at + 1;
            sim::check_fail("differs-from-main", Str(kind_names[e.kind]) + ": a call gave " + got.substr(at, got.find('\n', at) - at) + " and in the middle of the process's life " + want.substr(at, want.find('\n', at) - at));
        }
        if (e.kind != DETACHED && e.kind != WORKER && !e.y.ended) sim::check_fail("harness", Str(kind_names[e.kind]) + " was not destroyed");
        if (e.y.ended)
        {
            const Str d = sim::disk(calls::file_name(e.plan.id).c_str());
            if (d != e.disk) sim::check_fail("file-differs", Str(kind_names[e.kind]) + ": its file holds " + sim::show(d, 200) + " and not " + sim::show(e.disk, 200));
        }
    }
    // everything said has reached the console, each object's in order
    const Str out = sim::delivered(1), err = sim::delivered(2);
    uint32_t said = 0;
    for (int k = 0; k < ENTITIES; ++k)
    {
        size_t po = 0, pe = 0;
        if (ents[k].kind == WORKER && !ents[k].y.ended) continue;
        for (const Str& t : ents[k].said)
        {
            const Str x = t.substr(1);
            size_t& at = t[0] == 'o' ? po : pe;
            const Str& where = t[0] == 'o' ? out : err;
            at = where.find(x, at);
            if (at == Str::npos) sim::check_fail("console-text-lost", Str(kind_names[ents[k].kind]) + " wrote " + x + " to the console, which did not get there by the end of the process");
            at += x.size();
            ++said;
        }
    }
    sim_count("probe:calls compared with calls in main", done_calls);
    sim_count("probe:console lines", said);
    if (done_calls > 3) sim_nontrivial();
    sim_sample("%u objects, handlers and threads, %u calls, %u console lines, %u calls without memory", used, done_calls, said, spoilt);
}
