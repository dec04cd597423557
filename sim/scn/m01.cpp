// M01: owning pointers destroy their object exactly once, after its last owner.
#include "ptr.h"

extern "C" { const char* scenario_name = "m01"; }

namespace {

uint32_t steps, failures, objects;

void body()
{
    ptr::start(false);
    ptr::World* w = new ptr::World;
    w->memory = sim::chance(400);
    if (sim::chance(800)) w->populate();
    const uint32_t n = 2 + sim::choose(24);
    const uint32_t uniques = sim::choose(4) * 200, weaks = sim::chance(300) ? 200 : 0, raws = sim::chance(300) ? 300 : 0;
    for (uint32_t i = 0; i < n; ++i)
    {
        if (sim::chance(6)) w->crowd();
        else if (sim::chance(uniques)) w->unique_step();
        else if (weaks && sim::chance(weaks)) w->weak_step();
        else if (raws && sim::chance(raws)) w->raw_step();
        else w->shared_step();
    }
    w->finish();
    steps = w->steps; failures = w->failures; objects = (uint32_t)w->m.size();
    sim::lib([&] { delete w; });
    sim_count("probe:objects", objects);
}

}  // namespace

extern "C" void scenario_run(void)
{
    if (sim_concurrency_build())
    {
        const ptr::ThreadStats t = ptr::run_threads(sim::chance(200));
        sim_count("probe:objects", t.objects);
        if (t.drops > 0) sim_nontrivial();
        sim_sample("%u threads, %u objects, %u drops", t.threads, t.objects, t.drops);
        return;
    }
    sim::leakcheck(body);
    if (steps > 3 && objects > 1) sim_nontrivial();
    sim_sample("%u steps, %u objects, %u failed constructions", steps, objects, failures);
}
