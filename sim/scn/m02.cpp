// M02: weak pointers never dangle and do not keep objects alive.
#include "ptr.h"

extern "C" { const char* scenario_name = "m02"; }

namespace {

uint32_t steps, objects, promotions, refusals;

void body()
{
    ptr::start(sim::chance(500));
    ptr::World* w = new ptr::World;
    if (sim::chance(800)) w->populate();
    const uint32_t n = 2 + sim::choose(24);
    const uint32_t weaks = 300 + sim::choose(3) * 200;
    for (uint32_t i = 0; i < n; ++i)
    {
        if (sim::chance(6)) w->crowd();
        else if (sim::chance(weaks)) w->weak_step();
        else w->shared_step();
    }
    w->finish();
    steps = w->steps; objects = (uint32_t)w->m.size(); promotions = w->promotions; refusals = w->refusals;
    sim::lib([&] { delete w; });
    sim_count("probe:promotions", promotions);
    sim_count("probe:promotions refused", refusals);
}

}  // namespace

extern "C" void scenario_run(void)
{
    if (sim_concurrency_build())
    {
        const ptr::ThreadStats t = ptr::run_threads(true);
        sim_count("probe:promotions", t.promotions);
        sim_count("probe:promotions refused", t.refusals);
        if (t.promotions + t.refusals > 0) sim_nontrivial();
        sim_sample("%u threads, %u objects, %u promotions, %u refused", t.threads, t.objects, t.promotions, t.refusals);
        return;
    }
    sim::leakcheck(body);
    if (promotions + refusals > 0) sim_nontrivial();
    sim_sample("%u steps, %u objects, %u promotions, %u refused", steps, objects, promotions, refusals);
}
