// C01: threads that use values of their own, or only read shared ones, get what they would get alone.
#include "calls.h"

extern "C" { const char* scenario_name = "c01"; }

using namespace calls;

namespace {

Str line(const Str& s, size_t n)
{
    size_t at = 0;
    while (n-- && at != Str::npos) { at = s.find('\n', at); if (at != Str::npos) ++at; }
    return at == Str::npos ? Str() : s.substr(at, s.find('\n', at) - at);
}

}  // namespace

extern "C" void scenario_run(void)
{
    const Recipe r = recipe();
    const Shared& sh = *make_shared(r);
    shared = &sh;
    const uint32_t threads = 2 + sim::choose(2);
    std::vector<Plan> plans;
    for (uint32_t k = 0; k < threads; ++k) plans.push_back(plan((int)k));
    // the threads often do the same things at the same time
    if (sim::chance(400)) for (uint32_t k = 1; k < threads; ++k) plans[k].calls = plans[0].calls;

    std::vector<Str> alone, together(threads);
    const Str before = sim::apart([&] { return everything(sh); });   // not here: looking at a value may prepare something in it
    for (uint32_t k = 0; k < threads; ++k) alone.push_back(sim::apart([&] { return labelled(plans[k]); }));

    static const uint32_t sw[] = {50, 300, 1000};
    static const uint32_t gaps[] = {10, 100, 1000};
    sim_sched_config(sim::pick(sw));
    sim_preempt_config(sim::pick(gaps));
    for (uint32_t k = 0; k < threads; ++k)
    {
        Str* out = &together[k];
        const Plan* p = &plans[k];
        sim::spawn([out, p] { *out = labelled(*p); });
    }
    sim_run();
    uint32_t calls = 0, refused = 0;
    for (uint32_t k = 0; k < threads; ++k)
    {
        for (size_t n = 0; n <= plans[k].calls.size(); ++n)
        {
            const Str a = line(alone[k], n), b = line(together[k], n);
            if (a != b) sim::check_fail("differs-from-alone", "call " + std::to_string(n) + " of thread " + std::to_string(k) + " gave " + b + " beside other threads and " + a + " alone");
            if (b.find("CHANGED ") != Str::npos && b.find("ok CHANGED") != Str::npos) sim::check_fail("copy-not-apart", "changing a copy changed the value it was copied from, or the other way round: " + b);
            if (n) { ++calls; if (a.find(" ok ") == Str::npos) ++refused; }
        }
        if (alone[k] != together[k]) sim::check_fail("differs-from-alone", "thread " + std::to_string(k) + " gave other results than alone");
    }
    if (everything(sh) != before) sim::check_fail("shared-value-changed", "values that were only read changed: " + everything(sh) + " instead of " + before);
    sim_count("probe:calls compared with the call alone", calls);
    sim_count("probe:calls that threw in both", refused);
    if (calls > 2) sim_nontrivial();
    sim_sample("%u threads, %u calls, %u threw", threads, calls, refused);
}
