// L02: results do not depend on the locale that the program has set.
#include "calls.h"
#include "cons.h"

extern "C" { const char* scenario_name = "l02"; }

using namespace calls;

namespace {

Str line(const Str& s, size_t n)
{
    size_t at = 0;
    while (n-- && at != Str::npos) { at = s.find('\n', at); if (at != Str::npos) ++at; }
    return at == Str::npos ? Str() : s.substr(at, s.find('\n', at) - at);
}

Str life(const Recipe& r, const std::vector<Plan>& plans, bool locales)
{
    if (locales && sim::chance(300)) sim_locale(1 + (int)sim::choose(5));
    shared = make_shared(r);
    Str all;
    for (const Plan& p : plans)
    {
        Player y(&p);
        begin(y);
        for (size_t k = 0; k <= p.calls.size(); ++k)
        {
            if (locales && sim::chance(300)) sim_locale((int)sim::choose(6));
            play(y, k);
        }
        end(y);
        all += y.all;
    }
    // what goes to the console
    sim::lib([&] { Caitlyn::OutputStream::Write(String("{} {:.2f}"), 1234567, 4321.125); Caitlyn::OutputStream::WriteLine(shared->i[0]); });
    sim::lib([&] { Caitlyn::ErrorStream::WriteLine(String("{}|{}"), -1234567, 0.5f); Caitlyn::LogStream::WriteLine(shared->f[0]); });
    all += sim::show(sim::delivered(1), 2000) + "\n" + sim::show(sim::delivered(2), 2000) + "\n";
    for (const Plan& p : plans) all += sim::show(sim::disk(file_name(p.id).c_str()), 2000) + "\n";
    return all;
}

}  // namespace

extern "C" void scenario_run(void)
{
    const Recipe r = recipe();
    std::vector<Plan> plans;
    const uint32_t n = 1 + sim::choose(2);
    for (uint32_t k = 0; k < n; ++k) plans.push_back(plan((int)k));
    const Str alone = sim::apart([&] { return life(r, plans, false); });
    const Str here = life(r, plans, true);
    size_t calls = 0;
    for (const Plan& p : plans) calls += p.calls.size();
    if (alone != here)
        for (size_t k = 0;; ++k)
        {
            const Str a = line(alone, k), b = line(here, k);
            if (a != b || a.empty()) sim::check_fail("depends-on-locale", "line " + std::to_string(k) + " is " + b + " under the locale the program set and " + a + " without");
        }
    sim_count("probe:calls compared with classic locale", calls);
    if (calls > 1) sim_nontrivial();
    sim_sample("%u plans, %u calls", n, (unsigned)calls);
}
