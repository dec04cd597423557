// F01: acknowledged writes survive a process crash.
#include "file_engine.h"

extern "C" { const char* scenario_name = "f01"; }

extern "C" void scenario_run(void)
{
    fe::Engine e;
    e.cfg.paths = 1 + (int)sim::choose(2);
    e.cfg.max_handles = 1 + (int)sim::choose(3);
    uint32_t* w = e.cfg.weight;
    w[fe::O_WRITE] = 12;
    w[fe::O_READLINE] = sim::choose(4);
    w[fe::O_READ] = sim::choose(3);
    w[fe::O_SETPOS] = sim::choose(2);
    w[fe::O_CLOSE] = sim::choose(3);
    w[fe::O_OPEN] = sim::choose(2);
    w[fe::O_ERASE] = sim::choose(2);
    w[fe::O_NEW] = 1;
    w[fe::O_DROP] = sim::choose(2);
    w[fe::O_COPY] = sim::choose(2);
    w[fe::O_MULTI] = sim::choose(2);
    e.cfg.multibyte = sim::chance(500);
    e.cfg.huge = sim::chance(50);
    e.cfg.raw = sim::chance(200);
    if (sim::chance(500)) e.seed_file(0, 5);
    if (e.cfg.paths > 1 && sim::chance(300)) e.seed_file(1, 5);
    const uint32_t gens = 1 + sim::choose(4);
    uint32_t crashes = 0;
    for (uint32_t g = 0; g < gens; ++g)
    {
        static const uint32_t crash_rates[] = {0, 8, 30, 80, 200};
        static const uint32_t rates[] = {0, 0, 50, 200, 500};
        sim_disk.crash = sim::pick(crash_rates);
        sim_disk.short_write = sim::pick(rates);
        sim_disk.short_read = sim::pick(rates);
        sim_disk.eintr = sim::pick(rates) / 2;
        sim_disk.slow = sim::chance(200) ? 30 : 0;
        const uint32_t ops = sim::chance(10) ? 60 + sim::choose(250) : 1 + sim::choose(14);
        sim_trace("generation %u: %u operations", g, ops);
        sim::spawn([&e, ops] {
            for (uint32_t i = 0; i < ops; ++i) e.step();
            if (sim::chance(500)) e.drop_all();
        });
        const int crashed = sim_run();
        if (crashed)
        {
            ++crashes;
            sim_kill_threads();
            if (e.inflight_any) sim_count("probe:crash_inside_call", 1);
            if (e.inflight_any && !e.inflight.empty()) sim_count("probe:crash_inside_write", 1);
        }
        if (crashed || sim::chance(500))
        {
            if (!crashed) { sim_trace("process exits without closing"); sim_count("fault:exit_without_close", 1); }
            e.judge_crash();
            sim_process_restart();
        }
    }
    sim_disk_faults_off();
    e.drop_all();
    if (e.acked > 0 && (crashes > 0 || gens > 1)) sim_nontrivial();
    sim_sample("generations=%u crashes=%u acknowledged=%u bytes=%ld", gens, crashes, e.acked, sim_disk_size(fe::path_name(0)));
}
