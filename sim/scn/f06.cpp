// F06: erasing.
#include "file_engine.h"

extern "C" { const char* scenario_name = "f06"; }

extern "C" void scenario_run(void)
{
    fe::Engine e;
    e.cfg.paths = 1 + (int)sim::choose(2);
    e.cfg.max_handles = 1 + (int)sim::choose(2);
    uint32_t* w = e.cfg.weight;
    w[fe::O_ERASE] = 6;
    w[fe::O_WRITE] = 5;
    w[fe::O_READLINE] = 1 + sim::choose(4);
    w[fe::O_READ] = sim::choose(4);
    w[fe::O_SETPOS] = sim::choose(2);
    w[fe::O_CLOSE] = sim::choose(3);
    w[fe::O_OPEN] = sim::choose(2);
    w[fe::O_EOF] = 1;
    w[fe::O_NEW] = sim::choose(2);
    w[fe::O_COPY] = sim::choose(2);
    w[fe::O_DROP] = sim::choose(2);
    w[fe::O_MULTI] = sim::choose(3);
    e.cfg.multibyte = sim::chance(300);
    if (sim::chance(600)) e.seed_file(0, 6);
    const uint32_t gens = 1 + sim::choose(3);
    uint32_t erases = 0, crashes = 0;
    for (uint32_t g = 0; g < gens; ++g)
    {
        static const uint32_t rates[] = {0, 0, 50, 300};
        sim_disk_faults_off();
        sim_disk.short_read = sim::pick(rates);
        sim_disk.short_write = sim::pick(rates);
        sim_disk.eintr = sim::pick(rates) / 2;
        static const uint32_t crash_rates[] = {0, 0, 20, 100};
        sim_disk.crash = sim::pick(crash_rates);
        if (sim::chance(500))
        {
            static const uint32_t err[] = {30, 150, 500};
            sim_disk.open_fail = sim::pick(err);
            if (sim::chance(300)) sim_disk.close_fail = sim::pick(err);
            if (sim::chance(300)) sim_disk.eio_write = sim::pick(err) / 2;
            if (sim::chance(300)) sim_disk.eio_read = sim::pick(err) / 2;
            sim_disk.max_faults = sim_disk_errors() + 1 + sim::choose(5);
        }
        const uint32_t ops = 2 + sim::choose(16);
        sim::spawn([&e, ops, &erases] {
            for (uint32_t i = 0; i < ops; ++i) e.step();
            sim_disk.open_fail = sim_disk.close_fail = sim_disk.eio_write = sim_disk.eio_read = 0;
            sim_trace("-- the faults stop");
            for (size_t i = 0; i < e.hs.size(); ++i)
            {
                fe::Handle& h = *e.hs[i];
                if (sim::chance(700)) { e.do_erase(h); ++erases; }
                if (sim::chance(500)) e.do_write(h);
                if (sim::chance(500)) e.do_readline(h, '\n');
                if (sim::chance(500)) e.do_read(h);
            }
        });
        const int crashed = sim_run();
        if (crashed) { ++crashes; sim_kill_threads(); if (e.inflight_any && e.inflight_erase) sim_count("probe:crash_inside_erase", 1); }
        if (crashed || sim::chance(300)) { e.judge_crash(); sim_process_restart(); }
    }
    sim_disk_faults_off();
    e.drop_all();
    if (erases || crashes) sim_nontrivial();
    sim_sample("generations=%u crashes=%u erases after faults=%u reported=%u acknowledged=%u", gens, crashes, erases, e.reported, e.acked);
}
