// F03: refused writes are reported, acknowledged text stays, and the handle works again when the fault is gone.
#include "file_engine.h"

extern "C" { const char* scenario_name = "f03"; }

extern "C" void scenario_run(void)
{
    fe::Engine e;
    e.cfg.paths = 1;
    e.cfg.max_handles = 1 + (int)sim::choose(3);
    uint32_t* w = e.cfg.weight;
    w[fe::O_WRITE] = 12;
    w[fe::O_READLINE] = sim::choose(4);
    w[fe::O_READ] = sim::choose(3);
    w[fe::O_SETPOS] = sim::choose(2);
    w[fe::O_CLOSE] = sim::choose(2);
    w[fe::O_OPEN] = sim::choose(2);
    w[fe::O_EOF] = 1;
    w[fe::O_NEW] = 1;
    w[fe::O_COPY] = sim::choose(2);
    w[fe::O_DROP] = sim::choose(2);
    w[fe::O_MULTI] = sim::choose(2);
    w[fe::O_ERASE] = sim::chance(200) ? 1 : 0;
    e.cfg.multibyte = sim::chance(300);
    if (sim::chance(400)) e.seed_file(0, 5);
    uint32_t had_errors = 0, after_ok = 0;
    const uint32_t rounds = 1 + sim::choose(3);
    for (uint32_t r = 0; r < rounds; ++r)
    {
        static const uint32_t rates[] = {0, 0, 50, 200, 500};
        sim_disk_faults_off();
        sim_disk.short_write = sim::pick(rates);
        sim_disk.short_read = sim::pick(rates);
        sim_disk.eintr = sim::pick(rates) / 2;
        if (e.hs.empty()) e.do_new(0);
        // healthy
        for (uint32_t i = sim::choose(4); i > 0; --i) e.step();
        // the device refuses
        sim_trace("-- the device starts to fail");
        const uint32_t e0 = sim_disk_errors();
        sim_disk.max_faults = sim_disk_errors() + 1 + sim::choose(6);
        static const uint32_t err[] = {0, 60, 200, 600, 1000};
        switch (sim::choose(4))
        {
            case 0: sim_disk.enospc = sim::pick(err); break;
            case 1: sim_disk.eio_write = sim::pick(err); break;
            case 2:
            {
                // full at a chosen byte, possibly inside the next text
                int64_t used = sim_disk_size(fe::path_name(0));
                if (used < 0) used = 0;
                sim_disk.capacity = used + (int64_t)sim::choose(sim::chance(300) ? 9000 : 30);
                break;
            }
            default: sim_disk.enospc = sim::pick(err) / 2; sim_disk.eio_write = sim::pick(err) / 2; sim_disk.eio_read = sim::pick(err) / 4; break;
        }
        for (uint32_t i = 1 + sim::choose(7); i > 0; --i) e.step();
        had_errors += sim_disk_errors() - e0;
        sim_trace("-- the device works again");
        sim_disk.enospc = sim_disk.eio_write = sim_disk.eio_read = 0;
        sim_disk.capacity = -1;
        // every handle works again: nothing may be refused from here on (the engine reports any failure)
        for (size_t i = 0; i < e.hs.size(); ++i)
        {
            const uint32_t a0 = e.acked;
            if (sim::chance(700)) e.do_write(*e.hs[i]);
            if (e.acked > a0) ++after_ok;
        }
        for (uint32_t i = sim::choose(4); i > 0; --i) e.step();
    }
    sim_disk_faults_off();
    if (!e.hs.empty()) { e.do_write(*e.hs[0]); e.do_read(*e.hs[0]); }
    e.drop_all();
    if (had_errors && e.reported && after_ok) sim_nontrivial();
    sim_sample("rounds=%u device errors=%u reported=%u acknowledged=%u after recovery=%u", rounds, had_errors, e.reported, e.acked, after_ok);
}
