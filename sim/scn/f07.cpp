// F07: descriptors and memory of file handles, under failing opens, closes and exhausted memory.
#include "file_engine.h"

extern "C" { const char* scenario_name = "f07"; }

namespace {

uint32_t done, reported;

void body()
{
    fe::Engine e;
    e.cfg.paths = 1 + (int)sim::choose(3);
    e.cfg.max_handles = 1 + (int)sim::choose(5);
    uint32_t* w = e.cfg.weight;
    w[fe::O_OPEN] = 5;
    w[fe::O_CLOSE] = 5;
    w[fe::O_NEW] = 4;
    w[fe::O_COPY] = 4;
    w[fe::O_DROP] = 4;
    w[fe::O_ERASE] = 3;
    w[fe::O_WRITE] = 3;
    w[fe::O_READ] = 2;
    w[fe::O_READLINE] = 2;
    w[fe::O_SETPOS] = sim::choose(2);
    e.cfg.multibyte = sim::chance(200);
    e.cfg.alloc_faults = sim::chance(600);
    e.cfg.big_permille = 30;
    for (int p = 0; p < e.cfg.paths; ++p) { sim_disk_remove(fe::path_name(p)); if (sim::chance(500)) e.seed_file(p, 3); }
    sim_disk_faults_off();
    if (sim::chance(700))
    {
        static const uint32_t err[] = {30, 150, 500};
        if (sim::chance(700)) sim_disk.open_fail = sim::pick(err);
        if (sim::chance(500)) sim_disk.close_fail = sim::pick(err);
        if (sim::chance(300)) sim_disk.eio_write = sim::pick(err) / 2;
        if (sim::chance(300)) sim_disk.eio_read = sim::pick(err) / 2;
        sim_disk.max_faults = sim_disk_errors() + 1 + sim::choose(12);
    }
    const uint32_t ops = 3 + sim::choose(24);
    for (uint32_t i = 0; i < ops; ++i)
    {
        e.step();
        if (sim::chance(30))
        {
            // a handle without a name cannot be opened and holds nothing
            const int fds = sim_open_fds();
            Caitlyn::File* f = nullptr;
            const sim::Outcome o = sim::lib([&] { f = new Caitlyn::File(Caitlyn::String("")); });
            if (o.ok()) sim::lib([&] { delete f; });
            else if (o.kind != sim::IOS) sim_fail("wrong-exception", "opening a handle without a name threw %s %s", sim::kind_name(o.kind), o.what);
            if (sim_open_fds() != fds) sim_fail("descriptor-leak", "a handle without a name left a descriptor open");
        }
    }
    sim_disk_faults_off();
    e.cfg.alloc_faults = false;
    // what failed before does not stop the handles from working now
    for (size_t i = 0; i < e.hs.size(); ++i) if (sim::chance(500)) { e.do_write(*e.hs[i]); e.do_read(*e.hs[i]); }
    e.drop_all();
    if (sim_open_fds()) sim_fail("descriptor-leak", "%d descriptors stay open after every handle is gone", sim_open_fds());
    done += e.ops_done;
    reported += e.reported;
}

}  // namespace

extern "C" void scenario_run(void)
{
    done = reported = 0;
    sim::leakcheck(body);
    if (done > 5) sim_nontrivial();
    sim_sample("operations=%u reported failures=%u", done, reported);
}
