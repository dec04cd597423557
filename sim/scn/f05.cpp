// F05: whole-file reading, alone and while other threads append.
#include "file_engine.h"

extern "C" { const char* scenario_name = "f05"; }

namespace {

void sequential()
{
    fe::Engine e;
    e.cfg.paths = 1;
    e.cfg.max_handles = 1 + (int)sim::choose(3);
    uint32_t* w = e.cfg.weight;
    w[fe::O_READ] = 12;
    w[fe::O_WRITE] = 1 + sim::choose(5);
    w[fe::O_READLINE] = sim::choose(4);
    w[fe::O_SETPOS] = sim::choose(3);
    w[fe::O_CLOSE] = sim::choose(3);
    w[fe::O_OPEN] = sim::choose(2);
    w[fe::O_ERASE] = sim::choose(2);
    w[fe::O_NEW] = 1;
    w[fe::O_COPY] = sim::choose(2);
    w[fe::O_DROP] = sim::choose(2);
    w[fe::O_MULTI] = sim::choose(2);
    e.cfg.multibyte = sim::chance(500);
    e.cfg.big_permille = sim::chance(300) ? 400 : 50;
    e.cfg.huge = sim::chance(80);
    if (sim::chance(700)) e.seed_file(0, 8);
    static const uint32_t rates[] = {0, 0, 50, 300, 800};
    sim_disk.short_read = sim::pick(rates);
    sim_disk.short_write = sim::pick(rates) / 2;
    sim_disk.eintr = sim::pick(rates) / 2;
    sim_disk.slow = sim::chance(100) ? 30 : 0;
    if (sim::chance(500))
    {
        static const uint32_t err[] = {20, 100, 400};
        sim_disk.eio_read = sim::pick(err);
        if (sim::chance(300)) sim_disk.eio_write = sim::pick(err) / 2;
        if (sim::chance(200)) sim_disk.open_fail = sim::pick(err) / 2;
        sim_disk.max_faults = 1 + sim::choose(6);
    }
    const uint32_t ops = 3 + sim::choose(24);
    for (uint32_t i = 0; i < ops; ++i) e.step();
    sim_disk.eio_read = sim_disk.eio_write = sim_disk.open_fail = 0;
    for (size_t i = 0; i < e.hs.size(); ++i) e.do_read(*e.hs[i]);
    e.drop_all();
    if (e.reads_ok > 1) sim_nontrivial();
    sim_sample("sequential operations=%u reads=%u reported=%u size=%ld", e.ops_done, e.reads_ok, e.reported, sim_disk_size(fe::path_name(0)));
}

// Readers on other threads see a state of the file that it had during the call.
void concurrent()
{
    typedef std::string Str;
    sim_sched_config(100 + sim::choose(6) * 120);
    static const uint32_t rates[] = {0, 0, 50, 300};
    sim_disk.short_read = sim::pick(rates);
    sim_disk.short_write = sim::pick(rates);
    sim_disk.eintr = sim::pick(rates) / 2;
    Str seed = sim::chance(500) ? Str("seed\n") : Str();
    if (sim::chance(200)) seed += Str(8190 + sim::choose(6), 's');
    sim::disk_put("/sim/a.txt", seed);
    const int writers = 1 + (int)sim::choose(2), readers = 1 + (int)sim::choose(2);
    static uint32_t reads;
    reads = 0;
    for (int i = 0; i < writers; ++i)
    {
        const uint32_t n = 1 + sim::choose(8);
        sim::spawn([i, n] {
            Caitlyn::File* f = nullptr;
            sim::lib([&] { f = new Caitlyn::File("/sim/a.txt"); });
            for (uint32_t k = 0; k < n; ++k)
            {
                const Str t = Str(1 + sim::choose(40), (char)('a' + i)) + std::to_string(k);
                const sim::Outcome o = sim::lib([&] { f->WriteLine(t.c_str()); });
                if (!o.ok()) sim::check_fail("spurious-failure", "a write threw " + o.what);
            }
            sim::lib([&] { delete f; });
        });
    }
    for (int i = 0; i < readers; ++i)
    {
        const uint32_t n = 1 + sim::choose(5);
        sim::spawn([n] {
            Caitlyn::File* f = nullptr;
            sim::lib([&] { f = new Caitlyn::File("/sim/a.txt"); });
            for (uint32_t k = 0; k < n; ++k)
            {
                const Str before = sim::disk("/sim/a.txt");
                Caitlyn::String r;
                const sim::Outcome o = sim::lib([&] { r = f->Read(); });
                const Str after = sim::disk("/sim/a.txt");
                if (!o.ok()) sim::check_fail("spurious-failure", "Read threw " + o.what + " although nothing failed underneath");
                const Str got = r.str();
                if (got.size() < before.size() || got.size() > after.size() || after.compare(0, got.size(), got) != 0)
                    sim::check_fail("wrong-contents", "Read returned " + std::to_string(got.size()) + " bytes that were never the file's contents during the call (" + std::to_string(before.size()) + " to " + std::to_string(after.size()) + " bytes)");
                ++reads;
            }
            sim::lib([&] { delete f; });
        });
    }
    sim_run();
    if (reads) sim_nontrivial();
    sim_sample("concurrent writers=%d readers=%d reads=%u size=%ld", writers, readers, reads, sim_disk_size("/sim/a.txt"));
}

}  // namespace

extern "C" void scenario_run(void)
{
    if (sim::chance(200)) concurrent();
    else sequential();
}
