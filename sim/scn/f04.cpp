// F04: line reading.
#include "file_engine.h"

#include <functional>

extern "C" { const char* scenario_name = "f04"; }

namespace {

// Lines behind the first gigabytes of a file: positions that do not fit in an int.
void far_lines()
{
    typedef std::string Str;
    static const char* const path = "/sim/far.log";
    static const uint64_t at[] = {2147483640ull, 2147483648ull, 4294967290ull, 4294967296ull, 6000000000ull, 8589934592ull};
    uint64_t base = sim::pick(at);
    Str text;
    const uint32_t lines = 1 + sim::choose(8);
    for (uint32_t i = 0; i < lines; ++i) text += std::to_string(i) + Str(sim::choose(sim::chance(100) ? 9000 : 12), (char)('a' + i)) + "\n";
    if (sim::chance(300)) text.erase(text.size() - 1);
    sim::disk_put(path, text);
    sim_disk_hole(path, base);
    static const uint32_t rates[] = {0, 0, 50, 300};
    sim_disk.short_read = sim::pick(rates);
    sim_disk.short_write = sim::pick(rates);
    sim_disk.eintr = sim::pick(rates) / 2;
    struct Reader { std::unique_ptr<Caitlyn::File> f; uint64_t pos; bool eof; std::vector<uint64_t> saved; };
    std::vector<Reader> rs(1 + sim::choose(2));
    const auto lib = [](const char* what, const std::function<void()>& g) {
        const sim::Outcome o = sim::lib(g);
        if (!o.ok()) sim::check_fail("spurious-failure", Str(what) + " far behind in a file threw " + o.what);
    };
    const auto seek = [&](Reader& r, uint64_t to) {
        lib("SetPosition", [&] { r.f->SetPosition(std::streampos((std::streamoff)to)); });
        r.pos = to;
        r.eof = false;
    };
    const auto same_position = [&](Reader& r, const char* when) {
        std::streamoff p = -1;
        lib("GetPosition", [&] { p = std::streamoff(r.f->GetPosition()); });
        if ((uint64_t)p != r.pos) sim::check_fail("wrong-position", Str("after ") + when + " the position is " + std::to_string(p) + " instead of " + std::to_string(r.pos));
    };
    for (Reader& r : rs)
    {
        lib("opening", [&] { r.f.reset(new Caitlyn::File(path)); });
        seek(r, base + (sim::chance(500) ? 0 : sim::choose((uint32_t)text.size() + 1)));
    }
    const uint32_t ops = 4 + sim::choose(24);
    uint32_t reads = 0;
    for (uint32_t k = 0; k < ops; ++k)
    {
        Reader& r = rs[sim::choose((uint32_t)rs.size())];
        switch (sim::choose(8))
        {
            default:
            {
                Str got, want;
                sim_trace("ReadLine at %llu", (unsigned long long)r.pos);
                lib("ReadLine", [&] { const Caitlyn::String s = r.f->ReadLine(); got = s.str(); });
                if (!r.eof)
                {
                    const size_t off = (size_t)(r.pos - base);
                    const size_t e = text.find('\n', off);
                    if (e == Str::npos) { want = text.substr(off); r.pos = base + text.size(); r.eof = true; }
                    else { want = text.substr(off, e - off); r.pos = base + e + 1; }
                }
                if (got != want) sim::check_fail("wrong-line", "ReadLine returned " + sim::show(got) + " instead of " + sim::show(want));
                bool eof = false;
                lib("IsEof", [&] { eof = r.f->IsEof(); });
                if (eof != r.eof) sim::check_fail("wrong-end-of-file", Str("the end of the file is ") + (eof ? "reported" : "not reported") + " at position " + std::to_string(r.pos));
                same_position(r, "ReadLine");
                ++reads;
                break;
            }
            case 0:
            {
                const Str t = "w" + std::to_string(k) + Str(sim::choose(20), 'W');
                lib("WriteLine", [&] { r.f->WriteLine(t.c_str()); });
                text += t + "\n";
                r.eof = false;
                if (sim::disk(path) != text) sim::check_fail("wrong-contents", "a line written is not at the end of the file");
                break;
            }
            case 1: { std::streamoff p = 0; lib("GetPosition", [&] { p = std::streamoff(r.f->GetPosition()); }); r.saved.push_back((uint64_t)p); break; }
            case 2: if (!r.saved.empty()) { seek(r, r.saved[sim::choose((uint32_t)r.saved.size())]); same_position(r, "SetPosition"); } break;
            case 3:
                if (!sim::chance(300)) break;
                lib("reopening", [&] { r.f->Close(); r.f->Open(); });
                r.eof = false;
                same_position(r, "reopening");
                break;
        }
    }
    for (Reader& r : rs) { Caitlyn::File* f = r.f.release(); sim::lib([&] { delete f; }); }
    if (reads) sim_nontrivial();
    sim_count("probe:reads behind gigabytes", reads);
    sim_sample("far file from %llu, %u reads, %zu bytes of text", (unsigned long long)base, reads, text.size());
}

}  // namespace

extern "C" void scenario_run(void)
{
    if (sim::chance(60)) { far_lines(); return; }
    fe::Engine e;
    e.cfg.paths = 1;
    e.cfg.max_handles = 1 + (int)sim::choose(3);
    uint32_t* w = e.cfg.weight;
    w[fe::O_WRITE] = sim::choose(6);
    w[fe::O_READLINE] = 14;
    w[fe::O_READ] = sim::choose(3);
    w[fe::O_SETPOS] = sim::choose(4);
    w[fe::O_REWIND] = sim::choose(3);
    w[fe::O_CLOSE] = sim::choose(3);
    w[fe::O_OPEN] = sim::choose(2);
    w[fe::O_EOF] = 1;
    w[fe::O_ERASE] = sim::chance(300) ? 2 : 0;
    w[fe::O_NEW] = sim::choose(2);
    w[fe::O_COPY] = sim::choose(2);
    w[fe::O_DROP] = sim::choose(2);
    w[fe::O_MULTI] = sim::choose(3);
    e.cfg.multibyte = sim::chance(500);
    e.cfg.raw = sim::chance(200);
    e.cfg.odd_positions = sim::chance(400);
    e.cfg.big_permille = sim::chance(200) ? 300 : 40;
    const bool errors = sim::chance(400);
    e.cfg.huge = !errors && sim::chance(80);
    if (sim::chance(800)) e.seed_file(0, 12);
    static const uint32_t rates[] = {0, 0, 50, 300, 800};
    sim_disk.short_read = sim::pick(rates);
    sim_disk.short_write = sim::pick(rates);
    sim_disk.eintr = sim::pick(rates) / 2;
    sim_disk.slow = sim::chance(100) ? 30 : 0;
    if (errors)
    {
        static const uint32_t err[] = {20, 100, 300};
        sim_disk.eio_read = sim::pick(err);
        if (sim::chance(300)) sim_disk.eio_write = sim::pick(err) / 2;
        sim_disk.max_faults = 1 + sim::choose(6);
    }
    const uint32_t ops = sim::chance(15) ? 60 + sim::choose(250) : 3 + sim::choose(30);
    for (uint32_t i = 0; i < ops; ++i) e.step();
    sim_disk.eio_read = sim_disk.eio_write = 0;
    // the faults have stopped: every reader gets to the end of file
    for (size_t i = 0; i < e.hs.size(); ++i)
    {
        fe::Handle& h = *e.hs[i];
        uint32_t n = 0;
        while (!h.eof) { if (!e.do_readline(h, '\n') || ++n > 100000) break; }
        const std::string& c = e.content[0];
        if (!h.eof && fe::valid_utf8(h.pos < (long)c.size() ? c.substr((size_t)h.pos) : std::string())) sim_fail("no-progress", "the end of the file is not reached after the faults stopped");
    }
    e.drop_all();
    if (e.reads_ok > 2) sim_nontrivial();
    sim_sample("operations=%u reads=%u acknowledged=%u reported=%u size=%ld", e.ops_done, e.reads_ok, e.acked, e.reported, sim_disk_size(fe::path_name(0)));
}
