// F02: handles appending to one file at the same time, from one or several threads.
#include "file_engine.h"

extern "C" { const char* scenario_name = "f02"; }

namespace {

typedef std::string Str;

// Every handle writes with letters of its own, so that its share of the file can be read off.
const char* const alphabets[6] = {"abcdefgh", "ABCDEFGH", "ijklmnop", "IJKLMNOP", "qrstuvwx", "QRSTUVWX"};

struct Wr
{
    int id;
    Caitlyn::File* f;
    std::vector<Str> texts;      // acknowledged, without line feeds
    std::vector<char> line;      // with a line feed
    uint32_t n;
    Str made;                    // all texts joined
};

bool atomic_disk;   // no short write: texts must stay in one piece

Str make(Wr& w)
{
    static const uint32_t big[] = {300, 1000, 1023, 1024, 1025, 4096, 8190, 8191, 8192, 9000, 16384, 20000, 66000};
    const char* al = alphabets[w.id];
    uint32_t n = sim::chance(60) ? big[sim::choose((uint32_t)(sizeof big / sizeof *big) - (sim_concurrency_build() ? 2 : 0))] : 1 + sim::choose(20);
    Str s;
    // the first letters number the text
    uint32_t k = w.n++;
    for (int i = 0; i < 3; ++i) { s += al[k & 7]; k >>= 3; }
    const char fill = al[sim::choose(8)];
    while (s.size() < n) s += fill;
    return s;
}

void one_write(Wr& w)
{
    const Str t = make(w);
    const uint32_t kind = sim::choose(4), shape = sim::choose(6);
    fe::WithToStringSnake a1; a1.s = t;
    fe::WithStr a2; a2.s = t;
    fe::WithToString a3; a3.s = t;
    const Caitlyn::String cs(t), f1("{}");
    const char* cp = t.c_str();
    Caitlyn::File& f = *w.f;
    sim_trace("handle %d %s%s %zu", w.id, kind & 1 ? "append" : "write", kind >= 2 ? " line" : "", t.size());
#define F02_CALL(M) switch (shape) { case 0: f.M(cp); break; case 1: f.M(cs); break; case 2: f.M(a1); break; case 3: f.M(a2); break; case 4: f.M(a3); break; default: f.M(f1, cs); break; }
    const sim::Outcome o = sim::lib([&] {
        switch (kind)
        {
            case 0: F02_CALL(Write) break;
            case 1: F02_CALL(Append) break;
            case 2: F02_CALL(WriteLine) break;
            default: F02_CALL(AppendLine) break;
        }
    });
    if (!o.ok()) sim::check_fail("spurious-failure", Str("a write threw ") + sim::kind_name(o.kind) + " " + o.what + " although nothing failed underneath");
    w.texts.push_back(t);
    w.line.push_back(kind >= 2);
    w.made += t;
    const Str now = sim::disk("/sim/a.txt");
    if (now.size() < t.size()) sim::check_fail("acknowledged-text-missing", "the file is shorter than a text just acknowledged");
}

// The same handle reads in between: where it reads has no bearing on where it writes.
void one_read(Wr& w)
{
    Caitlyn::File& f = *w.f;
    const uint32_t how = sim::choose(4);
    sim_trace("handle %d reads (%u)", w.id, how);
    const sim::Outcome o = sim::lib([&] {
        switch (how)
        {
            case 0: f.Read(); break;
            case 1: f.ReadLine(); break;
            case 2: f.ReadLine(); f.ReadLine(); break;
            default: f.SetPosition(0); f.ReadLine(); break;
        }
    });
    if (!o.ok()) sim::check_fail("spurious-failure", Str("a read threw ") + sim::kind_name(o.kind) + " " + o.what + " although nothing failed underneath");
}

void judge(std::vector<Wr>& ws, const Str& prefix, bool final)
{
    const Str now = sim::disk("/sim/a.txt");
    if (now.compare(0, prefix.size(), prefix) != 0) sim::check_fail("stored-text-changed", "text that was in the file before was changed: " + sim::show(now.substr(0, prefix.size())));
    const Str body = now.substr(prefix.size());
    std::vector<Str> share(ws.size());
    size_t feeds = 0, want_feeds = 0;
    for (size_t i = 0; i < body.size(); ++i)
    {
        if (body[i] == '\n') { ++feeds; continue; }
        size_t k = 0;
        while (k < ws.size() && !strchr(alphabets[ws[k].id], body[i])) ++k;
        if (k == ws.size() || body[i] == '\0') sim::check_fail("foreign-text", "a byte nobody wrote is in the file at " + std::to_string(i) + ": " + sim::show(body.substr(i, 10)));
        share[k] += body[i];
    }
    for (size_t k = 0; k < ws.size(); ++k)
    {
        for (size_t i = 0; i < ws[k].line.size(); ++i) want_feeds += ws[k].line[i];
        if (share[k] != ws[k].made)
        {
            size_t d = 0;
            while (d < share[k].size() && d < ws[k].made.size() && share[k][d] == ws[k].made[d]) ++d;
            sim::check_fail("lost-or-reordered", "handle " + std::to_string(k) + ": its texts in the file differ from what it wrote at byte " + std::to_string(d) + ": file " + sim::show(share[k].substr(d, 30)) + " wrote " + sim::show(ws[k].made.substr(d, 30)));
        }
    }
    if (feeds != want_feeds) sim::check_fail("lost-line-feed", std::to_string(feeds) + " line feeds are in the file instead of " + std::to_string(want_feeds));
    if (!final || !atomic_disk) return;
    for (size_t k = 0; k < ws.size(); ++k)
    {
        size_t from = 0;
        for (size_t i = 0; i < ws[k].texts.size(); ++i)
        {
            // a short line keeps its line feed; a long text may be handed to the system before it
            const Str t = ws[k].texts[i] + (ws[k].line[i] && ws[k].texts[i].size() < 1000 ? "\n" : "");
            const size_t at = body.find(t, from);
            if (at == Str::npos) sim::check_fail("text-split", "handle " + std::to_string(k) + ": a text written by one call was split by another: " + sim::show(t));
            from = at + ws[k].texts[i].size();
        }
    }
}

}  // namespace

extern "C" void scenario_run(void)
{
    static const uint32_t rates[] = {0, 0, 100, 400};
    sim_sched_config(100 + sim::choose(6) * 120);
    static const uint32_t gaps[] = {0, 40, 400, 4000};
    sim_preempt_config(sim::pick(gaps));
    atomic_disk = sim::chance(600);
    sim_disk.short_write = atomic_disk ? 0 : 100 + sim::choose(5) * 100;
    sim_disk.eintr = sim::pick(rates) / 2;
    sim_disk.slow = sim::chance(200) ? 30 : 0;
    const int n = 2 + (int)sim::choose(sim_concurrency_build() ? 2 : 4);
    const bool threads = sim_concurrency_build() || sim::chance(750);
    Str prefix;
    if (sim::chance(400)) { prefix = "0123 456\n"; if (sim::chance(300)) prefix += Str(9000, '7') + "\n"; sim::disk_put("/sim/a.txt", prefix); }
    std::vector<Wr> ws((size_t)n);
    const bool shared_copies = sim::chance(400);
    const bool open_inside = threads && sim::chance(400);
    for (int i = 0; i < n; ++i)
    {
        Wr& w = ws[(size_t)i];
        w.id = i; w.n = 0; w.f = nullptr;
        if (open_inside) continue;
        sim::lib([&] {
            if (shared_copies && i) w.f = new Caitlyn::File(*ws[0].f);
            else w.f = new Caitlyn::File("/sim/a.txt");
        });
        if (!w.f) sim::check_fail("spurious-failure", "opening failed although nothing failed underneath");
    }
    const uint32_t ops = 1 + sim::choose(12);
    const bool reads = sim::chance(400);
    uint32_t total = 0;
    if (threads)
    {
        for (int i = 0; i < n; ++i)
        {
            Wr* w = &ws[(size_t)i];
            sim::spawn([w, ops, open_inside, reads] {
                if (open_inside)
                {
                    const sim::Outcome o = sim::lib([&] { w->f = new Caitlyn::File("/sim/a.txt"); });
                    if (!o.ok()) sim::check_fail("spurious-failure", "opening threw " + o.what);
                }
                for (uint32_t k = 0; k < ops; ++k)
                {
                    one_write(*w);
                    if (reads && sim::chance(300)) one_read(*w);
                    if (sim::chance(80))
                    {
                        const sim::Outcome o = sim::lib([&] { w->f->Close(); if (sim::chance(500)) w->f->Open(); });
                        if (!o.ok()) sim::check_fail("spurious-failure", "reopening threw " + o.what);
                    }
                }
                if (sim::chance(500)) { Caitlyn::File* f = w->f; w->f = nullptr; sim::lib([&] { delete f; }); }
            });
        }
        sim_run();
    }
    else
    {
        for (uint32_t k = 0; k < ops * (uint32_t)n; ++k)
        {
            one_write(ws[sim::choose((uint32_t)n)]);
            if (reads && sim::chance(300)) one_read(ws[sim::choose((uint32_t)n)]);
            judge(ws, prefix, false);
        }
    }
    for (int i = 0; i < n; ++i) { Caitlyn::File* f = ws[(size_t)i].f; if (f) sim::lib([&] { delete f; }); total += (uint32_t)ws[(size_t)i].texts.size(); }
    judge(ws, prefix, true);
    if (total >= 2) sim_nontrivial();
    sim_sample("%d handles, %s, %u texts, %s, %ld bytes", n, threads ? "a thread each" : "one thread", total, atomic_disk ? "whole writes" : "short writes", sim_disk_size("/sim/a.txt"));
}
