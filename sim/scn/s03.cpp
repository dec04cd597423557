// S03: several threads write to the console streams at once.
#include "Caitlyn/__Caitlyn/Application.h"
#include "cons.h"

extern "C" { const char* scenario_name = "s03"; }

namespace {

typedef std::string Str;

const char* const alphabets[4] = {"abcdefgh", "ABCDEFGH", "ijklmnop", "IJKLMNOP"};

struct Wr
{
    int id;
    uint32_t n;
    std::vector<Str> texts[3];     // by descriptor, without line feeds
    uint32_t feeds[3];
    uint32_t order;
};

std::vector<Wr>* all;
Caitlyn::String* shared_text;      // read by several threads
const uint32_t FORMATS = 8;
Caitlyn::String* shared_format[FORMATS];
const char* const formats[FORMATS] = {"[{},{}]", "[{0:>24}]", "[{0:*<20}|{1:^9d}]", "[{1:~>12.2f};{0}]", "[{:^30s}]", "[{1:8}{0:.<6}{1}]", "[{0}{{}}{1}]", "[{0:}/{:}/{1:}]"};

Str pad(const Str& t, size_t width, char fill, char align)
{
    if (t.size() >= width) return t;
    const size_t n = width - t.size(), left = align == '<' ? 0 : align == '>' ? n : n / 2;
    return Str(left, fill) + t + Str(n - left, fill);
}

// what each format gives for a text and a number
Str format_model(uint32_t f, const Str& t, uint32_t n, double x)
{
    const Str d = std::to_string(n), fl = std::to_string(x);
    switch (f)
    {
        case 0: return "[" + t + "," + Str(shared_text->str()) + "]";
        case 1: return "[" + pad(t, 24, ' ', '>') + "]";
        case 2: return "[" + pad(t, 20, '*', '<') + "|" + pad(d, 9, ' ', '^') + "]";
        case 3: return "[" + pad(fl.substr(0, fl.find('.') + 3), 12, '~', '>') + ";" + t + "]";
        case 4: return "[" + pad(t, 30, ' ', '^') + "]";
        case 5: return "[" + pad(d, 8, ' ', '<') + pad(t, 6, '.', '<') + d + "]";
        case 7: return "[" + t + "/" + t + "/" + d + "]";
        default: return "[" + t + "{}true]";
    }
}

template <typename S>
void formatted(bool line, uint32_t f, const Caitlyn::String& t, uint32_t n, double x)
{
    const Caitlyn::String& fmt = *shared_format[f];
    switch (f)
    {
        case 0: if (line) S::WriteLine(fmt, t, *shared_text); else S::Write(fmt, t, *shared_text); break;
        case 1: case 4: if (line) S::WriteLine(fmt, t); else S::Write(fmt, t); break;
        case 3: if (line) S::WriteLine(fmt, t, x); else S::Write(fmt, t, x); break;
        case 6: if (line) S::WriteLine(fmt, t, true); else S::Write(fmt, t, true); break;
        default: if (line) S::WriteLine(fmt, t, n); else S::Write(fmt, t, n); break;
    }
}

Str make(Wr& w)
{
    static const uint32_t big[] = {100, 1000, 1024, 4095, 4096, 5000, 8192, 20000};
    const char* al = alphabets[w.id];
    const uint32_t n = sim::chance(60) ? sim::pick(big) : 3 + sim::choose(12);
    Str s;
    uint32_t k = w.n++;
    for (int i = 0; i < 3; ++i) { s += al[k & 7]; k >>= 3; }
    const char fill = al[sim::choose(8)];
    while (s.size() < n) s += fill;
    return s;
}

// Read the stream as whole texts and line feeds; each thread's texts must come in its own order.
void judge(int fd, bool final)
{
    const Str body = sim::delivered(fd);
    std::vector<size_t> next(all->size(), 0);
    uint32_t feeds = 0, want = 0;
    const Str name = fd == 1 ? "standard output" : "standard error";
    for (size_t at = 0; at < body.size();)
    {
        if (body[at] == '\n') { ++feeds; ++at; continue; }
        size_t k = 0;
        for (; k < all->size(); ++k)
        {
            Wr& w = (*all)[k];
            if (next[k] == w.texts[fd].size()) continue;
            const Str& t = w.texts[fd][next[k]];
            const size_t m = body.size() - at < t.size() ? body.size() - at : t.size();
            if (body.compare(at, m, t, 0, m) == 0 && (m == t.size() || !final)) break;
        }
        if (k == all->size()) sim::check_fail("split-lost-or-reordered", name + " at byte " + std::to_string(at) + " does not continue with the next text of any thread: " + sim::show(body.substr(at > 20 ? at - 20 : 0, 60)));
        at += (*all)[k].texts[fd][next[k]].size();
        ++next[k];
    }
    for (size_t k = 0; k < all->size(); ++k)
    {
        want += (*all)[k].feeds[fd];
        if (final && next[k] != (*all)[k].texts[fd].size()) sim::check_fail("text-lost", name + ": thread " + std::to_string(k) + " wrote " + std::to_string((*all)[k].texts[fd].size()) + " texts, " + std::to_string(next[k]) + " are there");
    }
    if (final && feeds != want) sim::check_fail("line-feed-lost", name + ": " + std::to_string(feeds) + " line feeds instead of " + std::to_string(want));
}

void one(Wr& w)
{
    const uint32_t stream = sim::choose(3), kind = sim::choose(12);
    const int fd = stream == 0 ? 1 : 2;
    const bool line = sim::chance(500);
    sim::Outcome o;
    Str want;
    if (kind == 0 && line)
    {
        w.feeds[fd]++;
        o = cons::write(stream, 8, true, Str(), 0);
    }
    else
    {
        const uint32_t shape = kind % 8;
        const Str t = make(w);
        if (kind >= 9)
        {
            // a text and formats shared by all threads
            const Caitlyn::String cs(t);
            const uint32_t f = sim::choose(FORMATS), n = sim::choose(1000);
            const double x = n / 4.0;
            want = format_model(f, t, n, x);
            w.texts[fd].push_back(want);
            w.feeds[fd] += line;
            sim_trace("thread %d fd %d shared format %u", w.id, fd, f);
            o = sim::lib([&] {
                if (stream == 0) formatted<Caitlyn::OutputStream>(line, f, cs, n, x);
                else if (stream == 1) formatted<Caitlyn::ErrorStream>(line, f, cs, n, x);
                else formatted<Caitlyn::LogStream>(line, f, cs, n, x);
            });
        }
        else
        {
            want = cons::text_of(shape, false, t);
            w.texts[fd].push_back(want);
            w.feeds[fd] += line;
            sim_trace("thread %d fd %d shape %u line %d", w.id, fd, shape, (int)line);
            o = cons::write(stream, shape, line, t, 0);
        }
    }
    if (!o.ok()) sim::check_fail("spurious-failure", Str("a console write threw ") + sim::kind_name(o.kind) + " " + o.what);
    if (!want.empty() && sim::delivered(fd).find(want) == Str::npos) sim::check_fail("not-delivered", "a console write returned but its text is not on the stream in one piece: " + sim::show(want));
}

}  // namespace

extern "C" void scenario_run(void)
{
    static const uint32_t bufs[] = {0, 16, 1024, 4096};
    sim_sched_config(100 + sim::choose(6) * 120);
    static const uint32_t gaps[] = {0, 40, 400, 4000};
    sim_preempt_config(sim::pick(gaps));
    sim_console.out_buffer = sim::pick(bufs);
    sim_console.out_short = sim::chance(300) ? 200 : 0;
    const int n = 2 + (int)sim::choose(3);
    std::vector<Wr> ws((size_t)n);
    all = &ws;
    Caitlyn::String st("(\xC3\xA9)");
    std::vector<Caitlyn::String> sf(formats, formats + FORMATS);
    shared_text = &st;
    for (uint32_t k = 0; k < FORMATS; ++k) shared_format[k] = &sf[k];
    const uint32_t ops = 1 + sim::choose(8);
    for (int i = 0; i < n; ++i)
    {
        Wr* w = &ws[(size_t)i];
        w->id = i; w->n = 0;
        w->feeds[0] = w->feeds[1] = w->feeds[2] = 0;
        sim::spawn([w, ops] { for (uint32_t k = 0; k < ops; ++k) one(*w); });
    }
    sim_run();
    judge(1, true);
    judge(2, true);
    if (ops > 1) sim_nontrivial();
    sim_sample("%d threads, %u calls each, buffer %u, output %zu bytes, error %zu bytes", n, ops, sim_console.out_buffer, sim::delivered(1).size(), sim::delivered(2).size());
}
