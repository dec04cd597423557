// S02: console output is complete, in order, on the right stream and flushed on return.
#include "cons.h"

extern "C" { const char* scenario_name = "s02"; }

namespace {

typedef std::string Str;

uint32_t serial;

Str make_text()
{
    static const char* const p[] = {"a", "bc", " ", "\n", "\t", "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "%s", "%d", "\\n", "\"", "\r", "\x01"};
    static const uint32_t big[] = {100, 1023, 1024, 1025, 4095, 4096, 4097, 9000};
    Str s = "<" + std::to_string(serial++) + ":";
    static const uint32_t huge[] = {16384, 32768, 65535, 65536, 65537, 131073};
    if (sim::chance(60)) { s += Str(sim::chance(30) ? sim::pick(huge) : sim::pick(big), (char)('a' + sim::choose(26))); return s + ">"; }
    const uint32_t n = sim::choose(12);
    if (n == 0 && sim::chance(500)) return Str();
    for (uint32_t i = 0; i < n; ++i) s += sim::pick(p);
    return s + ">";
}

bool subsequence(const Str& part, const Str& whole)
{
    size_t at = 0;
    for (size_t i = 0; i < part.size(); ++i)
    {
        while (at < whole.size() && whole[at] != part[i]) ++at;
        if (at == whole.size()) return false;
        ++at;
    }
    return true;
}

Str tail(const Str& s) { return s.size() > 60 ? "..." + sim::show(s.substr(s.size() - 60)) : sim::show(s); }

}  // namespace

extern "C" void scenario_run(void)
{
    const bool own = cons::own_buffers(350);     // such buffers repeat what a failing device took in part: no device errors then
    static const uint32_t bufs[] = {0, 1, 16, 1024, 4096};
    static const uint32_t err[] = {50, 200, 600};
    serial = 0;
    sim_console.out_buffer = sim::pick(bufs);
    sim_console.out_short = sim::chance(400) ? 300 : 0;
    const bool device_errors = !own && sim::chance(300), memory = sim::chance(400);
    if (device_errors) { sim_console.out_error = sim::pick(err); sim_console.max_errors = 1 + sim::choose(6); }
    Str expected[3];             // by descriptor: everything that may appear
    bool lossy[3] = {false, false, false};
    uint32_t full = 0, thrown = 0, mixed = 0;
    const uint32_t calls = 1 + sim::choose(20);
    for (uint32_t i = 0; i < calls; ++i)
    {
        const uint32_t stream = sim::choose(3), shape = sim::choose(cons::SHAPES);
        const bool line = sim::chance(500);
        const int fd = stream == 0 ? 1 : 2;
        Str t = make_text();
        const uint32_t e0 = sim_console_errors();
        if (sim::chance(100))
        {
            // what the program itself has put into the same stream comes first
            const Str own_text = "(" + std::to_string(serial++) + ")";
            (stream == 0 ? std::cout : stream == 1 ? std::cerr : std::clog) << own_text;
            expected[fd] += own_text;
            ++mixed;
        }
        if ((shape == 2 || shape == 3) && sim::chance(150)) t.insert(t.empty() ? 0 : 1, 1, '\0');   // these hand over a text of any bytes
        const Str want = cons::text_of(shape, line, t);
        const uint32_t fail_at = memory && sim::chance(400) ? 1 + sim::choose((uint32_t)(sim::chance(600) ? 8 : 40 + t.size() * 3)) : 0;
        sim_trace("%s %s shape %u, %zu bytes, allocation %u fails", stream == 0 ? "output" : stream == 1 ? "error" : "log", line ? "line" : "text", shape, want.size(), fail_at);
        const sim::Outcome o = cons::write(stream, shape, line, t, fail_at);
        const bool fired = fail_at && sim_alloc_fired() > 0;
        sim_alloc_arm(0, 0);
        if (sim_console_errors() != e0) { lossy[fd] = true; if (mixed) lossy[1] = true; }   // errors flush the output first
        if (!o.ok() && !(o.kind == sim::BAD_ALLOC && fired)) sim::check_fail("spurious-failure", Str("a console write threw ") + sim::kind_name(o.kind) + " " + o.what);
        if (o.ok()) ++full; else ++thrown;
        if (lossy[fd]) { expected[fd] += want; }
        else
        {
            const Str got = sim::delivered(fd);
            if (o.ok())
            {
                expected[fd] += want;
                if (got != expected[fd]) sim::check_fail(cons::pending(fd, own) ? "not-flushed" : "incomplete-output",
                    "a console write returned, but " + Str(fd == 1 ? "standard output" : "standard error") + " shows " + tail(got) + " instead of " + tail(expected[fd]));
                if (cons::pending(fd, own)) sim::check_fail("not-flushed", std::to_string(cons::pending(fd, own)) + " bytes stay in the buffer after a console write returned");
            }
            else
            {
                // some prefix of the text was handed over; the rest of it never appears
                const size_t handed = got.size() + cons::pending(fd, own);
                if (handed < expected[fd].size() || handed > expected[fd].size() + want.size() || got != (expected[fd] + want).substr(0, got.size()))
                    sim::check_fail("failed-write-misplaced", "after a failed console write the stream shows " + tail(got) + " and " + std::to_string(cons::pending(fd, own)) + " buffered bytes, instead of " + tail(expected[fd]) + " and a prefix of " + sim::show(want));
                expected[fd] = (expected[fd] + want).substr(0, handed);
            }
        }
        for (int k = 1; k < 3; ++k)
        {
            const Str got = sim::delivered(k);
            if (lossy[k] ? !subsequence(got, expected[k]) : got != expected[k].substr(0, got.size()))
                sim::check_fail(lossy[k] ? "repeated-or-reordered" : "wrong-stream", Str(k == 1 ? "standard output" : "standard error") + " shows " + tail(got) + ", which is not a part of what was written there: " + tail(expected[k]));
        }
    }
    sim_count("probe:texts of the program between", mixed);
    sim_count("probe:writes that threw", thrown);
    sim_count("probe:writes checked in full", full);
    if (full + thrown >= 3) sim_nontrivial();
    sim_sample("%u calls, %u threw, buffer %u, device errors %u, output %zu bytes, error %zu bytes", calls, thrown, sim_console.out_buffer, sim_console_errors(), expected[1].size(), expected[2].size());
}
