// S01: console line input, however it arrives; prompts are visible before the program waits.
#include "Caitlyn/__Core/IO.h"
#include "../core/sim.h"

extern "C" { const char* scenario_name = "s01"; }

namespace {

typedef std::string Str;

Str expected;         // everything written to standard output so far
bool waiting_call;    // an input call with a prompt is in progress
uint32_t blocks;

void on_block(void*)
{
    ++blocks;
    const Str got = sim::delivered(1);
    if (got != expected) sim::check_fail("prompt-not-visible", "the program waits for input, but standard output shows " + sim::show(got.size() > 80 ? got.substr(got.size() - 80) : got) + " instead of ..." + sim::show(expected.size() > 80 ? expected.substr(expected.size() - 80) : expected));
}

Str make_line()
{
    static const char* const p[] = {"a", "b", " ", "\t", "\r", "xyz", "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "{", "}", "0", "\\", "\"", ","};
    static const uint32_t big[] = {127, 128, 255, 256, 1023, 1024, 4095, 4096, 4097, 8192, 10000};
    Str s;
    static const uint32_t huge[] = {32768, 65535, 65536, 65537, 70000, 131073};
    if (sim::chance(60)) { s.assign(sim::chance(30) ? sim::pick(huge) : sim::pick(big), (char)('a' + sim::choose(26))); return s; }
    const uint32_t n = sim::chance(200) ? 0 : sim::choose(9);
    for (uint32_t i = 0; i < n; ++i) s += sim::pick(p);
    return s;
}

Str first_char(const Str& s)
{
    if (s.empty()) return Str();
    const unsigned char c = (unsigned char)s[0];
    return s.substr(0, c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4);
}

void own_buffers(uint32_t permille)
{
    if (!sim::chance(permille)) return;
    std::ios::sync_with_stdio(false);
    sim_trace("streams with buffers of their own");
}

Str make_prompt()
{
    static const char* const p[] = {"name? ", "> ", "\n", "\xC3\xA9: ", "line one\nline two: ", "[y/n]"};
    if (sim::chance(50)) return Str(sim::chance(500) ? 1024 : 5000, '?');
    return Str(sim::pick(p));
}

}  // namespace

extern "C" void scenario_run(void)
{
    own_buffers(350);
    static const uint32_t chunks[] = {1, 2, 7, 64, 4096};
    static const uint32_t bufs[] = {0, 1, 16, 1024, 4096};
    sim_console.in_chunk = sim::pick(chunks);
    sim_console.out_buffer = sim::pick(bufs);
    sim_console.out_short = sim::chance(300) ? 300 : 0;
    expected.clear();
    blocks = 0;
    std::vector<Str> lines;
    const uint32_t n = sim::choose(9);
    for (uint32_t i = 0; i < n; ++i) lines.push_back(make_line());
    Str in;
    const bool last_open = n && sim::chance(400);   // the last line has no terminator
    for (uint32_t i = 0; i < n; ++i) { in += lines[i]; if (i + 1 < n || !last_open) in += "\n"; }
    if (last_open && lines.back().empty()) lines.pop_back();
    sim_console_input(in.data(), in.size());
    sim_console_on_block(on_block, nullptr);
    // programs may take the input off the output: then nothing but the call itself makes a prompt visible
    const bool untied = sim::chance(200);
    if (untied) { std::cin.tie(nullptr); sim_trace("input not tied to output"); }
    const uint32_t calls = (uint32_t)lines.size() + 1 + sim::choose(3);
    for (uint32_t i = 0; i < calls; ++i)
    {
        if (sim::chance(250))
        {
            // earlier output of any kind
            const Str t = make_prompt();
            const Caitlyn::String ct(t);
            const bool line = sim::chance(500);
            sim_trace("write %zu", t.size());
            sim::Outcome o = sim::lib([&] { if (line) Caitlyn::OutputStream::WriteLine(ct); else Caitlyn::OutputStream::Write(ct); });
            if (!o.ok()) sim::check_fail("spurious-failure", Str("a console write threw ") + sim::kind_name(o.kind));
            expected += t;
            if (line) expected += "\n";
        }
        const bool have = i < lines.size();
        if (have && sim::chance(80))
        {
            // the program reads this line itself
            Str own_line;
            std::getline(std::cin, own_line);
            sim_trace("the program reads a line");
            if (own_line != lines[i]) sim::check_fail("input-taken", "a line the program reads between two calls is " + sim::show(own_line) + " instead of " + sim::show(lines[i]));
            continue;
        }
        const Str want = have ? lines[i] : Str();
        const uint32_t shape = sim::choose(6);
        const Str prompt = make_prompt();
        if (shape != 0 && sim::chance(80))
        {
            // what the program has written before the prompt is visible before the prompt
            std::cout << "(own)";
            expected += "(own)";
        }
        const Caitlyn::String cp(prompt), fmt("{}{}"), fmt1("{}");
        const char* const lit = prompt.c_str();
        const bool ch = sim::chance(250);
        sim_trace("%s shape %u (%s)", ch ? "read char" : "read line", shape, have ? sim::show(want, 20).c_str() : "end of input");
        if (shape == 1 || shape == 2) expected += prompt;
        else if (shape == 3) expected += prompt + "7";
        else if (shape == 4) expected += prompt;
        else if (shape == 5) expected += prompt + prompt;
        if (ch)
        {
            Str got;
            bool empty = false;
            const sim::Outcome o = sim::lib([&] {
                Caitlyn::Char c;
                switch (shape)
                {
                    case 0: c = Caitlyn::InputStream::ReadChar(); break;
                    case 1: c = Caitlyn::InputStream::ReadChar(cp); break;
                    case 2: c = Caitlyn::InputStream::ReadChar(lit); break;
                    case 3: c = Caitlyn::InputStream::ReadChar(fmt, cp, 7); break;
                    case 4: c = Caitlyn::InputStream::ReadChar(fmt1, cp); break;
                    default: c = Caitlyn::InputStream::ReadChar(fmt, cp, cp); break;
                }
                empty = c == Caitlyn::Char{};
                if (!empty) { const Caitlyn::String s(1, c); got.assign(s.str()); }
            });
            if (!o.ok()) sim::check_fail("spurious-failure", Str("reading a character threw ") + sim::kind_name(o.kind) + " " + o.what);
            const Str w = first_char(want);
            if (w.empty() ? !empty : got != w) sim::check_fail("wrong-character", "read " + (empty ? Str("the empty character") : sim::show(got)) + " but the line is " + sim::show(want));
        }
        else
        {
            Str got;
            const sim::Outcome o = sim::lib([&] {
                Caitlyn::String s;
                switch (shape)
                {
                    case 0: s = Caitlyn::InputStream::ReadLine(); break;
                    case 1: s = Caitlyn::InputStream::ReadLine(cp); break;
                    case 2: s = Caitlyn::InputStream::ReadLine(lit); break;
                    case 3: s = Caitlyn::InputStream::ReadLine(fmt, cp, 7); break;
                    case 4: s = Caitlyn::InputStream::ReadLine(fmt1, cp); break;
                    default: s = Caitlyn::InputStream::ReadLine(fmt, cp, cp); break;
                }
                got.assign(s.str());
            });
            if (!o.ok()) sim::check_fail("spurious-failure", Str("reading a line threw ") + sim::kind_name(o.kind) + " " + o.what);
            if (got != want) sim::check_fail("wrong-line", "read " + sim::show(got) + (have ? " instead of line " + sim::show(want) : " at end of input"));
        }
        const Str out = sim::delivered(1);
        if (out != expected) sim::check_fail("wrong-prompt", "after an input call standard output holds " + sim::show(out) + " instead of " + sim::show(expected));
    }
    if (!sim::delivered(2).empty()) sim::check_fail("wrong-stream", "input calls wrote to standard error: " + sim::show(sim::delivered(2)));
    sim_count("probe:waits for input", blocks);
    if (calls > 2 && blocks) sim_nontrivial();
    sim_sample("%zu lines, %zu bytes of input, %u calls, %u waits, chunk %u", lines.size(), in.size(), calls, blocks, sim_console.in_chunk);
}
