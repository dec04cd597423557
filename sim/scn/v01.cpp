// V01: the program's own code that runs inside a call may throw, and may use the library itself.
#include "Caitlyn/__Core/Error.h"
#include "Caitlyn/__Core/File.h"
#include "Caitlyn/__Core/IO.h"
#include "Caitlyn/__Core/String.h"
#include "../core/sim.h"

#include <cstdio>
#include <cstdlib>
#include <functional>

extern "C" { const char* scenario_name = "v01"; }

namespace {

typedef std::string Str;
typedef Caitlyn::String String;
typedef Caitlyn::Expected<String, String> Exp;
const char* const path = "/sim/own.txt";

struct Mine {};         // what the program's code throws

struct Outside { Outside() { sim_lib_leave(); } ~Outside() { sim_lib_enter(); } };

struct World
{
    Caitlyn::File* f[2];
    Caitlyn::StringBuilder* b;
    Str disk, built, out[3];        // what there should be
    size_t had[3];                  // what the streams held before
    uint32_t thrown, nested, deepest;
};
World* w;

void operation(uint32_t depth);

enum Act { PLAIN, NEST, THROW };

// what a piece of the program's own code does when it is called
struct Code
{
    Str t;
    Act act;
    int type;           // of what it throws
    uint32_t depth;
    void run() const
    {
        // bookkeeping of the harness
        if (act == NEST)
        {
            ++w->nested;
            if (depth > w->deepest) w->deepest = depth;
            sim_trace("the program's code uses the library, depth %u", depth);
            for (uint32_t k = 1 + sim::choose(2); k > 0; --k) operation(depth);
        }
        if (act == THROW) { ++w->thrown; sim_trace("the program's code throws %d", type); sim_count("fault:callback_throws", 1); }
    }
    void fail() const
    {
        if (act != THROW) return;
        switch (type)
        {
            case 0: throw std::runtime_error("mine");
            case 1: throw Mine();
            case 2: throw std::bad_alloc();
            case 3: throw std::out_of_range("mine");
            default: throw std::ios_base::failure("mine");
        }
    }
    sim::Kind kind() const
    {
        static const sim::Kind k[] = {sim::RUNTIME, sim::FOREIGN, sim::BAD_ALLOC, sim::OUT_OF_RANGE, sim::IOS};
        return act == THROW ? k[type] : sim::OK;
    }
};

struct A { Code c; Str to_string() const { { Outside o; c.run(); } c.fail(); return c.t; } };
struct B { Code c; Str str() const { { Outside o; c.run(); } c.fail(); return c.t; } };
struct C { Code c; String ToString() const { { Outside o; c.run(); } c.fail(); return String(c.t); } };

Str make_text()
{
    static const char* const p[] = {"a", "bc", " ", "\n", "\xC3\xA9", "\xE2\x82\xAC", "{}", "{", "7", "}"};
    static uint32_t serial;
    Str s = "<" + std::to_string(++serial % 1000);
    if (sim::chance(40)) s += Str(600 + sim::choose(9000), 'v');
    for (uint32_t n = sim::choose(5); n > 0; --n) s += sim::pick(p);
    return s + ">";
}

Code code(uint32_t depth, bool& may_throw)
{
    Code c;
    c.t = make_text();
    c.depth = depth + 1;
    c.type = (int)sim::choose(5);
    const uint32_t k = sim::choose(10);
    c.act = k < 4 || depth > 2 ? PLAIN : k < 8 ? NEST : PLAIN;
    if (k >= 8 && may_throw) { c.act = THROW; may_throw = false; }
    return c;
}

template <typename S>
void print(uint32_t shape, bool line, const A& a, const B& b, const C& c, const String& f)
{
    switch (shape)
    {
        case 0: if (line) S::WriteLine(a); else S::Write(a); break;
        case 1: if (line) S::WriteLine(b); else S::Write(b); break;
        case 2: if (line) S::WriteLine(c); else S::Write(c); break;
        default: if (line) S::WriteLine(f, a, b, c); else S::Write(f, a, b, c); break;
    }
}

void store(Caitlyn::File& file, uint32_t shape, bool line, bool append, const A& a, const B& b, const C& c, const String& f)
{
    if (append)
        switch (shape)
        {
            case 0: if (line) file.AppendLine(a); else file.Append(a); break;
            case 1: if (line) file.AppendLine(b); else file.Append(b); break;
            case 2: if (line) file.AppendLine(c); else file.Append(c); break;
            default: if (line) file.AppendLine(f, a, b, c); else file.Append(f, a, b, c); break;
        }
    else
        switch (shape)
        {
            case 0: if (line) file.WriteLine(a); else file.Write(a); break;
            case 1: if (line) file.WriteLine(b); else file.Write(b); break;
            case 2: if (line) file.WriteLine(c); else file.Write(c); break;
            default: if (line) file.WriteLine(f, a, b, c); else file.Write(f, a, b, c); break;
        }
}

void operation(uint32_t depth)
{
    const uint32_t what = sim::choose(8);
    bool may_throw = true;
    A a; B b; C c;
    a.c = code(depth, may_throw); b.c = code(depth, may_throw); c.c = code(depth, may_throw);
    const bool line = sim::chance(400), append = sim::chance(500);
    const uint32_t shape = sim::choose(4), which = sim::choose(3);
    static const char* const formats[] = {"{}|{}|{}", "{}{}{} end", "{0}{2}{1}{0}", "begin {}, {}, {}", "{2}{{}}{0}", "{{{0}}}{1}"};
    const uint32_t fmt = sim::choose(6);
    Str text;
    const Str &ta = a.c.t, &tb = b.c.t, &tc = c.c.t;
    switch (fmt)
    {
        case 0: text = ta + "|" + tb + "|" + tc; break;
        case 1: text = ta + tb + tc + " end"; break;
        case 2: text = ta + tc + tb + ta; break;
        case 3: text = "begin " + ta + ", " + tb + ", " + tc; break;
        case 4: text = tc + "{}" + ta; break;
        default: text = "{" + ta + "}" + tb;
    }
    sim::Kind want = a.c.kind() != sim::OK ? a.c.kind() : b.c.kind() != sim::OK ? b.c.kind() : c.c.kind();
    if (what >= 2 && what <= 4 && shape < 3)
    {
        const Code& only = shape == 0 ? a.c : shape == 1 ? b.c : c.c;
        text = only.t;
        want = only.kind();
    }
    Str got;
    bool compare = true;
    sim::Outcome r;
    switch (what)
    {
        case 0:
            r = sim::lib([&] { got = String::Format(String(formats[fmt]), a, b, c).str(); });
            break;
        case 1:
            compare = false;
            if (line) text += "\n";
            r = sim::lib([&] { if (line) w->b->AppendLine(String(formats[fmt]), a, b, c); else w->b->Append(String(formats[fmt]), a, b, c); });
            if (r.ok()) w->built += text;
            break;
        case 2: case 3:
            compare = false;
            if (line) text += "\n";
            r = sim::lib([&] { store(*w->f[what - 2], shape, line, append, a, b, c, String(formats[fmt])); });
            if (r.ok()) w->disk += text;
            break;
        case 4:
            compare = false;
            if (line) text += "\n";
            r = sim::lib([&] {
                if (which == 0) print<Caitlyn::OutputStream>(shape, line, a, b, c, String(formats[fmt]));
                else if (which == 1) print<Caitlyn::ErrorStream>(shape, line, a, b, c, String(formats[fmt]));
                else print<Caitlyn::LogStream>(shape, line, a, b, c, String(formats[fmt]));
            });
            if (r.ok()) w->out[which == 0 ? 1 : 2] += text;
            break;
        case 5:     // a predicate
        {
            const String* s = nullptr;
            sim::lib([&] { s = new String(tb + tc); });
            uint32_t calls = 0, at = sim::choose(6);
            uint32_t found = 0;
            text = "found";
            want = a.c.kind();
            const bool find_not = line;
            r = sim::lib([&] {
                const std::function<bool(const Caitlyn::Char&)> look = [&](const Caitlyn::Char&) -> bool {
                    if (calls++ != at) return find_not;
                    { Outside o; a.c.run(); }
                    a.c.fail();
                    return !find_not;
                };
                found = (uint32_t)(find_not ? s->FindIfNot(look) : s->FindIf(look));
                got = "found";
            });
            if (calls <= at) { want = sim::OK; }
            else if (r.ok() && found != at) sim::check_fail("wrong-place", "the predicate holds at " + std::to_string(at) + ", found at " + std::to_string(found));
            Str now;
            sim::lib([&] { now = s->str(); delete s; });
            if (now != tb + tc) sim::check_fail("value-changed", sim::show(now) + " was " + sim::show(tb + tc));
            break;
        }
        case 6:     // a transformation
        {
            text = tb + ta;
            want = a.c.kind();
            r = sim::lib([&] {
                Exp e = Exp(String(tb));
                const Exp m = e.Map([&](const String& x) -> String {
                    { Outside o; a.c.run(); }
                    a.c.fail();
                    return x + String(ta);
                });
                if (e.Get() != String(tb)) throw 1;
                got = m.Get().str();
            });
            break;
        }
        default:    // what is there so far, with one of the handles or one of its own
            text = w->disk;
            want = sim::OK;
            r = sim::lib([&] { if (which < 2) { got = w->f[which]->Read().str(); return; } Caitlyn::File h{String(path)}; got = h.Read().str(); });
    }
    const Str about = "operation " + std::to_string(what) + " at depth " + std::to_string(depth) + (line ? " line" : "") + " shape " + std::to_string(shape) + ": " + sim::kind_name(r.kind) + " " + r.what;
    sim_trace("%s", about.c_str());
    if (r.kind != want) sim::check_fail("wrong-outcome", about + ", the program's code makes it " + sim::kind_name(want));
    if (!r.ok() && r.kind != sim::FOREIGN && r.kind != sim::BAD_ALLOC && r.what.compare(0, 4, "mine") != 0) sim::check_fail("wrong-exception", about);
    if (compare && r.ok() && got != text) sim::check_fail("wrong-result", about + " " + sim::show(got, 200) + ", should be " + sim::show(text, 200));
}

void verify(const char* when)
{
    const Str there = sim::disk(path);
    if (there != w->disk) sim::check_fail("wrong-file", Str(when) + " the file holds " + sim::show(there, 300) + ", should be " + sim::show(w->disk, 300));
    for (int fd = 1; fd <= 2; ++fd)
    {
        const Str d = sim::delivered(fd).substr(w->had[fd]);
        if (d != w->out[fd]) sim::check_fail("wrong-output", Str(when) + " stream " + std::to_string(fd) + " has " + sim::show(d, 300) + ", should be " + sim::show(w->out[fd], 300));
    }
    Str built;
    sim::lib([&] { built = w->b->str().str(); });
    if (built != w->built) sim::check_fail("wrong-text", Str(when) + " the builder holds " + sim::show(built, 300) + ", should be " + sim::show(w->built, 300));
}

void body()
{
    World world;
    w = &world;
    w->thrown = w->nested = w->deepest = 0;
    sim_disk_remove(path);
    for (int fd = 1; fd <= 2; ++fd) w->had[fd] = sim::delivered(fd).size();
    sim::lib([&] { w->f[0] = new Caitlyn::File(String(path)); w->f[1] = new Caitlyn::File(String(path)); w->b = new Caitlyn::StringBuilder; });
    const uint32_t n = 1 + sim::choose(6);
    for (uint32_t k = 0; k < n; ++k) { operation(0); verify("after an operation"); }
    sim::lib([&] { delete w->f[0]; delete w->f[1]; delete w->b; });
    if (sim_open_fds()) sim::check_fail("descriptor-leak", std::to_string(sim_open_fds()) + " descriptors stay open");
    if (w->nested || w->thrown) sim_nontrivial();
    sim_count("probe:nested calls", w->nested);
    if (w->deepest > 2) sim_count("probe:three deep", 1);
    sim_sample("%u operations, %u nested, %u thrown", n, w->nested, w->thrown);
}

}  // namespace

extern "C" void scenario_run(void)
{
    sim_disk.short_write = sim::chance(300) ? 200 : 0;
    sim_disk.eintr = sim::chance(200) ? 200 : 0;
    sim_console.out_short = sim::chance(300) ? 300 : 0;
    sim::leakcheck(body);
}
