// All overloads of the console writers.
#ifndef CONS_H_
#define CONS_H_

#include "Caitlyn/__Core/IO.h"
#include "../core/sim.h"

namespace cons {

typedef std::string Str;

struct WithToStringSnake { Str s; Str to_string() const { return s; } };
struct WithStr { Str s; Str str() const { return s; } };
struct WithToString { Str s; Caitlyn::String ToString() const { return Caitlyn::String(s); } };

enum { SHAPES = 9 };

// what a stream buffer of the library's streams still holds, when they are not synchronised with stdio
struct Peek : std::streambuf
{
    static size_t held(const std::streambuf* b) { return (size_t)((b->*(&Peek::pptr))() - (b->*(&Peek::pbase))()); }
};

// Programs may take the streams off stdio: then they have buffers of their own (standard error and the log share one).
inline bool own_buffers(uint32_t permille)
{
    if (!sim::chance(permille)) return false;
    std::ios::sync_with_stdio(false);
    sim_trace("streams with buffers of their own");
    return true;
}

inline size_t pending(int fd, bool own) { return own ? Peek::held(fd == 1 ? std::cout.rdbuf() : std::clog.rdbuf()) : sim_console_pending(fd); }


// the text a call of this shape writes for t
inline Str text_of(uint32_t shape, bool line, const Str& t)
{
    Str w;
    switch (shape)
    {
        case 0: case 1: case 2: case 3: case 4: case 5: w = t; break;
        case 6: w = "<" + t + "|" + t + ">"; break;
        case 7: w = t + "#12"; break;
        default: w = ""; break;
    }
    return line ? w + "\n" : w;
}

template <typename S>
void call(uint32_t shape, bool line, const char* cp, const Caitlyn::String& cs, const WithToStringSnake& a1, const WithStr& a2, const WithToString& a3,
          const Caitlyn::String& f1, const Caitlyn::String& f2, const Caitlyn::String& f3)
{
    switch (shape)
    {
        case 0: if (line) S::WriteLine(cp); else S::Write(cp); break;
        case 1: if (line) S::WriteLine(cs); else S::Write(cs); break;
        case 2: if (line) S::WriteLine(a1); else S::Write(a1); break;
        case 3: if (line) S::WriteLine(a2); else S::Write(a2); break;
        case 4: if (line) S::WriteLine(a3); else S::Write(a3); break;
        case 5: if (line) S::WriteLine(f1, cs); else S::Write(f1, cs); break;
        case 6: if (line) S::WriteLine(f2, cs, cs); else S::Write(f2, cs, cs); break;
        case 7: if (line) S::WriteLine(f3, cs, 12); else S::Write(f3, cs, 12); break;
        default: if (line) S::WriteLine(); else S::Write(Caitlyn::String::Empty()); break;
    }
}

// stream 0: output, 1: error, 2: log.  fail_at: the allocation inside the call that fails (0: none)
inline sim::Outcome write(uint32_t stream, uint32_t shape, bool line, const Str& t, uint32_t fail_at)
{
    const WithToStringSnake a1 = {t};
    const WithStr a2 = {t};
    const WithToString a3 = {t};
    const Caitlyn::String cs(t), f1("{}"), f2("<{}|{}>"), f3("{}#{}");
    const char* const cp = t.c_str();
    if (fail_at) sim_alloc_arm(fail_at, 0);
    const sim::Outcome o = sim::lib([&] {
        switch (stream)
        {
            case 0: call<Caitlyn::OutputStream>(shape, line, cp, cs, a1, a2, a3, f1, f2, f3); break;
            case 1: call<Caitlyn::ErrorStream>(shape, line, cp, cs, a1, a2, a3, f1, f2, f3); break;
            default: call<Caitlyn::LogStream>(shape, line, cp, cs, a1, a2, a3, f1, f2, f3); break;
        }
    });
    return o;
}

}  // namespace cons

#endif
