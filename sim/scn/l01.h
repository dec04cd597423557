// What the two source files of l01 share.
#ifndef L01_H_
#define L01_H_

#include "calls.h"

#include "Caitlyn/__Core/IO.h"
#include "Caitlyn/__Testing/Macro/Test.h"

namespace life {

struct Unit
{
    void (*begin)(calls::Player&);
    void (*play)(calls::Player&, size_t);
    void (*end)(calls::Player&);
    void (*share)(const calls::Recipe&);
    void (*say)(int stream, const std::string&);
};

// the source files use their own copies of the library's inline functions
static void begin_here(calls::Player& y) { calls::begin(y); }
static void play_here(calls::Player& y, size_t n) { calls::play(y, n); }
static void end_here(calls::Player& y) { calls::end(y); }
static void say_here(int stream, const std::string& t)
{
    sim::lib([&] {
        const Caitlyn::String s(t);
        if (stream == 0) Caitlyn::OutputStream::WriteLine(s);
        else if (stream == 1) Caitlyn::ErrorStream::WriteLine(s);
        else Caitlyn::LogStream::WriteLine(s);
    });
}
void made_shared(const calls::Shared* s);
extern const calls::Shared* shared_value;
static void share_here(const calls::Recipe& r)
{
    if (!shared_value) made_shared(calls::make_shared(r));
    calls::shared = shared_value;
}
static const Unit unit_here = {begin_here, play_here, end_here, share_here, say_here};

void constructed(int who, const Unit& u);
void destroyed(int who);
void test_ran(int which);

// a static object of the program's that uses the library while it is made and while it is destroyed
struct Resident
{
    int who;
    Resident(int w, const Unit& u) : who(w) { constructed(w, u); }
    ~Resident() { destroyed(who); }
};

}  // namespace life

#endif
