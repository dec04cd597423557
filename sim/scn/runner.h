// The test runner under seeded tests: registration, several runs, and everything it prints.
#ifndef RUNNER_H_
#define RUNNER_H_

#include "Caitlyn/__Testing/Macro.h"
#include "../core/sim.h"

#include <algorithm>
#include <cstdio>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>

namespace runner {

typedef std::string Str;
typedef long double Real;

enum Act { PASS_QUIET, PASS_ASSERTS, TRUE_, FALSE_, EQ, NE, LT, LE, GT, GE, EQP, STREQ, STREQ_NULL, STREQ_NULL2, FAIL_, FAILM, RUNTIME_ERR, BAD_UTF8, LONG_WHAT, EMPTY_WHAT,
           THROW_INT, THROW_TEXT, THROW_STRING, OUT_OF_MEMORY, OWN_EXCEPTION, IOS_FAILURE, COMPARE, ACTS };
const char* const act_names[] = {"pass", "assertions that hold", "ASSERT_TRUE", "ASSERT_FALSE", "ASSERT_EQ", "ASSERT_NE", "ASSERT_LT", "ASSERT_LE", "ASSERT_GT", "ASSERT_GE",
    "ASSERT_EQ_PRINTABLE", "ASSERT_STREQ", "ASSERT_STREQ null", "ASSERT_STREQ null 2", "FAIL", "FAIL_MESSAGE", "runtime_error", "message not UTF-8", "long message", "empty message",
    "int", "text pointer", "std::string", "out of memory", "own exception", "ios failure", "some comparison"};

enum { LITTERS = 12 };
const char* const litter_names[LITTERS] = {"nothing", "hex", "width and fill", "oct, showbase", "a locale that groups digits", "failbit", "badbit", "exceptions on failure", "a buffer that is gone", "no buffer", "showpos", "left-adjusted width"};

struct Own : std::exception { const char* what() const noexcept override { return "own"; } };

struct Test
{
    Str suite, name;
    // what it does in the run under way
    Act act;
    bool noise, deep, twin;         // twin: one function registered several times
    uint32_t litter;                // what it leaves behind on std::cout
    uint32_t fail_at; bool persistent;
    uint64_t ns_before, ns_after;   // time that passes inside it
    int64_t wall;                   // how far the wall clock is set while it runs
    uint32_t cmp, kind, a, b;       // COMPARE: the macro, the type and the two values
    bool holds;                     // COMPARE: the assertion holds
    // what happened
    uint32_t calls;
    bool threw;
    Str what;                       // message, when it has one
    uint64_t t0, t1;                // monotonic clock at its first and last instant
    Test() : act(PASS_QUIET), noise(false), deep(false), twin(false), litter(0), fail_at(0), persistent(false), ns_before(0), ns_after(0), wall(0), cmp(0), kind(0), a(0), b(0), holds(true), calls(0), threw(false), t0(0), t1(0) {}
};

std::vector<Test>* tests;
uint64_t first_start, last_end;
bool started;

// Not part of the library: the scope is left while the harness works.
struct Out
{
    Out() { sim_lib_leave(); }
    ~Out() { sim_lib_enter(); }
};

inline void deep_throw(int n) { struct Local { Str s; Local() : s("some text that is too long to be kept in place") {} } l; if (n > 0) deep_throw(n - 1); else throw std::runtime_error("deep"); }

inline void begin(Test& t)
{
    Out o;
    ++t.calls;
    t.threw = false;
    t.what.clear();
    t.t0 = sim_now_ns();
    if (!started) { first_start = t.t0; started = true; }
    sim_trace("  test %s.%s: %s, takes %llu ns, leaves %s", sim::show(t.suite).c_str(), sim::show(t.name).c_str(), act_names[t.act], (unsigned long long)(t.ns_before + t.ns_after), litter_names[t.litter]);
    sim_advance_ns(t.ns_before);
    if (t.wall) sim_wall_jump(t.wall);
}
inline void end(Test& t, bool threw, const char* what)
{
    Out o;
    t.threw = threw;
    if (what) t.what = what;
    sim_advance_ns(t.ns_after);
    t.t1 = last_end = sim_now_ns();
}

// Any assertion with any operands; whether it holds is what the operator itself says.
template <typename T> void compare(Test& t, const T& x, const T& y)
{
    switch (t.cmp)
    {
        case 0: t.holds = x == y; ASSERT_EQ(x, y); break;
        case 1: t.holds = x != y; ASSERT_NE(x, y); break;
        case 2: t.holds = x < y; ASSERT_LT(x, y); break;
        case 3: t.holds = x <= y; ASSERT_LE(x, y); break;
        case 4: t.holds = x > y; ASSERT_GT(x, y); break;
        case 5: t.holds = x >= y; ASSERT_GE(x, y); break;
        case 6: { const long v = (long)t.a, w = (long)t.b; t.holds = v == w; ASSERT_EQ_PRINTABLE(v, w); break; }
        case 7: t.holds = x == y || x < y; ASSERT_TRUE(x == y || x < y); break;
        case 8: t.holds = !(x == y || x < y); ASSERT_FALSE(x == y || x < y); break;
        default: t.holds = (x == y ? x < y : x != y); ASSERT_TRUE(x == y ? x < y : x != y); break;
    }
}
inline void compare(Test& t)
{
    static const double reals[] = {0.0, -0.0, 1.0, -1.5, 1e300, std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), 0.1};
    static const long long ints[] = {0, 1, -1, 2, 42, std::numeric_limits<long long>::min(), std::numeric_limits<long long>::max(), 43};
    static const char* const texts[] = {"", "a", "b", "ab", "abc", "a text that is too long to be kept in place", "a text that is too long to be kept in placf", "A"};
    static const char* const strings[] = {"", "a", "b", "ab", "abc", "a text that is too long to be kept in place", nullptr, "\xC3\xA9"};
    switch (t.kind)
    {
        case 0: compare(t, (int)ints[t.a] % 100, (int)ints[t.b] % 100); break;
        case 1: compare(t, ints[t.a], ints[t.b]); break;
        case 2: compare(t, (unsigned char)('a' + t.a), (unsigned char)('a' + t.b)); break;
        case 3: compare(t, reals[t.a], reals[t.b]); break;
        case 4: compare(t, Str(texts[t.a]), Str(texts[t.b])); break;
        case 5: compare(t, Caitlyn::String(texts[t.a]), Caitlyn::String(texts[t.b])); break;
        case 6: compare(t, &ints[t.a], &ints[t.b]); break;
        case 7:
        {
            // texts at different places
            const Str left = strings[t.a] ? strings[t.a] : "", right = strings[t.b] ? strings[t.b] : "";
            const char *const x = strings[t.a] ? left.c_str() : nullptr, *const y = strings[t.b] ? right.c_str() : nullptr;
            t.holds = x && y ? left == right : x == y;
            ASSERT_STREQ(x, y);
            break;
        }
        default:
        {
            const int x = (int)t.a - 3;
            const int* const p = t.b & 1 ? &x : nullptr;
            if (t.cmp & 1) { t.holds = t.cmp & 2 ? x : p != nullptr; if (t.cmp & 2) { ASSERT_TRUE(x); } else { ASSERT_TRUE(p); } }
            else { t.holds = !(t.cmp & 2 ? x : p != nullptr); if (t.cmp & 2) { ASSERT_FALSE(x); } else { ASSERT_FALSE(p); } }
        }
    }
}

inline void act(Test& t)
{
    const int one = 1, two = 2;
    switch (t.act)
    {
        case PASS_QUIET: break;
        case PASS_ASSERTS:
            ASSERT_TRUE(one == 1);
            ASSERT_FALSE(one == two);
            ASSERT_EQ(one, 1);
            ASSERT_NE(one, two);
            ASSERT_LT(one, two);
            ASSERT_LE(one, one);
            ASSERT_GT(two, one);
            ASSERT_GE(two, two);
            ASSERT_EQ_PRINTABLE(one, 1);
            ASSERT_STREQ("a", "a");
            { const char* n = nullptr; ASSERT_STREQ(n, n); }
            PASS();
            break;
        case TRUE_: ASSERT_TRUE(one == two); break;
        case FALSE_: ASSERT_FALSE(one == 1); break;
        case EQ: ASSERT_EQ(one, two); break;
        case NE: ASSERT_NE(one, 1); break;
        case LT: ASSERT_LT(two, two); break;
        case LE: ASSERT_LE(two, one); break;
        case GT: ASSERT_GT(two, two); break;
        case GE: ASSERT_GE(one, two); break;
        case EQP: ASSERT_EQ_PRINTABLE(one, two); break;
        case STREQ: ASSERT_STREQ("a", "b"); break;
        case STREQ_NULL: { const char* n = nullptr; ASSERT_STREQ(n, "b"); break; }
        case STREQ_NULL2: { const char* n = nullptr; ASSERT_STREQ("a", n); break; }
        case FAIL_: FAIL(); break;
        case FAILM: FAIL_MESSAGE() << "the reason"; break;
        case RUNTIME_ERR: if (t.deep) deep_throw(5); throw std::runtime_error("r\xC3\xA9" "ason\nin two lines");
        case BAD_UTF8: throw std::runtime_error("r\xC3(\xFF");
        case LONG_WHAT: throw std::logic_error(Str(5000, 'w'));
        case EMPTY_WHAT: throw std::range_error("");
        case THROW_INT: throw 42;
        case THROW_TEXT: throw "text";
        case THROW_STRING: throw Str("a std::string");
        case OUT_OF_MEMORY:
        {
            sim_alloc_arm(t.fail_at, t.persistent ? 1 : 0);
            bool fired = false;
            try
            {
                Caitlyn::String s("some text that does not fit in place, and more of it");
                for (int i = 0; i < 4; ++i) s = s + s;
                Str std(100, 'x');
                fired = sim_alloc_fired() > 0;
                sim_alloc_arm(0, 0);
            }
            catch (...)
            {
                sim_alloc_arm(0, 0);
                throw;
            }
            (void)fired;
            throw std::bad_alloc();    // fewer allocations than the seed thought: fail anyway
        }
        case OWN_EXCEPTION: throw Own();
        case IOS_FAILURE: throw std::ios_base::failure("stream");
        case COMPARE: compare(t); break;
        default: break;
    }
}

struct Grouping : std::numpunct<char>
{
    std::string do_grouping() const override { return "\1"; }
    char do_thousands_sep() const override { return '\''; }
};

// Tests of code that prints leave std::cout in such states, most of all when they fail half-way.
inline void litter(uint32_t what)
{
    switch (what)
    {
        case 1: std::cout << std::hex << std::uppercase; break;
        case 2: std::cout << std::setw(9) << std::setfill('*'); break;
        case 3: std::cout << std::oct << std::showbase; break;
        case 4: std::cout.imbue(std::locale(std::cout.getloc(), new Grouping)); break;
        case 5: std::cout.setstate(std::ios::failbit); break;
        case 6: std::cout.setstate(std::ios::badbit); break;
        case 7: try { std::cout.exceptions(std::ios::badbit | std::ios::failbit); } catch (...) {} break;    // throws if it has failed already
        case 8: { std::ostringstream* gone = new std::ostringstream; std::cout.rdbuf(gone->rdbuf()); std::cout << "caught"; delete gone; break; }
        case 9: std::cout.rdbuf(nullptr); break;
        case 10: std::cout << std::showpos; break;
        case 11: std::cout << std::left << std::setw(30); break;
        default: break;
    }
}

uint32_t twin_calls;
bool twin_fails;
inline void twin()
{
    {
        Out o;
        ++twin_calls;
        if (!started) { first_start = sim_now_ns(); started = true; }
        last_end = sim_now_ns();
    }
    if (twin_fails) throw std::runtime_error("twin");
}

inline void body(size_t i)
{
    Test& t = (*tests)[i];
    begin(t);
    if (t.noise) std::cout << "noise of a test\n";
    if (t.litter) litter(t.litter);
    try { act(t); }
    catch (const std::exception& e) { end(t, true, e.what()); throw; }
    catch (...) { end(t, true, nullptr); throw; }
    end(t, false, nullptr);
}

enum { MAX = 320, MACRO = 4 };
template <size_t I> void test_fn() { body(MACRO + I); }
typedef void (*Fn)();
template <size_t N> struct Table
{
    static void fill(Fn* f) { Table<N - 1>::fill(f); f[N - 1] = &test_fn<N - 1>; }
};
template <> struct Table<0> { static void fill(Fn*) {} };

struct Fixture1
{
    static int alive;
    Fixture1() { ++alive; }
    ~Fixture1() { --alive; }
};
int Fixture1::alive = 0;

// ---- reading what was printed ------------------------------------------------------------------------------------

struct Line { Str name; bool ok; long long ms; Str info; };
struct Report
{
    std::vector<Line> results;
    std::multiset<Str> listed;
    long long passed, failed, last, total_tests, total_ms;
    long long announced;
    std::map<Str, long long> suite_ms;
    Report() : passed(-1), failed(-1), last(-1), total_tests(-1), total_ms(-1), announced(-1) {}
};

// "12 tests": the number in front, -1 if there is none
inline long long number(const Str& s, size_t at, size_t* after)
{
    size_t i = at;
    long long v = 0;
    while (i < s.size() && s[i] >= '0' && s[i] <= '9' && i - at < 18) { v = v * 10 + (s[i] - '0'); ++i; }
    if (after) *after = i;
    return i == at ? -1 : v;
}
// "... (12 ms" at the end of the line
inline bool ms_at_end(const Str& line, const Str& tail, Str* head, long long* ms)
{
    if (line.size() < tail.size() || line.compare(line.size() - tail.size(), tail.size(), tail) != 0) return false;
    const size_t p = line.rfind(" (");
    if (p == Str::npos) return false;
    size_t after;
    *ms = number(line, p + 2, &after);
    if (*ms < 0 || after != line.size() - tail.size()) return false;
    *head = line.substr(0, p);
    return true;
}

inline Report read(const Str& text)
{
    static const Str OKM = "[       OK ] ", FAILMARK = "[     FAIL ] ", PASSED = "[  PASSED  ] ", FAILED = "[  FAILED  ] ", EQUALS = "[==========] ", DASH = "[----------] ", INFO = "[     INFO ] ";
    Report r;
    size_t at = 0;
    while (at < text.size())
    {
        size_t e = text.find('\n', at);
        if (e == Str::npos) e = text.size();
        const Str line = text.substr(at, e - at);
        const size_t next = e + 1;
        Str head;
        long long ms;
        size_t after;
        if (line.compare(0, OKM.size(), OKM) == 0 || line.compare(0, FAILMARK.size(), FAILMARK) == 0)
        {
            Line l;
            l.ok = line[9] == 'K' || line.compare(0, OKM.size(), OKM) == 0;
            if (!ms_at_end(line.substr(OKM.size()), " ms)", &head, &ms)) sim::check_fail("unreadable-report", "the result line " + sim::show(line) + " has no name or no duration");
            l.name = head;
            l.ms = ms;
            if (!l.ok && text.compare(next, INFO.size(), INFO) == 0)
            {
                size_t q = text.find("\n[", next);
                l.info = text.substr(next + INFO.size(), (q == Str::npos ? text.size() : q) - next - INFO.size());
            }
            r.results.push_back(l);
        }
        else if (line.compare(0, PASSED.size(), PASSED) == 0) r.passed = number(line, PASSED.size(), &after);
        else if (line.compare(0, FAILED.size(), FAILED) == 0)
        {
            const long long n = number(line, FAILED.size(), &after);
            if (n >= 0 && line.compare(after, 5, " test") == 0 && line.find(", listed below") != Str::npos) r.failed = n;
            else r.listed.insert(line.substr(FAILED.size()));
        }
        else if (line.find(" FAILED TEST") != Str::npos && (number(line, 0, &after)) >= 0 && line.compare(after, 12, " FAILED TEST") == 0) r.last = number(line, 0, nullptr);
        else if (line.compare(0, EQUALS.size(), EQUALS) == 0)
        {
            if (ms_at_end(line, " ms total)", &head, &ms)) { r.total_ms = ms; r.total_tests = number(line, EQUALS.size(), &after); }
            else if (line.compare(EQUALS.size(), 8, "Running ") == 0) r.announced = number(line, EQUALS.size() + 8, &after);
        }
        else if (line.compare(0, DASH.size(), DASH) == 0 && ms_at_end(line, " ms total)", &head, &ms))
        {
            const size_t f = head.find(" from ");
            if (f != Str::npos) r.suite_ms[head.substr(f + 6)] = ms;
        }
        at = next;
    }
    return r;
}

inline Str full(const Test& t) { return t.suite + "." + t.name; }

inline uint64_t some_duration()
{
    static const uint64_t d[] = {0, 1, 999, 999999, 1000000, 1000001, 1999999, 5000000, 15999999, 999999999ull, 1000000000ull, 60000000000ull, 2200000000000ull, 4294967296000000ull, 3600000000000ull, 90000000000000ull, 2147483648000000ull};
    return sim::chance(300) ? 0 : sim::pick(d) + (sim::chance(300) ? sim::choose(2000000) : 0);
}

struct Setup { bool durations, console_faults, memory; };

inline void register_all(const Setup& set)
{
    static const char* const suites[] = {"Alpha", "Beta", "\xC3\x84" "pfel", "Z", "Gamma_with_a_rather_long_name_that_does_not_fit_in_place"};
    static const char* const names[] = {"first", "second", "t", "pr\xC3\xBC" "fung", "a_test_with_a_rather_long_name_as_they_tend_to_have"};
    Fn table[MAX];
    Table<MAX>::fill(table);
    uint32_t n = set.durations || sim::chance(970) ? sim::choose(sim::chance(300) ? sim::chance(60) ? (uint32_t)MAX : 24u : 8u) : (uint32_t)MAX;
    if (n > MACRO + MAX - tests->size()) n = (uint32_t)(MACRO + MAX - tests->size());
    for (uint32_t i = 0; i < n; ++i)
    {
        Test t;
        t.suite = sim::pick(suites);
        t.name = sim::chance(700) ? Str(sim::pick(names)) + std::to_string(i) : Str(sim::pick(names));
        t.twin = !set.durations && sim::chance(60);
        const Fn f = t.twin ? &twin : table[tests->size() - MACRO];
        const uint32_t fail_at = set.memory && sim::chance(300) ? 1 + sim::choose(40) : 0;
        const Caitlyn::String a(t.suite), b(t.name);
        if (fail_at) sim_alloc_arm(fail_at, 0);
        const sim::Outcome o = sim::lib([&] { Caitlyn::Test::TestRegistry::Instance().AddTest(a, b, f); });
        const bool fired = fail_at && sim_alloc_fired() > 0;
        sim_alloc_arm(0, 0);
        sim_trace("AddTest(%s, %s)%s -> %s", sim::show(t.suite).c_str(), sim::show(t.name).c_str(), fail_at ? " with a failing allocation" : "", sim::kind_name(o.kind));
        if (!o.ok() && !(fired && o.kind == sim::BAD_ALLOC)) sim::check_fail("spurious-failure", Str("AddTest threw ") + sim::kind_name(o.kind));
        if (o.ok()) tests->push_back(t);    // a registration that threw has not happened
    }
}

inline void script(Test& t, const Setup& set, uint32_t pass)
{
    t.act = sim::chance(pass) ? PASS_QUIET : sim::chance(300) ? COMPARE : (Act)sim::choose(ACTS);
    t.cmp = sim::choose(10);
    t.kind = sim::choose(9);
    t.a = sim::choose(8);
    t.b = sim::chance(300) ? t.a : sim::choose(8);
    t.holds = true;
    t.noise = sim::chance(150);
    t.deep = sim::chance(300);
    t.fail_at = 1 + sim::choose(8);
    t.persistent = sim::chance(300);
    t.ns_before = t.ns_after = 0;
    t.wall = 0;
    t.litter = sim::chance(60) ? sim::choose(LITTERS) : 0;
    if (t.litter) sim_count("probe:tests that leave std::cout changed", 1);
    if (set.durations)
    {
        t.ns_before = some_duration();
        t.ns_after = some_duration();
        if (sim::chance(200)) { static const int64_t j[] = {3600000000000ll, -3600000000000ll, 1000000, -1000000, 86400000000000ll}; t.wall = sim::pick(j); sim_count("fault:wall_clock_jump", 1); }
    }
}

inline Str which(const Test& t) { return sim::show(full(t)); }

// one RunAll; checks everything it returns and prints
inline void run_once(const Setup& set, uint32_t round)
{
    static const uint32_t rates[] = {450, 0, 960, 1000};
    const uint32_t pass = sim::pick(rates);
    for (Test& t : *tests) { t.calls = 0; script(t, set, pass); }
    if (!set.durations && tests->size() >= 256 && sim::chance(500))
    {
        // as many failures as the exit status of a process cannot count
        for (size_t i = 0; i < tests->size(); ++i) (*tests)[i].act = i < 256 ? (i % 3 ? RUNTIME_ERR : EQ) : PASS_QUIET;
    }
    twin_calls = 0;
    twin_fails = sim::chance(300);
    started = false;
    const uint32_t e0 = sim_console_errors();
    const size_t shown0 = sim::delivered(1).size();
    int status = -1;
    sim_trace("RunAll, %zu tests, run %u", tests->size(), round + 1);
    const uint64_t before = sim_now_ns();
    const sim::Outcome o = sim::lib([&] { status = Caitlyn::Test::TestRegistry::Instance().RunAll(); });
    const uint64_t after = sim_now_ns();
    sim::lib([&] { std::cout.flush(); });
    sim_trace("RunAll -> %s, status %d, %llu ns", sim::kind_name(o.kind), status, (unsigned long long)(after - before));
    if (!o.ok()) sim::check_fail("run-ended-early", Str("RunAll let an exception escape: ") + sim::kind_name(o.kind) + " " + o.what);
    if (Fixture1::alive) sim::check_fail("fixture-leaked", "a fixture of a test that ended is still alive");

    uint32_t failed = 0, twins = 0;
    for (Test& t : *tests)
    {
        if (t.twin)
        {
            ++twins;
            t.calls = 1;
            t.t0 = t.t1 = 0;
            t.threw = twin_fails;
            t.what = "twin";
            failed += t.threw;
            continue;
        }
        if (t.calls != 1) sim::check_fail(t.calls ? "test-repeated" : "test-not-run", "the test " + which(t) + " was called " + std::to_string(t.calls) + " times in one run");
        const bool should_pass = t.act == PASS_QUIET || t.act == PASS_ASSERTS || (t.act == COMPARE && t.holds);
        if (!set.durations && t.threw == should_pass) sim::check_fail(should_pass ? "assertion-lied" : "assertion-missed", Str("an assertion (") + act_names[t.act] + ") that " + (should_pass ? "holds failed its test: " + t.what : "does not hold let its test go on"));
        if (t.threw) ++failed;
    }
    if (twin_calls != twins) sim::check_fail(twin_calls > twins ? "test-repeated" : "test-not-run", "a function registered as " + std::to_string(twins) + " tests was called " + std::to_string(twin_calls) + " times in one run");
    if (!set.durations && (status != 0) != (failed != 0)) sim::check_fail("wrong-status", "RunAll returned " + std::to_string(status) + " although " + std::to_string(failed) + " of " + std::to_string(tests->size()) + " tests failed");

    // main returns it
    if (!set.durations && failed && (status & 0xff) == 0) sim::check_fail("wrong-status", "RunAll returned " + std::to_string(status) + ", as the exit status of a process that is success, although " + std::to_string(failed) + " tests failed");

    if (sim_console_errors() != e0 || sim_console_errors()) { sim_count("probe:runs with a failing console", 1); return; }
    // everything printed has reached the console: compare the report with what happened
    const Str text = sim::delivered(1).substr(shown0);
    const Report r = read(text);
    const long long n = (long long)tests->size(), nf = failed, np = n - nf;
    if (!set.durations)
    {
        if (r.announced != n || r.total_tests != n) sim::check_fail("wrong-summary", "the report speaks of " + std::to_string(r.announced) + " and " + std::to_string(r.total_tests) + " tests, " + std::to_string(n) + " are registered");
        if ((r.passed < 0 ? 0 : r.passed) != np) sim::check_fail("wrong-summary", "the report says " + std::to_string(r.passed) + " tests passed, " + std::to_string(np) + " did");
        if ((r.failed < 0 ? 0 : r.failed) != nf || r.last != nf) sim::check_fail("wrong-summary", "the report says " + std::to_string(r.failed) + " and " + std::to_string(r.last) + " tests failed, " + std::to_string(nf) + " did");
        std::multiset<Str> want;
        for (const Test& t : *tests) if (t.threw) want.insert(full(t));
        if (want != r.listed) sim::check_fail("wrong-summary", "the report lists " + std::to_string(r.listed.size()) + " failed tests, which are not the " + std::to_string(want.size()) + " that failed");
    }
    if (r.results.size() != tests->size()) sim::check_fail("wrong-report", std::to_string(r.results.size()) + " results are reported for " + std::to_string(n) + " tests");

    // Tests of one name ran in the order their results are printed in.
    std::vector<const Test*> order;
    for (const Test& t : *tests) order.push_back(&t);
    std::stable_sort(order.begin(), order.end(), [](const Test* a, const Test* b) { return a->t0 < b->t0; });
    std::map<Str, uint32_t> taken;
    std::map<Str, Real> low, high;
    Real sum = 0;
    for (const Line& l : r.results)
    {
        std::vector<const Test*> same;
        for (const Test& t : *tests) if (full(t) == l.name) same.push_back(&t);
        const uint32_t k = taken[l.name]++;
        if (k >= same.size()) sim::check_fail("wrong-report", "a result is reported for " + sim::show(l.name) + " more often than it ran");
        const Test& t = *same[k];
        if (!set.durations && l.ok == t.threw) sim::check_fail("wrong-report", "the test " + which(t) + (t.threw ? " failed and is reported as passed" : " passed and is reported as failed"));
        if (!set.durations && t.threw && !t.what.empty() && l.info != t.what) sim::check_fail("wrong-report", "the failure of " + which(t) + " is reported as " + sim::show(l.info) + " instead of " + sim::show(t.what));
        const Real ms = (Real)(t.t1 - t.t0) / 1e6;
        if (set.durations)
        {
            if ((Real)l.ms <= ms - 1 || (Real)l.ms >= ms + 1)
                sim::check_fail("wrong-duration", "the test " + which(t) + " took " + std::to_string(ms) + " ms and is reported with " + std::to_string(l.ms) + " ms");
            low[t.suite] += (Real)(long long)ms;
            high[t.suite] += ms + 1;
        }
        sum += ms;
    }
    if (set.durations)
    {
        const Real outer = (Real)(after - before) / 1e6, inner = started ? (Real)(last_end - first_start) / 1e6 : 0;
        for (const std::pair<const Str, Real>& s : low)
        {
            std::map<Str, long long>::const_iterator f = r.suite_ms.find(s.first);
            const Real slack = sim_console.out_slow ? outer - sum : 0;
            if (f == r.suite_ms.end() || (Real)f->second < s.second - 0.5 || (Real)f->second > high[s.first] + slack)
                sim::check_fail("wrong-total", "the tests of " + sim::show(s.first) + " took from " + std::to_string(s.second) + " to " + std::to_string(high[s.first]) + " ms together and are reported with " + (f == r.suite_ms.end() ? Str("nothing") : std::to_string(f->second)) + " ms");
        }
        if ((Real)r.total_ms <= inner - 1 || (Real)r.total_ms >= outer + 1)
            sim::check_fail("wrong-total", "the run took from " + std::to_string(inner) + " to " + std::to_string(outer) + " ms and is reported with " + std::to_string(r.total_ms) + " ms");
    }
    sim_count("probe:reports checked in full", 1);
}

inline void run(const Setup& set)
{
    std::vector<Test> all;
    tests = &all;
    static const char* const macro_tests[MACRO][2] = {{"Macro", "One"}, {"Macro", "Two"}, {"Fixture1", "UsesFixture"}, {"Alpha", "first"}};
    for (int i = 0; i < MACRO; ++i) { Test t; t.suite = macro_tests[i][0]; t.name = macro_tests[i][1]; all.push_back(t); }
    static const uint32_t bufs[] = {4096, 0, 16, 1024};
    static const uint32_t err[] = {50, 300, 1000};
    sim_clock_mode(0, 0);
    sim_console.out_buffer = sim::pick(bufs);
    sim_console.out_short = sim::chance(300) ? 300 : 0;
    const bool bad_console = set.console_faults && sim::chance(200);
    if (bad_console) { sim_console.out_error = sim::pick(err); sim_console.max_errors = 1 + sim::choose(6); }
    if (set.durations)
    {
        if (sim::chance(300)) sim_console.out_slow = 200;
        if (sim::chance(500)) sim_advance_ns((uint64_t)sim::choose(400) * 86400000000000ull + sim::choose(1000000000));
        sim_wall_jump(1700000000000000000ll);
    }
    register_all(set);
    const uint32_t rounds = 1 + sim::choose(3);
    for (uint32_t k = 0; k < rounds; ++k)
    {
        run_once(set, k);
        if (k + 1 < rounds && sim::chance(300)) register_all(set);
    }
    uint32_t failing = 0;
    for (const Test& t : all) if (t.threw) ++failing;
    if (all.size() > MACRO) sim_nontrivial();
    sim_sample("%zu tests, %u rounds, %u failed in the last, console errors %u", all.size(), rounds, failing, sim_console_errors());
}

}  // namespace runner

// registered the way users register theirs, before the simulation starts
TEST(Macro, One) { runner::body(0); }
TEST(Macro, Two) { runner::body(1); }
using runner::Fixture1;
TEST_F(Fixture1, UsesFixture) { runner::body(2); }
TEST(Alpha, first) { runner::body(3); }

#endif
