// R01: random draws stay in range and follow their parameters for every clock.
#include "Caitlyn/__Core/Utility.h"
#include "../core/sim.h"

#include <cmath>
#include <limits>

extern "C" { const char* scenario_name = "r01"; }

namespace {

typedef std::string Str;

uint32_t draws, reached;

// ---- the clock ---------------------------------------------------------------------------------------------------

enum Mode { NORMAL, STOPPED, COARSE, STEPPING, BACK_AND_FORTH, FAR, EXTREME, MODES };
const char* const mode_names[] = {"normal", "stopped", "coarse", "stepping", "back and forth", "far in the future", "extreme draws"};
Mode mode;
uint64_t at;
uint32_t nth;

// Seeds of a 64-bit Mersenne twister whose first output is next to its maximum or to zero.
const uint64_t extreme[] = {59189728, 58050496, 3138459, 65724228, 7326889, 36899063, 39837749, 5322908, 117131388, 29922859};

uint64_t next_reading()
{
    ++nth;
    switch (mode)
    {
        case STOPPED: break;
        case COARSE: if (nth % 50 == 0) at += 4000000; break;
        case STEPPING: at += nth % 17 == 0 ? 3600000000000ull : 1 + sim_choose(5000); break;
        case BACK_AND_FORTH: at = nth % 2 ? at + 1000000007 : at - 999999000; break;
        case FAR: at += 1 + sim_choose(100000); break;
        case EXTREME: at = sim::chance(700) ? sim::pick(extreme) : at + 1; break;
        default: at += 1 + sim_choose(100000); break;
    }
    return at;
}

uint64_t reading(void*)
{
    sim_lib_leave();    // the clock is not part of the library
    const uint64_t v = next_reading();
    sim_lib_enter();
    return v;
}

// ---- draws -------------------------------------------------------------------------------------------------------

template <typename T> Str num(T v) { return std::to_string(v); }
Str num(float v) { char b[64]; snprintf(b, sizeof b, "%.9g", (double)v); return b; }
Str num(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }
Str num(long double v) { char b[64]; snprintf(b, sizeof b, "%.21Lg", v); return b; }

template <typename T> struct Names;
#define NAME(T) template <> struct Names<Caitlyn::T> { static const char* get() { return #T; } };
NAME(Int16) NAME(UInt16) NAME(Int32) NAME(UInt32) NAME(Int64) NAME(UInt64) NAME(Float) NAME(Double) NAME(Decimal)

template <typename T> bool finite(T v) { return std::numeric_limits<T>::is_integer || std::isfinite((long double)v); }

template <typename T>
T draw(T lo, T hi, bool defaults)
{
    T v = T();
    const sim::Outcome o = sim::lib([&] { v = defaults ? Caitlyn::Random<T>() : Caitlyn::Random<T>(lo, hi); });
    ++draws;
    if (!o.ok()) sim::check_fail("spurious-failure", Str("Random<") + Names<T>::get() + "> threw " + sim::kind_name(o.kind) + " " + o.what);
    if (!(v >= lo) || !(v <= hi)) sim::check_fail("out-of-range", Str("Random<") + Names<T>::get() + ">(" + num(lo) + ", " + num(hi) + ") gave " + num(v));
    return v;
}

template <typename T>
T bound()
{
    typedef std::numeric_limits<T> L;
    const bool real = !L::is_integer;
    switch (sim::choose(9))
    {
        case 0: return (T)0;
        case 1: return (T)1;
        case 2: return L::max();
        case 3: return L::lowest();
        case 4: return L::min();
        case 5: return (T)sim::choose(100);
        case 6: return real || L::is_signed ? (T)(-(long)sim::choose(100)) : (T)sim::choose(30000);
        case 7: return real ? (T)(-1 - sim::choose(7) * (double)std::numeric_limits<float>::epsilon()) : (T)(L::max() - (T)sim::choose(10));
        default: return real ? (T)(1 + sim::choose(7) * (double)std::numeric_limits<float>::epsilon()) : (T)(L::lowest() + (T)sim::choose(10));
    }
}

template <typename T>
void ranges(uint32_t n)
{
    typedef std::numeric_limits<T> L;
    for (uint32_t i = 0; i < n; ++i)
    {
        const bool defaults = sim::chance(100);
        T a = defaults ? L::min() : bound<T>(), b = defaults ? L::max() : bound<T>();
        if (b < a) { const T c = a; a = b; b = c; }
        draw<T>(a, b, defaults);
    }
}

// every value of a small range turns up, both ends included, while the clock advances
template <typename T>
void coverage()
{
    const uint32_t width = 1 + sim::choose(6);
    const T bases[] = {(T)0, (T)1, std::numeric_limits<T>::lowest(), (T)(std::numeric_limits<T>::max() - (T)width), (T)(std::numeric_limits<T>::is_signed ? -3 : 3)};
    const T base = sim::pick(bases);
    bool seen[8] = {};
    uint32_t n = 0;
    for (uint32_t i = 0; i < 700 && n <= width; ++i)
    {
        const T v = draw<T>(base, (T)(base + (T)width), false);
        const uint32_t k = (uint32_t)(v - base);
        if (!seen[k]) { seen[k] = true; ++n; }
    }
    for (uint32_t k = 0; k <= width; ++k)
        if (!seen[k]) sim::check_fail("value-never-drawn", Str("700 draws of Random<") + Names<T>::get() + ">(" + num(base) + ", " + num((T)(base + (T)width)) + ") while the clock advanced never gave " + num((T)(base + (T)k)));
    ++reached;
}
// which eighth of the range v is in
template <typename T> typename std::enable_if<std::numeric_limits<T>::is_integer, uint32_t>::type eighth(T v, T a, T b)
{
    return (uint32_t)(((uint64_t)v - (uint64_t)a) / (((uint64_t)b - (uint64_t)a) / 8 + 1));
}
template <typename T> typename std::enable_if<!std::numeric_limits<T>::is_integer, uint32_t>::type eighth(T v, T a, T b)
{
    const long double x = ((long double)v / 8 - (long double)a / 8) / ((long double)b / 8 - (long double)a / 8) * 8;
    return x < 0 ? 0 : x >= 7 ? 7 : (uint32_t)x;
}

// the draws of a wide range spread over all of it
template <typename T>
void parts()
{
    typedef std::numeric_limits<T> L;
    T a, b;
    if (L::is_integer)
    {
        static const uint32_t widths[] = {8, 100, 255, 256, 1000, 20000};
        a = L::is_signed && sim::chance(500) ? (T)-(long)sim::choose(1000) : (T)sim::choose(1000);
        b = (T)(a + (T)sim::pick(widths));
    }
    else
    {
        static const double bases[] = {0, 1, -1, 100, -0.5};
        a = (T)sim::pick(bases);
        b = a + (T)(1 + sim::choose(4));
    }
    switch (sim::choose(6))     // also the widest ranges there are
    {
        case 0: a = L::lowest(); b = L::max(); break;
        case 1: a = sim::chance(500) ? (T)0 : (T)(L::lowest() / 2); b = L::max(); break;
        case 2: a = L::lowest(); b = (T)((T)(sim::choose(3) + 1) * (L::max() / 4)); break;
        default: break;
    }
    bool seen[8] = {};
    uint32_t n = 0;
    for (uint32_t i = 0; i < 700 && n < 8; ++i)
    {
        const uint32_t k = eighth<T>(draw<T>(a, b, false), a, b);
        if (!seen[k]) { seen[k] = true; ++n; }
    }
    for (uint32_t k = 0; k < 8; ++k)
        if (!seen[k] && !(L::is_integer && (uint64_t)b - (uint64_t)a == 8 && k >= 5))
            sim::check_fail("value-never-drawn", Str("700 draws of Random<") + Names<T>::get() + ">(" + num(a) + ", " + num(b) + ") while the clock advanced never came from part " + std::to_string(k + 1) + " of 8");
    ++reached;
}

bool draw_bool(double p, bool defaults)
{
    bool v = false;
    const sim::Outcome o = sim::lib([&] { v = defaults ? Caitlyn::RandomBoolean() : Caitlyn::RandomBoolean(p); });
    ++draws;
    if (!o.ok()) sim::check_fail("spurious-failure", Str("RandomBoolean(") + num(p) + ") threw " + sim::kind_name(o.kind) + " " + o.what);
    return v;
}

void booleans(uint32_t n)
{
    for (uint32_t i = 0; i < n; ++i)
    {
        switch (sim::choose(4))
        {
            case 0: if (draw_bool(0.0, false)) sim::check_fail("wrong-probability", "RandomBoolean(0) gave true"); break;
            case 1: if (!draw_bool(1.0, false)) sim::check_fail("wrong-probability", "RandomBoolean(1) gave false"); break;
            case 2:
            {
                static const double p[] = {0.5, 0.001, 0.999, 5e-324, 1 - 1.2e-16};
                draw_bool(sim::pick(p), sim::chance(500));
                break;
            }
            default:
            {
                static const double p[] = {-0.1, 1.1, -5e-324, 1 + 2.3e-16, -1e300, 1e300};
                const double v = sim::pick(p);
                const sim::Outcome o = sim::lib([&] { Caitlyn::RandomBoolean(v); });
                if (o.kind != sim::LOGIC) sim::check_fail("bad-probability-accepted", "RandomBoolean(" + num(v) + ") ended with " + sim::kind_name(o.kind));
            }
        }
    }
}

// true comes about as often as its probability says (the limits are dozens of deviations away)
void frequency()
{
    static const double p[] = {0.5, 0.1, 0.9, 0.3, 0.7};
    const double q = sim::pick(p);
    uint32_t yes = 0;
    for (uint32_t i = 0; i < 900; ++i) yes += draw_bool(q, q == 0.5 && sim::chance(500));
    if (yes < 900 * (q - 0.18) || yes > 900 * (q + 0.18) || !yes || yes == 900)
        sim::check_fail("wrong-probability", "900 draws of RandomBoolean(" + num(q) + ") while the clock advanced gave true " + std::to_string(yes) + " times");
    ++reached;
}

void client()
{
    const uint32_t steps = 1 + sim::choose(5);
    const bool advancing = mode == NORMAL || mode == STEPPING || mode == FAR;
    for (uint32_t i = 0; i < steps; ++i)
    {
        const uint32_t n = 1 + sim::choose(8);
        switch (sim::choose(10))
        {
            case 0: ranges<Caitlyn::Int16>(n); break;
            case 1: ranges<Caitlyn::UInt16>(n); break;
            case 2: ranges<Caitlyn::Int32>(n); break;
            case 3: ranges<Caitlyn::UInt32>(n); break;
            case 4: ranges<Caitlyn::Int64>(n); break;
            case 5: ranges<Caitlyn::UInt64>(n); break;
            case 6: ranges<Caitlyn::Float>(n); break;
            case 7: ranges<Caitlyn::Double>(n); break;
            case 8: ranges<Caitlyn::Decimal>(n); break;
            default: booleans(n); break;
        }
        if (advancing && sim::chance(sim_concurrency_build() ? 30 : 150)) switch (sim::choose(16))
        {
            case 0: coverage<Caitlyn::Int16>(); break;
            case 1: coverage<Caitlyn::UInt16>(); break;
            case 2: coverage<Caitlyn::Int32>(); break;
            case 3: coverage<Caitlyn::UInt32>(); break;
            case 4: coverage<Caitlyn::Int64>(); break;
            case 5: coverage<Caitlyn::UInt64>(); break;
            case 6: parts<Caitlyn::Float>(); break;
            case 7: parts<Caitlyn::Double>(); break;
            case 8: parts<Caitlyn::Decimal>(); break;
            case 9: parts<Caitlyn::Int16>(); break;
            case 10: parts<Caitlyn::UInt16>(); break;
            case 11: parts<Caitlyn::Int32>(); break;
            case 12: parts<Caitlyn::UInt32>(); break;
            case 13: parts<Caitlyn::Int64>(); break;
            case 14: parts<Caitlyn::UInt64>(); break;
            default: frequency(); break;
        }
    }
}

}  // namespace

extern "C" void scenario_run(void)
{
    draws = reached = nth = 0;
    mode = (Mode)sim::choose(MODES);
    at = mode == FAR ? 9200000000000000000ull : mode == EXTREME ? 1 : 1000000ull + (uint64_t)sim::choose(4000) * 86400000000000ull + sim::choose(1000000000);
    if (mode == STOPPED && sim::chance(300)) at = 0;
    sim_trace("clock: %s, from %llu", mode_names[mode], (unsigned long long)at);
    if (mode != NORMAL) sim_count((Str("fault:clock ") + mode_names[mode]).c_str(), 1);
    sim_clock_set(at);
    sim_clock_on_read(reading, nullptr);
    sim_clock_mode(1, 0);
    const uint32_t threads = sim::chance(sim_concurrency_build() ? 900 : 300) ? 2 + sim::choose(2) : 1;
    if (threads == 1) client();
    else
    {
        static const uint32_t sw[] = {50, 300, 1000};
        static const uint32_t gaps[] = {0, 10, 100, 1000};
        sim_sched_config(sim::pick(sw));
        sim_preempt_config(sim::pick(gaps));
        for (uint32_t i = 0; i < threads; ++i) sim::spawn([] { client(); });
        sim_run();
    }
    sim_count("probe:draws", draws);
    sim_count("probe:small ranges seen completely", reached);
    if (draws > 3) sim_nontrivial();
    sim_sample("clock %s, %u threads, %u draws, %u ranges seen completely", mode_names[mode], threads, draws, reached);
}
