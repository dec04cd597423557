// N01: big-number operations under memory exhaustion give the exact value or an error.
#include "Caitlyn/__Numeric/Types.h"
#include "oom.h"

#include <sstream>

extern "C" { const char* scenario_name = "n01"; }

namespace {

typedef std::string Str;
typedef Caitlyn::BigInteger Int;
typedef Caitlyn::BigFloat Flo;
typedef Caitlyn::String String;

enum { N = 3 };

Str show(const Int& x) { return x.ToString().str() + "/" + std::to_string(x.Size()) + (x.LessThan(Int()) ? "-" : ""); }
Str show(const Flo& x) { return x.ToString().str() + "/" + std::to_string(x.Size()); }

struct State
{
    Int i[N];
    Flo f[N];
    void render(std::vector<Str>& v) const
    {
        for (int k = 0; k < N; ++k) v.push_back(show(i[k]));
        for (int k = 0; k < N; ++k) v.push_back(show(f[k]));
    }
};

struct Result
{
    Int i;
    Flo f;
    String s;
    Str t;
    long n;
    Result() : n(0) {}
    Str render() const { return show(i) + "|" + show(f) + "|" + s.str() + "|" + t + "|" + std::to_string(n); }
};

typedef oom::Judge<State, Result> J;

Str digits(uint32_t n)
{
    Str s;
    for (uint32_t i = 0; i < n; ++i) s += char('0' + (sim::chance(300) ? (sim::chance(500) ? 0 : 9) : sim::choose(10)));
    return s;
}

Str int_text()
{
    static const char* const sign[] = {"", "", "", "-", "+"};
    static const char* const odd[] = {"0", "-0", "1", "-1", "10", "", "12a", "-", "00012", "99999999999999999999", "10000000000"};
    if (sim::chance(250)) return sim::pick(odd);
    return sim::pick(sign) + digits(1 + sim::choose(sim::chance(100) ? sim::chance(100) ? 600 : 60 : 12));
}

Str flo_text()
{
    static const char* const odd[] = {"0", "1", "0.5", ".25", "7.", ".", "1.0", "2.50", "", "1.2.3", "x", "99.99", "1000000.000001"};
    if (sim::chance(250)) return sim::pick(odd);
    Str s = digits(1 + sim::choose(sim::chance(15) ? 300 : 9));
    if (sim::chance(750)) s += "." + digits(1 + sim::choose(sim::chance(15) ? 300 : 8));
    return s;
}

uint32_t fraction(const Flo& f)
{
    uint32_t n = 0;
    sim::lib([&] { const Str t = f.ToString().str(); const size_t p = t.find('.'); n = p == Str::npos ? 0 : (uint32_t)(t.size() - p - 1); });
    return n;
}

// Only operands for which the operation ends and has a meaning are chosen; what the value is, is not judged here.
bool summable(const Flo& a, const Flo& b) { return (fraction(a) == 0) == (fraction(b) == 0); }
bool divisible(const Flo& a, const Flo& b) { return fraction(a) >= fraction(b); }

void step(State*& st, bool memory)
{
    const uint32_t kind = sim::choose(46);
    const uint32_t a = sim::choose(N), b = sim::choose(N), c = sim::choose(N);
    const Str it = int_text(), ft = flo_text();
    const char* const ip = it.c_str();
    const char* const fp = ft.c_str();
    const int e = (int)sim::choose(7) - 1;
    const int64_t whole = (int64_t)sim::choose(2000000000) * (sim::chance(500) ? -4000000000LL : 1);
    const double real = (double)sim::choose(100000) / 64.0;
    typedef State S;
    typedef Result R;
    oom::Op op = {Str(), -1, false};
#define OP(n, tgt) op.name = n; op.target = tgt
    switch (kind)
    {
        case 0: OP("BigInteger(" + it + ")", -1); J::run(st, op, [&](S&, R& r) { r.i = Int(ip); }, memory); break;
        case 1: OP("BigInteger(int64)", -1); J::run(st, op, [&](S&, R& r) { r.i = Int(whole); }, memory); break;
        case 2: OP("BigInteger(uint64)", -1); J::run(st, op, [&](S&, R& r) { r.i = Int((uint64_t)whole); }, memory); break;
        case 3: OP("BigInteger literal", -1); J::run(st, op, [&](S&, R& r) { r.i = operator""_bigint(ip, it.size()); }, memory); break;
        case 4: OP("BigInteger copy", -1); J::run(st, op, [&](S& s, R& r) { r.i = Int(s.i[a]); }, memory); break;
        case 5: OP("BigInteger =", (int)c); J::run(st, op, [&](S& s, R&) { s.i[c] = s.i[a]; }, memory); break;
        case 6: OP("BigInteger = " + it, (int)c); J::run(st, op, [&](S& s, R&) { s.i[c] = ip; }, memory); break;
        case 7: case 8: OP("BigInteger +", (int)c); J::run(st, op, [&](S& s, R&) { s.i[c] = s.i[a] + s.i[b]; }, memory); break;
        case 9: case 10: OP("BigInteger -", (int)c); J::run(st, op, [&](S& s, R&) { s.i[c] = s.i[a] - s.i[b]; }, memory); break;
        case 11: case 12: if (st->i[a].Size() + st->i[b].Size() > 300) return; OP("BigInteger *", (int)c); J::run(st, op, [&](S& s, R&) { s.i[c] = s.i[a] * s.i[b]; }, memory); break;
        case 13: if (st->i[a].Size() > 40) return; OP("BigInteger /", -1); J::run(st, op, [&](S& s, R& r) { r.i = s.i[a] / s.i[b]; }, memory); break;
        case 14: if (st->i[a].Size() > 40) return; OP("BigInteger %", -1); J::run(st, op, [&](S& s, R& r) { r.i = s.i[a] % s.i[b]; }, memory); break;
        case 15: OP("BigInteger Abs", (int)c); J::run(st, op, [&](S& s, R&) { s.i[c] = s.i[a].Abs(); }, memory); break;
        case 16: if (st->i[a].Size() > 12) return; OP("BigInteger Pow", -1); J::run(st, op, [&](S& s, R& r) { r.i = s.i[a].Pow(e); }, memory); break;
        case 17: if (st->i[a].Size() > 40) return; OP("BigInteger Sqr", -1); J::run(st, op, [&](S& s, R& r) { r.i = s.i[a].Sqr(); }, memory); break;
        case 18: if (st->i[a].Size() > 6) return; OP("BigInteger Sqrt", -1); J::run(st, op, [&](S& s, R& r) { r.i = s.i[a].Sqrt(); }, memory); break;
        case 19: OP("BigInteger ToString", -1); J::run(st, op, [&](S& s, R& r) { r.s = s.i[a].ToString(); }, memory); break;
        case 20: OP("BigInteger <<", -1); J::run(st, op, [&](S& s, R& r) { std::ostringstream o; o.exceptions(std::ios_base::badbit); o << s.i[a]; r.t = o.str(); }, memory); break;
        case 21: OP("BigInteger comparisons", -1);
            J::run(st, op, [&](S& s, R& r) { r.n = (s.i[a] < s.i[b]) + 2 * (s.i[a] > s.i[b]) + 4 * (s.i[a] <= s.i[b]) + 8 * (s.i[a] >= s.i[b]) + 16 * (s.i[a] == s.i[b]) + 32 * (s.i[a] != s.i[b]); }, memory); break;
        case 22: OP("BigInteger comparison with a literal", -1); J::run(st, op, [&](S& s, R& r) { r.n = s.i[a] < Int(ip); }, memory); break;
        case 23: OP("formatting a BigInteger", -1); J::run(st, op, [&](S& s, R& r) { r.s = String::Format("<{}>", s.i[a]); }, memory); break;
        case 24: OP("BigFloat(" + ft + ")", -1); J::run(st, op, [&](S&, R& r) { r.f = Flo(fp); }, memory); break;
        case 25: OP("BigFloat(double)", -1); J::run(st, op, [&](S&, R& r) { r.f = Flo(real); }, memory); break;
        case 26: OP("BigFloat literal", -1); J::run(st, op, [&](S&, R& r) { r.f = operator""_bigfloat(fp, ft.size()); }, memory); break;
        case 27: OP("BigFloat copy", -1); J::run(st, op, [&](S& s, R& r) { r.f = Flo(s.f[a]); }, memory); break;
        case 28: case 29: OP("BigFloat =", N + (int)c); J::run(st, op, [&](S& s, R&) { s.f[c] = s.f[a]; }, memory); break;
        case 30: OP("BigFloat = " + ft, N + (int)c); J::run(st, op, [&](S& s, R&) { s.f[c] = fp; }, memory); break;
        case 31: case 32: if (!summable(st->f[a], st->f[b])) return; OP("BigFloat +", N + (int)c); J::run(st, op, [&](S& s, R&) { s.f[c] = s.f[a] + s.f[b]; }, memory); break;
        case 33: if (!summable(st->f[a], st->f[b])) return; OP("BigFloat -", -1); J::run(st, op, [&](S& s, R& r) { r.f = s.f[a] - s.f[b]; }, memory); break;
        case 34: if (st->f[a].Size() + st->f[b].Size() > 80) return; OP("BigFloat *", N + (int)c); J::run(st, op, [&](S& s, R&) { s.f[c] = s.f[a] * s.f[b]; }, memory); break;
        case 35: if (st->f[a].Size() > 30 || !divisible(st->f[a], st->f[b])) return; OP("BigFloat /", -1); J::run(st, op, [&](S& s, R& r) { r.f = s.f[a] / s.f[b]; }, memory); break;
        case 36: OP("BigFloat Abs", -1); J::run(st, op, [&](S& s, R& r) { r.f = s.f[a].Abs(); }, memory); break;
        case 37: if (st->f[a].Size() > 12) return; OP("BigFloat Pow", -1); J::run(st, op, [&](S& s, R& r) { r.f = s.f[a].Pow(e); }, memory); break;
        case 38: if (st->f[a].Size() > 30) return; OP("BigFloat Sqr", -1); J::run(st, op, [&](S& s, R& r) { r.f = s.f[a].Sqr(); }, memory); break;
        case 39: OP("BigFloat ToString", -1); J::run(st, op, [&](S& s, R& r) { r.s = s.f[a].ToString(); }, memory); break;
        case 40: OP("BigFloat <<", -1); J::run(st, op, [&](S& s, R& r) { std::ostringstream o; o.exceptions(std::ios_base::badbit); o << s.f[a]; r.t = o.str(); }, memory); break;
        case 41: OP("BigFloat moves", -1); J::run(st, op, [&](S& s, R& r) { Flo x(s.f[a]); Flo y(std::move(x)); x = s.f[b]; x = std::move(y); r.f = std::move(x); }, memory); break;
        case 42: OP("BigInteger moves", -1); J::run(st, op, [&](S& s, R& r) { Int x(s.i[a]); Int y(std::move(x)); x = s.i[b]; x = std::move(y); r.i = std::move(x); r.n = (long)r.i.Size(); }, memory); break;
        case 43: OP("formatting a BigFloat", -1); J::run(st, op, [&](S& s, R& r) { r.s = String::Format("<{}|{}>", s.f[a], s.i[a]); }, memory); break;
        case 44: { static const char* const p[] = {"0", "1", "-1", "-2.5"}; const char* const q = sim::pick(p); OP("BigFloat Sqrt of a trivial number", -1); J::run(st, op, [&](S&, R& r) { const Flo x(q); if (q[0] == '-') { r.f = x.Abs(); r.t = x.ToString().str(); r.n = x < Flo("1"); } else r.f = x.Sqrt(); }, memory); break; }
        default: OP("BigFloat comparisons", -1);
            J::run(st, op, [&](S& s, R& r) { r.n = (s.f[a] < s.f[b]) + 2 * (s.f[a] > s.f[b]) + 4 * (s.f[a] <= s.f[b]) + 8 * (s.f[a] >= s.f[b]) + 16 * (s.f[a] == s.f[b]) + 32 * (s.f[a] != Flo("1")); }, memory); break;
    }
#undef OP
}

void body()
{
    const bool memory = sim::chance(920);
    State* st = nullptr;
    sim::lib([&] { st = new State; });
    for (int k = 0; k < N; ++k)
    {
        const Str i = int_text(), f = flo_text();
        sim::lib([&] { st->i[k] = i.c_str(); });
        sim::lib([&] { st->f[k] = f.c_str(); });
    }
    const uint32_t n = 2 + sim::choose(14);
    for (uint32_t k = 0; k < n; ++k) step(st, memory);
    sim::lib([&] { delete st; });
}

}  // namespace

extern "C" void scenario_run(void)
{
    oom::stats = oom::Stats();
    sim::leakcheck(body);
    sim_count("probe:failed allocations reported", oom::stats.threw);
    if (oom::stats.fired > 1) sim_nontrivial();
    sim_sample("%u operations, %u with a failed allocation, %u threw", oom::stats.ops, oom::stats.fired, oom::stats.threw);
}
