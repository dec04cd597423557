// X01: string operations under memory exhaustion give the exact text or an error.
#include "Caitlyn/__Core/String.h"
#include "Caitlyn/__Core/Collections.h"
#include "oom.h"

#include <map>

extern "C" { const char* scenario_name = "x01"; }

namespace {

typedef std::string Str;
typedef Caitlyn::String String;

enum { N = 3 };

struct State
{
    String s[N];
    Caitlyn::StringBuilder b;
    std::map<String, String> m;
    void render(std::vector<Str>& v) const
    {
        for (int i = 0; i < N; ++i)
        {
            Str t;
            for (const Caitlyn::Char& c : s[i]) t += Str(c.data(), c.size());
            v.push_back(t);
        }
        v.push_back(b.str().str());
        Str t;
        for (const std::pair<const String, String>& e : m) t += e.first.str() + "=" + e.second.str() + ";";
        v.push_back(t);
    }
};

struct Result
{
    String s;
    Str t;
    std::vector<Str> v;
    std::vector<String> w;
    Caitlyn::Char c;
    Caitlyn::StringBuilder* b;
    long n;
    Result() : b(nullptr), n(0) {}
    ~Result() { delete b; }
    Str render() const
    {
        Str r = "s=";
        for (const Caitlyn::Char& x : s) r += Str(x.data(), x.size()) + (x.size() == 0 ? "?" : "");
        r += "|" + t + "|" + std::to_string(v.size());
        for (const Str& x : v) r += "," + x;
        r += "|" + std::to_string(w.size());
        for (const String& x : w) { r += ","; for (const Caitlyn::Char& y : x) r += Str(y.data(), y.size()); }
        r += "|" + c.str() + "|" + std::to_string(n);
        if (b) r += "|" + b->str().str();
        return r;
    }
private:
    Result(const Result&);
    Result& operator=(const Result&);
};

typedef oom::Judge<State, Result> J;

Str text()
{
    static const char* const p[] = {"a", "b", " ", ",", "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "\n", "\\n", "\\t", "\\\"", "\\\\", "\\u0041", "\\", "\\?", "\\a", "\\f", "\\r", "\\v", "\\x", "\xCE\x91", "\xD0\x96", "\xC4\xB0", "\xE1\xBA\x9E", "1", "23", "Z", "{}", "word"};
    Str s;
    const uint32_t n = sim::chance(200) ? sim::chance(40) ? 250 + sim::choose(1500) : sim::choose(120) : sim::choose(9);
    for (uint32_t i = 0; i < n; ++i) s += sim::pick(p);
    return s;
}

Str format_text()
{
    static const char* const p[] = {"{}", "{}-{}", "<{0}>", "{1}{0}", "{:*^12}", "{:>20}", "{:.3f}", "{0:_<30}", "{{{}}}", "{", "}", "{9}", "a long piece of plain text before {} and after", "{:#>40s}", "{:x^70}", "{:.600f}", "{:*>520.530f}", "{:.3f}{:.999f}", "{}{}{}", "{}{}{0:>4}", "{:>3}{:d}", "{:^90}", "{:<80}{0}", "{:-<60}|{:-^60}|{:->60}", "{:.2}", "{:}", "{0:}-{}"};
    return sim::pick(p);
}

// an argument with a text of its own
struct Named { Str s; Str to_string() const { return s; } };

void step(State*& st, bool memory)
{
    const uint32_t kind = sim::choose(64);
    const uint32_t i = sim::choose(N), j = sim::choose(N);
    const Str t = text();
    const char* const cp = t.c_str();
    const uint32_t count = sim::chance(200) ? sim::chance(50) ? 1000 + sim::choose(5000) : sim::choose(200) : sim::choose(6);
    static const char* const one[] = {"x", "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80"};
    const char* const oc = sim::pick(one);
    const Caitlyn::Char ch(oc);
    const Caitlyn::CodePoint cps[] = {0x41, 0x61, 0x20, 0x3000, 0xE9, 0x178, 0xFF, 0x131, 0x1C5, 0x20AC, 0x1F600, 0, 0x130, 0x149, 0x1F0, 0x1E9E, 0x212A, 0x391, 0x3C9, 0x416, 0x436, 0x110, 0x136, 0x144, 0x170, 0x1F08, 0x1F35, 0x1FD9, 0x39};
    const Caitlyn::CodePoint code = sim::pick(cps);
    const size_t size = st->s[i].size();
    const size_t pos = sim::choose((uint32_t)size + 2);
    const Str ft = format_text();
    const String fs(ft);
    const Named named = {t};
    typedef State S;
    typedef Result R;
    oom::Op op = {Str(), -1, false};
#define OP(n, tgt, pw) op.name = n; op.target = tgt; op.piecewise = pw
    switch (kind)
    {
        case 0: OP("String(const char*)", -1, false); J::run(st, op, [&](S&, R& r) { r.s = String(cp); }, memory); break;
        case 1: OP("String(std::string)", -1, false); J::run(st, op, [&](S&, R& r) { r.s = String(t); }, memory); break;
        case 2: OP("String(count, char)", -1, false); J::run(st, op, [&](S&, R& r) { r.s = String(count, 'c'); }, memory); break;
        case 3: OP("String(count, Char)", -1, false); J::run(st, op, [&](S&, R& r) { r.s = String(count, ch); }, memory); break;
        case 4: OP("String(vector)", -1, false); J::run(st, op, [&](S& s, R& r) { r.s = String(s.s[i].data()); }, memory); break;
        case 5: OP("String copy", -1, false); J::run(st, op, [&](S& s, R& r) { r.s = String(s.s[i]); }, memory); break;
        case 6: OP("String =", (int)i, false); J::run(st, op, [&](S& s, R&) { s.s[i] = s.s[j]; }, memory); break;
        case 7: if (i == j) return; OP("String +=", (int)i, true); J::run(st, op, [&](S& s, R&) { s.s[i] += s.s[j]; }, memory); break;
        case 8: OP("String +", -1, false); J::run(st, op, [&](S& s, R& r) { r.s = s.s[i] + s.s[j]; }, memory); break;
        case 9: OP("PushBack", (int)i, true); J::run(st, op, [&](S& s, R&) { s.s[i].PushBack(ch); }, memory); break;
        case 10: OP("Append(const char*)", (int)i, true); J::run(st, op, [&](S& s, R&) { s.s[i].Append(cp); }, memory); break;
        case 11: OP("Append(count, text)", (int)i, true); J::run(st, op, [&](S& s, R&) { s.s[i].Append(count, oc); }, memory); break;
        case 12: OP("Append(count, Char)", (int)i, true); J::run(st, op, [&](S& s, R&) { s.s[i].Append(count, ch); }, memory); break;
        case 13: OP("comparing with text", -1, false);
            J::run(st, op, [&](S& s, R& r) { const String& a = s.s[i]; r.n = (a == cp) + 2 * (a != cp) + 4 * (a < cp) + 8 * (a > cp) + 16 * (a <= cp) + 32 * (a >= cp); }, memory); break;
        case 14: OP("Substring", -1, false); J::run(st, op, [&](S& s, R& r) { r.s = s.s[i].Substring(pos, count); }, memory); break;
        case 15: OP("str", -1, false); J::run(st, op, [&](S& s, R& r) { r.t = s.s[i].str(); }, memory); break;
        case 16: OP("Insert(pos, const char*)", (int)i, false); J::run(st, op, [&](S& s, R&) { s.s[i].Insert(pos, cp); }, memory); break;
        case 17: if (i == j) return; OP("Insert(pos, String)", (int)i, false); J::run(st, op, [&](S& s, R&) { s.s[i].Insert(pos, s.s[j]); }, memory); break;
        case 18: OP("Insert(pos, count, Char)", (int)i, false); J::run(st, op, [&](S& s, R&) { s.s[i].Insert(pos, count, ch); }, memory); break;
        case 19: OP("ToUppercase", -1, false); J::run(st, op, [&](S& s, R& r) { r.s = s.s[i].ToUppercase(); }, memory); break;
        case 20: OP("ToLowercase", -1, false); J::run(st, op, [&](S& s, R& r) { r.s = s.s[i].ToLowercase(); }, memory); break;
        case 21: OP("Format(" + ft + ", text)", -1, false); J::run(st, op, [&](S& s, R& r) { r.s = String::Format(fs, s.s[i]); }, memory); break;
        case 22: OP("Format(" + ft + ", text, text)", -1, false); J::run(st, op, [&](S& s, R& r) { r.s = String::Format(fs, s.s[i], s.s[j]); }, memory); break;
        case 23: OP("Format(" + ft + ", number, decimal)", -1, false); J::run(st, op, [&](S&, R& r) { r.s = String::Format(fs, 123456789, 1.5); }, memory); break;
        case 24: OP("Format(" + ft + ", object, boolean)", -1, false); J::run(st, op, [&](S&, R& r) { r.s = String::Format(fs, named, true); }, memory); break;
        case 25: OP("Split", -1, false); J::run(st, op, [&](S& s, R& r) { r.v = Caitlyn::Split(s.s[i].str(), ','); }, memory); break;
        case 26: OP("Split of a long text", -1, false); J::run(st, op, [&](S&, R& r) { r.v = Caitlyn::Split(t + ",a long piece that does not fit in place," + t, ','); }, memory); break;
        case 27: OP("Repeat", -1, false); J::run(st, op, [&](S&, R& r) { r.t = Caitlyn::Repeat(t, count); }, memory); break;
        case 28: OP("EscapeString", -1, false); J::run(st, op, [&](S& s, R& r) { r.s = Caitlyn::EscapeString(s.s[i]); }, memory); break;
        case 29: OP("EscapeString of a literal", -1, false); J::run(st, op, [&](S&, R& r) { r.s = Caitlyn::EscapeString(cp); }, memory); break;
        case 30: OP("literal", -1, false); J::run(st, op, [&](S&, R& r) { r.s = operator""_str(cp, t.size()); }, memory); break;
        case 31: OP("operator<<", -1, false);
            J::run(st, op, [&](S& s, R& r) { std::ostringstream o; o.exceptions(std::ios_base::badbit); o << s.s[i]; r.t = o.str(); }, memory); break;
        case 32: OP("builder Append", N, true); J::run(st, op, [&](S& s, R&) { s.b.Append(s.s[i]); }, memory); break;
        case 33: OP("builder Append(" + ft + ", text)", N, true); J::run(st, op, [&](S& s, R&) { s.b.Append(fs, s.s[i]); }, memory); break;
        case 34: OP("builder AppendLine", N, true); J::run(st, op, [&](S& s, R&) { s.b.AppendLine(s.s[i]); }, memory); break;
        case 35: OP("builder AppendLine(" + ft + ", text, text)", N, true); J::run(st, op, [&](S& s, R&) { s.b.AppendLine(fs, s.s[i], s.s[j]); }, memory); break;
        case 36: OP("builder str", -1, false); J::run(st, op, [&](S& s, R& r) { r.s = s.b.str(); }, memory); break;
        case 37: OP("builder copy", -1, false); J::run(st, op, [&](S& s, R& r) { r.b = new Caitlyn::StringBuilder(s.b); }, memory); break;
        case 38: OP("MakeText(text)", -1, false); J::run(st, op, [&](S& s, R& r) { r.b = new Caitlyn::StringBuilder(Caitlyn::MakeText(s.s[i])); }, memory); break;
        case 39: OP("MakeText(" + ft + ", text)", -1, false); J::run(st, op, [&](S& s, R& r) { r.b = new Caitlyn::StringBuilder(Caitlyn::MakeText(fs, s.s[i])); }, memory); break;
        case 40: OP("map entry", N + 1, false); J::run(st, op, [&](S& s, R&) { s.m.insert(std::pair<const String, String>(s.s[i], s.s[j])); }, memory); break;
        case 41: OP("GetMapKeys, GetMapValues", -1, false);
            J::run(st, op, [&](S& s, R& r) { std::vector<String> k = Caitlyn::GetMapKeys(s.m), v = Caitlyn::GetMapValues(s.m); k.insert(k.end(), v.begin(), v.end()); r.w = std::move(k); }, memory); break;
        case 42: OP("Char of a code point", -1, false); J::run(st, op, [&](S&, R& r) { r.c = Caitlyn::Char(code); r.t = r.c.str(); }, memory); break;
        case 43: if (!size) return; OP("character assignment", (int)i, false); J::run(st, op, [&](S& s, R&) { if (count % 2) s.s[i].At(pos) = code; else s.s[i].At(pos) = Str(oc); }, memory); break;
        case 44: OP("Find, Contains, StartsWith, EndsWith of a literal", -1, false);
            J::run(st, op, [&](S& s, R& r) { const String& a = s.s[i]; r.n = (long)a.Find(cp) + 7 * a.Contains(cp) + 13 * a.StartsWith(cp) + 29 * a.EndsWith(cp) + 31 * (long)Caitlyn::IsNumber(cp); }, memory); break;
        case 45: OP("character classes", -1, false);
            J::run(st, op, [&](S&, R& r) { r.n = Caitlyn::IsSpace(code) + 2 * Caitlyn::IsUppercase(code) + 4 * Caitlyn::IsLowercase(code) + 8 * Caitlyn::IsLetter(code) + 16 * (long)Caitlyn::ToUppercase(code) + 1024 * (long)Caitlyn::ToLowercase(code) + Caitlyn::IsDigit(code) + 3 * Caitlyn::ToDigit(code); }, memory); break;
        case 46: OP("finding text between spaces", -1, false); J::run(st, op, [&](S& s, R& r) { r.n = (long)Caitlyn::FindFirstNonSpace(s.s[i]) * 1000 + (long)Caitlyn::FindLastNonSpace(s.s[j]); }, memory); break;
        case 47: OP("case of a Char", -1, false); J::run(st, op, [&](S&, R& r) { r.c = Caitlyn::ToUppercase(ch); r.t = Caitlyn::ToLowercase(ch).str(); }, memory); break;
        case 48: OP("String move", -1, false); J::run(st, op, [&](S& s, R& r) { String a(s.s[i]); String b(std::move(a)); String c(cp); c = std::move(b); r.s = c; }, memory); break;
        case 49: OP("Format(" + ft + ")", -1, false); J::run(st, op, [&](S&, R& r) { r.s = String::Format(fs); }, memory); break;
        case 50: OP("operator>>", (int)i, false);
            J::run(st, op, [&](S& s, R& r) { std::istringstream is(t + "\nand one more line that does not fit in place"); is.exceptions(std::ios_base::badbit); String a; is >> a; is >> r.s; s.s[i] = std::move(a); }, memory); break;
        case 51: OP("Format(" + ft + ", decimal, number)", -1, false); J::run(st, op, [&](S&, R& r) { r.s = String::Format(fs, 3.14159, (long)count); }, memory); break;
        case 52: OP("Format(" + ft + ", literal, character, float)", -1, false); J::run(st, op, [&](S&, R& r) { r.s = String::Format(fs, cp, Caitlyn::Char(oc), 0.5f); }, memory); break;
        case 53: OP("data, Clear", (int)i, false); J::run(st, op, [&](S& s, R& r) { r.w.push_back(String(s.s[i].data())); s.s[i].Clear(); }, memory); break;
        case 54: OP("comparing and searching texts", -1, false);
            J::run(st, op, [&](S& s, R& r) { const String &a = s.s[i], &b = s.s[j]; r.n = (a == b) + 2 * (a != b) + 4 * (a < b) + 8 * (a > b) + 16 * (a <= b) + 32 * (a >= b) + 64 * a.Contains(b) + 128 * a.StartsWith(b) + 256 * a.EndsWith(b) + 512 * (long)a.Find(b) + 1024 * (long)a.ByteCount() + 2048 * (long)a.Length() + 4096 * (a.IsEmpty() + 2 * a.NotEmpty()); }, memory); break;
        case 55: OP("ReverseFind, FindIf, FindIfNot", -1, false);
            J::run(st, op, [&](S& s, R& r) { const String &a = s.s[i]; r.n = (long)a.ReverseFind(String("a")) + 100 * (long)a.FindIf([](const Caitlyn::Char& x) { return x.size() > 1; }) + 10000 * (long)a.FindIfNot([](const Caitlyn::Char& x) { return x.size() > 1; }); }, memory); break;
        case 56: OP("walking a text backwards", -1, false); J::run(st, op, [&](S& s, R& r) { for (String::ConstReverseIterator it = ((const String&)s.s[i]).rbegin(); it != ((const String&)s.s[i]).rend(); ++it) r.s.PushBack(*it); }, memory); break;
        case 57: OP("Char of bytes", -1, false); J::run(st, op, [&](S&, R& r) { const Caitlyn::Char a(oc), b((Str(oc))); r.c = a; r.c = oc; r.c = Str(oc); r.t = a.str() + b.c_str() + operator""_char(oc, 1).str(); r.n = (long)a.GetCodePoint() + (a == b) + (a < b) + a.IsEmpty(); }, memory); break;
        case 58: OP("Char of bytes that are no character", -1, false); J::run(st, op, [&](S&, R& r) { r.c = Caitlyn::Char(cp); r.c = t; }, memory); break;
        case 59: OP("builder of a literal, a character, a format", -1, false); J::run(st, op, [&](S& s, R& r) { Caitlyn::StringBuilder a(cp), b('b'), c(fs, s.s[i], count); a.Append(b.str()); a.Append(c.str()); r.b = new Caitlyn::StringBuilder(std::move(a)); }, memory); break;
        case 60: OP("MakeText of nothing and of a character", -1, false); J::run(st, op, [&](S&, R& r) { Caitlyn::StringBuilder a(Caitlyn::MakeText()); a.AppendLine(Caitlyn::MakeText('m').str()); r.s = a.str(); }, memory); break;
        case 61: OP("String of invalid bytes", -1, false); J::run(st, op, [&](S&, R& r) { r.s = String(t + "\xC3(" + t); }, memory); break;
        case 62: OP("character changed in place", (int)i, false); if (!size) return; J::run(st, op, [&](S& s, R& r) { s.s[i][pos < size ? pos : 0] = ch; r.c = s.s[i].At(pos < size ? pos : 0); }, memory); break;
        default: OP("kmp", -1, false); J::run(st, op, [&](S&, R& r) { r.n = Caitlyn::kmp(oc, t); }, memory); break;
    }
#undef OP
}

uint32_t done;

void body()
{
    const bool memory = sim::chance(920);
    State* st = nullptr;
    sim::lib([&] { st = new State; });
    for (int i = 0; i < N; ++i)
    {
        const Str t = text();
        sim::lib([&] { st->s[i] = String(t); });
    }
    const uint32_t n = 2 + sim::choose(20);
    for (uint32_t k = 0; k < n; ++k) step(st, memory);
    done = n;
    sim::lib([&] { delete st; });
}

}  // namespace

extern "C" void scenario_run(void)
{
    oom::stats = oom::Stats();
    sim::leakcheck(body);
    sim_count("probe:failed allocations reported", oom::stats.threw);
    if (oom::stats.fired > 1) sim_nontrivial();
    sim_sample("%u operations, %u with a failed allocation, %u threw, %u gave the result all the same", oom::stats.ops, oom::stats.fired, oom::stats.threw, oom::stats.survived);
}
