// Calls of all parts of the library on values of one's own and on values that others read as well.
#ifndef CALLS_H_
#define CALLS_H_

#include "Caitlyn/__Core/String.h"
#include "Caitlyn/__Core/Collections.h"
#include "Caitlyn/__Core/Error.h"
#include "Caitlyn/__Core/File.h"
#include "Caitlyn/__Numeric/Types.h"
#include "Caitlyn/__Serializing/Json.h"
#include "Caitlyn/__Testing/Types.h"
#include "apart.h"

#include <map>
#include <sstream>

namespace calls {

typedef std::string Str;
typedef Caitlyn::String String;
typedef Caitlyn::BigInteger Int;
typedef Caitlyn::BigFloat Flo;
typedef Caitlyn::JsonDocument Doc;
typedef Caitlyn::Expected<String, String> Exp;

struct Shared
{
    String s[3];
    Caitlyn::StringBuilder b;
    Int i[2];
    Flo f[2];
    Doc d;
    std::map<String, String> m;
    Exp good, bad;
    Shared() : good(String("fine")), bad(Caitlyn::Unexpected<String>(String("wrong"))) {}
};

struct Own
{
    String s[2];
    Caitlyn::StringBuilder* b;
    Int i;
    Flo f;
    Doc d;
    std::map<String, String> m;
    Caitlyn::File* file;
    Own() : b(nullptr), file(nullptr) {}
    ~Own() { delete b; delete file; }
};

struct Call
{
    uint32_t kind, a, b, n, code;
    Str t, num, flo, json, key, fmt;
};

struct Plan
{
    Str start[2], num, flo, json;
    bool copies;                // own values start as copies of shared ones
    int id;
    std::vector<Call> calls;
};

static const Shared* shared;

static Str text()
{
    static const char* const p[] = {"a", "Z", " ", ",", "\xC3\xA9", "\xC3\x9F", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "\\n", "\\\"", "\\u0041", "1", "23", "{}", "word", "\xD0\x96", "\xCE\xB1", "\xC4\xB0", "\xE1\xBC\x88", "\xE1\xBA\x9E", "\\t", "\\\\", "\\x", "\\?", "\\/", "\\a", "\\b", "\\f", "\\r", "\\v", "\\u20AC", "\\", "\x7F", "\t"};
    Str s;
    const uint32_t n = sim::choose(7);
    for (uint32_t i = 0; i < n; ++i) s += sim::pick(p);
    return s;
}
static uint32_t letter()
{
    static const uint32_t codes[] = {0x41, 0x61, 0x20, 0x3000, 0xE9, 0xDF, 0x178, 0x131, 0x149, 0x130, 0x1C5, 0x1F0, 0x1E9E, 0x20AC, 0x1F600, 0x430, 0x212A, 0x390, 0x3B0, 0x666, 0x96F, 0};
    switch (sim::choose(8))
    {
        case 0: case 1: case 2: case 3: return sim::pick(codes);
        case 4: return 0x21 + sim::choose(0x160);
        case 5: return 0x390 + sim::choose(0xC0);
        case 6: return 0x1E90 + sim::choose(0x170);
        default: return 0x400 + sim::choose(0x60);
    }
}
static Str number()
{
    static const char* const p[] = {"0", "7", "-12", "99999999999", "1000000007", "x", "", "123456789012345678901"};
    return sim::pick(p);
}
static Str decimal()
{
    static const char* const p[] = {"0.5", "12.75", "3.1", "1000.001", "y", "9.99"};
    return sim::pick(p);
}
static Str document()
{
    static const char* const p[] = {"{}", "{\"k\":1}", "{\"k\":[1,2.5,true,null,\"\\u00e9x\"],\"b\":{\"c\":\"d\"}}", "{\"k\":\"text\",\"n\":-7}", "{\"k\":", "[1]x", "{\"k\":\"a\\\"b\\/c\\b\\f\\n\\r\\t\\\\\",\"n\":false}", "{\"k\":\"\\ud83d\\ude00 \\uABCD\",\"b\":[true,false,null,-0.5e3,1e2]}", "{\"k\":\"\\ud83d\"}", "{\"k\":\"\\x\"}", "{\"k\":\"\\u12g4\"}",
        "{\"k\":1,}", "{\"k\":[1,]}", "{\"k\" 1}", "{k:1}", "{\"k\":1 \"b\":2}", "{\"k\":[1 2]}", "{\"k\":[1", "{\"k\":\"ab", "{\"k\":tru}", "{\"k\":99999999999999999999}", "{\"k\":1.2.3}", "{\"k\":-}", "", "7", "{\"k\":?}",
        "{ \"k\" : [ 1.0 , { \"b\" : [ ] } ] , \"n\" : \"\xC3\xA9\xE2\x82\xAC\" } ", "{\"k\":1,\"k\":2}", "{\"b\":{\"n\":{\"k\":[0.25,-9007199254740993,\"\\u0000\"]}}}", "{\"b\":{\"b\":{\"b\":[[],{}]}}}"};
    return sim::pick(p);
}
static Str format()
{
    static const char* const p[] = {"{}", "{}-{}", "<{0}>", "{:*^12}", "{:>9}", "{:.2f}", "{{{}}}", "{", "{9}", "{}{}{}", "{}{}{0:>4}", "{:<7}|", "{:.3}", "{:d}", "{:s}", "{:08.2f}", "{1}{0}", "}", "{:^5}{:^5}", "{0}{}", "{:}", "{0:}|{}"};
    return sim::pick(p);
}

enum { KINDS = 94 };

static Plan plan(int id)
{
    Plan p;
    p.id = id;
    p.copies = sim::chance(500);
    p.start[0] = text(); p.start[1] = text();
    p.num = "42"; p.flo = decimal(); p.json = document();
    if (p.flo == "y") p.flo = "1.5";
    const uint32_t n = 1 + sim::choose(8);
    for (uint32_t k = 0; k < n; ++k)
    {
        Call c;
        c.kind = sim::choose(KINDS); c.a = sim::choose(3); c.b = sim::choose(2); c.n = sim::choose(6);
        c.code = letter();
        c.t = text(); c.num = number(); c.flo = decimal(); c.json = document(); c.fmt = format();
        static const char* const keys[] = {"k", "b", "n", "none", "\xC3\xA9"};
        c.key = sim::pick(keys);
        p.calls.push_back(c);
    }
    return p;
}

static Str show(const Caitlyn::Char& c) { return Str(c.data(), c.size()); }
static Str show(const Str& s) { return s; }
static Str show(const char* s) { return s; }
static Str show(const String& s) { Str t; for (const Caitlyn::Char& c : s) t += Str(c.data(), c.size()); return t; }

static Str thousandths(double d) { return std::to_string((long long)(d * 1000 + (d < 0 ? -0.5 : 0.5))); }

static Str read(const Caitlyn::Json::__Detail::JsonData& d)
{
    if (d.IsString()) return "\"" + show(d.GetString()) + "\"";
    if (d.IsIntegral()) return std::to_string(d.GetIntegral());
    if (d.IsFloating()) return thousandths(d.GetFloating());
    if (d.IsBoolean()) return d.GetBoolean() ? "true" : "false";
    if (d.IsNull()) return "null";
    return d.ToString().str() + "#" + std::to_string(d.Size());
}

// changes a copy of a value, then the value itself: the other must not notice
static Str copies(Own& o, const Call& c)
{
    const Shared& sh = *shared;
    Str bad;
    {
        const String& from = c.a == 0 ? o.s[0] : sh.s[c.a];
        const Str was = show(from);
        String copy(from), next;
        next = copy;
        copy.Append("+"); copy.Insert(0, "*"); if (copy.size() > 2) copy[1] = Caitlyn::Char('#'); copy.PushBack(Caitlyn::Char("\xC3\xA9"));
        if (show(from) != was || show(next) != was) bad += "text;";
        next.Clear();
        if (show(from) != was) bad += "text;";
        for (String::Iterator it = copy.begin(); it != copy.end(); ++it) *it = 'w';
        if (show(from) != was) bad += "text;";
    }
    {
        Caitlyn::StringBuilder copy(c.n % 2 ? *o.b : sh.b), again(copy);
        const Str was = show(copy.str());
        again.Append(String("more"));
        if (show(copy.str()) != was || show((c.n % 2 ? *o.b : sh.b).str()) != was) bad += "builder;";
    }
    {
        const Int& from = c.n % 2 ? o.i : sh.i[c.b];
        const Str was = show(from.ToString());
        Int copy(from), next; next = from;
        copy = copy + Int("11"); next = Int("4");
        if (show(from.ToString()) != was) bad += "integer;";
        const Flo& g = c.n % 2 ? o.f : sh.f[c.b];
        const Str had = show(g.ToString());
        Flo f(g); f = f + Flo("0.5");
        if (show(g.ToString()) != had) bad += "decimal;";
    }
    {
        const Doc& from = c.n % 2 ? o.d : sh.d;
        const Str was = show(from.ToString());
        Doc copy(from), next; next = copy;
        copy[String(c.key)][String("in")] = "new"; copy.AddMember(String("z"), Caitlyn::Json::MakeArray()); copy.RemoveMember(String("k"));
        if (show(from.ToString()) != was || show(next.ToString()) != was) bad += "document;";
        next[String("k")].Append(3);
        next[String("b")] = false;
        if (show(from.ToString()) != was) bad += "document;";
    }
    {
        const Exp& from = c.n % 2 ? sh.good : sh.bad;
        Exp copy(from), next(copy);
        const Str was = from.HasValue() ? show(from.Get()) : show(from.GetError());
        copy = Exp(String("something else"));
        next = copy;
        if ((from.HasValue() ? show(from.Get()) : show(from.GetError())) != was) bad += "expected;";
    }
    return bad.empty() ? Str("copies apart") : "CHANGED " + bad;
}

struct Nested
{
    String t;
    explicit Nested(const String& s) : t(s) {}
    String ToString() const { return String::Format(String("[{}:{}]"), t, t.size()); }
};
struct NestedText
{
    String t;
    explicit NestedText(const String& s) : t(s) {}
    Str str() const { return Caitlyn::MakeText(String("({} {})"), Nested(t), 1.5).str().str(); }
};

static Str file_name(int id) { return "/sim/own" + std::to_string(id) + ".txt"; }

static Str perform(Own& o, const Call& c, int id)
{
    const Shared& sh = *shared;
    const char* const cp = c.t.c_str();
    String& s = o.s[c.b];
    const String& ss = sh.s[c.a];
    switch (c.kind)
    {
        // values of its own
        case 0: s = String(cp); return show(s);
        case 1: s += o.s[1 - c.b].size() > 40 ? String("x") : o.s[1 - c.b]; return show(s);
        case 2: s.Append(cp); return show(s);
        case 3: s.Insert(s.size() / 2, cp); return show(s);
        case 4: s.PushBack(Caitlyn::Char((Caitlyn::CodePoint)c.code)); return show(s);
        case 5: s = s.ToUppercase(); return show(s);
        case 6: s = s.ToLowercase(); return show(s);
        case 7: return show(s.Substring(c.n));
        case 8: return show(String::Format(String(c.fmt), s, c.n));
        case 9: return show(String::Format(String(c.fmt), 1.25, s));
        case 10: { Str t; for (const Str& x : Caitlyn::Split(c.t, ',')) t += x + ";"; return t; }
        case 11: return Caitlyn::Repeat(c.t, c.n);
        case 12: return show(Caitlyn::EscapeString(String(c.t)));
        case 13: o.b->Append(s); return show(o.b->str());
        case 14: o.b->AppendLine(String(c.fmt), s, c.t.size()); return show(o.b->str());
        case 15: return show(Caitlyn::MakeText(String(c.fmt), s).str());
        case 16: o.m.insert(std::pair<const String, String>(String(c.key), s)); { Str t; for (const String& k : Caitlyn::GetMapKeys(o.m)) t += show(k) + ";"; return t; }
        case 17: o.i = Int(c.num.c_str()); return show(o.i.ToString());
        case 18: o.i = o.i + Int("5"); return show(o.i.ToString());
        case 19: if (o.i.Size() > 30) o.i = Int("3"); o.i = o.i * o.i; return show(o.i.ToString());
        case 20: if (o.i.Size() > 12) o.i = Int("1234"); return show((o.i / Int("7")).ToString()) + " " + show((o.i % Int("7")).ToString());
        case 21: return show(Int("12").Pow((int)c.n).ToString());
        case 22: return show(Int("144").Sqrt().ToString());
        case 23: o.f = Flo(c.flo.c_str()); return show(o.f.ToString());
        case 24: return show((o.f + Flo("0.5")).ToString()) + " " + show((o.f * Flo("0.5")).ToString());
        case 25: o.d.Parse(String(c.json)); return show(o.d.ToString()) + std::to_string((int)o.d.GetError());
        case 26: o.d[String(c.key)] = s.str(); return show(o.d.ToString(true));
        case 27: o.d[String(c.key)][c.n] = 1.5; return show(o.d.ToString());
        case 28: o.d.AddMember(String(c.key), Caitlyn::Json::MakeArray()); return show(o.d.ToString());
        case 29: o.d.RemoveMember(String(c.key)); return show(o.d.ToString());
        case 30: { Doc copy(o.d); copy[String("more")] = true; return show(copy.ToString()) + show(o.d.ToString()); }
        case 31: return std::to_string(Caitlyn::IsSpace(c.code)) + std::to_string(Caitlyn::IsUppercase(c.code)) + std::to_string(Caitlyn::IsLowercase(c.code)) + std::to_string(Caitlyn::ToUppercase(c.code)) + " " + std::to_string(Caitlyn::ToLowercase(c.code));
        case 32: return std::to_string(Caitlyn::FindFirstNonSpace(s)) + " " + std::to_string(Caitlyn::FindLastNonSpace(s)) + std::to_string(Caitlyn::IsNumber(s));
        case 33: return std::to_string(Caitlyn::kmp("a", c.t));
        case 34: { std::ostringstream os; os << s << o.i << o.f << o.d; return os.str(); }
        case 35: o.file->WriteLine(c.t.c_str()); return std::to_string(c.t.size());
        case 36: o.file->SetPosition(0); return show(o.file->Read());
        case 37: o.file->SetPosition(0); return show(o.file->ReadLine()) + "|" + (o.file->IsEof() ? "" : show(o.file->ReadLine()));
        case 38: return show(Caitlyn::Json::GetErrorString(o.d.GetError()));
        case 39: { Exp e = c.n % 2 ? Exp(s) : Exp(Caitlyn::Unexpected<String>(s)); const String& v = e.UnwrapOrDefault(); return show(v) + (e.HasValue() ? "+" : "-"); }
        // values that others read as well
        case 40: return show(ss) + ss.str();
        case 41: return show(ss.Substring(ss.size() / 2)) + show(ss + s);
        case 42: s = ss; s.Append("x"); return show(s) + show(ss);
        case 43: return show(ss.ToUppercase()) + show(ss.ToLowercase());
        case 44: return std::to_string(ss.Find(String("a"))) + std::to_string(ss == sh.s[0]) + std::to_string(ss < sh.s[1]) + std::to_string(ss.Contains(sh.s[2])) + std::to_string(ss == "a");
        case 45: return show(String::Format(sh.s[0], s, ss));
        case 46: return show(sh.b.str()) + show(Caitlyn::StringBuilder(sh.b).str());
        case 47: return show((sh.i[0] + sh.i[1]).ToString()) + show((sh.i[0] * o.i).ToString()) + std::to_string(sh.i[0] < sh.i[1]) + show(sh.i[c.b].ToString());
        case 48: return show((sh.f[0] + sh.f[1]).ToString()) + show((sh.f[0] * sh.f[1]).ToString()) + std::to_string(sh.f[0] == sh.f[1]);
        case 49: return show(sh.d.ToString(c.n % 2 != 0)) + std::to_string(sh.d.Size()) + std::to_string(sh.d.HasMember(String(c.key)));
        case 50: return read(sh.d[String(c.key)]);
        case 51: o.d = sh.d; o.d[String(c.key)] = (int)c.n; return show(o.d.ToString()) + show(sh.d.ToString());
        case 52: { Str t; for (const String& v : Caitlyn::GetMapValues(sh.m)) t += show(v) + ";"; const std::map<String, String>::const_iterator it = sh.m.find(String(c.key)); return t + (it == sh.m.end() ? "" : show(it->second)); }
        case 53: { const Exp e(c.n % 2 ? sh.good : sh.bad); return (e.HasValue() ? show(e.Get()) : show(e.GetError())) + show(sh.bad.UnwrapOrDefault()); }
        // more of the same, by kind of value
        case 54: { Caitlyn::Char a((Caitlyn::CodePoint)c.code), b('x'); Str t = show(a) + std::to_string(a == b) + std::to_string(a < b) + std::to_string(a > b) + std::to_string(a <= b) + std::to_string(a >= b) + std::to_string(a != b);
                   b = a; b = 'q'; a = (Caitlyn::CodePoint)0x20AC; return t + show(a) + show(b) + std::to_string(a.size()) + std::to_string(a.IsEmpty()) + std::to_string(a.GetCodePoint()); }
        case 55: { Caitlyn::Char a(c.key.c_str()); a = c.key.c_str(); a = c.key; const Caitlyn::Char b(c.key); std::ostringstream os; os << a << b; return os.str() + a.c_str() + b.str(); }
        case 56: { const Caitlyn::Char a((Caitlyn::CodePoint)c.code); return show(Caitlyn::ToUppercase(a)) + show(Caitlyn::ToLowercase(a)) + std::to_string(Caitlyn::ToUppercase((Caitlyn::CodePoint)c.code)) + "," + std::to_string(Caitlyn::ToLowercase((Caitlyn::CodePoint)c.code)); }
        case 57: { const Caitlyn::CodePoint p = c.code; return std::to_string(Caitlyn::IsUppercase(p)) + std::to_string(Caitlyn::IsLowercase(p)) + std::to_string(Caitlyn::IsLetter(p)) + std::to_string(Caitlyn::IsDigit(p)) + std::to_string(Caitlyn::IsSpace(p)) + std::to_string(Caitlyn::ToDigit(p)); }
        case 58: { Str t; for (String::ReverseIterator it = s.rbegin(); it != s.rend(); ++it) t += show(*it); for (String::ConstReverseIterator it = ss.rbegin(); it != ss.rend(); ++it) t += show(*it); for (String::ConstIterator it = ss.cbegin(); it != ss.cend(); ++it) t += show(*it); for (String::Iterator it = s.begin(); it != s.end(); ++it) t += show(*it); return t; }
        case 59: return std::to_string(ss.StartsWith(s)) + std::to_string(ss.EndsWith(s)) + std::to_string(s.StartsWith(ss)) + std::to_string(s.EndsWith(sh.s[1])) + std::to_string(ss.StartsWith("a")) + std::to_string(ss.EndsWith(String("a")));
        case 60: return std::to_string(ss > s) + std::to_string(ss >= s) + std::to_string(ss <= s) + std::to_string(ss != s) + std::to_string(ss > cp) + std::to_string(ss < cp) + std::to_string(ss >= cp) + std::to_string(ss <= cp) + std::to_string(ss != cp) + std::to_string(s == ss);
        case 61: return std::to_string(ss.size()) + "," + std::to_string(ss.Length()) + "," + std::to_string(ss.ByteCount()) + "," + std::to_string(ss.data().size()) + std::to_string(ss.IsEmpty()) + std::to_string(ss.NotEmpty());
        case 62: return show(ss.At(c.n)) + show(s.At(c.n));
        case 63: return std::to_string((long)ss.ReverseFind(String("a"))) + "," + std::to_string((long)s.Find(String(c.key))) + "," + std::to_string((long)ss.FindIf([](const Caitlyn::Char& x) { return x.size() > 1; })) + "," + std::to_string((long)ss.FindIfNot([](const Caitlyn::Char& x) { return x.size() > 1; }));
        case 64: s.Insert(c.n, ss); return show(s);
        case 65: s.Insert(s.size() / 2, c.n, Caitlyn::Char((Caitlyn::CodePoint)(c.code ? c.code : 0x41))); return show(s);
        case 66: s.Append(c.n, "y"); s.Append(c.n, Caitlyn::Char("z")); return show(s);
        case 67: s.Clear(); s = String((Caitlyn::SizeType)c.n, 'c') + String((Caitlyn::SizeType)2, Caitlyn::Char("\xC3\xA9")) + String(ss.data()); return show(s);
        case 68: { std::istringstream is(c.t + "\nrest of it"); String a, b; is >> a >> b; return show(a) + "|" + show(b); }
        case 69: { std::istringstream is(c.json); o.d.Parse(is.rdbuf()); return show(o.d.ToString()) + show(o.d.GetErrorString()) + std::to_string(o.d.HasError()); }
        case 70: { std::istringstream is(c.json); Doc d; is >> d; Doc e(std::move(d)); d = std::move(e); return show(d.ToString(false, c.n)) + show(e.ToString()) + std::to_string((int)d.GetType()); }
        case 71: { Doc d = Caitlyn::Json::MakeDocument(String(c.json)); Doc e = Caitlyn::Json::MakeDocument(d); Doc f = Caitlyn::Json::MakeDocument(Caitlyn::Json::MakeDocument()); d = String("{\"k\":\"" + (c.key.size() > 1 ? Str("\\u00e9") : c.key) + "\\\\\\t\\u0001\"}"); return show(d.ToString()) + show(e.ToString()) + show(f.ToString()); }
        case 72: { Str t; for (int k = 0; k <= (int)Caitlyn::Json::JsonError::NestingTooDeep + 1; ++k) t += Caitlyn::Json::GetErrorString((Caitlyn::Json::JsonError)k); return t; }
        case 73: o.d[String(c.key)].Append((int)c.n, 2.5, true, "text"); o.d.AddMember(String("made"), c.n % 3 ? c.n % 2 ? Caitlyn::Json::MakeNull() : Caitlyn::Json::MakeString(c.key) : c.n ? Caitlyn::Json::MakeBoolean(true) : Caitlyn::Json::MakeFloating(0.25)); return show(o.d.ToString()) + std::to_string(o.d[String(c.key)].Length()) + read(o.d[String(c.key)].At(c.n % 4)) + std::to_string(o.d[String(c.key)].IsArray()) + std::to_string(o.d.HasMember(String(c.key)));
        case 74: { const Int& a = sh.i[0]; const Int& b = sh.i[1]; return show((a - b).ToString()) + show(a.Abs().ToString()) + show(b.Abs().ToString()) + std::to_string(a > b) + std::to_string(a <= b) + std::to_string(a >= b) + std::to_string(a == b) + std::to_string(a != o.i) + std::to_string(b < o.i); }
        case 75: o.i = o.i.Size() > 20 ? Int("-5") : o.i - Int("123456789012"); return show(o.i.ToString()) + show((o.i + sh.i[c.b]).ToString());
        case 76: { Int a(o.i), b(std::move(a)); a = b; a = Int("-8"); return show(a.ToString()) + show(b.ToString()) + show(Int(c.num.c_str()).ToString()); }
        case 77: return show(Int("10").Divide(Int(c.n % 2 ? "0" : "3")).ToString());
        case 78: { const Flo& a = sh.f[0]; const Flo& b = sh.f[1]; return std::to_string(a < b) + std::to_string(a > b) + std::to_string(a <= b) + std::to_string(a >= b) + std::to_string(a != b) + show((a - b).ToString()) + show(a.Abs().ToString()) + show(a.Sqr().ToString()) + show(b.Pow((int)c.n).ToString()) + std::to_string(a.Size()); }
        case 79: { Flo a(c.flo.c_str()), b(std::move(a)); a = b; b = Flo("-2.25"); return show(a.ToString()) + show(b.ToString()) + show((a / Flo("0.5")).ToString()); }
        case 80: { Exp e(Caitlyn::MakeError(s)), g(Caitlyn::MakeError(cp)), h(ss); e = h; h = g; g = std::move(e); Exp m(std::move(h)); return show(g.UnwrapOr(String("other"))) + show(m.UnwrapOr(String("other"))) + std::to_string(g.HasError()) + (m.HasValue() ? show(m.Get()) : show(m.GetError())); }
        case 81: { Exp e(c.n % 2 ? sh.good : sh.bad);
                   const Caitlyn::Expected<String, String> r = e.Map([](const String& x) { return x + String("!"); });
                   return (r.HasValue() ? show(r.Get()) : show(r.GetError())) + (c.n % 4 ? show(sh.bad.GetError()) : show(sh.good.GetError())); }
        case 82: { Caitlyn::StringBuilder b(cp), d('c'), e(ss), f(String(c.fmt), s, 5); b.AppendLine(ss); d.Append(String("{}{}"), b.str(), c.n); Caitlyn::StringBuilder g(std::move(d)); g.Append(e.str()); return show(g.str()) + show(f.str()) + show(Caitlyn::MakeText().str()) + show(Caitlyn::MakeText('m').str()) + show(Caitlyn::MakeText(ss).str()); }
        case 83: if (c.n == 5) o.file->Erase(); else if (c.n == 4) { o.file->Close(); o.file->Open(); } else { o.file->Write(s); o.file->Write(cp); o.file->WriteLine(s); o.file->Append(o.d); o.file->AppendLine(o.i); o.file->AppendLine(cp); o.file->AppendLine(ss); o.file->Append(cp); o.file->WriteLine(String(c.fmt), s, c.n); } return std::to_string((long)o.file->GetPosition());
        case 84: { o.file->SetPosition(0); Str t; for (int k = 0; k < 6 && !o.file->IsEof(); ++k) t += show(o.file->ReadLine(c.n % 2 ? 'a' : '\n')) + "|"; Caitlyn::File copy(*o.file); return t + show(copy.Read()); }
        case 85: { static const double d[] = {0.0, 1234567.875, -0.5, 1e15, -99999.25, 3.0}; return show(String::Format(String(c.fmt), d[c.n], (float)d[c.n] , (long double)d[5 - c.n])) + show(String::Format(String("{} {} {}"), (long long)-1234567, 7654321u, d[c.n])); }
        case 86: { static const double d[] = {0.0, 1234.5, -0.25, 12.375, -99999.25, 3.0}; const Flo f(d[c.n]), g((float)d[5 - c.n]); return show(f.ToString()) + show((f * g).ToString()) + show(Int((int64_t)d[c.n] * 1000001).ToString()) + show(Int((uint64_t)1234567890123ull).ToString()) + show((o.f * f).ToString()); }
        // arguments of the program's own types, which use the library themselves
        case 87: return show(String::Format(String(c.fmt), Nested(s), NestedText(ss))) + show(String::Format(String("{}<{}>{}"), NestedText(s), Nested(ss), 1234));
        case 88: o.file->WriteLine(String("{} {:.2f} {}"), 1234567, 4321.125, Nested(s)); o.file->Write(String("{:>9}"), 1234.5); o.file->Append(Nested(s)); return std::to_string((long)o.file->GetPosition());
        case 89: { Str t; try { Caitlyn::Test::TestFailMessage("f.cpp", 1234) << "wrong: " << cp; } catch (const std::runtime_error& e) { t = e.what(); } return t; }
        case 90: { Caitlyn::StringBuilder b(String("{}|{:.1f}"), 1234567, 1234.25); b.Append(String("{}"), Nested(ss)); b.AppendLine(String("{:^12}"), -1234567); return show(b.str()) + show(Caitlyn::MakeText(String("{} {}"), 7654321, 0.5f).str()); }
        case 91: { Doc d; d[String("i")] = 1234567; d[String("f")] = 1234.5; d[String(c.key)].Append(Nested(s).ToString().str(), 7654321, -0.125); const Str t = show(d.ToString(c.n % 2 != 0)); Doc e; e.Parse(String(t)); std::istringstream is(t); Doc f; is >> f; std::ostringstream os; os << e << f; return t + os.str() + thousandths(e[String("f")].GetFloating()) + std::to_string(e[String("i")].GetIntegral()); }
        case 92: { std::ostringstream os; os.imbue(std::locale::classic()); os << s << String::Format(String("{}"), 1234567) << Int("-12345678901234") << Flo("1234.5") << Caitlyn::Char((Caitlyn::CodePoint)(c.code ? c.code : 0x41)); return os.str(); }
        case 93: return show(String("i I \xC4\xB1 \xC4\xB0 \xC3\xA9 z").ToUppercase()) + show(String("i I \xC4\xB1 \xC4\xB0 Z \xC3\x80").ToLowercase()) + std::to_string(Caitlyn::IsNumber(String("1234"))) + std::to_string(Caitlyn::IsNumber(String("12.5"))) + std::to_string(Caitlyn::IsNumber(String(c.num)));
        // a copy and what it was copied from
        default: return copies(o, c);
    }
}

static Str everything(const Shared& sh)
{
    Str t;
    sim::lib([&] {
        for (int k = 0; k < 3; ++k) t += show(sh.s[k]) + "|";
        t += show(sh.b.str()) + "|" + show(sh.i[0].ToString()) + "|" + show(sh.i[1].ToString()) + "|" + show(sh.f[0].ToString()) + "|" + show(sh.f[1].ToString()) + "|" + show(sh.d.ToString()) + "|";
        for (const std::pair<const String, String>& e : sh.m) t += show(e.first) + "=" + show(e.second) + ";";
        t += show(sh.good.Get()) + "|" + show(sh.bad.GetError());
    });
    return t;
}

// What one thread, object or handler does, call by call, on values of its own.
struct Player
{
    const Plan* p;
    Own* o;
    size_t next;
    bool begun, ended;
    Str all;
    explicit Player(const Plan* plan = nullptr) : p(plan), o(nullptr), next(0), begun(false), ended(false) {}
};

static void begin(Player& y)
{
    const Plan& p = *y.p;
    Own*& o = y.o;
    y.begun = true;
    const sim::Outcome made = sim::lib([&] {
        o = new Own;
        for (int k = 0; k < 2; ++k) { if (p.copies) o->s[k] = shared->s[k]; else o->s[k] = String(p.start[k]); }
        if (p.copies) { o->b = new Caitlyn::StringBuilder(shared->b); o->i = shared->i[0]; o->f = shared->f[0]; o->d = shared->d; o->m = shared->m; }
        else { o->b = new Caitlyn::StringBuilder; o->i = Int(p.num.c_str()); o->f = Flo(p.flo.c_str()); o->d.Parse(String(p.json)); }
        o->file = new Caitlyn::File(String(file_name(p.id)));
    });
    y.all += Str("start ") + sim::kind_name(made.kind) + made.what + "\n";
    if (!made.ok()) y.next = p.calls.size();
}

static void play(Player& y, size_t upto)
{
    for (; y.next < upto && y.next < y.p->calls.size(); ++y.next)
    {
        const Call& c = y.p->calls[y.next];
        Str t;
        const sim::Outcome r = sim::lib([&] { t = perform(*y.o, c, y.p->id); });
        y.all += std::to_string(c.kind) + " " + sim::kind_name(r.kind) + (r.ok() ? "" : r.what) + " " + sim::show(t, 400) + "\n";
    }
}

static void end(Player& y)
{
    sim::lib([&] { delete y.o; });
    y.o = nullptr;
    y.ended = true;
}

static Str labelled(const Plan& p)
{
    Player y(&p);
    begin(y);
    play(y, p.calls.size());
    end(y);
    return y.all;
}

// what the values that all may read are made from
struct Recipe { Str s[3], json; };

static Recipe recipe()
{
    Recipe r;
    for (int k = 0; k < 3; ++k) { const Str t = text(); r.s[k] = k == 0 && t.size() % 2 ? "<{}|{}>" : t.c_str(); }
    r.json = document();
    return r;
}

static Shared* make_shared(const Recipe& r)
{
    Shared* box = nullptr;
    sim::lib([&] {
        box = new Shared;
        Shared& sh = *box;
        for (int k = 0; k < 3; ++k) sh.s[k] = String(r.s[k]);
        sh.b.Append(sh.s[1]);
        sh.i[0] = Int("98765432109876543210"); sh.i[1] = Int("-17");
        sh.f[0] = Flo("12.5"); sh.f[1] = Flo("0.25");
        sh.d.Parse(String(r.json));
        sh.m.insert(std::pair<const String, String>(String("k"), sh.s[1]));
        sh.m.insert(std::pair<const String, String>(String("b"), sh.s[2]));
    });
    return box;
}

}  // namespace calls

#endif
