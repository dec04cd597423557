// JSON reference: values, an independent reader and writer, and comparison with the library's values.
#ifndef JSON_MODEL_H_
#define JSON_MODEL_H_

#include "Caitlyn/__Serializing/Json.h"
#include "../core/sim.h"

#include <cmath>
#include <cstring>
#include <cstdlib>
#include <limits>

namespace js {

typedef std::string Str;
typedef Caitlyn::Json::__Detail::JsonData Data;
typedef Caitlyn::Json::JsonClass Class;

enum Type { NUL, BOOL, INT, FLT, STR, ARR, OBJ };

struct V
{
    Type t;
    bool b;
    long long i;
    float f;
    Str s;
    std::vector<V> a;
    std::vector<std::pair<Str, V> > o;
    V() : t(NUL), b(false), i(0), f(0) {}
    static V boolean(bool x) { V v; v.t = BOOL; v.b = x; return v; }
    static V integer(long long x) { V v; v.t = INT; v.i = x; return v; }
    static V floating(float x) { V v; v.t = FLT; v.f = x; return v; }
    static V string(const Str& x) { V v; v.t = STR; v.s = x; return v; }
    static V array() { V v; v.t = ARR; return v; }
    static V object() { V v; v.t = OBJ; return v; }
    V* find(const Str& k) { for (size_t n = 0; n < o.size(); ++n) if (o[n].first == k) return &o[n].second; return nullptr; }
    const V* find(const Str& k) const { return const_cast<V*>(this)->find(k); }
    V& set(const Str& k) { V* p = find(k); if (p) return *p; o.push_back(std::make_pair(k, V())); return o.back().second; }
};

inline bool same(const V& x, const V& y)
{
    if (x.t != y.t) return false;
    switch (x.t)
    {
        case NUL: return true;
        case BOOL: return x.b == y.b;
        case INT: return x.i == y.i;
        case FLT: return x.f == y.f && std::signbit(x.f) == std::signbit(y.f);
        case STR: return x.s == y.s;
        case ARR:
            if (x.a.size() != y.a.size()) return false;
            for (size_t k = 0; k < x.a.size(); ++k) if (!same(x.a[k], y.a[k])) return false;
            return true;
        default:
            if (x.o.size() != y.o.size()) return false;
            for (size_t k = 0; k < x.o.size(); ++k) if (x.o[k].first != y.o[k].first || !same(x.o[k].second, y.o[k].second)) return false;
            return true;
    }
}

// ---- reference writer -----------------------------------------------------------------------------------------

inline uint32_t code_point(const Str& s, size_t& i)
{
    const unsigned char c = (unsigned char)s[i];
    const int n = c < 0x80 ? 0 : c < 0xE0 ? 1 : c < 0xF0 ? 2 : 3;
    uint32_t cp = n == 0 ? c : c & (0x3F >> n);
    ++i;
    for (int k = 0; k < n; ++k) cp = (cp << 6) | ((unsigned char)s[i++] & 0x3F);
    return cp;
}

inline Str hex4(uint32_t v, bool upper)
{
    char b[8];
    snprintf(b, sizeof b, upper ? "\\u%04X" : "\\u%04x", v);
    return b;
}

// free: 0 no choices, else the writer varies spaces and escapes
inline void write_string(Str& out, const Str& s, bool free)
{
    out += '"';
    const uint32_t style = free ? sim::choose(4) : 0;   // how eagerly characters are escaped
    for (size_t i = 0; i < s.size();)
    {
        const size_t from = i;
        const uint32_t cp = code_point(s, i);
        const bool up = free && sim::chance(500);
        if (style >= 2 && sim::chance(style == 2 ? 200 : 800))
        {
            if (cp >= 0x10000) out += hex4(0xD800 + ((cp - 0x10000) >> 10), up) + hex4(0xDC00 + ((cp - 0x10000) & 0x3FF), up);
            else out += hex4(cp, up);
            continue;
        }
        if (cp == '"') out += "\\\"";
        else if (cp == '\\') out += "\\\\";
        else if (cp == '/' && style == 1) out += "\\/";
        else if (cp == '\n' && style < 3) out += "\\n";
        else if (cp == '\t' && style < 3) out += "\\t";
        else if (cp == '\r' && style < 3) out += "\\r";
        else if (cp == '\b' && style < 3) out += "\\b";
        else if (cp == '\f' && style < 3) out += "\\f";
        else if (cp < 0x20) out += hex4(cp, up);
        else out += s.substr(from, i - from);
    }
    out += '"';
}

inline Str space(bool free)
{
    static const char* const sp[] = {"", "", "", " ", "\n", "  ", "\t", "\r\n", " \n  "};
    return free ? Str(sim::pick(sp)) : Str();
}

inline void write(Str& out, const V& v, bool free)
{
    char b[64];
    switch (v.t)
    {
        case NUL: out += "null"; break;
        case BOOL: out += v.b ? "true" : "false"; break;
        case INT: snprintf(b, sizeof b, "%lld", v.i); out += b; break;
        case FLT:
        {
            const uint32_t k = free ? sim::choose(3) : 0;
            snprintf(b, sizeof b, k == 1 ? "%.9e" : k == 2 ? "%.8E" : "%.9g", (double)v.f);
            if (!strpbrk(b, ".eE")) strcat(b, ".0");
            out += b;
            break;
        }
        case STR: write_string(out, v.s, free); break;
        case ARR:
            out += "[" + space(free);
            for (size_t k = 0; k < v.a.size(); ++k)
            {
                if (k) out += space(free) + "," + space(free);
                write(out, v.a[k], free);
            }
            out += space(free) + "]";
            break;
        default:
            out += "{" + space(free);
            for (size_t k = 0; k < v.o.size(); ++k)
            {
                if (k) out += space(free) + "," + space(free);
                write_string(out, v.o[k].first, free);
                out += space(free) + ":" + space(free);
                write(out, v.o[k].second, free);
            }
            out += space(free) + "}";
            break;
    }
}

// ---- reference reader -----------------------------------------------------------------------------------------
// strict: RFC 8259.  Otherwise also what a lenient reader may take without misreading: Unicode white space between
// tokens, control characters inside strings, numbers in any form strtod/strtoll read completely.

struct Reader
{
    const Str& in;
    size_t p;
    bool strict, bad;
    Reader(const Str& text, bool st) : in(text), p(0), strict(st), bad(false) {}

    bool ws_at(size_t& n)
    {
        const unsigned char c = (unsigned char)in[p];
        n = 1;
        if (c == ' ' || c == '\n' || c == '\t' || c == '\r') return true;
        if (strict) return false;
        // any code point that is white space in Unicode, in any encoding of it
        const size_t len = c < 0x80 ? 1 : (c & 0xE0) == 0xC0 ? 2 : (c & 0xF0) == 0xE0 ? 3 : (c & 0xF8) == 0xF0 ? 4 : 0;
        if (len == 0 || p + len > in.size()) return false;
        uint32_t cp = len == 1 ? c : c & (0xFFu >> (len + 1));
        for (size_t k = 1; k < len; ++k)
        {
            if (((unsigned char)in[p + k] & 0xC0) != 0x80) return false;
            cp = (cp << 6) | ((unsigned char)in[p + k] & 0x3F);
        }
        n = len;
        if ((cp >= 9 && cp <= 13) || cp == 0x20 || cp == 0x85 || cp == 0xA0 || cp == 0x1680 || cp == 0x180E || (cp >= 0x2000 && cp <= 0x200D) || cp == 0x2028 || cp == 0x2029 || cp == 0x202F || cp == 0x205F || cp == 0x2060 || cp == 0x3000) return true;
        return false;
    }
    void ws() { size_t n; while (p < in.size() && ws_at(n)) p += n; }
    bool lit(const char* t) { if (in.compare(p, strlen(t), t) == 0) { p += strlen(t); return true; } return false; }
    bool hex(uint32_t& v)
    {
        v = 0;
        for (int k = 0; k < 4; ++k, ++p)
        {
            if (p >= in.size()) return false;
            const char c = in[p];
            const int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
            if (d < 0) return false;
            v = v * 16 + (uint32_t)d;
        }
        return true;
    }
    static void utf8(Str& s, uint32_t c)
    {
        if (c < 0x80) s += (char)c;
        else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 0x3F)); }
        else if (c < 0x10000) { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | (c >> 6 & 0x3F)); s += (char)(0x80 | (c & 0x3F)); }
        else { s += (char)(0xF0 | c >> 18); s += (char)(0x80 | (c >> 12 & 0x3F)); s += (char)(0x80 | (c >> 6 & 0x3F)); s += (char)(0x80 | (c & 0x3F)); }
    }
    Str str()
    {
        Str s;
        if (p >= in.size() || in[p] != '"') { bad = true; return s; }
        ++p;
        for (;;)
        {
            if (p >= in.size()) { bad = true; return s; }
            const unsigned char c = (unsigned char)in[p];
            if (c == '"') { ++p; return s; }
            if (c == 0 || (strict && c < 0x20)) { bad = true; return s; }
            if (c != '\\') { s += (char)c; ++p; continue; }
            if (++p >= in.size()) { bad = true; return s; }
            const char e = in[p++];
            switch (e)
            {
                case '"': case '\\': case '/': s += e; break;
                case 'b': s += '\b'; break;
                case 'f': s += '\f'; break;
                case 'n': s += '\n'; break;
                case 'r': s += '\r'; break;
                case 't': s += '\t'; break;
                case 'u':
                {
                    uint32_t v, w;
                    if (!hex(v)) { bad = true; return s; }
                    if (v >= 0xD800 && v < 0xDC00)
                    {
                        if (!lit("\\u") || !hex(w) || w < 0xDC00 || w > 0xDFFF) { bad = true; return s; }
                        v = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00);
                    }
                    else if (v == 0 || (v >= 0xDC00 && v < 0xE000)) { bad = true; return s; }
                    utf8(s, v);
                    break;
                }
                default: bad = true; return s;
            }
        }
    }
    static bool grammar(const Str& n)
    {
        size_t k = 0;
        if (k < n.size() && n[k] == '-') ++k;
        if (k >= n.size() || n[k] < '0' || n[k] > '9') return false;
        if (n[k] == '0') ++k; else while (k < n.size() && n[k] >= '0' && n[k] <= '9') ++k;
        if (k < n.size() && n[k] == '.')
        {
            const size_t f = ++k;
            while (k < n.size() && n[k] >= '0' && n[k] <= '9') ++k;
            if (k == f) return false;
        }
        if (k < n.size() && (n[k] == 'e' || n[k] == 'E'))
        {
            ++k;
            if (k < n.size() && (n[k] == '+' || n[k] == '-')) ++k;
            const size_t f = k;
            while (k < n.size() && n[k] >= '0' && n[k] <= '9') ++k;
            if (k == f) return false;
        }
        return k == n.size();
    }
    V number()
    {
        const size_t from = p;
        while (p < in.size() && in[p] && strchr("0123456789+-.eE", in[p])) ++p;
        const Str n = in.substr(from, p - from);
        if (n.empty() || (strict && !grammar(n))) { bad = true; return V(); }
        char* end;
        if (n.find_first_of(".eE+") == Str::npos)
        {
            errno = 0;
            const long long v = strtoll(n.c_str(), &end, 10);
            if (*end || end == n.c_str() || errno) bad = true;
            return V::integer(v);
        }
        errno = 0;
        const double d = strtod(n.c_str(), &end);
        if (*end || end == n.c_str()) bad = true;
        const float f = (float)d;
        if (std::isinf(f)) bad = true;
        return V::floating(f);
    }
    V value()
    {
        ws();
        if (p >= in.size()) { bad = true; return V(); }
        const char c = in[p];
        if (c == '{')
        {
            V v = V::object();
            ++p;
            ws();
            if (p < in.size() && in[p] == '}') { ++p; return v; }
            for (;;)
            {
                ws();
                const Str k = str();
                if (bad) return v;
                ws();
                if (p >= in.size() || in[p] != ':') { bad = true; return v; }
                ++p;
                V m = value();
                if (bad) return v;
                v.set(k) = m;
                ws();
                if (p < in.size() && in[p] == ',') { ++p; continue; }
                if (p < in.size() && in[p] == '}') { ++p; return v; }
                bad = true;
                return v;
            }
        }
        if (c == '[')
        {
            V v = V::array();
            ++p;
            ws();
            if (p < in.size() && in[p] == ']') { ++p; return v; }
            for (;;)
            {
                v.a.push_back(value());
                if (bad) return v;
                ws();
                if (p < in.size() && in[p] == ',') { ++p; continue; }
                if (p < in.size() && in[p] == ']') { ++p; return v; }
                bad = true;
                return v;
            }
        }
        if (c == '"') { const Str s = str(); return V::string(s); }
        if (lit("true")) return V::boolean(true);
        if (lit("false")) return V::boolean(false);
        if (lit("null")) return V();
        return number();
    }
};

// what the text denotes as a document (an object); false: nothing
inline bool denotes(const Str& text, bool strict, V& v)
{
    Reader r(text, strict);
    v = r.value();
    r.ws();
    return !r.bad && r.p == text.size() && v.t == OBJ;
}

// ---- comparison with the library ------------------------------------------------------------------------------

inline Class class_of(Type t)
{
    static const Class c[] = {Class::Null, Class::Boolean, Class::Integral, Class::Floating, Class::String, Class::Array, Class::Object};
    return c[t];
}
inline const char* type_name(Type t)
{
    static const char* const n[] = {"null", "boolean", "integral", "floating", "string", "array", "object"};
    return n[t];
}

// Read a library value through its accessors.  GetData is not const, hence the cast.
inline V read(const Data& d)
{
    V v;
    switch (d.GetType())
    {
        case Class::Null: v.t = NUL; break;
        case Class::Boolean: v.t = BOOL; v.b = d.GetBoolean(); break;
        case Class::Integral: v.t = INT; v.i = d.GetIntegral(); break;
        case Class::Floating: v.t = FLT; v.f = d.GetFloating(); break;
        case Class::String: v.t = STR; v.s = d.GetString().str(); break;
        case Class::Array:
            v.t = ARR;
            for (size_t k = 0; k < d.Size(); ++k) v.a.push_back(read(d.At(k)));
            break;
        case Class::Object:
        {
            v.t = OBJ;
            const auto& o = const_cast<Data&>(d).GetData();
            for (size_t k = 0; k < o.size(); ++k) v.o.push_back(std::make_pair(Str(o[k].first.str()), read(*o[k].second)));
            break;
        }
        default: sim_fail("broken-type", "a JSON value has the type %d", (int)d.GetType());
    }
    return v;
}

// The accessors of one value agree with the model.
inline void check_accessors(const Data& d, const V& v, const Str& where)
{
    if (d.GetType() != class_of(v.t)) sim::check_fail("wrong-type", where + ": a value that should be " + type_name(v.t) + " has type " + std::to_string((int)d.GetType()));
    if (d.IsNull() != (v.t == NUL) || d.IsBoolean() != (v.t == BOOL) || d.IsIntegral() != (v.t == INT) || d.IsFloating() != (v.t == FLT) || d.IsString() != (v.t == STR) || d.IsArray() != (v.t == ARR) || d.IsObject() != (v.t == OBJ))
        sim::check_fail("wrong-type", where + ": the type queries disagree with the type");
    const size_t n = v.t == ARR ? v.a.size() : v.t == OBJ ? v.o.size() : (size_t)-1;
    if (d.Size() != n || d.Length() != n) sim::check_fail("wrong-size", where + ": size " + std::to_string(d.Size()) + " instead of " + std::to_string(n));
    if (d.GetBoolean() != (v.t == BOOL && v.b)) sim::check_fail("wrong-value", where + ": wrong boolean");
    if (d.GetIntegral() != (v.t == INT ? v.i : 0)) sim::check_fail("wrong-value", where + ": wrong integer " + std::to_string(d.GetIntegral()));
    const float f = d.GetFloating(), want_f = v.t == FLT ? v.f : 0.0f;
    if (f != want_f || std::signbit(f) != std::signbit(want_f)) sim::check_fail("wrong-value", where + ": wrong number " + std::to_string(f));
    if (Str(d.GetString().str()) != (v.t == STR ? v.s : Str())) sim::check_fail("wrong-value", where + ": text " + sim::show(d.GetString().str()) + " instead of " + sim::show(v.s));
    // a member that is not there
    static const char* const keys[] = {"", "no such member", "a"};
    for (const char* k : keys)
    {
        bool there = false;
        for (size_t i = 0; v.t == OBJ && i < v.o.size(); ++i) there = there || v.o[i].first == k;
        if (d.HasMember(Caitlyn::String(k)) != there) sim::check_fail("member-invented", where + ": a member " + sim::show(k) + (there ? " is missing" : " is reported that does not exist"));
    }
    bool refused = false;
    try { const_cast<Data&>(d).GetData(); }
    catch (const std::logic_error&) { refused = true; }
    if (refused != (v.t != OBJ)) sim::check_fail("wrong-type", where + ": the members " + (refused ? "of an object are refused" : "are handed out of a value that is no object"));
}

inline void check(const Data& d, const V& v, const Str& where)
{
    check_accessors(d, v, where);
    if (v.t == ARR) for (size_t k = 0; k < v.a.size(); ++k) check(d.At(k), v.a[k], where + "[" + std::to_string(k) + "]");
    if (v.t == OBJ)
    {
        for (size_t k = 0; k < v.o.size(); ++k)
        {
            const Caitlyn::String key(v.o[k].first);
            if (!d.HasMember(key)) sim::check_fail("member-missing", where + ": member " + sim::show(v.o[k].first) + " is missing");
            check(d.At(key), v.o[k].second, where + "." + sim::show(v.o[k].first, 12));
        }
        const auto& o = const_cast<Data&>(d).GetData();
        for (size_t k = 0; k < v.o.size(); ++k) if (Str(o[k].first.str()) != v.o[k].first) sim::check_fail("member-order", where + ": member " + std::to_string(k) + " is " + sim::show(o[k].first.str()) + " instead of " + sim::show(v.o[k].first));
    }
}

inline bool has(const V& v, const Str& key)
{
    for (size_t i = 0; i < v.o.size(); ++i) if (v.o[i].first == key) return true;
    return false;
}

// A document: its root is reachable by key and as text only.
inline void check_doc(const Caitlyn::JsonDocument& d, const V& v, const Str& where)
{
    if (d.GetType() != class_of(v.t)) sim::check_fail("wrong-type", where + ": the document has type " + std::to_string((int)d.GetType()) + " instead of " + type_name(v.t));
    if (v.t != OBJ) return;
    if (d.Size() != v.o.size()) sim::check_fail("wrong-size", where + ": " + std::to_string(d.Size()) + " members instead of " + std::to_string(v.o.size()));
    for (size_t k = 0; k < v.o.size(); ++k)
    {
        const Caitlyn::String key(v.o[k].first);
        if (!d.HasMember(key)) sim::check_fail("member-missing", where + ": member " + sim::show(v.o[k].first) + " is missing");
        if (d.HasMember(Caitlyn::String(v.o[k].first + "x")) != has(v, v.o[k].first + "x")) sim::check_fail("member-invented", where + ": a member is reported that does not exist");
        check(d[key], v.o[k].second, where + "." + sim::show(v.o[k].first, 12));
    }
}

inline void check_text(const Str& text, const V& v, const Str& where)
{
    V back;
    if (!denotes(text, true, back)) sim::check_fail("written-text-not-json", where + ": the document is written as text that is not JSON: " + sim::show(text, 200));
    if (!same(back, v)) sim::check_fail("written-text-differs", where + ": the document is written as text that denotes another document: " + sim::show(text, 200));
}

// ---- generation -----------------------------------------------------------------------------------------------

inline Str gen_string()
{
    static const char* const p[] = {"a", "b", "key", " ", "\"", "\\", "/", "\n", "\t", "\r", "\b", "\f", "\x01", "\x1f", "\x7f", "\xC3\xA9", "\xC2\x80", "\xC2\xA0", "\xDF\xBF", "\xE2\x82\xAC", "\xE0\xA0\x80", "\xEF\xBF\xBD", "\xF0\x9F\x98\x80", "\xF4\x8F\xBF\xBF", "\xF0\x90\x80\x80", "\xF0\x90\x8F\xBF", "\xF4\x8F\xB0\x80", "\xED\x9F\xBF", "\xEE\x80\x80", "\xEF\xBF\xBF", "{", "}", "[", "]", ":", ",", "\\u0041", "\\n", "null", "0", "u", "\xEF\xBB\xBF"};
    static const uint32_t big[] = {15, 16, 100, 1023, 1024, 1025, 4096};
    Str s;
    static const uint32_t huge[] = {8191, 8192, 16384, 32768, 65535, 65536, 65537, 70000};
    if (sim::chance(15)) { s.assign(sim::chance(50) ? sim::pick(huge) : sim::pick(big), (char)('a' + sim::choose(26))); return s; }
    const uint32_t n = sim::choose(7);
    for (uint32_t i = 0; i < n; ++i) s += sim::pick(p);
    return s;
}

inline V gen_scalar()
{
    switch (sim::choose(8))
    {
        case 0: return V();
        case 1: return V::boolean(sim::chance(500));
        case 2: return V::integer((long long)sim::choose(200) - 100);
        case 3:
        {
            static const long long e[] = {0, -1, 2147483647ll, -2147483648ll, 4294967296ll, 9007199254740993ll, 9223372036854775807ll, -9223372036854775807ll - 1, 1000000000000000000ll};
            return V::integer(sim::pick(e));
        }
        case 4:
        {
            static const float e[] = {0.0f, -0.0f, 1.0f, -1.0f, 0.1f, 3.14159265f, 1e10f, 16777216.0f, 16777217.0f, 1e-10f, std::numeric_limits<float>::max(), -std::numeric_limits<float>::max(), std::numeric_limits<float>::min(), std::numeric_limits<float>::denorm_min(), 1.5f, 123456.789f, 0.000123f, 1e20f, 33554430.0f};
            if (sim::chance(600)) return V::floating(sim::pick(e));
            // few digits and any exponent
            char b[24];
            snprintf(b, sizeof b, "%de%d", (int)sim::choose(200) - 100, (int)sim::choose(76) - 38);
            const float f = strtof(b, nullptr);
            return V::floating(std::isfinite(f) ? f : 2.5f);
        }
        case 5:
        {
            uint32_t bits = sim::choose(0xffffffffu);
            float f;
            memcpy(&f, &bits, 4);
            return V::floating(std::isfinite(f) ? f : 2.5f);
        }
        default: return V::string(gen_string());
    }
}

inline V gen(uint32_t depth, uint32_t& budget)
{
    if (budget == 0 || depth == 0 || sim::chance(450)) { if (budget) --budget; return gen_scalar(); }
    --budget;
    if (sim::chance(450))
    {
        V v = V::array();
        const uint32_t n = sim::choose(5);
        for (uint32_t i = 0; i < n; ++i) v.a.push_back(gen(depth - 1, budget));
        return v;
    }
    V v = V::object();
    const uint32_t n = sim::choose(5);
    for (uint32_t i = 0; i < n; ++i) { const Str k = gen_string(); v.set(k) = gen(depth - 1, budget); }
    return v;
}

inline V gen_doc()
{
    uint32_t budget = 1 + sim::choose(30);
    V v = V::object();
    const uint32_t n = sim::choose(6);
    for (uint32_t i = 0; i < n; ++i) { const Str k = gen_string(); v.set(k) = gen(4, budget); }
    if (sim::chance(20))
    {
        // deep, within what the parser promises to take
        const uint32_t d = 50 + sim::choose(400);
        V x = V::integer(7);
        for (uint32_t i = 0; i < d; ++i)
        {
            V y = i & 1 ? V::array() : V::object();
            if (i & 1) y.a.push_back(x); else y.set("d") = x;
            x = y;
        }
        v.set("deep") = x;
    }
    if (sim::chance(15))
    {
        // wide: more values side by side than any depth allows below each other
        const uint32_t n = 300 + sim::choose(1200);
        const uint32_t kind = sim::choose(4);
        V x = kind == 3 ? V::object() : V::array();
        for (uint32_t i = 0; i < n; ++i)
        {
            V y = kind == 0 ? V::array() : kind == 1 ? V::object() : kind == 2 ? V::integer((long long)i) : V::array();
            if (kind == 3) x.set("k" + std::to_string(i)) = y; else x.a.push_back(y);
        }
        v.set("wide") = x;
    }
    return v;
}

// build v into d through the edit operations
inline void build(Data& d, const V& v)
{
    switch (v.t)
    {
        case NUL: d = Caitlyn::Json::MakeNull(); break;
        case BOOL: if (sim::chance(500)) d = v.b; else d = Caitlyn::Json::MakeBoolean(v.b); break;
        case INT:
            if (v.i >= -100 && v.i <= 100 && sim::chance(500)) { if (sim::chance(500)) d = (int)v.i; else d = (signed char)v.i; }
            else if (sim::chance(500)) d = v.i; else d = Caitlyn::Json::MakeIntegral(v.i);
            break;
        case FLT: if (sim::chance(300)) d = (double)v.f; else if (sim::chance(500)) d = v.f; else d = Caitlyn::Json::MakeFloating(v.f); break;
        case STR: if (sim::chance(300)) d = v.s.c_str(); else if (sim::chance(500)) d = v.s; else d = Caitlyn::Json::MakeString(v.s); break;
        case ARR:
        {
            const uint32_t how = sim::choose(4);
            d = Caitlyn::Json::MakeArray();
            if (how == 1) { for (size_t k = v.a.size(); k > 0; --k) build(d[k - 1], v.a[k - 1]); break; }
            for (size_t k = 0; k < v.a.size(); ++k)
            {
                if (how == 0) build(d[k], v.a[k]);
                else { Data x; build(x, v.a[k]); if (how == 2 && k + 1 < v.a.size()) { Data y; build(y, v.a[++k]); d.Append(x, y); } else d.Append(x); }
            }
            break;
        }
        default:
            if (sim::chance(500)) d = Caitlyn::Json::MakeObject();
            else { Data fresh = Caitlyn::Json::MakeObject(); d = fresh; }
            for (size_t k = 0; k < v.o.size(); ++k) { const Caitlyn::String key(v.o[k].first); if (sim::chance(500)) build(d[key], v.o[k].second); else build(d.At(key), v.o[k].second); }
            break;
    }
}

inline void build_doc(Caitlyn::JsonDocument& d, const V& v)
{
    for (size_t k = 0; k < v.o.size(); ++k)
    {
        const Caitlyn::String key(v.o[k].first);
        if (sim::chance(300)) { Data x; build(x, v.o[k].second); d.AddMember(key, x); }
        else build(d[key], v.o[k].second);
    }
}

}  // namespace js

#endif
