// J02: damaged stored documents are rejected or read as what their bytes say.
#include "json_model.h"
#include "Caitlyn/__Core/File.h"

extern "C" { const char* scenario_name = "j02"; }

namespace {

typedef std::string Str;
const char* const path = "/sim/a.txt";

Str fragment(const Str& t)
{
    if (t.empty()) return t;
    const size_t a = sim::choose((uint32_t)t.size());
    return t.substr(a, 1 + sim::choose(sim::chance(700) ? 8 : 64));
}

const char* damage(Str& t)
{
    static const char* const bits[] = {"{", "}", "[", "]", ",", ":", "\"", "\\", "\\u", "\\u00", "\\ud83d", "\\ud83d\\u0041", "\\udc00", "\\u0000", "1", "-", "+", ".", "e", "E5", "0x1", "true", "nul", "tru", "null", " ", "\n", "/", "//", "'", "\xC3", "\xA9", "\xFF", "\xE2\x82", "\xF0\x9F\x98", "\x01", "12-4", "1.5.2", "1e999", "1e39", "9223372036854775808", "Infinity", "NaN", "\\x", "{}", "[]", ",}", ",]", "\xC2\xA0", "\xEF\xBB\xBF"};
    const size_t n = t.size();
    switch (sim::choose(13))
    {
        case 0: case 1: t = t.substr(0, sim::choose((uint32_t)n + 1)); return "truncated";
        case 2: { if (!n) return "nothing"; const size_t a = sim::choose((uint32_t)n); t[a] = (char)(t[a] ^ (1 << sim::choose(8))); return "bit flipped"; }
        case 3: { if (!n) return "nothing"; const size_t a = sim::choose((uint32_t)n); t[a] = sim::pick(bits)[0]; return "byte replaced"; }
        case 4: case 5: { const size_t a = sim::choose((uint32_t)n + 1); t.insert(a, sim::pick(bits)); return "inserted"; }
        case 6: { if (!n) return "nothing"; const size_t a = sim::choose((uint32_t)n); t.erase(a, 1 + sim::choose(sim::chance(600) ? 3 : 40)); return "lost chunk"; }
        case 7: { const size_t a = sim::choose((uint32_t)n + 1); t.insert(a, fragment(t)); return "duplicated chunk"; }
        case 8: { if (!n) return "nothing"; const size_t a = sim::choose((uint32_t)n); const size_t k = 1 + sim::choose(16); for (size_t i = a; i < a + k && i < n; ++i) t[i] = '\0'; return "zero-filled"; }
        case 9: t += sim::chance(500) ? t : Str("{}"); return "concatenated";
        case 10: { Str other; const js::V v = js::gen_doc(); js::write(other, v, true); const size_t a = sim::choose((uint32_t)n + 1), b = sim::choose((uint32_t)other.size() + 1); t = t.substr(0, a) + other.substr(b); return "torn between two versions"; }
        case 11: { t.append(1 + sim::choose(sim::chance(700) ? 4 : 600), '\0'); if (sim::chance(400)) t += fragment(t); return "zeros behind it"; }
        default: { const size_t a = sim::choose((uint32_t)n + 1); t.erase(0, a); return "front lost"; }
    }
}

// a text that follows the grammar but for a few tokens that are lost, added, repeated or taken for another
Str soup()
{
    static const char* const scalars[] = {"1", "\"a\"", "null", "true", "false", "-2.5", "\"\"", "1e3", "\"b\\n\"", "{}", "[]"};
    static const char* const tokens[] = {",", ":", "{", "}", "[", "]", "\"a\"", "1", "null", "true", "\"", ",,", "}}", "]]", "nul", "-", "\"a\":", "{}", "[]", "\"a\" 1", "1 2", "\\"};
    std::vector<Str> t;
    Str stack;
    t.push_back("{");
    stack = "{";
    // the states of a grammatical text: after an opening, after a value, after a comma, after a key, after a colon
    char st = 'o';
    const uint32_t want = 2 + sim::choose(14);
    while (!stack.empty())
    {
        const bool end = t.size() >= want;
        const bool obj = stack[stack.size() - 1] == '{';
        if (st == 'o' || st == 'c')
        {
            if (st == 'o' && (end || sim::chance(150))) { t.push_back(obj ? "}" : "]"); stack.erase(stack.size() - 1); st = 'v'; continue; }
            if (obj) { t.push_back(sim::chance(500) ? "\"a\"" : sim::chance(500) ? "\"b\"" : "\"k\\\"}\""); st = 'k'; continue; }
            st = 'p';
        }
        if (st == 'k') { t.push_back(":"); st = 'p'; continue; }
        if (st == 'p')
        {
            if (!end && stack.size() < 6 && sim::chance(450)) { const char c = sim::chance(500) ? '{' : '['; t.push_back(Str(1, c)); stack += c; st = 'o'; }
            else { t.push_back(sim::pick(scalars)); st = 'v'; }
            continue;
        }
        if (!end && sim::chance(600)) { t.push_back(","); st = 'c'; continue; }
        t.push_back(obj ? "}" : "]");
        stack.erase(stack.size() - 1);
    }
    for (uint32_t k = sim::chance(100) ? 0 : 1 + sim::choose(3); k > 0; --k)
    {
        // most often near the end, where the brackets close
        const size_t n = t.size();
        if (!n) break;
        const size_t at = sim::chance(500) ? n - 1 - sim::choose((uint32_t)(n < 5 ? n : 5)) : sim::choose((uint32_t)n);
        switch (sim::choose(5))
        {
            case 0: t.erase(t.begin() + (long)at); break;
            case 1: t.insert(t.begin() + (long)at, sim::pick(tokens)); break;
            case 2: { const Str c = t[at]; t.insert(t.begin() + (long)at, c); break; }
            case 3: { if (at + 1 < n) { const Str c = t[at]; t[at] = t[at + 1]; t[at + 1] = c; } break; }
            default: { static const char* const frame[] = {",", ":", "{", "}", "[", "]"}; t[at] = sim::chance(400) ? "," : sim::chance(500) ? sim::pick(frame) : sim::pick(tokens); break; }
        }
    }
    Str s;
    const bool spaced = sim::chance(300);
    for (size_t i = 0; i < t.size(); ++i) { s += t[i]; if (spaced && sim::chance(400)) s += sim::chance(800) ? " " : "\n"; }
    return s;
}

}  // namespace

extern "C" void scenario_run(void)
{
    if (sim::chance(100)) sim_foreign_locale();
    static const uint32_t rates[] = {0, 0, 200};
    sim_disk.short_read = sim::pick(rates);
    sim_disk.eintr = sim::pick(rates) / 2;
    const js::V v = js::gen_doc();
    Str good;
    if (sim::chance(500)) js::write(good, v, true);
    else
    {
        Caitlyn::JsonDocument d;
        sim::lib([&] { js::build_doc(d, v); });
        const bool pretty = sim::chance(500);
        sim::lib([&] { good.assign(d.ToString(pretty).str()); });
    }
    uint32_t accepted = 0, rejected = 0, thrown = 0;
    const uint32_t loads = 1 + sim::choose(16);
    Caitlyn::JsonDocument used;
    for (uint32_t i = 0; i < loads; ++i)
    {
        Str t = good;
        Str what;
        if (sim::chance(40))
        {
            // deeper than any stack
            static const char* const open[] = {"[", "{\"a\":", "[[", "[{\"a\":"};
            const char* o = sim::pick(open);
            const uint32_t n = 400 + sim::choose(sim::chance(300) ? 100000 : 400);
            t = "{\"a\":";
            for (uint32_t k = 0; k < n; ++k) t += o;
            what = "nested " + std::to_string(n) + " deep";
            if (sim::chance(300)) { t += "1"; for (uint32_t k = 0; k < n; ++k) for (size_t q = strlen(o); q > 0; --q) { if (o[q - 1] == '[') t += "]"; else if (o[q - 1] == '{') t += "}"; } t += "}"; }
        }
        else if (sim::chance(450))
        {
            t = soup();
            what = "tokens lost, added or repeated";
        }
        else
        {
            const uint32_t k = sim::chance(60) ? 0 : 1 + (sim::chance(300) ? sim::choose(3) : 0);
            for (uint32_t q = 0; q < k; ++q) what += Str(q ? ", " : "") + damage(t);
        }
        const uint32_t how = sim::choose(5);
        const bool cut_at_nul = how >= 3;
        if (how == 0 || how == 1 || how == 4) sim::disk_put(path, t);
        sim_trace("load %u (%s): %s", how, what.c_str(), sim::show(t, 400).c_str());
        Caitlyn::JsonDocument fresh;
        Caitlyn::JsonDocument& d = sim::chance(500) ? used : fresh;
        const sim::Outcome o = sim::lib([&] {
            switch (how)
            {
                case 0: { std::ifstream f(path); f >> d; break; }
                case 1: { std::ifstream f(path); d.Parse(f); break; }
                case 2: { std::istringstream f(t); f >> d; break; }
                case 3: d.Parse(Caitlyn::String(t)); break;
                default: { Caitlyn::File f(path); d.Parse(f.Read()); break; }
            }
        });
        if (!o.ok())
        {
            if (o.kind == sim::FOREIGN || o.kind == sim::BAD_ALLOC || o.kind == sim::IOS) sim::check_fail("wrong-exception", Str("loading damaged text threw ") + sim::kind_name(o.kind) + " " + o.what);
            ++thrown;
            continue;
        }
        bool err = false;
        sim::lib([&] { err = d.HasError(); if (err != (d.GetError() != Caitlyn::Json::JsonError::NoError)) sim_fail("error-disagrees", "HasError disagrees with GetError"); const Str es = d.GetErrorString().str(); if (es.empty() || (es == Caitlyn::Json::GetErrorString(Caitlyn::Json::JsonError::NoError)) == err || es != Caitlyn::Json::GetErrorString(d.GetError())) sim_fail("error-text", "the error text does not say what HasError says"); });
        if (err) { ++rejected; continue; }
        ++accepted;
        const Str bytes = cut_at_nul ? t.substr(0, t.find('\0')) : t;
        js::V says;
        if (!js::denotes(bytes, false, says)) sim::check_fail("damaged-text-accepted", "a text that is no document was accepted (" + what + "): " + sim::show(t, 400));
        sim::lib([&] { js::check_doc(d, says, "accepted text"); });
        Str out;
        sim::lib([&] { out.assign(d.ToString().str()); });
        js::V back;
        if (!js::denotes(out, false, back) || !js::same(back, says)) sim::check_fail("misread", "an accepted text is read as another document (" + what + "): " + sim::show(t, 300) + " read as " + sim::show(out, 300));
    }
    sim_count("probe:damaged texts accepted as what they say", accepted);
    sim_count("probe:damaged texts rejected", rejected);
    sim_count("probe:damaged texts refused by exception", thrown);
    if (rejected + thrown) sim_nontrivial();
    sim_sample("%u loads: %u accepted, %u rejected, %u threw; %zu bytes stored", loads, accepted, rejected, thrown, good.size());
}
