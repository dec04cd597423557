// J01: documents written, stored and reloaded, however reads and writes are split.
#include "json_model.h"
#include "Caitlyn/__Core/File.h"
#include "Caitlyn/__Core/IO.h"

extern "C" { const char* scenario_name = "j01"; }

namespace {

typedef std::string Str;
const char* const path = "/sim/a.txt";

// Space in front, until the text is as long as some buffer, or one byte shorter or longer.
void pad(Str& text)
{
    static const size_t sizes[] = {16, 128, 256, 512, 1024, 1024, 2048, 4096, 8192};
    if (!sim::chance(200)) return;
    const size_t to = sim::pick(sizes) + sim::choose(3) - 1;
    if (text.size() < to) text.insert(0, to - text.size(), ' ');
}

void reload(Caitlyn::JsonDocument& d, uint32_t how, const Str& text, Str& label)
{
    static const char* const names[] = {"operator>> from a file", "operator>> from a string stream", "Parse of a file stream", "Parse of a text", "construction from a text", "construction from a file stream", "assignment from a text", "assignment from a file stream", "MakeDocument from a text", "MakeDocument from a file stream", "File::Read"};
    label = names[how];
    // a stream may hold something else in front, which the program has read already
    const bool behind = how < 4 && sim::chance(200);
    if (behind && how != 1 && how != 3) sim::disk_put(path, "{\"header\": 1}\n" + text);
    const sim::Outcome o = sim::lib([&] {
        switch (how)
        {
            case 0: { std::ifstream f(path); Str line; if (behind) std::getline(f, line); f >> d; break; }
            case 1: { Str line; std::istringstream f(behind ? "[1]\n" + text : text); if (behind) std::getline(f, line); f >> d; break; }
            case 2: { std::ifstream f(path); Str line; if (behind) std::getline(f, line); d.Parse(f); break; }
            case 3: d.Parse(Caitlyn::String(text)); break;
            case 4: d = Caitlyn::JsonDocument(Caitlyn::String(text)); break;
            case 5: { std::ifstream f(path); Caitlyn::JsonDocument e(f); d = e; break; }
            case 6: d = Caitlyn::String(text); break;
            case 7: { const std::ifstream f(path); d = f; break; }
            case 8: d = Caitlyn::Json::MakeDocument(Caitlyn::String(text)); break;
            case 9: { std::ifstream f(path); d = Caitlyn::Json::MakeDocument(f); break; }
            default: { Caitlyn::File f(path); d.Parse(f.Read()); break; }
        }
    });
    if (!o.ok()) sim::check_fail("load-failed", "loading a good document by " + label + " threw " + sim::kind_name(o.kind) + " " + o.what);
    bool err = false;
    sim::lib([&] { err = d.HasError() || d.GetError() != Caitlyn::Json::JsonError::NoError; });
    if (err) sim::check_fail("load-failed", "loading a good document by " + label + " reported an error: " + sim::show(text, 300));
}

}  // namespace

extern "C" void scenario_run(void)
{
    if (sim::chance(150)) sim_foreign_locale();
    static const uint32_t rates[] = {0, 100, 400};
    sim_disk.short_read = sim::pick(rates);
    sim_disk.short_write = sim::pick(rates);
    sim_disk.eintr = sim::pick(rates) / 2;
    sim_disk.slow = sim::chance(100) ? 30 : 0;
    const js::V v = js::gen_doc();
    Str text, label;
    Caitlyn::JsonDocument d;
    bool built = sim::chance(600);
    if (built)
    {
        const sim::Outcome o = sim::lib([&] { js::build_doc(d, v); });
        if (!o.ok()) sim::check_fail("build-failed", Str("building a document threw ") + sim::kind_name(o.kind) + " " + o.what);
        sim::lib([&] { js::check_doc(d, v, "built document"); });
    }
    else
    {
        text = js::space(true);
        js::write(text, v, true);
        pad(text);
        text += js::space(true);
        sim::disk_put(path, text);
        sim_trace("load %s", sim::show(text, 300).c_str());
        reload(d, sim::choose(11), text, label);
        sim::lib([&] { js::check_doc(d, v, "loaded by " + label); });
        sim_disk_remove(path);
    }
    Str previous;
    const uint32_t rounds = 1 + sim::choose(3);
    for (uint32_t r = 0; r < rounds; ++r)
    {
        // write
        const uint32_t how = sim::choose(6);
        const bool pretty = sim::chance(400);
        const uint32_t indent = sim::choose(6);
        sim_disk_remove(path);
        sim::Outcome o = sim::lib([&] {
            switch (how)
            {
                case 0: { std::ofstream f(path); f << d; f.close(); break; }
                case 1: { Caitlyn::File f(path); f.Write(d); break; }
                case 2: { Caitlyn::File f(path); f.Write(d.ToString(pretty, indent)); break; }
                case 3: { Caitlyn::File f(path); f.WriteLine(d); break; }
                case 4: { std::ostringstream f; f << d; const Str s = f.str(); std::ofstream g(path); g << s; break; }
                default: { std::ofstream f(path); f << d.ToString(pretty, indent); break; }
            }
        });
        if (!o.ok()) sim::check_fail("write-failed", Str("writing a document threw ") + sim::kind_name(o.kind) + " " + o.what);
        text = sim::disk(path);
        sim_trace("written %u: %s", how, sim::show(text, 300).c_str());
        js::check_text(text, v, "written document");
        Str plain;
        o = sim::lib([&] { plain.assign(d.ToString().str()); });
        if (!o.ok()) sim::check_fail("write-failed", Str("writing a document threw ") + sim::kind_name(o.kind));
        if (r && plain != previous) sim::check_fail("text-unstable", "written again after reloading the document gives other text: " + sim::show(plain, 200) + " before " + sim::show(previous, 200));
        if (sim::chance(300))
        {
            Str out0 = sim::delivered(1), out1;
            sim::lib([&] { Caitlyn::OutputStream::WriteLine(d); });
            out1 = sim::delivered(1);
            if (out1 != out0 + plain + "\n") sim::check_fail("console-text-differs", "the document written to the console differs from its text");
        }
        previous = plain;
        // reload into a used document or a fresh one
        if (sim::chance(250)) { pad(text); sim::disk_put(path, text); }
        if (sim::chance(500))
        {
            sim::lib([&] { Caitlyn::JsonDocument fresh; d = fresh; });
        }
        reload(d, sim::choose(11), text, label);
        sim::lib([&] { js::check_doc(d, v, "reloaded by " + label); });
    }
    Str last;
    sim::lib([&] { last.assign(d.ToString().str()); });
    if (last != previous) sim::check_fail("text-unstable", "written again after reloading the document gives other text: " + sim::show(last, 200) + " before " + sim::show(previous, 200));
    if (!v.o.empty()) sim_nontrivial();
    sim_sample("%s, %zu members, %zu bytes, %u rounds", built ? "built" : "loaded", v.o.size(), text.size(), rounds);
}
