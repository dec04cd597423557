// J04: loads that fail - damaged text, read errors, exhausted memory, missing or unreadable files - and the loads after them.
#include "json_model.h"
#include "Caitlyn/__Core/File.h"

extern "C" { const char* scenario_name = "j04"; }

namespace {

typedef std::string Str;
using js::V;
const char* const path = "/sim/a.txt";

uint32_t failures, faulted, recovered, assigned;

sim::Outcome load(Caitlyn::JsonDocument& d, uint32_t how, const Str& text, uint32_t fail_at, bool persistent, bool& fired)
{
    // the text handed in is the caller's: it is made before memory runs out
    Caitlyn::String arg;
    sim::lib([&] { arg = Caitlyn::String(text); });
    std::istringstream in(text);
    if (fail_at) sim_alloc_arm(fail_at, persistent);
    const sim::Outcome o = sim::lib([&] {
        switch (how)
        {
            case 0: { std::ifstream f(path); f >> d; break; }
            case 1: in >> d; break;
            case 2: { std::ifstream f(path); d.Parse(f); break; }
            case 3: d.Parse(arg); break;
            case 4: d = Caitlyn::JsonDocument(arg); break;
            case 5: { std::ifstream f(path); Caitlyn::JsonDocument e(f); d = e; break; }
            case 6: d = arg; break;
            case 7: { const std::ifstream f(path); d = f; break; }
            case 8: d = Caitlyn::Json::MakeDocument(arg); break;
            case 9: { std::ifstream f(path); d = Caitlyn::Json::MakeDocument(f); break; }
            case 10: { Caitlyn::File f(path); d.Parse(f.Read()); break; }
            default: { Caitlyn::File f(path); d = f.Read(); break; }
        }
    });
    fired = sim_alloc_fired() != 0;
    sim_alloc_arm(0, 0);
    return o;
}

bool from_disk(uint32_t how) { return how == 0 || how == 2 || how == 5 || how == 7 || how >= 9; }

V state_of(const Caitlyn::JsonDocument& d)
{
    // the root as a value: null, or an object rebuilt from the written text
    V v;
    Str text;
    Caitlyn::Json::JsonClass t = Caitlyn::Json::JsonClass::Null;
    const sim::Outcome o = sim::lib([&] { t = d.GetType(); text.assign(d.ToString().str()); });
    if (!o.ok()) sim::check_fail("unreadable", Str("reading the document after a load threw ") + sim::kind_name(o.kind) + " " + o.what);
    if (t == Caitlyn::Json::JsonClass::Null) return V();
    if (t != Caitlyn::Json::JsonClass::Object || !js::denotes(text, true, v)) sim::check_fail("unreadable", "after a load the document is neither empty nor an object: " + sim::show(text, 200));
    return v;
}

void damage(Str& t)
{
    const size_t n = t.size();
    switch (sim::choose(5))
    {
        case 0: case 1: t = t.substr(0, sim::choose((uint32_t)n + 1)); break;
        case 2: t.insert(sim::choose((uint32_t)n + 1), sim::chance(500) ? "}" : "\""); break;
        case 3: if (n) t[sim::choose((uint32_t)n)] = '\\'; break;
        default: if (n) t.erase(sim::choose((uint32_t)n), 1 + sim::choose(4)); break;
    }
}

void body()
{
    const uint32_t loads = 1 + sim::choose(7);
    V before = V::object();
    Caitlyn::JsonDocument* d = nullptr;
    sim::lib([&] { d = new Caitlyn::JsonDocument; });
    for (uint32_t i = 0; i < loads; ++i)
    {
        const V v = js::gen_doc();
        Str text;
        js::write(text, v, true);
        if (sim::chance(120)) text += Str(900 + sim::choose(9000), ' ');
        const uint32_t how = sim::choose(12);
        const uint32_t fault = sim::choose(6);   // 0 none, 1 damaged, 2 read error, 3 memory, 4 missing file, 5 open refused
        uint32_t fail_at = 0;
        bool persistent = false;
        static const uint32_t splits[] = {0, 0, 300, 700};
        sim_disk.short_read = sim::pick(splits);
        sim_disk.eintr = sim::pick(splits) / 3;
        sim_disk.eio_read = sim_disk.open_fail = 0;
        if (fault == 1) damage(text);
        if (fault == 2) { static const uint32_t r[] = {100, 400, 1000}; sim_disk.eio_read = sim::pick(r); sim_disk.max_faults = 1 + sim::choose(3); }
        if (fault == 3) { fail_at = 1 + sim::choose(sim::chance(500) ? 8 : 150); persistent = sim::chance(300); }
        if (fault == 5) { sim_disk.open_fail = 1000; sim_disk.max_faults = 1; }
        sim::disk_put(path, text);
        if (fault == 4) sim_disk_remove(path);
        V says;
        const bool missing = fault == 4 && from_disk(how);
        const bool good = !missing && js::denotes(text, false, says);
        const uint32_t errors = sim_disk_errors();
        sim_trace("load %u fault %u allocation %u: %s", how, fault, fail_at, sim::show(text, 200).c_str());
        bool fired = false;
        const sim::Outcome o = load(*d, how, text, fail_at, persistent, fired);
        const bool erred = sim_disk_errors() != errors;
        sim_disk_faults_off();
        bool err = false;
        sim::lib([&] { err = d->HasError(); });
        if (o.ok() && !err)
        {
            if (missing && how >= 10) { if (!state_of(*d).o.empty()) sim::check_fail("not-reported", "loading from a new file gave members"); }
            if (!good) sim::check_fail("not-reported", (missing ? Str("loading from a missing file") : "loading a text that is no document") + Str(" reported nothing: ") + sim::show(text, 200));
            sim::lib([&] { js::check_doc(*d, says, "after a load that reported nothing"); });
            before = says;
            continue;
        }
        if (o.ok())
        {
            bool named = false;
            sim::lib([&] { named = d->GetError() != Caitlyn::Json::JsonError::NoError && d->GetErrorString() == Caitlyn::Json::GetErrorString(d->GetError()); });
            if (!named) sim::check_fail("error-text", "a failed load reports an error and does not name it");
        }
        ++failures;
        if (erred || fired) ++faulted;
        if (good && fault != 1 && !fired && !erred) sim::check_fail("good-load-failed", Str("a good document was refused") + (o.ok() ? "" : Str(" by ") + sim::kind_name(o.kind) + " " + o.what) + ": " + sim::show(text, 300));
        if (!o.ok())
        {
            const bool fits = (o.kind == sim::BAD_ALLOC && fired) || (o.kind == sim::IOS && (erred || missing)) || o.kind == sim::RUNTIME || o.kind == sim::LOGIC || o.kind == sim::OUT_OF_RANGE || o.kind == sim::LENGTH || (o.kind == sim::IOS && fired);
            if (!fits) sim::check_fail("wrong-exception", Str("a failed load threw ") + sim::kind_name(o.kind) + " " + o.what);
        }
        const V now = state_of(*d);
        const bool empty = now.t == js::NUL || (now.t == js::OBJ && now.o.empty());
        if (!empty && !js::same(now, before)) sim::check_fail("partial-document", "after a failed load the document is neither what it was nor empty");
        before = now;
        sim_disk_remove(path);
        // the next good load, at once or after a detour
        if (sim::chance(700))
        {
            const V w = js::gen_doc();
            Str t2;
            js::write(t2, w, true);
            sim::disk_put(path, t2);
            if (sim::chance(300))
            {
                // the document travels: what it holds and what it reports go with it
                const uint32_t way = sim::choose(4);
                bool e0 = false, e1 = false;
                if (way == 3)
                {
                    // another document is assigned to it while memory may run out
                    const V w2 = js::gen_doc();
                    Str t3;
                    js::write(t3, w2, true);
                    Caitlyn::JsonDocument* other = nullptr;
                    sim::lib([&] { e0 = d->HasError(); other = new Caitlyn::JsonDocument(Caitlyn::String(t3)); });
                    sim_alloc_arm(sim::chance(800) ? 1 + sim::choose(sim::chance(500) ? 4 : 60) : 0, sim::chance(300));
                    const sim::Outcome oa = sim::lib([&] { *d = *other; });
                    const bool ran_out = sim_alloc_fired() != 0;
                    sim_alloc_arm(0, 0);
                    sim::lib([&] { e1 = d->HasError(); delete other; });
                    if (oa.ok())
                    {
                        if (e1) sim::check_fail("error-lost", "a document assigned from a good one reports an error");
                        sim::lib([&] { js::check_doc(*d, w2, "document after an assignment"); });
                        before = w2;
                    }
                    else
                    {
                        if (oa.kind != sim::BAD_ALLOC || !ran_out) sim::check_fail("wrong-exception", Str("an assignment threw ") + sim::kind_name(oa.kind) + " " + oa.what);
                        if (e0 != e1) sim::check_fail("error-lost", e0 ? "a failed assignment makes a document that failed to load report nothing" : "a failed assignment makes a document report an error");
                        const V now2 = state_of(*d);
                        if (!(now2.t == js::NUL || (now2.t == js::OBJ && now2.o.empty())) && !js::same(now2, before)) sim::check_fail("partial-document", "after a failed assignment the document is neither what it was nor empty");
                        before = now2;
                    }
                    ++assigned;
                }
                else sim::lib([&] {
                    e0 = d->HasError();
                    if (way == 0) { Caitlyn::JsonDocument copy(*d); Caitlyn::JsonDocument other; other = copy; *d = other; }
                    else if (way == 1) { Caitlyn::JsonDocument moved(std::move(*d)); *d = std::move(moved); }
                    else { Caitlyn::JsonDocument* fresh = new Caitlyn::JsonDocument(*d); delete d; d = fresh; }
                    e1 = d->HasError();
                });
                if (way != 3 && e0 != e1) sim::check_fail("error-lost", "a copied or moved document reports something else than the original");
                if (way != 3 && !js::same(state_of(*d), before)) sim::check_fail("partial-document", "a copied or moved document holds something else than the original");
            }
            const uint32_t h2 = sim::choose(12);
            sim_trace("good load %u: %s", h2, sim::show(t2, 200).c_str());
            const sim::Outcome o2 = load(*d, h2, t2, 0, false, fired);
            if (!o2.ok()) sim::check_fail("no-recovery", Str("a good load after a failed one threw ") + sim::kind_name(o2.kind) + " " + o2.what);
            bool e2 = false, kind = false;
            bool text = false;
            sim::lib([&] { e2 = d->HasError(); kind = d->GetError() != Caitlyn::Json::JsonError::NoError; text = d->GetErrorString() != Caitlyn::Json::GetErrorString(Caitlyn::Json::JsonError::NoError); });
            if (text) sim::check_fail("no-recovery", "a good load after a failed one still names an error");
            if (e2 || kind) sim::check_fail("no-recovery", "a good load after a failed one still reports an error: " + sim::show(t2, 300));
            sim::lib([&] { js::check_doc(*d, w, "good load after a failed one"); });
            before = w;
            ++recovered;
        }
        else if (sim::chance(500))
        {
            // used by hand after the failure
            Caitlyn::String key;
            sim::lib([&] { key = Caitlyn::String("k"); (*d)[key] = 7; });
            if (before.t != js::OBJ) before = V::object();
            V seven; seven.t = js::INT; seven.i = 7;
            before.set("k") = seven;
            sim::lib([&] { js::check_doc(*d, before, "edited after a failed load"); });
        }
    }
    sim::lib([&] { delete d; });
}

}  // namespace

extern "C" void scenario_run(void)
{
    if (sim::chance(100)) sim_foreign_locale();
    failures = faulted = recovered = assigned = 0;
    sim::leakcheck(body);
    sim_count("probe:loads that failed", failures);
    sim_count("probe:of those, by an injected fault", faulted);
    sim_count("probe:good loads after a failure", recovered);
    sim_count("probe:documents assigned to failed ones", assigned);
    if (failures && recovered) sim_nontrivial();
    sim_sample("%u loads failed (%u by injected faults), %u good loads after them", failures, faulted, recovered);
}
