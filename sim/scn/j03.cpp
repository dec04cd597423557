// J03: documents edited under exhausted memory, with assignments between parts of one document.
#include "json_model.h"

extern "C" { const char* scenario_name = "j03"; }

namespace {

typedef std::string Str;
using js::V;
using js::Data;

uint32_t ops_done, failed;

const char* const key_texts[] = {"a", "b", "c", "\xC3\xA9", "", "long key of more than fifteen bytes", "d"};

// a node reached from a root through existing members, in the library and in the model
struct Node { Data* d; V* v; Str where; V* parent; };

struct State
{
    static const int NV = 3, ND = 2;
    Data values[NV];
    V vm[NV];
    Caitlyn::JsonDocument docs[ND];
    V dm[ND];
    bool memory;
    State() : memory(false) { for (int i = 0; i < ND; ++i) dm[i] = V::object(); }

    // any node of any root; document roots themselves are not reachable as values
    Node any(uint32_t max_depth)
    {
        Node n;
        n.parent = nullptr;
        if (sim::chance(600))
        {
            const int i = (int)sim::choose(NV);
            n.d = &values[i]; n.v = &vm[i]; n.where = "v" + std::to_string(i);
        }
        else
        {
            const int i = (int)sim::choose(ND);
            V& root = dm[i];
            if (root.t != js::OBJ || root.o.empty())
            {
                n.d = &values[i]; n.v = &vm[i]; n.where = "v" + std::to_string(i);
            }
            else
            {
                const size_t k = sim::choose((uint32_t)root.o.size());
                const Caitlyn::String key(root.o[k].first);
                sim::lib([&] { n.d = &docs[i][key]; });
                n.v = &root.o[k].second; n.parent = &root; n.where = "d" + std::to_string(i) + "." + root.o[k].first;
            }
        }
        for (uint32_t depth = 0; depth < max_depth && sim::chance(550); ++depth)
        {
            if (n.v->t == js::OBJ && !n.v->o.empty())
            {
                const size_t k = sim::choose((uint32_t)n.v->o.size());
                const Caitlyn::String key(n.v->o[k].first);
                Data* c = nullptr;
                sim::lib([&] { c = &(*n.d)[key]; });
                n.where += "." + n.v->o[k].first;
                n.parent = n.v; n.v = &n.v->o[k].second; n.d = c;
            }
            else if (n.v->t == js::ARR && !n.v->a.empty())
            {
                const size_t k = sim::choose((uint32_t)n.v->a.size());
                Data* c = nullptr;
                sim::lib([&] { c = &(*n.d)[k]; });
                n.where += "[" + std::to_string(k) + "]";
                n.parent = n.v; n.v = &n.v->a[k]; n.d = c;
            }
            else break;
        }
        return n;
    }

    void verify_all(const char* after)
    {
        const sim::Outcome o = sim::lib([&] {
            for (int i = 0; i < NV; ++i) js::check(values[i], vm[i], "v" + std::to_string(i) + " after " + after);
            for (int i = 0; i < ND; ++i) js::check_doc(docs[i], dm[i], "d" + std::to_string(i) + " after " + after);
        });
        if (!o.ok()) sim::check_fail("unreadable", Str("reading a document after ") + after + " threw " + sim::kind_name(o.kind) + " " + o.what);
        for (int i = 0; i < ND; ++i)
        {
            Str text;
            sim::lib([&] { text.assign(docs[i].ToString().str()); });
            if (dm[i].t == js::OBJ) js::check_text(text, dm[i], "d" + std::to_string(i) + " after " + after);
        }
    }
};

size_t nodes(const V& v)
{
    size_t n = 1;
    for (size_t i = 0; i < v.a.size(); ++i) n += nodes(v.a[i]);
    for (size_t i = 0; i < v.o.size(); ++i) n += nodes(v.o[i].second);
    return n;
}

bool inside(const V* part, const V* whole)
{
    if (part == whole) return true;
    for (size_t i = 0; i < whole->a.size(); ++i) if (inside(part, &whole->a[i])) return true;
    for (size_t i = 0; i < whole->o.size(); ++i) if (inside(part, &whole->o[i].second)) return true;
    return false;
}

bool empty(const V& v)
{
    return v.t == js::NUL || (v.t == js::STR && v.s.empty()) || (v.t == js::OBJ && v.o.empty()) || (v.t == js::ARR && v.a.empty());
}

// What a value may hold after an edit of it that threw: what it held, what it was to hold, or nothing.
bool old_new_empty(const V* old, const V& wanted, const V& now)
{
    return (old && js::same(*old, now)) || js::same(wanted, now) || empty(now);
}

// The edit threw: what the edited node holds is taken over after checking it.
struct After
{
    const Node& n;
    const char* what;
    const V& old;
    V now;
    After(const Node& node, const char* name) : n(node), what(name), old(*node.v) { sim::lib([&] { now = js::read(*n.d); }); }
    ~After() { *n.v = now; }

    void bad(const char* kind, const Str& text) const { sim::check_fail(kind, Str("a failed ") + what + text + " at " + n.where); }
    bool untouched() const { return js::same(old, now); }

    // the whole value was assigned
    void value(const V& wanted) const { if (!old_new_empty(&old, wanted, now)) bad("partial-value", " left neither the old value, nor the new one, nor nothing"); }

    // a member was assigned
    void member(const Str& key, const V& wanted) const
    {
        if (untouched()) return;
        const std::vector<std::pair<Str, V> > none;
        const std::vector<std::pair<Str, V> >& had = old.t == js::OBJ ? old.o : none;
        if (now.t != js::OBJ) { if (old.t == js::OBJ || !empty(now)) bad("not-an-object", " of member " + sim::show(key) + " left something else than an object"); return; }
        if (now.o.size() < had.size()) bad("member-lost", " of member " + sim::show(key) + " lost a member");
        for (size_t i = 0; i < now.o.size(); ++i)
        {
            const V* before = i < had.size() ? &had[i].second : nullptr;
            if (before ? now.o[i].first != had[i].first : i > had.size() || now.o[i].first != key) bad("foreign-member", " of member " + sim::show(key) + " put member " + sim::show(now.o[i].first) + " in");
            if (now.o[i].first != key) { if (!js::same(*before, now.o[i].second)) bad("other-member-changed", " of member " + sim::show(key) + " changed member " + sim::show(now.o[i].first)); }
            else if (!old_new_empty(before, wanted, now.o[i].second)) bad("partial-value", " of member " + sim::show(key) + " left in it neither the old value, nor the new one, nor nothing");
        }
    }

    // values were appended
    void appended(const V* a, const V* b) const
    {
        if (untouched()) return;
        const size_t had = old.t == js::ARR ? old.a.size() : 0;
        if (now.t != js::ARR) { if (old.t == js::ARR || !empty(now)) bad("not-an-array", " left something else than an array"); return; }
        if (now.a.size() < had) bad("element-lost", " shortened the array");
        for (size_t i = 0; i < now.a.size(); ++i)
        {
            const V* w = i < had ? &old.a[i] : i == had ? a : i == had + 1 ? b : nullptr;
            if (!w || !(js::same(*w, now.a[i]) || (i >= had && empty(now.a[i])))) bad(i < had ? "other-member-changed" : "partial-value", " left a wrong element " + std::to_string(i));
        }
    }

    // an element was assigned, the array extended for it if necessary
    void element(size_t idx, const V& wanted) const
    {
        if (untouched()) return;
        const size_t had = old.t == js::ARR ? old.a.size() : 0;
        if (now.t != js::ARR) { if (old.t == js::ARR || !empty(now)) bad("not-an-array", " left something else than an array"); return; }
        if (now.a.size() < had) bad("element-lost", " shortened the array");
        if (now.a.size() > had && now.a.size() > idx + 1) bad("foreign-element", " made the array too long");
        for (size_t i = 0; i < now.a.size(); ++i)
        {
            const V* before = i < had ? &old.a[i] : nullptr;
            if (i == idx) { if (!old_new_empty(before, wanted, now.a[i])) bad("partial-value", " left in element " + std::to_string(i) + " neither the old value, nor the new one, nor nothing"); }
            else if (before ? !js::same(*before, now.a[i]) : now.a[i].t != js::NUL) bad("other-member-changed", " changed element " + std::to_string(i));
        }
    }
};

V small()
{
    uint32_t budget = 1 + sim::choose(6);
    V v = js::gen(3, budget);
    return v;
}

void step(State& s)
{
    const uint32_t kind = sim::choose(16);
    const uint32_t fail_at = s.memory && sim::chance(350) ? 1 + sim::choose(sim::chance(600) ? 6 : 60) : 0;
    sim::Outcome o;
    o.kind = sim::OK;
    const char* name = "";
    ++ops_done;
    Str kt = sim::pick(key_texts);
    const Caitlyn::String key(kt);
#define RUN(body) do { if (fail_at) sim_alloc_arm(fail_at, 0); o = sim::lib([&] { body; }); sim_alloc_arm(0, 0); } while (0)
    switch (kind)
    {
        case 0: case 1:
        {
            // assign a plain value to a node
            name = "assignment";
            Node n = s.any(4);
            const V v = js::gen_scalar();
            sim_trace("%s = scalar (%s), allocation %u", n.where.c_str(), js::type_name(v.t), fail_at);
            const char* cs = v.s.c_str();
            const uint32_t how = sim::choose(2);
            switch (v.t)
            {
                case js::NUL: RUN(*n.d = Caitlyn::Json::MakeNull()); break;
                case js::BOOL: RUN(*n.d = v.b); break;
                case js::INT: RUN(*n.d = v.i); break;
                case js::FLT: RUN(*n.d = v.f); break;
                default: if (how) RUN(*n.d = v.s); else RUN(*n.d = cs); break;
            }
            if (o.ok()) *n.v = v; else After(n, name).value(v);
            break;
        }
        case 2: case 3:
        {
            // create or set a member
            name = "member assignment";
            Node n = s.any(3);
            const V v = small();
            Data x;
            sim::lib([&] { js::build(x, v); });
            const bool at = sim::chance(300), move = sim::chance(300);
            sim_trace("%s[%s] = %zu nodes, allocation %u", n.where.c_str(), sim::show(kt).c_str(), nodes(v), fail_at);
            RUN(Data& m = at ? n.d->At(key) : (*n.d)[key]; if (move) m = std::move(x); else m = x);
            if (o.ok()) { if (n.v->t != js::OBJ) *n.v = V::object(); n.v->set(kt) = v; }
            else After(n, name).member(kt, v);
            break;
        }
        case 4:
        {
            // append
            name = "append";
            Node n = s.any(3);
            const V v = small(), w = js::gen_scalar();
            Data x, y;
            sim::lib([&] { js::build(x, v); js::build(y, w); });
            const bool two = sim::chance(300), plain = !two && sim::chance(300);
            sim_trace("%s append %zu nodes, allocation %u", n.where.c_str(), nodes(v), fail_at);
            if (two) RUN(n.d->Append(x, y));
            else if (!plain) RUN(n.d->Append(x));
            else switch (w.t)
            {
                case js::BOOL: RUN(n.d->Append(w.b)); break;
                case js::INT: RUN(n.d->Append(w.i)); break;
                case js::FLT: RUN(n.d->Append(w.f)); break;
                case js::STR: RUN(n.d->Append(w.s)); break;
                default: RUN(n.d->Append(y)); break;
            }
            if (o.ok()) { if (n.v->t != js::ARR) *n.v = V::array(); n.v->a.push_back(plain ? w : v); if (two) n.v->a.push_back(w); }
            else After(n, name).appended(plain ? &w : &v, two ? &w : nullptr);
            break;
        }
        case 5: case 6:
        {
            // index, possibly past the end
            name = "element assignment";
            Node n = s.any(3);
            const size_t size = n.v->t == js::ARR ? n.v->a.size() : 0;
            const size_t idx = sim::chance(600) && size ? sim::choose((uint32_t)size) : size + sim::choose(4);
            const V v = small();
            Data x;
            sim::lib([&] { js::build(x, v); });
            const bool at = sim::chance(300);
            sim_trace("%s[%zu] = %zu nodes, allocation %u", n.where.c_str(), idx, nodes(v), fail_at);
            RUN((at ? n.d->At(idx) : (*n.d)[idx]) = x);
            if (o.ok()) { if (n.v->t != js::ARR) *n.v = V::array(); while (n.v->a.size() <= idx) n.v->a.push_back(V()); n.v->a[idx] = v; }
            else After(n, name).element(idx, v);
            break;
        }
        case 7: case 8:
        {
            // copy a node over another, which may be its part or its whole
            name = "copy assignment";
            Node a = s.any(3), b = s.any(3);
            if (nodes(*b.v) > 60) break;
            sim_trace("%s = %s, allocation %u", a.where.c_str(), b.where.c_str(), fail_at);
            RUN(*a.d = *b.d);
            if (o.ok()) { const V copy = *b.v; *a.v = copy; } else After(a, name).value(*b.v);
            break;
        }
        case 9:
        {
            // copy a whole into its own new or existing member or element
            name = "copy into its own part";
            Node n = s.any(2);
            if (nodes(*n.v) > 40) break;
            if (sim::chance(500))
            {
                sim_trace("%s[%s] = itself, allocation %u", n.where.c_str(), sim::show(kt).c_str(), fail_at);
                RUN(Data& m = (*n.d)[key]; m = *n.d);
                if (o.ok()) { if (n.v->t != js::OBJ) *n.v = V::object(); n.v->set(kt); const V copy = *n.v; n.v->set(kt) = copy; }
                else { V whole = n.v->t == js::OBJ ? *n.v : V::object(); whole.set(kt); After(n, name).member(kt, whole); }
            }
            else
            {
                sim_trace("%s append itself, allocation %u", n.where.c_str(), fail_at);
                RUN(n.d->Append(*n.d));
                if (o.ok()) { const V copy = *n.v; if (n.v->t != js::ARR) *n.v = V::array(); n.v->a.push_back(copy); }
                else { const V copy = *n.v; After(n, name).appended(&copy, nullptr); }
            }
            break;
        }
        case 10:
        {
            // move a node over another (a whole never into its own part)
            name = "move assignment";
            Node a = s.any(3), b = s.any(3);
            if (a.v != b.v && inside(a.v, b.v)) break;
            sim_trace("%s = move %s", a.where.c_str(), b.where.c_str());
            RUN(*a.d = std::move(*b.d));
            if (!o.ok()) sim::check_fail("move-failed", Str("a move threw ") + sim::kind_name(o.kind));
            if (a.v != b.v)
            {
                const V got = *b.v;
                const bool part = inside(b.v, a.v);
                if (!part) { V left; sim::lib([&] { left = js::read(*b.d); }); *b.v = left; }
                *a.v = got;
            }
            break;
        }
        case 11:
        {
            // copy and move construction, destruction
            name = "construction";
            const int i = (int)sim::choose(State::NV), k = (int)sim::choose(State::NV);
            if (nodes(s.vm[k]) > 60) break;
            const bool move = sim::chance(400);
            sim_trace("construct from v%d, assign to v%d, allocation %u", k, i, fail_at);
            V mid = s.vm[k];
            if (move) RUN(Data x(std::move(s.values[k])); Data y(std::move(x)); s.values[i] = std::move(y));
            else RUN(Data x(s.values[k]); s.values[i] = std::move(x));
            if (o.ok())
            {
                if (move && i != k) { V left; sim::lib([&] { left = js::read(s.values[k]); }); s.vm[k] = left; }
                s.vm[i] = mid;
            }
            else { if (move) sim::check_fail("move-failed", "a move threw"); Node n; n.d = &s.values[i]; n.v = &s.vm[i]; n.where = "v"; if (!js::same(s.vm[i], [&] { V now; sim::lib([&] { now = js::read(s.values[i]); }); return now; }())) sim::check_fail("changed-by-failure", "a failed copy construction changed another value"); }
            break;
        }
        case 12:
        {
            // documents: members
            name = "document member";
            const int i = (int)sim::choose(State::ND);
            V& root = s.dm[i];
            const uint32_t how = sim::choose(3);
            const V v = small();
            Data x;
            sim::lib([&] { js::build(x, v); });
            Node src = s.any(3);
            if (how == 1 && nodes(*src.v) > 60) break;
            sim_trace("d%d[%s] = %s, allocation %u", i, sim::show(kt).c_str(), how == 1 ? src.where.c_str() : "value", fail_at);
            const V before = root;
            if (how == 0) RUN(s.docs[i].AddMember(key, x));
            else if (how == 1) RUN(s.docs[i].AddMember(key, *src.d));
            else RUN(s.docs[i][key] = x);
            if (o.ok())
            {
                const V val = how == 1 ? *src.v : v;
                if (root.t != js::OBJ) root = V::object();
                root.set(kt) = val;
            }
            else
            {
                // the edited member may be missing, empty or hold either value; nothing else changed
                V now = before;
                Caitlyn::Json::JsonClass t = Caitlyn::Json::JsonClass::Null;
                bool has = false;
                V val;
                sim::lib([&] { t = s.docs[i].GetType(); has = s.docs[i].HasMember(key); if (has) val = js::read(static_cast<const Caitlyn::JsonDocument&>(s.docs[i])[key]); });
                if (has && !old_new_empty(before.t == js::OBJ ? before.find(kt) : nullptr, how == 1 ? *src.v : v, val)) sim::check_fail("partial-value", "a failed assignment of a document's member " + sim::show(kt) + " left in it neither the old value, nor the new one, nor nothing");
                if (t == Caitlyn::Json::JsonClass::Object) { if (now.t != js::OBJ) now = V::object(); if (has) now.set(kt) = val; }
                root = now;
            }
            break;
        }
        case 13:
        {
            name = "member removal";
            const int i = (int)sim::choose(State::ND);
            V& root = s.dm[i];
            if (root.t == js::OBJ && !root.o.empty() && sim::chance(700)) kt = root.o[sim::choose((uint32_t)root.o.size())].first;
            const Caitlyn::String rk(kt);
            sim_trace("d%d remove %s, allocation %u", i, sim::show(kt).c_str(), fail_at);
            RUN(s.docs[i].RemoveMember(rk));
            if (o.ok()) { for (size_t k = 0; k < root.o.size(); ++k) if (root.o[k].first == kt) { root.o.erase(root.o.begin() + (long)k); break; } }
            else if (root.find(kt))
            {
                bool has = true;
                sim::lib([&] { has = s.docs[i].HasMember(rk); });
                if (!has) for (size_t k = 0; k < root.o.size(); ++k) if (root.o[k].first == kt) { root.o.erase(root.o.begin() + (long)k); break; }
            }
            break;
        }
        case 14:
        {
            // documents as a whole
            name = "document assignment";
            const int i = (int)sim::choose(State::ND), k = 1 - i;
            const uint32_t how = sim::choose(6);
            sim_trace("d%d whole %u, allocation %u", i, how, fail_at);
            if (how == 0) { RUN(Caitlyn::JsonDocument fresh; s.docs[i] = fresh); if (o.ok()) s.dm[i] = V::object(); }
            else if (how == 1) { RUN(s.docs[i] = s.docs[k]); if (o.ok()) { const V c = s.dm[k]; s.dm[i] = c; } }
            else if (how == 2) { RUN(Caitlyn::JsonDocument c(s.docs[k]); s.docs[i] = std::move(c)); if (o.ok()) { const V c = s.dm[k]; s.dm[i] = c; } }
            else if (how == 3) { RUN(Caitlyn::JsonDocument& self = s.docs[i]; s.docs[i] = self); }
            else if (how == 4) { RUN(Caitlyn::JsonDocument& self = s.docs[i]; s.docs[i] = std::move(self)); }
            else
            {
                // the document that was moved from is left readable, whatever it holds
                RUN(s.docs[i] = std::move(s.docs[k]));
                if (o.ok())
                {
                    s.dm[i] = s.dm[k];
                    sim::lib([&] { Caitlyn::JsonDocument fresh; s.docs[k].ToString(); s.docs[k].HasMember(key); s.docs[k] = fresh; });
                    s.dm[k] = V::object();
                }
            }
            // a failed whole assignment leaves the old document
            break;
        }
        default:
        {
            // const access past what is there
            name = "const access";
            Node n = s.any(3);
            const Data& c = *n.d;
            const size_t idx = sim::choose(6);
            sim_trace("const access %s", n.where.c_str());
            const bool by_key = sim::chance(500);
            V got;
            RUN(if (by_key) { got = js::read(c.At(key)); } else { got = js::read(c.At(idx)); });
            const V* want = by_key ? (n.v->t == js::OBJ ? n.v->find(kt) : nullptr) : (n.v->t == js::ARR && idx < n.v->a.size() ? &n.v->a[idx] : nullptr);
            if (o.ok() && (!want || !js::same(got, *want))) sim::check_fail("wrong-element", n.where + ": const access gives another value than the model");
            if (!o.ok() && o.kind != sim::BAD_ALLOC && (want || o.kind != sim::OUT_OF_RANGE)) sim::check_fail("wrong-exception", n.where + Str(": const access threw ") + sim::kind_name(o.kind));
            if (!o.ok() && o.kind == sim::OUT_OF_RANGE) return;
            break;
        }
    }
    if (!o.ok())
    {
        if (o.kind != sim::BAD_ALLOC || !fail_at) sim::check_fail("wrong-exception", Str(name) + " threw " + sim::kind_name(o.kind) + " " + o.what);
        ++failed;
    }
    s.verify_all(name);
}

void body()
{
    State* s = nullptr;
    sim::lib([&] { s = new State; });
    s->memory = sim::chance(700);
    const uint32_t n = 2 + sim::choose(14);
    for (uint32_t i = 0; i < n; ++i) step(*s);
    sim::lib([&] { delete s; });
}

}  // namespace

extern "C" void scenario_run(void)
{
    ops_done = failed = 0;
    sim::leakcheck(body);
    sim_count("probe:edits that failed", failed);
    if (ops_done > 3) sim_nontrivial();
    sim_sample("%u edits, %u failed by exhausted memory", ops_done, failed);
}
