// Objects, reference ownership model and histories for the smart pointers (M01, M02).
#ifndef SCN_PTR_H_
#define SCN_PTR_H_

#include "../core/sim.h"
#include <atomic>
#include <memory>
#include <mutex>
#include <string>
#include <utility>
#include <vector>
#include "Caitlyn/__Core/Memory.h"

namespace ptr {

typedef std::string Str;
const int MAXOBJ = 160;
const int NSLOT = 6;

// what happened to each object, kept by the harness
struct Fate { uint32_t born, died; int definite, possible; int zeroes; };
struct Book { Fate f[MAXOBJ]; int n; bool promote_in_destructor; };
inline Book& book() { static Book b; return b; }

struct Obj
{
    static const uint64_t GOOD = 0x600d600d600d600dull;
    uint64_t canary;
    const int id;
    uint64_t slots[NSLOT];              // each thread writes its own, the destructor reads all
    Caitlyn::SharedPtr<Obj> next;
    Caitlyn::UniquePtr<Obj> only;
    Caitlyn::WeakPtr<Obj> weak;
    void (*last_words)(Obj*);           // what the destructor does to a pointer outside

    explicit Obj(int i) : canary(GOOD), id(i), last_words(nullptr)
    {
        for (int k = 0; k < NSLOT; ++k) slots[k] = 0;
        sim_lib_leave();
        ++book().f[i].born;
        sim_lib_enter();
    }

    ~Obj()
    {
        const bool good = canary == GOOD;
        uint64_t sum = 0;
        for (int k = 0; k < NSLOT; ++k) sum += slots[k];
        sim_lib_leave();
        if (!good) sim_fail("destroyed-twice", "a destroyed object is destroyed again (slots %llx)", (unsigned long long)sum);
        Fate& f = book().f[id];
        sim_trace("destroy object %d", id);
        if (++f.died != 1) sim_fail("destroyed-twice", "object %d is destroyed %u times", id, f.died);
        if (f.definite > 0) sim_fail("destroyed-while-owned", "object %d is destroyed while it has %d owners", id, f.definite);
        sim_lib_enter();
        if (last_words) last_words(this);
        if (book().promote_in_destructor)
        {
            const bool over = weak == nullptr || weak.expired();
            const Caitlyn::SharedPtr<Obj> s(weak.lock());
            sim_lib_leave();
            if (s.Get() == this) sim_fail("promoted-dying-object", "promoting a weak pointer inside the destructor of its object gave an owner");
            (void)over;
            sim_lib_enter();
        }
        canary = 0xdeaddeaddeaddeadull;
    }

    void use(int who)
    {
        if (canary != GOOD) { sim_lib_leave(); sim_fail("dangling-pointer", "a pointer gave access to a destroyed object"); }
        ++slots[who];
    }
};

typedef Caitlyn::SharedPtr<Obj> S;
typedef Caitlyn::UniquePtr<Obj> U;
typedef Caitlyn::WeakPtr<Obj> W;
typedef Caitlyn::Ptr<Obj> R;

inline int fresh_id()
{
    if (book().n >= MAXOBJ) return -1;
    return book().n++;
}

inline void start(bool promote)
{
    Book& b = book();
    for (int i = 0; i < MAXOBJ; ++i) { b.f[i].born = b.f[i].died = 0; b.f[i].definite = b.f[i].possible = b.f[i].zeroes = 0; }
    b.n = 0;
    b.promote_in_destructor = promote;
}

inline void expect_ok(const sim::Outcome& o, const char* what)
{
    if (!o.ok()) sim::check_fail("spurious-failure", Str(what) + " threw " + sim::kind_name(o.kind) + " " + o.what);
}

// ---- one thread: every pointer checked against the model after every step ----------------------------------------
struct World
{
    static const int NS = 5, NU = 3, NW = 4, NR = 3;
    struct M { bool alive; int next, only, weak; bool held; };     // held: kept alive by no owner, until a raw pointer destroys it
    S s[NS]; U u[NU]; W w[NW]; R r[NR];
    std::vector<M> m;
    int ms[NS], mu[NU], mw[NW], mr[NR];     // ids, -1 null; a weak pointer keeps the id of a dead object
    bool memory;
    uint32_t steps, failures, promotions, refusals;

    World() : memory(false), steps(0), failures(0), promotions(0), refusals(0)
    {
        for (int i = 0; i < NS; ++i) ms[i] = -1;
        for (int i = 0; i < NU; ++i) mu[i] = -1;
        for (int i = 0; i < NW; ++i) mw[i] = -1;
        for (int i = 0; i < NR; ++i) mr[i] = -1;
    }

    int owners(int id) const
    {
        int n = m[(size_t)id].held ? 1 : 0;
        for (int i = 0; i < NS; ++i) n += ms[i] == id;
        for (int i = 0; i < NU; ++i) n += mu[i] == id;
        for (size_t k = 0; k < m.size(); ++k) if (m[k].alive) n += (m[k].next == id) + (m[k].only == id);
        return n;
    }
    void settle()
    {
        for (bool more = true; more;)
        {
            more = false;
            for (size_t k = 0; k < m.size(); ++k)
                if (m[k].alive && owners((int)k) == 0) { m[k].alive = false; m[k].next = m[k].only = m[k].weak = -1; more = true; }
        }
    }
    int live(int id) const { return id >= 0 && m[(size_t)id].alive ? id : -1; }

    void check(const char* after)
    {
        settle();
        raw_forget();
        for (size_t k = 0; k < m.size(); ++k)
        {
            const Fate& f = book().f[k];
            if (m[k].alive && f.died) sim::check_fail("destroyed-while-owned", "object " + std::to_string(k) + " is destroyed although it has owners, after " + after);
            if (!m[k].alive && !f.died) sim::check_fail("never-destroyed", "object " + std::to_string(k) + " is not destroyed although its last owner is gone, after " + after);
        }
        const sim::Outcome o = sim::lib([&] {
            for (int i = 0; i < NS; ++i) same(s[i].Get(), ms[i], "shared pointer", i, after);
            for (int i = 0; i < NU; ++i) same(u[i].Get(), mu[i], "unique pointer", i, after);
            for (int i = 0; i < NR; ++i) same(r[i].Get(), mr[i], "raw pointer", i, after);
            for (int i = 0; i < NS; ++i) if (ms[i] >= 0) inner(s[i], ms[i], after);
            for (int i = 0; i < NW; ++i)
            {
                const int want = live(mw[i]);
                if (w[i].expired() != (want < 0)) sim_fail("expired-wrong", "after %s: weak pointer %d reports expired=%d, its object is %s", after, i, (int)w[i].expired(), want < 0 ? "gone" : "alive");
                const S got(w[i].lock());
                same(got.Get(), want, "promoted weak pointer", i, after);
            }
        });
        expect_ok(o, "reading the pointers");
    }
    void same(const Obj* p, int want, const char* what, int i, const char* after)
    {
        if (!p && want < 0) return;
        if (!p || want < 0 || p->canary != Obj::GOOD || p->id != want)
            sim_fail("wrong-target", "after %s: %s %d points to %s, the model says object %d", after, what, i, p ? "another or a destroyed object" : "nothing", want);
    }
    void inner(const S& p, int id, const char* after)
    {
        const Obj* o = p.Get();
        same(o->next.Get(), m[(size_t)id].next, "next of object", id, after);
        same(o->only.Get(), m[(size_t)id].only, "only of object", id, after);
        const int want = live(m[(size_t)id].weak);
        if (o->weak.expired() != (want < 0)) sim_fail("expired-wrong", "after %s: the weak pointer in object %d reports expired=%d", after, id, (int)o->weak.expired());
        same(o->weak.lock().Get(), want, "weak pointer of object", id, after);
    }

    int create()
    {
        const int id = fresh_id();
        if (id >= 0) { M x = {true, -1, -1, -1, false}; m.push_back(x); }
        return id;
    }
    static Obj* make(int id) { return new Obj(id); }
    // start with objects, so that the first steps already meet owners
    void populate()
    {
        for (int i = 0; i < NS; ++i)
        {
            if (!sim::chance(700)) continue;
            if (i && sim::chance(250)) { sim::lib([&] { s[i] = s[i - 1]; }); ms[i] = ms[i - 1]; continue; }
            const int id = create();
            if (id < 0) return;
            sim::lib([&] { s[i] = S(make(id)); });
            ms[i] = id;
        }
        for (int i = 0; i < NW; ++i)
        {
            const int k = (int)sim::choose(NS);
            if (!sim::chance(700)) continue;
            sim::lib([&] { w[i] = s[k]; });
            mw[i] = ms[k];
        }
        check("the first objects");
    }

    template <typename P> void reentrant(P* p, int* ids, int i, const char* what);
    void shared_step();
    void unique_step();
    void weak_step();
    void raw_step();
    void crowd();
    void finish();
    bool lonely(int i) const
    {
        if (mr[i] < 0 || !m[(size_t)mr[i]].held) return false;
        for (int k = 0; k < NR; ++k) if (k != i && mr[k] == mr[i]) return false;
        return true;
    }
    // a raw pointer to an object that is gone dangles, as it may: its user takes it away
    void raw_forget()
    {
        for (int i = 0; i < NR; ++i)
            if (mr[i] >= 0 && !m[(size_t)mr[i]].alive) { sim::lib([&] { r[i] = nullptr; }); mr[i] = -1; }
    }
};

// The object that a pointer gives up uses that very pointer in its destructor.
template <typename P>
struct LastWords
{
    static P*& target() { static P* t; return t; }
    static int& fresh() { static int f; return f; }         // -1: empties the pointer, -2: looks only
    static void speak(Obj* dying)
    {
        P& p = *target();
        const bool still = p.Get() == dying;
        sim_lib_leave();
        if (still) sim_fail("access-to-dying-object", "a pointer that was given a new target still gives access to the old object, which is being destroyed");
        sim_lib_enter();
        if (fresh() == -1) p.Reset();
        else if (fresh() >= 0) p.Reset(new Obj(fresh()));
    }
};

template <typename P>
void World::reentrant(P* p, int* ids, int i, const char* what)
{
    const int old = ids[i];
    if (old < 0 || owners(old) != 1) return;
    const uint32_t how = sim::choose(5), act = sim::choose(3);
    const int id = how < 3 ? create() : -1;
    if (how < 3 && id < 0) return;
    const int last = act == 0 ? create() : -1;
    if (act == 0 && last < 0) return;
    typedef LastWords<P> L;
    L::target() = &p[i];
    L::fresh() = act == 0 ? last : act == 1 ? -1 : -2;
    sim_trace("%s %d given %s (way %u); the old object, in its destructor, %s", what, i, how < 3 ? "a new object" : "nothing", how, act == 0 ? "puts another object there" : act == 1 ? "empties it" : "looks at it");
    const sim::Outcome o = sim::lib([&] {
        p[i]->last_words = &L::speak;
        if (how == 0) p[i].Reset(make(id));
        else if (how == 1) p[i] = make(id);
        else if (how == 2) { P fresh(make(id)); p[i] = std::move(fresh); }
        else if (how == 3) p[i].Reset();
        else p[i] = P();
    });
    ids[i] = act == 0 ? last : act == 1 ? -1 : id;
    expect_ok(o, "giving a pointer a new target");
}

inline void World::shared_step()
{
    const int i = (int)sim::choose(NS), j = (int)sim::choose(NS);
    const uint32_t kind = sim::choose(15);
    sim::Outcome o;
    o.kind = sim::OK;
    ++steps;
    switch (kind)
    {
        case 14: reentrant(s, ms, i, "shared"); break;
        case 0: case 1: case 2: case 3:
        {
            const int id = create();
            if (id < 0) return;
            const uint32_t fail = memory && sim::chance(300) ? 2 : 0;   // the object is made, then memory runs out
            sim_trace("shared %d = new object %d (way %u, allocation %u)", i, id, kind, fail);
            if (fail) sim_alloc_arm(fail, 0);
            o = sim::lib([&] {
                Obj* p = make(id);
                if (kind == 0) s[i] = S(p);
                else if (kind == 1) s[i] = p;
                else if (kind == 2) s[i].Reset(p);
                else { S x(p); S y(x); s[i] = y; }
            });
            const bool fired = sim_alloc_fired() != 0;
            sim_alloc_arm(0, 0);
            if (fired && o.kind == sim::BAD_ALLOC)
            {
                // the pointer that could not be made has destroyed what it was given; the target keeps its object
                ++failures;
                o.kind = sim::OK;
            }
            else if (o.ok()) ms[i] = id;
            break;
        }
        case 4: case 5:
            sim_trace("shared %d = shared %d", i, j);
            o = sim::lib([&] { s[i] = s[j]; });
            ms[i] = ms[j];
            break;
        case 6:
            if (i == j) return;
            sim_trace("shared %d = move shared %d", i, j);
            o = sim::lib([&] { s[i] = std::move(s[j]); });
            ms[i] = ms[j]; ms[j] = -1;
            break;
        case 7:
        {
            const bool move = sim::chance(400);
            sim_trace("copy of shared %d made, assigned to %d and dropped (move %d)", j, i, (int)move);
            o = sim::lib([&] { S x(s[j]); S y; y = x; if (move) { S z(std::move(x)); s[i] = std::move(z); } else s[i] = y; });
            ms[i] = ms[j];
            break;
        }
        case 8:
        {
            const uint32_t how = sim::choose(3);
            sim_trace("shared %d reset (way %u)", i, how);
            o = sim::lib([&] { if (how == 0) s[i].Reset(); else if (how == 1) s[i] = S(); else s[i] = nullptr; });
            ms[i] = -1;
            break;
        }
        case 9:
            sim_trace("shared %d reset to its own object", i);
            o = sim::lib([&] { s[i].Reset(s[i].Get()); });
            break;
        case 10:
        {
            // the old object may own the new one
            if (ms[j] < 0) return;
            const bool move = sim::chance(400);
            const int nx = m[(size_t)ms[j]].next;
            sim_trace("shared %d = %s next of shared %d", i, move ? "move" : "copy", j);
            const int from = ms[j];
            o = sim::lib([&] { if (move) s[i] = std::move(s[j]->next); else s[i] = s[j]->next; });
            if (move) m[(size_t)from].next = -1;
            ms[i] = nx;
            break;
        }
        case 11: case 12:
        {
            // links run from older to newer objects only, so there are no cycles
            if (ms[i] < 0 || (ms[j] >= 0 && ms[j] <= ms[i])) return;
            const bool move = i != j && sim::chance(300);
            sim_trace("next of shared %d = %s shared %d", i, move ? "move" : "copy", j);
            const int at = ms[i];
            o = sim::lib([&] { if (move) s[i]->next = std::move(s[j]); else s[i]->next = s[j]; });
            m[(size_t)at].next = ms[j];
            if (move) ms[j] = -1;
            break;
        }
        default:
        {
            sim_trace("compare and use shared %d, %d", i, j);
            bool eq = false, ne = false, nul = false, notnul = false;
            sim::Outcome d, e;
            o = sim::lib([&] { eq = s[i] == s[j]; ne = s[i] != s[j]; nul = s[i] == nullptr; notnul = s[i] != nullptr; });
            d = sim::lib([&] { s[i]->use(0); });
            e = sim::lib([&] { (*s[i]).use(0); });
            if (eq != (ms[i] == ms[j]) || ne == eq || nul != (ms[i] < 0) || notnul == nul) sim::check_fail("comparison-wrong", "comparing shared pointers gives another answer than their targets");
            if (d.ok() != (ms[i] >= 0) || e.ok() != (ms[i] >= 0)) sim::check_fail("null-access", "dereferencing a shared pointer succeeded or failed against its target");
        }
    }
    expect_ok(o, "a shared pointer operation");
    check("shared pointer step");
}

inline void World::unique_step()
{
    const int i = (int)sim::choose(NU), j = (int)sim::choose(NU);
    sim::Outcome o;
    o.kind = sim::OK;
    ++steps;
    switch (sim::choose(10))
    {
        case 9: reentrant(u, mu, i, "unique"); break;
        case 0: case 1:
        {
            const int id = create();
            if (id < 0) return;
            const uint32_t how = sim::choose(3);
            sim_trace("unique %d = new object %d (way %u)", i, id, how);
            o = sim::lib([&] { Obj* p = make(id); if (how == 0) u[i] = U(p); else if (how == 1) u[i].Reset(p); else u[i] = p; });
            mu[i] = id;
            break;
        }
        case 2:
            if (i == j) { sim_trace("unique %d = move itself", i); o = sim::lib([&] { U& same = u[j]; u[i] = std::move(same); }); break; }
            sim_trace("unique %d = move unique %d", i, j);
            o = sim::lib([&] { u[i] = std::move(u[j]); });
            mu[i] = mu[j]; mu[j] = -1;
            break;
        case 3:
        {
            const uint32_t how = sim::choose(4);
            sim_trace("unique %d reset (way %u)", i, how);
            o = sim::lib([&] { if (how == 0) u[i].Reset(); else if (how == 1) u[i] = U(); else if (how == 2) { U x(std::move(u[i])); } else u[i] = nullptr; });
            mu[i] = -1;
            break;
        }
        case 4:
        {
            sim_trace("unique %d released", i);
            Obj* p = nullptr;
            o = sim::lib([&] { p = u[i].Release(); });
            const int id = mu[i];
            if ((p != nullptr) != (id >= 0) || (p && p->id != id)) sim::check_fail("wrong-target", "Release gave another object");
            if (id >= 0 && book().f[id].died) sim::check_fail("destroyed-while-owned", "Release destroyed the object it gives away");
            if (p && sim::chance(500)) { sim::lib([&] { u[i] = U(p); }); }
            else { sim::lib([&] { delete p; }); mu[i] = -1; }
            break;
        }
        case 5:
        {
            // an object owning another; the old object may own the new one
            if (mu[i] < 0) return;
            const int at = mu[i];
            const int id = m[(size_t)at].only;
            const int to = sim::chance(500) ? i : j;
            sim_trace("unique %d = move only of unique %d", to, i);
            o = sim::lib([&] { u[to] = std::move(u[i]->only); });
            m[(size_t)at].only = -1;
            mu[to] = id;
            break;
        }
        case 6:
        {
            if (mu[i] < 0 || i == j) return;
            sim_trace("only of unique %d = move unique %d", i, j);
            o = sim::lib([&] { u[i]->only = std::move(u[j]); });
            m[(size_t)mu[i]].only = mu[j];
            mu[j] = -1;
            break;
        }
        case 7:
            sim_trace("unique %d reset to its own object", i);
            o = sim::lib([&] { u[i].Reset(u[i].Get()); });
            break;
        default:
        {
            bool eq = false, ne = false, nul = false, notnul = false;
            sim_trace("compare and use unique %d, %d", i, j);
            o = sim::lib([&] { eq = u[i] == u[j]; ne = u[i] != u[j]; nul = u[i] == nullptr; notnul = u[i] != nullptr; });
            const sim::Outcome d = sim::lib([&] { u[i]->use(0); }), e = sim::lib([&] { (*u[i]).use(0); });
            if (eq != (mu[i] == mu[j]) || ne == eq || nul != (mu[i] < 0) || notnul == nul) sim::check_fail("comparison-wrong", "comparing unique pointers gives another answer than their targets");
            if (d.ok() != (mu[i] >= 0) || e.ok() != (mu[i] >= 0)) sim::check_fail("null-access", "dereferencing a unique pointer succeeded or failed against its target");
        }
    }
    expect_ok(o, "a unique pointer operation");
    check("unique pointer step");
}

inline void World::weak_step()
{
    const int i = (int)sim::choose(NW), j = (int)sim::choose(NW), k = (int)sim::choose(NS);
    sim::Outcome o;
    o.kind = sim::OK;
    ++steps;
    switch (sim::choose(10))
    {
        case 0: case 1:
        {
            const bool construct = sim::chance(500);
            sim_trace("weak %d = shared %d", i, k);
            o = sim::lib([&] { if (construct) w[i] = W(s[k]); else w[i] = s[k]; });
            mw[i] = ms[k];
            break;
        }
        case 2:
            sim_trace("weak %d = weak %d", i, j);
            o = sim::lib([&] { if (i & 1) w[i] = w[j]; else { W x(w[j]); w[i] = x; } });
            mw[i] = mw[j];
            break;
        case 3:
            if (i == j) return;
            sim_trace("weak %d = move weak %d", i, j);
            o = sim::lib([&] { if (i & 1) w[i] = std::move(w[j]); else { W x(std::move(w[j])); w[i] = std::move(x); } });
            mw[i] = mw[j]; mw[j] = -1;
            break;
        case 4:
            sim_trace("weak %d = nothing", i);
            o = sim::lib([&] { w[i] = W(); });
            mw[i] = -1;
            break;
        case 5: case 6:
        {
            sim_trace("shared %d = promoted weak %d", k, i);
            const int want = live(mw[i]);
            o = sim::lib([&] { s[k] = w[i].lock(); });
            ms[k] = want;
            if (want >= 0) ++promotions; else ++refusals;
            break;
        }
        case 7:
        {
            // weak pointers inside objects, also to the object itself
            if (ms[k] < 0) return;
            const int q = sim::chance(400) ? k : (int)sim::choose(NS);
            sim_trace("weak of shared %d = shared %d", k, q);
            o = sim::lib([&] { s[k]->weak = s[q]; });
            m[(size_t)ms[k]].weak = ms[q];
            break;
        }
        case 8:
        {
            if (ms[k] < 0) return;
            const bool move = sim::chance(300);
            sim_trace("weak %d = %s weak of shared %d", i, move ? "move" : "copy", k);
            o = sim::lib([&] { if (move) w[i] = std::move(s[k]->weak); else w[i] = s[k]->weak; });
            mw[i] = m[(size_t)ms[k]].weak;
            if (move) m[(size_t)ms[k]].weak = -1;
            break;
        }
        default:
        {
            const int want = live(mw[i]);
            sim_trace("compare and use weak %d, %d", i, j);
            bool eq = false, ne = false;
            o = sim::lib([&] { eq = w[i] == w[j]; ne = w[i] != w[j]; });
            // two expired pointers may compare either way
            if (want >= 0 && live(mw[j]) >= 0 && (eq != (want == live(mw[j])) || ne == eq)) sim::check_fail("comparison-wrong", "comparing weak pointers gives another answer than their targets");
            const sim::Outcome d = sim::lib([&] { w[i]->use(0); }), e = sim::lib([&] { (*w[i]).use(0); });
            if (d.ok() != (want >= 0) || e.ok() != (want >= 0)) sim::check_fail("expired-access", "dereferencing a weak pointer succeeded or failed against its target");
            if (want >= 0) { bool nul = true, notnul = false; sim::lib([&] { nul = w[i] == nullptr; notnul = w[i] != nullptr; }); if (nul || !notnul) sim::check_fail("comparison-wrong", "a weak pointer to a live object equals null"); }
        }
    }
    expect_ok(o, "a weak pointer operation");
    check("weak pointer step");
}

// one object with more owners, or more weak pointers, than a narrow counter can tell apart
inline void World::crowd()
{
    const int i = (int)sim::choose(NS);
    if (ms[i] < 0) return;
    static const uint32_t sizes[] = {127, 128, 255, 256, 257, 511};
    static const uint32_t large[] = {32767, 32768, 65534, 65535, 65536, 65537};
    const uint32_t n = sim::chance(100) ? sim::pick(large) : sim::pick(sizes);
    const bool of_weak = sim::chance(400), keep = sim::chance(500);
    const Obj* const was = s[i].Get();
    const int id = ms[i];
    ++steps;
    sim_trace("%u %s of the object of shared %d", n, of_weak ? "weak pointers" : "owners", i);
    sim::lib([&] {
        std::vector<S> many;
        std::vector<W> watching;
        if (of_weak) watching.assign(n, W(s[i])); else many.assign(n, s[i]);
        same(s[i].Get(), id, "shared pointer", i, "making a crowd");
        if (keep)
        {
            // all but one
            if (of_weak) watching.resize(1); else many.resize(1);
        }
        same(s[i].Get(), id, "shared pointer", i, "dropping a part of a crowd");
        if (of_weak ? watching[0].expired() || watching[0].lock().Get() != was : many[0].Get() != was) sim_fail("wrong-target", "one of %u pointers to an object gives another one", n);
    });
    check("a crowd of pointers");
}

inline void World::raw_step()
{
    // the last raw pointer to an object that nobody owns is not given another target, except to destroy the object
    const int i = (int)sim::choose(NR), j = (int)sim::choose(NR);
    sim::Outcome o;
    o.kind = sim::OK;
    ++steps;
    switch (sim::choose(9))
    {
        case 0: case 1:
        {
            // an object nobody owns
            if (lonely(i)) return;
            const int id = create();
            if (id < 0) return;
            m[(size_t)id].held = true;
            const bool assign = sim::chance(500);
            sim_trace("raw %d = new object %d", i, id);
            o = sim::lib([&] { Obj* p = make(id); if (assign) r[i] = p; else r[i] = R(p); });
            mr[i] = id;
            break;
        }
        case 2: case 3:
        {
            if (i != j && lonely(i)) return;
            const bool copy = sim::chance(500);
            sim_trace("raw %d = raw %d", i, j);
            o = sim::lib([&] { if (copy) { R x(r[j]); r[i] = x; } else r[i] = r[j]; });
            mr[i] = mr[j];
            break;
        }
        case 4:
        {
            // looks at an object that has an owner
            if (lonely(i)) return;
            const int k = (int)sim::choose(NS);
            const bool unique = sim::chance(300) && k < NU;
            sim_trace("raw %d = target of %s %d", i, unique ? "unique" : "shared", k);
            o = sim::lib([&] { r[i] = unique ? u[k].Get() : s[k].Get(); });
            mr[i] = unique ? mu[k] : ms[k];
            break;
        }
        case 5: case 6:
        {
            if (mr[i] >= 0 && !m[(size_t)mr[i]].held) { sim_trace("raw %d emptied", i); o = sim::lib([&] { r[i] = nullptr; }); mr[i] = -1; break; }
            const uint32_t how = sim::choose(3);
            const int id = how == 2 ? create() : -1;
            if (how == 2 && id < 0) return;
            if (mr[i] >= 0) { m[(size_t)mr[i]].held = false; for (int k = 0; k < NR; ++k) if (k != i && mr[k] == mr[i]) { sim::lib([&] { r[k] = nullptr; }); mr[k] = -1; } }
            if (id >= 0) m[(size_t)id].held = true;
            sim_trace("raw %d %s (object %d)", i, how == 0 ? "destroys its object" : how == 1 ? "is reset" : "is reset to a new object", mr[i]);
            o = sim::lib([&] { if (how == 0) r[i].Destroy(); else if (how == 1) r[i].Reset(); else r[i].Reset(make(id)); });
            mr[i] = id;
            break;
        }
        case 7:
        {
            // handed to an owner
            if (mr[i] < 0 || !m[(size_t)mr[i]].held) return;
            const int id = mr[i];
            const bool unique = sim::chance(500) && j < NU;
            sim_trace("the object of raw %d is handed to %s %d", i, unique ? "unique" : "shared", j);
            o = sim::lib([&] { if (unique) u[j] = U(r[i].Get()); else s[j] = S(r[i].Get()); });
            m[(size_t)id].held = false;
            if (unique) mu[j] = id; else ms[j] = id;
            break;
        }
        default:
        {
            sim_trace("compare and use raw %d, %d", i, j);
            bool eq = false, ne = false, nul = false, notnul = false;
            sim::Outcome d, e;
            o = sim::lib([&] { eq = r[i] == r[j]; ne = r[i] != r[j]; nul = r[i] == nullptr; notnul = r[i] != nullptr; });
            d = sim::lib([&] { r[i]->use(0); });
            e = sim::lib([&] { (*r[i]).use(0); });
            if (eq != (mr[i] == mr[j]) || ne == eq || nul != (mr[i] < 0) || notnul == nul) sim::check_fail("comparison-wrong", "comparing raw pointers gives another answer than their targets");
            if (d.ok() != (mr[i] >= 0) || e.ok() != (mr[i] >= 0)) sim::check_fail("null-access", "dereferencing a raw pointer succeeded or failed against its target");
        }
    }
    expect_ok(o, "a raw pointer operation");
    check("raw pointer step");
}

inline void World::finish()
{
    for (int i = 0; i < NR; ++i)
    {
        if (mr[i] < 0) continue;
        const int id = mr[i];
        const bool held = m[(size_t)id].held;
        m[(size_t)id].held = false;
        for (int k = 0; k < NR; ++k) if (mr[k] == id) { mr[k] = -1; if (k != i) sim::lib([&] { r[k] = nullptr; }); }
        expect_ok(sim::lib([&] { if (held) r[i].Destroy(); else r[i] = nullptr; }), "destroying the object of a raw pointer");
    }
    for (size_t k = 0; k < m.size(); ++k) if (m[k].held) sim_fail("harness", "object %d is held and no raw pointer has it", (int)k);
    check("destroying the objects of raw pointers");
    const uint32_t order = sim::choose(3);
    const sim::Outcome o = sim::lib([&] {
        if (order == 0) for (int i = 0; i < NW; ++i) w[i] = W();
        for (int i = 0; i < NS; ++i) s[i].Reset();
        for (int i = 0; i < NU; ++i) u[i].Reset();
    });
    expect_ok(o, "dropping the last owners");
    for (int i = 0; i < NS; ++i) ms[i] = -1;
    for (int i = 0; i < NU; ++i) mu[i] = -1;
    if (order == 0) for (int i = 0; i < NW; ++i) mw[i] = -1;
    check("dropping the last owners");
}

// ---- several threads ------------------------------------------------------------------------------------------------
// definite: owners that surely exist; possible: owners that may exist (an operation is under way)
struct Shared
{
    std::mutex mutex;
    S* box;                     // handed from thread to thread
    int box_id;
    const S* common;            // read by all threads, dropped after they ended
    const W* common_weak;
    int common_id, weak_id;
};

struct Th
{
    int id;
    Shared* sh;
    std::vector<S*> own;  std::vector<int> own_id;
    std::vector<W*> weak; std::vector<int> weak_id;
    uint32_t promotions, refusals, drops;
    bool hot;                   // few owners, many promotions
};

inline void gain_maybe(int id) { if (id >= 0) ++book().f[id].possible; }
inline void gain_sure(int id) { if (id >= 0) { Fate& f = book().f[id]; ++f.definite; } }
inline void lose_maybe(int id) { if (id >= 0) { Fate& f = book().f[id]; if (--f.definite == 0) ++f.zeroes; } }
inline void lose_sure(int id)
{
    if (id < 0) return;
    Fate& f = book().f[id];
    if (--f.possible == 0 && !f.died) sim_fail("never-destroyed", "object %d is not destroyed although its last owner is gone", id);
}

inline void th_step(Th& t, bool with_weak)
{
    sim::Outcome o;
    o.kind = sim::OK;
    static const uint32_t hot[] = {1, 2, 8, 9, 10, 8, 9, 11, 0};
    const uint32_t kind = with_weak && t.hot ? sim::pick(hot) : sim::choose(with_weak ? 12 : 8);
    const size_t n = t.own.size();
    switch (kind)
    {
        case 0:
        {
            // copy
            if (!n || n > 6) return;
            const size_t k = sim::choose((uint32_t)n);
            const int id = t.own_id[k];
            gain_maybe(id);
            S* c = nullptr;
            o = sim::lib([&] { c = new S(*t.own[k]); });
            gain_sure(id);
            t.own.push_back(c); t.own_id.push_back(id);
            break;
        }
        case 1: case 2:
        {
            // drop
            if (!n) return;
            const size_t k = sim::choose((uint32_t)n);
            const int id = t.own_id[k];
            S* c = t.own[k];
            t.own.erase(t.own.begin() + (long)k); t.own_id.erase(t.own_id.begin() + (long)k);
            const bool reset = sim::chance(300);
            sim_trace("thread %d drops object %d", t.id, id);
            lose_maybe(id);
            o = sim::lib([&] { if (reset) c->Reset(); delete c; });
            lose_sure(id);
            ++t.drops;
            break;
        }
        case 3:
        {
            // assign over
            if (n < 2) return;
            const size_t a = sim::choose((uint32_t)n), b = sim::choose((uint32_t)n);
            const bool move = a != b && sim::chance(400);
            const int ia = t.own_id[a], ib = t.own_id[b];
            if (a == b) { o = sim::lib([&] { S& me = *t.own[a]; *t.own[a] = me; }); break; }
            sim_trace("thread %d assigns object %d over %d", t.id, ib, ia);
            lose_maybe(ia); gain_maybe(ib);
            o = sim::lib([&] { if (move) *t.own[a] = std::move(*t.own[b]); else *t.own[a] = *t.own[b]; });
            lose_sure(ia); gain_sure(ib);
            t.own_id[a] = ib;
            if (move) { lose_maybe(ib); lose_sure(ib); t.own_id[b] = -1; }
            break;
        }
        case 4:
        {
            // use
            if (!n) return;
            const size_t k = sim::choose((uint32_t)n);
            if (t.own_id[k] < 0) return;
            o = sim::lib([&] { (*t.own[k])->use(t.id); });
            break;
        }
        case 5:
        {
            // exchange through the box
            if (!n) return;
            const size_t k = sim::choose((uint32_t)n);
            int taken = -1;
            o = sim::lib([&] {
                std::lock_guard<std::mutex> l(t.sh->mutex);
                S tmp(std::move(*t.sh->box));
                *t.sh->box = std::move(*t.own[k]);
                *t.own[k] = std::move(tmp);
                sim_lib_leave();
                taken = t.sh->box_id; t.sh->box_id = t.own_id[k];
                sim_lib_enter();
            });
            t.own_id[k] = taken;
            break;
        }
        case 6:
        {
            // copy of a pointer all threads read
            if (n > 6) return;
            const int id = t.sh->common_id;
            gain_maybe(id);
            S* c = nullptr;
            o = sim::lib([&] { c = new S(*t.sh->common); });
            gain_sure(id);
            t.own.push_back(c); t.own_id.push_back(id);
            break;
        }
        case 7:
        {
            // put an own object into the next link of a new object and drop both ways
            if (!n || n > 6) return;
            const size_t k = sim::choose((uint32_t)n);
            const int id = t.own_id[k], fresh = fresh_id();
            if (fresh < 0) return;
            sim_trace("thread %d wraps object %d in object %d", t.id, id, fresh);
            S* c = nullptr;
            gain_maybe(id); gain_maybe(fresh);
            o = sim::lib([&] { c = new S(new Obj(fresh)); (*c)->next = *t.own[k]; });
            gain_sure(id);
            // the wrapper itself is dropped at once by the same thread: its link goes with it
            lose_maybe(id);
            o = sim::lib([&] { (*c)->use(t.id); delete c; });
            lose_sure(id); lose_sure(fresh);
            break;
        }
        case 8: case 9: case 10:
        {
            // promote
            const bool common = t.weak.empty() || sim::chance(400);
            const size_t k = common ? 0 : sim::choose((uint32_t)t.weak.size());
            const int id = common ? t.sh->weak_id : t.weak_id[k];
            const W* w = common ? t.sh->common_weak : t.weak[k];
            if (id < 0 || n > 8) return;
            Fate& f = book().f[id];
            const int zeroes = f.zeroes;
            const bool surely = f.definite > 0, dead = f.possible == 0;
            const bool ask = sim::chance(300);
            ++f.possible;
            S* c = nullptr;
            bool over = false;
            o = sim::lib([&] {
                if (ask) over = w->expired();
                c = new S(w->lock());
            });
            Obj* p = nullptr;
            sim::lib([&] { p = c->Get(); });
            sim_trace("thread %d promotes object %d: %s", t.id, id, p ? "owner" : "nothing");
            if (p && dead) sim::check_fail("promoted-dead-object", "promoting a weak pointer gave an owner of an object whose last owner was gone");
            if (!p && surely && f.zeroes == zeroes) sim::check_fail("promotion-refused", "promoting a weak pointer gave nothing although the object had owners all the time");
            if (ask && over && p) sim::check_fail("expired-wrong", "a weak pointer reported expired and then promoted");
            if (ask && over && surely && f.zeroes == zeroes) sim::check_fail("expired-wrong", "a weak pointer reported expired although the object had owners all the time");
            if (ask && !over && dead) sim::check_fail("expired-wrong", "a weak pointer of a destroyed object does not report expired");
            if (p)
            {
                ++f.definite;
                if (f.died) sim::check_fail("promoted-dead-object", "promoting a weak pointer gave an owner of a destroyed object");
                o = sim::lib([&] { p->use(t.id); });
                t.own.push_back(c); t.own_id.push_back(id);
                ++t.promotions;
            }
            else
            {
                lose_sure(id);
                sim::lib([&] { delete c; });
                ++t.refusals;
            }
            break;
        }
        default:
        {
            // weak pointers come and go
            if (!t.weak.empty() && sim::chance(500))
            {
                W* w = t.weak.back();
                t.weak.pop_back(); t.weak_id.pop_back();
                o = sim::lib([&] { delete w; });
            }
            else if (n)
            {
                const size_t k = sim::choose((uint32_t)n);
                W* w = nullptr;
                const bool from_weak = !t.weak.empty() && sim::chance(300);
                const int id = from_weak ? t.weak_id.back() : t.own_id[k];
                o = sim::lib([&] { if (from_weak) { w = new W(); *w = *t.weak.back(); } else w = new W(*t.own[k]); });
                t.weak.push_back(w); t.weak_id.push_back(id);
            }
        }
    }
    expect_ok(o, "a pointer operation");
}

inline void th_end(Th& t)
{
    // dropped by the thread itself, or left to the main thread
    if (sim::chance(300)) return;
    while (!t.own.empty())
    {
        S* c = t.own.back();
        const int id = t.own_id.back();
        t.own.pop_back(); t.own_id.pop_back();
        lose_maybe(id);
        sim::lib([&] { delete c; });
        lose_sure(id);
    }
    while (!t.weak.empty())
    {
        W* w = t.weak.back();
        t.weak.pop_back(); t.weak_id.pop_back();
        sim::lib([&] { delete w; });
    }
}

struct ThreadStats { uint32_t threads, objects, drops, promotions, refusals; };

inline ThreadStats run_threads(bool with_weak)
{
    static const uint32_t gaps[] = {10, 40, 200, 1000};
    sim_sched_config(100 + sim::choose(6) * 120);
    sim_preempt_config(sim::pick(gaps));
    start(with_weak && sim::chance(300));
    const uint64_t blocks = sim_live_blocks();
    const bool hot = with_weak && sim::chance(600);
    const int nt = 2 + (int)sim::choose(3), no = hot ? 1 : 1 + (int)sim::choose(3);
    Shared sh;
    std::vector<Th> th((size_t)nt);
    std::vector<S*> first((size_t)no);
    for (int i = 0; i < no; ++i)
    {
        const int id = fresh_id();
        gain_maybe(id);
        expect_ok(sim::lib([&] { first[(size_t)i] = new S(new Obj(id)); if (book().promote_in_destructor) (*first[(size_t)i])->weak = *first[(size_t)i]; }), "making an object");
        gain_sure(id);
    }
    sh.common_id = (int)sim::choose((uint32_t)no);
    sh.weak_id = (int)sim::choose((uint32_t)no);
    if (hot) sh.common_id = -1;
    sh.box_id = -1;
    gain_maybe(sh.common_id);
    S* common = nullptr; W* common_weak = nullptr;
    expect_ok(sim::lib([&] { sh.box = new S(); common = hot ? new S() : new S(*first[(size_t)sh.common_id]); common_weak = new W(*first[(size_t)sh.weak_id]); }), "sharing an object");
    gain_sure(sh.common_id);
    sh.common = common; sh.common_weak = common_weak;
    for (int i = 0; i < nt; ++i)
    {
        Th& t = th[(size_t)i];
        t.id = i + 1; t.sh = &sh; t.hot = hot; t.promotions = t.refusals = t.drops = 0;
        const uint32_t mine = hot ? 1 + sim::choose(2) : 1 + sim::choose(3);
        if (hot && i && sim::chance(300)) { const int id = 0; W* w = nullptr; expect_ok(sim::lib([&] { w = new W(*first[(size_t)id]); }), "a weak pointer"); t.weak.push_back(w); t.weak_id.push_back(id); continue; }
        for (uint32_t k = 0; k < mine; ++k)
        {
            const int id = (int)sim::choose((uint32_t)no);
            S* c = nullptr; W* w = nullptr;
            gain_maybe(id);
            expect_ok(sim::lib([&] { c = new S(*first[(size_t)id]); if (with_weak) w = new W(*c); }), "copying a pointer");
            gain_sure(id);
            t.own.push_back(c); t.own_id.push_back(id);
            if (w) { t.weak.push_back(w); t.weak_id.push_back(id); }
        }
    }
    const bool keep_first = !hot && sim::chance(200);
    if (!keep_first)
        for (int i = 0; i < no; ++i)
        {
            S* c = first[(size_t)i];
            lose_maybe(i);
            sim::lib([&] { delete c; });
            lose_sure(i);
            first[(size_t)i] = nullptr;
        }
    const uint32_t ops = 2 + sim::choose(10);
    for (int i = 0; i < nt; ++i)
    {
        Th* t = &th[(size_t)i];
        sim::spawn([t, ops, with_weak] { for (uint32_t k = 0; k < ops; ++k) th_step(*t, with_weak); th_end(*t); });
    }
    sim_run();
    // what the threads left
    ThreadStats st = {(uint32_t)nt, 0, 0, 0, 0};
    for (int i = 0; i < nt; ++i)
    {
        Th& t = th[(size_t)i];
        for (size_t k = 0; k < t.own.size(); ++k) { lose_maybe(t.own_id[k]); S* c = t.own[k]; sim::lib([&] { delete c; }); lose_sure(t.own_id[k]); }
        for (size_t k = 0; k < t.weak.size(); ++k) { W* w = t.weak[k]; sim::lib([&] { delete w; }); }
        st.drops += t.drops; st.promotions += t.promotions; st.refusals += t.refusals;
    }
    for (int i = 0; i < no; ++i) if (first[(size_t)i]) { S* c = first[(size_t)i]; lose_maybe(i); sim::lib([&] { delete c; }); lose_sure(i); }
    lose_maybe(sh.box_id); sim::lib([&] { delete sh.box; }); lose_sure(sh.box_id);
    lose_maybe(sh.common_id); sim::lib([&] { delete common; }); lose_sure(sh.common_id);
    sim::lib([&] { delete common_weak; });
    for (int i = 0; i < book().n; ++i)
    {
        st.objects += book().f[i].born;
        if (book().f[i].born != book().f[i].died) sim_fail("never-destroyed", "object %d was made but never destroyed", i);
    }
    const uint64_t left = sim_live_blocks();
    if (left > blocks) sim_fail("memory-leak", "%llu heap blocks of the pointers are never freed", (unsigned long long)(left - blocks));
    return st;
}

}  // namespace ptr

#endif
