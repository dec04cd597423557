// E01: success-or-error values over histories of assignments, moves and transformations whose payload operations throw.
#include "../core/sim.h"
#include <new>
#include <set>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include "Caitlyn/__Core/Error.h"

extern "C" { const char* scenario_name = "e01"; }

namespace {

typedef std::string Str;

struct Boom {};

// what the payloads and callbacks of this run throw
uint32_t thrown_kind;
const sim::Kind thrown_as[] = {sim::FOREIGN, sim::RUNTIME, sim::LOGIC, sim::BAD_ALLOC, sim::FOREIGN, sim::OUT_OF_RANGE};
void boom()
{
    switch (thrown_kind)
    {
        case 0: throw Boom();
        case 1: throw std::runtime_error("boom");
        case 2: throw std::logic_error("boom");
        case 3: throw std::bad_alloc();
        case 4: throw 7;
        default: throw std::out_of_range("boom");
    }
}

// every payload object alive now, and the countdown to the operation that throws
struct Book { std::set<const void*> live; uint32_t countdown; bool persistent; uint32_t thrown; };
Book* book;

struct Away { Away() { sim_lib_leave(); } ~Away() { sim_lib_enter(); } };

void tick(const char* what)
{
    bool now = false;
    {
        Away a;
        if (book->countdown && --book->countdown == 0) { now = true; ++book->thrown; if (book->persistent) book->countdown = 1; sim_count("fault:payload operation", 1); sim_trace("payload %s throws", what); }
    }
    if (now) boom();
}
void born(const void* p) { Away a; if (!book->live.insert(p).second) sim_fail("made-over-live", "a payload is made over a live one"); }
void dies(const void* p) { Away a; if (!book->live.erase(p)) sim_fail("destroyed-twice", "a payload that is not alive is destroyed"); }
void needs(const void* p) { Away a; if (!book->live.count(p)) sim_fail("dead-payload", "a payload that is not alive is used"); }

// A payload: tag 0 moves without throwing, tag 1 has only copies.  It owns heap memory, which may run out as well.
template <int Tag>
struct Pay
{
    int* box;
    Pay() : box(nullptr) { tick("default construction"); box = new int(-1); born(this); }
    explicit Pay(int v) : box(nullptr) { tick("construction"); box = new int(v); born(this); }
    Pay(const Pay& o) : box(nullptr) { needs(&o); tick("copy construction"); box = o.box ? new int(*o.box) : nullptr; born(this); }
    Pay(Pay&& o) noexcept : box(o.box) { needs(&o); o.box = nullptr; born(this); }
    Pay& operator=(const Pay& o)
    {
        needs(this); needs(&o); tick("copy assignment");
        int* n = o.box ? new int(*o.box) : nullptr;
        delete box; box = n;
        return *this;
    }
    Pay& operator=(Pay&& o) noexcept { needs(this); needs(&o); int* t = box; box = o.box; o.box = t; return *this; }
    ~Pay() { dies(this); delete box; }
    int get() const { needs(this); return box ? *box : -2; }
};
template <>
struct Pay<1>
{
    int* box;
    Pay() : box(nullptr) { tick("default construction"); box = new int(-1); born(this); }
    explicit Pay(int v) : box(nullptr) { tick("construction"); box = new int(v); born(this); }
    Pay(const Pay& o) : box(nullptr) { needs(&o); tick("copy construction"); box = o.box ? new int(*o.box) : nullptr; born(this); }
    Pay& operator=(const Pay& o)
    {
        needs(this); needs(&o); tick("copy assignment");
        int* n = o.box ? new int(*o.box) : nullptr;
        delete box; box = n;
        return *this;
    }
    ~Pay() { dies(this); delete box; }
    int get() const { needs(this); return box ? *box : -2; }
};

// payloads by kind: made from a number, read back as that number
template <typename T> struct K;
template <int Tag> struct K<Pay<Tag> >
{
    static const bool only_copies = Tag == 1;
    static Pay<Tag> make(int v) { return Pay<Tag>(v); }
    static int get(const Pay<Tag>& p) { return p.get(); }
};
template <> struct K<int>
{
    static const bool only_copies = false;
    static int make(int v) { return v; }
    static int get(const int& v) { return v; }
};
template <> struct K<Caitlyn::String>
{
    static const bool only_copies = false;
    static Caitlyn::String make(int v) { return Caitlyn::String("a text of more than fifteen bytes: " + std::to_string(v)); }
    static int get(const Caitlyn::String& s)
    {
        Away a;     // reading is the harness's business
        const Str t(s.str());
        const size_t at = t.rfind(": ");
        return at == Str::npos ? -2 : atoi(t.c_str() + at + 2);
    }
};

struct M { bool good; int v; };

uint32_t steps, failed;

template <typename T, typename E>
struct World
{
    typedef Caitlyn::Expected<T, E> X;
    typedef Caitlyn::Unexpected<E> UE;
    static const int N = 4;
    X* x[N];
    M m[N];
    int next;
    bool throwing, memory;
    uint32_t vcalls, ecalls;
    int vseen, eseen;

    static const bool rough = K<T>::only_copies && K<E>::only_copies;

    void arm()
    {
        if (!throwing || !sim::chance(400)) return;
        const bool persistent = !K<T>::only_copies && !K<E>::only_copies && sim::chance(300);
        if (memory && sim::chance(400)) { sim_alloc_arm(1 + sim::choose(4), persistent); return; }
        book->countdown = 1 + sim::choose(4);
        book->persistent = persistent;
    }
    bool disarm()
    {
        const bool fired = sim_alloc_fired() != 0 || book->thrown;
        sim_alloc_arm(0, 0);
        book->countdown = 0; book->persistent = false; book->thrown = 0;
        return fired;
    }

    bool fired_;
    template <typename F> sim::Outcome guarded(F f) { const sim::Outcome o = sim::lib(f); fired_ = disarm(); return o; }

    M state(int i)
    {
        M s; s.good = false; s.v = 0;
        bool e = false, b = false;
        const sim::Outcome o = sim::lib([&] {
            s.good = x[i]->HasValue(); e = x[i]->HasError(); b = static_cast<bool>(*x[i]);
            s.v = s.good ? K<T>::get(x[i]->Get()) : K<E>::get(x[i]->GetError());
        });
        if (!o.ok()) sim::check_fail("unreadable", Str("reading a value threw ") + sim::kind_name(o.kind));
        if (e == s.good || b != s.good) sim::check_fail("indications-disagree", "HasValue, HasError and conversion to bool disagree");
        const sim::Outcome w = sim::lib([&] { if (s.good) (void)x[i]->GetError(); else (void)x[i]->Get(); });
        if (w.kind != sim::LOGIC) sim::check_fail("wrong-alternative-read", "reading the alternative that is not held did not throw");
        return s;
    }
    void verify(const char* after)
    {
        for (int i = 0; i < N; ++i)
        {
            const M s = state(i);
            if (s.good != m[i].good || s.v != m[i].v)
                sim::check_fail("wrong-content", Str("after ") + after + ": value " + std::to_string(i) + " holds " + (s.good ? "value " : "error ") + std::to_string(s.v) + " instead of " + (m[i].good ? "value " : "error ") + std::to_string(m[i].v));
        }
        size_t own = 0;
        for (int i = 0; i < N; ++i) own += m[i].good ? tracked<T>() : tracked<E>();
        if (book->live.size() != own) sim::check_fail(book->live.size() > own ? "payload-leaked" : "payload-lost", Str("after ") + after + ": " + std::to_string(book->live.size()) + " payloads are alive, the values hold " + std::to_string(own));
    }
    template <typename Q> static size_t tracked() { return tracks(static_cast<Q*>(nullptr)); }
    template <int Tag> static size_t tracks(Pay<Tag>*) { return 1; }
    template <typename Q> static size_t tracks(Q*) { return 0; }

    // o: what the call did; want: the target's new content
    void settle(const sim::Outcome& o, bool fired, int i, const M& want, const char* what)
    {
        if (o.ok()) { m[i] = want; }
        else
        {
            if (!fired || (o.kind != thrown_as[thrown_kind] && o.kind != sim::BAD_ALLOC)) sim::check_fail("wrong-exception", Str(what) + " threw " + sim::kind_name(o.kind) + " " + o.what);
            ++failed;
            const M s = state(i);
            if (!(s.good == m[i].good && s.v == m[i].v) && !(s.good == want.good && s.v == want.v))
                sim::check_fail("neither-old-nor-new", Str("after a failed ") + what + " the target holds neither its old nor its new content");
            m[i] = s;
        }
        verify(what);
    }

    void make(int i)
    {
        // first contents, nothing fails
        m[i].good = sim::chance(600); m[i].v = ++next;
        const int v = m[i].v;
        const bool named = sim::chance(500);
        sim::lib([&] {
            if (m[i].good) { T t(K<T>::make(v)); x[i] = new X(t); same<T>(t, v); }
            else if (named) { E e(K<E>::make(v)); UE u(e); same<E>(e, v); x[i] = new X(u); same<E>(u.Get(), v); same<E>(e, v); }
            else x[i] = new X(UE(K<E>::make(v)));
        });
    }
    // a content keeps what it is made from
    template <typename Q> static void same(const Q& q, int v)
    {
        if (K<Q>::get(q) != v) { Away a; sim_fail("argument-changed", "making a value or an error changed the object it was made from"); }
    }
    // an error from a name, which stays as it is even if making it fails
    static X from_named(int v)
    {
        E e(K<E>::make(v));
        try { UE u(v % 3 ? UE(e) : UE(Caitlyn::MakeError(e))); same<E>(e, v); X r(u); same<E>(u.Get(), v); same<E>(e, v); return r; }
        catch (...) { same<E>(e, v); throw; }
    }
    static X from_named_value(int v)
    {
        T t(K<T>::make(v));
        try { X r(v % 3 ? X(t) : X(Caitlyn::MakeCorrect<T, E>(t))); same<T>(t, v); return r; }
        catch (...) { same<T>(t, v); throw; }
    }

    void step()
    {
        const int i = (int)sim::choose(N), j = (int)sim::choose(N);
        ++steps;
        vcalls = ecalls = 0; vseen = eseen = 0;
        M want = m[i];
        sim::Outcome o;
        const bool good = m[j].good;
        const int was = m[j].v;
        const X& src = *x[j];
        const int fresh = ++next;
        const bool to_value = sim::chance(500);
        const bool cb_throws = throwing && sim::chance(150);
        switch (sim::choose(21))
        {
            case 0: case 1:
                sim_trace("%d = %d", i, j);
                arm();
                o = guarded([&] { *x[i] = *x[j]; });
                want = m[j];
                settle(o, fired_, i, want, "copy assignment");
                return;
            case 2: case 3:
            {
                if (i == j) return;
                sim_trace("%d = move %d", i, j);
                arm();
                o = guarded([&] { *x[i] = std::move(*x[j]); });
                const bool fired = fired_;
                want = m[j];
                M left; left = state(j);
                if (left.good != m[j].good) sim::check_fail("wrong-content", "a move changed which alternative its source holds");
                if (!o.ok() && K<T>::only_copies && K<E>::only_copies && left.v != m[j].v) sim::check_fail("wrong-content", "a failed assignment changed its source");
                m[j] = left;
                settle(o, fired, i, want, "move assignment");
                return;
            }
            case 4:
            {
                sim_trace("%d = new %s %d", i, to_value ? "value" : "error", fresh);
                want.good = to_value; want.v = fresh;
                const bool named = sim::chance(500);
                arm();
                o = guarded([&] { if (to_value) { const T t(K<T>::make(fresh)); *x[i] = t; } else if (named) *x[i] = from_named(fresh); else *x[i] = UE(K<E>::make(fresh)); });
                settle(o, fired_, i, want, "assignment of a new content");
                return;
            }
            case 5:
            {
                // construction of a new object from another, replacing the old one if it succeeds
                const bool move = i != j && sim::chance(400);
                sim_trace("construct from %d (move %d)", j, (int)move);
                X* n = nullptr;
                arm();
                o = guarded([&] { if (move) n = new X(std::move(*x[j])); else n = new X(*x[j]); });
                const bool fired = fired_;
                want = m[j];
                if (move) m[j] = state(j);
                if (o.ok()) sim::lib([&] { delete x[i]; x[i] = n; });
                settle(o, fired, i, want, "construction");
                return;
            }
            case 6:
            {
                if (i == j || rough) return;   // two throwing moves in a row have no way back
                sim_trace("swap %d %d", i, j);
                if (K<T>::only_copies || K<E>::only_copies) { fired_ = false; o = sim::lib([&] { std::swap(*x[i], *x[j]); }); }
                else { arm(); o = guarded([&] { std::swap(*x[i], *x[j]); }); }
                const bool fired = fired_;
                want = m[j];
                if (o.ok()) m[j] = m[i];
                settle(o, fired, i, want, "swap");
                return;
            }
            case 7:
                sim_trace("%d = AndThen of %d", i, j);
                arm();
                o = guarded([&] { *x[i] = src.AndThen([&](const T& t) -> X { return on_value(t, cb_throws, to_value, fresh); }); });
                calls(o, good, true, was, cb_throws, "AndThen");
                if (good) { want.good = to_value; want.v = fresh; } else want = m[j];
                break;
            case 8:
                sim_trace("%d = Then of %d", i, j);
                arm();
                o = guarded([&] { *x[i] = src.Then([&](const T& t) -> X { return on_value(t, cb_throws, to_value, fresh); }); });
                calls(o, good, true, was, cb_throws, "Then");
                if (good) { want.good = to_value; want.v = fresh; } else want = m[j];
                break;
            case 9:
                sim_trace("%d = OrElse of %d", i, j);
                arm();
                o = guarded([&] { *x[i] = src.OrElse([&](const E& e) -> X { return on_error(e, cb_throws, to_value, fresh); }); });
                calls(o, !good, false, was, cb_throws, "OrElse");
                if (!good) { want.good = to_value; want.v = fresh; } else want = m[j];
                break;
            case 10:
                sim_trace("%d = CatchError of %d", i, j);
                arm();
                o = guarded([&] { *x[i] = src.CatchError([&](const E& e) -> X { return on_error(e, cb_throws, to_value, fresh); }); });
                calls(o, !good, false, was, cb_throws, "CatchError");
                if (!good) { want.good = to_value; want.v = fresh; } else want = m[j];
                break;
            case 11:
                sim_trace("%d = Map of %d", i, j);
                arm();
                o = guarded([&] { *x[i] = src.Map([&](const T& t) -> T { see_value(t, cb_throws); return K<T>::make(fresh); }); });
                calls(o, good, true, was, cb_throws, "Map");
                want = m[j];
                if (good) want.v = fresh;
                break;
            case 12:
                sim_trace("%d = MapError of %d", i, j);
                arm();
                o = guarded([&] { *x[i] = src.MapError([&](const E& e) -> E { see_error(e, cb_throws); return K<E>::make(fresh); }); });
                calls(o, !good, false, was, cb_throws, "MapError");
                want = m[j];
                if (!good) want.v = fresh;
                break;
            case 13:
                sim_trace("%d = OnError of %d", i, j);
                arm();
                o = guarded([&] { *x[i] = src.OnError([&](const E& e) { see_error(e, cb_throws); }); });
                calls(o, !good, false, was, cb_throws, "OnError");
                want = m[j];
                break;
            case 14:
            {
                sim_trace("%d = Filter of %d", i, j);
                arm();
                o = guarded([&] { *x[i] = src.Filter([&](const T& t) -> bool { see_value(t, cb_throws); return to_value; }); });
                calls(o, good, true, was, cb_throws, "Filter");
                if (o.ok() && !(good && to_value))
                {
                    // a filtered or failed value is an error of the default content
                    want.good = false;
                    const M s = state(i);
                    want.v = s.v;
                    if (s.good) sim::check_fail("wrong-content", "Filter let a refused value through");
                }
                else want = m[j];
                if (!o.ok() && !(good && to_value)) { const bool fired = fired_; const M s = state(i); if (s.good != m[i].good || s.v != m[i].v) want = s; settle_cb(o, fired, cb_throws, i, want, "Filter"); return; }
                break;
            }
            case 15:
            {
                // to another type and back out of it
                sim_trace("Map of %d to a number", j);
                arm();
                bool hv = false;
                int got = -9;
                o = guarded([&] {
                    const Caitlyn::Expected<int, E> y = src.Map([&](const T& t) -> int { see_value(t, cb_throws); return fresh; });
                    hv = y.HasValue();
                    got = hv ? y.Get() : K<E>::get(y.GetError());
                });
                calls(o, good, true, was, cb_throws, "Map");
                if (o.ok() && (hv != good || got != (good ? fresh : was))) sim::check_fail("wrong-content", "Map to another type gave another content");
                break;
            }
            case 16:
            {
                sim_trace("MapError of %d to a number", j);
                arm();
                bool hv = false;
                int got = -9;
                o = guarded([&] {
                    const Caitlyn::Expected<T, int> y = src.MapError([&](const E& e) -> int { see_error(e, cb_throws); return fresh; });
                    hv = y.HasValue();
                    got = hv ? K<T>::get(y.Get()) : y.GetError();
                });
                calls(o, !good, false, was, cb_throws, "MapError");
                if (o.ok() && (hv != good || got != (good ? was : fresh))) sim::check_fail("wrong-content", "MapError to another type gave another content");
                break;
            }
            case 17:
            {
                // reading with an alternative
                const uint32_t how = sim::choose(6);
                sim_trace("unwrap %d (way %u)", j, how);
                arm();
                int got = -9;
                o = guarded([&] {
                    const T other(K<T>::make(fresh));
                    if (how == 0) { const T t(src.UnwrapOr(other)); got = K<T>::get(t); }
                    else if (how == 1) { const T t(src.UnwrapOrDefault(other)); got = K<T>::get(t); }
                    else if (how == 2) { const T t(src.UnwrapOrElse([&](const E& e) -> T { see_error(e, cb_throws); return K<T>::make(fresh); })); got = K<T>::get(t); }
                    else if (how == 3) got = src.Fold(0, [&](int init, const T& t) -> int { see_value(t, cb_throws); return init + K<T>::get(t); });
                    else if (how == 4)
                    {
                        // what is folded into may be handed over, or stay with the caller
                        T init(K<T>::make(fresh));
                        const T t(fresh % 2 ? src.Fold(init, [&](const T& a, const T& b) -> T { see_value(b, cb_throws); same<T>(a, fresh); return b; })
                                            : src.Fold(std::move(init), [&](const T& a, const T& b) -> T { see_value(b, cb_throws); same<T>(a, fresh); return b; }));
                        got = K<T>::get(t);
                        if (fresh % 2) same<T>(init, fresh);
                    }
                    else
                    {
                        got = good ? was : fresh;
                        read_default(src, got, static_cast<const T*>(nullptr));
                    }
                });
                if (how == 2) calls(o, !good, false, was, cb_throws, "UnwrapOrElse");
                if (how == 3 || how == 4) calls(o, good, true, was, cb_throws, "Fold");
                if (o.ok() && got != (good ? was : how == 3 ? 0 : fresh)) sim::check_fail("wrong-content", "reading with an alternative gave another content");
                break;
            }
            case 18:
            {
                sim_trace("expect %d", j);
                const Caitlyn::String text("expected");
                int got = -9, err = -9;
                const sim::Outcome a = sim::lib([&] { got = K<T>::get(src.Expect(text)); });
                const sim::Outcome b = sim::lib([&] { err = K<E>::get(src.ExpectError("no error")); });
                if (a.ok() != good || b.ok() == good || (good && got != was) || (!good && err != was)) sim::check_fail("wrong-content", "Expect or ExpectError gave the wrong alternative");
                if ((!good && (a.kind != sim::RUNTIME || a.what != "expected")) || (good && (b.kind != sim::RUNTIME || b.what != "no error"))) sim::check_fail("wrong-exception", "Expect or ExpectError threw something else than the message");
                verify("Expect");
                return;
            }
            case 19:
            {
                sim_trace("inspect %d", j);
                arm();
                int got = 0;
                o = guarded([&] {
                    got = src.Inspect([&](const T& t, int k) -> int { see_value(t, cb_throws); return k; }, [&](const E& e, int k) -> int { see_error(e, cb_throws); return -k; }, 5);
                });
                if (o.ok() && got != (good ? 5 : -5)) sim::check_fail("wrong-callback", "Inspect called the wrong callback");
                calls(o, true, good, was, cb_throws, "Inspect");
                break;
            }
            default:
            {
                sim_trace("customize %d", j);
                arm();
                bool hv = !good;
                uint32_t n = 0;
                o = guarded([&] { hv = src.Customize([&](const X& y) -> bool { ++n; return y.HasValue(); }); });
                if (o.ok() && (hv != good || n != 1)) sim::check_fail("wrong-callback", "Customize did not call its callback once with the value");
                break;
            }
        }
        const bool fired = fired_;
        settle_cb(o, fired, cb_throws, i, want, "transformation");
    }
    void settle_cb(const sim::Outcome& o, bool fired, bool cb_throws, int i, const M& want, const char* what)
    {
        settle(o, fired || (cb_throws && vcalls + ecalls > 0), i, want, what);
    }

    void see_value(const T& t, bool throws)
    {
        ++vcalls;
        vseen = K<T>::get(t);
        if (throws) boom();
    }
    void see_error(const E& e, bool throws)
    {
        ++ecalls;
        eseen = K<E>::get(e);
        if (throws) boom();
    }
    X on_value(const T& t, bool throws, bool to_value, int v)
    {
        see_value(t, throws);
        if (v % 2) return to_value ? from_named_value(v) : from_named(v);
        return to_value ? X(K<T>::make(v)) : X(UE(K<E>::make(v)));
    }
    X on_error(const E& e, bool throws, bool to_value, int v)
    {
        see_error(e, throws);
        if (v % 2) return to_value ? from_named_value(v) : from_named(v);
        return to_value ? X(K<T>::make(v)) : X(UE(K<E>::make(v)));
    }
    // The default content lives as long as the process: only payloads that are not counted
    template <int Tag> static void read_default(const X&, int&, const Pay<Tag>*) {}
    template <typename Q> static void read_default(const X& src, int& got, const Q*)
    {
        const bool good = src.HasValue();
        const T t(src.UnwrapOrDefault());
        const int v = K<T>::get(t);
        if (good || v != K<T>::get(T())) got = v;
    }
    // expect: the callback applies; it must have seen the content, once
    void calls(const sim::Outcome& o, bool expect, bool value, int was, bool boom, const char* what)
    {
        const uint32_t mine = value ? vcalls : ecalls, other = value ? ecalls : vcalls;
        if (other || mine > 1 || (mine && !expect) || (o.ok() && mine != (expect ? 1u : 0u))) sim::check_fail("wrong-callback", Str(what) + " called the callback that does not apply, or not once");
        if (mine && (value ? vseen : eseen) != was) sim::check_fail("wrong-callback", Str(what) + " gave its callback another content");
        if (boom && mine && o.ok()) sim::check_fail("exception-lost", Str(what) + " did not pass on the exception of its callback");
    }

    void run()
    {
        next = 0;
        throwing = sim::chance(800);
        memory = sim::chance(500);
        for (int i = 0; i < N; ++i) { x[i] = nullptr; make(i); }
        verify("construction");
        const uint32_t n = 1 + sim::choose(16);
        for (uint32_t k = 0; k < n; ++k) step();
        for (int i = 0; i < N; ++i) { X* p = x[i]; sim::lib([&] { delete p; }); }
        if (!book->live.empty()) sim::check_fail("payload-leaked", std::to_string(book->live.size()) + " payloads were never destroyed");
    }
};

uint32_t kind;

template <typename T, typename E>
void go() { World<T, E>* w = new World<T, E>; w->run(); delete w; }

void body()
{
    kind = sim::choose(7);
    thrown_kind = sim::choose(6);
    switch (kind)
    {
        case 0: go<Pay<0>, Pay<2> >(); break;
        case 1: go<Pay<1>, Pay<0> >(); break;
        case 2: go<Pay<0>, Pay<1> >(); break;
        case 3: go<Caitlyn::String, Caitlyn::String>(); break;
        case 4: go<int, Caitlyn::String>(); break;
        case 5: go<Pay<0>, Caitlyn::String>(); break;
        default: go<Caitlyn::String, int>(); break;
    }
}

}  // namespace

extern "C" void scenario_run(void)
{
    Book b;
    b.countdown = 0; b.persistent = false; b.thrown = 0;
    book = &b;
    steps = failed = 0;
    sim::leakcheck(body);
    sim_count("probe:operations that threw", failed);
    if (steps > 2) sim_nontrivial();
    static const char* const names[] = {"tracked value, tracked error", "copy-only value, tracked error", "tracked value, copy-only error", "two texts", "number, text", "tracked value, text", "text, number"};
    sim_sample("%s: %u steps, %u threw", names[kind], steps, failed);
}
